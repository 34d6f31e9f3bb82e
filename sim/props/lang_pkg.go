package props

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/glycerine/zygomys/v9/zygo"
)

// Packages: values of the reference evaluator, and programs that make
// them, pass them around and reach into them.

// Pk is a package: the scope its body ran in.
type Pk struct {
	name string
	sc   *RScope
	inFn bool // made while a function ran: its callers' scopes show through too
}

// Inf is an infix form: what it reads as, and what it means.
type Inf struct {
	L, Op string
	R     V // nil for ++ and --
	F     V
}

func infix(l, op string, r V) V {
	x := &Inf{L: l, Op: op, R: r}
	switch op {
	case "=", ":=":
		x.F = setV(l, r)
	case "+=", "-=":
		x.F = setV(l, call(op[:1], sy(l), r))
	case "++", "--":
		x.F = setV(l, call(op[:1], sy(l), num(1)))
	default:
		x.F = call(op, sy(l), r)
	}
	return x
}

func (p *printer) infix(x *Inf) {
	p.b.WriteString("{" + x.L)
	if x.R == nil {
		p.b.WriteString(x.Op + "}") // or a selection
		return
	}
	p.b.WriteString(" " + x.Op + " ")
	lay := p.lay
	p.lay = func() int { return 0 }
	p.form(x.R)
	p.lay = lay
	p.b.WriteString("}")
}

// plain says whether v can be an operand of an infix form.
func plainOperand(v V) bool {
	switch x := v.(type) {
	case int64:
		return x >= 0
	case Sy:
		return true
	case *Pr:
		h, ok := x.H.(Sy)
		return ok && h != "quote" && h != "unquote" && h != "syntaxQuote" && h != "-"
	}
	return false
}

func public(n string) bool { return unicode.IsUpper([]rune(n)[0]) }

// walk follows the path n from scope s. With set it gives the last
// member v.
func (r *Ref) walk(s *RScope, n string, set bool, v V) V {
	parts := strings.Split(n, ".")
	x := s.find(parts[0])
	if x == nil {
		panic(unmod{"a path that leads nowhere"})
	}
	cur := x.vars[parts[0]]
	inPkg := false
	for i, p := range parts[1:] {
		last := i == len(parts)-2
		switch c := cur.(type) {
		case *Pk:
			inPkg = true
			m, ok := c.sc.vars[p]
			if !ok {
				// what encloses the package shows through, as far
				// as a member of that name would
				if c.inFn {
					panic(unmod{"a member of what encloses the package"})
				}
				if y := c.sc.find(p); y == nil {
					raise("no-member")
				} else if _, isPk := y.vars[p].(*Pk); isPk || public(p) {
					panic(unmod{"a member of what encloses the package"})
				}
				raise("private")
			}
			_, isPk := m.(*Pk)
			if !public(p) && !(isPk && !(last && set)) {
				raise("private")
			}
			if last && set {
				c.sc.vars[p] = v
				return v
			}
			cur = m
		case *Ha:
			if last && set {
				c.set(Sy(p), v)
				return v
			}
			k := c.pos(Sy(p))
			if k < 0 {
				if inPkg {
					raise("no-field")
				}
				panic(unmod{"a path that leads nowhere"})
			}
			cur = c.W[k]
		default:
			if inPkg {
				raise("not-a-record")
			}
			panic(unmod{"a path that leads nowhere"})
		}
	}
	return cur
}

func (r *Ref) compPackage(a []V, c cctx) node {
	if len(a) < 2 {
		raise("compile")
	}
	name := ""
	switch x := a[0].(type) {
	case Sy:
		name = string(x)
	case string:
		name = x
	default:
		raise("compile")
	}
	b := r.compBody(a[1:], cctx{nil, c.fnLvl})
	return func(s *RScope) V {
		r.tick()
		sc := newRScope(s)
		b(sc)
		return &Pk{name, sc, r.depth > 0}
	}
}

// packages met in this dump, by number: they may contain themselves
var rdumpSeen map[*Pk]int

func rdumpPkg(b *strings.Builder, p *Pk, depth int) {
	if n, ok := rdumpSeen[p]; ok {
		fmt.Fprintf(b, "<package %s #%d>", p.name, n)
		return
	}
	if rdumpSeen == nil {
		rdumpSeen = map[*Pk]int{}
	}
	rdumpSeen[p] = len(rdumpSeen)
	b.WriteString("<package " + p.name)
	for _, n := range sortedKeys(p.sc.vars) {
		b.WriteString(" " + n + "=")
		rdump(b, p.sc.vars[n], depth+1)
	}
	b.WriteString(">")
}

func sortedKeys(m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (d *dumper) dumpPkg(p *zygo.Stack, depth int) {
	if n, ok := d.pkgs[p]; ok {
		fmt.Fprintf(d.b, "<package %s #%d>", p.PackageName, n)
		return
	}
	if d.pkgs == nil {
		d.pkgs = map[*zygo.Stack]int{}
	}
	d.pkgs[p] = len(d.pkgs)
	d.b.WriteString("<package " + p.PackageName)
	names, vals := zygo.VerifMembers(p)
	for i, n := range names {
		d.b.WriteString(" " + n + "=")
		d.dump(vals[i], depth+1)
	}
	d.b.WriteString(">")
}

// ---- programs ----

// Packages come in shapes: the names and kinds of their members. A
// variable that holds a package is of the kind of its shape.
const (
	kP0 kind = 100 // a package of shape k-kP0
	kQ0 kind = 200 // a hash with a package of shape k-kQ0 at pk and PK
)

type pmem struct {
	name string
	k    kind
}

type pshape struct {
	mem []pmem
}

var memFirst = []string{"A", "a", "É", "é", "_", "日", "Z", "z", "Ж", "ж", "ǅ"}

// mkShapes makes the shapes of a run; a shape contains later ones only.
func (g *gen) mkShapes() {
	t := g.t
	n := t.Range(1, 4)
	g.shapes = make([]pshape, n)
	for i := range g.shapes {
		have := map[string]bool{}
		sh := &g.shapes[i]
		for j, m := 0, t.Range(2, 6); j < m; j++ {
			k := []kind{kI, kF0, kF1, kH, kA}[t.Pick(5, 2, 3, 3, 1)]
			l := kindPrefix[k]
			if i+1 < n && t.Chance(1, 3) {
				s := i + 1 + t.Intn(n-i-1)
				k, l = kP0+kind(s), fmt.Sprintf("p%d", s)
				if t.Chance(1, 4) {
					k, l = kQ0+kind(s), fmt.Sprintf("q%d", s)
				}
			}
			nm := memFirst[t.Pick(8, 8, 2, 2, 2, 1, 2, 2, 1, 1, 1)] + l
			if t.Chance(1, 3) {
				nm += string("xY"[t.Intn(2)])
			}
			if !have[nm] {
				have[nm] = true
				sh.mem = append(sh.mem, pmem{nm, k})
			}
		}
	}
}

func (g *gen) freshP(k kind) string {
	l := "p"
	if k >= kQ0 {
		l, k = "q", k-kQ0
	} else {
		k -= kP0
	}
	return fmt.Sprintf("%s%dn%d", l, k, 1+g.t.Intn(g.cfg.pool))
}

// pkgE is an expression for a package of shape si.
func (g *gen) pkgE(si int, d int) V {
	t := g.t
	k := kP0 + kind(si)
	if n, ok := g.pick(k); ok && t.Chance(1, 4) {
		return sy(n)
	}
	if p, _, ok := g.pathTo(k); ok && t.Chance(1, 4) {
		// bound on the way, which resolves the path
		return call("let", arr(sy("p9"), sy(p)), sy("p9"))
	}
	var name V = "pk" + string("abc"[t.Intn(3)])
	if t.Chance(1, 4) {
		name = sy(name.(string))
	}
	items := []V{name}
	ls, nd := g.loops, g.noDef
	g.loops, g.noDef = nil, 0
	g.push(&gframe{})
	mem := g.shapes[si].mem
	off := t.Intn(len(mem))
	for i := range mem {
		m := mem[(i+off)%len(mem)]
		t.Span(func() { items = append(items, g.member(m, d-1)...) })
	}
	if t.Chance(1, 4) {
		items = append(items, g.expr(kI, d-1))
	}
	g.pop()
	g.loops, g.noDef = ls, nd
	return call("package", items...)
}

func (g *gen) member(m pmem, d int) []V {
	t := g.t
	var out []V
	if t.Chance(1, 6) && g.use() {
		out = append(out, g.stmt(d))
	}
	def := func(e V) {
		if plainOperand(e) && t.Chance(1, 5) && !g.visible(m.name) {
			out = append(out, infix(m.name, ":=", e))
		} else {
			out = append(out, defV(m.name, e))
		}
	}
	switch {
	case m.k == kI:
		if t.Bool() {
			def(num(g.serial()))
		} else {
			def(g.expr(kI, d))
		}
	case m.k == kF0 || m.k == kF1:
		undo := g.fnNameHidden(m.name, m.k)
		f := g.memFn(m.k, d)
		undo()
		xs, _ := unlist(f)
		if len(xs) > 2 && xs[0] == V(Sy("fn")) && t.Chance(2, 3) {
			out = append(out, call("defn", append([]V{sy(m.name)}, xs[1:]...)...))
		} else {
			out = append(out, defV(m.name, f))
		}
	case m.k == kH:
		inner := call("hash", sy("ka:"), num(g.serial()))
		def(call("hash", sy("ka:"), num(g.serial()), sy("Kb:"), num(g.serial()), sy([]string{"kh:", "Kh:"}[t.Intn(2)]), inner))
	case m.k == kA:
		def(arr(num(g.serial()), num(g.serial())))
	case m.k >= kQ0:
		def(g.hashOfPkg(int(m.k-kQ0), d))
	default:
		def(g.pkgE(int(m.k-kP0), d))
	}
	g.add(m.name, m.k)
	return out
}

func (g *gen) hashOfPkg(si, d int) V {
	return call("hash", sy("pk:"), g.pkgE(si, d), sy("PK:"), g.pkgE(si, d), sy("ka:"), num(g.serial()))
}

func (g *gen) serial() int {
	g.nser++
	return 1000 + g.nser
}

// memFn is a function that lives in a package: what it sees there it
// may read and change, whoever calls it.
func (g *gen) memFn(k kind, d int) V {
	t := g.t
	if t.Chance(1, 3) {
		return g.fnLit(paramKinds[k], kI, d)
	}
	n, ok := g.pick(kI)
	if !ok {
		return g.fnLit(paramKinds[k], kI, d)
	}
	var ps []V
	var a V = num(1)
	if k == kF1 {
		ps, a = []V{sy("i9")}, sy("i9")
	}
	switch t.Intn(8) {
	case 0:
		return fnOf(ps, sy(n))
	case 1:
		return fnOf(ps, setV(n, call("+", sy(n), a)))
	case 2:
		return fnOf(ps, infix(n, "+=", a), sy(n))
	case 3:
		return fnOf(ps, callE(fnOf([]V{sy("i8")}, setV(n, call("+", sy(n), sy("i8")))), a))
	case 4:
		if h, ok := g.pick(kH); ok {
			return fnOf(ps, infix(h+".ka", "=", a), call("+", num(0), sy(h+".ka")))
		}
	case 5:
		if p, _, ok := g.pathTo(kI); ok {
			return fnOf(ps, call("+", a, sy(p)))
		}
	case 6:
		if p, _, ok := g.pathTo(kI); ok {
			return fnOf(ps, setV(p, a), sy(n))
		}
	}
	return fnOf(ps, call("let", arr(sy("i8"), a), call("+", sy(n), sy("i8"))))
}

// pathTo is a path that leads to something of kind k, and whether each
// name on it is for all to use.
func (g *gen) pathTo(k kind) (path string, open bool, ok bool) {
	t := g.t
	for try := 0; try < 6; try++ {
		var roots []string
		var ks []kind
		seen := map[string]bool{}
		for i := len(g.fr) - 1; i >= 0; i-- {
			f := g.fr[i]
			for _, n := range f.order {
				if !seen[n] && f.vars[n] >= kP0 {
					roots, ks = append(roots, n), append(ks, f.vars[n])
				}
				seen[n] = true
			}
			for n := range f.hide {
				seen[n] = true
			}
		}
		if len(roots) == 0 {
			return "", false, false
		}
		i := t.Intn(len(roots))
		p, c := roots[i], ks[i]
		open := true
		for step := 0; step < 6; step++ {
			if c >= kQ0 {
				p += []string{".pk", ".PK"}[t.Intn(2)]
				c = c - kQ0 + kP0
				if c == k {
					return p, open, true
				}
				continue
			}
			if c < kP0 {
				break
			}
			if t.Chance(1, 40) && k == kI {
				// a name some other package has
				sh := g.shapes[t.Intn(len(g.shapes))]
				m := sh.mem[t.Intn(len(sh.mem))]
				return p + "." + m.name, false, m.k == k && !public(m.name)
			}
			// towards k, if this shape has it
			sh := g.shapes[c-kP0]
			var want []pmem
			for _, m := range sh.mem {
				if m.k == k || m.k >= kP0 || k == kI && m.k == kH {
					want = append(want, m)
				}
			}
			if len(want) == 0 {
				break
			}
			m := want[t.Intn(len(want))]
			p += "." + m.name
			if m.k < kP0 || m.k >= kQ0 {
				open = open && public(m.name)
			}
			c = m.k
			if c == k {
				return p, open, true
			}
			if c == kH {
				p += []string{".ka", ".Kb", ".kh.ka", ".Kh.ka"}[t.Intn(4)]
				return p, false, true // what the hash has may change
			}
		}
	}
	return "", false, false
}

// pkgRead is an int read through a path.
func (g *gen) pkgRead(d int) V {
	v, open := g.pkgRead1(d)
	if !open && g.hostOK() && !g.cfg.noCatch && g.t.Chance(3, 5) {
		return begin(call("hx", call("hcatch", fnOf(nil, v))), g.lit())
	}
	return v
}

func (g *gen) pkgRead1(d int) (V, bool) {
	p, k, open := g.pkgPath()
	if p == "" {
		return g.lit(), true
	}
	if open || !g.hostOK() {
		return g.pkgRead2(p, k, open, d), open
	}
	var v V
	// it may come to be inside a function
	g.inFn(func() { v = g.pkgRead2(p, k, open, d) })
	return v, open
}

func (g *gen) pkgPath() (string, kind, bool) {
	k := []kind{kI, kI, kF0, kF1, kH, kA}[g.t.Pick(4, 3, 2, 2, 1, 1)]
	p, open, _ := g.pathTo(k)
	return p, k, open
}

func (g *gen) pkgRead2(p string, k kind, open bool, d int) V {
	t := g.t
	P := sy(p)
	switch k {
	case kF0, kF1:
		var as []V
		if k == kF1 {
			as = []V{g.lit()}
			if t.Chance(1, 3) {
				as = []V{g.expr(kI, d-1)}
			}
		}
		switch t.Intn(5) {
		case 0:
			return callE(fnOf([]V{sy("f9")}, callE(sy("f9"), as...)), P)
		case 1:
			return call("let", arr(sy("f9"), P), callE(sy("f9"), as...))
		}
		return callE(P, as...)
	case kH:
		switch t.Intn(5) {
		case 4:
			return call("let", arr(sy("i9"), &Inf{L: p + "[%ka]", F: call("hget", P, quoteV(sy("ka")))}), sy("i9"))
		case 0:
			return call("hget", P, quoteV(sy("ka")))
		case 1:
			return call("let", arr(sy("h9"), P), call("hget", sy("h9"), quoteV(sy("Kb")), num(0)))
		case 2:
			return callE(fnOf([]V{sy("h9")}, call("+", num(0), sy("h9.ka"))), P)
		}
		return call("len", P)
	case kA:
		switch t.Intn(4) {
		case 3:
			return call("let", arr(sy("i9"), &Inf{L: p + "[0]", F: call("aget", P, num(0))}), sy("i9"))
		case 0:
			return call("len", P)
		case 1:
			return call("let", arr(sy("a9"), P), call("aget", sy("a9"), num(0)))
		}
		return callE(fnOf([]V{sy("a9")}, call("first", sy("a9"))), P)
	}
	n := 12
	if open {
		n = 15
	}
	switch t.Intn(n) {
	case 0:
		return call("let", arr(sy("i9"), P), sy("i9"))
	case 1:
		return callE(fnOf([]V{sy("i9")}, sy("i9")), P)
	case 2:
		return infix(p, []string{"+", "-", "*"}[t.Intn(3)], g.lit1())
	case 3:
		return call("cond", call([]string{"<", "==", ">="}[t.Intn(3)], P, num(g.nser+1000)), g.lit(), g.lit())
	case 4:
		if n, ok := g.pick(kI); ok {
			return setV(n, P)
		}
	case 5:
		if n, ok := g.pick(kI); ok {
			return begin(infix(n, "=", P), sy(n))
		}
	case 6:
		if g.noDef == 0 {
			n := g.fresh(kI)
			g.add(n, kI)
			if t.Bool() {
				return begin(infix(n, ":=", P), sy(n))
			}
			return defV(n, P)
		}
	case 7:
		if q, _, ok := g.pathTo(kI); ok {
			return call([]string{"+", "-", "*"}[t.Intn(3)], P, sy(q))
		}
	case 8:
		// from a function of its own
		return callE(fnOf(nil, call("let", arr(sy("i9"), num(1)), callE(fnOf(nil, call("+", P, sy("i9")))))))
	case 9:
		if g.hostOK() {
			return begin(call("hx", call("hcatch", fnOf(nil, call("+", P, num(0))))), g.lit())
		}
	case 10:
		return call("letseq", arr(sy("i9"), P, sy("i8"), call("+", sy("i9"), num(1))), sy("i8"))
	case 12:
		return callE(fnOf(nil, g.lit(), P))
	case 13:
		return callE(callE(fnOf(nil, fnOf(nil, P))))
	case 14:
		return call("cond", true, P, num(0))
	}
	return call([]string{"+", "-", "*"}[t.Intn(3)], P, g.lit())
}

func (g *gen) lit1() V { return num(g.t.Intn(9)) }

// pkgWrite changes what a path leads to.
func (g *gen) pkgWrite(d int) V {
	if g.hostOK() && !g.cfg.noCatch && g.t.Chance(1, 4) {
		var v V
		g.inFn(func() { v = g.pkgWrite1(d) })
		return begin(call("hx", call("hcatch", fnOf(nil, v))), g.lit())
	}
	return g.pkgWrite1(d)
}

func (g *gen) pkgWrite1(d int) V {
	t := g.t
	k := []kind{kI, kF0, kF1, kH, kA}[t.Pick(9, 1, 1, 2, 1)]
	if t.Chance(1, 8) && len(g.shapes) > 1 {
		k = kP0 + kind(1+t.Intn(len(g.shapes)-1))
	}
	p, _, ok := g.pathTo(k)
	if !ok {
		return g.expr(kI, d)
	}
	if (k == kH || k == kA) && t.Bool() {
		n := num(g.serial())
		x := &Inf{L: p + "[%ka]", Op: "=", R: n, F: call("hset", sy(p), quoteV(sy("ka")), n)}
		if k == kA {
			x.L, x.F = p+"[0]", call("aset", sy(p), num(0), n)
		}
		return begin(x, g.lit())
	}
	var e V
	switch {
	case k == kI:
		switch t.Intn(7) {
		case 0:
			return begin(infix(p, []string{"++", "--"}[t.Intn(2)], nil), g.lit())
		case 1:
			return begin(infix(p, []string{"+=", "-="}[t.Intn(2)], g.lit1()), g.lit())
		case 2:
			if q, _, ok := g.pathTo(kI); ok {
				return begin(infix(p, "=", sy(q)), g.lit())
			}
		}
		e = num(g.serial())
		if t.Chance(1, 4) {
			e = g.expr(kI, d-1)
		}
	case k == kF0 || k == kF1:
		e = fnOf([]V{sy("i9")}[:len(paramKinds[k])], num(g.serial()))
	case k == kH:
		if t.Bool() {
			return call("hset", sy(p), quoteV(sy("ka")), num(g.serial()))
		}
		e = call("hash", sy("ka:"), num(g.serial()), sy("Kb:"), num(g.serial()))
	case k == kA:
		e = arr(num(g.serial()))
	default:
		e = g.pkgE(int(k-kP0), d-1)
		return begin(setV(p, e), g.lit())
	}
	if plainOperand(e) && t.Bool() {
		return begin(infix(p, []string{"=", ":="}[t.Intn(2)], e), g.lit())
	}
	return begin(setV(p, e), g.lit())
}

// pkgBind makes a package, or a name for one.
func (g *gen) pkgBind(d int) V {
	t := g.t
	si := t.Intn(len(g.shapes))
	k := kP0 + kind(si)
	var e V
	if p, _, ok := g.pathTo(k); ok && t.Bool() {
		e = sy(p)
	} else if t.Chance(1, 5) {
		k = kQ0 + kind(si)
		e = g.hashOfPkg(si, d)
	} else {
		e = g.pkgE(si, d)
	}
	n := g.freshP(k)
	switch t.Intn(4) {
	case 0:
		return begin(call("let", arr(sy(n), e), g.scope(func() V { g.noDef++; defer func() { g.noDef-- }(); g.add(n, k); return g.pkgUse(d) })), g.lit())
	case 1:
		var f V
		g.inFn(func() {
			g.add(n, k)
			f = fnOf([]V{sy(n)}, g.pkgUse(d))
		})
		return callE(f, e)
	}
	if g.noDef > 0 {
		return g.expr(kI, d)
	}
	g.add(n, k)
	return begin(defV(n, e), g.lit())
}

func (g *gen) pkgUse(d int) V {
	switch g.t.Pick(5, 3, 1) {
	case 1:
		return g.pkgWrite(d - 1)
	case 2:
		return g.expr(kI, d-1)
	}
	return g.pkgRead(d - 1)
}

// forget drops global names that are not bound after all.
func (g *gen) forget(r *Ref) {
	f := g.fr[0]
	var keep []string
	for _, n := range f.order {
		if _, ok := r.glob.vars[n]; ok {
			keep = append(keep, n)
		} else {
			delete(f.vars, n)
		}
	}
	f.order = keep
}
