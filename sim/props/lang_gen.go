package props

import (
	"math"
	"strconv"

	"verifsim/core"
)

// Generator of core-language programs. Every name carries its kind, so
// that most programs run to a value; mistakes are made on purpose, at a
// rate the property under check chooses. All decisions come from the
// run's choice source.

type kind int

const (
	kI kind = iota
	kB
	kS
	kA // array of ints
	kL // list of ints
	kH // hash of ints by symbols
	kF0
	kF1
	kF2
	kFV // variadic
	kFA // array -> int
	kFH // (int -> int) -> int
	kFM // int -> (int -> int)
	kLz // lazy formal
	kLf // lazy formal for a function
	nKinds
)

var kindPrefix = [nKinds]string{"i", "b", "s", "a", "l", "h", "z", "f", "g", "r", "q", "p", "m", "#y", "#f"}

type gframe struct {
	vars  map[string]kind
	order []string
	hide  map[string]bool // names not to be used from inside this frame
	fn    bool            // function boundary
	cond  bool            // not a scope: an arm that may not run
}

type genCfg struct {
	pool      int  // names per kind
	size      int  // nodes per program
	depth     int  // nesting
	errNum    int  // deliberate errors per 1000 expressions
	host      bool // host calls
	scopey    bool // favour scopes and closures
	calls     bool // favour calls through every route
	tail      bool // favour tail calls
	exprBreak bool // break and continue inside expressions
	deep      bool // nest functions deeply
	lazy      bool // lazy formals
	typed     bool // func
	noCatch   bool
	macros    bool // replace expressions by macro calls that expand to them
	texts     int  // at most (5 if 0)
	data      bool // favour arrays and hashes, and changing them
	keep      bool // have the host keep closures and call them back
	tailOnly  bool // self calls in tail position only
	pkgs      bool // packages
	stray     int  // names that may be bound elsewhere only, per 1000 ints
}

type gen struct {
	t    *core.T
	cfg  genCfg
	left int
	fr   []*gframe
	// loops around the current point, in the current function
	loops   []string
	noDef   int
	noFn    int
	labels  int
	inLet   []map[string]bool
	pure    int // no host calls, no effects
	errs    int
	callees int
	pre     []V // definitions of macros used
	nmac    int
	gens    map[string]bool // macros that generate names
	shapes  []pshape
	nser    int
	typed   map[string][]V // the names of the formals of functions made by func
}

func newGen(t *core.T, cfg genCfg) *gen {
	g := &gen{t: t, cfg: cfg, left: cfg.size, typed: map[string][]V{}, gens: map[string]bool{}}
	g.push(&gframe{})
	if cfg.pkgs {
		g.mkShapes()
	}
	return g
}

func (g *gen) push(f *gframe) *gframe {
	f.vars = map[string]kind{}
	g.fr = append(g.fr, f)
	return f
}
func (g *gen) pop() { g.fr = g.fr[:len(g.fr)-1] }

// add registers a name in the current scope (or the current arm).
func (g *gen) add(n string, k kind) {
	f := g.fr[len(g.fr)-1]
	if _, ok := f.vars[n]; !ok {
		f.order = append(f.order, n)
	}
	f.vars[n] = k
}

// vis lists visible names of a kind, innermost first.
func (g *gen) vis(k kind) []string {
	var out []string
	seen := map[string]bool{}
	for i := len(g.fr) - 1; i >= 0; i-- {
		f := g.fr[i]
		for j := len(f.order) - 1; j >= 0; j-- {
			n := f.order[j]
			if !seen[n] && f.vars[n] == k {
				out = append(out, n)
			}
			seen[n] = true
		}
		for n := range f.hide {
			seen[n] = true
		}
	}
	return out
}

func (g *gen) visible(n string) bool {
	for i := len(g.fr) - 1; i >= 0; i-- {
		if _, ok := g.fr[i].vars[n]; ok {
			return true
		}
		if g.fr[i].hide[n] {
			return false
		}
	}
	return false
}

// inScope says whether n is defined in the current scope already.
func (g *gen) inScope(n string) bool {
	for i := len(g.fr) - 1; i >= 0; i-- {
		if _, ok := g.fr[i].vars[n]; ok {
			return true
		}
		if !g.fr[i].cond {
			return false
		}
	}
	return false
}

func (g *gen) pick(k kind) (string, bool) {
	v := g.vis(k)
	if len(v) == 0 {
		return "", false
	}
	// innermost and outermost are both interesting
	return v[g.t.Intn(len(v))], true
}

// fresh is any name of the pool of that kind.
func (g *gen) fresh(k kind) string {
	return kindPrefix[k] + strconv.Itoa(1+g.t.Intn(g.cfg.pool))
}

// upTo is a size: mostly a small one, sometimes one beyond what the few
// operands of ordinary code reach.
func (g *gen) upTo(lo, hi int) int {
	if g.t.Chance(1, 16) && g.left > 0 {
		g.t.Probe("wide")
		return hi + g.t.Range(1, 6)
	}
	return g.t.Range(lo, hi)
}

var keyNames = []string{"ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh", "ki"}

func (g *gen) keyName() string {
	if g.t.Chance(1, 12) {
		return keyNames[g.t.Intn(len(keyNames))]
	}
	return keyNames[g.t.Intn(3)]
}

func (g *gen) use() bool {
	g.left--
	return g.left > 0
}

func sy(n string) V                 { return Sy(n) }
func call(h string, a ...V) V       { return list(append([]V{Sy(h)}, a...)...) }
func arr(e ...V) V                  { return &Ar{E: e} }
func num(n int) V                   { return int64(n) }
func fnOf(ps []V, body ...V) V      { return call("fn", append([]V{arr(ps...)}, body...)...) }
func callE(f V, a ...V) V           { return list(append([]V{f}, a...)...) }
func quoteV(v V) V                  { return call("quote", v) }
func begin(a ...V) V                { return call("begin", a...) }
func defV(n string, v V) V          { return call("def", sy(n), v) }
func setV(n string, v V) V          { return call("set", sy(n), v) }
func cat(a []V, b ...V) []V         { return append(append([]V{}, a...), b...) }
func lab(n string) V                { return sy(n) }
func (g *gen) lit() V               { return num([]int{0, 1, 2, 3, 5, -1, 7, 10, 100}[g.t.Intn(9)]) }
func (g *gen) small() V             { return num(g.t.Intn(3)) }
func (g *gen) oneOf(n int) int      { return g.t.Intn(n) }
func (g *gen) simple(d int) bool    { return d <= 0 || g.left <= 0 }
func (g *gen) hostOK() bool         { return g.cfg.host && g.pure == 0 }
func (g *gen) key() V               { return quoteV(sy(g.keyName())) }
func (g *gen) frame() *gframe       { return g.fr[len(g.fr)-1] }
func (g *gen) arm(f func() V) V     { g.push(&gframe{cond: true}); defer g.pop(); return f() }
func (g *gen) scope(f func() V) V   { g.push(&gframe{}); defer g.pop(); return f() }
func (g *gen) maybe(n, of int) bool { return g.t.Chance(n, of) }

// expr generates an expression whose value is of kind k.
func (g *gen) expr(k kind, d int) (v V) {
	g.t.Span(func() { v = g.expr1(k, d) })
	return
}

func (g *gen) expr1(k kind, d int) V {
	if g.cfg.macros && d > 0 {
		if g.maybe(1, 14) {
			v := g.expr2(k, d)
			return g.macroize(v)
		}
		if g.maybe(1, 16) && g.left > 0 {
			return g.libUse(k, d)
		}
	}
	return g.expr2(k, d)
}

func (g *gen) expr2(k kind, d int) V {
	g.use()
	if g.cfg.errNum > 0 && g.maybe(g.cfg.errNum, 1000) {
		return g.mistake(d)
	}
	switch k {
	case kI:
		if g.cfg.stray > 0 && g.maybe(g.cfg.stray, 1000) {
			return g.strayE()
		}
		return g.intE(d)
	case kB:
		return g.boolE(d)
	case kS:
		return g.strE(d)
	case kA:
		return g.arrE(d)
	case kL:
		return g.listE(d)
	case kH:
		return g.hashE(d)
	}
	return g.fnE(k, d)
}

// strayE refers to a name that need not be in scope here.
func (g *gen) strayE() V {
	n := sy(kindPrefix[kI] + strconv.Itoa(1+g.t.Intn(g.cfg.pool+1)))
	if g.hostOK() && !g.cfg.noCatch && g.maybe(2, 3) {
		if g.maybe(1, 3) {
			// in a function of its own
			return begin(call("hx", call("hcatch", fnOf(nil, call("hx"), callE(fnOf(nil, n))))), g.lit())
		}
		return begin(call("hx", call("hcatch", fnOf(nil, n))), g.lit())
	}
	return n
}

var numLits = []V{
	0.5, 1.5, -2.5, 3.0, 0.0, 1e6, -1e20, 0.1, 7.0, 97.0,
	int64(0), int64(2), int64(-3), int64(7), int64(97),
	int64(math.MaxInt64), int64(math.MinInt64 + 1), int64(1) << 62, -(int64(1) << 62), int64(1) << 53, int64(1)<<53 + 1, int64(1) << 32, int64(-1) << 31,
	Ch('a'), Ch('b'), Ch('0'),
}

// numE generates a number of whatever kind: floats, characters, integers near
// the ends of their range, and what comes of combining them.
func (g *gen) numE(d int) V {
	t := g.t
	if g.simple(d) || t.Chance(1, 3) {
		t.Probe("number")
		return numLits[t.Intn(len(numLits))]
	}
	var a []V
	for i, n := 0, g.upTo(2, 3); i < n; i++ {
		if t.Chance(1, 4) {
			a = append(a, g.expr(kI, d-1))
			continue
		}
		a = append(a, g.numE(d-1))
	}
	if t.Chance(1, 20) {
		a = a[:1]
		return call([]string{"+", "-", "/"}[t.Intn(3)], a...)
	}
	return call([]string{"+", "-", "*", "/"}[t.Pick(3, 3, 2, 2)], a...)
}

// any generates a value of some data kind.
func (g *gen) any(d int) V {
	if g.t.Chance(1, 16) {
		return g.numE(d)
	}
	return g.expr([]kind{kI, kI, kS, kA, kB, kL, kH}[g.t.Intn(7)], d)
}

func (g *gen) boolE(d int) V {
	t := g.t
	if g.simple(d) {
		if n, ok := g.pick(kB); ok && t.Bool() {
			return sy(n)
		}
		return t.Bool()
	}
	if g.cfg.lazy && t.Chance(1, 10) {
		if n, ok := g.pick(kLz); ok {
			return call("==", call("type?", sy(n)), "lazyArg")
		}
	}
	switch t.Pick(6, 1, 2, 2, 2, 2, 1, 1) {
	case 0:
		if t.Chance(1, 8) {
			return call([]string{"<", ">", "<=", ">=", "==", "!="}[t.Intn(6)], g.numE(d-1), g.numE(d-1))
		}
		return call([]string{"<", ">", "<=", ">=", "==", "!="}[t.Intn(6)], g.expr(kI, d-1), g.expr(kI, d-1))
	case 1:
		return t.Bool()
	case 2:
		return call("not", g.expr([]kind{kB, kI, kL}[t.Intn(3)], d-1))
	case 3:
		return g.andOr(kB, d)
	case 4:
		if n, ok := g.pick(kB); ok {
			return sy(n)
		}
		return call("==", g.expr(kS, d-1), g.expr(kS, d-1))
	case 5:
		if g.hostOK() {
			return call("hb")
		}
		return call("==", g.expr(kL, d-1), g.expr(kL, d-1))
	case 6:
		return call([]string{"null?", "int?", "string?", "array?", "list?", "hash?", "symbol?", "func?", "number?", "zero?", "empty?", "float?"}[t.Intn(12)], g.any(d-1))
	default:
		return call("==", g.expr(kA, d-1), g.expr(kA, d-1))
	}
}

func (g *gen) strE(d int) V {
	t := g.t
	if n, ok := g.pick(kS); ok && (g.simple(d) || t.Chance(1, 4)) {
		return sy(n)
	}
	if g.simple(d) {
		return []V{"", "a", "bc", "x\"y"}[t.Intn(4)]
	}
	switch t.Pick(3, 3, 2, 1, 2, 2, 1, 1) {
	case 6:
		return call([]string{"chomp", "trim"}[t.Intn(2)], g.expr(kS, d-1))
	case 7:
		return call("sym2str", call("str2sym", g.expr(kS, d-1)))
	case 0:
		return []V{"", "a", "bc", "d\\e", "l\n", " s "}[t.Intn(6)]
	case 1:
		return call("concat", g.expr(kS, d-1), g.expr(kS, d-1))
	case 2:
		return call("str", g.expr(kI, d-1))
	case 3:
		return call("append", g.expr(kS, d-1), Ch([]rune{'a', 'Z', '0'}[t.Intn(3)]))
	case 4:
		return g.cond(kS, d)
	default:
		if g.hostOK() {
			return call("hs")
		}
		return g.wrap(kS, d)
	}
}

func (g *gen) arrE(d int) V {
	t := g.t
	if n, ok := g.pick(kA); ok && (g.simple(d) || t.Chance(1, 4)) {
		return sy(n)
	}
	if g.simple(d) {
		return arr(g.lit(), g.lit())
	}
	switch t.Pick(6, 2, 2, 3, 1, 1, 2, 2, 1, 2, 1) {
	case 9:
		return g.viaBuiltin(d)
	case 10:
		if t.Bool() {
			return call("makeArray", g.small(), g.expr(kI, d-1))
		}
		return call("appendslice", g.expr(kA, d-1), g.expr(kA, d-1))
	case 0:
		var e []V
		for i, n := 0, g.upTo(1, 4); i < n; i++ {
			e = append(e, g.expr(kI, d-1))
		}
		return arr(e...)
	case 1:
		return call("append", g.expr(kA, d-1), g.expr(kI, d-1))
	case 2:
		return call("concat", g.expr(kA, d-1), g.expr(kA, d-1))
	case 3:
		return call("map", g.expr(kF1, d-1), g.expr(kA, d-1))
	case 4:
		return call("rest", g.expr(kA, d-1))
	case 5:
		return call("slice", arr(g.expr(kI, d-1), g.expr(kI, d-1), g.lit()), g.small(), num(t.Range(2, 3)))
	case 6:
		return call("array", g.expr(kI, d-1), g.expr(kI, d-1))
	case 7:
		if g.hostOK() {
			return call("ha")
		}
		return g.wrap(kA, d)
	default:
		return g.cond(kA, d)
	}
}

// viaBuiltin gives an array that a builtin called through apply or map
// made: it must not be the array it was made of.
func (g *gen) viaBuiltin(d int) V {
	t := g.t
	switch t.Intn(8) {
	case 0, 1, 2:
		return call("apply", sy("array"), g.expr(kA, d-1))
	case 3:
		return call("apply", sy("array"), g.expr(kL, d-1))
	case 4:
		return call("apply", sy([]string{"concat", "appendslice"}[t.Intn(2)]), arr(g.expr(kA, d-1), g.expr(kA, d-1)))
	case 5:
		return call("apply", sy("append"), call("list", g.expr(kA, d-1), g.expr(kI, d-1)))
	case 6:
		return call("map", sy([]string{"first", "second", "len", "car"}[t.Intn(4)]), arr(g.expr(kA, d-1), arr(g.lit(), g.lit())))
	default:
		f := fnOf([]V{sy("&"), sy("l1")}, call("apply", sy("array"), sy("l1")))
		return call("apply", f, g.expr(kA, d-1))
	}
}

func (g *gen) listE(d int) V {
	t := g.t
	if n, ok := g.pick(kL); ok && (g.simple(d) || t.Chance(1, 4)) {
		return sy(n)
	}
	if g.simple(d) {
		return call("list", g.lit())
	}
	switch t.Pick(5, 2, 2, 1, 2, 1, 1, 1, 1) {
	case 8:
		if t.Bool() {
			return call("apply", sy("list"), g.expr(kA, d-1))
		}
		return call("apply", sy("cons"), arr(g.expr(kI, d-1), g.expr(kL, d-1)))
	case 0:
		var e []V
		for i, n := 0, g.upTo(1, 4); i < n; i++ {
			e = append(e, g.expr(kI, d-1))
		}
		return call("list", e...)
	case 1:
		return quoteV(list(g.lit(), g.lit()))
	case 2:
		return call("cons", g.expr(kI, d-1), g.expr(kL, d-1))
	case 3:
		return call("rest", g.expr(kL, d-1))
	case 4:
		if g.hostOK() && t.Chance(1, 4) {
			// a function with nothing to give for some elements
			f := fnOf([]V{sy("i8")}, call("cond", call("==", sy("i8"), num(t.Intn(5))), []V{sy("nil"), list()}[t.Intn(2)], sy("i8")))
			var as []V
			for i := g.upTo(3, 5); i > 0; i-- {
				as = append(as, num(t.Intn(5)))
			}
			src := call("list", as...)
			if t.Chance(1, 3) {
				src = arr(as...)
			}
			return begin(call("hx", call("map", f, src)), call("list", g.expr(kI, d-1)))
		}
		return call("map", g.expr(kF1, d-1), call("list", g.expr(kI, d-1), g.expr(kI, d-1)))
	case 5:
		return call("concat", call("list", g.expr(kI, d-1)), g.expr(kL, d-1))
	case 6:
		if g.hostOK() {
			return call("hl")
		}
		return g.wrap(kL, d)
	default:
		return g.wrap(kL, d)
	}
}

func (g *gen) hashE(d int) V {
	t := g.t
	if n, ok := g.pick(kH); ok && (g.simple(d) || t.Chance(1, 3)) {
		return sy(n)
	}
	var e []V
	n := g.upTo(1, 3)
	for i := 0; i < n; i++ {
		k := g.keyName()
		if n > 3 {
			k = keyNames[i]
		}
		e = append(e, sy(k+":"), g.expr(kI, d-1))
	}
	return call("hash", e...)
}

// wrap puts an expression of kind k into some block.
func (g *gen) wrap(k kind, d int) V {
	t := g.t
	switch t.Pick(3, 3, 3, 2, 2, 1, 1) {
	case 0:
		return g.let(k, d)
	case 1:
		return begin(g.body(k, d-1)...)
	case 2:
		return g.scope(func() V { return call("newScope", g.body(k, d-1)...) })
	case 3:
		return g.cond(k, d)
	case 4:
		// a thunk called at once
		return callE(g.fnLit(nil, k, d-1))
	case 5:
		return g.evalForm(k, d)
	default:
		if g.hostOK() {
			return call("hx", g.expr(k, d-1))
		}
		return call("begin", g.expr(k, d-1))
	}
}

func (g *gen) evalForm(k kind, d int) V {
	// compiled elsewhere: no loop control from inside
	ls := g.loops
	g.loops = nil
	defer func() { g.loops = ls }()
	g.noDef++
	defer func() { g.noDef-- }()
	e := g.arm(func() V { return g.expr(k, d-1) })
	return call("eval", quoteV(e))
}

func (g *gen) cond(k kind, d int) V {
	t := g.t
	var a []V
	n := g.upTo(1, 3)
	for i := 0; i < n; i++ {
		p := g.arm(func() V { return g.armBody([]kind{kB, kB, kB, kI}[t.Intn(4)], d-1) })
		a = append(a, p, g.arm(func() V { return g.armBody(k, d-1) }))
	}
	a = append(a, g.arm(func() V { return g.armBody(k, d-1) }))
	return call("cond", a...)
}

func (g *gen) armBody(k kind, d int) V {
	if len(g.loops) > 0 && g.cfg.exprBreak && g.maybe(1, 10) {
		if b := g.brk(); g.maybe(1, 2) {
			return b
		} else if g.maybe(1, 2) {
			// on some rounds only
			return begin(call("cond", g.expr(kB, d-1), b, num(0)), g.expr(k, d))
		} else {
			return begin(b, g.expr(k, d))
		}
	}
	return g.expr(k, d)
}

func (g *gen) andOr(k kind, d int) V {
	t := g.t
	var a []V
	n := g.upTo(1, 3)
	for i := 0; i < n; i++ {
		kk := k
		a = append(a, g.arm(func() V { return g.armBody(kk, d-1) }))
	}
	return call([]string{"and", "or"}[t.Intn(2)], a...)
}

func (g *gen) let(k kind, d int) V {
	t := g.t
	seq := t.Bool()
	n := g.upTo(1, 3)
	g.push(&gframe{})
	defer g.pop()
	type bnd struct {
		n string
		k kind
	}
	var bs []bnd
	have := map[string]bool{}
	for i := 0; i < n; i++ {
		kk := []kind{kI, kI, kF1, kA, kS, kB, kF0, kF2, kFV, kL}[t.Pick(6, 4, 3, 2, 1, 1, 2, 1, 1, 1)]
		nm := g.fresh(kk)
		if have[nm] && n > 3 {
			nm = kindPrefix[kk] + strconv.Itoa(i+3)
		}
		if have[nm] {
			continue
		}
		have[nm] = true
		bs = append(bs, bnd{nm, kk})
	}
	var es []V
	for i, b := range bs {
		// a closure made here could see this and later names: whether
		// it should is not settled, so it does not mention them.
		hide := map[string]bool{}
		for j, c := range bs {
			if !seq || j >= i {
				hide[c.n] = true
			}
		}
		g.inLet = append(g.inLet, hide)
		g.noDef++
		e := g.arm(func() V { return g.expr(b.k, d-1) })
		g.noDef--
		g.inLet = g.inLet[:len(g.inLet)-1]
		es = append(es, sy(b.n), e)
		if seq {
			g.add(b.n, b.k)
		}
	}
	if !seq {
		for _, b := range bs {
			g.add(b.n, b.k)
		}
	}
	nd := g.noDef
	g.noDef = 0
	body := g.body(k, d-1)
	g.noDef = nd
	return call(map[bool]string{false: "let", true: "letseq"}[seq], cat([]V{arr(es...)}, body...)...)
}

// body is a sequence of statements and an expression of kind k.
func (g *gen) body(k kind, d int) []V {
	var out []V
	n := g.t.Pick(4, 3, 2, 1)
	if n == 3 {
		n = g.upTo(3, 3)
	}
	if g.simple(d) {
		n = 0
	}
	for i := 0; i < n && g.left > 0; i++ {
		out = append(out, g.stmt(d))
	}
	return append(out, g.expr(k, d))
}

var paramKinds = map[kind][]kind{
	kF0: {}, kF1: {kI}, kF2: {kI, kI}, kFV: {}, kFA: {kA}, kFH: {kF1}, kFM: {kI},
}

func retKind(k kind) kind {
	if k == kFM {
		return kF1
	}
	return kI
}

// inFn generates what is inside a function.
func (g *gen) inFn(f func()) {
	hide := map[string]bool{}
	for _, m := range g.inLet {
		for n := range m {
			hide[n] = true
		}
	}
	ls, nd, il := g.loops, g.noDef, g.inLet
	g.loops, g.noDef, g.inLet = nil, 0, nil
	g.push(&gframe{fn: true, hide: hide})
	f()
	g.pop()
	g.loops, g.noDef, g.inLet = ls, nd, il
}

// fnLit is (fn [params] body) with a body of kind k.
func (g *gen) fnLit(pk []kind, k kind, d int) V {
	var out V
	g.inFn(func() {
		ps := g.params(pk)
		b := g.body(k, d-1)
		if g.cfg.typed && intFormals(pk) && g.maybe(1, 6) {
			out = call("func", cat([]V{withTypes(ps), arr(sy("r:"), sy("int64"))}, b...)...)
			return
		}
		out = fnOf(ps, b...)
	})
	return out
}

func (g *gen) params(pk []kind) []V {
	var ps []V
	have := map[string]bool{}
	for _, k := range pk {
		if g.cfg.lazy {
			if k == kI && g.maybe(1, 2) {
				k = kLz
			} else if k == kF1 && g.maybe(1, 2) {
				k = kLf
			}
		}
		n := g.fresh(k)
		for i := 1; have[n]; i++ {
			n = kindPrefix[k] + strconv.Itoa(i)
		}
		have[n] = true
		ps = append(ps, sy(n))
		g.add(n, k)
	}
	return ps
}

func (g *gen) fnE(k kind, d int) V {
	t := g.t
	if g.cfg.lazy && k == kF1 && t.Chance(1, 4) {
		if n, ok := g.pick(kLf); ok {
			return call("force", sy(n))
		}
	}
	if n, ok := g.pick(k); ok && (g.simple(d) || t.Chance(2, 3)) {
		return sy(n)
	}
	if g.noFn > 0 && k == kF1 {
		return sy("-")
	}
	if g.simple(d) {
		// the shortest functions
		switch k {
		case kF0:
			return fnOf(nil, g.lit())
		case kF1:
			return fnOf([]V{sy("i1")}, call("+", sy("i1"), g.lit()))
		case kF2:
			return sy([]string{"+", "-", "*"}[t.Intn(3)])
		case kFV:
			return sy("+")
		case kFA:
			return sy("len")
		case kFH:
			return fnOf([]V{sy("f1")}, callE(sy("f1"), g.lit()))
		default:
			return fnOf([]V{sy("i1")}, fnOf([]V{sy("i2")}, call("+", sy("i1"), sy("i2"))))
		}
	}
	switch t.Pick(6, 2, 1, 1) {
	case 0:
	case 1:
		if k == kF1 {
			if n, ok := g.pick(kFM); ok {
				return callE(sy(n), g.expr(kI, d-1))
			}
		}
	case 2:
		return g.cond(k, d)
	default:
		return g.let(k, d)
	}
	if k == kFV {
		return g.variadic(d)
	}
	return g.fnLit(paramKinds[k], retKind(k), d)
}

func (g *gen) variadic(d int) V {
	var out V
	g.inFn(func() {
		var ps []V
		if g.t.Bool() {
			ps = g.params([]kind{kI})
		}
		n := g.fresh(kL)
		g.add(n, kL)
		ps = append(ps, sy("&"), sy(n))
		out = fnOf(ps, g.body(kI, d-1)...)
	})
	return out
}

// intE is where most of the language is.
func (g *gen) intE(d int) V {
	t := g.t
	if g.cfg.lazy && t.Chance(1, 3) {
		if n, ok := g.pick(kLz); ok {
			return g.lazyUse(n, d)
		}
	}
	if n, ok := g.pick(kI); ok && (g.simple(d) || t.Chance(1, 5)) {
		return sy(n)
	}
	if g.simple(d) {
		return g.lit()
	}
	if g.cfg.pkgs && t.Chance(1, 3) {
		if v := g.pkgRead(d); v != nil {
			return v
		}
	}
	if n, ok := g.pick(kH); ok && t.Chance(1, 8) {
		return g.path(n, d)
	}
	if g.cfg.lazy && g.hostOK() && t.Chance(1, 10) {
		return g.lazyOther(d)
	}
	cw, sw, hw := 6, 3, 0
	if g.cfg.calls {
		cw = 10
	}
	if g.cfg.scopey {
		sw = 8
	}
	if g.hostOK() {
		hw = 3
	}
	switch t.Pick(2, 5, cw, sw, 3, 2, 2, hw, 2, 2) {
	case 0:
		return g.lit()
	case 1:
		op := []string{"+", "-", "*", "+", "-", "mod", "bit"}[t.Intn(7)]
		if op == "bit" {
			switch t.Intn(3) {
			case 0:
				return call("bitNot", g.expr(kI, d-1))
			case 1:
				return call([]string{"sll", "sra", "srl"}[t.Intn(3)], g.expr(kI, d-1), num(t.Intn(5)))
			}
			return call([]string{"bitAnd", "bitOr", "bitXor"}[t.Intn(3)], g.expr(kI, d-1), g.expr(kI, d-1))
		}
		if op == "mod" {
			return call("mod", g.expr(kI, d-1), num(t.Range(2, 5)))
		}
		a := []V{g.expr(kI, d-1), g.expr(kI, d-1)}
		if t.Chance(1, 4) {
			a = append(a, g.expr(kI, d-1))
		}
		return call(op, a...)
	case 2:
		return g.callI(d)
	case 3:
		return g.wrap(kI, d)
	case 4:
		return g.cond(kI, d)
	case 5:
		return g.andOr(kI, d)
	case 6:
		if n, ok := g.pick(kI); ok {
			return setV(n, g.expr(kI, d-1))
		}
		return g.defI(d)
	case 7:
		if g.cfg.keep && t.Chance(1, 3) {
			return call("hpoke")
		}
		if t.Bool() {
			return call("hi")
		}
		return call("hx", g.args(d-1)...)
	case 8:
		switch t.Intn(6) {
		case 5:
			return call([]string{"first", "car", "second"}[t.Intn(3)], g.expr([]kind{kA, kL}[t.Intn(2)], d-1))
		case 0:
			return call("len", g.expr([]kind{kA, kL, kS, kH}[t.Intn(4)], d-1))
		case 1:
			return call("aget", g.expr(kA, d-1), g.small(), g.expr(kI, d-1))
		case 2:
			return call("hget", g.expr(kH, d-1), g.key(), g.expr(kI, d-1))
		case 3:
			return call("first", call("cons", g.expr(kI, d-1), g.expr(kL, d-1)))
		default:
			return call("aget", call("map", g.expr(kF1, d-1), arr(g.expr(kI, d-1), g.expr(kI, d-1))), g.small(), g.lit())
		}
	default:
		if g.noDef == 0 {
			return begin(g.forLoop(d), g.expr(kI, d-1))
		}
		return g.wrap(kI, d)
	}
}

// path reads or writes a member of the hash n by a dot path, where the
// language resolves it.
func (g *gen) path(n string, d int) V {
	t := g.t
	m := []string{"ka", "kb", "kc"}[t.Intn(3)]
	p := sy(n + "." + m)
	// it exists
	pre := V(setV(n+"."+m, g.arm(func() V { return g.expr(kI, d-1) })))
	if t.Bool() {
		pre = call("hset", sy(n), quoteV(sy(m)), g.arm(func() V { return g.expr(kI, d-1) }))
	}
	var use V
	switch t.Intn(7) {
	case 0:
		use = p
	case 1:
		// not with an expression, which may change what the path leads
		// to: see the listed finding.
		use = call([]string{"+", "-", "*"}[t.Intn(3)], p, g.lit())
	case 2:
		// an argument
		x := g.fresh(kI)
		g.inFn(func() {
			g.add(x, kI)
			use = callE(fnOf([]V{sy(x)}, g.body(kI, d-1)...), p)
		})
	case 3:
		// the value of a closure
		use = callE(callE(fnOf(nil, fnOf(nil, p))))
	case 4:
		use = callE(callE(fnOf(nil, call("let", arr(sy("i9"), num(1)), fnOf(nil, call("+", p, num(1)))))))
	case 5:
		use = call("cond", call("<", p, g.lit()), p, g.arm(func() V { return g.expr(kI, d-1) }))
	default:
		g.noDef++
		use = g.scope(func() V {
			g.add(n, -1)
			// among variables of the same name
			f := fnOf([]V{sy("i9"), sy(n)}, sy("i9"))
			return callE(f, p, g.lit())
		})
		g.noDef--
	}
	return begin(pre, use)
}

// lazyUse gives an int by way of the lazy formal n.
func (g *gen) lazyUse(n string, d int) V {
	t := g.t
	y := sy(n)
	if g.simple(d) {
		return call("force", y)
	}
	switch t.Pick(8, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1) {
	case 1:
		if g.hostOK() {
			return call("force", call("hx", y))
		}
	case 2:
		if g.hostOK() {
			return begin(call("hx", call("substitute", y)), call("force", y))
		}
	case 3:
		return call("+", call("force", y), call("force", y))
	case 4:
		// given on to a strict function
		return callE(fnOf([]V{sy("y9")}, call("force", sy("y9"))), y)
	case 5:
		// and to a lazy one
		return callE(fnOf([]V{sy("#y9")}, call("force", call("force", sy("#y9")))), y)
	case 6:
		if t.Bool() {
			return call("force", call("aget", arr(num(1), y), num(1)))
		}
		return call("force", call("hget", call("hash", sy("ka:"), y), quoteV(sy("ka"))))
	case 7:
		return call("eval", call("substitute", y))
	case 8:
		return callE(fnOf(nil, call("force", y)))
	case 9:
		if g.noDef == 0 {
			m := g.fresh(kLz)
			g.add(m, kLz)
			return begin(defV(m, y), call("force", sy(m)))
		}
	case 10:
		return call("force", call("cond", g.arm(func() V { return g.expr(kB, d-1) }), y, num(3)))
	case 11:
		return begin(callE(fnOf([]V{sy("#y9")}, call("substitute", sy("#y9"))), y), g.expr(kI, d-1))
	}
	return call("force", y)
}

// lazyOther gives an int by calling a function with a lazy formal for an
// argument of any kind, nil included.
func (g *gen) lazyOther(d int) V {
	t := g.t
	z := sy("#" + []string{"za", "zb"}[t.Intn(2)])
	force := call("force", z)
	arg := g.arm(func() V {
		switch t.Pick(3, 2, 2, 2, 1) {
		case 0:
			if g.hostOK() {
				return call("hn")
			}
		case 1:
			return begin(g.expr(kI, d-1), sy("nil"))
		case 2:
			if g.hostOK() {
				return call([]string{"hb", "hs", "ha", "hl"}[t.Intn(4)])
			}
		case 3:
			return g.any(d - 1)
		}
		if n, ok := g.pick(kI); ok {
			return begin(setV(n, call("+", sy(n), num(1))), []V{sy("nil"), sy(n), list()}[t.Intn(3)])
		}
		return begin(g.any(d-1), list())
	})
	var ps, as []V
	var f V
	g.inFn(func() {
		if t.Chance(1, 4) {
			ps, as = g.params([]kind{kI}), []V{nil}
		}
		ps, as = append(ps, z), append(as, arg)
		rest := ""
		if t.Chance(1, 4) {
			rest = g.fresh(kL)
			g.add(rest, kL)
			ps = append(ps, sy("&"), sy(rest))
		}
		var b []V
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			switch t.Pick(4, 1, 2, 2, 2, 2, 2) {
			case 0:
				b = append(b, call("hx", force))
			case 1:
				b = append(b, call("hx", call("substitute", z)))
			case 2:
				b = append(b, call("hx", callE(fnOf(nil, call("hx"), force))))
			case 3:
				b = append(b, call("cond", call("null?", force), call("hx", num(1)), call("hx", num(2))))
			case 4:
				b = append(b, call("hx", callE(fnOf([]V{sy("#zc")}, call("force", call("force", sy("#zc")))), z)))
			case 5:
				b = append(b, call("hx", call("list", force, force)))
			default:
				if g.cfg.noCatch {
					b = append(b, call("hx", call("map", fnOf([]V{sy("i1")}, force), arr(num(1), num(2)))))
					break
				}
				b = append(b, call("hcatch", fnOf(nil, call("hx", force))))
			}
		}
		b = append(b, g.expr(kI, d-1))
		f = fnOf(ps, b...)
	})
	for i := range as {
		if as[i] == nil {
			as[i] = g.arm(func() V { return g.expr(kI, d-1) })
		}
	}
	switch route := t.Pick(6, 2, 2, 1, 1); {
	case route == 1:
		return call("let", arr(sy("q9"), f), callE(sy("q9"), as...))
	case route == 2:
		return call("apply", f, arr(as...))
	case route == 3 && len(as) == 1:
		return call("first", call("map", f, arr(as...)))
	case route == 4:
		return call("hcall", cat([]V{f}, as...)...)
	}
	return callE(f, as...)
}

// args are the arguments of a host call: a few things to record.
func (g *gen) args(d int) []V {
	var a []V
	for i, n := 0, g.t.Pick(0, 4, 2, 1); i < n-1; i++ {
		a = append(a, g.any(d-1))
	}
	return append(a, g.expr(kI, d))
}

func (g *gen) defI(d int) V {
	n := g.fresh(kI)
	if g.noDef > 0 {
		return call("+", g.lit(), g.expr(kI, d-1))
	}
	e := g.expr(kI, d-1)
	g.add(n, kI)
	return defV(n, e)
}

// callI calls something that gives an int, by one of many routes.
func (g *gen) callI(d int) V {
	t := g.t
	g.callees++
	k := []kind{kF1, kF2, kF0, kFV, kFA, kFH, kFM}[t.Pick(6, 3, 3, 3, 1, 2, 2)]
	if k == kFM {
		return callE(callE(g.fnE(kFM, d-1), g.expr(kI, d-1)), g.expr(kI, d-1))
	}
	var as []V
	pk := paramKinds[k]
	if k == kFV {
		pk = ints(g.upTo(1, 3))
	}
	if t.Chance(1, 30) {
		// more parameters than usual
		pk = ints(t.Range(3, 8))
		k = kFV
		f := g.fnLit(pk, kI, d-1)
		for _, p := range pk {
			as = append(as, g.arm(func() V { return g.expr(p, d-2) }))
		}
		g.t.Probe("wide")
		if t.Bool() {
			return call("apply", f, arr(as...))
		}
		return callE(f, as...)
	}
	route := t.Pick(8, 2, 2, 2, 1)
	if route == 2 && (k == kFA || k == kFH || k == kF0) {
		route = 0
	}
	if (route == 3 || route == 4) && !g.hostOK() {
		route = 0
	}
	f := g.fnE(k, d-1)
	for _, p := range pk {
		if g.cfg.lazy {
			// it may not be evaluated
			as = append(as, g.arm(func() V { return g.expr(p, d-1) }))
			continue
		}
		as = append(as, g.expr(p, d-1))
	}
	if n, ok := f.(Sy); ok && route == 0 && t.Bool() {
		if ps := g.typed[string(n)]; len(ps) == len(as) {
			as = g.byName(ps, as)
		}
	}
	switch route {
	case 1:
		return callE(call("cond", g.arm(func() V { return g.expr(kB, d-1) }), f, g.arm(func() V { return g.fnE(k, d-1) })), as...)
	case 2:
		if t.Bool() {
			return call("apply", f, arr(as...))
		}
		return call("apply", f, call("list", as...))
	case 3:
		return call("hcall", cat([]V{f}, as...)...)
	case 4:
		if g.cfg.noCatch {
			return call("hcall", cat([]V{f}, as...)...)
		}
		// the host copes with being refused, too
		switch t.Intn(12) {
		case 0:
			as = append(as, g.expr(kI, d-1))
		case 1:
			as = as[:len(as)/2]
		}
		return call("hcatch", cat([]V{f}, as...)...)
	}
	return callE(f, as...)
}

func ints(n int) []kind {
	ks := make([]kind, n)
	for i := range ks {
		ks[i] = kI
	}
	return ks
}

// byName gives arguments by name, in any order.
func (g *gen) byName(ps, as []V) []V {
	t := g.t
	idx := make([]int, len(ps))
	for i := range idx {
		j := t.Intn(i + 1)
		idx[i] = idx[j]
		idx[j] = i
	}
	var out []V
	for _, i := range idx {
		out = append(out, sy(string(ps[i].(Sy))+":"), as[i])
	}
	if t.Chance(1, 16) && len(out) > 0 {
		t.Probe("named-wrong")
		switch t.Intn(5) {
		case 0: // a name that is none, or one twice
			out[len(out)-2] = sy([]string{"zz:", string(out[0].(Sy))}[t.Intn(2)])
		case 1: // one missing
			out = out[2:]
		case 2: // one twice, but all there
			out = append(out, out[0], g.lit())
		case 3: // one twice in the place of another
			out = append(out[2:len(out):len(out)], out[len(out)-2], g.lit())
		default: // no value
			out = append(out, []V{out[0], sy("zz:")}[t.Intn(2)])
		}
	}
	return out
}

// withTypes turns formals into declarations.
func withTypes(ps []V) V {
	var out []V
	for _, p := range ps {
		out = append(out, sy(string(p.(Sy))+":"), sy("int64"))
	}
	return arr(out...)
}

func intFormals(pk []kind) bool {
	for _, k := range pk {
		if k != kI {
			return false
		}
	}
	return true
}

// ---- statements ----

// redef is one variable of one scope, defined over and over: it keeps
// its type, unless there is nothing in it.
func (g *gen) redef(d int) V {
	t := g.t
	vals := [][]V{
		{num(0), num(7), num(-3)},
		{"", "ab", "a b"},
		{true, false},
		{Ch('a'), Ch('0')},
		{1.5, -0.25},
		{quoteV(sy("q")), quoteV(sy("qq"))},
	}
	k := t.Intn(len(vals))
	var b []V
	for i := g.upTo(2, 4); i > 0; i-- {
		var v V
		switch t.Pick(6, 3, 1) {
		case 0:
			v = vals[k][t.Intn(len(vals[k]))]
		case 1:
			v = []V{sy("nil"), list()}[t.Intn(2)]
			k = t.Intn(len(vals))
		case 2:
			if t.Chance(1, 4) {
				k = t.Intn(len(vals))
			}
			v = vals[k][t.Intn(len(vals[k]))]
		}
		b = append(b, call("def", sy("v9"), v), call("hx", sy("v9")))
	}
	return g.scope(func() V { return call("newScope", b...) })
}

func (g *gen) stmt(d int) (v V) {
	g.t.Span(func() { v = g.stmt1(d) })
	return
}

func (g *gen) stmt1(d int) V {
	t := g.t
	g.use()
	if g.cfg.errNum > 0 && g.maybe(g.cfg.errNum, 1500) {
		return g.mistake(d)
	}
	if g.cfg.pkgs && t.Chance(3, 5) {
		if t.Bool() {
			return g.pkgBind(d)
		}
		return g.pkgWrite(d)
	}
	fw := 3
	if g.cfg.scopey || g.cfg.calls {
		fw = 6
	}
	hw := 0
	if g.hostOK() {
		hw = 4
	}
	bw := 0
	if len(g.loops) > 0 {
		bw = 4
	}
	kw := 0
	if g.cfg.keep && hw > 0 {
		kw = 5
	}
	aw, dw := 2, 6
	if g.cfg.data {
		aw, dw = 8, 10
	}
	switch t.Pick(dw, 4, fw, 3, aw, aw, hw, bw, 1, 1, 2, kw, kw/2) {
	case 0:
		if g.hostOK() && g.noDef == 0 && t.Chance(1, 20) {
			return g.redef(d)
		}
		return g.defS(d)
	case 1:
		k := []kind{kI, kI, kF1, kA, kB, kS, kF0}[t.Intn(7)]
		if n, ok := g.pick(k); ok {
			ls := g.fnNameHidden(n, k)
			defer ls()
			if k != kF0 && k != kF1 && g.hostOK() && t.Chance(1, 10) {
				// nothing in between, and then a value again
				null := []V{sy("nil"), list(), call("cond", num(0), num(1), sy("nil"))}[t.Intn(3)]
				return begin(setV(n, null), call("hx", sy(n)), setV(n, g.expr(k, d-1)))
			}
			return setV(n, g.expr(k, d-1))
		}
		return g.expr(kI, d)
	case 2:
		if g.noDef > 0 {
			return g.expr(kI, d)
		}
		return g.defn(d)
	case 3:
		if g.noDef > 0 {
			return g.expr(kI, d)
		}
		return g.forLoop(d)
	case 4:
		if n, ok := g.pick(kH); ok {
			if t.Chance(1, 4) {
				return call("hdel", sy(n), g.key())
			}
			return call("hset", sy(n), g.key(), g.expr(kI, d-1))
		}
		return g.expr(kI, d)
	case 5:
		if n, ok := g.pick(kA); ok {
			return call("cond", call("<", num(1), call("len", sy(n))), call("aset", sy(n), num(t.Intn(2)), g.arm(func() V { return g.expr(kI, d-1) })), num(0))
		}
		return g.expr(kI, d)
	case 6:
		return call("hx", g.args(d)...)
	case 7:
		return call("cond", g.arm(func() V { return g.expr(kB, d-1) }), g.arm(func() V { return g.brk() }), num(0))
	case 8:
		as := call("assert", call("or", g.arm(func() V { return g.expr(kB, d-1) }), true))
		if g.hostOK() && t.Bool() {
			return call("hx", as)
		}
		return as
	case 9:
		if g.noDef > 0 {
			return g.expr(kI, d)
		}
		var ns []V
		vs := []V{}
		have := map[string]bool{}
		for i, n := 0, g.upTo(1, 3); i < n; i++ {
			nm := g.fresh(kI)
			if have[nm] {
				continue
			}
			have[nm] = true
			ns = append(ns, sy(nm))
			vs = append(vs, g.expr(kI, d-1))
		}
		for _, n := range ns {
			g.add(string(n.(Sy)), kI)
		}
		return call("mdef", append(ns, call("list", vs...))...)
	case 11:
		k := []kind{kF1, kF0, kF2}[t.Intn(3)]
		return call("hkeep", g.fnE(k, d-1), num(len(paramKinds[k])))
	case 12:
		return call("hpoke")
	default:
		// arms with statements
		return call("cond",
			g.arm(func() V { return g.expr(kB, d-1) }),
			g.arm(func() V { return begin(g.body(kI, d-1)...) }),
			g.arm(func() V { return begin(g.body(kI, d-1)...) }))
	}
}

// fnNameHidden keeps a function being replaced out of its replacement,
// which would call itself without end.
func (g *gen) fnNameHidden(n string, k kind) func() {
	if k < kF0 {
		return func() {}
	}
	g.push(&gframe{cond: true, hide: map[string]bool{n: true}})
	return func() { g.pop() }
}

func (g *gen) defS(d int) V {
	t := g.t
	if g.noDef > 0 {
		return g.expr(kI, d)
	}
	k := []kind{kI, kI, kF1, kA, kS, kB, kF0, kF2, kFV, kL, kH, kFH, kFM, kFA}[t.Pick(8, 2, 4, 3, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1)]
	if g.cfg.data && t.Bool() {
		k = []kind{kA, kA, kH, kL}[t.Intn(4)]
	}
	n := g.fresh(k)
	if k == kA && (g.inScope(n) || len(g.loops) > 0) {
		// rebinding an array in its scope depends on element types
		k, n = kI, g.fresh(kI)
	}
	undo := g.fnNameHidden(n, k)
	e := g.expr(k, d-1)
	undo()
	g.add(n, k)
	return defV(n, e)
}

func (g *gen) brk() V {
	t := g.t
	h := []string{"break", "continue"}[t.Intn(2)]
	l := g.loops[t.Intn(len(g.loops))]
	if l == "" || t.Chance(1, 3) {
		// without a label, or the innermost loop
		return call(h)
	}
	return call(h, lab(l))
}

// forLoop is a bounded loop; its counter is its own.
func (g *gen) forLoop(d int) V {
	t := g.t
	g.labels++
	label := ""
	if t.Bool() {
		label = "lp" + strconv.Itoa(1+t.Intn(3))
	}
	// the counter cannot be shadowed or set by the body, so that the
	// loop ends; but the body may also count in a pool name.
	c := "c" + strconv.Itoa(g.labels)
	n := t.Range(1, 4)
	var out V
	g.scope(func() V {
		init := V(defV(c, num(0)))
		if t.Chance(1, 4) {
			nm := g.fresh(kI)
			e := g.expr(kI, d-2)
			g.add(nm, kI)
			init = begin(init, defV(nm, e))
		}
		g.loops = append(g.loops, label)
		g.add(c, -1)
		// conditional: the body may not run
		g.push(&gframe{cond: true})
		var body []V
		if t.Chance(1, 3) {
			// the counter is what closures like to capture
			nm := g.fresh(kI)
			body = append(body, defV(nm, sy(c)))
			g.add(nm, kI)
		}
		for i, k := 0, g.upTo(1, 3); i < k; i++ {
			if t.Chance(1, 8) {
				body = append(body, g.brkIn(d-1))
			} else {
				body = append(body, g.stmt(d-1))
			}
		}
		g.pop()
		g.loops = g.loops[:len(g.loops)-1]
		step := V(call("set", sy(c), call("+", sy(c), num(1))))
		if t.Chance(1, 4) {
			step = V(call("def", sy(c), call("+", sy(c), num(1))))
		}
		ctl := arr(init, call("<", sy(c), num(n)), step)
		a := []V{}
		if label != "" {
			a = append(a, lab(label))
		}
		out = call("for", append(append(a, ctl), body...)...)
		return nil
	})
	return out
}

// brkIn leaves the loop from inside a block.
func (g *gen) brkIn(d int) V {
	t := g.t
	in := func() V {
		return g.arm(func() V {
			return call("cond", g.arm(func() V { return g.expr(kB, d-1) }), g.brk(), num(0))
		})
	}
	switch t.Intn(4) {
	case 0:
		return g.scope(func() V { return call("newScope", in()) })
	case 1:
		return begin(g.stmt(d-1), in())
	case 2:
		return g.scope(func() V {
			n := g.fresh(kI)
			e := g.arm(func() V { g.noDef++; defer func() { g.noDef-- }(); return g.expr(kI, d-1) })
			g.add(n, kI)
			return call("let", arr(sy(n), e), in())
		})
	default:
		return in()
	}
}

// defn defines a function by name; some are recursive.
func (g *gen) defn(d int) V {
	t := g.t
	k := []kind{kF1, kF2, kF0, kFV, kFM, kFH, kFA}[t.Pick(6, 3, 3, 2, 2, 1, 1)]
	n := g.fresh(k)
	var out V
	if k == kF1 && t.Chance(1, 3) || k == kF2 && t.Chance(1, 3) || g.cfg.tail && (k == kF1 || k == kF2) {
		out = g.recursive(n, k, d)
		g.add(n, k)
		return out
	}
	undo := g.fnNameHidden(n, k)
	g.inFn(func() {
		var ps []V
		if k == kFV {
			if t.Bool() {
				ps = g.params([]kind{kI})
			}
			l := g.fresh(kL)
			g.add(l, kL)
			ps = append(ps, sy("&"), sy(l))
		} else {
			ps = g.params(paramKinds[k])
		}
		b := g.body(retKind(k), d-1)
		if g.cfg.typed && k != kFV && intFormals(paramKinds[k]) && t.Chance(1, 3) {
			g.typed[n] = ps
			out = call("func", cat([]V{sy(n), withTypes(ps), arr(sy("r:"), sy("int64"))}, b...)...)
			return
		}
		out = call("defn", cat([]V{sy(n), arr(ps...)}, b...)...)
	})
	undo()
	g.add(n, k)
	return out
}

// recursive gives a function that calls itself on a smaller number.
func (g *gen) recursive(n string, k kind, d int) V {
	t := g.t
	undo := g.fnNameHidden(n, k)
	defer undo()
	var out V
	// the number that decreases has a name nothing else uses
	g.inFn(func() {
		ps := []V{sy("n")}
		if k == kF2 {
			ps = append(ps, g.params([]kind{kI})...)
		}
		typed := g.cfg.typed && t.Chance(1, 3)
		again := func() V {
			a := []V{call("-", sy("n"), num(1))}
			if k == kF2 {
				a = append(a, g.expr(kI, d-2))
			}
			if typed && t.Chance(1, 3) {
				a = g.byName(ps, a)
			}
			if t.Chance(1, 50) {
				// one too many or too few
				t.Probe("self-arity")
				if t.Bool() || len(a) == 0 {
					a = append(a, g.lit())
				} else {
					a = a[:len(a)-1]
				}
			}
			return callE(sy(n), a...)
		}
		base := g.expr(kI, d-2)
		step := g.selfCall(again, d)
		pre := []V{}
		if t.Chance(1, 3) && d > 1 {
			pre = append(pre, g.stmt(d-2))
		}
		test := call("<=", sy("n"), num(0))
		lim := call(">", sy("n"), num(12))
		if g.cfg.tailOnly {
			lim = call("<", sy("n"), num(-5))
		}
		top := call("cond", test, base, lim, num(99), step)
		if t.Chance(1, 4) {
			// or as a middle arm
			top = call("cond", test, base, lim, num(99), call("<", num(0), sy("n")), step, num(98))
		}
		if t.Chance(1, 6) {
			top = call("and", true, call("or", false, top))
		}
		if typed {
			g.typed[n] = ps
			out = call("func", cat(cat([]V{sy(n), withTypes(ps), arr(sy("r:"), sy("int64"))}, pre...), top)...)
			return
		}
		out = call("defn", cat(cat([]V{sy(n), arr(ps...)}, pre...), top)...)
	})
	return out
}

// selfCall puts again() somewhere: in tail position or not.
func (g *gen) selfCall(again func() V, d int) V {
	t := g.t
	w := 3
	if g.cfg.tail {
		w = 8
	}
	if g.simple(d - 2) {
		return again()
	}
	x := 1
	if g.cfg.tailOnly {
		x = 0
	}
	switch t.Pick(2, w, w, w, w, 2, x, x, x) {
	case 0:
		return again()
	case 1:
		return g.scope(func() V {
			var bs []V
			seen := map[string]bool{}
			var nms []string
			for i, n := 0, t.Pick(1, 6, 2, 1); i < n; i++ {
				nm := g.fresh(kI)
				if seen[nm] {
					continue
				}
				seen[nm] = true
				nms = append(nms, nm)
				g.noDef++
				e := g.arm(func() V { return g.expr(kI, d-2) })
				g.noDef--
				bs = append(bs, sy(nm), e)
			}
			for _, nm := range nms {
				g.add(nm, kI)
			}
			b := g.stmts(d, t.Intn(3))
			return call([]string{"let", "letseq"}[t.Intn(2)], cat([]V{arr(bs...)}, append(b, g.selfCall(again, d-1))...)...)
		})
	case 2:
		b := g.stmts(d, t.Range(0, 3))
		return begin(append(b, g.selfCall(again, d-1))...)
	case 3:
		return g.scope(func() V {
			b := g.stmts(d, t.Range(0, 2))
			return call("newScope", append(b, g.selfCall(again, d-1))...)
		})
	case 4:
		var as []V
		for i, n := 0, g.upTo(1, 4); i < n; i++ {
			p := g.arm(func() V { return g.expr(kB, d-2) })
			as = append(as, p, g.arm(func() V { return g.selfCall(again, d-1) }))
		}
		return call("cond", append(as, g.arm(func() V { return g.selfCall(again, d-1) }))...)
	case 5:
		var as []V
		for i, n := 0, g.upTo(1, 3); i < n; i++ {
			as = append(as, g.arm(func() V { return g.expr(kI, d-2) }))
		}
		return call([]string{"and", "or"}[t.Intn(2)], append(as, g.arm(func() V { return g.selfCall(again, d-1) }))...)
	case 6:
		return call("+", g.expr(kI, d-2), again())
	case 7:
		return call("begin", again(), again())
	default:
		return g.callThrough(again, d)
	}
}

func (g *gen) stmts(d, n int) []V {
	var b []V
	for i := 0; i < n; i++ {
		b = append(b, g.stmt(d-2))
	}
	return b
}

func (g *gen) callThrough(again func() V, d int) V {
	if g.hostOK() {
		return call("hx", again())
	}
	return call("aget", arr(again()), num(0))
}

// ---- mistakes ----

func (g *gen) mistake(d int) V {
	t := g.t
	g.errs++
	f := func() V {
		if n, ok := g.pick(kF1); ok {
			return sy(n)
		}
		return fnOf([]V{sy("i1")}, sy("i1"))
	}
	switch t.Intn(21) {
	case 20:
		return g.strayE()
	case 0:
		return sy("undef" + strconv.Itoa(1+t.Intn(3)))
	case 1:
		return callE(f())
	case 2:
		return callE(f(), g.lit(), g.lit())
	case 3:
		return call("+", g.lit(), "s")
	case 4:
		return call("/", g.lit(), num(0))
	case 5:
		return call("aget", arr(num(1)), num(9))
	case 6:
		return call("first", arr())
	case 7:
		return callE(num(1), num(2))
	case 8:
		return call("assert", false)
	case 9:
		return call("hget", call("hash"), quoteV(sy("ka")))
	case 10:
		return call("len", num(5))
	case 11:
		return call("undef9", g.lit())
	case 12:
		return call("let", arr(sy("i1")), num(1))
	case 13:
		return call("cond", num(1), num(2))
	case 14:
		return call("break", lab("nolabel"))
	case 15:
		return call("eval", quoteV(sy("undef1")))
	case 16:
		return call("map", f(), arr(num(1), "s"))
	case 17:
		return call("apply", f(), arr(num(1), num(2), num(3)))
	case 18:
		return call("def", num(3), num(4))
	default:
		return call("map", fnOf([]V{sy("i1"), sy("i2")}, sy("i1")), arr(num(1)))
	}
}

// program generates the forms of one text.
func (g *gen) forms(n int) []V {
	var out []V
	for i := 0; i < n; i++ {
		g.t.Span(func() {
			if i < n-1 {
				out = append(out, g.stmt(g.cfg.depth))
			} else {
				out = append(out, g.expr([]kind{kI, kI, kA, kL, kS, kB, kH}[g.t.Pick(8, 4, 2, 2, 1, 1, 1)], g.cfg.depth))
			}
		})
	}
	return out
}

// bury wraps a form so that it runs deep inside the machine.
func (g *gen) bury(f V, n int) V {
	t := g.t
	for i := 0; i < n; i++ {
		switch t.Intn(12) {
		case 0:
			f = begin(f)
		case 1:
			f = call("let", arr(sy("i1"), num(1)), f)
		case 2:
			f = call("newScope", f)
		case 3:
			f = callE(fnOf(nil, f))
		case 4:
			f = call("+", num(1), f)
		case 5:
			f = call("map", fnOf([]V{sy("i9")}, f), arr(num(1), num(2)))
		case 6:
			f = call("apply", fnOf([]V{sy("i9")}, f), arr(num(1)))
		case 7:
			g.labels++
			c := "c" + strconv.Itoa(g.labels)
			f = call("for", arr(defV(c, num(0)), call("<", sy(c), num(2)), setV(c, call("+", sy(c), num(1)))), f)
		case 8:
			f = call("cond", true, f, num(0))
		case 9:
			f = call("eval", quoteV(f))
		case 10:
			f = arr(num(1), f)
		default:
			if g.cfg.host {
				f = call("hcall", fnOf(nil, f))
			} else {
				f = call("and", true, f)
			}
		}
	}
	return f
}
