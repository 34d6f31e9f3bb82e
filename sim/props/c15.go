package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C15: templates and macros.
//
// macros: any expression of the language simulation is turned into a
// macro whose template has holes where the expression had forms, called
// with those forms, so that the expansion is the expression.
// templates: values of seeded templates against substitution.
// byhand: forms outside the modelled language, expanded by a macro in one
// interpreter and written out in another.

func asList(f V) ([]V, bool) {
	if p, ok := f.(*Pr); ok {
		return unlist(p)
	}
	return nil, false
}

func headIs(f V, names ...string) bool {
	p, ok := f.(*Pr)
	if !ok {
		return false
	}
	for _, n := range names {
		if p.H == V(Sy(n)) {
			return true
		}
	}
	return false
}

func formSize(f V) int {
	n := 1
	switch x := f.(type) {
	case *Pr:
		n += formSize(x.H) + formSize(x.T)
	case *Ar:
		for _, e := range x.E {
			n += formSize(e)
		}
	}
	return n
}

func formHas(f V, names ...string) bool {
	switch x := f.(type) {
	case *Pr:
		return headIs(x, names...) || formHas(x.H, names...) || formHas(x.T, names...)
	case *Ar:
		for _, e := range x.E {
			if formHas(e, names...) {
				return true
			}
		}
	}
	return false
}

var definers = []string{"def", "mdef", "set", "defn", "func", "defmac", "break", "continue", "for"}

// holes makes a template of a form.
type holes struct {
	t      *core.T
	params []V // names
	args   []V
	rest   bool
	dotted bool
	left   int
}

func (h *holes) param(arg V) V {
	n := sy("mp" + strconv.Itoa(len(h.params)+1))
	h.params = append(h.params, n)
	h.args = append(h.args, arg)
	return n
}

// use is the unquoted expression for a hole: mostly the parameter.
func (h *holes) use(p V, splice bool) V {
	t := h.t
	if splice {
		switch t.Pick(8, 1, 1) {
		case 1:
			return call("append", call("list"), p)
		case 2:
			return call("cond", true, p, call("list"))
		}
		return p
	}
	switch t.Pick(10, 1, 1, 1, 1) {
	case 1:
		return call("first", call("list", p, num(1)))
	case 2:
		return call("let", arr(sy("mt"), p), sy("mt"))
	case 3:
		return callE(fnOf([]V{sy("mt")}, sy("mt")), p)
	case 4:
		// a template inside a template
		return call("first", call("syntaxQuote", list(call("unquote", p))))
	}
	return p
}

func (h *holes) skel(f V, depth int) V {
	t := h.t
	if headIs(f, "syntaxQuote", "unquote", "unquote-splicing") || (h.left > 0 && t.Chance(1, 2+depth)) {
		h.left--
		if n, ok := f.(Sy); ok && isDotted(string(n)) {
			// a dot path as a value is resolved when it is bound
			h.dotted = true
			return call("unquote", h.param(f))
		}
		return call("unquote", h.use(h.param(f), false))
	}
	switch x := f.(type) {
	case *Pr:
		xs, ok := unlist(x)
		if !ok {
			return f
		}
		return list(h.elems(xs, depth)...)
	case *Ar:
		return &Ar{E: h.elems(x.E, depth)}
	}
	return f
}

func (h *holes) elems(xs []V, depth int) []V {
	t := h.t
	var out []V
	for i := 0; i < len(xs); {
		if h.left > 0 && t.Chance(1, 8) {
			j := i + t.Intn(len(xs)-i+1)
			seg := xs[i:j]
			h.left--
			if j == len(xs) && !h.rest && t.Bool() {
				// what is left is given as the rest of the arguments
				h.rest = true
				out = append(out, call("unquote-splicing", h.use(sy("mpr"), true)))
				h.args = append(h.args, restMark{seg})
				return out
			}
			var arg V = RNil{}
			if len(seg) > 0 {
				arg = list(seg...)
			}
			out = append(out, call("unquote-splicing", h.use(h.param(arg), true)))
			i = j
			continue
		}
		out = append(out, h.skel(xs[i], depth+1))
		i++
	}
	if h.left > 0 && t.Chance(1, 10) {
		// nothing, at the end
		h.left--
		out = append(out, call("unquote-splicing", h.use(h.param(RNil{}), true)))
	}
	return out
}

type restMark struct{ seg []V }

// macroize replaces an expression by a call of a macro that expands to
// it.
func (g *gen) macroize(v V) V {
	t := g.t
	if _, ok := v.(*Pr); !ok || g.nmac > 12 || formSize(v) > 120 {
		return v
	}
	if headIs(v, "syntaxQuote", "quote") && t.Bool() {
		return v
	}
	h := &holes{t: t, left: t.Range(1, 5)}
	var body V
	if headIs(v, "syntaxQuote") {
		body = call("unquote", h.param(v))
	} else {
		xs, ok := asList(v)
		if !ok {
			return v
		}
		body = list(h.elems(xs, 0)...)
		if headIs(body, "unquote", "unquote-splicing") {
			return v // a list that became an unquote by itself
		}
	}
	g.nmac++
	name := "mac" + strconv.Itoa(g.nmac)
	var args, rest []V
	for _, a := range h.args {
		if m, ok := a.(restMark); ok {
			rest = m.seg
			continue
		}
		args = append(args, a)
	}
	ps := append([]V{}, h.params...)
	if h.rest {
		ps = append(ps, sy("&"), sy("mpr"))
	}
	tmpl := call("syntaxQuote", body)
	var mbody []V
	switch t.Pick(8, 1, 1, 2, 1) {
	case 1:
		mbody = []V{num(1), tmpl}
	case 2:
		mbody = []V{call("let", arr(sy("mq"), tmpl), sy("mq"))}
	case 3:
		if h.rest || h.dotted {
			mbody = []V{tmpl}
			break
		}
		// made by an ordinary function
		hn := sy("mh" + strconv.Itoa(g.nmac))
		g.pre = append(g.pre, call("defn", hn, arr(ps...), tmpl))
		mbody = []V{list(append([]V{hn}, ps...)...)}
	case 4:
		if formHas(v, definers...) {
			mbody = []V{tmpl}
			break
		}
		// by way of a generated name
		mbody = []V{call("let", arr(sy("mg"), call("gensym")), call("syntaxQuote",
			call("let", arr(call("unquote", sy("mg")), body), call("unquote", sy("mg")))))}
		g.gens[name] = true
	default:
		mbody = []V{tmpl}
	}
	g.pre = append(g.pre, list(append([]V{Sy("defmac"), Sy(name), arr(ps...)}, mbody...)...))
	return list(append(append([]V{Sy(name)}, args...), rest...)...)
}

// libMacros are of the usual kinds.
var libMacros = []V{
	call("defmac", sy("lwhen"), arr(sy("p"), sy("&"), sy("body")), call("syntaxQuote",
		call("cond", call("unquote", sy("p")), call("begin", call("unquote-splicing", sy("body"))), num(0)))),
	call("defmac", sy("land"), arr(sy("&"), sy("xs")),
		call("cond", call("empty?", sy("xs")), true,
			call("empty?", call("rest", sy("xs"))), call("first", sy("xs")),
			call("syntaxQuote", call("cond", call("unquote", call("first", sy("xs"))),
				list(Sy("land"), call("unquote-splicing", call("rest", sy("xs")))), false)))),
	call("defmac", sy("llet"), arr(sy("bs"), sy("&"), sy("body")), call("syntaxQuote",
		list(list(Sy("fn"), arr(call("unquote", call("first", sy("bs")))), call("unquote-splicing", sy("body"))), call("unquote", call("second", sy("bs")))))),
	call("defmac", sy("ltwice"), arr(sy("x")), call("syntaxQuote",
		call("begin", call("unquote", sy("x")), call("unquote", sy("x"))))),
	call("defmac", sy("lswap"), arr(sy("f"), sy("a"), sy("b")), call("syntaxQuote",
		list(call("unquote", sy("f")), call("unquote", sy("b")), call("unquote", sy("a"))))),
	call("defmac", sy("lrev"), arr(sy("&"), sy("xs")),
		call("cond", call("empty?", sy("xs")), call("syntaxQuote", call("list")),
			call("syntaxQuote", call("append", list(Sy("lrev"), call("unquote-splicing", call("rest", sy("xs")))), call("unquote", call("first", sy("xs"))))))),
	call("defmac", sy("ldefs"), arr(sy("n"), sy("a"), sy("b")), call("syntaxQuote",
		call("begin", call("def", call("unquote", sy("n")), call("unquote", sy("a"))), call("hx", call("unquote", sy("b")))))),
	call("def", sy("lk"), num(40)),
	call("defn", sy("lkf"), arr(sy("x")), call("syntaxQuote", list(Sy("+"), call("unquote", sy("lk")), sy("lk"), call("unquote", sy("x"))))),
	call("defmac", sy("lvar"), arr(sy("x")), call("syntaxQuote", call("+", call("unquote", sy("x")), num(7)))),
	// what the macro uses is what is visible where it was defined
	call("defmac", sy("lcfg"), arr(sy("x")), call("syntaxQuote",
		list(Sy("+"), call("unquote", sy("lk")), sy("lk"), call("unquote", sy("x"))))),
	call("defmac", sy("lcfg2"), arr(sy("x")), call("lkf", sy("x"))),
	call("defmac", sy("lbad"), arr(sy("x")), call("syntaxQuote",
		list(call("unquote", call("first", arr())), call("unquote", sy("x"))))),
}

// libUse is a call of one of them.
func (g *gen) libUse(k kind, d int) V {
	t := g.t
	e := func(k kind) V { return g.arm(func() V { return g.expr(k, d-1) }) }
	switch t.Intn(8) {
	case 7:
		if k != kI {
			return call("lwhen", true, e(k))
		}
		var c V = call([]string{"lcfg", "lcfg2", "lvar"}[t.Intn(3)], g.arm(func() V { return g.expr(kI, t.Intn(2)*(d-1)) }))
		switch t.Intn(5) {
		case 0:
			return call("let", arr(sy("lk"), g.lit()), c)
		case 1:
			return callE(fnOf([]V{sy("lk")}, call("+", num(1), c)), g.lit())
		case 2:
			return call("let", arr(sy("lk"), g.lit()), call("eval", quoteV(c)))
		case 3:
			return call("newScope", defV("lk", g.lit()), call("+", c, c))
		}
		return c
	case 0:
		return call("lwhen", e(kB), e(kI), e(k))
	case 1:
		return call("land", e(kB), e(kB), e(k))
	case 2:
		n := g.fresh(kI)
		x := e(kI)
		var b V
		g.inFn(func() {
			g.add(n, kI)
			b = g.expr(k, d-1)
		})
		return call("llet", arr(sy(n), x), b)
	case 3:
		g.noDef++
		defer func() { g.noDef-- }()
		return call("ltwice", e(k))
	case 4:
		return call("lswap", sy([]string{"+", "-", "list", "<"}[t.Intn(4)]), e(kI), e(kI))
	case 5:
		return call("first", call("lrev", e(kI), e(kI), e(k)))
	default:
		if g.noDef > 0 || !g.hostOK() {
			return call("lwhen", e(kB), e(k))
		}
		n := g.fresh(kI)
		a := e(kI)
		g.add(n, kI)
		return call("ldefs", sy(n), a, e(k))
	}
}

// ---- templates ----

// atom is something literal.
func (g *gen) tmplAtom(inside bool) V {
	t := g.t
	switch t.Pick(4, 3, 2, 1, 1, 1, 1, 1) {
	case 0:
		n := []string{"i1", "foo", "quote", "x", "h.a", "&", "fn", "unquote", "begin", "cond", "a1", "nil", "syntaxQuote"}[t.Intn(13)]
		if n == "h.a" && !inside {
			n = "h" // as a value by itself it would be resolved when bound
		}
		return sy(n)
	case 1:
		return g.lit()
	case 2:
		return []V{"", "a", "~x", "b\"c", "^"}[t.Intn(5)]
	case 3:
		return t.Bool()
	case 4:
		return []V{1.5, -2.0, 0.25}[t.Intn(3)]
	case 5:
		return Ch([]rune{'a', '~', 'é'}[t.Intn(3)])
	case 6:
		return RNil{}
	default:
		return &Pr{sy("a"), g.lit()}
	}
}

// tmplVal is an expression to be unquoted.
func (g *gen) tmplVal(d int) V {
	t := g.t
	switch t.Pick(6, 2, 2, 2, 1, 1) {
	case 0:
		return g.any(d - 1)
	case 1:
		if n, ok := g.pick([]kind{kI, kA, kL, kH, kS, kB}[t.Intn(6)]); ok {
			return sy(n)
		}
		return g.lit()
	case 2:
		return quoteV([]V{sy("i1"), sy("x"), list(sy("a"), sy("b")), list(sy("a"), list(sy("unquote"), sy("x"))), arr(sy("a")), RNil{}}[t.Intn(6)])
	case 3:
		return g.tmpl(d-1, false)
	case 4:
		if g.hostOK() {
			return call("hx", g.any(d-1))
		}
		return call("list")
	default:
		return call("let", arr(sy("i9"), g.expr(kI, d-1)), g.scope(func() V { g.add("i9", kI); return g.tmpl(d-1, false) }))
	}
}

func (g *gen) spliceVal(d int) V {
	t := g.t
	switch t.Pick(4, 2, 2, 1, 2, 1) {
	case 0:
		return g.expr(kL, d-1)
	case 1:
		if n, ok := g.pick(kL); ok {
			return sy(n)
		}
		return call("list", num(1))
	case 2:
		return call("list")
	case 3:
		return quoteV(RNil{})
	case 4:
		var a []V
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			a = append(a, g.tmplVal(d-1))
		}
		return call("list", a...)
	default:
		if t.Chance(1, 4) {
			return g.any(d - 1) // perhaps no list
		}
		return call("rest", call("list", g.lit(), g.tmplVal(d-1)))
	}
}

// tmpl is (syntaxQuote ...).
func (g *gen) tmpl(d int, root bool) V {
	return call("syntaxQuote", g.tmplForm(d, false))
}

func (g *gen) tmplForm(d int, splice bool) V {
	var v V
	g.t.Span(func() { v = g.tmplForm1(d, splice) })
	return v
}

func (g *gen) tmplForm1(d int, splice bool) V {
	t := g.t
	g.use()
	sw := 0
	if splice {
		sw = 4
	}
	if g.left <= 0 || d < -3 {
		return g.tmplAtom(splice)
	}
	switch t.Pick(4, 5, sw, 5, 4, 1, 1, 1) {
	case 0:
		return g.tmplAtom(splice)
	case 1:
		return call("unquote", g.tmplVal(d-1))
	case 2:
		return call("unquote-splicing", g.spliceVal(d-1))
	case 3:
		xs := g.tmplForms(d)
		if len(xs) == 0 {
			return RNil{}
		}
		if p, ok := xs[0].(Sy); ok && len(xs) == 2 && (p == "unquote" || p == "unquote-splicing") {
			xs = append(xs, g.lit())
		}
		return list(xs...)
	case 4:
		return &Ar{E: g.tmplForms(d)}
	case 5:
		return call("quote", g.tmplForm(d-1, false))
	case 6:
		return call("syntaxQuote", g.tmplForm(d-1, false))
	default:
		return call("infix", arr(sy("x"), sy("+"), g.tmplForm(d-1, true)))
	}
}

func (g *gen) tmplForms(d int) []V {
	var xs []V
	g.t.Many(0, 5, 2, func(int) { xs = append(xs, g.tmplForm(d-1, true)) })
	return xs
}

// tmplStmt uses templates.
func (g *gen) tmplStmt(d int) V {
	t := g.t
	switch t.Pick(6, 3, 3, 3, 2, 2, 2) {
	case 0:
		return call("hx", g.tmpl(d, true))
	case 1:
		// made by a function, twice; what is changed in one is not
		// in the other
		n := sy("tf" + strconv.Itoa(t.Intn(3)))
		var tm V
		g.inFn(func() {
			g.add("i1", kI)
			g.add("l1", kL)
			tm = g.tmpl(d, true)
		})
		a1, a2 := g.lit(), call("list", g.lit(), g.lit())
		return begin(call("defn", n, arr(sy("i1"), sy("l1")), tm),
			call("let", arr(sy("tv"), callE(n, a1, a2)),
				call("hx", sy("tv")),
				call("cond", call("and", call("array?", sy("tv")), call("<", num(0), call("len", sy("tv")))), call("aset", sy("tv"), num(0), num(99)), num(0)),
				call("hx", callE(n, a1, a2), sy("tv"))))
	case 2:
		// evaluated
		return call("hx", call("eval", call("syntaxQuote", list(Sy("list"), call("unquote-splicing",
			call("list", g.expr(kI, d-1), g.expr(kI, d-1))), call("unquote", g.expr(kI, d-1)))), g.arm(func() V { return g.expr(kI, d-1) })))
	case 3:
		// hashes, which are no literals
		var kv []V
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			if t.Chance(1, 6) {
				ks := []V{sy("ka"), sy("kb"), sy("kc"), sy("kd")}
				kv = append(kv, quoteV(ks[i]), quoteV(call("unquote-splicing", call("list", g.lit(), quoteV(sy("kx"+strconv.Itoa(i))), g.lit()))))
				continue
			}
			k := []V{quoteV(sy("ka")), "kb", num(7), quoteV(sy("kc"))}[i]
			kv = append(kv, k, quoteV(g.tmplForm(d-1, false)))
		}
		var x V = call("hash", kv...)
		switch t.Intn(4) {
		case 0:
			x = call("list", quoteV(sy("p")), x)
		case 1:
			x = arr(x, quoteV(call("unquote-splicing", call("list", num(1), num(2)))))
		}
		return call("hx", call("eval", call("list", quoteV(sy("syntaxQuote")), x)))
	case 4:
		// in a loop
		g.labels++
		c := "c" + strconv.Itoa(g.labels)
		var b V
		g.noDef++
		b = g.scope(func() V { g.add(c, kI); return g.tmpl(d-1, true) })
		g.noDef--
		return call("for", arr(defV(c, num(0)), call("<", sy(c), num(3)), setV(c, call("+", sy(c), num(1)))), call("hx", b))
	case 5:
		// where something fails
		return call("hx", call("syntaxQuote", list(Sy("a"), call("unquote", call("hcatch", fnOf(nil, g.tmpl(d-1, true)))), arr(call("unquote-splicing", call("list", num(1)))))))
	default:
		return call("hx", callE(fnOf([]V{sy("i1"), sy("l1")}, g.tmpl(d, true)), g.lit(), call("list", g.lit())))
	}
}

func c15Run(t *core.T, mode string) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16)), acts: map[int]hostAct{}}
	pickActs(t, plan, 1, 8)
	cfg := genCfg{pool: 2, size: 60, depth: 4, errNum: 2, host: true, scopey: true, keep: true}
	if mode == "macros" {
		cfg.macros = true
		cfg.exprBreak = true
	}
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest, d.restErr = true, true
	type deep struct {
		d  zygo.VerifDepths
		ok bool
	}
	var at deep
	d.env.AddFunction("hdep", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		now := env.VerifDepths()
		if at.ok {
			if now != at.d {
				d.fail("depths", "the stacks had %+v before an expansion, %+v after it", at.d, now)
			}
			at.ok = false
			t.Probe("stack depths compared around an expansion")
		} else {
			at = deep{now, true}
		}
		return zygo.SexpNull, nil
	})
	d.ref.glob.vars["hdep"] = &Bi{"hdep", func(*Ref, []V) V { return RNil{} }}
	if mode == "macros" {
		d.eval(libMacros, nil)
	}
	lay := layout(t)
	n := 0
	t.Many(1, 6, 3, func(int) {
		if d.un != "" {
			return
		}
		g.left += cfg.size / 2
		at = deep{}
		var fs []V
		if mode == "macros" {
			if t.Chance(1, 6) {
				// another definition, or another value of what it uses
				var e V = call("defmac", sy("lvar"), arr(sy("x")), call("syntaxQuote", call([]string{"+", "-", "list"}[t.Intn(2)], call("unquote", sy("x")), g.lit())))
				if t.Bool() {
					e = setV("lk", g.lit())
				}
				d.eval([]V{e}, lay)
			}
			fs = g.forms(t.Range(1, 3))
			if t.Chance(1, 3) {
				// seen from outside
				var e V
				g.noDef++
				e = g.arm(func() V { return g.macroize(g.expr(kI, 3)) })
				g.noDef--
				if t.Bool() {
					e = call("macexpand", e)
				}
				ex := []V{call("hdep"), call("eval", quoteV(e)), call("hdep")}
				if t.Bool() {
					fs = append(fs, arr(num(1), num(2), begin(ex...)))
				} else {
					fs = append(fs, call("let", arr(sy("i1"), num(4)), ex[0], ex[1], ex[2]))
				}
			}
			if t.Chance(1, 6) {
				e := g.arm(func() V { return g.macroize(g.expr(kI, 3)) })
				if hd, ok := e.(*Pr); ok {
					if s, ok := hd.H.(Sy); ok && !g.gens[string(s)] {
						fs = append(fs, call("hx", call("macexpand", e)))
					}
				}
			}
			if t.Chance(1, 12) {
				t.Fault("failing-expansion")
				fs = append(fs, call("hcatch", fnOf(nil, call("eval", quoteV(g.bury(call("lbad", num(1)), t.Intn(3)))))), g.expr(kI, 2))
			}
			if len(g.pre) > 0 {
				n += len(g.pre)
				helper := false // has to be there when the rest is compiled
				for _, f := range g.pre {
					helper = helper || headIs(f, "defn")
				}
				if t.Bool() || helper {
					d.eval(g.pre, lay)
				} else {
					fs = append(append([]V{}, g.pre...), fs...)
				}
				g.pre = nil
			}
			t.ProbeN("macro calls", strings.Count(Text(fs, nil), "(mac"))
		} else {
			for i, k := 0, t.Range(1, 3); i < k; i++ {
				if t.Chance(1, 4) {
					fs = append(fs, g.stmt(2))
				}
				t.Span(func() { fs = append(fs, g.tmplStmt(4)) })
				n++
			}
			if t.Bool() {
				fs = append(fs, g.tmpl(4, true))
			}
		}
		if d.un == "" {
			d.eval(fs, lay)
		}
	})
	noteFaults(t, d.rh)
	t.ProbeN("texts ending in a value", d.vals)
	t.ProbeN("texts ending in an error", d.errs)
	if n > 0 && len(d.rh.log)+d.vals > 0 {
		t.NonTrivial()
	}
	if d.rh.seq > 3 {
		t.State(fmt.Sprint(d.rh.log[:4]))
	}
	t.Sample(d.sample())
}

// byhand are forms outside the modelled language. @1 @2 ... are forms
// given to the macro.
var byhand = []string{
	`{@1 + 2}`,
	`{@1 * 2 + @1}`,
	`{va = @1}`,
	`{va := @1; vb = va + 1}`,
	`(begin {vc = @1} {vc++} vc)`,
	`(for [(def k 0) (< k @1) (++ k)] (hx k @2))`,
	`{for k9 := 0; k9 < 3; k9++ { @2 }}`,
	`(range kk vv (hash a:@1 b:@2) (hx kk vv))`,
	`(hash a:@1 b:(hash c:@2))`,
	`{a:@1 b:[@2]}`,
	`(begin (def hv (hash a:@1)) hv.a)`,
	`(begin (def hv (hash a:(hash b:@1))) (hset hv.a b: @2) hv.a.b)`,
	`(begin (def hv (hash a:1)) {hv.a = @1} hv)`,
	`(begin (def hv (hash a:1)) (set hv.a @1) (hx hv.a) hv)`,
	`(-> (hash a:(hash b:@1)) a: b:)`,
	`(hget (hash a:@1) %a)`,
	`(str @1 @2)`,
	`(fn [x9] (+ x9 @1))`,
	`((fn [x9 & y9] (list x9 y9 @1)) @2 @1)`,
	`(let [u @1 w @2] (list w u))`,
	`(letseq [u @1 w u] (list w u))`,
	`(mdef u1 u2 (list @1 @2))`,
	`(cond @3 @1 @2)`,
	`(and @3 @1)`,
	`(or @3 @1)`,
	`(newScope (def u5 @1) u5)`,
	`(defn fq [x9] (+ x9 @1))`,
	`(begin (defn fq [x9] (hx x9 @1)) (fq @2))`,
	`(func fw [a:int64] [r:int64] (+ a @1))`,
	`(begin (func fw [a:int64 b:int64] [r:int64] (- a b)) (fw b:@1 a:@2))`,
	`(struct Car [(field Id: int64 e:0) (field Name: string e:1)])`,
	`(begin (struct Car [(field Id: int64 e:0)]) (def car (Car Id: @1)) car.Id)`,
	`(begin (def pq (package "pq" { Aa = @1; bb = @2 })) pq.Aa)`,
	`(var v9 int64)`,
	`(eval (quote @1))`,
	`(quote (@1 @2))`,
	`(map (fn [x9] @1) [1 2])`,
	`(apply + [@1 @2])`,
	`(first [@1 @2])`,
	`([@1 @2] 1)`,
	`{[7, 8][1]}`,
	`(assert @3)`,
	`(++ vi)`,
	`(+= vi @1)`,
	`(def vj @1)`,
	`(set vi @1)`,
	`((fn [#z9] (substitute #z9)) @1)`,
	`((fn [#z9] (list (force #z9) (force #z9))) @1)`,
	`(hxx @1 @2)`,
	`(for lp9 [(def k 0) (< k 5) (++ k)] (cond (== k @1) (break lp9) (hx k)))`,
	`(-> @1)`,
	`(* (& vi))`,
	`{if @3 { @1 } else { @2 }}`,
	`{if @3 { @1 }}`,
	`{[@1, @2]}`,
	`(switch9 @1)`,
	`(asUint64 @1)`,
	`[@1 [@2]]`,
	`(list @1 (quote @2) "s" 1.5 'c' true nil)`,
	`(println @1)`,
	`(gensym9)`,
	`{@1}`,
}

var byhandArgs = [][]string{
	{"1", "2", "0", "-3"},
	{"1", "(+ 1 2)", "vi", "(hi)", "va", "(hx 5 7)", "(first [])", "(begin (def vi 9) vi)", "2", "(let [q 3] q)", "{1 + 4}", "hv0.a"},
	{"true", "false", "(hb)", "(< vi 5)", "()", "(hx true)"},
}

var byhandWrap = []string{
	`@`, `@`, `@`,
	`(begin (hx 1) @)`,
	`(let [li 5] @)`,
	`((fn [vi] @) 6)`,
	`[0 @]`,
	`(list (quote a) @ 2)`,
	`(newScope @)`,
	`(cond true @ 0)`,
	`(map (fn [vi] @) [3 4])`,
	`(for [(def oo 0) (< oo 2) (++ oo)] @)`,
	`(hcall (fn [] @))`,
	`(hcatch (fn [] @))`,
	`(eval (quote @))`,
	`(begin (defn wf [vi] @) (wf 7) (wf 8))`,
	`((fn [#lz] (force #lz)) @)`,
	`{zz = @}`,
	`(and true @)`,
	`(str @)`,
}

func c15ByHand(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16)), acts: map[int]hostAct{}}
	pickActs(t, plan, 1, 6)
	var envs [2]*zygo.Zlisp
	var hosts [2]*Host
	for i := range envs {
		envs[i] = zygo.NewZlisp()
		defer envs[i].Close()
		envs[i].StandardSetup()
		hosts[i] = newHost(plan)
		hosts[i].defineSUT(envs[i])
		SetBudget(1<<40, 1<<40)
		Eval(envs[i], `(def vi 4) (def va 1) (def hv0 (hash a:6))`)
	}
	TakeOutput()
	var hist []string
	fail := func(class, f string, a ...interface{}) {
		t.Failf(class, "%s\ntexts:\n%s", fmt.Sprintf(f, a...), strings.Join(hist, "\n"))
	}
	n := 0
	t.Many(1, 6, 4, func(int) {
		form := byhand[t.Intn(len(byhand))]
		tm, by := form, form
		var ps, as []string
		for i := 1; i <= 3; i++ {
			h := "@" + strconv.Itoa(i)
			if !strings.Contains(form, h) {
				continue
			}
			pool := byhandArgs[1]
			if i == 3 {
				pool = byhandArgs[2]
			}
			a := pool[t.Intn(len(pool))]
			p := "mp" + strconv.Itoa(i)
			by = strings.ReplaceAll(by, h, a)
			tm = strings.ReplaceAll(tm, h, "~"+p)
			ps = append(ps, p)
			as = append(as, a)
		}
		n++
		m := "mm" + strconv.Itoa(n)
		def := fmt.Sprintf("(defmac %s [%s] ^%s)", m, strings.Join(ps, " "), tm)
		// a dot path as a value is resolved when it is bound, so only
		// macros can be given one
		if t.Chance(1, 4) && !strings.Contains(by, "hv0.a") {
			def = fmt.Sprintf("(defn mh%d [%s] ^%s) (defmac %s [%s] (mh%d %s))", n, strings.Join(ps, " "), tm, m, strings.Join(ps, " "), n, strings.Join(ps, " "))
		}
		use := fmt.Sprintf("(%s %s)", m, strings.Join(as, " "))
		if t.Chance(1, 6) {
			// by way of another macro
			def += fmt.Sprintf(" (defmac %so [& xs] ^(%s ~@xs))", m, m)
			use = fmt.Sprintf("(%so %s)", m, strings.Join(as, " "))
		}
		w := byhandWrap[t.Intn(len(byhandWrap))]
		texts := [2]string{strings.Replace(w, "@", use, 1), strings.Replace(w, "@", by, 1)}
		hist = append(hist, def+"\n"+texts[0]+"   by hand: "+texts[1])
		SetBudget(2_000_000, 2_000_000)
		if r := Eval(envs[0], def); r.Kind() != "value" {
			fail("defmac", "%s gives %s", def, r)
		}
		TakeOutput()
		var rs [2]Res
		var out [2]string
		for i := range envs {
			SetBudget(2_000_000, 2_000_000)
			rs[i] = Eval(envs[i], texts[i])
			out[i] = TakeOutput()
		}
		SetBudget(1<<40, 1<<40)
		t.Logf("> %s = %s", texts[0], rs[0])
		if rs[0].Kind() != rs[1].Kind() || rs[0].Dump != rs[1].Dump {
			fail("expansion", "the macro gives %s, the form written by hand %s", rs[0], rs[1])
		}
		if scrubForms(out[0]) != scrubForms(out[1]) {
			fail("expansion-output", "the macro prints %q, the form written by hand %q", out[0], out[1])
		}
		a, b := strings.Join(hosts[0].log, "\n"), strings.Join(hosts[1].log, "\n")
		if a != b {
			fail("expansion-effects", "host calls with the macro:\n%s\nby hand:\n%s", a, b)
		}
		for _, v := range []string{"vi", "va", "hv0"} {
			if x, y := Dump(look(envs[0], v)), Dump(look(envs[1], v)); x != y {
				fail("expansion-bindings", "%s is %s after the macro, %s after the form written by hand", v, x, y)
			}
		}
		if x := atRest(envs[0]); x != "" {
			fail("not-at-rest", "after %s (%s): %s", texts[0], rs[0], x)
		}
	})
	noteFaults(t, hosts[0])
	t.NonTrivial()
	t.Sample(strings.Join(hist, " ; "))
}

// ---- templates made of values ----

type valGen struct {
	t    *core.T
	env  *zygo.Zlisp
	vars map[string]zygo.Sexp // what may be unquoted
	bad  bool                 // a splice of no list, or an uneven hash
	n    int
}

func (v *valGen) sym(n string) *zygo.SexpSymbol { return v.env.MakeSymbol(n) }

// atom is a value that stands for itself in a template.
func (v *valGen) atom() zygo.Sexp {
	t := v.t
	switch t.Intn(12) {
	case 0:
		return zygo.SexpNull
	case 1:
		return &zygo.SexpFloat{Val: 1.5}
	case 2:
		return &zygo.SexpStr{S: "s~"}
	case 3:
		return &zygo.SexpChar{Val: 'é'}
	case 4:
		return &zygo.SexpBool{Val: true}
	case 5:
		return &zygo.SexpUint64{Val: 1 << 63}
	case 6:
		return &zygo.SexpRaw{Val: []byte{0, 1}}
	case 7:
		return v.sym([]string{"unquote", "x", "quote", "unquote-splicing", "v1"}[t.Intn(5)])
	case 8:
		return zygo.Cons(v.sym("a"), &zygo.SexpInt{Val: 2})
	case 9:
		f, _ := v.env.FindObject("first")
		return f
	}
	return &zygo.SexpInt{Val: int64(t.Intn(9))}
}

func mkList(xs []zygo.Sexp) zygo.Sexp { return zygo.MakeList(xs) }

func (v *valGen) pickVar(p string) string {
	return p + strconv.Itoa(1+v.t.Intn(3))
}

// form gives a template and what it stands for: one value, or the
// elements of a splice.
func (v *valGen) form(d int, inside bool) (tm zygo.Sexp, out []zygo.Sexp) {
	v.t.Span(func() { tm, out = v.form1(d, inside) })
	return
}

func (v *valGen) form1(d int, inside bool) (zygo.Sexp, []zygo.Sexp) {
	t := v.t
	v.n++
	if d <= 0 || v.n > 60 {
		a := v.atom()
		return a, []zygo.Sexp{a}
	}
	sw := 0
	if inside {
		sw = 4
	}
	switch t.Pick(3, 4, sw, 4, 4, 4) {
	case 0:
		a := v.atom()
		return a, []zygo.Sexp{a}
	case 1:
		n := v.pickVar("v")
		return mkList([]zygo.Sexp{v.sym("unquote"), v.sym(n)}), []zygo.Sexp{v.vars[n]}
	case 2:
		n := v.pickVar("ls")
		l, err := zygo.ListToArray(v.vars[n])
		if err != nil {
			v.bad = true
		}
		return mkList([]zygo.Sexp{v.sym("unquote-splicing"), v.sym(n)}), l
	case 3:
		a, b := v.forms(d)
		if len(a) == 2 {
			if s, ok := a[0].(*zygo.SexpSymbol); ok && strings.HasPrefix(s.Name(), "unquote") {
				a = append(a, zygo.SexpNull)
				b = append(b, zygo.SexpNull)
			}
		}
		return mkList(a), []zygo.Sexp{mkList(b)}
	case 4:
		a, b := v.forms(d)
		return &zygo.SexpArray{Val: a, Env: v.env}, []zygo.Sexp{&zygo.SexpArray{Val: b, Env: v.env}}
	}
	// a hash, or a record
	typ := "hash"
	var kv, kw []zygo.Sexp
	if t.Chance(1, 3) {
		typ = "Tv"
		kv = []zygo.Sexp{v.sym("A"), mkList([]zygo.Sexp{v.sym("unquote"), v.sym("v3")}), v.sym("B"), &zygo.SexpInt{Val: 4}}
		kw = []zygo.Sexp{v.sym("A"), v.vars["v3"], v.sym("B"), &zygo.SexpInt{Val: 4}}
		h, err := zygo.MakeHash(nil, typ, v.env)
		if err != nil {
			panic(err)
		}
		// the template itself is no valid record, so it is a hash of
		// that type name with fields of any type
		x := v.raw(h, kv)
		r, err := zygo.MakeHash(kw, typ, v.env)
		if err != nil {
			v.bad = true
			return x, []zygo.Sexp{zygo.SexpNull}
		}
		return x, []zygo.Sexp{r}
	}
	if t.Chance(1, 6) {
		typ = "anyother"
	}
	keys := []zygo.Sexp{v.sym("ka"), &zygo.SexpStr{S: "kb"}, &zygo.SexpInt{Val: 7}, &zygo.SexpChar{Val: 'k'}, v.sym("v1")}
	for i, n := 0, t.Intn(5); i < n; i++ {
		a, b := v.form(d-1, false)
		kv = append(kv, keys[i], a)
		kw = append(kw, keys[i])
		kw = append(kw, b...)
	}
	h, err := zygo.MakeHash(kv, typ, v.env)
	if err != nil {
		panic(err)
	}
	w, err := zygo.MakeHash(kw, typ, v.env)
	if err != nil {
		panic(err)
	}
	return h, []zygo.Sexp{w}
}

// raw is h with pairs put in without checks.
func (v *valGen) raw(h *zygo.SexpHash, kv []zygo.Sexp) zygo.Sexp {
	x, err := zygo.MakeHash(kv, "hash", v.env)
	if err != nil {
		panic(err)
	}
	x.TypeName = h.TypeName
	x.GoStructFactory = h.GoStructFactory
	return x
}

func (v *valGen) forms(d int) (a, b []zygo.Sexp) {
	v.t.Many(0, 5, 2, func(int) {
		x, y := v.form(d-1, true)
		a = append(a, x)
		b = append(b, y...)
	})
	return
}

func c15Values(t *core.T) {
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	SetBudget(1<<40, 1<<40)
	if r := Eval(env, `(struct Tv [(field A: int64 e:0) (field B: int64 e:1)])`); r.Kind() != "value" {
		panic(r.String())
	}
	TakeOutput()
	var hist []string
	t.Many(1, 5, 3, func(int) {
		v := &valGen{t: t, env: env, vars: map[string]zygo.Sexp{}}
		nested := mkList([]zygo.Sexp{v.sym("unquote"), v.sym("x")})
		vals := []zygo.Sexp{&zygo.SexpInt{Val: 5}, zygo.SexpNull, v.sym("zz"), nested, &zygo.SexpArray{Val: []zygo.Sexp{nested}, Env: env}, &zygo.SexpStr{S: "q"},
			mkList([]zygo.Sexp{v.sym("a"), v.sym("b")})}
		lists := []zygo.Sexp{zygo.SexpNull, mkList([]zygo.Sexp{&zygo.SexpInt{Val: 1}}), mkList([]zygo.Sexp{&zygo.SexpInt{Val: 1}, v.sym("b"), nested}),
			mkList([]zygo.Sexp{zygo.SexpNull, zygo.SexpNull})}
		for i := 1; i <= 3; i++ {
			s := strconv.Itoa(i)
			v.vars["v"+s] = vals[t.Intn(len(vals))]
			v.vars["ls"+s] = lists[t.Intn(len(lists))]
		}
		v.vars["v3"] = &zygo.SexpInt{Val: int64(t.Intn(9))}
		if t.Chance(1, 10) {
			v.vars["ls3"] = []zygo.Sexp{&zygo.SexpInt{Val: 1}, v.vars["v3"], zygo.Cons(&zygo.SexpInt{Val: 1}, &zygo.SexpInt{Val: 2})}[t.Intn(3)]
		}
		tm, out := v.form(4, false)
		before := Dump(tm)
		want := Dump(out[0])
		form := mkList([]zygo.Sexp{v.sym("syntaxQuote"), tm})
		text := "(eval tmplform)"
		wrap := t.Intn(4)
		switch wrap {
		case 1:
			text = "((fn [v9] (eval tmplform)) 3)"
		case 2:
			text = "(first (list (eval tmplform) 4))"
		case 3:
			text = "(second (list 1 (let [v9 2] (eval tmplform))))"
		}
		for n, x := range v.vars {
			env.AddGlobal(n, x)
		}
		env.AddGlobal("tmplform", form)
		hist = append(hist, fmt.Sprintf("%s with %s", text, Dump(form)))
		for i := 0; i < 2; i++ {
			SetBudget(1_000_000, 1_000_000)
			r := Eval(env, text)
			SetBudget(1<<40, 1<<40)
			t.Logf("> %s = %s", Dump(form), r)
			if v.bad {
				if r.Kind() != "error" {
					t.Failf("template-error", "%s gives %s, though a splice is no list\ntexts:\n%s", Dump(tm), r, strings.Join(hist, "\n"))
				}
			} else if r.Kind() != "value" || r.Dump != want {
				t.Failf("template", "%s gives %s, substitution gives %s\nvariables: %s\ntexts:\n%s", Dump(tm), r, want, v.show(), strings.Join(hist, "\n"))
			}
			if x := Dump(tm); x != before {
				t.Failf("template-changed", "evaluating the template %s changed it to %s", before, x)
			}
			if x := atRest(env); x != "" {
				t.Failf("not-at-rest", "after the template %s (%s): %s", Dump(tm), r, x)
			}
			// what is made is new
			if r.Kind() == "value" {
				if a, ok := r.Val.(*zygo.SexpArray); ok && !v.isVar(a) {
					for i := range a.Val {
						a.Val[i] = v.sym("changed")
					}
				}
			}
		}
		TakeOutput()
		t.State(before)
	})
	t.NonTrivial()
	t.Sample(strings.Join(hist, " ; "))
}

func (v *valGen) isVar(x zygo.Sexp) bool {
	for _, y := range v.vars {
		if x == y {
			return true
		}
	}
	return false
}

func (v *valGen) show() string {
	var s []string
	for _, n := range []string{"v1", "v2", "v3", "ls1", "ls2", "ls3"} {
		s = append(s, n+" = "+Dump(v.vars[n]))
	}
	return strings.Join(s, ", ")
}

func scrubForms(s string) string { return reNum.ReplaceAllString(s, "N") }

func look(env *zygo.Zlisp, n string) zygo.Sexp {
	v, ok := env.FindObject(n)
	if !ok {
		return zygo.SexpNull
	}
	return v
}

func init() {
	core.Register(&core.Property{
		ID: "C15", Level: "exploration",
		Rule:      "macros: a run is a seeded history of texts in which expressions were turned into macros: a template with holes, called with the forms that were there, so that the expansion is the original form; also recursive and nested macros, macros made by functions, with rest arguments, spliced lists, generated names and failing expansions, used at top level, in functions, loops, closures, eval and host call-backs, with injected host failures. templates: seeded templates of nested lists, arrays and hashes with unquotes and splices of effectful expressions, in functions, loops, other templates and behind failures. values: templates made by the host of any values, hashes and records included, against substitution on those values. Values, host calls, bindings and the interpreter at rest are compared with a reference evaluator after each text, stack depths around expansions at run time. byhand: forms outside the modelled language expanded by a macro in one interpreter and written out in another. Non-trivial: a macro or template ran. Distinct: by event log. States: distinct host-call histories.",
		QuickRuns: 120000, ThorRuns: 5000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) substitutes templates and expands macros on its own forms; arguments of calls are expanded when the call runs, as the system does",
			"a splice at the root of a template, and an unquote inside an improper list, are not specified and not generated",
			"byhand: the interpreter evaluating the hand-written form is itself judged by C02-C05",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo reader, generator, template instructions, macro expansion in duplicates, VM, builtins",
			},
			"simulated": []string{
				"host functions: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C15", Name: "macros", Weight: 4, Run: func(t *core.T) { c15Run(t, "macros") }},
			{Prop: "C15", Name: "templates", Weight: 3, Run: func(t *core.T) { c15Run(t, "templates") }},
			{Prop: "C15", Name: "values", Weight: 2, Run: c15Values},
			{Prop: "C15", Name: "byhand", Weight: 2, Run: c15ByHand},
		},
	})
}
