package props

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C19: a family of interpreters shares one symbol table, each with its own
// idea of the next free number: a replicated allocator. The simulator
// decides in which member each name is first seen, by which route, when
// members are duplicated or cloned, when symbols are generated, and
// injects failures (parse errors, failing macro expansions, failing host
// calls) between and inside these steps. Names are drawn to be the ones
// generators are about to use.

type c19 struct {
	t      *core.T
	envs   []*zygo.Zlisp
	byName map[string]int
	byNum  map[int]string
	syms   []*zygo.SexpSymbol
	hist   []string
	gens   int
	nplan  int
}

func (c *c19) fail(class, format string, a ...interface{}) {
	c.t.Failf(class, "%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(c.hist, "\n"))
}

func (c *c19) step(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.hist = append(c.hist, s)
	c.t.Logf("%s", s)
}

func (c *c19) name() string {
	t := c.t
	base := []string{"a", "b", "__gensym", "foo", "__anon", "__loop", "__range_i", "é"}[t.Intn(8)]
	switch t.Pick(3, 3, 5, 2) {
	case 0:
		return base
	case 1:
		return base + strconv.Itoa(t.Intn(30))
	case 2:
		// near the numbers in use
		top := 0
		for _, s := range c.syms {
			if s.Number() > top {
				top = s.Number()
			}
		}
		c.t.Probe("name-near-counter")
		return base + strconv.Itoa(top+t.Range(-3, 12))
	default:
		if len(c.syms) > 0 {
			return c.syms[t.Intn(len(c.syms))].Name()
		}
		return base
	}
}

// saw records a symbol for name and checks it against the model.
func (c *c19) saw(e int, name string, v zygo.Sexp) {
	s, ok := v.(*zygo.SexpSymbol)
	if !ok {
		c.fail("no-symbol", "interning %q in interpreter %d gave %s", name, e, Dump(v))
	}
	c.t.Logf("  = %s #%d", s.Name(), s.Number())
	if s.Name() != name {
		c.fail("wrong-name", "interning %q in interpreter %d gave the symbol named %q", name, e, s.Name())
	}
	if n, ok := c.byName[name]; ok && n != s.Number() {
		c.fail("split-name", "%q is number %d in interpreter %d, but was %d before", name, s.Number(), e, n)
	}
	if o, ok := c.byNum[s.Number()]; ok && o != name {
		c.fail("shared-number", "%q and %q have the same number %d (interpreter %d)", name, o, s.Number(), e)
	}
	c.byName[name] = s.Number()
	c.byNum[s.Number()] = name
	c.syms = append(c.syms, s)
}

func (c *c19) sawNew(e int, how, prefix string, v zygo.Sexp) {
	s, ok := v.(*zygo.SexpSymbol)
	if !ok {
		c.fail("no-symbol", "%s in interpreter %d gave %s", how, e, Dump(v))
	}
	c.gens++
	if n, ok := c.byName[s.Name()]; ok {
		c.fail("generated-existing", "%s in interpreter %d gave %q (#%d), which exists already (#%d)", how, e, s.Name(), s.Number(), n)
	}
	c.saw(e, s.Name(), v)
}

func (c *c19) eval(e int, src string) Res {
	r := Eval(c.envs[e], src)
	c.t.Logf("  [%d] %s => %s", e, src, r)
	return r
}

func (c *c19) must(e int, src string) zygo.Sexp {
	r := c.eval(e, src)
	if r.Kind() != "value" {
		c.fail("refused", "%s in interpreter %d gave %s", src, e, r)
	}
	return r.Val
}

func readable(name string) bool {
	for _, r := range name {
		if !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '_' || r == 'é') {
			return false
		}
	}
	return name != ""
}

func (c *c19) intern() {
	t := c.t
	e := t.Intn(len(c.envs))
	n := c.name()
	switch t.Intn(7) {
	case 0, 1:
		c.step("[%d] MakeSymbol(%q)", e, n)
		c.saw(e, n, c.envs[e].MakeSymbol(n))
	case 2:
		c.step("[%d] str2sym %q", e, n)
		c.saw(e, n, c.must(e, fmt.Sprintf("(str2sym %q)", n)))
	case 3:
		c.step("[%d] quote %s", e, n)
		c.saw(e, n, c.must(e, fmt.Sprintf("(quote %s)", n)))
	case 4:
		c.step("[%d] read %s", e, n)
		c.saw(e, n, c.must(e, fmt.Sprintf("(read %q)", n)))
	case 5:
		c.step("[%d] keys %s", e, n)
		c.saw(e, n, c.must(e, fmt.Sprintf("(first (hpair (hash %s: 1) 0))", n)))
	default:
		c.step("[%d] eval %s", e, n)
		c.saw(e, n, c.must(e, fmt.Sprintf("(eval (list (quote quote) (str2sym %q)))", n)))
	}
}

func (c *c19) generate() {
	t := c.t
	e := t.Intn(len(c.envs))
	p := []string{"__gensym", "a", "b", "foo", "__anon", "__loop"}[t.Intn(6)]
	how := t.Intn(6)
	c.step("[%d] gensym (route %d, prefix %s)", e, how, p)
	switch how {
	case 0, 1:
		c.sawNew(e, "GenSymbol", p, c.envs[e].GenSymbol(p))
	case 2:
		c.sawNew(e, "(gensym)", "__gensym", c.must(e, "(gensym)"))
	case 3:
		c.sawNew(e, "(gensym \""+p+"\")", p, c.must(e, fmt.Sprintf("(gensym %q)", p)))
	case 4:
		// in a macro, so in a duplicate made for the expansion
		c.sawNew(e, "(gensym) in a macro", p, c.must(e, "(mgen)"))
	default:
		v := c.must(e, fmt.Sprintf("(map (fn [p] (gensym p)) [%q %q])", p, p))
		a, ok := v.(*zygo.SexpArray)
		if !ok || len(a.Val) != 2 {
			c.fail("no-symbol", "mapped gensym gave %s", Dump(v))
		}
		// both exist by the time the second is looked at
		c.sawNew(e, "mapped gensym", p, a.Val[0])
		c.sawNew(e, "mapped gensym", p, a.Val[1])
	}
}

func (c *c19) compare() {
	t := c.t
	if len(c.syms) < 2 {
		return
	}
	a, b := c.syms[t.Intn(len(c.syms))], c.syms[t.Intn(len(c.syms))]
	e := t.Intn(len(c.envs))
	same := a.Name() == b.Name()
	c.step("[%d] compare %s %s", e, a.Name(), b.Name())
	if t.Bool() {
		r, err := c.envs[e].Compare(a, b)
		if err != nil || (r == 0) != same {
			c.fail("equality", "Compare(%q,%q) in interpreter %d is %d, %v", a.Name(), b.Name(), e, r, err)
		}
	}
	v := c.must(e, fmt.Sprintf("(== (str2sym %q) (str2sym %q))", a.Name(), b.Name()))
	if Dump(v) != strconv.FormatBool(same) {
		c.fail("equality", "(== %s %s) in interpreter %d is %s", a.Name(), b.Name(), e, Dump(v))
	}
	v = c.must(e, fmt.Sprintf("(hget (hash (str2sym %q) 1) (str2sym %q) 0)", a.Name(), b.Name()))
	if (Dump(v) == "1") != same {
		c.fail("hash-lookup", "hash keyed by %s looked up with %s in interpreter %d gives %s", a.Name(), b.Name(), e, Dump(v))
	}
	// a symbol object made by one member, used in another
	c.envs[e].AddGlobal("carried", a)
	c.saw(e, "carried", c.envs[e].MakeSymbol("carried"))
	v = c.must(e, fmt.Sprintf("(== carried (str2sym %q))", b.Name()))
	if Dump(v) != strconv.FormatBool(same) {
		c.fail("equality", "carried %s compared with %s in interpreter %d is %s", a.Name(), b.Name(), e, Dump(v))
	}
	v = c.must(e, fmt.Sprintf("(sym2str carried)"))
	if Dump(v) != strconv.Quote(a.Name()) {
		c.fail("wrong-name", "sym2str of %s in interpreter %d is %s", a.Name(), e, Dump(v))
	}
}

// bind: one member binds, the same name denotes the binding only there.
func (c *c19) bind() {
	t := c.t
	e := t.Intn(len(c.envs))
	n := c.name()
	if !readable(n) {
		return
	}
	c.step("[%d] let %s", e, n)
	c.saw(e, n, c.envs[e].MakeSymbol(n))
	m := c.name()
	if m == n || !readable(m) {
		m = "other"
	}
	c.saw(e, m, c.envs[e].MakeSymbol(m))
	v := c.must(e, fmt.Sprintf("(let [%s 1 %s 2] (list %s %s))", n, m, n, m))
	if Dump(v) != "(1 2)" {
		c.fail("binding", "(let [%s 1 %s 2] ...) in interpreter %d gave %s", n, m, e, Dump(v))
	}
}

func (c *c19) family() {
	t := c.t
	if len(c.envs) >= 6 {
		return
	}
	e := t.Intn(len(c.envs))
	if t.Bool() {
		c.step("[%d] Duplicate -> [%d]", e, len(c.envs))
		c.envs = append(c.envs, c.envs[e].Duplicate())
	} else {
		c.step("[%d] Clone -> [%d]", e, len(c.envs))
		c.envs = append(c.envs, c.envs[e].Clone())
	}
}

func (c *c19) internal() {
	t := c.t
	e := t.Intn(len(c.envs))
	// constructs that generate symbols themselves
	src := []string{"(for [(def i 0) (< i 2) (def i (+ i 1))] i)", "((fn [z] z) 4)", "{for kk := range 2 { kk }}", "(mid 5)", "{for kk, vv := range [1] { kk }}"}[t.Intn(5)]
	c.step("[%d] %s", e, src)
	c.must(e, src)
}

func (c *c19) fault() {
	t := c.t
	e := t.Intn(len(c.envs))
	n := c.name()
	if !readable(n) {
		n = "qq"
	}
	k := t.Intn(5)
	kind := []string{"parse-error", "compile-error", "macro-failure", "host-error", "host-panic"}[k]
	t.Fault(kind)
	src := []string{
		fmt.Sprintf("(list (quote %s) ]", n),
		fmt.Sprintf("(begin (quote %s) (let [%s] 1))", n, n),
		fmt.Sprintf("(mbad %s)", n),
		fmt.Sprintf("(list (quote %s) (hfail 1))", n),
		fmt.Sprintf("(list (gensym) (quote %s) (hfail 2))", n),
	}[k]
	c.step("[%d] fault: %s", e, src)
	r := c.eval(e, src)
	if r.Kind() == "value" {
		c.t.Harnessf("%s gave %s", src, r)
	}
	if r.Kind() == "panic" {
		t.Probe("panic-out")
	}
}

func c19Run(t *core.T) {
	c := &c19{t: t, byName: map[string]int{}, byNum: map[int]string{}}
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	env.AddFunction("hfail", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		if Dump(args[0]) == "2" {
			panic("hfail panic")
		}
		return zygo.SexpNull, errors.New("hfail error")
	})
	SetBudget(2_000_000, 2_000_000)
	c.envs = []*zygo.Zlisp{env}
	c.must(0, "(defmac mgen [] (list (quote quote) (gensym)))")
	c.must(0, "(defmac mid [x] (begin (gensym \"foo\") x))")
	c.must(0, "(defmac mbad [x] (begin (gensym \"a\") (hfail 1)))")
	// some names exist from the start: learn their numbers
	for _, n := range []string{"car", "first", "begin", "quote", "x", "map"} {
		c.saw(0, n, env.MakeSymbol(n))
	}
	n := t.Many(1, 80, 24, func(i int) {
		switch t.Pick(8, 6, 4, 3, 3, 2, 3) {
		case 0:
			c.intern()
		case 1:
			c.generate()
		case 2:
			c.compare()
		case 3:
			c.family()
		case 4:
			c.bind()
		case 5:
			c.internal()
		default:
			c.fault()
		}
		t.State(fmt.Sprintf("%d envs %d syms %d gens", len(c.envs), len(c.byName), c.gens))
	})
	// every member agrees on every name at the end
	for e := range c.envs {
		for i := range c.syms {
			if i > 0 && c.syms[i].Name() == c.syms[i-1].Name() {
				continue
			}
			nm := c.syms[i].Name()
			if got := c.envs[e].MakeSymbol(nm).Number(); got != c.byName[nm] {
				c.fail("split-name", "at the end %q is number %d in interpreter %d, but was %d", nm, got, e, c.byName[nm])
			}
		}
	}
	for i := 0; i < len(c.syms) && i < 60; i++ {
		for j := 0; j < i; j++ {
			r, err := env.Compare(c.syms[i], c.syms[j])
			if err != nil || (r == 0) != (c.syms[i].Name() == c.syms[j].Name()) {
				c.fail("equality", "Compare(%q,%q) is %d, %v", c.syms[i].Name(), c.syms[j].Name(), r, err)
			}
		}
	}
	if n >= 3 && c.gens > 0 {
		t.NonTrivial()
	}
	t.Sample(strings.Join(c.hist, " ; "))
}

func init() {
	core.Register(&core.Property{
		ID: "C19", Level: "exploration",
		Rule: "A run is a seeded interleaving of up to 80 steps over up to six interpreters sharing a symbol table (original, duplicates, clones, duplicates of those): interning by seven routes, generating by five, comparing, binding, constructs that generate symbols internally, duplicating, and injected failures. Names are drawn near the generators' counters. " +
			"Model: one name-to-number bijection. Non-trivial: three steps or more and a generated symbol. Distinct: by event log. States: (members, names, generated) triples.",
		QuickRuns: 60000, ThorRuns: 2000000,
		Assumptions: []string{"members are used one at a time (the code has no locks and documents none)"},
		Components: map[string]interface{}{
			"real":      []string{"MakeSymbol, GenSymbol, Duplicate, Clone, parser, macro expansion, comparisons, hash lookups"},
			"simulated": []string{"the choice of member, route and order of every step", "host function hfail", "Go map iteration order and hash seeds"},
		},
		Scenarios: []*core.Scenario{{Prop: "C19", Name: "family", Weight: 1, Run: c19Run}},
	})
}
