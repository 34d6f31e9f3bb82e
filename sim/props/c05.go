package props

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C05: fault injection proper. A fault is placed at a point of a run (the
// k-th host call returns an error or panics; a form that fails at parse,
// compile, expansion or run time is put at a place in the program) and
// buried under whatever the machine can be in the middle of. The
// reference runs the same program up to the fault; afterwards both go on.

var c05Prelude = []V{
	call("defmac", sy("mid"), arr(sy("x")), call("syntaxQuote", begin(call("unquote", sy("x"))))),
	call("defmac", sy("mwhen"), arr(sy("c"), sy("&"), sy("b")), call("syntaxQuote",
		call("cond", call("unquote", sy("c")), begin(call("unquote-splicing", sy("b"))), num(0)))),
	call("defmac", sy("mfail"), arr(sy("x")), call("first", arr())),
	call("defmac", sy("mtwice"), arr(sy("x")), call("syntaxQuote",
		call("list", call("unquote", sy("x")), call("unquote", sy("x"))))),
	call("defn", sy("lzf"), arr(sy("#y1")), call("+", num(0), call("force", sy("#y1")))),
	call("defn", sy("lzs"), arr(sy("#y1"), sy("x")), begin(sy("x"))),
	call("defn", sy("lzd"), arr(sy("#y1")), call("let", arr(sy("i1"), num(1)), call("lzf", call("force", sy("#y1"))))),
}

// buryC05 also uses what the prelude defines.
func (g *gen) buryC05(f V, n int) V {
	t := g.t
	for i := 0; i < n; i++ {
		switch t.Intn(9) {
		case 0:
			f = call("mid", f)
		case 1:
			f = call("mwhen", true, num(1), f)
		case 2:
			f = call("lzf", f)
		case 3:
			f = call("lzd", f)
		case 4:
			f = call("mtwice", f)
		case 5:
			f = call("hcatch", fnOf(nil, f))
		case 6:
			f = call("hcall", fnOf([]V{sy("i8")}, f), num(1))
		default:
			f = g.bury(f, 1)
		}
	}
	return f
}

func (g *gen) badForm() V {
	t := g.t
	switch t.Intn(8) {
	case 0:
		return call("mfail", num(1))
	case 1:
		return call("mid")
	case 2:
		return call("fn", num(1))
	case 3:
		return call("for", arr(num(1)))
	case 4:
		return call("force", num(1), num(2))
	case 5:
		return call("lzf", call("first", arr()))
	case 6:
		return call("mwhen", sy("undef1"), num(1))
	default:
		return g.mistake(2)
	}
}

var brokenTails = []string{" )", " (", " \"abc", " ]", " [1 2", " {1 + ", " /* x", " (quote", " %", " `raw", " 'ab'", " 3x", " \\", " (a \\ b c)"}

// torn hands over a text that does not parse: nothing of it runs.
func (d *duel) torn(forms []V, tail string) {
	text := Text(forms, nil) + tail
	d.hist = append(d.hist, text)
	SetBudget(2_000_000, 10_000_000)
	r := Eval(d.env, text)
	SetBudget(1<<40, 1<<40)
	d.t.Logf("> %s = %s", text, r)
	d.t.Fault("parse-error")
	if r.Kind() != "error" {
		d.fail("swallowed", "a text that does not parse gave %s", r)
	}
	d.same(RRes{Err: &rErr{Kind: "parse"}}, Res{Err: r.Err, ErrTxt: r.ErrTxt})
	if s := atRest(d.env); s != "" {
		d.fail("not-at-rest", "after a text that does not parse: %s", s)
	}
}

func c05Run(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16)), acts: map[int]hostAct{}}
	cfg := genCfg{pool: 3, size: 50, depth: 4, errNum: 8, host: true, scopey: true, exprBreak: true, keep: true}
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest, d.restErr = true, true
	d.eval(c05Prelude, nil)
	faults := 0
	t.Many(2, 9, 5, func(int) {
		if d.un != "" {
			return
		}
		g.left += cfg.size / 3
		switch t.Pick(4, 5, 3, 2, 1, 1) {
		case 0:
			d.eval(g.forms(t.Range(1, 3)), nil)
		case 1:
			// a form that fails, buried, between others
			t.Fault("bad-form")
			faults++
			fs := g.forms(t.Range(1, 2))
			fs = append(fs, g.buryC05(g.badForm(), t.Intn(6)))
			fs = append(fs, g.forms(1)...)
			d.eval(fs, nil)
		case 2:
			// the host fails at one of the next calls
			k := d.rh.seq + t.Intn(5)
			plan.acts[k] = []hostAct{actError, actError, actPanic, actRuntime}[t.Intn(4)]
			faults++
			fs := g.forms(t.Range(1, 2))
			fs = append(fs, g.buryC05(call("hx", num(7)), t.Intn(6)))
			fs = append(fs, g.forms(1)...)
			d.eval(fs, nil)
		case 3:
			d.callback(t.Intn(50))
		case 4:
			faults++
			d.torn(g.forms(1), brokenTails[t.Intn(len(brokenTails))])
		case 5:
			d.empty(t)
		}
	})
	noteFaults(t, d.rh)
	t.ProbeN("texts ending in a value", d.vals)
	t.ProbeN("texts ending in an error", d.errs)
	if d.errs > 0 {
		t.NonTrivial()
	}
	t.State(fmt.Sprint(d.errs, d.vals, strings.Join(d.rh.hit, ",")))
	t.Sample(d.sample())
}

// c05Surface: what the reference does not model. A text that fails in
// the middle of a special form, builder or callback, between texts that
// an untouched twin evaluates too.
func c05Surface(t *core.T) {
	env, twin := zygo.NewZlisp(), zygo.NewZlisp()
	defer env.Close()
	defer twin.Close()
	var hist []string
	arm := false
	for _, e := range []*zygo.Zlisp{env, twin} {
		e.StandardSetup()
		e.AddFunction("fault", func(e *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
			if arm {
				return zygo.SexpNull, fmt.Errorf("FAULT")
			}
			return &zygo.SexpInt{Val: 1}, nil
		})
		e.AddFunction("faultpanic", func(e *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
			if arm {
				panic("FAULT")
			}
			return &zygo.SexpInt{Val: 1}, nil
		})
	}
	fail := func(class, f string, a ...interface{}) {
		t.Failf(class, "%s\ntexts:\n%s", fmt.Sprintf(f, a...), strings.Join(hist, "\n"))
	}
	both := func(s string) {
		hist = append(hist, s)
		SetBudget(2_000_000, 2_000_000)
		a := Eval(env, s)
		ao := TakeOutput()
		b := Eval(twin, s)
		bo := TakeOutput()
		SetBudget(1<<40, 1<<40)
		t.Logf("> %s = %s", s, a)
		if a.Kind() != b.Kind() || a.Dump != b.Dump || reNum.ReplaceAllString(ao, "N") != reNum.ReplaceAllString(bo, "N") {
			fail("diverged", "%s gives %s %s, in an interpreter that saw no failures %s %s", s, a, ao, b, bo)
		}
		if x := atRest(env); x != "" {
			fail("not-at-rest", "after %s (%s): %s", s, a, x)
		}
	}
	n := 0
	t.Many(2, 12, 6, func(int) {
		if t.Chance(2, 5) {
			both(surface[t.Intn(len(surface))])
			return
		}
		n++
		f := []string{"(fault)", "(faultpanic)", "undefq", "(+ 1 \"a\")", "(first [])"}[t.Intn(5)]
		s := strings.Replace(faulty[t.Intn(len(faulty))], "@", f, 1)
		if t.Chance(1, 3) {
			s = strings.Replace([]string{"(begin %s)", "(let [zz 1] %s)", "(for [(def zi 0) (< zi 2) (def zi (+ zi 1))] %s)", "((fn [] %s))", "(map (fn [x] %s) [1 2])", "[1 %s]", "(apply (fn [x] %s) [1])"}[t.Intn(7)], "%s", s, 1)
		}
		hist = append(hist, s+"   <fails>")
		arm = true
		SetBudget(2_000_000, 2_000_000)
		r := Eval(env, s)
		SetBudget(1<<40, 1<<40)
		arm = false
		t.Fault("fault-in-form")
		t.Logf("! %s = %s", s, r)
		TakeOutput()
		if r.Kind() == "value" {
			fail("swallowed", "%s gives %s, though something in it failed", s, r)
		}
		if x := atRest(env); x != "" {
			fail("not-at-rest", "after %s (%s): %s", s, r, x)
		}
	})
	if n > 0 {
		t.NonTrivial()
	}
	t.Sample(strings.Join(hist, " ; "))
}

// faulty are forms failing at @, without having defined anything.
var faulty = []string{
	`@`,
	`{@}`,
	`{1 + @}`,
	`{for iz := range 3 { @ }}`,
	`{for iz, vz := range [4, 5] { @ }}`,
	`{for iz := range @ { 1 }}`,
	`{if @ { 3 } else { 4 }}`,
	`{if true { @ } else { 4 }}`,
	`(range kk vv (hash a: 1 b: 2) @)`,
	`(range kk vv @ 1)`,
	`(hash a: @)`,
	`(hash a: (hash b: @))`,
	`[1 2 @]`,
	`(list 1 @ 2)`,
	`(cond @ 1 2)`,
	`(cond false 1 @)`,
	`(and true @)`,
	`(or false @)`,
	`(let [az @] az)`,
	`(letseq [az 1 bz @] az)`,
	`(let [az 1] @)`,
	`(newScope (def zz 1) @)`,
	`(for [(def iz @) (< iz 3) (def iz (+ iz 1))] iz)`,
	`(for [(def iz 0) @ (def iz (+ iz 1))] iz)`,
	`(for [(def iz 0) (< iz 3) @] iz)`,
	`(for [(def iz 0) (< iz 3) (def iz (+ iz 1))] @)`,
	`(for lz [(def iz 0) (< iz 3) (def iz (+ iz 1))] (for [(def jz 0) (< jz 3) (def jz (+ jz 1))] (cond (== jz 1) (continue lz) @)))`,
	`(map (fn [x] @) [1 2 3])`,
	`(map (fn [x] @) (list 1 2 3))`,
	`(apply (fn [x] @) [1])`,
	`((fn [x] @) 1)`,
	`((fn [x] x) @)`,
	`((@) 1)`,
	`(eval (quote @))`,
	`(eval (read "(+ 1 @)"))`,
	`(eval (list (quote first) (list (quote begin) (quote @))))`,
	`((fn [#x] (force #x)) @)`,
	`((fn [#x] ((fn [#y] (force #y)) (force #x))) @)`,
	`(assert @)`,
	`(assert (not 1))`,
	`^(a ~@)`,
	`^(a [~@])`,
	`^(a ~@@)`,
	`(aget [1 2] @)`,
	`(aget [1 2] 7)`,
	`(hget (hash a: 1) @)`,
	`(set ww.aa @)`,
	`(mdef wa wb @)`,
	`(mdef wa wb (list 1))`,
	`(set (array (quote wa) (quote wb)) [1 2 3])`,
	`(set (array (quote wa) (quote wb)) [1])`,
	`(set (array (quote wa) 7) [1 2])`,
	`(mdef wa wb (array 1))`,
	`(begin (struct Wq [(field A: int64 e: @)]) 1)`,
	`(struct Wq [@])`,
	`(func wq [a:int64] [n:int64] (+ 1 (nope nope2)) (let [x] 1))`,
	`(defmac wq [a] (let [x] 1))`,
	`(defn wq [a] (let [x] 1))`,
	`((fn [a] (return @)) 1)`,
	`(package "pkgw" { Aw = @ })`,
	`(package "pkgw" { Aw = 1; pw = (let [z @] z) })`,
	`(var wq int64 @)`,
	`(interface Wq [@])`,
	`(import "nosuchpackage" @)`,
	`(source "/nonexistent/file.zy" @)`,
	`(-> (hash a: 1) @)`,
	`(msgpack @)`,
	`(unjson (raw "{"))`,
	`(unmsgpack (raw "x") @)`,
	`(read "(((")`,
	`(eval (read "(let [x] 1)"))`,
	`(eval (read ")"))`,
	`(infix [1 + @])`,
	`(infix [1 +])`,
	`{1 + }`,
	`{az = @}`,
	`{[1,2][@]}`,
	`(hashidx (hash a: 1) [@])`,
	`(derefSet (& 1) @)`,
	`(sget "abc" @)`,
	`(str @)`,
	`(concat "a" @)`,
	`(append [1] @)`,
	`(sprintf "%v" @)`,
	`(arrayidx [1] [@])`,
	`(slice [1 2] 0 @)`,
	`(makeArray @ 1)`,
	`(togo @)`,
	`(gob @)`,
	`(type? @)`,
	`(hdel (hash a: 1) @)`,
	`(hset (hash a: 1) 1 @)`,
	`(keys @)`,
	`(continue nolabel)`,
	`(cond 1 2)`,
	`(fn 1)`,
	`(defn)`,
	`(let [1 2] 3)`,
	`(def 1 2)`,
	`(quote)`,
	`(for [1] 2)`,
	`(nosuchfunction @)`,
	`(1 @)`,
	`("a" @)`,
	`(macexpand (nosuchmacro2 (@)) 3)`,
}

func init() {
	core.Register(&core.Property{
		ID: "C05", Level: "exploration",
		Rule:      "A run interleaves succeeding texts with texts that fail at a seeded point: a mistake of a seeded kind buried under a seeded stack of constructs, or a host call that returns an error or panics inside builtins, loops, lets, callbacks, lazies, eval, macros. After each failure the interpreter must be at rest, the effects and bindings so far must be the reference's (which evaluated only the part before the failure), and later texts must agree with it. surface: the same with a list of failing texts outside the modelled language, against a twin that never saw them. Non-trivial: at least one failure. Distinct: by event log.",
		QuickRuns: 180000, ThorRuns: 4000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition of the language: written from the documentation and the properties, it compiles each form to a closure over explicit scopes and knows no VM, no tail calls and no captured stacks",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
			"which of several compile-time errors is reported first is not specified; run-time errors are compared by outcome and by the text the language fixes (undefined symbol names, host error texts)",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, builtins, env.Apply and env.EvalString",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
				"the failure point",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C05", Name: "faults", Weight: 3, Run: c05Run},
			{Prop: "C05", Name: "surface", Weight: 2, Run: c05Surface},
		},
	})
}
