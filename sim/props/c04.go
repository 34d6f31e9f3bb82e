package props

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C04: the interpreter is a server: it is handed texts by several
// routes, called back by its host, and has to be idle in between.

// emptyTexts hold nothing to evaluate.
var emptyTexts = []string{"", " ", "\n", "// c\n", "/* c */", "\t\n // x\n /* y */ "}

// evalBy hands a text to the interpreter by one of its routes.
func evalBy(route int, env *zygo.Zlisp, text string) Res {
	return Call(func() (zygo.Sexp, error) {
		switch route {
		case 1:
			if err := env.LoadString(text); err != nil {
				return zygo.SexpNull, err
			}
			return env.Run()
		case 2:
			return env.EvalExpressions(nil)
		}
		return env.EvalString(text)
	})
}

func (d *duel) empty(t *core.T) {
	s := emptyTexts[t.Intn(len(emptyTexts))]
	route := t.Intn(3)
	d.hist = append(d.hist, fmt.Sprintf("<empty text %q by route %d>", s, route))
	r := evalBy(route, d.env, s)
	d.t.Logf("> %s = %s", d.hist[len(d.hist)-1], r)
	if r.Kind() != "value" || r.Dump != "nil" {
		d.fail("empty", "empty input gave %s", r)
	}
	if s := atRest(d.env); s != "" {
		d.fail("not-at-rest", "after empty input: %s", s)
	}
	d.t.Probe("empty texts")
}

func c04Rest(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16))}
	cfg := genCfg{pool: 3, size: 60, depth: 5, errNum: 2, host: true, scopey: true, exprBreak: true, keep: true}
	if t.Chance(1, 4) {
		cfg.tail = true
	}
	pickActs(t, plan, 1, 10)
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest = true
	t.Many(1, 8, 4, func(int) {
		if d.un != "" {
			return
		}
		g.left += cfg.size / 3
		switch t.Pick(6, 1, 2) {
		case 1:
			d.empty(t)
			return
		case 2:
			d.callback(t.Intn(50))
			return
		}
		d.eval(g.forms(t.Range(1, 4)), nil)
	})
	noteFaults(t, d.rh)
	if d.vals > 0 {
		t.NonTrivial()
	}
	t.ProbeN("texts ending in a value", d.vals)
	t.Sample(d.sample())
}

// c04Apart: forms together in one interpreter, apart in another.
func c04Apart(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16))}
	cfg := genCfg{pool: 3, size: 50, depth: 4, host: true, scopey: true, exprBreak: true, keep: true}
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest = true
	var fs []V
	t.Many(2, 8, 4, func(int) {
		g.left += 20
		fs = append(fs, g.stmt(cfg.depth))
	})
	fs = append(fs, g.expr(kI, 2))
	// together, against the reference
	if !d.eval(fs, nil) || d.errs > 0 {
		return
	}
	together := d.sh.log
	h2 := newHost(plan)
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	h2.defineSUT(env)
	SetBudget(40_000_000, 10_000_000)
	var last Res
	for i := 0; i < len(fs); {
		n := 1
		if t.Chance(1, 4) && i+2 <= len(fs) {
			n = 2
		}
		text := Text(fs[i:i+n], nil)
		i += n
		// several texts may be loaded before they are run
		load := func(s string) {
			r := Call(func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadString(s) })
			t.Logf("loaded> %s = %s", s, r)
			if r.Kind() != "value" {
				d.fail("apart", "loaded apart, %s gives %s", s, r)
			}
			t.Probe("texts loaded, to be run later")
		}
		for i < len(fs) && t.Chance(1, 4) {
			load(text)
			if t.Chance(1, 8) {
				load(emptyTexts[t.Intn(len(emptyTexts))])
			}
			text = Text(fs[i:i+1], nil)
			i++
		}
		last = evalBy(t.Intn(2), env, text)
		t.Logf("apart> %s = %s", text, last)
		if last.Kind() != "value" {
			d.fail("apart", "evaluated apart, %s gives %s", text, last)
		}
		if s := atRest(env); s != "" {
			d.fail("not-at-rest", "evaluated apart, after %s (%s): %s", text, last, s)
		}
		if t.Chance(1, 6) {
			r := evalBy(t.Intn(3), env, emptyTexts[t.Intn(len(emptyTexts))])
			if r.Dump != "nil" {
				d.fail("empty", "empty input after %s gave %s", text, r)
			}
		}
	}
	if strings.Join(together, "\n") != strings.Join(h2.log, "\n") {
		d.fail("apart", "host calls differ: together\n%s\napart\n%s", strings.Join(together, "\n"), strings.Join(h2.log, "\n"))
	}
	d.env.AddGlobal("lastval", zygo.SexpNull)
	ref := d.ref
	_ = ref
	if a, b := d.lastDump, last.Dump; a != b {
		d.fail("apart", "together gives %s, apart %s", a, b)
	}
	t.NonTrivial()
	t.Sample(d.sample())
}

// c04Grow: an idle interpreter does not grow with the texts it served.
func c04Grow(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16))}
	cfg := genCfg{pool: 3, size: 50, depth: 4, host: true, scopey: true, exprBreak: true}
	if t.Bool() {
		cfg.calls = true
	}
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest = true
	fs := g.forms(t.Range(1, 4))
	surf := ""
	if t.Chance(1, 2) {
		surf = surface[t.Intn(len(surface))]
	}
	cycle := func() bool {
		d.rh.log, d.sh.log, d.rh.seq, d.sh.seq = nil, nil, 0, 0
		d.hist = nil
		if !d.eval(fs, nil) || d.errs > 0 {
			return false
		}
		if surf != "" {
			d.surface(surf)
		}
		return true
	}
	size := func() int {
		d.sh.log = nil
		return graphSize(d.env, &zygo.GoStructRegistry)
	}
	for i := 0; i < 3; i++ {
		if !cycle() {
			return
		}
	}
	r0 := graphSize(d.ref.glob)
	s0 := size()
	for i := 0; i < 3; i++ {
		if !cycle() {
			return
		}
	}
	r1 := graphSize(d.ref.glob)
	s1 := size()
	g1 := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		if !cycle() {
			return
		}
	}
	r2 := graphSize(d.ref.glob)
	s2 := size()
	t.Logf("sizes %d %d", r2-r1, s2-s1)
	if g2 := runtime.NumGoroutine(); g2 > g1 {
		d.fail("growth", "three evaluations left %d goroutines behind", g2-g1)
	}
	if r2 > r1 || r1 > r0 {
		t.Probe("growing program")
		return
	}
	t.NonTrivial()
	if s2 > s1 && s1 > s0 {
		d.fail("growth", "the interpreter grows by %d and %d objects per three evaluations of the same text%s", s1-s0, s2-s1, map[bool]string{true: " and " + surf}[surf != ""])
	}
	t.Sample(d.sample())
}

func (d *duel) surface(s string) {
	SetBudget(2_000_000, 2_000_000)
	r := Eval(d.env, s)
	SetBudget(1<<40, 1<<40)
	d.hist = append(d.hist, s)
	d.t.Logf("> %s = %s", s, r)
	if r.Kind() != "value" {
		d.t.Harnessf("surface text %s gives %s", s, r)
	}
	if x := atRest(d.env); x != "" {
		d.fail("not-at-rest", "after %s (%s): %s", s, r, x)
	}
}

// surface holds texts that use what the reference evaluator does not
// model: all end in a value and may be evaluated again and again.
var surface = []string{
	`{xq = 3; xq + 4}`,
	`{for ik := range 3 { ik }}`,
	`{for ik, iv := range [4, 5] { iv }}`,
	`{if 1 < 2 { 3 } else { 4 }}`,
	`{aq = [1, 2, 3]; aq[1] = 7; aq[0] += 2; aq[0:2]}`,
	`(infix [1 + 2 * 3])`,
	`(range kk vv (hash a: 1 b: 2) (str vv))`,
	`(struct Sq [(field A: int64 e: 0) (field B: string e: 1)])`,
	`(begin (struct Tq [(field A: int64 e: 0)]) (def tq (Tq A: 3)) (:A tq))`,
	`(begin (struct Uq [(field A: int64 e: 0)]) (def uq (Uq A: 3)) {uq.A = 5} uq.A)`,
	`(defmac mq [a & b] ^(begin ~a ~@b))`,
	`(begin (defmac mr [a] ^(+ ~a 1)) (macexpand (mr 3)))`,
	`(func fq [a:int64 b:string] [n:int64] (return a))`,
	`(begin (func gq [a:int64] [n:int64] (return a)) (gq 4))`,
	`(var vq int64)`,
	`(let [x 1] (quote (a b)))`,
	`(begin (def jq (json {"a":1, "b":[1,2]})) (unjson jq))`,
	`(unmsgpack (msgpack (hash a: 1)))`,
	`(read "(a b)")`,
	`(eval (read "(+ 1 2)"))`,
	`(mdef qa qb qc (list 1 2 3))`,
	`(begin (def chq (makeChan 1)) 1)`,
	`(sget "abc" 1)`,
	`(type? (raw "abc"))`,
	`(raw2str (raw "abc"))`,
	`(package "pkgq" { Aq = 3; bq = 4; Fq = (fn [x] (+ x bq)) })`,
	`(begin (def pkq (package "pkgr" { Aq = 3; bq = 4 })) pkq.Aq)`,
	`(str2sym "hello")`,
	`(hdel (hash a: 1) (quote a))`,
	`(begin (interface Iq [(func mq2 [a:int64] [n:int64])]) 1)`,
	`{1; 2; 3}`,
	`(joinsym (quote a) (quote b))`,
	`(asUint64 3)`,
	`(bitAnd 3 5)`,
	`(split "a b" " ")`,
	`(nsplit "a\nb")`,
	`(chomp "a\n")`,
	`(trim " a ")`,
	`(defined? (quote aaa))`,
	`(hpair (hash a: 1) 0)`,
	`(slice [1 2 3] 0 2)`,
	`(makeArray 3 1)`,
	`(let [f (fn [x] (cond (== x 0) 0 (f2 x)))] 1)`,
	`(begin (defn vf [a & b] b) (vf 1 2 3))`,
	`(begin (defn lzf [#a] (force #a)) (lzf (+ 1 2)))`,
	`(begin (defn lzg [#a] (substitute #a)) (lzg (+ 1 2)))`,
	`(assert (== 1 1))`,
	`(printf "")`,
	`(sprintf "%v" 3)`,
	`(begin (def hh (hash a: (hash b: 2))) (set hh.a.b 3) hh.a.b)`,
	`(:a (hash a: 1))`,
	`(arrayidx [1 2] [0])`,
	`(hashidx (hash a: 1) [(quote a)])`,
	`{hq = (hash b: 3); hq.b = 4; hq.b}`,
	`(begin (def aq9 1) (def pq9 (& aq9)) (derefSet pq9 4) (* pq9))`,
	`(begin (def iq9 1) (++ iq9) iq9)`,
	`{nq = 1; nq++; nq += 2; nq}`,
	`(for [(def i 0) (< i 3) (def i (+ i 1))] ((fn [x] x) i))`,
	`(map (fn [x] (* x x)) [1 2 3])`,
	`(let [f (fn [n] n)] (f 3))`,
}

func init() {
	core.Register(&core.Property{
		ID: "C04", Level: "exploration",
		Rule:      "A run gives one interpreter a seeded history of texts, loads, host calls and failures. rest: after every text that returns a value the VM stacks are compared with those of an idle interpreter and an empty text gives nil. apart: forms evaluated one at a time, grouped and together give the same results. grow: the objects reachable from the interpreter and the goroutines are counted before and after repeating an idempotent text. Non-trivial: a value was returned. Distinct: by event log.",
		QuickRuns: 100000, ThorRuns: 3000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition of the language: written from the documentation and the properties, it compiles each form to a closure over explicit scopes and knows no VM, no tail calls and no captured stacks",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
			"which of several compile-time errors is reported first is not specified; run-time errors are compared by outcome and by the text the language fixes (undefined symbol names, host error texts)",
			"reachable objects are counted by reflection from the interpreter; a text is repeated until caches settle before growth is judged",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, builtins, env.Apply and env.EvalString",
				"every entry point: EvalString, LoadString+Run, EvalExpressions, Apply, CallZlispFunction-like host calls",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C04", Name: "rest", Weight: 4, Run: c04Rest},
			{Prop: "C04", Name: "apart", Weight: 3, Run: c04Apart},
			{Prop: "C04", Name: "grow", Weight: 2, Run: c04Grow},
		},
	})
}
