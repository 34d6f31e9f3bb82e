package props

import (
	"fmt"
	"strings"

	zygo "github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C02: a program and its host. The simulator decides the program, what
// the host replies at each call and where faults strike; the history of
// host calls is the observable order of effects.

func layout(t *core.T) func() int {
	if t.Chance(1, 4) {
		return func() int { return t.Pick(12, 2, 1, 1, 1, 2) }
	}
	return nil
}

func pickActs(t *core.T, p *Plan, n, of int) {
	p.acts = map[int]hostAct{}
	if !t.Chance(n, of) {
		return
	}
	for i, k := 0, t.Range(1, 2); i < k; i++ {
		p.acts[t.Intn(12)] = []hostAct{actError, actError, actPanic, actRuntime}[t.Intn(4)]
	}
}

func noteFaults(t *core.T, h *Host) {
	for _, x := range h.hit {
		var k string
		var n int
		fmt.Sscanf(x, "%s %d", &k, &n)
		t.Fault("host-" + k)
	}
}

func langRun(t *core.T, cfg genCfg, faultNum, faultDen int, set func(d *duel)) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16))}
	pickActs(t, plan, faultNum, faultDen)
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	if set != nil {
		set(d)
	}
	lay := layout(t)
	most, more := 5, 2
	if cfg.texts > 0 {
		most, more = cfg.texts, 8
	}
	t.Many(1, most, more, func(int) {
		if d.un != "" {
			return
		}
		g.left += cfg.size / 3
		if cfg.keep && len(d.rh.kept) > 0 && t.Chance(1, 3) {
			d.callback(t.Intn(50))
			return
		}
		d.eval(g.forms(t.Range(1, 4)), lay)
		if cfg.pkgs {
			g.forget(d.ref)
		}
	})
	if d.un == "" && cfg.scopey {
		// what every function made so far still sees
		var a []V
		for _, k := range []kind{kF0, kF1, kF2} {
			for _, n := range g.vis(k) {
				as := []V{sy(n), num(2), num(3)}[:1+len(paramKinds[k])]
				a = append(a, call("hcatch", as...))
			}
		}
		if len(a) > 0 {
			d.eval([]V{call("list", a...)}, nil)
		}
	}
	noteFaults(t, d.rh)
	if (len(d.rh.log) > 0 || d.vals > 0) && (!cfg.lazy || d.ref.lazies > 0) {
		t.NonTrivial()
	}
	t.ProbeN("host calls", len(d.rh.log))
	t.ProbeN("texts ending in a value", d.vals)
	t.ProbeN("texts ending in an error", d.errs)
	t.ProbeN("lazy arguments made", d.ref.lazies)
	t.ProbeN("lazy arguments evaluated", d.ref.forced)
	if d.rh.seq > 3 {
		t.State(fmt.Sprint(d.rh.log[:4]))
	}
	t.Sample(d.sample())
}

// recheckEval takes TEXT => RESULT, where RESULT is what TEXT wrongly
// gives in a fresh interpreter.
func recheckEval(input string) (bool, string) {
	i := strings.LastIndex(input, " => ")
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	v, err := env.EvalString(input[:i])
	if err != nil {
		return false, err.Error()
	}
	got := v.SexpString(nil)
	return got == input[i+4:], got
}

func init() {
	core.Register(&core.Property{
		ID: "C03", Level: "exploration",
		Rule:      "A run is a seeded history of texts given to one interpreter, dense in functions, closures, shadowing with one or two names per kind, host calls that keep closures and call them back later (also from outside any evaluation), and injected host failures. Results, the history of host calls and all global bindings are compared after each text with a reference evaluator with explicit scopes. Non-trivial: a value or a host call was observed. Distinct: by event log. States: distinct host-call histories.",
		QuickRuns: 180000, ThorRuns: 6000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition of the language: written from the documentation and the properties, it compiles each form to a closure over explicit scopes and knows no VM, no tail calls and no captured stacks",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
			"which of several compile-time errors is reported first is not specified; run-time errors are compared by outcome and by the text the language fixes (undefined symbol names, host error texts)",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, builtins, env.Apply and env.EvalString",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C03", Name: "shadow", Weight: 3, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, errNum: 2, host: true, stray: 12, scopey: true, keep: true, typed: true}, 1, 12, nil)
			}},
			{Prop: "C03", Name: "one-name", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 1, size: 60, depth: 6, host: true, stray: 12, scopey: true, calls: true, keep: true}, 0, 1, nil)
			}},
			{Prop: "C03", Name: "tail", Weight: 1, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, host: true, stray: 12, scopey: true, keep: true, tail: true}, 1, 12, nil)
			}},
		},
	})
	core.Register(&core.Property{
		ID: "C16", Level: "exploration",
		Rule:      "A run is a seeded history of texts in which every formal may be lazy (#-prefixed) or strict, so that the caller does not know, and functions are called by name, alias, parameter, computed callee, with named arguments, variadic tails, apply, map and call-backs of the simulated host. Lazy arguments are forced any number of times, in closures, after their caller returned, from host call-backs outside any evaluation, passed on, stored, and substituted. Their effects are host calls, some of which fail. Results, the history of host calls and all global bindings are compared after each text with a reference evaluator. Non-trivial: a lazy argument was made. Distinct: by event log. States: distinct host-call histories.",
		QuickRuns: 150000, ThorRuns: 6000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition: a lazy argument is the expression and the scope of the call, evaluated at the first successful force and kept; what apply, map and host calls pass is already evaluated",
			"a forced evaluation that fails leaves the argument unevaluated, so that forcing it again evaluates it again",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, lazy arguments, builtins, env.Apply and env.EvalString",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C16", Name: "routes", Weight: 3, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, errNum: 2, host: true, stray: 12, calls: true, keep: true, lazy: true, typed: true}, 1, 8, nil)
			}},
			{Prop: "C16", Name: "closures", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 1, size: 60, depth: 6, host: true, stray: 12, scopey: true, calls: true, keep: true, lazy: true}, 1, 12, nil)
			}},
			{Prop: "C16", Name: "tail", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, host: true, stray: 12, calls: true, keep: true, tail: true, lazy: true, typed: true}, 1, 12, nil)
			}},
		},
	})
	core.Register(&core.Property{
		ID: "C02", Level: "exploration", Recheck: recheckEval,
		Rule:      "A run is a seeded history of texts given to one interpreter whose host (replies, failures, panics, call-backs at seeded calls) is simulated. After each text the value or error, the whole history of host calls (the order of effects) and every global binding are compared with a direct reference evaluator. Non-trivial: a value or a host call was observed. Distinct: by event log. States: distinct host-call histories.",
		QuickRuns: 220000, ThorRuns: 6000000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition of the language: written from the documentation and the properties, it compiles each form to a closure over explicit scopes and knows no VM, no tail calls and no captured stacks",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
			"which of several compile-time errors is reported first is not specified; run-time errors are compared by outcome and by the text the language fixes (undefined symbol names, host error texts)",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, builtins, env.Apply and env.EvalString",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C02", Name: "mixed", Weight: 3, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 3, size: 60, depth: 4, errNum: 6, host: true, exprBreak: true}, 1, 6, nil)
			}},
			{Prop: "C02", Name: "calls", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 3, size: 80, depth: 5, errNum: 3, host: true, calls: true, typed: true}, 1, 8, nil)
			}},
			{Prop: "C02", Name: "data", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 3, size: 60, depth: 2, errNum: 3, host: true, data: true, texts: 14}, 1, 10, nil)
			}},
			{Prop: "C02", Name: "large", Weight: 1, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 5, size: 200, depth: 5, errNum: 1, host: true, scopey: true, exprBreak: true}, 1, 10, nil)
			}},
		},
	})
}
