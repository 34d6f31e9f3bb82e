package props

import (
	"fmt"
	"runtime"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C09: tail calls. Values and effects come from the reference evaluator,
// which knows no tail calls; space is measured at every VM step.

type spaceMeter struct {
	data, scope, addr, goFrames int
	steps                       int
	pcs                         []uintptr
}

func (m *spaceMeter) step(env *zygo.Zlisp) {
	d := env.VerifDepths()
	if d.Data > m.data {
		m.data = d.Data
	}
	if d.Scope > m.scope {
		m.scope = d.Scope
	}
	if d.Addr > m.addr {
		m.addr = d.Addr
	}
	if m.steps++; m.steps%211 == 0 {
		if n := runtime.Callers(0, m.pcs); n > m.goFrames {
			m.goFrames = n
		}
	}
}

func (m *spaceMeter) String() string {
	return fmt.Sprintf("%d operands, %d scopes, %d return addresses, %d Go frames", m.data, m.scope, m.addr, m.goFrames)
}

// tailFn generates a function that calls itself in tail position only,
// and how to call it with a given depth.
func (g *gen) tailFn() ([]V, func(n int) V, string) {
	t := g.t
	k := []kind{kF1, kF2}[t.Intn(2)]
	name := g.fresh(k)
	def := g.recursive(name, k, g.cfg.depth)
	inner := func(n int) V {
		if k == kF2 {
			return callE(sy(name), num(n), num(3))
		}
		return callE(sy(name), num(n))
	}
	parts, _ := unlist(def) // defn name params body...
	fn := list(append([]V{Sy("fn")}, parts[2:]...)...)
	switch t.Intn(5) {
	case 0:
		return []V{def}, inner, "defn"
	case 1:
		return []V{defV(name, fn)}, inner, "def fn"
	case 2:
		// made inside a function, used there
		w := g.labelName()
		setup := []V{call("defn", sy(w), arr(sy("depth")), def, callWithDepth(inner(0), sy("depth")))}
		return setup, func(n int) V { return callE(sy(w), num(n)) }, "inner defn"
	case 3:
		w := g.labelName()
		setup := []V{defV(w, call("let", arr(sy("i1"), num(2)), def, sy(name)))}
		return setup, func(n int) V {
			return callE(sy(w), argsOf(inner(n))...)
		}, "out of let"
	default:
		return []V{def}, func(n int) V {
			return call("aget", call("map", fnOf([]V{sy("depth")}, callWithDepth(inner(0), sy("depth"))), arr(num(n))), num(0))
		}, "from map"
	}
}

func (g *gen) labelName() string { g.labels++; return fmt.Sprintf("w%d", g.labels) }

func argsOf(c V) []V {
	xs, _ := unlist(c)
	return xs[1:]
}

// callWithDepth replaces the first argument.
func callWithDepth(c V, d V) V {
	xs, _ := unlist(c)
	ys := append([]V{}, xs...)
	ys[1] = d
	return list(ys...)
}

func c09Space(t *core.T) {
	plan := &Plan{seed: uint64(t.Intn(1 << 16))}
	cfg := genCfg{pool: 2, size: 35, depth: t.Range(2, 5), tail: true, tailOnly: true, scopey: t.Bool()}
	g := newGen(t, cfg)
	d := newDuel(t, plan)
	defer d.close()
	d.rest = true
	d.fuel = 3_000_000
	setup, use, shape := g.tailFn()
	if !d.eval(setup, nil) || d.errs > 0 {
		return
	}
	small, large := 150, 750
	if t.Chance(1, 12) {
		large = 3000
	}
	run := func(n int) (*spaceMeter, bool) {
		m := &spaceMeter{pcs: make([]uintptr, 20000)}
		onStep = m.step
		ok := d.eval([]V{use(n)}, nil)
		onStep = nil
		return m, ok && d.errs == 0
	}
	a, ok := run(small)
	if !ok {
		return
	}
	b, ok := run(large)
	if !ok {
		return
	}
	t.Probe("shape " + shape)
	t.Logf("depth %d: %s; depth %d: %s", small, a.String(), large, b.String())
	slack := (large - small) / 8
	for _, x := range []struct {
		what string
		a, b int
	}{{"operand stack", a.data, b.data}, {"scope stack", a.scope, b.scope}, {"address stack", a.addr, b.addr}, {"Go stack", a.goFrames, b.goFrames}} {
		if x.b-x.a > slack {
			d.fail("space", "%s: %d at recursion depth %d, %d at depth %d", x.what, x.a, small, x.b, large)
		}
	}
	if b.steps > 2*large {
		t.NonTrivial()
	}
	t.State(fmt.Sprintf("%s %d %d %d", shape, b.data, b.scope, b.addr))
	t.Sample(d.sample())
}

func init() {
	mk := func(pool, size, depth int, keep bool, fn int) func(t *core.T) {
		return func(t *core.T) {
			langRun(t, genCfg{pool: pool, size: size, depth: depth, host: true, scopey: true, tail: true, keep: keep, exprBreak: true}, fn, 10, nil)
		}
	}
	core.Register(&core.Property{
		ID: "C09", Level: "exploration",
		Rule:      "space: a seeded function that calls itself in tail position only (cond, begin, let, letseq, newScope, and/or in any nesting; defn, def of fn, inner, escaping) is run at two depths with the operand, scope and return stacks and the Go stack measured at every VM step; a stack that grows with depth is a violation. invisible, one-name: seeded programs full of recursive functions whose iterations create closures the host keeps and calls later, compared with a reference evaluator that has no tail calls. Non-trivial: the deep run took more than two steps per level, or values were observed. Distinct: by event log.",
		QuickRuns: 45000, ThorRuns: 1500000,
		Assumptions: []string{
			"the reference evaluator (lang_ref.go) is the definition of the language: written from the documentation and the properties, it compiles each form to a closure over explicit scopes and knows no VM, no tail calls and no captured stacks",
			"programs whose outcome the language leaves open (order of unequal symbols, NaN, elements shared by Go-like append, sizes above 300) are not compared further",
			"which of several compile-time errors is reported first is not specified; run-time errors are compared by outcome and by the text the language fixes (undefined symbol names, host error texts)",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser, generator, VM, scopes, closures, builtins, env.Apply and env.EvalString",
				"the per-step hook reads the VM's stack depths",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C09", Name: "space", Weight: 1, Run: c09Space},
			{Prop: "C09", Name: "invisible", Weight: 2, Run: mk(2, 70, 5, true, 1)},
			{Prop: "C09", Name: "one-name", Weight: 1, Run: mk(1, 60, 5, true, 0)},
		},
	})
}
