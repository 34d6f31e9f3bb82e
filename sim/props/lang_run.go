package props

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// duel runs the same texts in the reference evaluator and in the system
// under test, each with its own host following the same plan.
type duel struct {
	t        *core.T
	plan     *Plan
	ref      *Ref
	rh, sh   *Host
	env      *zygo.Zlisp
	hist     []string
	un       string
	vals     int
	errs     int
	rest     bool // check that the interpreter is at rest after each text
	restErr  bool // also after errors
	globals  bool
	lastDump string
	fuel     int
}

func newDuel(t *core.T, plan *Plan) *duel {
	d := &duel{t: t, plan: plan, rh: newHost(plan), sh: newHost(plan), globals: true}
	d.ref = NewRef(d.rh)
	d.env = zygo.NewZlisp()
	d.env.StandardSetup()
	d.sh.defineSUT(d.env)
	return d
}

func (d *duel) close() { d.env.Close() }

func (d *duel) fail(class, format string, a ...interface{}) {
	d.t.Failf(class, "%s\ntexts:\n%s", fmt.Sprintf(format, a...), strings.Join(d.hist, "\n----\n"))
}

// eval runs one text in both and compares. False: the reference does
// not model what happened, so nothing more can be compared.
func (d *duel) eval(forms []V, lay func() int) bool {
	text := Text(forms, lay)
	d.hist = append(d.hist, text)
	d.t.Logf("> %s", text)
	fuel0 := 60000
	if d.fuel > 0 {
		fuel0 = d.fuel
	}
	d.ref.fuel = fuel0
	rr := d.ref.Eval(forms)
	if rr.Un != "" || d.rh.seq > d.rh.max {
		d.un = rr.Un
		d.t.Probe("unmodelled: " + rr.Un)
		d.t.Logf("unmodelled %s", rr.Un)
		return false
	}
	used := int64(fuel0 - d.ref.fuel)
	SetBudget(used*60+40000, 10_000_000)
	sr := Eval(d.env, text)
	SetBudget(1<<40, 1<<40)
	d.t.Logf("= %s", sr)
	d.lastDump = sr.Dump
	d.same(rr, sr)
	if rr.Err != nil {
		d.errs++
		d.t.Probe("error: " + rr.Err.Kind)
	} else {
		d.vals++
	}
	if d.rest && (rr.Err == nil || d.restErr) {
		if s := atRest(d.env); s != "" {
			d.fail("not-at-rest", "after the last text (%s): %s", sr, s)
		}
	}
	return true
}

// callback has the host call a function it kept, from outside any
// evaluation.
func (d *duel) callback(n int) bool {
	if len(d.rh.kept) == 0 || len(d.rh.kept) != len(d.sh.kept) {
		return true
	}
	i := n % len(d.rh.kept)
	k := d.rh.kept[i]
	var args []int64
	for j := 0; j < k.n; j++ {
		args = append(args, int64((n+j)%5))
	}
	d.hist = append(d.hist, fmt.Sprintf("<host calls function %d it kept with %v>", i+1, args))
	d.t.Logf("> %s", d.hist[len(d.hist)-1])
	fuel0 := 60000
	d.ref.fuel = fuel0
	rr := d.ref.guard(func() V { return d.ref.applyValues(k.f, refInts(args)) })
	if rr.Un != "" || d.rh.seq > d.rh.max {
		d.un = rr.Un
		d.t.Probe("unmodelled: " + rr.Un)
		return false
	}
	SetBudget(int64(fuel0-d.ref.fuel)*60+40000, 10_000_000)
	sr := Call(func() (zygo.Sexp, error) {
		return d.env.Apply(d.sh.kept[i].f.(*zygo.SexpFunction), sexpInts(args))
	})
	SetBudget(1<<40, 1<<40)
	d.t.Logf("= %s", sr)
	d.t.Probe("callbacks from outside")
	d.same(rr, sr)
	if d.rest && (rr.Err == nil || d.restErr) {
		if s := atRest(d.env); s != "" {
			d.fail("not-at-rest", "after the last call (%s): %s", sr, s)
		}
	}
	return true
}

func (d *duel) same(rr RRes, sr Res) {
	// what was observed first differs most usefully
	for i := 0; i < len(d.rh.log) || i < len(d.sh.log); i++ {
		var a, b string = "nothing", "nothing"
		if i < len(d.rh.log) {
			a = d.rh.log[i]
		}
		if i < len(d.sh.log) {
			b = d.sh.log[i]
		}
		if a != b {
			d.fail("effects", "host call %d is %s, reference has %s (result %s, reference %s)", i, b, a, sr, rr)
		}
	}
	want := "value"
	if rr.Err != nil {
		want = "error"
		if rr.Err.Kind == "hostpanic" {
			want = "panic"
		}
	}
	if sr.Kind() != want && !(want == "panic" && sr.Kind() == "error") {
		d.fail("outcome", "the last text gave %s, reference %s", sr, rr)
	}
	if want == "value" && sr.Dump != rr.Dump {
		d.fail("value", "the last text gave %s, reference %s", sr.Dump, rr.Dump)
	}
	if rr.Err != nil {
		for _, n := range rr.Err.Need {
			if !strings.Contains(sr.ErrTxt+sr.Panic, n) {
				d.fail("error-text", "the last text gave %s, reference %s", sr, rr)
			}
		}
	}
	if !d.globals {
		return
	}
	for _, n := range d.ref.globals() {
		v := d.ref.glob.vars[n]
		if strings.HasPrefix(n, "#") {
			continue
		}
		want, skip := "", false
		func() {
			defer func() {
				if u, ok := recover().(unmod); ok {
					want, skip = u.why, true
				}
			}()
			want = RDump(v)
		}()
		got, ok := d.env.FindObject(n)
		if !ok {
			d.fail("globals", "after the last text (%s) %s is not bound, reference has %s", sr, n, want)
		}
		if skip {
			continue // a value that holds itself
		}
		if g := Dump(got); g != want {
			d.fail("globals", "after the last text (%s) %s is %s, reference has %s", sr, n, g, want)
		}
	}
}

func (d *duel) sample() string { return clip(strings.Join(d.hist, " ;; "), 1500) }
