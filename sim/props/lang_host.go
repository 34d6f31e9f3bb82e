package props

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// The host: Go functions that scripts call. Both the system under test
// and the reference evaluator call hosts that follow the same plan; what
// they were called with, in order, is the history that is compared. The
// plan decides at which call a fault is injected.

type hostAct int

const (
	actReply hostAct = iota
	actError
	actPanic   // panics with a string
	actRuntime // panics with a Go runtime error
)

type Plan struct {
	seed uint64
	acts map[int]hostAct // by sequence number
}

type Host struct {
	plan *Plan
	seq  int
	log  []string
	max  int
	hit  []string
	// functions the host keeps and calls back later
	kept  []kept
	pokes int
}

type kept struct {
	f interface{}
	n int // arguments it takes
}

func newHost(p *Plan) *Host { return &Host{plan: p, max: 4000} }

const hostLong = "<host called too often>"

func (h *Host) enter(name string, args []string) (int, hostAct) {
	n := h.seq
	h.seq++
	if len(h.log) < h.max {
		h.log = append(h.log, fmt.Sprintf("%s(%s)", name, strings.Join(args, ", ")))
	}
	a := h.plan.acts[n]
	if a != actReply {
		h.hit = append(h.hit, fmt.Sprintf("%s %d", []string{"", "error", "panic", "runtime-panic"}[a], n))
	}
	return n, a
}

func (h *Host) mix(n int, name string) int {
	x := h.plan.seed
	for i := 0; i < len(name); i++ {
		x = core.Mix(x, uint64(name[i]))
	}
	return int(core.Mix(x, uint64(n)) % 1024)
}

func token(n int) string { return fmt.Sprintf("FAULT-%d-", n) }

// reply is the value a data-giving host function replies with.
func (h *Host) reply(name string, n int) V {
	m := h.mix(n, name)
	switch name {
	case "hi":
		return int64([]int{0, 1, 2, 3, 4, 5, -1, -2, 7, 10}[m%10])
	case "hb":
		return m%2 == 0
	case "hs":
		return []string{"", "a", "zz", "q\"x", "a b", "\n"}[m%6]
	case "ha":
		e := make([]V, m%4)
		for i := range e {
			e[i] = int64((m >> uint(i)) % 9)
		}
		return &Ar{E: e}
	case "hl":
		e := make([]V, m%4)
		for i := range e {
			e[i] = int64((m >> uint(i)) % 9)
		}
		return list(e...)
	}
	return RNil{}
}

// poke says which kept function to call back and with what.
func (h *Host) poke(n int) (k kept, args []int64, ok bool) {
	if len(h.kept) == 0 || h.pokes >= 2 {
		return
	}
	m := h.mix(n, "hpoke")
	k = h.kept[m%len(h.kept)]
	for i := 0; i < k.n; i++ {
		args = append(args, int64((m>>uint(2*i))%7))
	}
	return k, args, true
}

var hostData = []string{"hi", "hb", "hs", "ha", "hl", "hn"}

// defineRef installs the host functions in a reference evaluator.
func (h *Host) defineRef(r *Ref) {
	dump := func(a []V) []string {
		s := make([]string, len(a))
		for i := range a {
			s[i] = RDump(a[i])
		}
		return s
	}
	act := func(n int, a hostAct) {
		switch a {
		case actError:
			raise("host", token(n))
		case actPanic:
			raise("hostpanic", token(n))
		case actRuntime:
			raise("hostpanic", "index out of range")
		}
	}
	// host functions may be replaced by the script like any function, so
	// they are not reserved.
	def := func(name string, f func(r *Ref, a []V) V) {
		r.glob.vars[name] = &Bi{name, f}
	}
	for _, name := range hostData {
		name := name
		def(name, func(r *Ref, a []V) V {
			n, k := h.enter(name, dump(a))
			act(n, k)
			return h.reply(name, n)
		})
	}
	def("hx", func(r *Ref, a []V) V {
		n, k := h.enter("hx", dump(a))
		act(n, k)
		if len(a) == 0 {
			return RNil{}
		}
		return a[len(a)-1]
	})
	def("hcall", func(r *Ref, a []V) V {
		n, k := h.enter("hcall", dump(a))
		act(n, k)
		if len(a) == 0 || !isRFn(a[0]) {
			raise("host", "hcall needs a function")
		}
		return r.applyValues(a[0], append([]V{}, a[1:]...))
	})
	def("hkeep", func(r *Ref, a []V) V {
		n, k := h.enter("hkeep", dump(a))
		act(n, k)
		if len(a) == 2 && isRFn(a[0]) {
			if n, ok := a[1].(int64); ok {
				h.kept = append(h.kept, kept{a[0], int(n)})
				return int64(len(h.kept))
			}
		}
		raise("host", "hkeep")
		return nil
	})
	def("hpoke", func(r *Ref, a []V) V {
		n, k := h.enter("hpoke", dump(a))
		act(n, k)
		f, args, ok := h.poke(n)
		if !ok {
			return int64(0)
		}
		h.pokes++
		defer func() { h.pokes-- }()
		return r.applyValues(f.f, refInts(args))
	})
	def("hcatch", func(r *Ref, a []V) (out V) {
		n, k := h.enter("hcatch", dump(a))
		act(n, k)
		if len(a) == 0 || !isRFn(a[0]) {
			raise("host", "hcatch needs a function")
		}
		d := r.depth
		defer func() {
			if p := recover(); p != nil {
				if e, ok := p.(*rErr); ok && e.Kind != "hostpanic" {
					r.depth = d
					out = "caught"
					return
				}
				panic(p)
			}
		}()
		return r.applyValues(a[0], append([]V{}, a[1:]...))
	})
}

func refInts(a []int64) []V {
	r := make([]V, len(a))
	for i := range a {
		r[i] = a[i]
	}
	return r
}

func sexpInts(a []int64) []zygo.Sexp {
	r := make([]zygo.Sexp, len(a))
	for i := range a {
		r[i] = &zygo.SexpInt{Val: a[i]}
	}
	return r
}

func isRFn(v V) bool {
	switch v.(type) {
	case *Fn, *Bi:
		return true
	}
	return false
}

// toSexp turns a reply into the system's value.
func toSexp(v V) zygo.Sexp {
	switch x := v.(type) {
	case int64:
		return &zygo.SexpInt{Val: x}
	case bool:
		return &zygo.SexpBool{Val: x}
	case string:
		return &zygo.SexpStr{S: x}
	case *Ar:
		e := make([]zygo.Sexp, len(x.E))
		for i := range e {
			e[i] = toSexp(x.E[i])
		}
		return &zygo.SexpArray{Val: e}
	case *Pr:
		return zygo.Cons(toSexp(x.H), toSexp(x.T))
	case RNil:
		return zygo.SexpNull
	}
	panic(fmt.Sprintf("toSexp %T", v))
}

// defineSUT installs the host functions in the system under test.
func (h *Host) defineSUT(env *zygo.Zlisp) {
	dump := func(a []zygo.Sexp) []string {
		s := make([]string, len(a))
		for i := range a {
			s[i] = Dump(a[i])
		}
		return s
	}
	act := func(n int, a hostAct) error {
		switch a {
		case actError:
			return fmt.Errorf("host failed: %s", token(n))
		case actPanic:
			panic("host panicked: " + token(n))
		case actRuntime:
			var e []int
			_ = e[n]
		}
		return nil
	}
	for _, name := range hostData {
		name := name
		env.AddFunction(name, func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
			n, k := h.enter(name, dump(a))
			if err := act(n, k); err != nil {
				return zygo.SexpNull, err
			}
			return toSexp(h.reply(name, n)), nil
		})
	}
	env.AddFunction("hx", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		n, k := h.enter("hx", dump(a))
		if err := act(n, k); err != nil {
			return zygo.SexpNull, err
		}
		if len(a) == 0 {
			return zygo.SexpNull, nil
		}
		return a[len(a)-1], nil
	})
	env.AddFunction("hkeep", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		n, k := h.enter("hkeep", dump(a))
		if err := act(n, k); err != nil {
			return zygo.SexpNull, err
		}
		if len(a) == 2 {
			f, ok1 := a[0].(*zygo.SexpFunction)
			n, ok2 := a[1].(*zygo.SexpInt)
			if ok1 && ok2 {
				h.kept = append(h.kept, kept{f, int(n.Val)})
				return &zygo.SexpInt{Val: int64(len(h.kept))}, nil
			}
		}
		return zygo.SexpNull, fmt.Errorf("hkeep needs a function and a number")
	})
	env.AddFunction("hpoke", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		n, k := h.enter("hpoke", dump(a))
		if err := act(n, k); err != nil {
			return zygo.SexpNull, err
		}
		f, args, ok := h.poke(n)
		if !ok {
			return &zygo.SexpInt{}, nil
		}
		h.pokes++
		defer func() { h.pokes-- }()
		return env.Apply(f.f.(*zygo.SexpFunction), sexpInts(args))
	})
	call := func(name string, catch bool) {
		env.AddFunction(name, func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
			n, k := h.enter(name, dump(a))
			if err := act(n, k); err != nil {
				return zygo.SexpNull, err
			}
			var f *zygo.SexpFunction
			if len(a) > 0 {
				f, _ = a[0].(*zygo.SexpFunction)
			}
			if f == nil {
				return zygo.SexpNull, fmt.Errorf("%s needs a function", name)
			}
			v, err := env.Apply(f, append([]zygo.Sexp{}, a[1:]...))
			if err != nil && catch {
				return &zygo.SexpStr{S: "caught"}, nil
			}
			return v, err
		})
	}
	call("hcall", false)
	call("hcatch", true)
}
