package props

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// This file is the reference evaluator: a direct evaluator of the core
// language over S-expressions, with environments as linked scopes and
// no bytecode, no tail-call optimisation and no evaluation stacks. Its
// values and its forms are the same things.

type V interface{}

type (
	RNil struct{}
	Ch   rune
	Sy   string
	Pr   struct{ H, T V }
	Ar   struct {
		E []V
		U bool // element type tag not modelled
		// Growing an array may or may not share its elements with the
		// original: what the two see of each other's aset afterwards is
		// not modelled.
		grow, used bool
		grp        *int
	}
	Ha struct {
		K, W []V
	}
	Fn struct {
		name   string
		params []string
		lazy   []bool
		types  []string // of a func
		rest   bool
		body   node
		env    *RScope
	}
	Bi struct {
		name string
		f    func(r *Ref, args []V) V
	}
	Lz struct {
		form V
		sc   *RScope
		done bool
		busy bool
		val  V
	}
	node func(s *RScope) V
)

// SQ is a template: (syntaxQuote x) as read from ^x, with (unquote e)
// and (unquote-splicing e) inside.

type RScope struct {
	vars   map[string]V
	parent *RScope
}

func (s *RScope) find(n string) *RScope {
	for x := s; x != nil; x = x.parent {
		if _, ok := x.vars[n]; ok {
			return x
		}
	}
	return nil
}

func newRScope(p *RScope) *RScope { return &RScope{map[string]V{}, p} }

// rErr is an error the reference evaluator raises; Need lists texts
// that the error of the system under test has to contain.
type rErr struct {
	Kind string
	Need []string
}

func (e *rErr) String() string { return "<error " + e.Kind + " " + strings.Join(e.Need, " ") + ">" }

// unmod says that the run left what the reference models.
type unmod struct{ why string }

type loopCtl struct {
	brk bool
	lp  *rLoop
}

type rLoop struct {
	label string
	fnLvl int
}

// cctx is what the compiler of the system under test knows at a
// point: the enclosing loops.
type cctx struct {
	loops []*rLoop
	fnLvl int
}

type Ref struct {
	glob           *RScope
	macros         map[string]*Fn
	reserv         map[string]bool
	host           *Host
	fuel           int
	depth          int
	maxDep         int
	forced, lazies int
}

func raise(kind string, need ...string) { panic(&rErr{kind, need}) }

func list(vs ...V) V {
	var r V = RNil{}
	for i := len(vs) - 1; i >= 0; i-- {
		r = &Pr{vs[i], r}
	}
	return r
}

func unlist(v V) ([]V, bool) {
	var r []V
	for {
		switch x := v.(type) {
		case RNil:
			return r, true
		case *Pr:
			r = append(r, x.H)
			v = x.T
		default:
			return nil, false
		}
	}
}

func rTruthy(v V) bool {
	switch x := v.(type) {
	case bool:
		return x
	case int64:
		return x != 0
	case Ch:
		return x != 0
	case RNil:
		return false
	}
	return true
}

// RDump writes a value as Dump writes the system's.
func RDump(v V) string {
	var b strings.Builder
	rdumpSeen = nil
	rdump(&b, v, 0)
	return b.String()
}

func rdump(b *strings.Builder, v V, depth int) {
	if depth > 100 {
		panic(unmod{"deep value"})
	}
	switch x := v.(type) {
	case RNil:
		b.WriteString("nil")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		b.WriteString("f" + strconv.FormatFloat(x, 'g', -1, 64))
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case Ch:
		b.WriteString("#" + strconv.QuoteRune(rune(x)))
	case string:
		b.WriteString(strconv.Quote(x))
	case Sy:
		b.WriteString("'" + strings.TrimSuffix(string(x), ":"))
	case *Pr:
		b.WriteString("(")
		n := 0
		for {
			if n++; n > 10000 {
				panic(unmod{"long value"})
			}
			rdump(b, x.H, depth+1)
			if _, ok := x.T.(RNil); ok {
				break
			}
			p, ok := x.T.(*Pr)
			if !ok {
				b.WriteString(" \\ ")
				rdump(b, x.T, depth+1)
				break
			}
			b.WriteString(" ")
			x = p
		}
		b.WriteString(")")
	case *Ar:
		b.WriteString("[")
		for i, e := range x.E {
			if i > 0 {
				b.WriteString(" ")
			}
			rdump(b, e, depth+1)
		}
		b.WriteString("]")
	case *Ha:
		b.WriteString("{hash")
		for i := range x.K {
			b.WriteString(" ")
			rdump(b, x.K[i], depth+1)
			b.WriteString(":")
			rdump(b, x.W[i], depth+1)
		}
		b.WriteString("}")
	case *Fn, *Bi:
		b.WriteString("<fn>")
	case *Lz:
		b.WriteString("<lazy>")
	case *Pk:
		rdumpPkg(b, x, depth)
	case *Inf:
		panic(unmod{"infix form as data"})
	default:
		panic(fmt.Sprintf("rdump %T", v))
	}
}

// ---- compiling (checks happen here, as in the system under test) ----

func (r *Ref) tick() {
	if r.fuel--; r.fuel < 0 {
		panic(unmod{"fuel"})
	}
}

func konst(v V) node { return func(*RScope) V { return v } }

func (r *Ref) comp(f V, c cctx) node {
	switch x := f.(type) {
	case Sy:
		n := string(x)
		if strings.HasSuffix(n, ":") {
			return konst(x)
		}
		if isDotted(n) {
			return func(s *RScope) V {
				r.tick()
				return r.walk(s, n, false, nil)
			}
		}
		return func(s *RScope) V {
			r.tick()
			return r.look(s, n)
		}
	case *Ar:
		els := r.compAll(x.E, c)
		return func(s *RScope) V {
			r.tick()
			a := make([]V, len(els))
			for i, e := range els {
				a[i] = e(s)
			}
			return &Ar{E: a}
		}
	case *Pr:
		xs, ok := unlist(x)
		if !ok {
			return konst(x)
		}
		if h, ok := x.H.(Sy); ok {
			return r.compSym(string(h), xs[1:], c)
		}
		return r.compCall(x.H, xs[1:])
	case *Inf:
		return r.comp(x.F, c)
	case *Ha:
		panic(unmod{"hash form"})
	}
	return konst(f)
}

func (r *Ref) compAll(fs []V, c cctx) []node {
	ns := make([]node, len(fs))
	for i, f := range fs {
		ns[i] = r.comp(f, c)
	}
	return ns
}

func (r *Ref) look(s *RScope, n string) V {
	if _, ok := r.macros[n]; ok {
		raise("macro-value", n)
	}
	x := s.find(n)
	if x == nil {
		raise("unbound", n)
	}
	return x.vars[n]
}

func isDotted(n string) bool { return strings.Index(n, ".") > 0 }

func (r *Ref) compBody(fs []V, c cctx) node {
	if len(fs) == 0 {
		return konst(RNil{})
	}
	ns := r.compAll(fs, c)
	return func(s *RScope) V {
		var v V
		for _, n := range ns {
			v = n(s)
		}
		return v
	}
}

func (r *Ref) compCall(callee V, args []V) node {
	return func(s *RScope) V {
		r.tick()
		var f V
		if n, ok := callee.(Sy); ok {
			f = r.comp(n, cctx{})(s)
		} else {
			f = r.comp(callee, cctx{})(s)
		}
		switch g := f.(type) {
		case *Fn:
			vals := make([]V, len(args))
			if g.types != nil {
				if vs, ok := r.namedArgs(g, args, s); ok {
					return r.apply(g, vs)
				}
			}
			for i, a := range args {
				if isName(a) {
					panic(unmod{"a name among the arguments"})
				}
				if g.isLazy(i) {
					r.lazies++
					vals[i] = &Lz{form: a, sc: s}
					continue
				}
				vals[i] = r.comp(a, cctx{})(s)
			}
			return r.apply(g, vals)
		case *Bi:
			vals := make([]V, len(args))
			for i, a := range args {
				vals[i] = r.comp(a, cctx{})(s)
			}
			if g.name == "eval" {
				return r.evalIn(s, vals)
			}
			return r.callBi(g, vals)
		case Sy:
			panic(unmod{"symbol as callee"})
		case *Ar:
			panic(unmod{"array as callee"})
		}
		if len(args) == 0 {
			return f
		}
		raise("not-a-function")
		return nil
	}
}

// callBi calls a builtin from script code; a panic of the host stops
// here and becomes an error.
func (r *Ref) callBi(g *Bi, vals []V) V {
	if r.host.plan.acts != nil {
		defer func() {
			if p := recover(); p != nil {
				if e, ok := p.(*rErr); ok && e.Kind == "hostpanic" {
					p = &rErr{"host", e.Need}
				}
				panic(p)
			}
		}()
	}
	return g.f(r, vals)
}

// evalIn is eval called in scope s.
func (r *Ref) evalIn(s *RScope, forms []V) V {
	if len(forms) < 1 {
		raise("arity")
	}
	return r.compBody(forms, cctx{})(s)
}

func isName(v V) bool {
	n, ok := v.(Sy)
	return ok && strings.HasSuffix(string(n), ":")
}

// namedArgs binds arguments given by name, in the order written.
func (r *Ref) namedArgs(g *Fn, args []V, s *RScope) ([]V, bool) {
	if len(args) == 0 || !isName(args[0]) {
		return nil, false
	}
	vals := make([]V, len(g.params))
	bad := false
	for i := 0; i < len(args); i += 2 {
		if isName(args[i]) && i+1 == len(args) {
			bad = true // a name without a value
			break
		}
		if !isName(args[i]) || isName(args[i+1]) {
			panic(unmod{"odd named arguments"})
		}
		n := strings.TrimSuffix(string(args[i].(Sy)), ":")
		at := -1
		for j, p := range g.params {
			if p == n {
				at = j
			}
		}
		if at >= 0 && g.lazy[at] {
			if vals[at] != nil {
				bad = true
				continue
			}
			r.lazies++
			vals[at] = &Lz{form: args[i+1], sc: s}
			continue
		}
		v := r.comp(args[i+1], cctx{})(s)
		if at < 0 || vals[at] != nil {
			bad = true
			continue
		}
		vals[at] = v
	}
	for _, v := range vals {
		if v == nil {
			bad = true
		}
	}
	if bad {
		raise("arity")
	}
	return vals, true
}

func (f *Fn) isLazy(i int) bool {
	n := len(f.params)
	if f.rest && i >= n-1 {
		return false
	}
	return i < n && f.lazy[i]
}

// apply calls f on values already prepared.
func (r *Ref) apply(fv V, vals []V) V {
	switch f := fv.(type) {
	case *Bi:
		return f.f(r, vals)
	case *Fn:
		r.tick()
		r.depth++
		defer func() { r.depth-- }()
		if r.depth > r.maxDep {
			r.maxDep = r.depth
		}
		if r.depth > 20000 {
			panic(unmod{"depth"})
		}
		n := len(f.params)
		sc := newRScope(f.env)
		if f.rest {
			if len(vals) < n-1 {
				raise("arity")
			}
			sc.vars[f.params[n-1]] = list(vals[n-1:]...)
			vals = vals[:n-1]
		} else if len(vals) != n {
			raise("arity")
		}
		for i := range f.types {
			if !f.lazy[i] && rtype(vals[i]) != f.types[i] {
				raise("type", "type mismatch")
			}
		}
		for i := len(vals) - 1; i >= 0; i-- {
			r.bind(sc, f.params[i], vals[i])
		}
		return f.body(sc)
	}
	raise("not-a-function")
	return nil
}

// applyValues is apply as Go code calls it: lazy formals get their
// value, already forced.
func (r *Ref) applyValues(fv V, vals []V) V {
	if f, ok := fv.(*Fn); ok {
		vs := append([]V{}, vals...)
		for i := range vs {
			if f.isLazy(i) {
				r.lazies++
				vs[i] = &Lz{form: vs[i], done: true, val: vs[i]}
			}
		}
		vals = vs
	}
	return r.apply(fv, vals)
}

func rtype(v V) string {
	switch x := v.(type) {
	case int64:
		return "int64"
	case float64:
		return "float64"
	case bool:
		return "bool"
	case string:
		return "string"
	case Ch:
		return "int32"
	case Sy:
		return "symbol"
	case *Ha:
		return "hash"
	case *Pk:
		return "package"
	case *Ar:
		if len(x.E) == 0 || x.U {
			return "[]?"
		}
		return "[]" + rtype(x.E[0])
	}
	return ""
}

// bind is def: it keeps the type of a variable of the same scope.
func (r *Ref) bind(s *RScope, n string, v V) {
	if cur, ok := s.vars[n]; ok {
		a, b := rtype(cur), rtype(v)
		if a != "" && b != "" {
			if strings.HasPrefix(a, "[]") || strings.HasPrefix(b, "[]") {
				if a != b || a == "[]?" || strings.Contains(a, "hash") {
					panic(unmod{"rebinding an array"})
				}
			}
			if a != b {
				raise("retype", "cannot assign")
			}
		}
	}
	s.vars[n] = v
}

func (r *Ref) checkLHS(n string) {
	if r.reserv[n] {
		raise("compile")
	}
	if _, ok := r.macros[n]; ok {
		raise("compile")
	}
}

func (r *Ref) fnForm(name string, ps V, body []V, c cctx) func(s *RScope) *Fn {
	arr, ok := ps.(*Ar)
	if !ok {
		raise("compile")
	}
	f := Fn{name: name}
	for i := 0; i < len(arr.E); i++ {
		p, ok := arr.E[i].(Sy)
		if !ok {
			raise("compile")
		}
		if p == "&" && i == len(arr.E)-2 {
			f.rest = true
			continue
		}
		f.params = append(f.params, string(p))
		f.lazy = append(f.lazy, strings.HasPrefix(string(p), "#"))
	}
	f.body = r.compBody(body, cctx{c.loops, c.fnLvl + 1})
	return func(s *RScope) *Fn {
		g := f
		g.env = s
		return &g
	}
}

// specials are the names the compiler treats itself.
var specials = map[string]bool{}

func init() {
	for _, n := range strings.Fields("and or cond quote def mdef fn defn func begin let letseq assert defmac macexpand syntaxQuote for set break continue newScope package") {
		specials[n] = true
	}
}

func (r *Ref) compSym(h string, a []V, c cctx) node {
	switch h {
	case "and", "or":
		if len(a) == 0 {
			raise("compile")
		}
		ns := r.compAll(a, c)
		return func(s *RScope) V {
			r.tick()
			var v V
			for _, n := range ns {
				v = n(s)
				if rTruthy(v) == (h == "or") {
					return v
				}
			}
			return v
		}
	case "cond":
		if len(a)%2 == 0 {
			raise("compile")
		}
		ns := r.compAll(a, c)
		return func(s *RScope) V {
			r.tick()
			i := 0
			for ; i+1 < len(ns); i += 2 {
				if rTruthy(ns[i](s)) {
					return ns[i+1](s)
				}
			}
			return ns[i](s)
		}
	case "quote":
		if len(a) != 1 {
			raise("compile")
		}
		return konst(a[0])
	case "def", "set":
		if len(a) != 2 {
			raise("compile")
		}
		n, ok := a[0].(Sy)
		if !ok {
			raise("compile")
		}
		r.checkLHS(string(n))
		e := r.comp(a[1], c)
		return func(s *RScope) V {
			r.tick()
			v := e(s)
			if isDotted(string(n)) {
				if h != "set" {
					panic(unmod{"def of a path"})
				}
				return r.walk(s, string(n), true, v)
			}
			if h == "set" {
				if x := s.find(string(n)); x != nil {
					x.vars[string(n)] = v
					return v
				}
			}
			r.bind(s, string(n), v)
			return v
		}
	case "mdef":
		if len(a) < 2 {
			raise("compile")
		}
		e := r.comp(a[len(a)-1], c)
		return func(s *RScope) V {
			r.tick()
			v := e(s)
			vs, ok := unlist(v)
			if !ok {
				raise("type")
			}
			if len(vs) < len(a)-1 {
				raise("type")
			}
			for i := 0; i < len(a)-1; i++ {
				r.bind(s, string(a[i].(Sy)), vs[i])
			}
			return v
		}
	case "fn":
		if len(a) < 2 {
			raise("compile")
		}
		mk := r.fnForm("", a[0], a[1:], c)
		return func(s *RScope) V { r.tick(); return mk(s) }
	case "defn":
		if len(a) < 3 {
			raise("compile")
		}
		n, ok := a[0].(Sy)
		if !ok {
			raise("compile")
		}
		if _, ok := a[1].(*Ar); !ok {
			raise("compile")
		}
		r.checkLHS(string(n))
		mk := r.fnForm(string(n), a[1], a[2:], c)
		return func(s *RScope) V {
			r.tick()
			r.bind(s, string(n), mk(s))
			return RNil{}
		}
	case "func":
		// a form that declares types: its body is compiled when it runs
		return func(s *RScope) V {
			r.tick()
			a := a
			name := ""
			if n, ok := a[0].(Sy); ok {
				name = string(n)
				r.checkLHS(name)
				a = a[1:]
			}
			ps := &Ar{}
			types := []string{}
			for i, x := range a[0].(*Ar).E {
				if i%2 == 0 {
					ps.E = append(ps.E, Sy(strings.TrimSuffix(string(x.(Sy)), ":")))
				} else {
					types = append(types, string(x.(Sy)))
				}
			}
			f := r.fnForm(name, ps, a[2:], cctx{})(s)
			f.types = types
			if name != "" {
				r.bind(s, name, f)
			}
			return f
		}
	case "begin":
		b := r.compBody(a, c)
		return func(s *RScope) V { r.tick(); return b(s) }
	case "newScope":
		b := r.compBody(a, c)
		return func(s *RScope) V { r.tick(); return b(newRScope(s)) }
	case "let", "letseq":
		if len(a) < 2 {
			raise("compile")
		}
		bs, ok := a[0].(*Ar)
		if !ok || len(bs.E)%2 != 0 {
			raise("compile")
		}
		var names []string
		var es []node
		for i := 0; i < len(bs.E); i += 2 {
			n, ok := bs.E[i].(Sy)
			if !ok {
				raise("compile")
			}
			names = append(names, string(n))
		}
		for i := 0; i < len(bs.E); i += 2 {
			es = append(es, r.comp(bs.E[i+1], c))
		}
		b := r.compBody(a[1:], c)
		return func(s *RScope) V {
			r.tick()
			sc := newRScope(s)
			if h == "letseq" {
				for i, e := range es {
					v := e(sc)
					r.bind(sc, names[i], v)
				}
			} else {
				vs := make([]V, len(es))
				for i, e := range es {
					vs[i] = e(sc)
				}
				for i := len(vs) - 1; i >= 0; i-- {
					r.bind(sc, names[i], vs[i])
				}
			}
			return b(sc)
		}
	case "assert":
		if len(a) != 1 {
			raise("compile")
		}
		e := r.comp(a[0], c)
		return func(s *RScope) V {
			r.tick()
			if !rTruthy(e(s)) {
				raise("assert", "Assertion failed")
			}
			return RNil{}
		}
	case "package":
		return r.compPackage(a, c)
	case "for":
		return r.compFor(a, c)
	case "break", "continue":
		return r.compBreak(h == "break", a, c)
	case "defmac":
		if len(a) < 3 {
			raise("compile")
		}
		n, ok := a[0].(Sy)
		if !ok {
			raise("compile")
		}
		if _, ok := a[1].(*Ar); !ok {
			raise("compile")
		}
		if b, isB := r.glob.vars[string(n)]; isB {
			if _, isBi := b.(*Bi); isBi {
				raise("compile")
			}
			raise("compile")
		}
		mk := r.fnForm(string(n), a[1], a[2:], cctx{})
		r.macros[string(n)] = mk(r.glob)
		return konst(RNil{})
	case "macexpand":
		if len(a) != 1 {
			raise("compile")
		}
		if xs, ok := unlist(a[0]); ok && len(xs) > 0 {
			if n, ok := xs[0].(Sy); ok {
				if m := r.macros[string(n)]; m != nil {
					ex := r.expand(m, xs[1:])
					return konst(&Pr{Sy("quote"), ex})
				}
			}
		}
		return konst(a[0])
	case "syntaxQuote":
		if len(a) != 1 {
			raise("compile")
		}
		t := r.compTemplate(a[0], c)
		return func(s *RScope) V {
			r.tick()
			vs := t(s)
			if len(vs) != 1 {
				panic(unmod{"splice at the top of a template"})
			}
			return vs[0]
		}
	}
	if m, ok := r.macros[h]; ok {
		return r.comp(r.expand(m, a), c)
	}
	return r.compCall(Sy(h), a)
}

func (r *Ref) expand(m *Fn, args []V) V {
	r.tick()
	return r.applyValues(m, args)
}

// compTemplate gives the elements a template stands for: one, or any
// number for a splice.
func (r *Ref) compTemplate(f V, c cctx) func(s *RScope) []V {
	all := func(fs []V) func(s *RScope) []V {
		var ts []func(s *RScope) []V
		for _, e := range fs {
			ts = append(ts, r.compTemplate(e, c))
		}
		return func(s *RScope) []V {
			var out []V
			for _, t := range ts {
				out = append(out, t(s)...)
			}
			return out
		}
	}
	switch x := f.(type) {
	case *Pr:
		xs, ok := unlist(x)
		if !ok {
			break
		}
		if h, ok := x.H.(Sy); ok && len(xs) == 2 {
			switch h {
			case "unquote":
				e := r.comp(xs[1], c)
				return func(s *RScope) []V { return []V{e(s)} }
			case "unquote-splicing":
				e := r.comp(xs[1], c)
				return func(s *RScope) []V {
					vs, ok := unlist(e(s))
					if !ok {
						raise("type")
					}
					return vs
				}
			}
		}
		t := all(xs)
		return func(s *RScope) []V { return []V{list(t(s)...)} }
	case *Ar:
		t := all(x.E)
		return func(s *RScope) []V { return []V{&Ar{E: t(s)}} }
	case *Ha:
		var kv []V
		for i := range x.K {
			kv = append(kv, x.K[i], x.W[i])
		}
		t := all(kv)
		return func(s *RScope) []V {
			vs := t(s)
			if len(vs)%2 != 0 {
				raise("arity")
			}
			h := &Ha{}
			for i := 0; i < len(vs); i += 2 {
				h.set(vs[i], vs[i+1])
			}
			return []V{h}
		}
	}
	return func(*RScope) []V { return []V{f} }
}

func (r *Ref) compFor(a []V, c cctx) node {
	if len(a) < 1 {
		raise("compile")
	}
	lp := &rLoop{fnLvl: c.fnLvl}
	i := 0
	if n, ok := a[0].(Sy); ok {
		lp.label = string(n)
		i = 1
	}
	if i >= len(a) {
		raise("compile")
	}
	ctl, ok := a[i].(*Ar)
	if !ok || len(ctl.E) != 3 {
		raise("compile")
	}
	in := cctx{append(append([]*rLoop{}, c.loops...), lp), c.fnLvl}
	body := r.compBody(a[i+1:], in)
	init, test, incr := r.comp(ctl.E[0], in), r.comp(ctl.E[1], in), r.comp(ctl.E[2], in)
	// catch runs f and reports what ended it
	catch := func(f func()) (ctl *loopCtl) {
		defer func() {
			if p := recover(); p != nil {
				if x, ok := p.(*loopCtl); ok && x.lp == lp {
					ctl = x
					return
				}
				panic(p)
			}
		}()
		f()
		return nil
	}
	return func(s *RScope) V {
		r.tick()
		sc := newRScope(s)
		// phase: 0 init, 1 test+body, 2 increment
		phase := 0
		for {
			end := false
			k := catch(func() {
				switch phase {
				case 0:
					init(sc)
					phase = 1
				case 1:
					if !rTruthy(test(sc)) {
						end = true
						return
					}
					body(sc)
					phase = 2
				case 2:
					incr(sc)
					phase = 1
				}
			})
			r.tick()
			if k != nil {
				if k.brk {
					break
				}
				phase = 2
				continue
			}
			if end {
				break
			}
		}
		return RNil{}
	}
}

func (r *Ref) compBreak(brk bool, a []V, c cctx) node {
	if len(a) > 1 {
		raise("compile")
	}
	var lp *rLoop
	if len(a) == 1 {
		n, ok := a[0].(Sy)
		if !ok {
			raise("compile")
		}
		for i := len(c.loops) - 1; i >= 0; i-- {
			if c.loops[i].label == string(n) {
				lp = c.loops[i]
				break
			}
		}
	} else if len(c.loops) > 0 {
		lp = c.loops[len(c.loops)-1]
	}
	if lp == nil {
		raise("compile")
	}
	if lp.fnLvl != c.fnLvl {
		return func(*RScope) V { raise("loop-elsewhere"); return nil }
	}
	return func(*RScope) V {
		panic(&loopCtl{brk, lp})
	}
}

// ---- lazy arguments ----

func (r *Ref) force(v V) V {
	l, ok := v.(*Lz)
	if !ok {
		return v
	}
	if l.done {
		return l.val
	}
	r.forced++
	x := r.comp(l.form, cctx{})(l.sc)
	l.val, l.done = x, true
	return x
}

// ---- evaluation of a text ----

type RRes struct {
	Val  V
	Dump string
	Err  *rErr
	Un   string
}

func (x RRes) String() string {
	if x.Un != "" {
		return "<unmodelled " + x.Un + ">"
	}
	if x.Err != nil {
		return x.Err.String()
	}
	return x.Dump
}

// Eval compiles all forms, then runs them, as one text.
func (r *Ref) Eval(forms []V) (res RRes) {
	return r.guard(func() V { return r.compBody(forms, cctx{})(r.glob) })
}

func (r *Ref) guard(f func() V) (res RRes) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case *rErr:
			res.Err = p
		case unmod:
			res.Un = p.why
		case *loopCtl:
			panic("loop control escaped")
		default:
			panic(p)
		}
		r.depth = 0
	}()
	v := f()
	res.Val = v
	res.Dump = RDump(v)
	return
}

// globals lists the variables, not builtins, of the global scope.
func (r *Ref) globals() []string {
	var ks []string
	for k, v := range r.glob.vars {
		if _, ok := v.(*Bi); !ok && k != "nil" && k != "null" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// ---- builtins ----

func wantInt(v V) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case Ch:
		return int64(x)
	}
	raise("type")
	return 0
}

func arith(op string, a, b V) V {
	af, aF := a.(float64)
	bf, bF := b.(float64)
	num := func(v V) (int64, bool) {
		switch x := v.(type) {
		case int64:
			return x, true
		case Ch:
			return int64(x), true
		}
		return 0, false
	}
	if aF || bF {
		if !aF {
			n, ok := num(a)
			if !ok {
				raise("type")
			}
			af = float64(n)
		}
		if !bF {
			n, ok := num(b)
			if !ok {
				raise("type")
			}
			bf = float64(n)
		}
		switch op {
		case "+":
			return af + bf
		case "-":
			return af - bf
		case "*":
			return af * bf
		default:
			return af / bf
		}
	}
	x, ok1 := num(a)
	y, ok2 := num(b)
	if !ok1 || !ok2 {
		raise("type")
	}
	var res V
	switch op {
	case "+":
		res = x + y
	case "-":
		res = x - y
	case "*":
		res = x * y
	default:
		if y == 0 {
			raise("div0")
		}
		if x%y == 0 {
			res = x / y
		} else {
			return float64(x) / float64(y)
		}
	}
	if _, isC := a.(Ch); isC {
		// a char operand on the left gives a char
		return Ch(rune(res.(int64)))
	}
	return res
}

func sgn(b bool, c bool) int {
	if b {
		return -1
	}
	if c {
		return 1
	}
	return 0
}

func rcompare(a, b V) int {
	switch x := a.(type) {
	case int64, Ch, float64:
		fx, ix, isF := 0.0, int64(0), false
		switch y := x.(type) {
		case int64:
			ix, fx = y, float64(y)
		case Ch:
			ix, fx = int64(y), float64(y)
		case float64:
			fx, isF = y, true
		}
		switch y := b.(type) {
		case int64:
			if isF {
				return sgn(fx < float64(y), fx > float64(y))
			}
			return sgn(ix < y, ix > y)
		case Ch:
			if isF {
				return sgn(fx < float64(y), fx > float64(y))
			}
			return sgn(ix < int64(y), ix > int64(y))
		case float64:
			return sgn(fx < y, fx > y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			return sgn(!x && y, x && !y)
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	case Sy:
		if y, ok := b.(Sy); ok {
			if x == y {
				return 0
			}
			panic(unmod{"order of symbols"})
		}
	case *Pr:
		if y, ok := b.(*Pr); ok {
			if k := rcompare(x.H, y.H); k != 0 {
				return k
			}
			return rcompare(x.T, y.T)
		}
	case *Ar:
		if y, ok := b.(*Ar); ok {
			for i := 0; i < len(x.E) && i < len(y.E); i++ {
				if k := rcompare(x.E[i], y.E[i]); k != 0 {
					return k
				}
			}
			return sgn(len(x.E) < len(y.E), len(x.E) > len(y.E))
		}
	case RNil:
		if _, ok := b.(RNil); ok {
			return 0
		}
		return -1
	case *Ha, *Fn, *Bi, *Lz:
		panic(unmod{"compare"})
	}
	switch b.(type) {
	case *Fn, *Bi, *Lz:
		panic(unmod{"compare"})
	}
	raise("type")
	return 0
}

func nargs(a []V, n int) {
	if len(a) != n {
		raise("arity")
	}
}

func (h *Ha) pos(k V) int {
	switch k.(type) {
	case Sy, string, int64:
	default:
		panic(unmod{"hash key"})
	}
	for i := range h.K {
		if sameKey(h.K[i], k) {
			return i
		}
	}
	return -1
}

func sameKey(a, b V) bool {
	x, y := a, b
	if s, ok := x.(Sy); ok {
		x = Sy(strings.TrimSuffix(string(s), ":"))
	}
	if s, ok := y.(Sy); ok {
		y = Sy(strings.TrimSuffix(string(s), ":"))
	}
	return x == y
}

func (h *Ha) set(k, v V) {
	if i := h.pos(k); i >= 0 {
		h.W[i] = v
		return
	}
	h.K, h.W = append(h.K, k), append(h.W, v)
}

func (r *Ref) grown(x *Ar, v V, u bool) *Ar { return r.grownAll(x, []V{v}, u) }

// tooLarge bounds what a program can build by doubling.
func tooLarge(n int) {
	if n > 300 {
		panic(unmod{"too large"})
	}
}

// grownAll is x with vs at its end.
func (r *Ref) grownAll(x *Ar, vs []V, u bool) *Ar {
	tooLarge(len(x.E) + len(vs))
	y := &Ar{E: append(append([]V{}, x.E...), vs...), U: u, grow: true}
	if x.grow || len(vs) == 0 {
		if x.grow && x.used {
			panic(unmod{"appending twice to the same elements"})
		}
		x.used = true
		if x.grp == nil {
			x.grp = new(int)
			*x.grp = 1
		}
		y.grp = x.grp
		*y.grp++
	}
	return y
}

func (r *Ref) def(name string, f func(r *Ref, a []V) V) {
	r.glob.vars[name] = &Bi{name, f}
	r.reserv[name] = true
}

func rstr(v V) string {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case RNil:
		return "nil"
	}
	panic(unmod{"str"})
}

func NewRef(h *Host) *Ref {
	r := &Ref{glob: newRScope(nil), macros: map[string]*Fn{}, reserv: map[string]bool{}, host: h, fuel: 60000}
	for n := range specials {
		r.reserv[n] = true
	}
	r.glob.vars["nil"] = RNil{}
	for _, op := range []string{"+", "-", "*", "/"} {
		op := op
		r.def(op, func(r *Ref, a []V) V {
			if len(a) == 0 {
				raise("arity")
			}
			if len(a) == 1 && (op == "*") {
				panic(unmod{"unary *"})
			}
			acc := a[0]
			for _, x := range a[1:] {
				acc = arith(op, acc, x)
			}
			return acc
		})
	}
	r.def("mod", func(r *Ref, a []V) V {
		nargs(a, 2)
		x, y := wantInt(a[0]), wantInt(a[1])
		if y == 0 {
			raise("div0")
		}
		if y == -1 {
			return int64(0)
		}
		return x % y
	})
	for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
		op := op
		r.def(op, func(r *Ref, a []V) V {
			nargs(a, 2)
			for _, x := range a {
				if f, ok := x.(float64); ok && math.IsNaN(f) {
					panic(unmod{"nan"})
				}
			}
			k := rcompare(a[0], a[1])
			switch op {
			case "<":
				return k < 0
			case ">":
				return k > 0
			case "<=":
				return k <= 0
			case ">=":
				return k >= 0
			case "==":
				return k == 0
			}
			return k != 0
		})
	}
	gens := 0
	r.def("gensym", func(r *Ref, a []V) V {
		gens++
		return Sy(fmt.Sprintf("__gen%d", gens))
	})
	r.def("not", func(r *Ref, a []V) V { nargs(a, 1); return !rTruthy(a[0]) })
	r.def("list", func(r *Ref, a []V) V { return list(a...) })
	r.def("array", func(r *Ref, a []V) V { return &Ar{E: append([]V{}, a...), grow: true} })
	r.def("cons", func(r *Ref, a []V) V { nargs(a, 2); return &Pr{a[0], a[1]} })
	r.def("first", func(r *Ref, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *Pr:
			return x.H
		case *Ar:
			if len(x.E) > 0 {
				return x.E[0]
			}
		}
		raise("type")
		return nil
	})
	r.def("second", func(r *Ref, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *Pr:
			if p, ok := x.T.(*Pr); ok {
				return p.H
			}
		case *Ar:
			if len(x.E) > 1 {
				return x.E[1]
			}
		}
		raise("type")
		return nil
	})
	r.def("rest", func(r *Ref, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *Pr:
			return x.T
		case *Ar:
			if len(x.E) == 0 {
				return x
			}
			return &Ar{E: x.E[1:], U: true, grow: true, used: true, grp: x.grp}
		case RNil:
			return RNil{}
		}
		raise("type")
		return nil
	})
	r.def("len", func(r *Ref, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case RNil:
			return int64(0)
		case *Ar:
			return int64(len(x.E))
		case string:
			return int64(len(x))
		case *Ha:
			return int64(len(x.K))
		case *Pr:
			vs, ok := unlist(x)
			if !ok {
				raise("type")
			}
			return int64(len(vs))
		case Sy:
			panic(unmod{"len of symbol"})
		}
		raise("type")
		return nil
	})
	r.def("aget", func(r *Ref, a []V) V {
		if len(a) < 2 || len(a) > 3 {
			raise("arity")
		}
		x, ok := a[0].(*Ar)
		if !ok {
			raise("type")
		}
		i, ok := a[1].(int64)
		if !ok {
			panic(unmod{"array index"})
		}
		if i >= 0 && i < int64(len(x.E)) {
			return x.E[i]
		}
		if len(a) == 3 {
			return a[2]
		}
		raise("range")
		return nil
	})
	r.def("aset", func(r *Ref, a []V) V {
		if len(a) < 2 || len(a) > 3 {
			raise("arity")
		}
		x, ok := a[0].(*Ar)
		if !ok {
			raise("type")
		}
		i, ok := a[1].(int64)
		if !ok {
			panic(unmod{"array index"})
		}
		if len(a) != 3 {
			raise("arity")
		}
		if i < 0 || i >= int64(len(x.E)) {
			raise("range")
		}
		if x.grp != nil && *x.grp > 1 {
			panic(unmod{"aset with shared elements"})
		}
		x.E[i] = a[2]
		x.U = true
		return RNil{}
	})
	r.def("append", func(r *Ref, a []V) V {
		nargs(a, 2)
		switch x := a[0].(type) {
		case *Ar:
			return r.grown(x, a[1], x.U || len(x.E) == 0)
		case string:
			switch y := a[1].(type) {
			case string:
				return x + y
			case Ch:
				return x + string(rune(y))
			}
		}
		raise("type")
		return nil
	})
	r.def("concat", func(r *Ref, a []V) V {
		if len(a) == 0 {
			raise("arity")
		}
		for _, x := range a {
			if _, ok := x.(Sy); ok {
				panic(unmod{"concat of symbol"})
			}
		}
		switch x := a[0].(type) {
		case string:
			for _, y := range a[1:] {
				switch z := y.(type) {
				case string:
					x += z
				case Ch:
					x += string(rune(z))
				default:
					raise("type")
				}
				tooLarge(len(x))
			}
			return x
		case *Ar:
			var e []V
			for _, y := range a[1:] {
				z, ok := y.(*Ar)
				if !ok {
					raise("type")
				}
				e = append(e, z.E...)
			}
			if len(a) == 1 {
				panic(unmod{"concat of one"})
			}
			return r.grownAll(x, e, true)
		case *Pr:
			if len(a) == 1 {
				return x
			}
			e, ok := unlist(x)
			if !ok {
				raise("type")
			}
			var tail V = RNil{}
			for i, y := range a[1:] {
				z, ok := unlist(y)
				if !ok {
					raise("type")
				}
				if i == len(a)-2 {
					tail = y
				} else {
					e = append(e, z...)
				}
				tooLarge(len(e) + len(z))
			}
			for i := len(e) - 1; i >= 0; i-- {
				tail = &Pr{e[i], tail}
			}
			return tail
		}
		raise("type")
		return nil
	})
	r.def("hash", func(r *Ref, a []V) V {
		if len(a)%2 != 0 {
			raise("arity")
		}
		h := &Ha{}
		for i := 0; i < len(a); i += 2 {
			h.set(a[i], a[i+1])
		}
		return h
	})
	r.def("hget", func(r *Ref, a []V) V {
		if len(a) < 2 || len(a) > 3 {
			raise("arity")
		}
		if x, ok := a[0].(*Ar); ok {
			_ = x
			panic(unmod{"hget of array"})
		}
		h, ok := a[0].(*Ha)
		if !ok {
			raise("type")
		}
		if i := h.pos(a[1]); i >= 0 {
			return h.W[i]
		}
		if len(a) == 3 {
			return a[2]
		}
		raise("nokey")
		return nil
	})
	r.def("hset", func(r *Ref, a []V) V {
		if len(a) != 3 {
			raise("arity")
		}
		h, ok := a[0].(*Ha)
		if !ok {
			raise("type")
		}
		h.set(a[1], a[2])
		return RNil{}
	})
	r.def("hdel", func(r *Ref, a []V) V {
		nargs(a, 2)
		h, ok := a[0].(*Ha)
		if !ok {
			raise("type")
		}
		if i := h.pos(a[1]); i >= 0 {
			h.K = append(append([]V{}, h.K[:i]...), h.K[i+1:]...)
			h.W = append(append([]V{}, h.W[:i]...), h.W[i+1:]...)
		}
		return RNil{}
	})
	r.def("keys", func(r *Ref, a []V) V {
		nargs(a, 1)
		h, ok := a[0].(*Ha)
		if !ok {
			raise("type")
		}
		return &Ar{E: append([]V{}, h.K...), U: true, grow: true}
	})
	r.def("str", func(r *Ref, a []V) V { nargs(a, 1); return rstr(a[0]) })
	r.def("sget", func(r *Ref, a []V) V {
		nargs(a, 2)
		s, ok := a[0].(string)
		if !ok {
			raise("type")
		}
		i := wantInt(a[1])
		if i < 0 || i >= int64(len(s)) {
			raise("range")
		}
		if s[i] >= utf8.RuneSelf {
			panic(unmod{"sget"})
		}
		return Ch(s[i])
	})
	r.def("slice", func(r *Ref, a []V) V {
		nargs(a, 3)
		i, j := wantInt(a[1]), wantInt(a[2])
		switch x := a[0].(type) {
		case string:
			if i < 0 || j < i || j > int64(len(x)) {
				raise("range")
			}
			return x[i:j]
		case *Ar:
			if i < 0 || j < i {
				raise("range")
			}
			if j > int64(len(x.E)) {
				panic(unmod{"slice into capacity"})
			}
			return &Ar{E: x.E[i:j:j], U: true, grow: true, used: true, grp: x.grp}
		}
		raise("type")
		return nil
	})
	for _, n := range []string{"sll", "sra", "srl", "bitAnd", "bitOr", "bitXor"} {
		n := n
		r.def(n, func(r *Ref, a []V) V {
			nargs(a, 2)
			x, y := wantInt(a[0]), wantInt(a[1])
			switch n {
			case "bitAnd":
				return x & y
			case "bitOr":
				return x | y
			case "bitXor":
				return x ^ y
			}
			if y < 0 || y > 62 {
				panic(unmod{"shift"})
			}
			switch n {
			case "sll":
				return x << uint(y)
			case "sra":
				return x >> uint(y)
			}
			return int64(uint64(x) >> uint(y))
		})
	}
	r.def("bitNot", func(r *Ref, a []V) V {
		nargs(a, 1)
		if c, ok := a[0].(Ch); ok {
			return Ch(^rune(c))
		}
		if n, ok := a[0].(int64); ok {
			return ^n
		}
		raise("type")
		return nil
	})
	for n, o := range map[string]string{"car": "first", "cdr": "rest"} {
		f := r.glob.vars[o].(*Bi).f
		r.def(n, f)
	}
	r.def("appendslice", func(r *Ref, a []V) V {
		nargs(a, 2)
		switch x := a[0].(type) {
		case *Ar:
			y, ok := a[1].(*Ar)
			if !ok {
				raise("type")
			}
			return r.grownAll(x, append([]V{}, y.E...), x.U || len(x.E) == 0)
		case string:
			return r.glob.vars["append"].(*Bi).f(r, a)
		}
		raise("type")
		return nil
	})
	r.def("chomp", func(r *Ref, a []V) V {
		nargs(a, 1)
		s, ok := a[0].(string)
		if !ok {
			raise("type")
		}
		return strings.TrimSuffix(s, "\n")
	})
	r.def("trim", func(r *Ref, a []V) V {
		nargs(a, 1)
		s, ok := a[0].(string)
		if !ok {
			raise("type")
		}
		return strings.TrimSpace(s)
	})
	r.def("sym2str", func(r *Ref, a []V) V {
		nargs(a, 1)
		s, ok := a[0].(Sy)
		if !ok {
			raise("type")
		}
		return string(s)
	})
	r.def("str2sym", func(r *Ref, a []V) V {
		nargs(a, 1)
		s, ok := a[0].(string)
		if !ok {
			raise("type")
		}
		return Sy(s)
	})
	r.def("makeArray", func(r *Ref, a []V) V {
		if len(a) < 1 || len(a) > 2 {
			panic(unmod{"makeArray arguments"})
		}
		n, ok := a[0].(int64)
		if !ok {
			raise("type")
		}
		if n < 0 || n > 20 {
			panic(unmod{"makeArray size"})
		}
		y := &Ar{grow: true}
		for i := int64(0); i < n; i++ {
			if len(a) == 2 {
				y.E = append(y.E, a[1])
			} else {
				y.E = append(y.E, RNil{})
			}
		}
		return y
	})
	q := func(n string, f func(v V) bool) {
		r.def(n, func(r *Ref, a []V) V { nargs(a, 1); return f(a[0]) })
	}
	q("int?", func(v V) bool { _, ok := v.(int64); return ok })
	q("number?", func(v V) bool {
		switch v.(type) {
		case int64, float64, Ch:
			return true
		}
		return false
	})
	q("zero?", func(v V) bool {
		switch x := v.(type) {
		case int64:
			return x == 0
		case float64:
			return x == 0
		case Ch:
			return x == 0
		}
		return false
	})
	q("empty?", func(v V) bool {
		switch x := v.(type) {
		case RNil:
			return true
		case *Ar:
			return len(x.E) == 0
		case *Ha:
			return len(x.K) == 0
		}
		return false
	})
	q("float?", func(v V) bool { _, ok := v.(float64); return ok })
	q("string?", func(v V) bool { _, ok := v.(string); return ok })
	q("char?", func(v V) bool { _, ok := v.(Ch); return ok })
	q("array?", func(v V) bool { _, ok := v.(*Ar); return ok })
	q("hash?", func(v V) bool { _, ok := v.(*Ha); return ok })
	q("null?", func(v V) bool { _, ok := v.(RNil); return ok })
	q("symbol?", func(v V) bool { _, ok := v.(Sy); return ok })
	q("list?", func(v V) bool { _, ok := unlist(v); return ok })
	q("func?", func(v V) bool {
		switch v.(type) {
		case *Fn, *Bi:
			return true
		}
		return false
	})
	r.def("type?", func(r *Ref, a []V) V {
		nargs(a, 1)
		switch a[0].(type) {
		case int64:
			return "int64"
		case float64:
			return "float64"
		case bool:
			return "bool"
		case string:
			return "string"
		case Ch:
			return "char"
		case *Ar:
			return "array"
		case *Ha:
			return "hash"
		case *Pr:
			return "list"
		case Sy:
			return "symbol"
		case *Fn, *Bi:
			return "func"
		case RNil:
			return "nil"
		case *Lz:
			return "lazyArg"
		}
		panic(unmod{"type?"})
	})
	r.def("apply", func(r *Ref, a []V) V {
		nargs(a, 2)
		switch a[0].(type) {
		case *Fn, *Bi:
		default:
			raise("type")
		}
		switch x := a[1].(type) {
		case *Ar:
			return r.applyValues(a[0], append([]V{}, x.E...))
		case *Pr:
			vs, ok := unlist(x)
			if !ok {
				raise("type")
			}
			return r.applyValues(a[0], vs)
		}
		raise("type")
		return nil
	})
	r.def("map", func(r *Ref, a []V) V {
		nargs(a, 2)
		switch a[0].(type) {
		case *Fn, *Bi:
		default:
			raise("type")
		}
		switch x := a[1].(type) {
		case *Ar:
			e := make([]V, len(x.E))
			n := len(x.E)
			for i := 0; i < n; i++ {
				e[i] = r.applyValues(a[0], []V{x.E[i]})
			}
			return &Ar{E: e, grow: true}
		case *Pr:
			vs, ok := unlist(x)
			if !ok {
				panic(unmod{"map over a dotted pair"})
			}
			for i := range vs {
				vs[i] = r.applyValues(a[0], []V{vs[i]})
			}
			return list(vs...)
		}
		raise("type")
		return nil
	})
	r.def("force", func(r *Ref, a []V) V { nargs(a, 1); return r.force(a[0]) })
	r.def("substitute", func(r *Ref, a []V) V {
		nargs(a, 1)
		if l, ok := a[0].(*Lz); ok {
			return l.form
		}
		return a[0]
	})
	r.def("eval", func(r *Ref, a []V) V { panic(unmod{"eval applied"}) })
	r.def("read", func(r *Ref, a []V) V { panic(unmod{"read"}) })
	h.defineRef(r)
	return r
}
