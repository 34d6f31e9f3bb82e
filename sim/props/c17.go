package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C17: a seeded history of struct declarations, constructions and writes
// through every route, against a model of typed records. Texts are made
// and run in the model at the same time; after each text every variable
// of the interpreter, and all that can be reached from it, is compared
// with the model: which fields an instance has, in what order, and what
// they hold.

// c17t is a declared type. Slices and pointers go by name, structs by
// definition.
type c17t struct {
	kind byte // 'b'ase, 's'lice, 'p'ointer, 'h' struct
	name string
	elem *c17t
	def  *c17def
}

type c17def struct {
	name   string
	fields []string
	types  map[string]*c17t
}

// c17v is a place holding a value: values have identity, as writes
// through pointers change them in place.
type c17v struct {
	k    byte // nil 'n', int 'i', uint 'u', float 'f', string 's', bool 'b', char 'c', symbol 'y', array 'a', instance 'h', pointer 'p', type 't', anything else '?'
	i    int64
	u    uint64
	f    float64
	s    string
	arr  *[]*c17v
	def  *c17def // 'h': nil for a hash that is no instance
	name string  // 'h': type name
	keys []string
	vals map[string]*c17v
	tgt  *c17v
	pt   *c17t
	dump string // '?'
}

var c17nil = &c17v{k: 'n'}

var c17bases = []string{"int64", "string", "float64", "bool", "symbol", "rune", "uint64"}

func c17base(n string) *c17t { return &c17t{kind: 'b', name: n} }

func (ty *c17t) text() string {
	switch ty.kind {
	case 's':
		return "([] " + ty.elem.text() + ")"
	case 'p':
		return "(* " + ty.elem.text() + ")"
	}
	return ty.name
}

// typeOf is the type a value shows, nil if none.
func (v *c17v) typeOf() *c17t {
	switch v.k {
	case 'i':
		return c17base("int64")
	case 'u':
		return c17base("uint64")
	case 'f':
		return c17base("float64")
	case 's':
		return c17base("string")
	case 'b':
		return c17base("bool")
	case 'c':
		return c17base("rune")
	case 'y':
		return c17base("symbol")
	case 'a':
		if len(*v.arr) == 0 {
			return &c17t{kind: 's', name: "[]"}
		}
		for e, n := v, 0; e.k == 'a' && len(*e.arr) > 0; n++ {
			if e = (*e.arr)[0]; n == 1000 {
				return nil // starts with itself
			}
		}
		e := (*v.arr)[0].typeOf()
		if e == nil {
			return nil
		}
		return &c17t{kind: 's', name: "[]" + e.name, elem: e}
	case 'h':
		if v.def == nil && !strings.HasPrefix(v.name, "S") {
			return nil // not generated where it matters
		}
		return &c17t{kind: 'h', name: v.name, def: v.def}
	case 'p':
		return v.pt
	}
	return nil
}

// fits says whether a field of type ty takes v.
func (ty *c17t) fits(v *c17v) bool {
	if v.k == 'n' {
		return true
	}
	return ty.fits1(v)
}

func (ty *c17t) fits1(v *c17v) bool {
	switch v.k {
	case 'n', 't', '?':
		return false
	case 'a':
		if ty.kind != 's' {
			return false
		}
		for i, e := range *v.arr {
			if e.k == 'n' && i > 0 {
				continue
			}
			if ty.elem == nil {
				return false
			}
			if e.k == 'a' && len(*e.arr) == 0 && ty.elem.kind == 's' {
				continue
			}
			et := e.typeOf()
			if et == nil || et.name != ty.elem.name || !e.sound(ty.elem) {
				return false
			}
		}
		return true
	case 'h':
		return ty.kind == 'h' && v.def != nil && v.def == ty.def
	}
	t := v.typeOf()
	return t != nil && t.name == ty.name && v.sound(ty)
}

// sound says whether a value that shows type ty is one.
func (v *c17v) sound(ty *c17t) bool {
	switch v.k {
	case 'a':
		return ty.fits1(v)
	case 'p':
		return v.tgt.sound(v.pt.elem)
	case 'h':
		return v.def != nil
	case 't', '?', 'n':
		return false
	}
	return true
}

func (v *c17v) show(seen map[*c17v]bool) string {
	if v.k == 'a' || v.k == 'h' || v.k == 'p' {
		if seen[v] {
			return "<seen>"
		}
		seen[v] = true
		defer delete(seen, v)
	}
	switch v.k {
	case 'n':
		return "nil"
	case 'i':
		return strconv.FormatInt(v.i, 10)
	case 'u':
		return strconv.FormatUint(v.u, 10) + "ULL"
	case 'f':
		return "f" + strconv.FormatFloat(v.f, 'g', -1, 64)
	case 's':
		return strconv.Quote(v.s)
	case 'b':
		return strconv.FormatBool(v.i != 0)
	case 'c':
		return "#" + strconv.QuoteRune(rune(v.i))
	case 'y':
		return "'" + v.s
	case 'a':
		var p []string
		for _, e := range *v.arr {
			p = append(p, e.show(seen))
		}
		return "[" + strings.Join(p, " ") + "]"
	case 'h':
		s := "{" + v.name
		for _, k := range v.keys {
			s += " '" + k + ":" + v.vals[k].show(seen)
		}
		return s + "}"
	case 'p':
		return "<ptr " + v.tgt.show(seen) + ">"
	case 't':
		return "<type>"
	}
	return v.dump
}

type c17 struct {
	t     *core.T
	env   *zygo.Zlisp
	vars  map[string]*c17v
	order []string // names of vars
	defs  map[string]*c17def
	alld  int
	names []string // struct names declared so far
	raws  map[int][]byte
	hvals map[int]func() (*c17v, zygo.Sexp)
	nkey  int
	dead  bool // the text has failed: what follows does not run
	hist  []string
	bad   int // writes refused
	good  int
}

const c17fields = "abcde"

func (m *c17) kill() { m.dead = true }

// ---- types and declarations ----

func (m *c17) genType(d int) *c17t {
	w := 0
	if len(m.names) > 0 {
		w = 4
	}
	sw := 2
	if d <= 0 {
		sw = 0
	}
	switch m.t.Pick(8, w, sw, sw) {
	case 1:
		n := m.names[m.t.Intn(len(m.names))]
		return &c17t{kind: 'h', name: n, def: m.defs[n]}
	case 2:
		e := m.genType(d - 1)
		return &c17t{kind: 's', name: "[]" + e.name, elem: e}
	case 3:
		e := m.genType(d - 1)
		return &c17t{kind: 'p', name: "*" + e.name, elem: e}
	}
	return c17base(c17bases[m.t.Pick(5, 3, 3, 2, 2, 2, 2)])
}

func c17retarget(ty *c17t, old, d *c17def) {
	for ; ty != nil; ty = ty.elem {
		if ty.def == old {
			ty.def = d
		}
	}
}

func (m *c17) declare() string {
	t := m.t
	if m.dead {
		return "(+ 1 1)"
	}
	name := "S" + string("abc"[t.Intn(3)])
	d := &c17def{name: name, types: map[string]*c17t{}}
	self := &c17def{}
	known := m.defs[name] != nil
	nm := m.names
	prev := m.defs[name]
	if !known {
		m.names = append(append([]string{}, m.names...), name)
	}
	m.defs[name] = self // while declaring, its own name stands for the new one
	var fs []string
	n := 1 + t.Intn(len(c17fields))
	off := t.Intn(2)
	for i := 0; i < n; i++ {
		f := "f" + string(c17fields[(i+off)%len(c17fields)])
		ty := m.genType(2)
		c17retarget(ty, self, d)
		d.fields = append(d.fields, f)
		d.types[f] = ty
		s := "(field " + f + ":" + []string{"", " "}[t.Intn(2)] + ty.text()
		if t.Chance(1, 3) {
			s += " e:" + strconv.Itoa(i)
		}
		fs = append(fs, s+")")
	}
	bad := t.Chance(1, 6)
	text := ""
	if bad {
		t.Fault("bad-declaration")
		at := t.Intn(len(fs) + 1)
		ins := []string{"(field fq: 5)", "(field fq: nosuchtype)", `(field "fq": int64)`, "(field fq:)", "5", "(hash a:int64)", `(field fq: "int64")`, "(field 5 int64)", "(field fq: ([] 5))", "(field fq: (hfail))", "(field fq: (hpanic))"}[t.Intn(11)]
		fs = append(fs[:at:at], append([]string{ins}, fs[at:]...)...)
		text = "(struct " + name + " [" + strings.Join(fs, " ") + "])"
		if t.Chance(1, 6) {
			text = "(struct " + name + " 5)"
		}
		m.defs[name] = prev
		if prev == nil {
			delete(m.defs, name)
		}
		m.names = nm
		m.kill()
		return text
	}
	if t.Chance(1, 10) {
		// the same field twice: left out, see DESIGN.md
		t.Probe("declare-plain")
	}
	m.defs[name] = d
	m.alld++
	if known {
		t.Probe("redeclared")
	}
	return "(struct " + name + " [" + strings.Join(fs, " ") + "])"
}

// ---- values ----

func (m *c17) key() int { m.nkey++; return m.nkey }

func (m *c17) lit(base string) (string, *c17v) {
	t := m.t
	switch base {
	case "int64":
		n := int64(t.Intn(9))
		if t.Chance(1, 5) {
			n = -n
		}
		return strconv.FormatInt(n, 10), &c17v{k: 'i', i: n}
	case "uint64":
		n := uint64(t.Intn(9))
		return strconv.FormatUint(n, 10) + "ULL", &c17v{k: 'u', u: n}
	case "float64":
		f := float64(t.Intn(5)) + 0.5
		return strconv.FormatFloat(f, 'g', -1, 64), &c17v{k: 'f', f: f}
	case "string":
		s := []string{"", "a", "int64", "x y"}[t.Intn(4)]
		return strconv.Quote(s), &c17v{k: 's', s: s}
	case "bool":
		if t.Bool() {
			return "true", &c17v{k: 'b', i: 1}
		}
		return "false", &c17v{k: 'b'}
	case "symbol":
		s := []string{"foo", "fa", "int64", "nil0"}[t.Intn(4)]
		return "(quote " + s + ")", &c17v{k: 'y', s: s}
	}
	c := "abz"[t.Intn(3)]
	return "'" + string(rune(c)) + "'", &c17v{k: 'c', i: int64(c)}
}

// hostValue is a value made by a host function.
func (m *c17) hostValue(base string) (string, *c17v) {
	_, b := m.lit(base)
	k := m.key()
	m.hvals[k] = func() (*c17v, zygo.Sexp) { return b, c17sexp(m.env, b) }
	return "(hv " + strconv.Itoa(k) + ")", b
}

func c17sexp(env *zygo.Zlisp, v *c17v) zygo.Sexp {
	switch v.k {
	case 'i':
		return &zygo.SexpInt{Val: v.i}
	case 'u':
		return &zygo.SexpUint64{Val: v.u}
	case 'f':
		return &zygo.SexpFloat{Val: v.f}
	case 's':
		return &zygo.SexpStr{S: v.s}
	case 'b':
		return &zygo.SexpBool{Val: v.i != 0}
	case 'c':
		return &zygo.SexpChar{Val: rune(v.i)}
	case 'y':
		return env.MakeSymbol(v.s)
	case 'a':
		a := &zygo.SexpArray{Env: env}
		for _, e := range *v.arr {
			a.Val = append(a.Val, c17sexp(env, e))
		}
		return a
	}
	return zygo.SexpNull
}

// pick gives places that hold a value accepted by want: variables, and
// fields and elements found from them.
func (m *c17) places(want func(*c17v) bool) (texts []string, vs []*c17v) {
	for _, n := range m.order {
		v := m.vars[n]
		if v == nil {
			continue
		}
		if want(v) {
			texts, vs = append(texts, n), append(vs, v)
		}
		m.inside(n, v, 2, want, &texts, &vs)
	}
	return
}

func (m *c17) inside(tx string, v *c17v, d int, want func(*c17v) bool, texts *[]string, vs *[]*c17v) {
	if d == 0 || len(*vs) > 30 {
		return
	}
	switch v.k {
	case 'h':
		for _, k := range v.keys {
			x := "(:" + k + " " + tx + ")"
			if want(v.vals[k]) {
				*texts, *vs = append(*texts, x), append(*vs, v.vals[k])
			}
			m.inside(x, v.vals[k], d-1, want, texts, vs)
		}
	case 'a':
		for i, e := range *v.arr {
			x := "(aget " + tx + " " + strconv.Itoa(i) + ")"
			if want(e) {
				*texts, *vs = append(*texts, x), append(*vs, e)
			}
			m.inside(x, e, d-1, want, texts, vs)
		}
	case 'p':
		x := "(* " + tx + ")"
		if want(v.tgt) {
			*texts, *vs = append(*texts, x), append(*vs, v.tgt)
		}
		m.inside(x, v.tgt, d-1, want, texts, vs)
	}
}

// value makes an expression for a value that a field of type ty takes.
func (m *c17) value(ty *c17t, d int) (s string, v *c17v) {
	m.t.Span(func() { s, v = m.wrap(d, func(d int) (string, *c17v) { return m.value1(ty, d) }) })
	return
}

func (m *c17) value1(ty *c17t, d int) (string, *c17v) {
	t := m.t
	if t.Chance(1, 3) && !m.dead {
		tx, vs := m.places(func(v *c17v) bool { return v.k != 'n' && ty.fits(v) })
		if len(vs) > 0 {
			i := t.Intn(len(vs))
			return tx[i], vs[i]
		}
	}
	if t.Chance(1, 14) {
		return "nil", c17nil
	}
	switch ty.kind {
	case 'b':
		if t.Chance(1, 6) {
			return m.hostValue(ty.name)
		}
		return m.lit(ty.name)
	case 's':
		if d <= 0 || ty.elem == nil {
			return "[]", &c17v{k: 'a', arr: &[]*c17v{}}
		}
		n := t.Intn(4)
		var xs []string
		els := []*c17v{}
		for i := 0; i < n; i++ {
			if i > 0 && t.Chance(1, 8) {
				xs, els = append(xs, "nil"), append(els, c17nil)
				continue
			}
			x, e := m.value(ty.elem, d-1)
			xs, els = append(xs, x), append(els, e)
		}
		switch {
		case len(xs) > 0 && t.Chance(1, 8):
			return "(append [" + strings.Join(xs[:len(xs)-1], " ") + "] " + xs[len(xs)-1] + ")", &c17v{k: 'a', arr: &els}
		case t.Chance(1, 8):
			return "(array " + strings.Join(xs, " ") + ")", &c17v{k: 'a', arr: &els}
		}
		return "[" + strings.Join(xs, " ") + "]", &c17v{k: 'a', arr: &els}
	case 'p':
		if d <= 0 {
			return "nil", c17nil
		}
		var x string
		var e *c17v
		x, e = m.value(ty.elem, d-1)
		return m.ptr(x, e)
	case 'h':
		if d <= 0 || m.dead || m.defs[ty.name] != ty.def {
			return "nil", c17nil
		}
		return m.construct(ty.name, true, d-1)
	}
	return "nil", c17nil
}

// ptr is the address of e.
func (m *c17) ptr(x string, e *c17v) (string, *c17v) {
	if m.dead {
		return "(& " + x + ")", c17nil
	}
	ty := e.typeOf()
	if ty == nil || e.k == 'h' && e.def == nil || ty.name == "[]" {
		return x, e
	}
	return "(& " + x + ")", &c17v{k: 'p', tgt: e, pt: &c17t{kind: 'p', name: "*" + ty.name, elem: ty}}
}

// any makes an expression for any value.
func (m *c17) any(d int) (s string, v *c17v) {
	m.t.Span(func() {
		s, v = m.wrap(d, func(d int) (string, *c17v) {
			t := m.t
			switch t.Pick(6, 4, 2, 2, 2, 2, 1) {
			case 1:
				if !m.dead {
					tx, vs := m.places(func(v *c17v) bool { return true })
					if len(vs) > 0 {
						i := t.Intn(len(vs))
						return tx[i], vs[i]
					}
				}
			case 2: // an array of mixed values
				var xs []string
				els := []*c17v{}
				for i, n := 0, 1+t.Intn(3); i < n; i++ {
					var x string
					var e *c17v
					if t.Bool() {
						x, e = m.lit("int64")
					} else {
						x, e = m.any(d - 1)
					}
					xs, els = append(xs, x), append(els, e)
				}
				return "[" + strings.Join(xs, " ") + "]", &c17v{k: 'a', arr: &els}
			case 3: // a type, as a value
				return c17bases[t.Intn(len(c17bases))], &c17v{k: 't'}
			case 4:
				return m.odd()
			case 5:
				x, e := m.value(m.genType(1), 1)
				return m.ptr(x, e)
			case 6:
				return m.fake()
			}
			return m.value(m.genType(2), d)
		})
	})
	return
}

func (m *c17) odd() (string, *c17v) {
	switch m.t.Intn(6) {
	case 0:
		return "(fn [v] v)", &c17v{k: '?', dump: "<fn>"}
	case 1:
		return "(quote (1 2))", &c17v{k: '?', dump: "(1 2)"}
	case 2:
		return `(raw "ab")`, &c17v{k: '?', dump: "raw6162"}
	case 3:
		return "hget", &c17v{k: '?', dump: "<fn>"}
	case 4:
		return "(hash fa:1)", &c17v{k: 'h', name: "hash", keys: []string{"fa"}, vals: map[string]*c17v{"fa": {k: 'i', i: 1}}}
	}
	return "nil", c17nil
}

// fake is a hash with the name of a type that is no struct.
func (m *c17) fake() (string, *c17v) {
	n := []string{"int64", "string", "[]int64", "*Sa", "bool", "symbol"}[m.t.Intn(6)]
	v := &c17v{k: 'h', name: n, keys: []string{"fa"}, vals: map[string]*c17v{"fa": {k: 'i', i: 1}}}
	if m.t.Bool() {
		return `(msgmap "` + n + `" (list (quote fa) 1))`, v
	}
	k := m.key()
	m.raws[k] = []byte(`{"Atype":"` + n + `","fa":1}`)
	return "(unjson (hraw " + strconv.Itoa(k) + "))", v
}

// wrap puts an expression into others that hand its value through, and
// injects failures.
func (m *c17) wrap(d int, f func(d int) (string, *c17v)) (string, *c17v) {
	t := m.t
	if d <= 0 {
		return f(d)
	}
	switch t.Pick(16, 1, 1, 1, 1, 1, 1, 1) {
	case 1:
		x, v := f(d - 1)
		return "(begin " + x + ")", v
	case 2:
		x, v := f(d - 1)
		return "(let [zz " + x + "] zz)", v
	case 3:
		x, v := f(d - 1)
		return "(hid " + x + ")", v
	case 4:
		x, v := f(d - 1)
		return "(cond false 0 " + x + ")", v
	case 5:
		x, v := f(d - 1)
		return "((fn [zz] zz) " + x + ")", v
	case 6: // a write on the way
		w := ""
		t.Span(func() { w = m.write(d-2, true) })
		x, v := f(d - 1)
		return "(begin " + w + " " + x + ")", v
	case 7:
		if t.Chance(1, 3) {
			s := []string{"(hfail)", "(hpanic)", "(nosuchfunction)", "(hget (hash) fz:)", "(aget [] 0)"}[t.Intn(5)]
			t.Fault("fails-in-arguments")
			m.kill()
			return s, c17nil
		}
	}
	return f(d)
}

// ---- constructions ----

// set writes v to field f of x, as the model has it.
func (m *c17) set(x *c17v, f string, v *c17v) bool {
	if x.def != nil {
		ty := x.def.types[f]
		if ty == nil || !ty.fits(v) {
			return false
		}
	}
	if _, ok := x.vals[f]; !ok {
		x.keys = append(append([]string{}, x.keys...), f)
	}
	x.vals[f] = v
	return true
}

func (m *c17) construct(name string, good bool, d int) (string, *c17v) {
	t := m.t
	def := m.defs[name]
	x := &c17v{k: 'h', def: def, name: name, vals: map[string]*c17v{}}
	type kv struct {
		f string
		v *c17v
	}
	var kvs []kv
	var parts []string
	ok := true
	n := t.Intn(len(def.fields) + 1)
	at := t.Intn(len(def.fields))
	stray := -1
	if !good {
		stray = t.Intn(n + 1)
		n++
	}
	for i := 0; i < n; i++ {
		f := def.fields[(at+i)%len(def.fields)]
		var s string
		var v *c17v
		switch {
		case i == stray && t.Bool():
			f = []string{"fz", "ga", name}[t.Intn(3)]
			s, v = m.any(d)
		case i == stray:
			s, v = m.any(d)
		default:
			if t.Chance(1, 12) && i > 0 {
				if g := kvs[t.Intn(len(kvs))].f; def.types[g] != nil {
					f = g // again
				}
			}
			s, v = m.value(def.types[f], d)
		}
		kvs = append(kvs, kv{f, v})
		parts = append(parts, f+":"+s)
	}
	text := "(" + name + " " + strings.Join(parts, " ") + ")"
	switch t.Pick(10, 1, 1) {
	case 1:
		var ps []string
		for i := range kvs {
			ps = append(ps, "(quote "+kvs[i].f+") "+parts[i][len(kvs[i].f)+1:])
		}
		text = `(msgmap "` + name + `" (list ` + strings.Join(ps, " ") + "))"
	case 2:
		if !good && t.Chance(1, 2) {
			if t.Bool() {
				text = "(" + name + " " + strings.Join(parts, " ") + ` "fa" 1)` // no such key
			} else {
				text = "(" + name + " " + strings.Join(parts, " ") + ` 5 6)`
			}
			ok = false
		}
	}
	if m.dead {
		return text, c17nil
	}
	for _, e := range kvs {
		if ok && !m.set(x, e.f, e.v) {
			ok = false
		}
	}
	if !ok {
		m.bad++
		m.kill()
		return text, c17nil
	}
	return text, x
}

// ---- decoding ----

// jval makes a JSON value, and what it decodes to: a plain Go value for
// the encoders, and a model value.
func (m *c17) jval(ty *c17t, d int) (interface{}, *c17v) {
	t := m.t
	if t.Chance(1, 8) {
		ty = m.genType(2)
	}
	switch {
	case t.Chance(1, 12):
		return nil, c17nil
	case ty.kind == 'b' && ty.name == "int64":
		n := int64(t.Intn(9))
		return n, &c17v{k: 'i', i: n}
	case ty.kind == 'b' && ty.name == "float64":
		f := float64(t.Intn(5)) + 0.5
		return f, &c17v{k: 'f', f: f}
	case ty.kind == 'b' && ty.name == "bool":
		if t.Bool() {
			return true, &c17v{k: 'b', i: 1}
		}
		return false, &c17v{k: 'b'}
	case ty.kind == 's':
		a := []interface{}{}
		els := []*c17v{}
		if d > 0 {
			for i, n := 0, t.Intn(3); i < n; i++ {
				g, e := m.jval(ty.elem, d-1)
				a, els = append(a, g), append(els, e)
			}
		}
		return a, &c17v{k: 'a', arr: &els}
	case ty.kind == 'h' && d > 0 && m.defs[ty.name] != nil:
		return m.jrec(ty.name, d-1)
	}
	s := []string{"", "a", "fa"}[t.Intn(3)]
	return s, &c17v{k: 's', s: s}
}

type jrec struct {
	atype string
	keys  []string
	vals  []interface{}
	order []string
	bad   bool // order is no list of names
}

func (m *c17) jrec(name string, d int) (interface{}, *c17v) {
	t := m.t
	def := m.defs[name]
	r := &jrec{atype: name}
	v := &c17v{k: 'h', def: def, name: name, vals: map[string]*c17v{}}
	ok := true
	fs := append([]string{}, def.fields...)
	if t.Chance(1, 8) {
		fs = append(fs, "fz")
	}
	// fields come sorted by name
	for _, f := range sortedStrings(fs) {
		if t.Chance(1, 3) {
			continue
		}
		ty := def.types[f]
		if ty == nil {
			ty = c17base("int64")
		}
		g, e := m.jval(ty, d)
		r.keys, r.vals = append(r.keys, f), append(r.vals, g)
		if ok && !m.dead && !m.set(v, f, e) {
			ok = false
		}
	}
	if !ok {
		m.kill()
		m.bad++
		return r, c17nil
	}
	if t.Chance(1, 3) {
		r.order = []string{}
		for i, n := 0, t.Intn(3); i < n; i++ {
			r.order = append(r.order, []string{"fa", "fb", "fc", "fz"}[t.Intn(4)])
		}
		// named keys first, then the others
		var ks []string
		have := map[string]bool{}
		for _, k := range append(append([]string{}, r.order...), v.keys...) {
			if _, ok := v.vals[k]; ok && !have[k] {
				ks = append(ks, k)
				have[k] = true
			}
		}
		v.keys = ks
	}
	return r, v
}

func sortedStrings(xs []string) []string {
	r := append([]string{}, xs...)
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func jsonOf(x interface{}) string {
	switch v := x.(type) {
	case *jrec:
		s := `{"Atype":` + strconv.Quote(v.atype)
		for i, k := range v.keys {
			s += "," + strconv.Quote(k) + ":" + jsonOf(v.vals[i])
		}
		if v.order != nil {
			b, _ := json.Marshal(v.order)
			s += `,"zKeyOrder":` + string(b)
		}
		return s + "}"
	case []interface{}:
		var p []string
		for _, e := range v {
			p = append(p, jsonOf(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func msgpStr(s string) []byte {
	if len(s) < 32 {
		return append([]byte{0xa0 | byte(len(s))}, s...)
	}
	return append([]byte{0xd9, byte(len(s))}, s...)
}

func msgpOf(x interface{}) []byte {
	switch v := x.(type) {
	case *jrec:
		n := 1 + len(v.keys)
		if v.order != nil {
			n++
		}
		b := append([]byte{0x80 | byte(n)}, msgpStr("Atype")...)
		b = append(b, msgpStr(v.atype)...)
		for i, k := range v.keys {
			b = append(b, msgpStr(k)...)
			b = append(b, msgpOf(v.vals[i])...)
		}
		if v.order != nil {
			b = append(b, msgpStr("zKeyOrder")...)
			b = append(b, 0x90|byte(len(v.order)))
			for _, k := range v.order {
				b = append(b, msgpStr(k)...)
			}
		}
		return b
	case []interface{}:
		b := []byte{0x90 | byte(len(v))}
		for _, e := range v {
			b = append(b, msgpOf(e)...)
		}
		return b
	case nil:
		return []byte{0xc0}
	case bool:
		if v {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case int64:
		return []byte{byte(v)}
	case float64:
		u := math.Float64bits(v)
		b := []byte{0xcb}
		for i := 7; i >= 0; i-- {
			b = append(b, byte(u>>(8*i)))
		}
		return b
	case string:
		return msgpStr(v)
	}
	panic("msgpOf")
}

func (m *c17) decode() (string, *c17v) {
	t := m.t
	if m.dead || len(m.names) == 0 {
		return "nil", c17nil
	}
	name := m.names[t.Intn(len(m.names))]
	was := m.dead
	g, v := m.jrec(name, 2)
	f, b := "unjson", []byte(jsonOf(g))
	if t.Bool() {
		f, b = "unmsgpack", msgpOf(g)
	}
	if !was && t.Chance(1, 8) {
		t.Fault("torn-bytes")
		b = b[:t.Intn(len(b))]
		m.kill()
	}
	k := m.key()
	m.raws[k] = b
	t.Probe("decoded")
	return "(" + f + " (hraw " + strconv.Itoa(k) + "))", v
}

// roundable says whether v survives encoding and decoding.
func (v *c17v) roundable(d int) bool {
	if d == 0 {
		return false
	}
	switch v.k {
	case 's', 'i', 'b':
		return true
	case 'f':
		return v.f != math.Trunc(v.f)
	case 'a':
		for _, e := range *v.arr {
			if !e.roundable(d - 1) {
				return false
			}
		}
		return true
	case 'h':
		if v.def == nil {
			return false
		}
		for _, k := range v.keys {
			if !v.vals[k].roundable(d - 1) {
				return false
			}
		}
		return true
	}
	return false
}

// redecode is v after encoding and decoding, nil if that is refused.
func (m *c17) redecode(v *c17v) *c17v {
	switch v.k {
	case 'a':
		els := []*c17v{}
		for _, e := range *v.arr {
			x := m.redecode(e)
			if x == nil {
				return nil
			}
			els = append(els, x)
		}
		return &c17v{k: 'a', arr: &els}
	case 'h':
		x := &c17v{k: 'h', name: v.name, def: m.defs[v.name], vals: map[string]*c17v{}}
		for _, k := range v.keys {
			e := m.redecode(v.vals[k])
			if e == nil || !m.set(x, k, e) {
				return nil
			}
		}
		return x
	}
	c := *v
	return &c
}

// ---- writes ----

type c17loc struct {
	path string // dotted path of the instance
	expr string // expression for it
	x    *c17v
}

func (m *c17) instances() (ls []c17loc) {
	for _, n := range m.order {
		if v := m.vars[n]; v != nil && v.k == 'h' && v.def != nil {
			ls = append(ls, c17loc{n, n, v})
			for _, k := range v.keys {
				w := v.vals[k]
				if w.k == 'h' && w.def != nil {
					ls = append(ls, c17loc{n + "." + k, "(:" + k + " " + n + ")", w})
					for _, k2 := range w.keys {
						if u := w.vals[k2]; u.k == 'h' && u.def != nil {
							ls = append(ls, c17loc{n + "." + k + "." + k2, "(:" + k2 + " (:" + k + " " + n + "))", u})
						}
					}
				}
			}
		}
	}
	return
}

// commit runs one write in the model; it fails the text if it is refused.
func (m *c17) commit(x *c17v, f string, v *c17v) {
	if m.dead {
		return
	}
	if x != nil && m.set(x, f, v) {
		m.good++
		return
	}
	m.bad++
	m.kill()
}

// walk finds the instance a path leads to; the value is evaluated first.
func (m *c17) walk(path string) *c17v {
	if m.dead {
		return nil
	}
	ps := strings.Split(path, ".")
	x := m.vars[ps[0]]
	for _, p := range ps[1:] {
		x = x.vals[p]
		if x == nil || x.k != 'h' {
			return nil
		}
	}
	return x
}

func (m *c17) field(x *c17v, good bool) (string, *c17t) {
	t := m.t
	if !good && t.Chance(1, 3) {
		return []string{"fz", "ga", "Atype", "fe", "fa"}[t.Intn(5)], m.genType(1)
	}
	f := x.def.fields[t.Intn(len(x.def.fields))]
	return f, x.def.types[f]
}

// val makes the value of a write: mostly one that is accepted.
func (m *c17) val(x *c17v, ty *c17t, good bool, d int) (string, *c17v) {
	var s string
	var v *c17v
	if good {
		s, v = m.value(ty, d)
	} else {
		s, v = m.any(d)
	}
	return s, v
}

// write makes a write through one of the routes.
func (m *c17) write(d int, nested bool) string {
	t := m.t
	if m.dead {
		return "0"
	}
	ls := m.instances()
	if len(ls) == 0 {
		return "0"
	}
	l := ls[t.Intn(len(ls))]
	good := t.Chance(2, 3)
	f, ty := m.field(l.x, good)
	if d < 1 {
		d = 1
	}
	q := "(quote " + f + ")"
	w := 1
	if nested {
		w = 0
	}
	switch c := t.Pick(5, 5, 4, 4, 1, 2, 1, 4, 3, 3, 3, 2, 3, 3, 3, 2, 2, w, 2, 1, 2, 2); c {
	case 0:
		s, v := m.val(l.x, ty, good, d)
		m.commit(m.walk(l.path), f, v)
		return "{" + l.path + "." + f + " = " + s + "}"
	case 1:
		s, v := m.val(l.x, ty, good, d)
		m.commit(m.walk(l.path), f, v)
		return "(set " + l.path + "." + f + " " + s + ")"
	case 2:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(hset " + l.expr + " " + f + ": " + s + ")"
	case 3:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(hset " + l.expr + " " + q + " " + s + ")"
	case 4: // no such key
		s, _ := m.val(l.x, ty, true, d)
		k := []string{`"` + f + `"`, "0", "1", "'a'", "[" + q + " " + q + "]"}[t.Intn(5)]
		if !m.dead {
			m.bad++
		}
		m.kill()
		return "(hset " + l.expr + " " + k + " " + s + ")"
	case 5:
		if l.path != l.expr {
			return m.write(d, nested)
		}
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "{" + l.path + "[%" + f + "] = " + s + "}"
	case 6:
		if l.path != l.expr {
			return m.write(d, nested)
		}
		s, _ := m.val(l.x, ty, true, d)
		if !m.dead {
			m.bad++
		}
		m.kill()
		return "{" + l.path + `["` + f + `"] = ` + s + "}"
	case 7, 8, 9:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return []string{"(hset2 ", "(hcall wr ", "(wr "}[c-7] + l.expr + " " + q + " " + s + ")"
	case 10:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(apply hset (list " + l.expr + " " + q + " " + s + "))"
	case 11: // several, up to the first that is refused
		var ss []string
		var vs []*c17v
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			g := good && t.Chance(4, 5)
			s, v := m.val(l.x, ty, g, 1)
			ss, vs = append(ss, s), append(vs, v)
		}
		for _, v := range vs {
			m.commit(m.walk(l.path), f, v)
		}
		return "(map (fn [v] (hset " + l.expr + " " + q + " v)) [" + strings.Join(ss, " ") + "])"
	case 12:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(let [q " + l.expr + "] " + []string{"(set q." + f + " " + s + ")", "{q." + f + " = " + s + "}"}[t.Intn(2)] + ")"
	case 13:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "((fn [q] (set q." + f + " " + s + ")) " + l.expr + ")"
	case 14: // compound
		old := l.x.vals[f]
		if old == nil || old.k != 'i' && old.k != 'f' {
			return m.write(d, nested)
		}
		op := []string{"+", "-"}[t.Intn(2)]
		sign := int64(1)
		if op == "-" {
			sign = -1
		}
		if t.Chance(1, 3) {
			if old.k == 'i' {
				m.commit(l.x, f, &c17v{k: 'i', i: old.i + sign})
			} else {
				m.commit(l.x, f, &c17v{k: 'f', f: old.f + float64(sign)})
			}
			return "{" + l.path + "." + f + op + op + "}"
		}
		if old.k == 'i' && t.Chance(2, 3) {
			n := int64(t.Intn(5))
			m.commit(l.x, f, &c17v{k: 'i', i: old.i + sign*n})
			return fmt.Sprintf("{%s.%s %s= %d}", l.path, f, op, n)
		}
		g := float64(t.Intn(4)) + 0.5
		o := old.f
		if old.k == 'i' {
			o = float64(old.i)
		}
		m.commit(l.x, f, &c17v{k: 'f', f: o + float64(sign)*g})
		return fmt.Sprintf("{%s.%s %s= %s}", l.path, f, op, strconv.FormatFloat(g, 'g', -1, 64))
	case 15:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(set (hashidx " + l.expr + " [" + q + "]) " + s + ")"
	case 16: // in a loop
		v := &c17v{k: 'i', i: 2}
		m.commit(l.x, f, v)
		return "(for [(def i 0) (< i 3) (def i (+ i 1))] (set " + l.path + "." + f + " i))"
	case 17:
		a := m.write(d-1, true)
		b := m.write(d-1, true)
		return "(begin " + a + " " + b + ")"
	case 18: // through a pointer
		return m.derefSet(d)
	case 19:
		f := l.x.def.fields[t.Intn(len(l.x.def.fields))]
		if !m.dead {
			for i, k := range l.x.keys {
				if k == f {
					l.x.keys = append(append([]string{}, l.x.keys[:i]...), l.x.keys[i+1:]...)
					delete(l.x.vals, f)
					break
				}
			}
		}
		return "(hdel " + l.expr + " (quote " + f + "))"
	case 20: // an element of a slice held by a field: one of the slice's type
		return m.element(d)
	case 21:
		s, v := m.val(l.x, ty, good, d)
		m.commit(l.x, f, v)
		return "(cond true (hset " + l.expr + " " + q + " " + s + ") 0)"
	}
	return "0"
}

// element writes an element of an array.
func (m *c17) element(d int) string {
	t := m.t
	tx, vs := m.places(func(v *c17v) bool { return v.k == 'a' && len(*v.arr) > 0 })
	if m.dead || len(vs) == 0 {
		return "0"
	}
	i := t.Intn(len(vs))
	a := vs[i]
	j := t.Intn(len(*a.arr))
	ety := (*a.arr)[j].typeOf()
	// what the array holds decides its type: see the known finding
	if ety == nil || ety.kind != 'b' {
		return "0"
	}
	s, v := m.lit(ety.name)
	(*a.arr)[j] = v
	return fmt.Sprintf("(aset %s %d %s)", tx[i], j, s)
}

func (m *c17) derefSet(d int) string {
	t := m.t
	if m.dead {
		return "0"
	}
	var px string
	var p *c17v
	if t.Chance(1, 2) {
		tx, vs := m.places(func(v *c17v) bool { return v.k == 'p' })
		if len(vs) > 0 {
			i := t.Intn(len(vs))
			px, p = tx[i], vs[i]
		}
	}
	if p == nil {
		tx, vs := m.places(func(v *c17v) bool { return v.k != 'n' && v.typeOf() != nil })
		if len(vs) == 0 {
			return "0"
		}
		i := t.Intn(len(vs))
		px, p = m.ptr(tx[i], vs[i])
	}
	if p.k != 'p' {
		return "0"
	}
	good := t.Chance(2, 3)
	var s string
	var v *c17v
	ty := p.pt.elem
	if ty.kind == 'h' && p.tgt.def != nil {
		ty = &c17t{kind: 'h', name: ty.name, def: p.tgt.def}
	}
	if good {
		s, v = m.value(ty, d)
	} else {
		s, v = m.any(d)
	}
	text := "(derefSet " + px + " " + s + ")"
	if m.dead {
		return text
	}
	x := p.tgt
	ok := false
	switch v.k {
	case 'i', 'u', 'f', 's', 'b', 'c':
		ok = x.k == v.k
	case 'a':
		ok = x.k == 'a' && p.pt.elem.fits1(v)
	case 'p':
		ok = x.k == 'p' && v.pt.name == p.pt.elem.name && v.sound(v.pt)
	case 'h':
		ok = x.k == 'h' && x.def != nil && x.def == v.def
	}
	if !ok {
		m.bad++
		m.kill()
		return text
	}
	m.good++
	t.Probe("write-through-pointer")
	switch v.k {
	case 'i', 'c', 'b':
		x.i = v.i
	case 'u':
		x.u = v.u
	case 'f':
		x.f = v.f
	case 's':
		x.s = v.s
	case 'a':
		x.arr = v.arr
	case 'p':
		x.tgt, x.pt = v.tgt, v.pt
	case 'h':
		ks := append([]string{}, v.keys...)
		vals := map[string]*c17v{}
		for k, e := range v.vals {
			vals[k] = e
		}
		x.keys, x.vals = ks, vals
	}
	return text
}

// bind binds a variable.
func (m *c17) bind(d int) string {
	t := m.t
	n := "v" + strconv.Itoa(1+t.Intn(6))
	var s string
	var v *c17v
	switch c := t.Pick(5, 2, 3, 2, 2, 2, 1); {
	case c == 0 && len(m.names) > 0 && !m.dead:
		s, v = m.wrap(d, func(d int) (string, *c17v) {
			if m.dead {
				return "0", c17nil
			}
			return m.construct(m.names[t.Intn(len(m.names))], t.Chance(3, 4), d)
		})
	case c == 1:
		s, v = m.value(m.genType(2), d)
	case c == 2:
		s, v = m.decode()
	case c == 3:
		x, e := m.value(m.genType(2), d)
		s, v = m.ptr(x, e)
	case c == 4: // there and back
		enc := t.Intn(2)
		// nil cannot be encoded
		tx, vs := m.places(func(v *c17v) bool { return v.k == 'h' && v.def != nil && v.roundable(6) })
		if m.dead || len(vs) == 0 {
			return "0"
		}
		i := t.Intn(len(vs))
		s = []string{"(unjson (json ", "(unmsgpack (msgpack "}[enc] + tx[i] + "))"
		t.Probe("encoded-and-decoded")
		v = m.redecode(vs[i])
		if v == nil {
			m.bad++
			m.kill()
			v = c17nil
		}
	case c == 5 && len(m.names) > 0 && !m.dead:
		// a constructor in a function
		name := m.names[t.Intn(len(m.names))]
		f := m.defs[name].fields[t.Intn(len(m.defs[name].fields))]
		x := &c17v{k: 'h', def: m.defs[name], name: name, vals: map[string]*c17v{}}
		es, ev := m.val(x, x.def.types[f], t.Chance(2, 3), d)
		m.commit(x, f, ev)
		s, v = "((fn [q] ("+name+" "+f+":q)) "+es+")", x
	default:
		s, v = m.any(d)
	}
	form := []string{"(def " + n + " " + s + ")", "{" + n + " = " + s + "}", "(set " + n + " " + s + ")", "{" + n + " := " + s + "}"}
	i := t.Pick(4, 1, 1, 1)
	old, have := m.vars[n], false
	if old != nil {
		have = true
	}
	if !have && (i == 1 || i == 2) {
		i = 0
	}
	if m.dead {
		return form[i]
	}
	if have && old.k != 'n' && i == 0 { // def keeps the type
		a, b := old.typeOf(), v.typeOf()
		if old.k == 't' || v.k == 't' || old.k == '?' || v.k == '?' || old.k == 'h' && old.def == nil || v.k == 'h' && v.def == nil || old.k == 'p' || v.k == 'p' || old.k == 'a' || v.k == 'a' {
			// only what the statement is about
			if a == nil || b == nil || a.name != b.name {
				return s
			}
		}
		if v.k != 'n' && a.name != b.name {
			if a.kind == 'h' || b.kind == 'h' {
				t.Probe("rebinding-refused")
				m.kill()
				return form[i]
			}
			return s
		}
	}
	if !have {
		m.order = append(m.order, n)
	}
	m.vars[n] = v
	return form[i]
}

func (m *c17) step() string {
	s := ""
	m.t.Span(func() {
		switch m.t.Pick(3, 4, 10, 1, 2) {
		case 0:
			s = m.declare()
		case 1:
			s = m.bind(2)
		case 2:
			s = m.write(2, false)
		case 3:
			s = m.element(2)
		case 4:
			s = m.derefSet(2)
		}
	})
	return s
}

// ---- comparison ----

type c17cmp struct {
	to   map[*c17v]zygo.Sexp
	from map[zygo.Sexp]*c17v
	n    int
}

func (c *c17cmp) same(where string, v *c17v, x zygo.Sexp) string {
	c.n++
	if c.n > 50000 {
		return ""
	}
	if v.k == 'h' || v.k == 'p' || v.k == 'a' {
		y, ok := c.to[v]
		if ok != (c.from[x] != nil) || ok && y != x || ok && c.from[x] != v {
			return where + ": not the object that was stored"
		}
		if ok {
			return ""
		}
		c.to[v] = x
		c.from[x] = v
	}
	bad := func() string {
		return fmt.Sprintf("%s is %s, the model has %s", where, clip(Dump(x), 400), clip(v.show(map[*c17v]bool{}), 400))
	}
	switch v.k {
	case 'a':
		a, ok := x.(*zygo.SexpArray)
		if !ok || len(a.Val) != len(*v.arr) {
			return bad()
		}
		for i, e := range *v.arr {
			if s := c.same(fmt.Sprintf("%s[%d]", where, i), e, a.Val[i]); s != "" {
				return s
			}
		}
		return ""
	case 'h':
		h, ok := x.(*zygo.SexpHash)
		if !ok || h.TypeName != v.name || len(h.KeyOrder) != len(v.keys) {
			return bad()
		}
		n := 0
		for _, ps := range h.Map {
			n += len(ps)
		}
		if n != len(v.keys) {
			return bad() + fmt.Sprintf(" (and %d entries are stored)", n)
		}
		for i, k := range v.keys {
			ks, ok := h.KeyOrder[i].(*zygo.SexpSymbol)
			if !ok || ks.Name() != k {
				return bad()
			}
			e, err := h.HashGet(nil, ks)
			if err != nil {
				return bad()
			}
			if s := c.same(where+"."+k, v.vals[k], e); s != "" {
				return s
			}
		}
		return ""
	case 'p':
		p, ok := x.(*zygo.SexpPointer)
		if !ok {
			return bad()
		}
		return c.same("*"+where, v.tgt, p.Target)
	case 't':
		if _, ok := x.(*zygo.RegisteredType); !ok {
			return bad()
		}
		return ""
	}
	if Dump(x) != v.show(map[*c17v]bool{}) {
		return bad()
	}
	return ""
}

func (m *c17) compare() string {
	c := &c17cmp{to: map[*c17v]zygo.Sexp{}, from: map[zygo.Sexp]*c17v{}}
	for _, n := range m.order {
		x, ok := m.env.FindObject(n)
		if !ok {
			return n + " is not bound"
		}
		if s := c.same(n, m.vars[n], x); s != "" {
			return s
		}
	}
	return ""
}

// ---- run ----

func c17Run(t *core.T, texts int) {
	m := &c17{t: t, vars: map[string]*c17v{}, defs: map[string]*c17def{}, raws: map[int][]byte{}, hvals: map[int]func() (*c17v, zygo.Sexp){}}
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	m.env = env
	intArg := func(args []zygo.Sexp) int {
		if len(args) == 1 {
			if i, ok := args[0].(*zygo.SexpInt); ok {
				return int(i.Val)
			}
		}
		return -1
	}
	env.AddFunction("hv", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		_, x := m.hvals[intArg(args)]()
		return x, nil
	})
	env.AddFunction("hraw", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return &zygo.SexpRaw{Val: append([]byte{}, m.raws[intArg(args)]...)}, nil
	})
	env.AddFunction("hid", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) { return args[0], nil })
	env.AddFunction("hfail", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return zygo.SexpNull, errors.New("FAULT")
	})
	env.AddFunction("hpanic", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) { panic("FAULT") })
	env.AddFunction("hset2", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		h, ok := args[0].(*zygo.SexpHash)
		if !ok {
			return zygo.SexpNull, errors.New("no hash")
		}
		return zygo.SexpNull, h.HashSet(args[1], args[2])
	})
	env.AddFunction("hcall", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return env.Apply(args[0].(*zygo.SexpFunction), args[1:])
	})
	SetBudget(1_000_000, 1_000_000)
	if r := Eval(env, "(defn wr [h k v] (hset h k v))"); r.Kind() != "value" {
		panic(r.String())
	}
	run := func(text string) {
		m.hist = append(m.hist, text)
		SetBudget(2_000_000, 2_000_000)
		r := Eval(env, text)
		SetBudget(1<<40, 1<<40)
		TakeOutput()
		t.Logf("> %s = %s", text, r.Kind())
		hist := func() string { return strings.Join(m.hist, "\n") }
		switch {
		case r.Kind() == "panic" || r.Kind() == "budget":
			t.Failf("stopped", "%s: %s\ntexts:\n%s", text, r, hist())
		case m.dead && r.Err == nil:
			t.Failf("accepted", "%s succeeds, giving %s, though the types forbid it\ntexts:\n%s", text, r, hist())
		case !m.dead && r.Err != nil:
			t.Failf("refused", "%s fails: %s\ntexts:\n%s", text, r, hist())
		}
		if s := m.compare(); s != "" {
			class := "state"
			if m.dead {
				class = "state-after-error"
			}
			t.Failf(class, "after %s (%s): %s\ntexts:\n%s", text, r.Kind(), s, hist())
		}
		if x := atRest(env); x != "" {
			t.Failf("not-at-rest", "after %s: %s\ntexts:\n%s", text, x, hist())
		}
		var st []string
		for _, n := range m.order {
			st = append(st, n+"="+m.vars[n].show(map[*c17v]bool{}))
		}
		t.Logf("%s", strings.Join(st, " "))
		t.State(strings.Join(st, " "))
		m.dead = false
	}
	run(m.declare())
	run(m.bind(2))
	t.Many(1, texts, texts/2, func(int) {
		var ss []string
		for i, n := 0, 1+t.Pick(4, 2, 1); i < n; i++ {
			ss = append(ss, m.step())
			if m.dead && t.Bool() {
				break
			}
		}
		text := strings.Join(ss, " ")
		if len(ss) > 1 && t.Chance(1, 3) && !strings.Contains(text, "(struct") {
			text = "(begin " + text + ")"
		}
		run(text)
	})
	if m.good > 0 && m.bad > 0 {
		t.NonTrivial()
	}
	t.ProbeN("writes-accepted", m.good)
	t.ProbeN("writes-refused", m.bad)
	t.Sample(strings.Join(m.hist, " ; "))
}

func init() {
	core.Register(&core.Property{
		ID: "C17", Level: "exploration", Recheck: recheckEval,
		Rule:      "history: a run is a seeded history of struct declarations and redeclarations (also bad ones), constructions, decodings of JSON and msgpack (also torn), and writes through every route: infix and prefix assignment of dot paths, hset by name, symbol and other keys, selectors, compound assignment, apply, map, closures, let, loops, host functions calling HashSet or Apply, pointers, pointers to pointers, elements, with host functions failing or panicking in the arguments. Each text's success or failure, and after it every variable and all that is reachable from it, identities included, are compared with a model of typed records. Non-trivial: at least one write or construction was accepted and one refused. Distinct: by event log. States: distinct contents of all variables.",
		QuickRuns: 100000, ThorRuns: 4000000,
		Assumptions: []string{
			"slices and pointers of a struct go by its name; a field declared of a struct takes instances of the declaration in force when the field was declared",
			"an array with nil as its first element has no type and is refused; nil as a later element is accepted",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo reader, generator, VM, builtins, struct builders, type registry, hashes, pointers, JSON and msgpack decoders",
			},
			"simulated": []string{
				"host functions: what they reply, when they fail or panic is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C17", Name: "history", Weight: 3, Run: func(t *core.T) { c17Run(t, 10) }},
			{Prop: "C17", Name: "long", Weight: 1, Run: func(t *core.T) { c17Run(t, 40) }},
		},
	})
}
