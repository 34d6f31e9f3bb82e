package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C14: a hash is a small store; the clients are script statements and
// host calls that operate on it through every route there is. The
// simulator decides the operation history, which hash each operation goes
// to (several, some of them aliased or cloned), and injects failures:
// keys that cannot be hashed, values that are refused, host calls that
// fail or panic while the operation's arguments are being evaluated, range
// loops that die half way. After each step the hash is compared
// with an ordered-map model through every observer.

type hkey struct {
	src   string // expression denoting the key
	canon string // equal keys have equal canon
	show  string // printed form of the key
	dump  string
	name  string // name in encodings
	kind  string
	sym   string // name, if a symbol
}

type hval struct{ src, dump, show, kind string }

type hent struct {
	k hkey
	v hval
}

type hmodel struct {
	typ  string
	ents []hent
}

func (m *hmodel) find(k hkey) int {
	for i, e := range m.ents {
		if e.k.canon == k.canon {
			return i
		}
	}
	return -1
}

func (m *hmodel) set(k hkey, v hval) {
	if i := m.find(k); i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, hent{k, v})
}

func (m *hmodel) del(k hkey) {
	if i := m.find(k); i >= 0 {
		m.ents = append(append([]hent{}, m.ents[:i]...), m.ents[i+1:]...)
	}
}

func (m *hmodel) clone() *hmodel {
	return &hmodel{m.typ, append([]hent{}, m.ents...)}
}

func intKey(n int64) hkey {
	s := strconv.FormatInt(n, 10)
	return hkey{src: s, canon: "n" + s, show: s, dump: s, name: s, kind: "int64"}
}

func charKey(c rune) hkey {
	s := "'" + string(c) + "'"
	return hkey{src: s, canon: "n" + strconv.Itoa(int(c)), show: s, dump: "#" + strconv.QuoteRune(c), name: s, kind: "char"}
}

func strKey(s string) hkey {
	q := strconv.Quote(s)
	return hkey{src: q, canon: "s" + s, show: q, dump: q, name: s, kind: "string"}
}

func symKey(s string) hkey {
	return hkey{src: "(quote " + s + ")", canon: "y" + s, show: s, dump: "'" + s, name: s, kind: "symbol", sym: s}
}

func arrKey(els ...hkey) hkey {
	k := hkey{kind: "array"}
	var a, c, d []string
	for _, e := range els {
		a, c, d = append(a, e.src), append(c, e.show), append(d, e.dump)
	}
	k.src = "[" + strings.Join(a, " ") + "]"
	// unlike numbers, arrays are keys by what they look like: [97 1] and
	// ['a' 1] compare equal but are two keys.
	k.canon = "a[" + strings.Join(c, " ") + "]"
	k.show = "[" + strings.Join(c, " ") + "]"
	k.dump = "[" + strings.Join(d, " ") + "]"
	k.name = k.show
	return k
}

// collisions are pairs of distinct strings with equal FNV-1 hash codes.
var collisions [][2]string

func findCollisions() {
	if collisions != nil {
		return
	}
	seen := map[uint32]string{}
	for i := 0; len(collisions) < 4; i++ {
		s := "k" + strconv.Itoa(i)
		h := fnv.New32()
		h.Write([]byte(s))
		if o, ok := seen[h.Sum32()]; ok {
			collisions = append(collisions, [2]string{o, s})
		}
		seen[h.Sum32()] = s
	}
}

func fnv32(s string) int64 {
	h := fnv.New32()
	h.Write([]byte(s))
	return int64(h.Sum32())
}

type c14 struct {
	t     *core.T
	env   *zygo.Zlisp
	vars  []string
	model map[string]*hmodel // by variable; aliases share the pointer
	keys  []hkey
	log   []string
	hist  []string
	plan  string // what the host function (boom) does
	rec   bool
	ops   int
	real  bool
}

func (c *c14) addHost() {
	c.env.AddFunction("boom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		switch c.plan {
		case "error":
			return zygo.SexpNull, errors.New("boom-error")
		case "panic":
			panic("boom-panic")
		}
		return args[0], nil
	})
	c.env.AddFunction("note", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		var p []string
		for _, a := range args {
			p = append(p, Dump(a))
		}
		c.log = append(c.log, strings.Join(p, " "))
		if c.plan != "" && c.plan[0] == '@' {
			if n, _ := strconv.Atoi(c.plan[1:]); len(c.log) > n {
				return zygo.SexpNull, errors.New("note-error")
			}
		}
		return zygo.SexpNull, nil
	})
}

func (c *c14) eval(src string) Res {
	c.t.Logf("> %s", src)
	r := Eval(c.env, src)
	c.t.Logf("  %s", r)
	if r.Budget != "" {
		c.t.Failf("no-result", "%s did not finish: %s\nhistory:\n%s", src, r, c.history())
	}
	return r
}

func (c *c14) history() string { return strings.Join(c.hist, "\n") }

func (c *c14) fail(class, format string, a ...interface{}) {
	c.t.Failf(class, "%s\nhistory:\n%s", fmt.Sprintf(format, a...), c.history())
}

// op evaluates an operation that must succeed (or must fail).
func (c *c14) op(src string, wantErr bool) Res {
	c.hist = append(c.hist, src)
	c.ops++
	r := c.eval(src)
	if r.Kind() == "panic" {
		c.fail("panic", "%s panicked: %s", src, r)
	}
	if wantErr && r.Kind() == "value" {
		c.fail("accepted", "%s gave %s, not an error", src, r)
	}
	if !wantErr && r.Kind() == "error" {
		c.fail("refused", "%s gave %s", src, r)
	}
	return r
}

func (c *c14) val(depth int) hval {
	t := c.t
	switch t.Pick(8, 3, 2, 1, 1) {
	case 0:
		s := strconv.Itoa(t.Intn(1000))
		return hval{s, s, s, "int64"}
	case 1:
		s := strconv.Quote([]string{"x", "", "long er", "q\"q", "é"}[t.Intn(5)])
		return hval{s, s, s, "string"}
	case 2:
		return hval{"nil", "nil", "nil", "nil"}
	case 3:
		a := strconv.Itoa(t.Intn(50))
		return hval{"[" + a + " 1]", "[" + a + " 1]", "[" + a + " 1]", "array"}
	default:
		a := strconv.Itoa(t.Intn(50))
		return hval{"(hash a:" + a + ")", "{hash 'a:" + a + "}", "{a:" + a + "}", "hash"}
	}
}

func (c *c14) key() hkey { return c.keys[c.t.Intn(len(c.keys))] }

// anyKey prefers keys that are in m.
func (c *c14) anyKey(m *hmodel) hkey {
	if len(m.ents) > 0 && c.t.Chance(1, 2) {
		return m.ents[c.t.Intn(len(m.ents))].k
	}
	return c.key()
}

func (c *c14) makeKeys() {
	t := c.t
	var pool []hkey
	symNo := func(n string) int64 { return int64(c.env.MakeSymbol(n).Number()) }
	names := []string{"a", "b", "zed", "f0", "q?"}
	col := collisions[t.Intn(len(collisions))]
	shared := hkey{}
	switch t.Intn(5) {
	case 0:
		pool = append(pool, intKey(symNo("a")), symKey("a"), symKey("b"), intKey(symNo("b")), charKey('a'))
	case 1:
		pool = append(pool, strKey(col[0]), strKey(col[1]), intKey(fnv32(col[0])), strKey("a"), intKey(fnv32("a")))
	case 2:
		pool = append(pool, intKey(97), charKey('a'), charKey('b'), intKey(98), arrKey(intKey(97), intKey(1)), arrKey(charKey('a'), intKey(1)), arrKey(intKey(97), charKey('b')))
	case 3:
		pool = append(pool, arrKey(intKey(1), intKey(2)), arrKey(), arrKey(strKey("a"), symKey("a")), arrKey(arrKey(intKey(3), intKey(4)), intKey(5)), intKey(1))
		shared = pool[0]
	default:
		pool = append(pool, symKey("a"), symKey("b"), strKey("a"), strKey(""), intKey(0))
	}
	_ = shared
	n := t.Range(1, 5)
	for i := 0; i < n; i++ {
		switch t.Intn(8) {
		case 0:
			pool = append(pool, intKey(int64(t.Range(-3, 5))))
		case 1:
			pool = append(pool, symKey(names[t.Intn(len(names))]))
		case 2:
			pool = append(pool, strKey([]string{"a", "zz", "w x", "é", "a\"b", "n\nl"}[t.Intn(6)]))
		case 3:
			pool = append(pool, charKey([]rune{'a', 'z', '0', 'é'}[t.Intn(4)]))
		case 4:
			pool = append(pool, arrKey(intKey(int64(t.Intn(3))), intKey(int64(t.Intn(3)))))
		case 5:
			pool = append(pool, intKey([]int64{1 << 62, -1 << 62, 9223372036854775807, -9223372036854775807, 1 << 32}[t.Intn(5)]))
		case 6:
			pool = append(pool, strKey(col[t.Intn(2)]))
		default:
			pool = append(pool, intKey(int64(fnv32(names[t.Intn(2)]))))
		}
	}
	if t.Chance(1, 10) {
		// enough for the Go maps below to grow and to lose entries
		for i, n := 0, t.Range(8, 30); i < n; i++ {
			pool = append(pool, []hkey{intKey(int64(i + 10)), symKey("m" + strconv.Itoa(i)), strKey("m" + strconv.Itoa(i))}[t.Intn(3)])
		}
	}
	if t.Chance(1, 3) {
		// only names: these can be encoded
		var p []hkey
		seen := map[string]bool{}
		for _, k := range pool {
			if (k.kind == "symbol" || k.kind == "string") && !seen[k.name] {
				seen[k.name] = true
				p = append(p, k)
			}
		}
		p = append(p, symKey("nm1"), symKey("nm2"), strKey("str 1"))
		pool = p
	}
	c.keys = pool
}

var unhashable = []string{"1.5", "true", "nil", "3ULL", "{h0}", "(quote (1 2))", "(fn [] 1)"}

// keySrc writes k as an operand; sometimes in the one-element
// array form, which denotes the same key.
func (c *c14) keySrc(k hkey) string {
	t := c.t
	if t.Chance(1, 6) {
		c.t.Probe("wrapped-key")
		return "[" + k.src + "]"
	}
	if k.kind == "symbol" && t.Bool() {
		return k.sym + ":"
	}
	return k.src
}

func (c *c14) step() {
	t := c.t
	v := c.vars[t.Intn(len(c.vars))]
	m := c.model[v]
	if m == nil {
		c.create(v)
		return
	}
	switch t.Pick(10, 8, 4, 3, 2, 3, 3, 2, 2, 2, 1, 1) {
	case 0: // set
		k, val := c.anyKey(m), c.val(0)
		switch t.Intn(5) {
		case 0, 1:
			c.op(fmt.Sprintf("(hset %s %s %s)", v, c.keySrc(k), val.src), false)
		case 2:
			c.op(fmt.Sprintf("{%s[%s] = %s}", v, k.src, val.src), false)
		case 3:
			if k.kind == "symbol" && k.sym != "q?" {
				c.op(fmt.Sprintf("{%s.%s = %s}", v, k.sym, val.src), false)
			} else {
				c.op(fmt.Sprintf("(set9 %s %s %s)", v, k.src, val.src), false)
			}
		default:
			// the host writes, between evaluations
			h, kk, vv := c.goVal(v), c.goVal(k.src), c.goVal(val.src)
			hh, ok := h.(*zygo.SexpHash)
			if !ok {
				t.Harnessf("%s is %T", v, h)
			}
			c.hist = append(c.hist, fmt.Sprintf("host: HashSet(%s, %s, %s)", v, k.src, val.src))
			c.ops++
			if err := hh.HashSet(kk, vv); err != nil {
				c.fail("refused", "HashSet failed: %v", err)
			}
			t.Probe("host-write")
		}
		m.set(k, val)
	case 1: // delete
		k := c.anyKey(m)
		if m.find(k) < 0 {
			t.Probe("delete-missing")
		} else {
			t.Probe("delete-present")
		}
		c.op(fmt.Sprintf("(hdel %s %s)", v, c.keySrc(k)), false)
		m.del(k)
	case 2: // fault: a host call fails while arguments are evaluated
		k, val := c.anyKey(m), c.val(0)
		c.plan = []string{"error", "panic"}[t.Intn(2)]
		t.Fault("host-" + c.plan)
		forms := []string{"(hset %[1]s %[2]s (boom %[3]s))", "(hset %[1]s (boom %[2]s) %[3]s)", "{%[1]s[boom(1)] = %[3]s}",
			"{%[1]s[(boom %[2]s)] = %[3]s}", "(hdel %[1]s (boom %[2]s))", "(hget %[1]s %[2]s (boom %[3]s))", "(hash %[2]s (boom %[3]s))",
			"(begin (boom 1) (hdel %[1]s %[2]s))", "(hset (boom %[1]s) %[2]s %[3]s)"}
		i := t.Intn(len(forms))
		if i == 2 {
			i = 3
		}
		c.op(fmt.Sprintf(forms[i], v, k.src, val.src), true)
		c.plan = ""
	case 3: // fault: a key that cannot be hashed, a malformed call
		bad := unhashable[t.Intn(len(unhashable))]
		if bad == "{h0}" {
			bad = v
		}
		t.Fault("bad-operation")
		forms := []string{"(hset %[1]s %[2]s 1)", "(hdel %[1]s %[2]s)", "(hget %[1]s %[2]s)", "(hset %[1]s %[3]s)", "(hdel %[1]s)", "(hpair %[1]s \"x\")",
			"(hash %[3]s 1 %[2]s 2)", "(hset 5 %[3]s 1)", "(hget %[1]s %[2]s 7)", "(hash 1 2 3)"}
		c.op(fmt.Sprintf(forms[t.Intn(len(forms))], v, bad, c.key().src), true)
	case 4: // aliases
		w := c.vars[t.Intn(len(c.vars))]
		if c.model[w] == nil || c.model[w].typ == m.typ {
			c.op(fmt.Sprintf("(def %s %s)", w, v), false)
			c.model[w] = m
			t.Probe("alias")
		}
	case 5:
		c.create(v)
	case 6: // read, or read with a default, of any key: no effect
		c.lookup(v, m)
	case 7: // host call that fails during a range over the hash
		if len(m.ents) > 0 {
			n := t.Intn(len(m.ents))
			c.log = nil
			c.plan = "@" + strconv.Itoa(n)
			t.Fault("loop-body-error")
			c.op(fmt.Sprintf("{for kk, vv := range %s { (note kk vv) }}", v), true)
			c.plan = ""
			c.log = nil
		}
	case 8: // copy through pointers
		if m.typ != "hash" {
			w := c.vars[t.Intn(len(c.vars))]
			if mw := c.model[w]; mw != nil && mw != m && mw.typ == m.typ {
				c.op(fmt.Sprintf("(derefSet (& %s) %s)", v, w), false)
				m.ents = mw.clone().ents
				t.Probe("clone")
			}
		}
	case 9: // round trip through an encoding makes a fresh hash
		if m.typ == "hash" && c.encodable(m) {
			w := c.vars[t.Intn(len(c.vars))]
			enc := []string{"(unmsgpack (msgpack %s))", "(unjson (json %s))"}[t.Intn(2)]
			if c.model[w] == nil || c.model[w].typ == "hash" {
				c.op(fmt.Sprintf("(def %s "+enc+")", w, v), false)
				n := &hmodel{typ: "hash"}
				for _, e := range m.ents {
					n.set(symKey(e.k.name), e.v)
				}
				c.model[w] = n
				t.Probe("decoded")
			}
		}
	case 10: // a text that others wrote
		w := c.vars[t.Intn(len(c.vars))]
		if c.model[w] == nil || c.model[w].typ == "hash" {
			c.foreign(w)
		}
	default: // a literal evaluated again gives a fresh hash
		k, val := c.key(), c.val(0)
		c.op(fmt.Sprintf("(hset (mk) %s %s)", k.src, val.src), false)
		r := c.op("(str (mk))", false)
		if r.Dump != strconv.Quote("{a:1 \"s\":2}") {
			c.fail("literal", "a hash literal evaluated again gave %s", r.Dump)
		}
	}
}

func (c *c14) goVal(src string) zygo.Sexp {
	r := Eval(c.env, src)
	if r.Kind() != "value" {
		c.t.Harnessf("%s gave %s", src, r)
	}
	return r.Val
}

func (c *c14) encodable(m *hmodel) bool {
	names := map[string]bool{}
	for _, e := range m.ents {
		if e.k.kind != "symbol" && e.k.kind != "string" || names[e.k.name] || !plainName(e.k.name) {
			return false
		}
		if e.v.kind == "nil" || e.v.kind == "hash" {
			return false
		}
		names[e.k.name] = true
	}
	return true
}

func plainName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return s[0] >= 'a' && s[0] <= 'z'
}

// foreign makes the hash v from a JSON text whose key order is anything: the
// order is whatever the hash says it is from then on, but each key is there
// once.
func (c *c14) foreign(v string) {
	t := c.t
	var mem, ord []string
	vals := map[string]string{}
	for i, n := 0, t.Range(1, 6); i < n; i++ {
		k := []string{"b", "nm1", "a", "zed", "nm2", "f0", "ba"}[t.Intn(7)]
		if _, dup := vals[k]; dup {
			continue
		}
		vals[k] = strconv.Itoa(t.Intn(100))
		mem = append(mem, strconv.Quote(k)+":"+vals[k])
		if t.Chance(2, 3) {
			ord = append(ord, strconv.Quote(k))
		}
		if t.Chance(1, 5) {
			ord = append(ord, []string{`"none"`, strconv.Quote(k), `"zed"`}[t.Intn(3)])
		}
	}
	if t.Chance(3, 4) {
		o := `"zKeyOrder":[` + strings.Join(ord, ",") + "]"
		i := t.Intn(len(mem) + 1)
		mem = append(mem[:i:i], append([]string{o}, mem[i:]...)...)
	}
	c.op(fmt.Sprintf("(def %s (unjson (raw %s)))", v, strconv.Quote("{"+strings.Join(mem, ",")+"}")), false)
	r := c.eval("(keys " + v + ")")
	m := &hmodel{typ: "hash"}
	for _, k := range strings.Fields(strings.Trim(r.Dump, "[]")) {
		n := strings.TrimPrefix(k, "'")
		val, have := vals[n]
		if !have || m.find(symKey(n)) >= 0 {
			c.fail("key-list", "the keys of the hash decoded from {%s} are %s", strings.Join(mem, ","), r)
		}
		m.set(symKey(n), hval{val, val, val, "int64"})
	}
	if len(m.ents) != len(vals) {
		c.fail("key-list", "the keys of the hash decoded from {%s} are %s", strings.Join(mem, ","), r)
	}
	c.model[v] = m
	t.Probe("foreign-text")
}

func (c *c14) create(v string) {
	t := c.t
	if m := c.model[v]; m != nil && m.typ != "hash" {
		return
	}
	m := &hmodel{typ: "hash"}
	var b strings.Builder
	n := t.Intn(4)
	if t.Chance(1, 10) {
		n = t.Range(4, 24)
		t.Probe("many-keys")
	}
	style := t.Intn(3)
	if style == 1 && n == 0 {
		style = 0
	}
	for i := 0; i < n; i++ {
		k, val := c.key(), c.val(0)
		if style == 1 && k.kind != "string" && k.kind != "symbol" {
			k = symKey("lit" + strconv.Itoa(i))
		}
		if style == 1 || style == 2 && k.kind == "symbol" {
			fmt.Fprintf(&b, " %s:%s", k.show, val.src)
		} else {
			fmt.Fprintf(&b, " %s %s", k.src, val.src)
		}
		m.set(k, val)
	}
	switch style {
	case 1:
		c.op(fmt.Sprintf("(def %s {%s})", v, strings.TrimSpace(b.String())), false)
	default:
		c.op(fmt.Sprintf("(def %s (hash%s))", v, b.String()), false)
	}
	c.model[v] = m
}

func (c *c14) lookup(v string, m *hmodel) {
	t := c.t
	k := c.anyKey(m)
	i := m.find(k)
	var r Res
	route := t.Intn(6)
	if k.kind != "symbol" || k.sym == "q?" {
		if route == 3 || route == 4 {
			route = 0
		}
	}
	switch route {
	case 0, 1:
		r = c.eval(fmt.Sprintf("(hget %s %s)", v, c.keySrc(k)))
	case 2:
		r = c.eval(fmt.Sprintf("(hget %s %s -77)", v, c.keySrc(k)))
		if i < 0 {
			if r.Dump != "-77" {
				c.fail("default", "(hget %s %s -77) of a missing key gave %s", v, k.src, r)
			}
			return
		}
	case 3:
		r = c.eval(fmt.Sprintf("(:%s %s)", k.sym, v))
	case 4:
		r = c.eval(fmt.Sprintf("(note %s.%s)", v, k.sym))
		if r.Kind() == "value" {
			r = c.eval(fmt.Sprintf("(list %s.%s 1)", v, k.sym))
			// a dotted symbol stands for its value
			r = c.eval(fmt.Sprintf("(first (map (fn [x] x) [(hget %s %s)]))", v, k.src))
		}
	default:
		if i >= 0 && m.ents[i].v.kind == "int64" {
			q := c.eval(fmt.Sprintf("(== {%s[%s]} %s)", v, k.src, m.ents[i].v.src))
			if q.Dump != "true" {
				c.fail("lookup", "{%s[%s]} is not %s: %s", v, k.src, m.ents[i].v.src, q)
			}
			return
		}
		r = c.eval(fmt.Sprintf("(hget %s %s)", v, k.src))
	}
	if i < 0 {
		if r.Kind() != "error" {
			c.fail("lookup", "lookup of missing key %s in %s gave %s", k.src, v, r)
		}
		return
	}
	if r.Dump != m.ents[i].v.dump {
		c.fail("lookup", "key %s of %s is %s, not %s", k.src, v, r, m.ents[i].v.dump)
	}
}

func (c *c14) want(what, v string, r Res, exp string) {
	if r.Kind() != "value" || r.Dump != exp {
		c.fail(what, "%s of %s is %s, want %s", what, v, r, exp)
	}
}

// check compares v with its model through the observers.
func (c *c14) check(v string, m *hmodel, all bool) {
	t := c.t
	n := len(m.ents)
	do := func() bool { return all || t.Chance(1, 3) }
	if do() {
		c.want("length", v, c.eval("(len "+v+")"), strconv.Itoa(n))
	}
	if do() {
		c.want("emptiness", v, c.eval("(empty? "+v+")"), strconv.FormatBool(n == 0))
	}
	if do() {
		var ks []string
		for _, e := range m.ents {
			ks = append(ks, e.k.dump)
		}
		c.want("key-list", v, c.eval("(keys "+v+")"), "["+strings.Join(ks, " ")+"]")
	}
	if do() {
		for i, e := range m.ents {
			c.want("positional-access", v, c.eval(fmt.Sprintf("(hpair %s %d)", v, i)), "("+e.k.dump+" "+e.v.dump+")")
		}
		for _, i := range []int{-1, n, n + 1} {
			if r := c.eval(fmt.Sprintf("(hpair %s %d)", v, i)); r.Kind() != "error" {
				c.fail("positional-access", "(hpair %s %d) with %d keys gave %s", v, i, n, r)
			}
		}
	}
	if do() {
		var ps []string
		for _, e := range m.ents {
			ps = append(ps, e.k.show+":"+e.v.show)
		}
		exp := "{" + strings.Join(ps, " ") + "}"
		if m.typ != "hash" {
			exp = "(" + m.typ + " " + strings.Join(ps, " ") + ")"
		}
		r := c.eval("(str " + v + ")")
		got, _ := strconv.Unquote(r.Dump)
		got = strings.TrimSpace(got)
		if r.Kind() != "value" || got != exp {
			c.fail("printed-form", "(str %s) is %s, want %s", v, r, exp)
		}
	}
	if do() {
		c.ranges(v, m)
	}
	if do() {
		c.encodings(v, m)
	}
	if do() {
		for _, e := range m.ents {
			c.want("lookup", v, c.eval(fmt.Sprintf("(hget %s %s)", v, e.k.src)), e.v.dump)
		}
		for _, k := range c.keys {
			if m.find(k) < 0 && m.typ == "hash" {
				c.want("missing-key", v, c.eval(fmt.Sprintf("(hget %s %s -99)", v, k.src)), "-99")
			}
		}
	}
	if do() {
		// host-side view
		h := c.goVal(v).(*zygo.SexpHash)
		for i, e := range m.ents {
			p, err := h.HashPairi(i)
			if err != nil || Dump(p.Head) != e.k.dump {
				c.fail("positional-access", "HashPairi(%d) of %s gave %v, %v", i, v, p, err)
			}
		}
		if zygo.HashIsEmpty(h) != (n == 0) {
			c.fail("emptiness", "HashIsEmpty(%s) is wrong", v)
		}
	}
}

func (c *c14) ranges(v string, m *hmodel) {
	t := c.t
	form := t.Intn(4)
	src := []string{"{for kk, vv := range %s { (note kk vv) }}", "(range kk vv %s (note kk vv))",
		"{for kk := range %s { (note kk) }}", "(let [kk nil vv nil] {for kk, vv = range %s { (note kk vv) }})"}[form]
	c.log = nil
	r := c.eval(fmt.Sprintf(src, v))
	// loop variables obey the typing rule of variables: an element of
	// another type than the one before ends the loop with an error.
	var exp []string
	hetero := false
	typed := func(k string) string {
		if k == "nil" {
			return ""
		}
		return k
	}
	lastK, lastV := "", ""
	for _, e := range m.ents {
		k, vv := typed(e.k.kind), typed(e.v.kind)
		if k == "array" || k == "hash" || vv == "array" || vv == "hash" {
			hetero = true
		}
		if lastK != "" && k != lastK || form != 2 && lastV != "" && vv != lastV {
			hetero = true
		}
		lastK, lastV = k, vv
		if form == 2 {
			exp = append(exp, e.k.dump)
		} else {
			exp = append(exp, e.k.dump+" "+e.v.dump)
		}
	}
	got := c.log
	c.log = nil
	if r.Kind() == "error" && hetero && strings.Contains(r.ErrTxt, "cannot assign") {
		if len(got) > len(exp) {
			c.fail("range", "range over %s visited %q, keys are %q", v, got, exp)
		}
		exp = exp[:len(got)]
		t.Probe("range-typed-stop")
	} else if r.Kind() != "value" {
		c.fail("range", "%s gave %s", fmt.Sprintf(src, v), r)
	}
	if strings.Join(got, "\n") != strings.Join(exp, "\n") {
		c.fail("range", "%s visited %q, want %q", fmt.Sprintf(src, v), got, exp)
	}
}

func (c *c14) encodings(v string, m *hmodel) {
	names := map[string]bool{}
	jsonable := true
	for _, e := range m.ents {
		if e.k.kind == "array" || e.k.kind == "char" || names[e.k.name] || e.v.kind == "nil" || e.v.kind == "string" && e.v.dump == `"é"` || e.v.kind == "hash" {
			jsonable = false
		}
		names[e.k.name] = true
	}
	if jsonable {
		r := c.eval("(raw2str (json " + v + "))")
		txt, err := strconv.Unquote(r.Dump)
		if r.Kind() != "value" || err != nil {
			c.fail("json", "(json %s) gave %s", v, r)
		}
		got, err := jsonPairs(txt)
		if err != nil {
			c.fail("json", "(json %s) is not well-formed: %v: %s", v, err, txt)
		}
		exp := []string{`"Atype"=` + strconv.Quote(m.typ)}
		var order []string
		for _, e := range m.ents {
			exp = append(exp, strconv.Quote(e.k.name)+"="+jsonVal(e.v))
			b, _ := json.Marshal(e.k.name)
			order = append(order, string(b))
		}
		if len(order) > 0 {
			exp = append(exp, `"zKeyOrder"=[`+strings.Join(order, ",")+"]")
		}
		if strings.Join(got, "\n") != strings.Join(exp, "\n") {
			c.fail("json", "(json %s) holds %q, want %q", v, got, exp)
		}
		c.t.Probe("json")
	}
	if c.encodable(m) {
		for _, enc := range []string{"(unmsgpack (msgpack %s))", "(unjson (json %s))"} {
			r := c.eval(fmt.Sprintf(enc, v))
			var ps []string
			for _, e := range m.ents {
				ps = append(ps, " '"+e.k.name+":"+e.v.dump)
			}
			c.want(enc[4:8]+"-round-trip", v, r, "{"+m.typ+strings.Join(ps, "")+"}")
		}
		c.t.Probe("encoded")
	}
}

func jsonVal(v hval) string {
	if v.kind == "array" {
		return strings.ReplaceAll(v.dump, " ", ",")
	}
	return v.dump
}

// jsonPairs decodes a JSON object strictly, keeping the order and
// duplicates of its members.
func jsonPairs(s string) ([]string, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	if tok != json.Delim('{') {
		return nil, errors.New("not an object")
	}
	var r []string
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			return nil, err
		}
		var b bytes.Buffer
		if err := json.Compact(&b, raw); err != nil {
			return nil, err
		}
		r = append(r, strconv.Quote(k.(string))+"="+b.String())
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("trailing text")
	}
	return r, nil
}

func c14Run(records bool) func(t *core.T) {
	return func(t *core.T) {
		findCollisions()
		c := &c14{t: t, model: map[string]*hmodel{}, rec: records}
		c.env = zygo.NewZlisp()
		defer c.env.Close()
		c.env.StandardSetup()
		c.addHost()
		SetBudget(5_000_000, 5_000_000)
		c.eval("(defn set9 [hh kk vv] (hset hh kk vv))")
		c.eval("(defn mk [] {a:1 \"s\":2})")
		if records {
			c.eval("(struct Rec [(field fa: int64) (field fb: int64) (field fc: int64) (field fd: int64)])")
			c.keys = []hkey{symKey("fa"), symKey("fb"), symKey("fc"), symKey("fd")}
			c.vars = []string{"r0", "r1", "r2"}
			for _, v := range c.vars {
				m := &hmodel{typ: "Rec"}
				src := "(Rec"
				for _, k := range c.keys {
					if t.Bool() {
						n := strconv.Itoa(t.Intn(100))
						src += " " + k.sym + ":" + n
						m.set(k, hval{n, n, n, "int64"})
					}
				}
				c.op(fmt.Sprintf("(def %s %s))", v, src), false)
				c.model[v] = m
			}
		} else {
			c.makeKeys()
			c.vars = []string{"h0", "h1", "h2"}[:t.Range(1, 3)]
			c.create("h0")
		}
		n := t.Many(1, 60, 18, func(i int) {
			if records {
				c.recStep()
			} else {
				c.step()
			}
			for _, v := range c.vars {
				if c.model[v] != nil && t.Chance(1, 2) {
					c.check(v, c.model[v], false)
				}
			}
			var st strings.Builder
			for _, v := range c.vars {
				if m := c.model[v]; m != nil {
					for _, e := range m.ents {
						st.WriteString(e.k.canon + ",")
					}
					st.WriteString("|")
				}
			}
			t.State(st.String())
		})
		for _, v := range c.vars {
			if c.model[v] != nil {
				c.check(v, c.model[v], true)
			}
		}
		if n >= 3 {
			t.NonTrivial()
		}
		t.Sample(strings.Join(c.hist, " ; "))
	}
}

func (c *c14) recStep() {
	t := c.t
	v := c.vars[t.Intn(len(c.vars))]
	m := c.model[v]
	k := c.anyKey(m)
	num := strconv.Itoa(t.Intn(100))
	val := hval{num, num, num, "int64"}
	switch t.Pick(6, 4, 4, 2, 2, 2) {
	case 0:
		f := []string{"(hset %[1]s %[2]s: %[3]s)", "{%[1]s.%[2]s = %[3]s}", "(set9 %[1]s (quote %[2]s) %[3]s)", "{%[1]s[(quote %[2]s)] = %[3]s}"}[t.Intn(4)]
		c.op(fmt.Sprintf(f, v, k.sym, num), false)
		m.set(k, val)
	case 1:
		c.op(fmt.Sprintf("(hdel %s %s)", v, c.keySrc(k)), false)
		m.del(k)
	case 2:
		w := c.vars[t.Intn(len(c.vars))]
		c.op(fmt.Sprintf("(derefSet (& %s) %s)", v, w), false)
		m.ents = c.model[w].clone().ents
		t.Probe("clone")
	case 3:
		t.Fault("refused-write")
		c.op(fmt.Sprintf([]string{"(hset %[1]s %[2]s: \"no\")", "{%[1]s.%[2]s = \"no\"}", "(hset %[1]s nosuch: 1)"}[t.Intn(3)], v, k.sym), true)
	case 4:
		w := c.vars[t.Intn(len(c.vars))]
		c.op(fmt.Sprintf("(def %s %s)", w, v), false)
		c.model[w] = m
		t.Probe("alias")
	default:
		c.lookup(v, m)
	}
}

func init() {
	p := &core.Property{
		ID: "C14", Level: "exploration",
		Rule: "A run is a seeded history of up to 60 operations (set, delete, alias, rebuild, clone through a pointer, encode and decode, look up, failing operations) on up to three hashes through every script route and the host API, with keys drawn to collide (equal hash codes, int/char, symbol numbers). " +
			"Each step is followed by observers compared with an ordered-map model. Non-trivial: at least three operations. Distinct: by event log. States: distinct key sequences of the hashes.",
		QuickRuns: 60000, ThorRuns: 1500000,
		Assumptions: []string{
			"a range loop whose variables would change type may end with the language's own \"cannot assign\" error; what it visited before that must be right",
			"hashes are not modified while a range loop is walking them, and arrays used as keys are not modified",
			"JSON and msgpack contents are compared for the value kinds whose encoding C14 depends on; numbers, strings and nil as such are C11's",
		},
		Components: map[string]interface{}{
			"real":      []string{"zygo interpreter: parser, generator, VM, hashutils, jsonmsgp, infix assignment, range lowering"},
			"simulated": []string{"host functions boom and note", "Go map iteration order and hash seeds", "the order and routes of operations"},
		},
	}
	p.Scenarios = []*core.Scenario{
		{Prop: "C14", Name: "hashes", Weight: 4, Run: c14Run(false)},
		{Prop: "C14", Name: "records", Weight: 1, Run: c14Run(true)},
	}
	core.Register(p)
}
