package props

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// Routes: packages whose every value is a marker that occurs nowhere
// else, and every way the language has to use a path. What a program
// outside sees may not contain the marker of a private member, nor may
// that member change; public members and code inside keep working.

type rmKind int

const (
	rmInt rmKind = iota
	rmStr
	rmArr
	rmHash
	rmFn
	rmPkg
)

type rmember struct {
	name string
	kind rmKind
	n    int64      // int and fn: its value; str: in its text; arr: the first element
	kids []*rmember // pkg: members; hash: keys
}

func (m *rmember) value() string {
	switch m.kind {
	case rmStr:
		return fmt.Sprintf("\"s%d\"", m.n)
	case rmArr:
		return fmt.Sprintf("[%d 1]", m.n)
	}
	return fmt.Sprint(m.n)
}

// dump is the member as Dump writes it.
func (m *rmember) dump() string {
	switch m.kind {
	case rmHash:
		s := "{hash"
		for _, k := range m.kids {
			s += " '" + k.name + ":" + k.dump()
		}
		return s + "}"
	case rmFn:
		return "<fn>"
	case rmPkg:
		return "<pkg>"
	}
	return m.value()
}

type routes struct {
	t     *core.T
	env   *zygo.Zlisp
	next  int64
	id    int
	roots []*rmember // variables of the top level that hold packages, hashes of packages
	hist  []string
	seen  []string // what host functions were given
}

func (r *routes) fail(class, format string, a ...interface{}) {
	r.t.Failf(class, "%s\ntexts:\n%s", fmt.Sprintf(format, a...), strings.Join(r.hist, "\n"))
}

func (r *routes) marker() int64 { r.next++; return 70000000 + r.next*37 }

var rmFirst = []string{"A", "a", "Z", "z", "É", "é", "_", "Ω", "ω", "日", "Ж", "ж", "ß"}

func (r *routes) fresh() string {
	r.id++
	f := rmFirst[r.t.Pick(4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
	return f + []string{"m", "M", "_x"}[r.t.Intn(3)] + fmt.Sprint(r.id)
}

// member makes a member and the text that defines it.
func (r *routes) member(depth int, b *strings.Builder) *rmember {
	m := &rmember{name: r.fresh(), kind: rmKind(r.t.Pick(4, 1, 2, 2, 2, 4))}
	if m.kind == rmPkg && depth == 0 {
		m.kind = rmInt
	}
	switch m.kind {
	case rmFn:
		// gives a value that nothing but a call gives
		m.n = r.marker()
		if r.t.Bool() {
			fmt.Fprintf(b, " (defn %s [& r] %d)", m.name, m.n)
		} else {
			fmt.Fprintf(b, " (def %s (fn [& r] %d))", m.name, m.n)
		}
	default:
		fmt.Fprintf(b, " (def %s %s)", m.name, r.literal(m, depth))
	}
	return m
}

func (r *routes) literal(m *rmember, depth int) string {
	switch m.kind {
	case rmPkg:
		return r.pkg(m, depth-1)
	case rmHash:
		var b strings.Builder
		b.WriteString("(hash")
		for n := r.t.Range(1, 3); n > 0; n-- {
			k := &rmember{name: r.fresh(), kind: []rmKind{rmInt, rmStr, rmArr, rmHash, rmPkg}[r.t.Pick(4, 1, 1, 1, 1)]}
			if depth == 0 && k.kind >= rmHash {
				k.kind = rmInt
			}
			fmt.Fprintf(&b, " %s: %s", k.name, r.literal(k, depth-1))
			m.kids = append(m.kids, k)
		}
		return b.String() + ")"
	}
	m.n = r.marker()
	return m.value()
}

// pkg makes the members of m and gives the text of the package.
func (r *routes) pkg(m *rmember, depth int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(package \"%s\"", []string{"pk", "Pk", "other"}[r.t.Intn(3)])
	for n := r.t.Range(1, 4); n > 0; n-- {
		k := r.member(depth, &b)
		m.kids = append(m.kids, k)
		if k.kind == rmInt {
			// code inside has full access
			fmt.Fprintf(&b, " (defn Get%s [] %s) (defn Put%s [v] (set %s v))", k.name, k.name, k.name, k.name)
		}
	}
	b.WriteString(")")
	return b.String()
}

// rpath is a way to a member.
type rpath struct {
	text   string
	m      *rmember
	owner  string // path of the package that holds m
	inPkg  bool   // the last step is out of a package
	hidden bool   // reading must be refused
	noset  bool   // assigning must be refused
}

// pick walks from a root to some member.
func (r *routes) pick() *rpath {
	t := r.t
	for try := 0; try < 8; try++ {
		m := r.roots[t.Intn(len(r.roots))]
		p := &rpath{text: m.name, m: m}
		for depth := 0; depth < 6; depth++ {
			if m.kind != rmPkg && m.kind != rmHash || len(m.kids) == 0 {
				break
			}
			if depth > 1 && t.Intn(4) == 0 {
				break
			}
			k := m.kids[t.Intn(len(m.kids))]
			p.inPkg = m.kind == rmPkg
			if p.inPkg {
				p.owner = p.text
				// a hash that was passed has had to be public
			}
			p.text += "." + k.name
			if p.inPkg && !public(k.name) {
				p.noset = true
				if k.kind != rmPkg {
					p.hidden = true
				}
			} else {
				p.noset = p.hidden
			}
			m = k
			p.m = m
			if p.inPkg && k.kind != rmPkg && k.kind != rmHash {
				break
			}
		}
		if p.m != nil && strings.Contains(p.text, ".") && p.m.kind != rmPkg {
			return p
		}
	}
	return nil
}

// What may be written with a path @ (a value V). Public members of that
// kind give their value, or take V.
var rmReads = map[rmKind][]string{
	rmInt: {"(+ @ 0)", "{@ + 0}", "{0 + @}", "(let [x @] x)", "((fn [x] x) @)", "(letseq [y 1 x @] x)", "(begin (def vv @) vv)",
		"(- @ 0)", "(* 1 @)", "((fn [x & z] x) @ 2)", "(begin {vv = @} vv)", "(begin (set vv @) vv)", "(let [f (fn [x] x)] (f @))", "((fn [x] (+ x 0)) @)"},
	rmStr: {"(let [x @] x)", "((fn [x] x) @)", "(begin (def vs @) vs)"},
	rmArr: {"(let [x @] x)", "{@[0] + 0}", "((fn [x] (aget x 0)) @)", "(begin (def va @) va)"},
	rmFn:  {"(@)", "(@ 1)", "(let [x @] (x 1))", "((fn [x] (x)) @)", "(begin (def vf @) (vf))"},
}

var rmWrites = map[rmKind][]string{
	rmInt: {"(set @ V)", "{@ = V}", "{@ := V}", "(begin {@ = V} 1)"},
	rmStr: {"(set @ \"sV\")", "{@ = \"sV\"}"},
	rmArr: {"{@[0] = V}", "(set @ [V 1])", "(let [x @] (aset x 0 V))"},
}

// Anything else: what comes of these with a public member is left open,
// but they may not reach a private one.
var rmOther = []string{
	"(& @)", "(* (& @))", "(derefSet (& @) V)", "(deref (& @))", "(defined? @)", "(type? @)", "(str @)", "(len @)", "(apply @ [])", "(apply @ [1])", "(map @ [1 2])",
	"(aset @ 0 V)", "(aget @ 0)", "(hset @ k: V)", "(hget @ k:)", "(hdel @ k:)", "(hpair @ 0)", "(eval (quote @))", "(eval @)", "{@++}", "{@--}", "{@ += V}", "{@ -= V}",
	"(list @)", "[@]", "(array @)", "(hash a: @)", "(cond @ 1 2)", "(cond true @ 2)", "(or @ 3)", "(and @ 3)", "(begin @)", "(newScope @)", "(return @)",
	"((fn [] @))", "((fn [] (return @)))", "(json @)", "(msgpack @)", "{x, y = @, 2}", "{@, y = V, 2}", "(for [(def i 0) (< i 1) (set i (+ i 1))] (println @))",
	"(range k v @ (println k v))", "{for k, v = range @ { println(v) }}", "(println @)", "(print @)", "(printf \"%v\" @)", "(sprintf \"%v\" @)", "(assert (== @ V))", "(== @ V)", "(< @ V)",
	"(append @ V)", "(concat @ [3])", "(slice @ 0 1)", "(first @)", "(second @)", "(rest @)", "(cons @ 1)", "(cons 1 @)", "(flatten @)", "(copy @)", "(arrayidx @ [0])", "(set (arrayidx @ [0]) V)",
	"(hashidx @ [%k])", "(set (hashidx @ [%k]) V)", "{@[0]}", "{@[0] = V}", "{@[%k]}", "{@[%k] = V}", "{@.k}", "{@.k = V}", "(set @.k V)", "(+ @.k 0)", "(sym2str @)", "(str2sym @)", "(symnum @)", "(force @)",
	"((fn [#z] (force #z)) @)", "((fn [#z] (+ 0 (force #z))) @)", "(substitute @)", "((fn [#z] (eval (substitute #z))) @)",
	"(togo @)", "(macexpand (+ @ 1))", "(syntaxQuote (+ (unquote @) 1))", "(eval (syntaxQuote (+ (unquote @) 1)))", "(syntaxQuote (unquote-splicing @))",
	"(bitAnd @ -1)", "(bitNot @)", "(not @)", "(- @)", "(- @ 1)", "(/ @ 1)", "(mod @ 99999999999)", "(** @ 1)", "(sll @ 1)", "(.@)", "{.@}", "(: k @)", "(:k @)", "(-> @ k:)",
	"(quote @)", "%@", "(mdef x y @)", "(mdef x y (list @ 1))", "(read @)", "(keys @)", "(nsplit @)", "(split @ \"s\")", "(trim @)", "(chomp @)", "(raw @)", "(raw2str @)", "(gob @)", "(methodls @)", "(fieldls @)",
	"(_closdump @)", "(struct S [(field a: @)])", "(typelist @)", "(appendslice @ [V])", "(makeArray @ 1)", "(expectError \"x\" @)", "(expectError \"x\" (+ @ 1))", "(quotelist @)", "(stop @)", "(send @ V)", "(<! @)",
	"(number? @)", "(string? @)", "(array? @)", "(hash? @)", "(func? @)", "(symbol? @)", "(nil? @)", "(empty? @)", "(zero? @)", "(list? @)", "(null? @)",
	"(hx @)", "(hcall1 @)", "(begin (var w @))", "(defn zed [] @)", "(begin (defn zed [] (+ @ 0)) (zed))", "(begin (defn zed [] (@)) (zed))", "(begin (func zed [] [int64] (return @)) (zed))",
	"(fmt.Println @)", "(hash @ 1)", "(eval \"@\")", "(eval (read \"(+ @ 0)\"))", "(eval (first (list (quote @))))", "(eval (list (quote +) (quote @) 0))", "(eval (list (quote set) (quote @) V))", "(eval (cons (quote @) ()))",
	"(str2sym \"@\")", "(eval (str2sym \"@\"))", "(eval (list (quote set) (str2sym \"@\") V))", "(eval (list (quote +) (str2sym \"@\") 0))", "(eval (list (str2sym \"@\")))", "(begin (def sy (quote @)) (+ sy 0))", "(begin (def sy (quote @)) (sy))", "(begin (def sy (quote @)) (set sy V))", "(let [sy (quote @)] (+ sy 0))",
	"((quote @))", "(apply + [@ 0])", "(apply + (list (quote @) 0))", "(map (fn [x] (+ x 0)) [@])", "(map (fn [x] x) (list (quote @)))", "(hcall2 (fn [x] (+ x 0)))",
	"(def @ V)", "(defn @ [] V)", "(var @ int64)", "(mdef @ x (list V 6))", "(defmac @ [] V)", "(set @ V)", "{@ = V}", "{@ := V}", "(set @ [V])", "(set @ (package \"q\" (def A V)))", "(+ @ 0)", "(@)", "{@()}", "(let [x @] x)", "((fn [x] x) @)",
}

func (r *routes) wrap(e string) string {
	t := r.t
	r.id++
	n := r.id
	switch t.Pick(6, 2, 2, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		return e
	case 1:
		return "(hx " + e + ")"
	case 2:
		return "((fn [] " + e + "))"
	case 3:
		return "(let [zz 1] " + e + ")"
	case 4:
		return "(newScope " + e + ")"
	case 5:
		return "(cond true " + e + " 0)"
	case 6:
		// code inside another package is outside this one
		return fmt.Sprintf("(begin (def Sib%d (package \"pk\" (defn Try [] %s))) (Sib%d.Try))", n, e, n)
	case 7:
		return fmt.Sprintf("(let [zq (package \"pk\" (def Res %s))] zq.Res)", e)
	case 8:
		return "(eval (quote " + e + "))"
	case 9:
		return fmt.Sprintf("(begin (defmac mm%d [e] (syntaxQuote (unquote e))) (mm%d %s))", n, n, e)
	case 10:
		return fmt.Sprintf("((fn [#z] (force #z)) %s)", e)
	case 11:
		return fmt.Sprintf("(for [(def ii 0) (< ii 1) (set ii (+ ii 1))] (hx %s))", e)
	case 12:
		return fmt.Sprintf("(begin (def ff%d (fn [] %s)) (ff%d))", n, e, n)
	default:
		return fmt.Sprintf("(first (list %s))", e)
	}
}

func (r *routes) run(text string) (Res, string) {
	r.hist = append(r.hist, text)
	r.t.Logf("> %s", text)
	r.seen = nil
	SetBudget(60000, 60000)
	TakeOutput()
	res := Eval(r.env, text)
	if res.Val != nil {
		res.Dump = r.show(res.Val)
	}
	out := TakeOutput()
	r.t.Logf("%s %q %v", Scrub(res.String()), Scrub(out), r.seen)
	return res, out
}

// show is what the host can get out of a value.
func (r *routes) show(x zygo.Sexp) string {
	s := Dump(x)
	if sel, ok := x.(zygo.Selector); ok {
		if v := Call(func() (zygo.Sexp, error) { return sel.RHS(r.env) }); v.Val != nil {
			s += " -> " + Dump(v.Val)
		}
	}
	return s
}

// leaks says whether what a text gave holds the marker of m or of
// what is below it.
func (m *rmember) leaks(s string) bool {
	if m.n != 0 && strings.Contains(s, fmt.Sprint(m.n)) {
		return true
	}
	if m.kind == rmHash {
		for _, k := range m.kids {
			if k.leaks(s) {
				return true
			}
		}
	}
	return false
}

// check compares all members with the model.
func (r *routes) check(m *rmember, v zygo.Sexp, at string) {
	switch m.kind {
	case rmPkg:
		s, ok := v.(*zygo.Stack)
		if !ok || !s.IsPackage {
			r.fail("state", "%s is %s, expected a package", at, clip(Dump(v), 200))
		}
		names, vals := zygo.VerifMembers(s)
		have := map[string]zygo.Sexp{}
		for i, n := range names {
			have[n] = vals[i]
		}
		for _, k := range m.kids {
			x, ok := have[k.name]
			if !ok {
				r.fail("state", "%s.%s is gone", at, k.name)
			}
			r.check(k, x, at+"."+k.name)
		}
	case rmHash:
		h, ok := v.(*zygo.SexpHash)
		if !ok {
			r.fail("state", "%s is %s, expected a hash", at, clip(Dump(v), 200))
		}
		if len(h.KeyOrder) != len(m.kids) {
			r.fail("state", "%s has %d keys, expected %d", at, len(h.KeyOrder), len(m.kids))
		}
		for _, k := range m.kids {
			x, err := h.HashGet(r.env, r.env.MakeSymbol(k.name))
			if err != nil {
				r.fail("state", "%s.%s is gone", at, k.name)
			}
			r.check(k, x, at+"."+k.name)
		}
	default:
		if got := Dump(v); got != m.dump() {
			r.fail("state", "%s is %s, expected %s", at, clip(got, 200), m.dump())
		}
	}
}

func (r *routes) checkAll() {
	for _, m := range r.roots {
		v, ok := r.env.FindObject(m.name)
		if !ok {
			r.fail("state", "%s is not bound", m.name)
		}
		r.check(m, v, m.name)
	}
}

func (r *routes) must(text string) Res {
	res, _ := r.run(text)
	if res.Kind() != "value" {
		r.fail("refused", "%s gave %s", text, res)
	}
	return res
}

func (r *routes) root(text string, m *rmember) {
	r.roots = append(r.roots, m)
	r.must(fmt.Sprintf("(begin (def %s %s) 0)", m.name, text))
}

func runRoutes(t *core.T) {
	r := &routes{t: t}
	r.env = zygo.NewZlisp()
	defer r.env.Close()
	r.env.StandardSetup()
	see := func(a []zygo.Sexp) {
		for _, x := range a {
			r.seen = append(r.seen, r.show(x))
		}
	}
	r.env.AddFunction("hx", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		see(a)
		return a[len(a)-1], nil
	})
	r.env.AddFunction("hcall1", func(env *zygo.Zlisp, _ string, a []zygo.Sexp) (zygo.Sexp, error) {
		see(a)
		if f, ok := a[0].(*zygo.SexpFunction); ok {
			return env.Apply(f, nil)
		}
		return a[0], nil
	})
	for n := t.Range(1, 3); n > 0; n-- {
		r.id++
		m := &rmember{name: []string{"p", "P"}[t.Intn(2)] + fmt.Sprint(r.id), kind: []rmKind{rmPkg, rmHash}[t.Pick(4, 1)]}
		txt := ""
		if m.kind == rmPkg {
			txt = r.pkg(m, t.Range(0, 3))
		} else {
			txt = r.literal(m, t.Range(1, 3))
		}
		r.root(txt, m)
	}
	for n := t.Range(3, 25); n > 0; n-- {
		p := r.pick()
		if p == nil {
			continue
		}
		switch t.Pick(10, 6, 3, 3, 2) {
		case 0: // any use at all
			if !p.hidden {
				continue
			}
			e := rmOther[t.Intn(len(rmOther))]
			// use of a package value inside is not generated: it prints all its members
			r.attack(p, strings.ReplaceAll(strings.ReplaceAll(e, "@", p.text), "V", fmt.Sprint(r.marker())))
		case 1:
			rs := rmReads[p.m.kind]
			if len(rs) == 0 {
				continue
			}
			e := strings.ReplaceAll(rs[t.Intn(len(rs))], "@", p.text)
			if p.hidden {
				r.attack(p, e)
				continue
			}
			res, _ := r.run(r.wrap(e))
			t.NonTrivial()
			t.Probe("public read")
			if res.Kind() != "value" || !strings.Contains(res.Dump+strings.Join(r.seen, " "), fmt.Sprint(p.m.n)) {
				r.fail("public-read", "%s gave %s, expected %d", e, res, p.m.n)
			}
		case 2:
			ws := rmWrites[p.m.kind]
			if len(ws) == 0 {
				continue
			}
			v := r.marker()
			e := strings.ReplaceAll(strings.ReplaceAll(ws[t.Intn(len(ws))], "@", p.text), "V", fmt.Sprint(v))
			if p.hidden {
				r.attack(p, e)
				continue
			}
			r.must(e)
			t.NonTrivial()
			t.Probe("public write")
			p.m.n = v
		case 3: // from inside
			if p.m.kind != rmInt || !p.inPkg || r.sealed(p) {
				continue
			}
			t.NonTrivial()
			t.Probe("from inside")
			if t.Bool() {
				v := r.marker()
				r.must(fmt.Sprintf("(%s.Put%s %d)", p.owner, p.m.name, v))
				p.m.n = v
			}
			e := []string{"(@)", "(let [f @] (f))", "((fn [f] (f)) @)", "(hcall1 ((fn [x] x) @))"}[t.Intn(4)]
			e = strings.ReplaceAll(e, "@", p.owner+".Get"+p.m.name)
			res := r.must(e)
			if !strings.Contains(res.Dump, fmt.Sprint(p.m.n)) {
				r.fail("inside", "%s gave %s, expected %d", e, res, p.m.n)
			}
		case 4: // another name for a package on the way
			if p.owner == "" || r.sealed(p) {
				continue
			}
			o := r.find(p.owner)
			if o == nil || o.kind != rmPkg {
				continue
			}
			r.id++
			al := &rmember{name: fmt.Sprintf("al%d", r.id), kind: rmPkg, kids: o.kids}
			if t.Bool() {
				r.root(p.owner, al)
			} else {
				r.root(fmt.Sprintf("(let [zz %s] (hash k: zz))", p.owner), &rmember{name: al.name, kind: rmHash, kids: []*rmember{{name: "k", kind: rmPkg, kids: o.kids}}})
			}
			t.Probe("alias")
		}
		r.checkAll()
	}
	t.Sample(clip(strings.Join(r.hist, " ;; "), 1500))
}

// find follows a path in the model.
func (r *routes) find(path string) *rmember {
	parts := strings.Split(path, ".")
	var cur *rmember
	for i := len(r.roots) - 1; i >= 0; i-- {
		if r.roots[i].name == parts[0] {
			cur = r.roots[i]
			break
		}
	}
	for _, s := range parts[1:] {
		var nx *rmember
		if cur == nil {
			return nil
		}
		for _, k := range cur.kids {
			if k.name == s {
				nx = k
			}
		}
		cur = nx
	}
	return cur
}

// sealed says whether the package that holds the member cannot be
// reached: a private hash is on the way.
func (r *routes) sealed(p *rpath) bool {
	parts := strings.Split(p.owner, ".")
	for i := 2; i <= len(parts); i++ {
		m := r.find(strings.Join(parts[:i], "."))
		up := r.find(strings.Join(parts[:i-1], "."))
		if m == nil || up == nil {
			return true
		}
		if up.kind == rmPkg && m.kind == rmHash && !public(m.name) {
			return true
		}
	}
	return false
}

// attack uses a private path.
func (r *routes) attack(p *rpath, e string) {
	e = r.wrap(e)
	res, out := r.run(e)
	r.t.NonTrivial()
	r.t.Probe("private use")
	r.t.State(e)
	all := res.Dump + "\n" + res.ErrTxt + "\n" + res.Panic + "\n" + out + "\n" + strings.Join(r.seen, "\n")
	if p.m.leaks(all) {
		r.fail("private-read", "%s shows the private member %s: %s, output %s, host saw %v", e, p.text, res, clip(out, 300), r.seen)
	}
}
