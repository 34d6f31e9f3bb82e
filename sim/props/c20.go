package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C20: the same program, in a fresh interpreter each time, in two
// histories of one process: values, printed output, error texts and
// bindings have to be the same byte for byte.

// not to be called: they give random values, the time or addresses, or
// may wait for ever.
var c20Not = map[string]bool{
	"random": true, "now": true, "timeit": true, "millis": true,
	".ls": true, ".dump": true, "dump": true, ".closdump": true, "_dump": true, ".gls": true, "_gls": true, ".quit": true,
	"makeChan": true, "send": true, "<!": true,
}

var reAddr = regexp.MustCompile(`\b0x[0-9a-f]{7,}\b`)
var rePrints = regexp.MustCompile(`[&*]|_ls|ptr|pointer|sideeffect|Sideeffect`)

type c20text struct{ name, text string }

var c20corpus []c20text

func loadCorpus() {
	if c20corpus != nil {
		return
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "corpus.json"))
	if err != nil {
		panic(err)
	}
	var m [][2]string
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	for _, e := range m {
		if regexp.MustCompile(`\b(random|now|timeit|millis|makeChan|send)\b|<!|\.dump|\.ls|_ls|_closdump`).MatchString(e[1]) {
			continue
		}
		c20corpus = append(c20corpus, c20text{e[0], e[1]})
	}
	if len(c20corpus) < 40 {
		panic("corpus too small")
	}
}

// c20prog is a program: a configuration and texts.
type c20prog struct {
	fam   string
	conf  int
	texts []string
	steps int64
	host  *Plan
}

const c20Confs = 5

func (p *c20prog) confName() string {
	return []string{"NewZlisp, StandardSetup", "NewZlisp, StandardSetup, ImportDemoData", "NewZlispSandbox, StandardSetup", "NewZlisp", "NewZlisp, StandardSetup, Duplicate"}[p.conf]
}

func c20Env(conf int) *zygo.Zlisp {
	var env *zygo.Zlisp
	switch conf {
	case 0:
		env = zygo.NewZlisp()
		env.StandardSetup()
	case 1:
		env = zygo.NewZlisp()
		env.StandardSetup()
		env.ImportDemoData()
	case 2:
		env = zygo.NewZlispSandbox()
		env.StandardSetup()
	case 3:
		env = zygo.NewZlisp()
	default:
		env = zygo.NewZlisp()
		env.StandardSetup()
		env = env.Duplicate()
	}
	return env
}

// c20seen is what one text did.
type c20seen struct {
	kind, val, dump, err, out string
}

// run runs the program in a fresh interpreter.
func (p *c20prog) run(mapSeed uint64) (seen []c20seen) {
	core.SetMapSeed(mapSeed)
	w := &core.World{Err: syscall.ENOENT, Writes: []int{1, 2, int(outFile.Fd())}, Decoy: decoyPath}
	var env *zygo.Zlisp
	var h *Host
	w.Run(func() {
		env = c20Env(p.conf)
		if p.host != nil {
			h = newHost(p.host)
			h.defineSUT(env)
		}
	})
	TakeOutput()
	for _, text := range p.texts {
		var s c20seen
		SetBudget(p.steps, 200000)
		w.Run(func() {
			r := Call(func() (zygo.Sexp, error) { return env.EvalString(text) })
			s.kind = r.Kind()
			switch s.kind {
			case "value":
				s.dump = r.Dump
				q := Call(func() (zygo.Sexp, error) { s.val = r.Val.SexpString(nil); return zygo.SexpNull, nil })
				if q.Kind() != "value" {
					s.val = q.String()
				}
			case "error":
				s.err = r.Err.Error()
			case "panic":
				s.err = r.Panic
			case "budget":
				s.err = r.Budget
			}
		})
		s.out = TakeOutput()
		seen = append(seen, s)
		if s.kind == "budget" || s.kind == "panic" {
			break
		}
	}
	w.Run(func() {
		s := c20seen{kind: "end"}
		if h != nil {
			s.val = strings.Join(h.log, "\n")
		}
		s.dump = c20Globals(env)
		seen = append(seen, s)
		env.Close()
	})
	TakeOutput()
	SetBudget(1<<40, 1<<40)
	return
}

// c20Globals dumps what the short names are bound to.
func c20Globals(env *zygo.Zlisp) string {
	var b strings.Builder
	for _, n := range c20Names {
		v, ok := env.FindObject(n)
		if ok && v != nil {
			fmt.Fprintf(&b, "%s = %s\n", n, clip(Dump(v), 2000))
		}
	}
	return b.String()
}

var c20Names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "k", "m", "r", "s", "t", "w", "x", "y", "z", "r1", "r2", "r3", "i1", "i2", "i3", "a1", "a2", "h1", "h2", "s1", "f1", "p1", "v1", "v2", "v3", "v4"}

func (p *c20prog) mask(s string) string { return reAddr.ReplaceAllString(s, "ADDR") }

func (p *c20prog) same(t *core.T, how string, a, b []c20seen) {
	prints := false
	for _, x := range p.texts {
		prints = prints || rePrints.MatchString(x)
	}
	for i := range a {
		if i >= len(b) {
			p.fail(t, "length", how, i, "it ended early")
		}
		x, y := a[i], b[i]
		if prints {
			x.val, x.err, x.out, y.val, y.err, y.out = p.mask(x.val), p.mask(x.err), p.mask(x.out), p.mask(y.val), p.mask(y.err), p.mask(y.out)
		}
		for _, c := range []struct{ what, x, y string }{
			{"outcome", x.kind, y.kind}, {"error", x.err, y.err}, {"printed value", x.val, y.val}, {"value", x.dump, y.dump}, {"output", x.out, y.out},
		} {
			if c.x != c.y {
				j := 0
				for j < len(c.x) && j < len(c.y) && c.x[j] == c.y[j] {
					j++
				}
				from := j - 80
				if from < 0 {
					from = 0
				}
				p.fail(t, c.what, how, i, fmt.Sprintf("%s differs at byte %d: ...%q, then ...%q", c.what, j, clip(c.x[from:], 300), clip(c.y[from:], 300)))
			}
		}
	}
	if len(b) > len(a) {
		p.fail(t, "length", how, len(a), "it went on")
	}
}

func (p *c20prog) fail(t *core.T, class, how string, i int, msg string) {
	t.Failf(class, "the same program gave something else %s: text %d: %s\nconfiguration: %s, family: %s\ntexts:\n%s", how, i+1, Scrub(msg), p.confName(), p.fam, strings.Join(p.texts, "\n----\n"))
}

// ---- programs ----

type c20gen struct {
	t     *core.T
	names []string
	wild  *c08
}

func (c *c20gen) program() *c20prog {
	t := c.t
	p := &c20prog{steps: 30000}
	p.conf = t.Pick(5, 4, 2, 1, 2)
	switch t.Pick(5, 6, 8, 3, 5) {
	case 0:
		c.lang(p)
	case 1:
		c.wildly(p)
	case 2:
		c.records(p)
	case 3:
		c.corpus(p)
	default:
		c.shows(p)
	}
	return p
}

func (c *c20gen) lang(p *c20prog) {
	t := c.t
	p.fam = "language"
	cfgs := []genCfg{
		{pool: 2, size: 60, depth: 5, errNum: 6, host: true, scopey: true, typed: true, stray: 6},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, pkgs: true},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, lazy: true, calls: true},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, macros: true},
		{pool: 3, size: 60, depth: 2, errNum: 6, host: true, data: true},
		{pool: 2, size: 60, depth: 5, host: true, tail: true, exprBreak: true},
	}
	p.host = &Plan{seed: uint64(t.Intn(1 << 16))}
	pickActs(t, p.host, 1, 8)
	g := newGen(t, cfgs[t.Intn(len(cfgs))])
	lay := layout(t)
	if p.conf == 3 {
		p.conf = 0
	}
	t.Many(1, 5, 2, func(int) {
		g.left += 20
		p.texts = append(p.texts, Text(g.forms(t.Range(1, 4)), lay))
	})
	// and what it made, printed
	var ns []string
	for k := kind(0); k < nKinds; k++ {
		ns = append(ns, g.vis(k)...)
	}
	for _, n := range ns {
		if t.Intn(3) == 0 && !strings.HasPrefix(n, "#") {
			p.texts = append(p.texts, fmt.Sprintf("(println %s) (str %s)", n, n))
		}
	}
}

func (c *c20gen) wildly(p *c20prog) {
	t := c.t
	p.fam = "anything"
	p.steps = 20000
	for n := t.Range(1, 6); n > 0; n-- {
		p.texts = append(p.texts, c.statement())
	}
}

func (c *c20gen) statement() string {
	t := c.t
	for {
		n := c.wild.name()
		if c20Not[n] {
			continue
		}
		s := c.wild.route(n, c.wild.args(2))
		if t.Intn(4) == 0 {
			s = fmt.Sprintf("(def %s %s)", c20Names[t.Intn(14)], s)
		}
		if t.Intn(4) == 0 {
			s = "(println " + s + ")"
		}
		if !c20Calls(s) {
			return s
		}
	}
}

var reWord = regexp.MustCompile(`[A-Za-z_.<!][A-Za-z0-9_.<!]*`)

func c20Calls(s string) bool {
	for _, w := range reWord.FindAllString(s, -1) {
		if c20Not[w] {
			return true
		}
	}
	return false
}

func (c *c20gen) corpus(p *c20prog) {
	t := c.t
	e := c20corpus[t.Intn(len(c20corpus))]
	p.fam = "tests/" + e.name
	p.steps = 60000
	if p.conf == 3 {
		p.conf = 1
	}
	s := e.text
	for n := t.Pick(3, 2, 1, 1); n > 0 && len(s) > 0; n-- {
		p.fam += ", changed"
		i := t.Intn(len(s))
		j := i + 1 + t.Intn(8)
		if j > len(s) {
			j = len(s)
		}
		switch t.Intn(5) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:]
		case 2:
			s = s[:i] + []string{"(", ")", "[", "]", "{", "}", "'", "\"", " 7 ", " x ", ".", "~", "%", ":", "\x00", "é"}[t.Intn(16)] + s[i:]
		case 3: // another piece of it
			k := t.Intn(len(s))
			l := k + t.Intn(40)
			if l > len(s) {
				l = len(s)
			}
			s = s[:i] + s[k:l] + s[i:]
		default:
			s = s[:i]
		}
	}
	if c20Calls(s) {
		s = "1"
	}
	p.texts = append(p.texts, s)
}

// ---- records, structs, encodings ----

var c20Types = []string{"snoopy", "hornet", "hellcat", "plane", "weather", "persondemo", "eventdemo", "setOfPlanes", "nestouter", "nestinner", "Alpha", "Beta", "hash", "ranch", "Snoopy", "nosuch"}
var c20Fields = []string{"id", "speed", "chld", "friends", "cry", "pack", "carrying", "SpanCm", "spanCm", "Mass", "mass", "Nickname", "nickname", "time", "size", "type", "details", "first", "last", "user", "flight", "pilot", "cancelled", "flyers", "inner", "hello", "x", "Y", "plane", "Wings", "Zed"}
var c20Meths = []string{"Fly", "GetCry", "EchoWeather", "IsSunny", "DisplayEvent", "NoSuch", "fly"}

func (c *c20gen) of(l []string) string { return l[c.t.Intn(len(l))] }

func (c *c20gen) scalar() string {
	t := c.t
	switch t.Intn(9) {
	case 0:
		return strconv.Itoa(t.Intn(100) - 20)
	case 1:
		return `"` + c.of([]string{"", "a", "é", "x y", "sunny", "<b>", "\\n", "q\\\"q"}) + `"`
	case 2:
		return c.of([]string{"2.5", "1e300", "-0.0", "3.0"})
	case 3:
		return c.of([]string{"true", "false"})
	case 4:
		return "nil"
	case 5:
		return "%" + c.of([]string{"q", "sym", "a"})
	case 6:
		return "'" + c.of([]string{"c", "z", "é"}) + "'"
	case 7:
		return `(raw "abc")`
	default:
		return c.of([]string{"7ULL", "0x1f", "(fn [x] x)", "()", "r1", "r2", "r3", "a", "snoopy", "println"})
	}
}

func (c *c20gen) value(d int) string {
	t := c.t
	if d <= 0 {
		return c.scalar()
	}
	var b strings.Builder
	switch t.Intn(6) {
	case 0:
		b.WriteString("[")
		for n := t.Intn(4); n > 0; n-- {
			b.WriteString(c.value(d-1) + " ")
		}
		b.WriteString("]")
	case 1:
		b.WriteString("(list ")
		for n := t.Intn(4); n > 0; n-- {
			b.WriteString(c.value(d-1) + " ")
		}
		b.WriteString(")")
	case 2, 3, 4:
		return c.record(d - 1)
	default:
		return c.scalar()
	}
	return b.String()
}

// fitting is a value that may suit the field.
func (c *c20gen) fitting(f string, d int) string {
	t := c.t
	if t.Intn(6) == 0 {
		return c.value(d)
	}
	switch f {
	case "id", "speed", "SpanCm", "spanCm", "size", "x", "Y":
		return strconv.Itoa(t.Intn(1000))
	case "Mass", "mass":
		return "2.5"
	case "cry", "Nickname", "nickname", "type", "first", "last", "flight", "hello":
		return `"` + c.of([]string{"a", "b", "sunny", "é"}) + `"`
	case "cancelled":
		return "true"
	case "pack":
		return "[1 2 3]"
	case "pilot":
		return `["p" "q"]`
	case "details":
		return `(raw "xyz")`
	case "chld":
		return c.fixed([]string{"snoopy", "hornet", "hellcat"}, d-1)
	case "friends", "carrying", "flyers":
		s := "["
		for n := t.Intn(4); n > 0; n-- {
			s += c.fixed([]string{"snoopy", "hornet", "hellcat"}, d-1) + " "
		}
		return s + "]"
	case "user":
		return c.fixed([]string{"persondemo"}, d-1)
	case "inner":
		return c.fixed([]string{"nestinner"}, d-1)
	case "plane":
		return c.fixed([]string{"plane"}, d-1)
	}
	return c.value(d)
}

var c20FieldsOf = map[string][]string{
	"snoopy": {"cry", "pack", "carrying", "id", "speed", "chld", "friends", "SpanCm"}, "hornet": {"Mass", "Nickname", "id", "speed", "chld", "friends", "SpanCm"},
	"hellcat": {"id", "speed", "chld", "friends", "SpanCm"}, "plane": {"id", "speed", "chld", "friends", "SpanCm"}, "weather": {"size", "type", "details"},
	"persondemo": {"first", "last"}, "eventdemo": {"id", "user", "flight", "pilot", "cancelled"}, "setOfPlanes": {"flyers"},
	"nestouter": {"inner"}, "nestinner": {"hello"}, "Alpha": {"x", "Y", "Zed"}, "Beta": {"x", "Y"},
}

func (c *c20gen) fixed(tys []string, d int) string {
	if c.t.Intn(8) == 0 {
		return c.of([]string{"r1", "r2", "r3", "nil"})
	}
	return c.recordOf(c.of(tys), d)
}

func (c *c20gen) record(d int) string { return c.recordOf(c.of(c20Types), d) }

func (c *c20gen) recordOf(ty string, d int) string {
	t := c.t
	if d < 0 {
		return "(" + ty + ")"
	}
	fs := c20FieldsOf[ty]
	if len(fs) == 0 || t.Intn(10) == 0 {
		fs = c20Fields
	}
	s := "(" + ty
	n := t.Intn(5)
	if t.Intn(3) == 0 {
		n = len(fs)
	}
	k := t.Intn(len(fs))
	for i := 0; i < n; i++ {
		f := fs[(k+i)%len(fs)]
		s += " " + f + ":" + c.fitting(f, d)
	}
	return s + ")"
}

func (c *c20gen) recVar() string { return c.of([]string{"r1", "r2", "r3"}) }

func (c *c20gen) jsonText(d int) string {
	t := c.t
	switch t.Intn(7) {
	case 0, 1, 2:
		if d > 0 {
			var s []string
			n := t.Intn(6)
			if t.Intn(3) > 0 {
				s = append(s, `"Atype":"`+c.of(c20Types)+`"`)
			}
			for ; n > 0; n-- {
				s = append(s, strconv.Quote(c.of(c20Fields))+":"+c.jsonText(d-1))
			}
			if t.Intn(3) == 0 {
				s = append(s, `"zKeyOrder":["`+c.of(c20Fields)+`","`+c.of(c20Fields)+`"]`)
			}
			return "{" + strings.Join(s, ",") + "}"
		}
	case 3:
		if d > 0 {
			var s []string
			for n := t.Intn(4); n > 0; n-- {
				s = append(s, c.jsonText(d-1))
			}
			return "[" + strings.Join(s, ",") + "]"
		}
	}
	return c.of([]string{"1", "-2", "2.5", `"a"`, `"é"`, "true", "false", "null", "1e20", `"sunny"`, "{", "]", ""})
}

func (c *c20gen) declare() string {
	t := c.t
	n := c.of([]string{"Alpha", "Beta"})
	s := "(struct " + n + " ["
	for i, k := 0, 1+t.Intn(3); i < k; i++ {
		s += fmt.Sprintf("(field %s: %s e:%d) ", []string{"x", "Y", "Zed"}[i], c.of([]string{"int64", "string", "float64", "Alpha", "(* Alpha)", "([] Beta)", "Beta", "nosuch", "([]string)", "snoopy", "(* int64)"}), i)
	}
	return s + "])"
}

func (c *c20gen) recStep() string {
	t := c.t
	v := c.recVar()
	switch t.Intn(24) {
	case 0, 1, 2, 3:
		return "(def " + v + " " + c.record(2) + ")"
	case 4:
		return c.declare()
	case 5:
		return "(json " + v + ")"
	case 6:
		return "(togo " + v + ")"
	case 7, 8:
		a := ""
		for n := t.Intn(3); n > 0; n-- {
			a += " " + c.value(1)
		}
		m := c.of(c20Meths)
		switch m {
		case "Fly", "EchoWeather":
			if t.Intn(4) > 0 {
				a = " " + c.recordOf("weather", 1)
			}
		case "GetCry", "IsSunny":
			if t.Intn(4) > 0 {
				a = ""
			}
		case "DisplayEvent":
			a = ` "x"`
		}
		return "(_method " + v + " " + m + ":" + a + ")"
	case 9:
		return "(unjson (raw " + strconv.Quote(c.jsonText(3)) + "))"
	case 10:
		return "(unjson (json " + v + "))"
	case 11:
		return "(unmsgpack (msgpack " + v + "))"
	case 12:
		return "(msgpack " + v + ")"
	case 13:
		return "(str " + v + ")"
	case 14:
		return "(println " + v + ")"
	case 15:
		return "(fromgo " + v + ")"
	case 16:
		return "(hset " + v + " " + c.of(c20Fields) + ": " + c.value(1) + ")"
	case 17:
		return "(" + v + "." + c.of(c20Fields) + " = " + c.value(1) + ")"
	case 18:
		return "(" + c.of([]string{"keys", "hpair", "len", "type?", "fieldls", "methodls", "pretty", "_method", "hdel", "typelist", "json2", "greenpack", "sexpString", "gob", "deref", "&", "*", "asUint64", "flatten"}) + " " + v + c.of([]string{"", "", " 0", " x:"}) + ")"
	case 19:
		return "(defmap " + c.of([]string{"ranch", "Alpha", "hash", "nosuch"}) + ")"
	case 20:
		return fmt.Sprintf("(range k v %s (println k v))", v)
	case 21:
		return "(== " + v + " " + c.of([]string{"r1", "r2", c.record(1)}) + ")"
	case 22:
		return "(var " + c.of([]string{"v1", "v2"}) + " " + c.of([]string{"Alpha", "(* Alpha)", "([] Beta)", "snoopy", "int64", "nosuch", "(* snoopy)"}) + ")"
	default:
		return fmt.Sprintf("(def r3 (unjson (raw %s)))", strconv.Quote(c.jsonText(3)))
	}
}

func (c *c20gen) records(p *c20prog) {
	t := c.t
	p.fam = "records"
	if p.conf == 3 {
		p.conf = 1
	}
	p.texts = append(p.texts, "(def r1 "+c.record(3)+")", "(def r2 "+c.record(2)+")")
	if t.Bool() {
		p.texts = append([]string{c.declare()}, p.texts...)
	}
	for n := t.Range(1, 10); n > 0; n-- {
		p.texts = append(p.texts, c.recStep())
	}
}

// ---- what prints functions, scopes, packages, types ----

func (c *c20gen) shows(p *c20prog) {
	t := c.t
	p.fam = "printing"
	if t.Intn(3) > 0 {
		c.tangle(p)
	}
	for n := t.Range(1, 6); n > 0; n-- {
		v := c.of([]string{"v1", "v2", "v3", "v4"})
		w := c.of([]string{"v1", "v2", "v3", "v4"})
		switch t.Intn(20) {
		case 0:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (fn [x] (+ x %d)))", v, t.Intn(9)))
		case 1:
			p.texts = append(p.texts, fmt.Sprintf(`(def %s (package "pk" (def A %d) (def b %s) (defn F [x] (+ x b))))`, v, t.Intn(9), w))
		case 2:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (let [q %s z 3] (fn [] (list q z))))", v, w))
		case 3:
			p.texts = append(p.texts, "(println "+v+")")
		case 4:
			p.texts = append(p.texts, "(str "+v+")", v)
		case 5:
			p.texts = append(p.texts, fmt.Sprintf("(def %s [%s %s (hash a:%s)])", v, w, v, w))
		case 6:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (defn v3 [a b] %s))", v, w))
		case 7:
			p.texts = append(p.texts, fmt.Sprintf("(%s %s)", v, w))
		case 8:
			p.texts = append(p.texts, fmt.Sprintf("(+ %s %s)", v, w))
		case 9:
			p.texts = append(p.texts, fmt.Sprintf("(%s 1 2 3)", c.of([]string{"aget", "hget", "map", "apply", "first", "nth", "slice", "len", "append", "concat", "sget", "aset", "hset", "cons", "symnum", "joinsym", "gensym", "sort", "type?", "compare", "=="})))
		case 10:
			p.texts = append(p.texts, fmt.Sprintf("(%s %s %s)", c.of([]string{"aget", "hget", "map", "apply", "nth", "slice", "append", "concat", "sget", "cons", "symnum", "joinsym", "sort", "compare", "==", "<", "hdel", "isnan"}), v, w))
		case 11:
			p.texts = append(p.texts, fmt.Sprintf("(%s %s)", c.of([]string{"symnum", "gensym", "type?", "hpair", "keys", "macexpand", "quote", "eval", "read", "str", "len", "print", "printf", "pretty", "pp", "sexpString", "setpr", "debug", "undebug", "undef", "rmsym"}), v))
		case 12:
			p.texts = append(p.texts, fmt.Sprintf("(defmac v2 [x] (syntaxQuote (list (unquote x) %s)))", w), "(println v2)", "(macexpand (v2 (a b)))")
		case 13:
			p.texts = append(p.texts, fmt.Sprintf(`(printf "%%v %%#v %%T %%s %%q %%d\n" %s %s %s %s %s %s)`, v, v, v, w, w, w))
		case 14:
			p.texts = append(p.texts, fmt.Sprintf(`(sprintf "%%v %%+v %%x %%p" %s %s %s 7)`, v, w, v))
		case 15:
			p.texts = append(p.texts, fmt.Sprintf("(hash %s:1 %s:2)", c.of([]string{"a", "b"}), c.of([]string{"q", "r"})), fmt.Sprintf("(def %s (hash %s %s))", v, w, v))
		case 16:
			p.texts = append(p.texts, c.declare(), "(println "+c.of([]string{"Alpha", "Beta", "snoopy", "int64", "hash"})+")")
		case 17:
			p.texts = append(p.texts, fmt.Sprintf("{%s = %s + %d}", v, w, t.Intn(5)), fmt.Sprintf("{%s[%d] = %s}", v, t.Intn(3), w))
		case 18:
			p.texts = append(p.texts, c.of([]string{"(gensym)", `(symnum (quote abc))`, "(typelist)", "(methodls snoopy)", "(fieldls snoopy)", "(methodls (snoopy))", "(fieldls (hornet))", `(str2sym "zz")`, "(globals)", "(sym2str v1)"}))
		default:
			p.texts = append(p.texts, c.value(2))
		}
	}
}

// tangle makes packages, closures and containers that hold one another
// more than once, and shows them.
func (c *c20gen) tangle(p *c20prog) {
	t := c.t
	members := func() string {
		var b strings.Builder
		for _, m := range []string{"A", "b", "Cc", "d", "Ee"} {
			switch t.Intn(4) {
			case 0:
				fmt.Fprintf(&b, " (def %s %s)", m, c.of([]string{"v1", "v2", "v3", "v4"}))
			case 1:
				fmt.Fprintf(&b, " (def %s [%s %s])", m, c.of([]string{"v1", "v2", "v3", "v4"}), c.of([]string{"v1", "v2", "3"}))
			case 2:
				fmt.Fprintf(&b, " (def %s %d)", m, t.Intn(9))
			}
		}
		return b.String()
	}
	for i := 1; i <= 4; i++ {
		v := fmt.Sprintf("v%d", i)
		switch t.Intn(6) {
		case 0, 1, 2:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (package %q %s))", v, "pk"+v, members()))
		case 3:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (let [q %s z %d w %s] %s (fn [] (list q z w))))", v, c.of([]string{"v1", "v2", "v3", "1"}), t.Intn(9), c.of([]string{"v1", "v2", "v3", "1"}), members()))
		case 4:
			p.texts = append(p.texts, fmt.Sprintf("(def %s (hash b:%s a:%s))", v, c.of([]string{"v1", "v2", "v3", "1"}), c.of([]string{"v1", "v2", "v3", "1"})))
		default:
			p.texts = append(p.texts, fmt.Sprintf("(def %s %d)", v, t.Intn(9)))
		}
	}
	for n := t.Range(1, 4); n > 0; n-- {
		v := c.of([]string{"v1", "v2", "v3", "v4"})
		p.texts = append(p.texts, fmt.Sprintf(c.of([]string{"(println %s)", "(str %s)", "(_closdump %s)", "(printf \"%%v\\n\" %s)", "(list %[1]s %[1]s)", "((fn [x y] (_ls)) %s 1)", "(let [a 1 %[1]s %[1]s] (_ls))", "(json %s)", "(== %[1]s %[1]s)", "(+ 1 %s)", "%s.A", "(%s 1)"}), v))
	}
}

// ---- runs ----

// history dirties the process: other interpreters, other programs.
func (c *c20gen) history(t *core.T) {
	n := t.Range(0, 3)
	for i := 0; i < n; i++ {
		q := c.program()
		t.Fault("earlier interpreter")
		q.run(uint64(t.Intn(1 << 16)))
	}
	for i := t.Intn(4); i > 0; i-- {
		t.Fault("interpreter made before")
		core.SetMapSeed(uint64(i))
		c20Env(t.Intn(c20Confs))
	}
	TakeOutput()
}

var c20junk [][]byte

func runDeterminism(t *core.T) {
	setupWorld()
	loadCorpus()
	zygo.RegisterDemoStructs()
	w := &core.World{Err: syscall.ENOENT, Writes: []int{1, 2, int(outFile.Fd())}, Decoy: decoyPath}
	c := &c20gen{t: t}
	w.Run(func() {
		e := c20Env(1)
		e.Close()
		c.names = e.VerifNames()
	})
	restoreRegistry()
	zygo.RegisterDemoStructs()
	w.Run(func() { c20Env(1).Close() })
	TakeOutput()
	c.wild = &c08{t: t, names: c.names}
	p := c.program()
	s1, s2 := uint64(t.Intn(1<<30)), uint64(t.Intn(1<<30))
	// one call site, so that traces of the host's own calls agree
	var runs [2][]c20seen
	for i, s := range []uint64{s1, s2} {
		if i == 1 {
			c20junk = append(c20junk[:0], make([]byte, 1+t.Intn(1<<14)))
			c.history(t)
			t.Fault("map seed")
			if t.Intn(50) == 0 {
				runtime.GC()
				t.Fault("garbage collection")
			}
		}
		runs[i] = p.run(s)
	}
	p.same(t, "in another interpreter of the same process", runs[0], runs[1])
	for i, s := range runs[0] {
		if i < len(p.texts) {
			t.Logf("> %s", p.texts[i])
		}
		t.Logf("%s %s %s %s %s", s.kind, Scrub(p.mask(s.val)), Scrub(s.dump), Scrub(p.mask(s.err)), Scrub(p.mask(s.out)))
		t.Probe("text ends in " + s.kind)
		if s.kind == "value" {
			t.NonTrivial()
		}
	}
	t.Probe(strings.SplitN(p.fam, "/", 2)[0])
	t.State(p.confName() + strings.Join(p.texts, "\n"))
	t.Sample(clip(strings.Join(p.texts, " ;; "), 800))
}

func init() {
	core.Register(&core.Property{
		ID: "C20", Level: "exploration",
		Rule:      "A run is a seeded program (a configuration of the interpreter and one to ten texts) of one of five families: programs of the generators of the language properties with a simulated host that fails at seeded calls; calls of any name an interpreter knows with arguments of any kind by some thirty routes, in a simulated outside world that answers the same each time; records of the registered Go structs and of structs the script declares, their encodings, decodings of arbitrary JSON, conversions to Go structs and method calls; printing and formatting functions, closures, macros, packages and types, and errors about them; and the repository's own scripts, whole and mutated. It is executed in a fresh interpreter, and again in a fresh interpreter after a seeded history of the process (other interpreters made and other programs run, type registrations left behind, other allocations), with other Go map iteration orders and hash seeds. Outcome, value, printed value, standard output, full error text, host-call history and bindings have to be the same byte for byte. Every run is also repeated in another process, where the log has to be the same. Non-trivial: some text gave a value. Distinct: by event log. States: distinct programs.",
		QuickRuns: 40000, ThorRuns: 1500000,
		Assumptions: []string{
			"the explicit random, time and pointer-printing functions are left out: random, now, timeit, millis, and (with addresses masked) programs that make or print pointers",
			"the Go types the host registers are the same each time: registering one is the host's act, not an interpreter's",
		},
		Components: map[string]interface{}{
			"real":      []string{"the whole library: parser, generator, VM, all builtins, registry, encoders, decoders, conversions, printing"},
			"simulated": []string{"Go map iteration order and hash seeds", "the outside world: files, environment, processes (refuses everything, the same each time)", "host functions of the language programs"},
		},
		Scenarios: []*core.Scenario{{Prop: "C20", Name: "twice", Weight: 1, Run: runDeterminism}},
	})
}
