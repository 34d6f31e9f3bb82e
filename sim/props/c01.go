package props

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C01: whatever the text, by whatever way in, the host gets a value or an
// error. A run is a history of texts on interpreters; a panic that leaves
// the library, the end of the process and a call that does not return are
// the violations. (The process that simulates is watched from outside:
// see core/proc.go.)

type c01 struct {
	t      *core.T
	w      *core.World
	env    *zygo.Zlisp
	wild   *c08
	rec    *c20gen
	conf   int
	hist   []string
	fresh  bool // the interpreter is no longer to be used
	steps  int64
	files  []*os.File
	exit   bool // a text mentions a way to end the process
	host   *Plan
	entry  int // -1: any
	noLook bool
}

func newC01(t *core.T) *c01 {
	setupWorld()
	loadCorpus()
	c := &c01{t: t, steps: 20000, entry: -1}
	errs := []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.EMFILE}
	c.w = &core.World{Err: errs[t.Pick(4, 1, 1, 1)], Writes: []int{1, 2, int(outFile.Fd())}, Decoy: decoyPath}
	c.conf = t.Pick(4, 5, 2, 1, 1)
	c.wild = &c08{t: t}
	c.newEnv()
	c.wild.names = c.env.VerifNames()
	c.rec = &c20gen{t: t, wild: c.wild}
	t.Probe((&c20prog{conf: c.conf}).confName())
	return c
}

func (c *c01) newEnv() {
	SetBudget(1<<40, 1<<40)
	c.w.Run(func() { c.env = c20Env(c.conf) })
	if c.host != nil {
		h := newHost(c.host)
		h.defineSUT(c.env)
	}
	TakeOutput()
	c.fresh = false
}

func (c *c01) close() {
	SetBudget(1<<40, 1<<40)
	c.env.Close()
	for _, f := range c.files {
		f.Close()
	}
	SetBudget(1<<40, 1<<40)
}

// reFrame finds the function of the library a panic came from.
var reFrame = regexp.MustCompile(`(?m)^github\.com/glycerine/zygomys/v9/zygo\.([^\n]*)\([^\n()]*\)$`)

func panicWhere(stack string) string {
	// below the last re-panic by the runtime
	if i := strings.LastIndex(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	for _, m := range reFrame.FindAllStringSubmatch(stack, -1) {
		if n := m[1]; n != "panicOn" && !strings.HasPrefix(n, "verif") {
			return n
		}
	}
	return "?"
}

func (c *c01) fail(class, format string, a ...interface{}) {
	h := c.hist
	c.t.Failf(class, "%s\nconfiguration: %s\ncalls:\n%s", fmt.Sprintf(format, a...), (&c20prog{conf: c.conf}).confName(), strings.Join(h, "\n----\n"))
}

// call makes one call into the library and judges how it ends.
func (c *c01) call(what string, runes int64, f func() (zygo.Sexp, error)) Res {
	c.hist = append(c.hist, what)
	if len(c.hist) > 80 {
		c.hist = c.hist[len(c.hist)-80:]
	}
	c.t.Logf("> %s", clip(what, 3000))
	if mentionsExit(what) {
		c.exit = true
	}
	SetBudget(c.steps, runes)
	c.w.Exits, c.w.Events = nil, nil
	var r Res
	exited := false
	c.w.Run(func() {
		p, st := core.Guard(func() {
			r = callBare(f)
		})
		if p != nil {
			if _, ok := p.(core.Exited); ok {
				exited = true
				return
			}
			if budgetHit != "" {
				r.Budget = budgetHit
				return
			}
			r.Panic, r.Stack = Scrub(fmt.Sprint(p)), st
		}
	})
	TakeOutput()
	c.t.Logf("%s", r.Kind())
	if len(c.w.Exits) > 0 && !c.exit {
		c.fail("exit", "the library ended the process with status %d", c.w.Exits[0])
	}
	if exited {
		c.fresh = true
		r.Err = errors.New("exited")
		return r
	}
	switch r.Kind() {
	case "panic":
		c.fail("panic in "+panicWhere(r.Stack), "a panic reached the host: %s\n%s", clip(r.Panic, 1500), clip(r.Stack, 3500))
	case "budget":
		c.fresh = true
	}
	c.t.Probe("a call ends in " + r.Kind())
	return r
}

func mentionsExit(s string) bool { return strings.Contains(s, "exit") || strings.Contains(s, "quit") }

// callBare is f, keeping its results.
func callBare(f func() (zygo.Sexp, error)) (r Res) {
	v, err := f()
	if budgetHit != "" {
		r.Budget = budgetHit
		return
	}
	if err != nil {
		r.Err = err
		return
	}
	r.Val = v
	return
}

// look does with a result what hosts do with it.
func (c *c01) look(r Res) {
	t := c.t
	if c.noLook || c.fresh {
		return
	}
	const big = 1 << 40
	switch r.Kind() {
	case "value":
		c.call("  SexpString of the result", big, func() (zygo.Sexp, error) {
			if r.Val == nil {
				return nil, nil
			}
			r.Val.SexpString(nil)
			return nil, nil
		})
		if t.Intn(4) == 0 {
			c.call("  SexpString of the result, indented", big, func() (zygo.Sexp, error) {
				if r.Val != nil {
					ps := zygo.NewPrintState()
					r.Val.SexpString(ps)
					_ = r.Val.Type()
				}
				return nil, nil
			})
		}
		if s, ok := r.Val.(zygo.Selector); ok {
			c.call("  RHS of the result", big, func() (zygo.Sexp, error) { return s.RHS(c.env) })
		}
	case "error":
		c.call("  GetStackTrace", big, func() (zygo.Sexp, error) { _ = c.env.GetStackTrace(r.Err); return nil, nil })
		if t.Intn(4) == 0 {
			c.call("  Clear", big, func() (zygo.Sexp, error) { c.env.Clear(); return nil, nil })
		}
	}
	if t.Intn(12) == 0 {
		switch t.Intn(4) {
		case 0:
			c.call("  ShowStackStackAndScopeStack", big, func() (zygo.Sexp, error) { return nil, c.env.ShowStackStackAndScopeStack() })
		case 1:
			c.call("  ShowGlobalStack", big, func() (zygo.Sexp, error) { return nil, c.env.ShowGlobalStack() })
		case 2:
			c.call("  DumpEnvironment", big, func() (zygo.Sexp, error) { c.env.DumpEnvironment(); return nil, nil })
		default:
			n := c20Names[t.Intn(len(c20Names))]
			c.call("  DumpFunctionByName "+n, big, func() (zygo.Sexp, error) { return nil, c.env.DumpFunctionByName(n) })
		}
	}
}

// shortReader gives a few bytes at a time, and may fail.
type shortReader struct {
	s     []byte
	n     int
	after int // bytes before it fails; -1: never
	err   error
}

func (r *shortReader) Read(p []byte) (int, error) {
	if r.after == 0 {
		return 0, r.err
	}
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	k := r.n
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.s) {
		k = len(r.s)
	}
	if r.after > 0 && k > r.after {
		k = r.after
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	if r.after > 0 {
		r.after -= k
	}
	return k, nil
}

var c01Errs = []error{io.ErrUnexpectedEOF, syscall.EIO, errors.New("FAULT"), os.ErrClosed}

// feed hands a text to the interpreter by some way in.
func (c *c01) feed(text string) {
	t := c.t
	if strings.Contains(text, "<!") || strings.Contains(text, "send") || strings.Contains(text, "makeChan") {
		return // may wait for another goroutine's value
	}
	if c.fresh {
		c.env.Close()
		c.newEnv()
		c.hist = append(c.hist, "(a new interpreter)")
	}
	env := c.env
	runes := int64(len(text))*40 + 200000
	e := c.entry
	if e < 0 {
		e = t.Pick(10, 2, 3, 3, 3, 2, 2, 1, 1)
	}
	var r Res
	q := clip(text, 4000)
	if !utf8.ValidString(text) {
		q = fmt.Sprintf("%q", q)
	}
	run := func() { r = c.call("Run", runes, func() (zygo.Sexp, error) { return env.Run() }) }
	switch e {
	case 0:
		r = c.call("EvalString: "+q, runes, func() (zygo.Sexp, error) { return env.EvalString(text) })
	case 1:
		r = c.call("LoadString: "+q, runes, func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadString(text) })
		if r.Kind() == "value" && t.Intn(5) == 0 && !c.noLook { // a second text before it runs
			two := c.small()
			r = c.call("LoadString: "+two, runes, func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadString(two) })
		}
		if r.Kind() == "value" || r.Kind() == "error" && t.Intn(3) == 0 {
			run()
		}
	case 2:
		f := &flaky{r: []rune(text), failAt: -1}
		how := ""
		if t.Bool() {
			f.failAt = t.Intn(len(f.r) + 1)
			f.err = c01Errs[t.Intn(len(c01Errs))]
			how = fmt.Sprintf(" (the stream fails once at rune %d: %v)", f.failAt, f.err)
			t.Fault("reader-fails")
		}
		r = c.call("LoadStream"+how+": "+q, runes, func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadStream(f) })
		if r.Kind() == "value" || r.Kind() == "error" && t.Intn(3) == 0 {
			run()
		}
	case 3: // in pieces
		p := env.NewParser()
		p.Start()
		rs := []rune(text)
		var xs []zygo.Sexp
		for k, first := 0, true; k < len(rs) || first; first = false {
			n := 1 + t.Intn(len(rs)-k+1)
			if k+n > len(rs) {
				n = len(rs) - k
			}
			piece := string(rs[k : k+n])
			k += n
			reset := first || t.Intn(6) == 0
			rr := c.call(fmt.Sprintf("Parser: more input (reset %v), ParseTokens: %q", reset, piece), runes, func() (zygo.Sexp, error) {
				if reset {
					p.ResetAddNewInput(bytes.NewBufferString(piece))
				} else {
					p.NewInput(bytes.NewBufferString(piece))
				}
				got, err := p.ParseTokens()
				if err == nil {
					xs = append(xs, got...)
				}
				return zygo.SexpNull, err
			})
			t.Fault("text-in-pieces")
			if rr.Kind() == "budget" {
				return
			}
		}
		c.call("Parser.Stop", runes, func() (zygo.Sexp, error) { return zygo.SexpNull, p.Stop() })
		r = c.exprs(xs, runes)
	case 4: // read it, change it, evaluate it
		var xs []zygo.Sexp
		p := env.NewParser()
		p.Start()
		r = c.call("Parser.ParseText: "+q, runes, func() (zygo.Sexp, error) {
			var err error
			xs, err = p.ParseText(bytes.NewBufferString(text + "\n"))
			return zygo.SexpNull, err
		})
		p.Stop()
		if r.Kind() == "value" {
			if t.Intn(2) == 0 {
				for n := t.Range(1, 3); n > 0; n-- {
					c.bend(xs)
				}
			}
			r = c.exprs(xs, runes)
		}
	case 5:
		f := &shortReader{s: []byte(text), n: 1 + t.Intn(5), after: -1}
		how := ""
		if t.Bool() {
			f.after = t.Intn(len(text) + 1)
			f.err = c01Errs[t.Intn(len(c01Errs))]
			how = fmt.Sprintf(" (fails after byte %d: %v)", f.after, f.err)
			t.Fault("reader-fails")
		}
		r = c.call("LoadFile"+how+": "+q, runes, func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadFile(f) })
		if r.Kind() == "value" {
			run()
		}
	case 6: // from inside
		s := "(read " + zquote(text) + ")"
		if t.Bool() {
			s = "(eval " + s + ")"
		}
		r = c.call("EvalString: "+clip(s, 4000), runes, func() (zygo.Sexp, error) { return env.EvalString(s) })
	case 7: // a file
		if c.conf == 2 {
			return
		}
		f, p := memfile("script", text)
		c.files = append(c.files, f)
		c.w.Script = p
		s := fmt.Sprintf("(%s %q)", []string{"source", "import", "include", "source"}[t.Intn(4)], p)
		r = c.call("EvalString: "+s+" where the file is: "+q, runes, func() (zygo.Sexp, error) { return env.EvalString(s) })
		c.w.Script = ""
	default:
		f, p := memfile("script", text)
		c.files = append(c.files, f)
		c.w.Script = p
		var xs []zygo.Sexp
		r = c.call("ParseFile: "+q, runes, func() (zygo.Sexp, error) {
			var err error
			xs, err = env.ParseFile(p)
			return zygo.SexpNull, err
		})
		c.w.Script = ""
		if r.Kind() == "value" {
			r = c.exprs(xs, runes)
		}
	}
	c.look(r)
	switch r.Kind() {
	case "value", "error":
		c.t.NonTrivial()
	}
	c.t.State(text)
}

// zquote quotes for the language's reader.
func zquote(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, "\"", "\\\"")
	return "\"" + s + "\""
}

func (c *c01) exprs(xs []zygo.Sexp, runes int64) Res {
	var b strings.Builder
	for _, x := range xs {
		b.WriteString(" " + clip(Dump(x), 2000))
	}
	return c.call("EvalExpressions:"+clip(b.String(), 4000), runes, func() (zygo.Sexp, error) { return c.env.EvalExpressions(xs) })
}

// bend changes one place of trees the reader made, within what scripts
// can make with quote, list, cons and the like.
func (c *c01) bend(xs []zygo.Sexp) {
	t := c.t
	var spots []func(zygo.Sexp)
	var subs []zygo.Sexp
	var walk func(x zygo.Sexp, d int)
	walk = func(x zygo.Sexp, d int) {
		if d > 30 || len(spots) > 400 {
			return
		}
		subs = append(subs, x)
		switch v := x.(type) {
		case *zygo.SexpPair:
			spots = append(spots, func(y zygo.Sexp) { v.Head = y }, func(y zygo.Sexp) { v.Tail = y })
			walk(v.Head, d+1)
			walk(v.Tail, d+1)
		case *zygo.SexpArray:
			for i := range v.Val {
				spots = append(spots, func(y zygo.Sexp) { v.Val[i] = y })
				walk(v.Val[i], d+1)
			}
		}
	}
	for i := range xs {
		spots = append(spots, func(y zygo.Sexp) { xs[i] = y })
		walk(xs[i], 0)
	}
	if len(spots) == 0 {
		return
	}
	var y zygo.Sexp
	switch t.Intn(8) {
	case 0:
		y = zygo.SexpNull
	case 1:
		y = &zygo.SexpInt{Val: int64(t.Intn(5) - 1)}
	case 2:
		y = &zygo.SexpArray{Env: c.env}
	case 3:
		y = c.env.MakeSymbol(c.wild.name())
	case 4:
		y = &zygo.SexpStr{S: "s"}
	case 5:
		y = zygo.Cons(c.env.MakeSymbol(c01Forms[t.Intn(len(c01Forms))]), zygo.SexpNull)
	default: // another part, copied so that there is no cycle
		y = copySexp(subs[t.Intn(len(subs))], 0)
	}
	spots[t.Intn(len(spots))](y)
}

func copySexp(x zygo.Sexp, d int) zygo.Sexp {
	if d > 30 {
		return zygo.SexpNull
	}
	switch v := x.(type) {
	case *zygo.SexpPair:
		return zygo.Cons(copySexp(v.Head, d+1), copySexp(v.Tail, d+1))
	case *zygo.SexpArray:
		a := &zygo.SexpArray{Env: v.Env, Typ: v.Typ}
		for _, e := range v.Val {
			a.Val = append(a.Val, copySexp(e, d+1))
		}
		return a
	}
	return x
}

// ---- texts ----

var c01Forms = []string{"def", "set", "and", "or", "cond", "quote", "mdef", "fn", "defn", "begin", "let", "letseq", "assert", "defmac", "macexpand",
	"syntaxQuote", "unquote", "unquote-splicing", "include", "for", "break", "continue", "newScope", "package", "return", "_ls", "func", "struct", "field",
	"interface", "method", "var", "infix", "infixExpand", ":", "->", "hash", "defmap", "import", "export", "expectError", "comma", "slice", "slot", "range", "++", "+=", "--", "-=",
	"derefSet", "&", "*", "lambda", "if", "else", "while", "switch", "map", "apply", "eval", "force", "substitute", "macro", "msgmap", "type", "kind", "arrayidx", "hashidx", "=", ":=", "==", "return", "req", "fieldls", "methodls", "nil?", "array", "array-slice-of", "pointerTo", "makeArray", "make", "togo", "fromgo", "_method", "raw"}

var c01Toks = []string{"(", ")", "[", "]", "{", "}", "'", "`", "^", ",", "~", "~@", "%", "#", "@", "$", "?", "&", "*", ".", ":", ";", "|", "!", "<", ">", "=", ":=", "==", "!=", "<=", ">=", "&&", "||",
	"+", "++", "+=", "-", "--", "-=", "->", "/", "//", "/*", "*/", "**", "^^", "\\", "\"", "\"s\"", "\"\\\"", "\"\\n\"", "'c'", "'\\n'", "'''", "''", "'ab'", "`raw`", "#a", "#", "#!", "%a", "%%", "$a", "?a", "@a", "a", "b", "x", "f", "h", "a.b", ".a", "a.", "a..b", "..", ".a.b", "a:", "b:", ":a", "::", "a:b", "1:", "\"s\":",
	"0", "1", "-1", "7", "1.5", ".5", "-.5", "1.", "1e5", "1e", "1e999", "0x1f", "0x", "0b11", "0o7", "1ULL", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999ULL", "1a", "NaN", "Inf", "nil", "true", "false", "\n", " ", "\t", "\r\n", "\x00", "é", "\xff", "\u2028", "世",
	"()", "[]", "{}", "(quote)", "and", "or", "not", "if", "else", "for", "break", "continue", "return", "mod", "quote", "let", "fn", "def", "set", "begin", "cond", "func", "var", "struct", "package", "infix", "defmac", "hash", "[a]", "(a)", "{a}", "(a b)", "[1]", "[0]", "a[0]", "a[", "a(", "f(x)", "f(", "{a", "a}", "{a:1}", "{\"a\":1}", "{[", "{(", "{{", "{;", "{,", "{:", "{=", "{a = ", "{a, b = 1, 2}", "{for", "{if", "{if true", "} else {", "int64", "string", "&a", "*a"}

func (c *c01) of(l []string) string { return l[c.t.Intn(len(l))] }

func (c *c01) tokens() string {
	t := c.t
	var b strings.Builder
	sep := []string{" ", " ", "", "\n"}[t.Intn(4)]
	for n := t.Range(1, 9); n > 0; n-- {
		b.WriteString(c01Toks[t.Intn(len(c01Toks))])
		if t.Intn(8) == 0 {
			b.WriteString([]string{" ", ""}[t.Intn(2)])
		} else {
			b.WriteString(sep)
		}
	}
	return b.String()
}

var c01Wraps = []string{"%s", "(%s)", "{%s}", "[%s]", "(quote %s)", "(quote (%s))", "(begin %s)", "(begin %s 7)", "(fn [x] %s)", "((fn [x] %s) 7)", "(and %s)", "(for [%s] 7)", "(for [(def i 0) (< i 2) (set i (+ i 1))] %s)", "(let [%s] 7)", "(let [a 1] %s)",
	"(%s", "{%s", "[%s", "%s)", "%s}", "%s]", "(def a %s)", "{a = %s}", "{a := %s}", "{for %s {a}}", "{if %s {a}}", "{if a %s}", "^(%s)", "^(a ~%s)", "^(a ~@%s)", "(a %s)", "(%s a)", "(a.%s)", "(println %s)", "(macexpand %s)", "(cond %s)", "(+ 1 %s)", "(hash %s)", "(func a [%s] [r:int64] 7)", "(struct A [%s])", "(package \"p\" %s)", "\"%s", "`%s", "/*%s", "'%s", "(str %s)", "(defmac m [%s] 7)", "(defn f [%s] 7)", "(set %s 7)", "(def %s 7)", "(var %s)", "(assert %s)", "(eval %s)", "(eval (quote %s))", "(read \"%s\")", "(infixExpand {%s})", "(-> a %s)", "(a[%s])", "{a[%s]}", "{a[%s] = 7}", "{a.%s = 7}", "{f(%s)}", "(slice a %s)"}

var c01Atoms = []string{
	"7", "0", "1", "-1", "2", "70", "9223372036854775807", "-9223372036854775808", "18446744073709551615ULL", "0ULL", "2.5", "-0.0", "1e308", "'c'", "\"\"", "\"s\"", "\"a b\"", "\"é\"", "`r`", "nil", "true", "false", "()", "[]", "[1 2 3]", "[[1] [2]]", "[a b]", "[a]", "[a 1]", "[a 1 b]", "[x y]", "[1 a]", "[& a]", "[a & b]", "[a &]", "[&]", "[#a]", "[a & #b]", "[x:int64]", "[a:b]", "[:a]", "[.]", "[a.b 1]", "[%a]", "[()]", "[[a b] 1]", "[(a b) 1]",
	"a", "b", "x", "f", "g", "h", "m", "a.b", "h.a", ".a", "h.a.b", "p.x", "P.x", "al", "#a", "$a", "?a", "&a", "%a", "%a.b", "(quote a)", "(quote a.b)", "(quote .)", "(quote .a)", "a:", ":a", "x:int64", "r:int64", "[r:int64]", "[r:a]", "(a)", "(a b)", "(a 1)", "(1)", "(1 2)", "(())", "(quote (1 2))", "(quote (a b))", "(quote (a \\ b))", "(a \\ b)", "(1 \\ 2)", "(quote ())", "(quote (1 \\ 2))", "(cons 1 2)", "(list 1 2)", "(list)",
	"(hash)", "(hash a:1)", "(hash a:1 b:(hash c:2))", "(hash \"a\" 1)", "(hash 1 2)", "(hash [] 1)", "(raw \"x\")", "(raw)", "(fn [x] x)", "(fn [] 7)", "(fn [& r] r)", "(fn [#l] (force #l))", "println", "+", "int64", "string", "(* int64)", "(slice int64)", "([]int64)", "(& a)", "(& 7)", "(* a)", "(var z int64)", "(struct S [(field x:int64)])", "(package \"p\" (def X 1))", "(snoopy)", "(snoopy id:1)", "(hornet)", "(weather type:\"x\")", "snoopy", "(now)", "(regexp-compile \"a\")", "(gensym)", "(eval 1)", "(read \"a\")", "(quote quote)", "(quote (quote))", "^(a ~x)", "^~x", "~x", "~@x", "^(~@a)", "@a", "{a}", "{1 + 2}", "{a + }", "{}", "{a = 1}", "{a[0]}", "(arrayidx a [0])", "(hashidx h [a:])", "a[0]", "// c\n", "/* c */", "(array-slice-of int64)", "(1 2 3)", "((fn [x] x))", "(macexpand (a))", "(_closdump f)", "(infixExpand {1 + 2})", "\"{\\\"a\\\":1}\"", "\"[1,2\"", "\"(\"", "\"a.b\"", "(error \"x\")", "(expectError \"\" (a))", "(str2sym \"\")", "(str2sym \"a b\")", "(str2sym \".\")", "(str2sym \"a.\")", "(sym2str (quote a))", "'\\''", "(aget [1] 7)", "(first ())", "_", "(undefined)", "\"%s%d\"", "(typestring 1)", "(bytes \"s\")",
	"(quote)", "(quote a b)", "(quote 1)", "(infix)", "(infix 1)", "(infix [])", "(infix [] [])", "(unquote)", "(unquote a b)", "(unquote-splicing)", "(fn)", "(fn [])", "(:)", "(comma)", "(break)", "(continue)", "(return)", "(def)", "(let)", "(let [])", "(for)", "(cond)", "(syntaxQuote)", "(begin)", "(newScope)", "(func)", "(struct)", "(var)", "(package)"}

func (c *c01) arg(d int) string {
	t := c.t
	if d > 0 && t.Intn(4) == 0 {
		return c.form(d - 1)
	}
	return c01Atoms[t.Intn(len(c01Atoms))]
}

func (c *c01) name() string {
	t := c.t
	switch t.Pick(4, 5, 1) {
	case 0:
		return c01Forms[t.Intn(len(c01Forms))]
	case 1:
		return c.wild.names[t.Intn(len(c.wild.names))]
	}
	return words[t.Intn(len(words))]
}

func (c *c01) form(d int) string {
	t := c.t
	var a []string
	for n := t.Pick(2, 4, 5, 4, 2, 1); n > 0; n-- {
		a = append(a, c.arg(d))
	}
	n := c.name()
	if t.Intn(5) == 0 {
		return c.wild.route(n, a)
	}
	return "(" + strings.Join(append([]string{n}, a...), " ") + ")"
}

// small is a short text, mostly one that binds a name others use.
func (c *c01) small() string {
	t := c.t
	n := c.of([]string{"a", "b", "x", "f", "g", "h", "m", "p", "al", "P", "S"})
	switch t.Intn(5) {
	case 0:
		return fmt.Sprintf("(def %s %s)", n, c.arg(1))
	case 1:
		return fmt.Sprintf("{%s = %s}", n, c.arg(1))
	case 2:
		return fmt.Sprintf("(defn %s %s %s)", n, c.arg(0), c.arg(1))
	case 3:
		return fmt.Sprintf("(defmac %s %s %s)", n, c.arg(0), c.arg(1))
	}
	return c.form(1)
}

var reTok = regexp.MustCompile(`"(\\.|[^"\\])*"|[()\[\]{}]|[^\s()\[\]{}"]+|\s+`)

// mutate changes a text.
func (c *c01) mutate(s string, other func() string) string {
	t := c.t
	for n := t.Pick(1, 4, 3, 2, 1); n > 0; n-- {
		if len(s) == 0 {
			return s
		}
		if t.Intn(4) == 0 { // bytes
			i := t.Intn(len(s))
			j := i + 1 + t.Intn(6)
			if j > len(s) {
				j = len(s)
			}
			switch t.Intn(4) {
			case 0:
				s = s[:i] + s[j:]
			case 1:
				s = s[:j] + s[i:]
			case 2:
				s = s[:i] + c01Toks[t.Intn(len(c01Toks))] + s[i:]
			default:
				s = s[:i] + string([]byte{byte(t.Intn(256))}) + s[i+1:]
			}
			continue
		}
		tk := reTok.FindAllString(s, 2000)
		if len(tk) == 0 {
			continue
		}
		i := t.Intn(len(tk))
		switch t.Intn(9) {
		case 0:
			tk = append(append([]string{}, tk[:i]...), tk[i+1:]...)
		case 1:
			tk[i] = tk[i] + " " + tk[i]
		case 2:
			j := t.Intn(len(tk))
			tk[i], tk[j] = tk[j], tk[i]
		case 3:
			tk[i] = c01Toks[t.Intn(len(c01Toks))]
		case 4:
			tk[i] = " " + c.arg(1) + " "
		case 5: // a whole form
			j := closeOf(tk, i)
			tk = append(append(append([]string{}, tk[:i]...), " "+c.arg(1)+" "), tk[j:]...)
		case 6:
			tk = tk[:i]
		case 7: // a form out of another text
			ok := reTok.FindAllString(other(), 2000)
			if len(ok) > 0 {
				k := t.Intn(len(ok))
				tk[i] = " " + strings.Join(ok[k:closeOf(ok, k)], "") + " "
			}
		default:
			j := closeOf(tk, i)
			w := c01Wraps[t.Intn(len(c01Wraps))]
			m := strings.ReplaceAll(w, "%s", strings.Join(tk[i:j], ""))
			tk = append(append(append([]string{}, tk[:i]...), " "+m+" "), tk[j:]...)
		}
		s = strings.Join(tk, "")
		if len(s) > 20000 {
			s = s[:20000]
		}
	}
	return s
}

// closeOf is the index after the form that starts at i.
func closeOf(tk []string, i int) int {
	d := 0
	for j := i; j < len(tk); j++ {
		switch tk[j] {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			d--
		}
		if d <= 0 {
			return j + 1
		}
	}
	return len(tk)
}

func (c *c01) corpus() string {
	e := c20corpus[c.t.Intn(len(c20corpus))]
	s := e.text
	if len(s) > 400 && c.t.Intn(3) > 0 { // a part of it, whole lines
		i := c.t.Intn(len(s))
		j := i + 100 + c.t.Intn(400)
		if j > len(s) {
			j = len(s)
		}
		if k := strings.LastIndexByte(s[:i], '\n'); k >= 0 {
			i = k + 1
		} else {
			i = 0
		}
		if k := strings.IndexByte(s[j:], '\n'); k >= 0 {
			j += k
		}
		s = s[i:j]
	}
	return s
}

func (c *c01) random() string {
	t := c.t
	n := t.Intn(24)
	b := make([]byte, n)
	hi := []int{256, 128, 0}[t.Intn(3)]
	const punct = "(){}[]'\"`~@#%^&*-+=:;.,/\\|<>!?$ \n\t0123456789abxefn_"
	for i := range b {
		if hi == 0 {
			b[i] = punct[t.Intn(len(punct))]
		} else {
			b[i] = byte(t.Intn(hi))
		}
	}
	return string(b)
}

// ---- scenarios ----

func (c *c01) sample() { c.t.Sample(clip(strings.Join(c.hist, " ;; "), 1000)) }

// runC01Tokens: a token in a setting, and every token after it.
func runC01Tokens(t *core.T) {
	c := newC01(t)
	defer c.close()
	w := c01Wraps[t.Intn(len(c01Wraps))]
	first := c01Toks[t.Intn(len(c01Toks))]
	sep := []string{" ", "", "\n"}[t.Intn(3)]
	if t.Bool() {
		first += sep + c01Toks[t.Intn(len(c01Toks))]
	}
	t.Probe("token tuples swept")
	c.entry = t.Pick(12, 1, 0, 0, 2, 0, 1)
	if c.entry == 2 || c.entry == 3 || c.entry == 5 {
		c.entry = 0
	}
	for _, k := range c01Toks {
		c.hist = nil
		c.exit = false
		c.feed(strings.ReplaceAll(w, "%s", first+sep+k))
	}
	c.sample()
}

func runC01Texts(t *core.T) {
	c := newC01(t)
	defer c.close()
	for n := t.Range(2, 14); n > 0; n-- {
		switch t.Pick(4, 3, 10, 4) {
		case 0:
			s := c.tokens()
			if t.Intn(3) == 0 {
				s = strings.ReplaceAll(c01Wraps[t.Intn(len(c01Wraps))], "%s", s)
			}
			c.feed(s)
		case 1:
			c.feed(c.random())
		case 2:
			s := c.form(2)
			if t.Intn(6) == 0 {
				s = strings.ReplaceAll(c01Wraps[t.Intn(len(c01Wraps))], "%s", s)
			}
			c.feed(s)
		default:
			c.feed(c.small())
		}
	}
	c.sample()
}

// runC01Forms: one name, all kinds of arguments.
func runC01Forms(t *core.T) {
	c := newC01(t)
	defer c.close()
	n := c.name()
	t.Probe("names swept")
	c.entry = t.Pick(12, 1, 0, 0, 1)
	for i := 0; i < 30; i++ {
		c.hist = nil
		c.exit = false
		var a []string
		for k := t.Intn(4); k > 0; k-- {
			a = append(a, c01Atoms[t.Intn(len(c01Atoms))])
		}
		switch t.Intn(6) {
		case 0:
			c.feed(c.wild.route(n, a))
		case 1:
			c.feed(c.small())
		default:
			c.feed("(" + strings.Join(append([]string{n}, a...), " ") + ")")
		}
	}
	c.sample()
}

func runC01Corpus(t *core.T) {
	c := newC01(t)
	defer c.close()
	for n := t.Range(1, 6); n > 0; n-- {
		s := c.corpus()
		c.feed(c.mutate(s, c.corpus))
	}
	c.sample()
}

// runC01Programs: programs that mean something, and what is left of them
// when they are changed; host functions that fail and panic.
func runC01Programs(t *core.T) {
	c := newC01(t)
	defer c.close()
	cfgs := []genCfg{
		{pool: 2, size: 60, depth: 5, errNum: 6, host: true, scopey: true, typed: true, stray: 6},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, pkgs: true},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, lazy: true, calls: true, keep: true},
		{pool: 2, size: 60, depth: 5, errNum: 3, host: true, macros: true},
		{pool: 3, size: 60, depth: 2, errNum: 6, host: true, data: true},
		{pool: 2, size: 60, depth: 5, host: true, tail: true, exprBreak: true},
	}
	c.host = &Plan{seed: uint64(t.Intn(1 << 16))}
	pickActs(t, c.host, 2, 6)
	if c.conf == 3 {
		c.conf = 0
	}
	c.env.Close()
	c.newEnv()
	g := newGen(t, cfgs[t.Intn(len(cfgs))])
	lay := layout(t)
	var prev string
	t.Many(1, 6, 3, func(int) {
		g.left += 20
		s := Text(g.forms(t.Range(1, 4)), lay)
		if t.Intn(3) > 0 {
			s = c.mutate(s, func() string { return prev + c.form(1) })
		}
		prev = s
		c.feed(s)
	})
	c.sample()
}

// runC01Records: records, Go structs, packages, encodings.
func runC01Records(t *core.T) {
	c := newC01(t)
	defer c.close()
	p := &c20prog{}
	for k := t.Range(1, 3); k > 0; k-- {
		if t.Intn(3) > 0 {
			c.rec.records(p)
		} else {
			c.rec.shows(p)
		}
	}
	for _, s := range p.texts {
		if t.Intn(2) == 0 {
			s = c.mutate(s, func() string { return c.rec.record(2) })
		}
		c.feed(s)
	}
	c.sample()
}

// deep texts and runaway recursion.
var c01Deep = []struct{ open, mid, shut string }{
	{"(", "a", ")"}, {"[", "1", "]"}, {"{", "a", "}"}, {"(quote ", "a", ")"}, {"^", "a", ""}, {"~", "a", ""}, {"'", "a", ""}, {"(begin ", "1", ")"}, {"(let [a ", "1", "] a)"}, {"(fn [x] ", "x", ")"}, {"((fn [x] ", "x", ") 1)"},
	{"(+ 1 ", "1", ")"}, {"{1 + ", "1", "}"}, {"{(", "1", ")}"}, {"-", "1", ""}, {"- ", "1", ""}, {"{- ", "1", "}"}, {"not ", "a", ""}, {"{not ", "a", "}"}, {"{a[", "0", "]}"}, {"a[", "0", "]"}, {"(hash a:", "1", ")"}, {"{a:", "1", "}"}, {"(list ", "1", ")"}, {"[(", "a", ")]"},
	{"(and 1 ", "1", ")"}, {"(cond true ", "1", " 2)"}, {"(for [(def i 0) (< i 1) (def i 1)] ", "1", ")"}, {"(newScope ", "1", ")"}, {"{if true {", "1", "}}"}, {"{for true {", "break", "}}"}, {"(package \"p\" ", "1", ")"}, {"(cons 1 ", "nil", ")"}, {"(str ", "1", ")"}, {"(quote (", "a", " b))"}, {"(eval ", "1", ")"}, {"(a \\ ", "b", ")"}, {"/*", "x", "*/"}, {"& ", "a", ""}, {"* ", "a", ""}, {"a.", "b", ""}, {"{f(", "1", ")}"}, {"{a = ", "1", "}"}, {"{a, ", "1", "}"}, {"^(", "a", ")"}, {"^(~", "a", ")"}, {"^(~@", "a", ")"}, {"%", "a", ""}, {"(defn f [x] ", "x", ")"}, {"(defmac m [x] ", "x", ")"}, {"(macexpand ", "x", ")"}, {"(assert ", "x", ")"}, {"(-> 1 ", "x", ")"}, {"(infixExpand {", "x", "})"}, {"([]", "int64", ")"}, {"(* ", "int64", ")"}, {"1 + ", "1", ""}, {"{1 ** ", "1", "}"}, {"{a := ", "1", "}"}, {"{a.b.", "c", "}"}, {"{a -> ", "c", "}"}, {"a:", "1", ""}, {"{true && ", "true", "}"}, {"{x[0] = ", "true", "}"}, {"(def a ", "1", ")"}, {"(set a ", "1", ")"}, {"(mdef a b ", "1", ")"}, {"(expectError \"\" ", "1", ")"}, {"(return ", "1", ")"}, {"(func f [a:int64] [r:int64] ", "1", ")"}, {"(quote ", "", ")"}, {"(", "", ")"}, {"[", "", "]"}, {"{", "", "}"},
}

var c01Runaway = []string{
	"(defn f [x] (+ 1 (f x))) (f 1)",
	"(defn f [x] (f x)) (f 1)",
	"(defn f [x] (map f [x])) (f 1)",
	"(defn f [x] (map f (list x))) (f 1)",
	"(defn f [x] (apply f [x])) (f 1)",
	"(defn f [x] (eval (quote (f 1)))) (f 1)",
	"(defn f [x] (eval (read \"(f 1)\"))) (f 1)",
	"(defn f [x] (+ 1 (eval (list f 1)))) (f 1)",
	"(defmac m [x] ^(m ~x)) (m 1)",
	"(defmac m [x] ^(+ 1 (m ~x))) (m 1)",
	"(defmac m [x] ^(m (m ~x))) (m 1)",
	"(defmac m [x] (list (quote m) x x)) (m 1)",
	"(defmac m [x] (eval (quote (m 1)))) (m 1)",
	"(defmac m [x] (macexpand (m 1))) (m 1)",
	"(defn f [#x] (f #x)) (f 1)",
	"(defn f [#x] (f (force #x))) (f 1)",
	"(defn f [#x] (force #x)) (defn g [y] (f (g y))) (g 1)",
	"(defn f [x] (let [y (f x)] y)) (f 1)",
	"(defn f [x] (package \"p\" (def Y (f x)))) (f 1)",
	"(defn f [x] (newScope (f x) 1)) (f 1)",
	"(defn f [x] (expectError \"zz\" (f x))) (f 1)",
	"(defn f [x] (assert (f x))) (f 1)",
	"(defn f [x] (str (f x))) (f 1)",
	"(defn f [x] (for [(def i 0) (< i (f x)) (def i 1)] i)) (f 1)",
	"(defn f [x] (hash a:(f x))) (f 1)",
	"(defn f [x] [(f x)]) (f 1)",
	"(defn f [x] (cond (f x) 1 2)) (f 1)",
	"(defn f [x] (and (f x) 1)) (f 1)",
	"(defn f [x] (begin (def a (f x)) a)) (f 1)",
	"(defn f [x] (sort f [x x])) (f 1)",
	"(defn f [x y] (sort f [x y])) (f 1 2)",
	"(defn f [x] (foldl f x [1 2])) (f 1)",
	"(defn f [x] (flatmap f [x])) (f 1)",
	"(func f [x:int64] [r:int64] (return (f x))) (f 1)",
	"(func f [x:int64] [r:int64] (return (+ 1 (f x)))) (f 1)",
	"{func f(x int64) int64 { return f(x) }}",
	"(def h (hash)) (hset h a: h) (str h) (println h) h (json h) (flatten h)",
	"(def h (hash)) (hset h a: [h]) (togo h) (== h h) (deep-eq h h)",
	"(def a [1]) (aset a 0 a) (str a) (println a) (== a a) a (flatten a) (json a) (hash a 1)",
	"(def a [1]) (aset a 0 (list a)) (str a) (== a a) (eval a) a",
	"(def a [1]) (def b [a]) (aset a 0 b) (== a b) (str a) (concat a b) (append a b) (infix a) a",
	"(def h (hash)) (hset h a: (& h)) (str h) h (== h h) (json h) (msgpack h)",
	"(def a (cons 1 nil)) (def h (hash x:a)) (hset h y:(list h a)) (str h) (eval (list quote h)) h",
	"(defn f [x] (timeit f)) (f 1)",
	"(def h (hash)) (def f (field x:h)) (hset h a: f) (str f) f h (== f f) (json h)",
	"(def h (hash)) (def p (package \"p\" (def X h))) (hset h a: p) (str p) p h (== h h) (json h)",
	"(def h [1]) (aset h 0 (fn [x] h)) (str h) h (== h h) (json h)",
	"(def h [1]) (def g (eval (list (quote fn) [(quote x)] h))) (aset h 0 g) (str g) g h (== h h) (json h)",
	"(defn f [] (source \"x\") (f)) (f)",
	"(defn f [x] (hash (f x) 1)) (f 1)",
	"(defn f [x] ((fn [y] (+ 1 (f y))) x)) (f 1)",
	"(defn f [x] (g x)) (defn g [x] (+ 0 (f x))) (f 1)",
	"(defn f [x] {x + f(x)}) (f 1)",
	"(def f (fn [x] (* 1 (f x)))) (f 1)",
	"(def l (list 1)) (defn f [x] (set l (list l)) (f x)) (f 1)",
	"(def l [1]) (defn f [x] (set l [l]) (f x)) (f 1)",
	"(def l (quote a)) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l (list l))) (str l) (eval l) l (json l) (== l l)",
	"(def l 1) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l [l])) (str l) (eval l) (== l l) (json l) l",
	"(def l 1) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l (hash a:l))) (str l) (== l l) (json l) (togo l) l",
	"(def l 1) (for [(def i 0) (< i 3000) (set i (+ i 1))] (set l (& l))) (str l) l",
	"(def l (quote (+ 1 1))) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l (list + 1 l))) (eval l)",
	"(def s \"\") (for [(def i 0) (< i 100000) (set i (+ i 1))] (set s (concat \"(\" s))) (read s)",
	"(def s \"[\") (for [(def i 0) (< i 16) (set i (+ i 1))] (set s (concat s s))) (unjson (raw s)) (read s) (eval (read s))",
	"(def s \"{\\\"a\\\":\") (for [(def i 0) (< i 16) (set i (+ i 1))] (set s (concat s s))) (unjson (raw s))",
	"(def l (fn [] 1)) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l (let [k l] (fn [] (k))))) (l)",
	"(def l (fn [] 1)) (for [(def i 0) (< i 100000) (set i (+ i 1))] (set l (let [k l] (fn [] (+ 1 (k)))))) (l) (str l)",
	"(defn mk [k] (fn [#x] (k #x))) (def l (fn [#x] #x)) (for [(def i 0) (< i 50000) (set i (+ i 1))] (set l (mk l))) (l 1)",
	// values that share their parts, never shown
	"(def dag (list 1)) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag (list dag dag))) 7",
	"(def dag [1]) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag [dag dag])) (len dag)",
	"(def dag (hash x:1)) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag (hash x:dag y:dag))) (keys dag)",
	"(struct D [(field A: D e:0) (field B: D e:1)]) (def dag (D)) (for [(def i 0) (< i 40) (set i (+ i 1))] (set dag (D A:dag B:dag))) 7",
	"(def dag (cons 1 2)) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag (cons dag dag))) (type? dag)",
	"(defn f [x n] (cond (== n 0) 7 (f [x x] (- n 1)))) (f 1 60)",
	"(defn f [x n] (cond (== n 0) 7 (let [y (list x x)] (f y (- n 1))))) (f 1 60)",
	"(def dag 1) (for [(def i 0) (< i 60) (set i (+ i 1))] (mdef dag b (list [dag dag] 1))) 7",
	"(def h (hash)) (def dag 1) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag [dag dag]) (hset h i dag)) (len h)",
	"(defn f [x] (return [x x])) (def dag 1) (for [(def i 0) (< i 60) (set i (+ i 1))] (set dag (f dag))) 7",
	"{dag := 1; for i := 0; i < 60; i++ { dag = [dag dag] }; 7}",
}

func runC01Deep(t *core.T) {
	c := newC01(t)
	defer c.close()
	if c.conf == 3 {
		c.conf = 0
		c.env.Close()
		c.newEnv()
	}
	c.entry = t.Pick(6, 1, 1, 0, 1, 1, 1)
	if c.entry == 3 {
		c.entry = 0
	}
	var s string
	if t.Bool() {
		s = c01Runaway[t.Intn(len(c01Runaway))]
		c.steps = int64(t.Range(1, 4) * 500000)
		if strings.Contains(s, "defmac") { // each expansion looks through all that are going on
			c.steps = 80000
		}
		c.noLook = strings.Contains(s, "dag") // showing everything would take forever
		t.Probe("runaway recursion")
	} else {
		d := c01Deep[t.Intn(len(c01Deep))]
		e := d
		if t.Intn(3) == 0 {
			e = c01Deep[t.Intn(len(c01Deep))]
		}
		n := []int{100, 1000, 10000, 30000, 200000}[t.Intn(5)]
		if e.open != d.open || d.shut == "" {
			n = min(n, 30000) // long lists take quadratic time to print
		}
		if d.open == "/*" || e.open == "/*" { // most of it is a flat list
			n = min(n, 8000)
		}
		if strings.HasPrefix(d.open, "(str ") || strings.HasPrefix(e.open, "(str ") {
			n = 8 // the text of a text of a text... doubles with each
		}
		k := n
		if t.Intn(4) == 0 {
			k = t.Intn(n)
		}
		s = strings.Repeat(d.open+e.open, n) + d.mid + strings.Repeat(e.shut+d.shut, k)
		c.steps = 3000000
		t.Probe("deep texts")
	}
	if t.Intn(4) == 0 && !c.noLook {
		w := c01Wraps[t.Intn(len(c01Wraps))]
		if (strings.HasPrefix(w, "(and") || strings.HasPrefix(w, "(cond")) && len(s) > 20000 {
			w = "%s" // the code for many operands takes quadratic time to make
		}
		s = strings.ReplaceAll(w, "%s", s)
	}
	c.feed(s)
	c.steps = 20000
	c.feed("(+ 1 2)")
	c.sample()
}

var c01Shapes = []string{
	`(let [k 1 j 2] (+ k j))`,
	`(letseq [k 1 j k] (+ k j))`,
	`(for [(def i 0) (< i 3) (set i (+ i 1))] (cond (== i 1) (continue) i))`,
	`(for lab: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (break lab:)))`,
	`(for lab: [(def i 0) (< i 3) (set i (+ i 1))] (break (quote lab)))`,
	`(for lab: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (continue lab:)))`,
	`(cond false 1 true 2 3)`,
	`(and true 1 (or false 2))`,
	`(mdef p q r (list 1 2 3))`,
	`(mdef p q [1 2])`,
	`(defn ff [x & rest] (+ x (len rest))) (ff 1 2 3)`,
	`(defn ff [#x y] (+ (force #x) y)) (ff (+ 1 2) 3)`,
	`(defn fz [] 7) (fz)`,
	`(def ff (fn [x] (fn [y] (+ x y)))) ((ff 1) 2)`,
	`(func ff [x:int64 y:int64] [r:int64] (return (+ x y))) (ff x:1 y:2)`,
	`(func ff [x:int64] [r:int64 e:string] (return x "s")) (ff x:1)`,
	`(func fg [] [] 7) (fg)`,
	`(defmac mm [x] ^(begin ~x ~x)) (mm (+ 1 2))`,
	`(defmac mm [x & r] ^(+ ~x ~@r)) (mm 1 2 3)`,
	`(defmac mm [x] (list (quote +) x 1)) (macexpand (mm 2))`,
	`^(1 ~(+ 1 1) ~@(list 3 4))`,
	`^{a: ~(+ 1 1) b:2}`,
	`^[1 ~@[2 3] ~(list 4)]`,
	`(syntaxQuote (a (unquote 1) (unquote-splicing (list 1))))`,
	`(begin (newScope (def z 1) z))`,
	`(package "pk" { X := 1; y := 2; func Get() int64 { return X } })`,
	`(package "pk" (def X 1) (defn G [] X)) (pk.G) (def w pk.X)`,
	`(struct Sh [(field Id: int64 e:0) (field Nm: string e:1) (field L: ([] int64) e:2)]) (def s1 (Sh Id:1 Nm:"n" L:[1 2])) {s1.Id = 3} s1`,
	`(struct Sn [(field Next: (* Sn) e:0)]) (def s2 (Sn)) {s2.Next = (& s2)}`,
	`(interface If [(func Do [a:int64] [r:int64])])`,
	`(method [p: (* Sh)] Do [a:int64] [r:int64] (return a))`,
	`(var v int64) {v = 3}`,
	`(def h (hash a:1 b:(hash c:2))) (hset h q:5) {h.b.c = 6} (hget h a:) (hdel h a:)`,
	`(def a [1 2 3]) {a[0] = 5; a[1]++; a[2] += 3} a`,
	`(def a [1 2 3]) {a[0:2]}`,
	`(def a [1 2 3]) (aset a 1 (aget a 2)) (slice a 0 2) (append a 4)`,
	`{i := 0; for i < 3 { i++ }; i}`,
	`{for i := 0; i < 3; i++ { if i == 1 { continue }; println(i) }}`,
	`{for i := range [4 5 6] { println(i) }}`,
	`{for i, v := range [4 5 6] { println(v) }}`,
	`{for k, v := range (hash a:1) { println(k) }}`,
	`{var2 := 0; for var2 = range [1 2] { println(var2) }}`,
	`{k = 0; v = 0; for k, v = range [1 2] { println(v) }}`,
	`{lab: for i := 0; i < 3; i++ { for j := 0; j < 3; j++ { break lab } }}`,
	`{lab: for i := 0; i < 3; i++ { for { continue lab } }}`,
	`{for { break }}`,
	`{if 1 < 2 { 3 } else { 4 }}`,
	`{if true { 3 } else if false { 4 } else { 5 }}`,
	`{a, b = 1, 2}`,
	`{a, b = [1 2]}`,
	`{[a b] = [1 2]}`,
	`{a, b := b, a}`,
	`{x = 1; x++; x--; x += 2; x -= 1; x}`,
	`{2 ** 3 ** 2 + 1 * (4 - 2) / 2}`,
	`{not true and false or 1 == 1}`,
	`{7 mod 3 != 1}`,
	`{-3 + - 4 * -a}`,
	`(def a [7]) {(+ 1 2) * a[0]}`,
	`{f(1, 2) + g()}`,
	`(def h (hash a:(hash b:1) c:[(hash d:2)])) {h.a.b + h.c[0].d}`,
	`(def p (hash x:1 y:2)) {p.x = 3; p.y++}`,
	`{*a = 3}`,
	`{&a}`,
	`{func ff(x int64, y int64) int64 { return x + y }}`,
	`{func ff(x int64) (r int64, e string) { return x, "s" }}`,
	`{struct Sh { Id int64 }}`,
	`{"s": 1, "t": [1, 2], "u": {"v": null}}`,
	`(json (hash a:1 b:[1 2.5 "s" nil true])) (unjson (raw "{\"a\":[1,2,{\"b\":null}]}"))`,
	`(msgpack (hash a:1)) (unmsgpack (msgpack (hash a:[1 2])))`,
	`(map (fn [x] (* x 2)) [1 2 3]) (apply + [1 2]) (foldl + 0 [1 2]) (flatmap (fn [x] [x x]) [1 2])`,
	`(sort (fn [a b] (< a b)) [3 1 2])`,
	`(eval (quote (+ 1 2))) (eval (read "(+ 1 2)")) (read "[1 (2")`,
	`(expectError "Error calling 'hget': key b not found" (hget (hash a:1) b:))`,
	`(assert (== 1 1))`,
	`(infixExpand {a + b * c})`,
	`(-> (hash a:(hash b:2)) a: b:)`,
	`(: a (hash a:1)) (:a (hash a:1)) (:0 [1 2])`,
	`(import "x") (req x) (source ["x" "y"]) (source "x" (list "y"))`,
	`(str2sym "a") (sym2str (quote a)) (gensym "a") (symnum (quote a))`,
	`(substitute #x) (defn fq [#q] (substitute #q)) (fq (+ 1 2))`,
	`(dot-set! a.b 1) (derefSet (& a) 5) (* (& a)) (fieldls Sh) (methodls snoopy) (_closdump ff)`,
	`(snoopy id:5 cry:"yo") (hornet SpanCm:1 nickname:"b") (togo (snoopy id:1)) (_method (snoopy cry:"x") Fly: (weather type:"rain"))`,
	`(comma a b) [a, b, c] (f a, b)`,
	`(return 1) (begin (return 1) 2) (defn fr [] (return 3) 4) (fr)`,
	"\"a\\n\\t\\\\\\\"b\" 'c' '\\n' `raw \\n` 0x1f 1e5 -1.5e-3 0b101 0o17 1ULL",
	`/* c */ (+ 1 /* x */ 2) // end`,
	`#a $b ?c %d @e &f *g a.b.c .q x:int64 y: :z`,
}

// runC01Shapes: every form of the language, whole and a little off.
func runC01Shapes(t *core.T) {
	c := newC01(t)
	defer c.close()
	shape := func() string { return c01Shapes[t.Intn(len(c01Shapes))] }
	for n := t.Range(2, 10); n > 0; n-- {
		s := shape()
		if k := t.Intn(8); k > 1 {
			tk := reTok.FindAllString(s, -1)
			for m := 1 + t.Intn(3)/2; m > 0; m-- {
				i := t.Intn(len(tk))
				switch t.Intn(7) {
				case 0: // a token less
					tk[i] = ""
				case 1: // a form less
					for j := closeOf(tk, i) - 1; j >= i; j-- {
						tk[j] = ""
					}
				case 2: // something else there
					j := closeOf(tk, i)
					for l := i; l < j; l++ {
						tk[l] = ""
					}
					tk[i] = " " + c01Atoms[t.Intn(len(c01Atoms))] + " "
				case 3:
					tk[i] = " " + c01Toks[t.Intn(len(c01Toks))] + " "
				case 4: // something more
					tk[i] = c01Atoms[t.Intn(len(c01Atoms))] + " " + tk[i]
				case 5: // a form in the place of another
					j := t.Intn(len(tk))
					a, b := strings.Join(tk[i:closeOf(tk, i)], ""), strings.Join(tk[j:closeOf(tk, j)], "")
					if e := closeOf(tk, i); e <= j {
						for l := i + 1; l < e; l++ {
							tk[l] = ""
						}
						for l, e := j+1, closeOf(tk, j); l < e; l++ {
							tk[l] = ""
						}
						tk[i], tk[j] = " "+b+" ", " "+a+" "
					} else {
						tk[i] = " " + b + " "
					}
				default: // a form of another kind
					tk[i] = tk[i] + " " + shape() + " "
				}
			}
			s = strings.Join(tk, "")
		}
		if t.Intn(12) == 0 {
			s = strings.ReplaceAll(c01Wraps[t.Intn(len(c01Wraps))], "%s", s)
		}
		if mentionsExit(s) {
			continue
		}
		c.feed(s)
	}
	c.sample()
}

// runC01Tool: the command-line tool.
func runC01Tool(t *core.T) {
	c := newC01(t)
	defer c.close()
	var lines []string
	for n := t.Range(1, 8); n > 0; n-- {
		switch t.Pick(2, 3, 3, 2, 2, 1, 2, 1) {
		case 0:
			w := []string{".cd", ".ls", ".gls", ".dump", ".verb", ".verb", ".debug", ".undebug", "&", "*", ".", ".x", "&a", "*a", "*", "&"}[t.Intn(16)]
			lines = append(lines, w+" "+[]string{"", "/verif-canary", "a", "f", "m", "println", "7", "(list 1)", "[1]"}[t.Intn(9)])
		case 1:
			lines = append(lines, c.form(1))
		case 2:
			lines = append(lines, c.small())
		case 3:
			lines = append(lines, c.tokens())
		case 4:
			lines = append(lines, c.mutate(c.corpus(), c.corpus))
		case 5:
			lines = append(lines, c.random())
		case 6: // what prints
			lines = append(lines, c.arg(0))
		default:
			lines = append(lines, c.rec.record(2))
		}
	}
	for i, l := range lines {
		if strings.Contains(l, "<!") || strings.Contains(l, "send") || strings.Contains(l, "makeChan") {
			lines[i] = "7"
		}
	}
	text := strings.Join(lines, "\n")
	args := []string{"-no-liner"}
	for _, f := range []string{"-quiet", "-demo", "-countcalls", "-exitonfail", "-sandbox", "-trace"} {
		if t.Intn(map[string]int{"-quiet": 2, "-trace": 12, "-sandbox": 6}[f]+4) == 0 {
			args = append(args, f)
		}
	}
	stdin := ""
	var keep []*os.File
	how := ""
	w := &core.World{Err: syscall.ENOENT, Writes: []int{1, 2, int(outFile.Fd())}, Decoy: decoyPath, Stdin: true}
	switch t.Pick(5, 2, 2) {
	case 0:
		how = "standard input"
		stdin = text
		if t.Bool() {
			stdin += "\n"
		}
	case 1:
		how = "-c"
		args = append(args, "-c", text)
	case 2:
		how = "script file"
		f, p := memfile("script", text)
		keep = append(keep, f)
		w.Script = p
		if t.Bool() {
			args = append(args, "-i")
		}
		stdin = lines[0] + "\n"
		args = append(args, p)
	}
	t.Probe("zygo, " + how)
	c.hist = append(c.hist, strings.Join(args, " "), text)
	t.Logf("> %v %q %q", args, text, stdin)
	in, _ := memfile("stdin", stdin)
	keep = append(keep, in)
	old := os.Stdin
	os.Stdin = in
	cfg := zygo.NewZlispConfig("zygo")
	cfg.DefineFlags()
	cfg.Flags.Init("zygo", flag.ContinueOnError)
	if err := cfg.Flags.Parse(args); err != nil {
		t.Harnessf("flags: %v", err)
	}
	if err := cfg.ValidateConfig(); err != nil {
		t.Harnessf("flags: %v", err)
	}
	steps := int64(40000)
	if cfg.Trace || strings.Contains(text, ".debug") {
		steps = 300
	}
	SetBudget(steps, int64(len(text))*40+200000)
	var p interface{}
	var st string
	w.Run(func() { p, st = core.Guard(func() { zygo.ReplMain(cfg) }) })
	os.Stdin = old
	zygo.Verbose = false
	for _, f := range keep {
		f.Close()
	}
	TakeOutput()
	_, exited := p.(core.Exited)
	t.Logf("exited %v budget %v", exited, budgetHit)
	if p != nil && !exited && budgetHit == "" {
		c.fail("panic in "+panicWhere(st), "the tool ended in a panic (%s): %v\n%s", how, clip(Scrub(fmt.Sprint(p)), 1500), clip(st, 3500))
	}
	if budgetHit == "" {
		t.NonTrivial()
	}
	t.State(text)
	c.sample()
}

func init() {
	core.Register(&core.Property{
		ID: "C01", Level: "exploration",
		Rule:      "A run is one seeded history of texts given to one interpreter (standard, sandboxed, with every import, or with what the command-line tool adds), which is replaced only when a call gave up its budget. Texts: sequences of tokens of the language's alphabet, and of raw runes and bytes; special forms, builtins and macros with arguments of every kind and number, nested and inside every kind of context; the repository's own scripts, cut, spliced, doubled and with tokens exchanged; a text for every form of the language with one or two parts missing, doubled or exchanged; programs of the reference language with host functions that fail; records, struct declarations and conversions; and (scenario deep) texts and data nested up to 400000 levels, data inside itself, data that shares its parts 2^60-fold, and recursion without end by some sixty routes. Each text goes in by a seeded entry point: EvalString, LoadString+Run, LoadStream, LoadFile from a reader that gives a few bytes at a time and may fail once at any rune, ParseTokens in pieces with and without resets, EvalExpressions of what was read (also bent: nodes exchanged, dropped, made improper), read and eval from inside, source/import/include of a file, and ParseFile; scenario tool runs the tool's own main (ReplMain) with the text on standard input, on -c, or as a script file, under seeded flags. After each call the host looks at the result: it prints it, takes its type, its right hand side, the stack trace of its error, and the interpreter's dumps. No call may panic, end the process (stack overflow and other fatal errors are seen as the death of the worker), or fail to return within its budget of evaluation steps and runes plus 25 s of CPU. Non-trivial: some text gave a value or an error within its budget. Distinct: by event log. States: distinct texts.",
		QuickRuns: 300000, ThorRuns: 8000000,
		Assumptions: []string{
			"left out: explicit exit and quit, waiting on channels (<!, send, makeChan), and running out of memory by data the script itself makes without bound",
			"a program that runs out of its step or rune budget is still running, which the property allows; one that does not return to count a step within 25 s of CPU hangs",
			"work that is finite but quadratic in the length of the text is not a hang: flat texts are kept below 60000 elements",
		},
		Components: map[string]interface{}{
			"real":      []string{"the whole library and the tool's main: lexer, parser, generator, VM, builtins, macros, registry, printing, stack traces, dumps, REPL line reader"},
			"simulated": []string{"readers, script files and standard input (bytes, pieces, errors)", "the outside world: refuses with a seeded errno", "the end of the process (os.Exit is a recorded event)", "host functions", "Go map order"},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C01", Name: "tokens", Weight: 100, Run: runC01Tokens},
			{Prop: "C01", Name: "texts", Weight: 300, Run: runC01Texts},
			{Prop: "C01", Name: "forms", Weight: 200, Run: runC01Forms},
			{Prop: "C01", Name: "shapes", Weight: 400, Run: runC01Shapes},
			{Prop: "C01", Name: "corpus", Weight: 200, Run: runC01Corpus},
			{Prop: "C01", Name: "programs", Weight: 150, Run: runC01Programs},
			{Prop: "C01", Name: "records", Weight: 150, Run: runC01Records},
			{Prop: "C01", Name: "tool", Weight: 150, Run: runC01Tool},
			{Prop: "C01", Name: "deep", Weight: 4, Run: runC01Deep},
		},
	})
}
