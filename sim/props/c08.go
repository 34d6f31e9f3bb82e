package props

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C08: a sandboxed interpreter and a simulated outside world. Every call
// to the kernel, every use of the environment and every exit of the
// process during an evaluation is decided by core.World; in a sandbox
// there may be none.

const canaryText = `(begin (def CanaryVal "CANARY-CONTENT") (package "canarypkg" (def Secret "CANARY-CONTENT")))`

var (
	decoyPath string
	words     []string
)

func memfile(name, text string) (*os.File, string) {
	b := append([]byte(name), 0)
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&b[0])), 0, 0) // memfd_create
	if e != 0 {
		panic(e)
	}
	f := os.NewFile(fd, name)
	f.WriteString(text)
	f.Seek(0, 0)
	return f, fmt.Sprintf("/proc/self/fd/%d", fd)
}

var decoyFile *os.File

func setupWorld() {
	if decoyFile != nil {
		return
	}
	_ = time.Now().Local().String() // reads the time zone once
	decoyFile, decoyPath = memfile("decoy", canaryText)
	exe, err := os.Executable()
	if err == nil {
		b, _ := os.ReadFile(filepath.Join(filepath.Dir(exe), "words.txt"))
		words = strings.Fields(string(b))
	}
	if len(words) < 100 {
		panic("no words.txt beside the simulator")
	}
}

// outside says whether a text is about a name the sandbox should not
// have; only to steer the generator.
var outsideNames = []string{"source", "slurpf", "writef", "owritef", "save", "bload", "bsave", "greenpack", "system", "sys", "exit", "setenv", "getenv", "include", "import", "req", "dump", "togo", "fromgo", "rmsym", "typelist", "_closdump"}

type c08 struct {
	t     *core.T
	w     *core.World
	env   *zygo.Zlisp
	names []string
	hist  []string
	conf  string
	id    int
}

func (c *c08) fail(class, format string, a ...interface{}) {
	c.t.Failf(class, "%s\nconfiguration: %s\ntexts:\n%s", fmt.Sprintf(format, a...), c.conf, strings.Join(c.hist, "\n----\n"))
}

func (c *c08) name() string {
	t := c.t
	switch t.Pick(4, 3, 2) {
	case 0:
		return c.names[t.Intn(len(c.names))]
	case 1:
		return outsideNames[t.Intn(len(outsideNames))]
	}
	return words[t.Intn(len(words))]
}

var c08Atoms = []string{
	`"/verif-canary/secret.zy"`, `"secret.zy"`, `"./secret.zy"`, `"echo CANARY"`, `"CANARY_VAR"`, `"x"`,
	"7", "3", "-7", "a", "(quote a)", "%secret", "a.b", "h.a", "nil", "true", "2.5", "'c'", "()", "[]", "(hash)",
	`["/verif-canary/secret.zy"]`, `["secret.zy" "x"]`, `(quote ("/verif-canary/secret.zy" "x"))`, `(list "secret.zy")`, `["CANARY_VAR" "x"]`,
	`(hash a:1 b:"x")`, `(raw "secret")`, "`/verif-canary/secret.zy`", "key:", "(fn [x] x)", "(fn [] 7)", "[7]", "[1 2 3]", "string", "int64",
	`"{\"Atype\":\"weather\", \"type\":\"x\"}"`, "/verif-canary/secret.zy", "secret", "ls", "-la", "CANARY_VAR",
	`(hash a:"/verif-canary/secret.zy")`, `"w"`, `"/verif-canary"`, `"${CANARY_VAR}"`, `"$CANARY_VAR"`, `(hash file:"/verif-canary/secret.zy")`, `(hash cmd:"echo CANARY")`, `"file:///verif-canary/secret.zy"`, `"@/verif-canary/secret.zy"`, `"</verif-canary/secret.zy"`, `"|echo CANARY"`, `"!echo CANARY"`, `"file:/verif-canary/secret.zy"`, `"\x00"`, `""`, `(& a)`, "al", "[al]", "(now)",
}

var c08Shapes = [][]string{
	{}, {`"/verif-canary/secret.zy"`}, {`"secret.zy"`}, {`["/verif-canary/secret.zy" "b"]`}, {`(quote ("secret.zy" "b"))`}, {"(quote secret.zy)"}, {"secret"}, {"a"},
	{`"x"`, `"/verif-canary/secret.zy"`}, {`"/verif-canary/secret.zy"`, `"x"`}, {`["x" "y"]`, `"/verif-canary/out"`}, {`(hash a:1)`, `"/verif-canary/out"`}, {`(raw "x")`, `"/verif-canary/out"`},
	{"al", `"/verif-canary/secret.zy"`}, {"al", `"/verif-canary/secret.zy"`, "b"}, {`"echo CANARY"`}, {`"echo"`, `"CANARY"`}, {"echo", "CANARY"}, {"ls"}, {"7"}, {"3"}, {`"CANARY_VAR"`}, {`"CANARY_VAR"`, `"x"`},
	{"CANARY_VAR"}, {`["echo" "CANARY"]`}, {"(fn [x] x)", "[1]"}, {"[1]", "0"}, {`(hash a:1)`, "a:"}, {`"x"`, `"x"`, `"x"`}, {"(quote (a b))"}, {"[a b]"}, {"z", "[a]", "7"}, {"z", `"/verif-canary/secret.zy"`, `"x"`},
	{`(hash a:1)`}, {`(raw "x")`}, {"nil"}, {"%secret"}, {"/verif-canary/secret.zy"}, {"(now)"}, {`"w"`, `"/verif-canary/secret.zy"`}, {`"/verif-canary/secret.zy"`, "7"}, {"7", `"/verif-canary/secret.zy"`},
	{`"@/verif-canary/secret.zy"`}, {`"file:///verif-canary/secret.zy"`}, {`"|echo CANARY"`}, {`"!echo CANARY"`}, {`"${CANARY_VAR}"`}, {"false"}, {"true"}, {"0"}, {"1"}, {`(hash file:"/verif-canary/secret.zy")`},
}

func (c *c08) arg(depth int) string {
	t := c.t
	if depth > 0 && t.Intn(4) == 0 {
		n := c.name()
		if n == "makeChan" || n == "send" || n == "<!" { // a script may wait for ever
			n = "list"
		}
		return c.call(n, depth-1)
	}
	return c08Atoms[t.Intn(len(c08Atoms))]
}

func (c *c08) args(depth int) []string {
	t := c.t
	if t.Intn(3) > 0 {
		return c08Shapes[t.Intn(len(c08Shapes))]
	}
	var a []string
	for n := t.Intn(4); n > 0; n-- {
		a = append(a, c.arg(depth))
	}
	return a
}

func (c *c08) call(n string, depth int) string {
	return "(" + strings.Join(append([]string{n}, c.args(depth)...), " ") + ")"
}

// route reaches for n in some way.
func (c *c08) route(n string, a []string) string {
	t := c.t
	c.id++
	i := c.id
	as := strings.Join(a, " ")
	cs := ""
	if len(as) > 0 {
		cs = " " + as
	}
	direct := "(" + n + cs + ")"
	q := strconv.Quote(n)
	switch t.Pick(6, 1, 1, 2, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1) {
	case 0:
		return direct
	case 1: // what the reader might make something of
		p := []string{"#", "@", "$", "!", "%", "~", "^", "&", "<", ".", "?", "#!", "#include ", "$(", "`"}[t.Intn(15)]
		if t.Bool() {
			return p + n + cs
		}
		return p + as
	case 2:
		if len(a) == 0 {
			return "{" + n + "}"
		}
		return fmt.Sprintf("{%s %s %s}", a[0], n, a[len(a)-1])
	case 3:
		return fmt.Sprintf("(begin (def al%d %s) (al%d%s))", i, n, i, cs)
	case 4:
		return fmt.Sprintf("(apply %s [%s])", n, as)
	case 5:
		return fmt.Sprintf("(map %s [%s])", n, as)
	case 6:
		return fmt.Sprintf("(eval (quote %s))", direct)
	case 7:
		return fmt.Sprintf("(eval (list (str2sym %s)%s))", q, cs)
	case 8:
		return fmt.Sprintf("(eval (cons (quote %s) (list%s)))", n, cs)
	case 9:
		return fmt.Sprintf("(eval (read %s))", strconv.Quote(direct))
	case 10:
		return fmt.Sprintf("(begin (defmac mm%d [& xs] (syntaxQuote (%s (unquote-splicing xs)))) (mm%d%s))", i, n, i, cs)
	case 11:
		return fmt.Sprintf("(begin (defmac mm%d [] %s) (mm%d))", i, direct, i)
	case 12:
		return fmt.Sprintf("((fn [] %s))", direct)
	case 13:
		return fmt.Sprintf("((fn [f] (f%s)) %s)", cs, n)
	case 14:
		return fmt.Sprintf("(let [f %s] (f%s))", n, cs)
	case 15:
		return fmt.Sprintf("((aget [%s] 0)%s)", n, cs)
	case 16:
		return fmt.Sprintf("(begin (def hh%d (hash f: %s)) (hh%d.f%s))", i, n, i, cs)
	case 17:
		return fmt.Sprintf("(package \"pp\" (def R %s))", direct)
	case 18:
		return fmt.Sprintf("(begin (def pp%d (package \"pp\" (def F %s))) (pp%d.F%s))", i, n, i, cs)
	case 19:
		return "{" + direct + "}"
	case 20:
		return fmt.Sprintf("{%s(%s)}", n, strings.Join(a, ", "))
	case 21:
		return fmt.Sprintf("((fn [#z] (force #z)) %s)", direct)
	case 22:
		return fmt.Sprintf("(begin (defn zz%d [] %s) (zz%d))", i, direct, i)
	case 23:
		return fmt.Sprintf("(for [(def i 0) (< i 1) (set i (+ i 1))] %s)", direct)
	case 24:
		return fmt.Sprintf("(cond true %s 0)", direct)
	case 25:
		return fmt.Sprintf("(newScope (let [x 1] (begin %s)))", direct)
	case 26:
		return fmt.Sprintf("(expectError \"\" %s)", direct)
	case 27:
		return fmt.Sprintf("(macexpand %s)", direct)
	case 28:
		return fmt.Sprintf("(eval (first (list (quote %s))))", direct)
	case 29:
		return fmt.Sprintf("(begin (func ff%d [] [r:int64] (return %s)) (ff%d))", i, direct, i)
	default:
		return fmt.Sprintf("{%s%s}", n, cs)
	}
}

func (c *c08) statement() string {
	n := c.name()
	if n == "send" || n == "<!" {
		return c.route(n, []string{"7"})
	}
	return c.route(n, c.args(2))
}

func (c *c08) open() {
	errs := []syscall.Errno{0, syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.ENOSPC, syscall.EPERM}
	c.w = &core.World{Err: errs[c.t.Pick(6, 2, 1, 1, 1, 1)], Writes: []int{1, 2, int(outFile.Fd())}, Decoy: decoyPath}
	if c.w.Err == 0 {
		c.t.Fault("world-answers")
	} else {
		c.t.Fault("world-refuses " + c.w.Err.Error())
	}
}

// judge looks at what reached the world.
func (c *c08) judge(exits []int) {
	if len(c.w.Events) > 0 {
		c.fail("outside", "a sandboxed script reached the outside world: %s", strings.Join(core.WorldEvents(c.w.Events), "; "))
	}
	for _, x := range c.w.Exits {
		ok := false
		for _, e := range exits {
			ok = ok || e == x
		}
		if !ok {
			c.fail("exit", "a sandboxed script ended the process with status %d", x)
		}
	}
}

// sandbox makes one of the configurations.
func (c *c08) sandbox() {
	t := c.t
	c.env = zygo.NewZlispSandbox()
	switch t.Pick(2, 4, 1, 1, 1) {
	case 0:
		c.conf = "NewZlispSandbox"
	case 1:
		c.conf = "NewZlispSandbox, StandardSetup"
		c.env.StandardSetup()
	case 2:
		c.conf = "NewZlispSandbox, StandardSetup, ImportDemoData"
		c.env.StandardSetup()
		zygo.RegisterDemoStructs()
		c.env.ImportDemoData()
	case 3:
		c.conf = "NewZlispSandbox, StandardSetup, Duplicate"
		c.env.StandardSetup()
		c.env = c.env.Duplicate()
	default:
		c.conf = "NewZlispSandbox, StandardSetup, Clone"
		c.env.StandardSetup()
		c.env = c.env.Clone()
	}
	c.t.Probe(c.conf)
	c.names = c.env.VerifNames()
}

func (c *c08) eval(text string) Res {
	c.hist = append(c.hist, text)
	if len(c.hist) > 60 {
		c.hist = c.hist[len(c.hist)-60:]
	}
	c.t.Logf("> %s", text)
	SetBudget(20000, 60000)
	var r Res
	c.w.Run(func() { r = Eval(c.env, text) })
	TakeOutput()
	c.t.Logf("%s %v", r.Kind(), c.w.Events)
	return r
}

func runSandboxPrograms(t *core.T) {
	setupWorld()
	c := &c08{t: t}
	c.sandbox()
	c.open()
	for n := t.Range(1, 8); n > 0; n-- {
		var s []string
		for k := t.Range(1, 3); k > 0; k-- {
			s = append(s, c.statement())
		}
		r := c.eval(strings.Join(s, "\n"))
		if r.Kind() == "value" {
			t.NonTrivial()
			t.State(c.conf + c.hist[len(c.hist)-1])
		}
		t.Probe("text ends in " + r.Kind())
		c.judge(nil)
	}
	t.Sample(clip(strings.Join(c.hist, " ;; "), 1000))
}

// runSandboxSweep: one name, every shape of arguments.
func runSandboxSweep(t *core.T) {
	setupWorld()
	c := &c08{t: t}
	c.sandbox()
	c.open()
	all := map[string]bool{}
	for _, l := range [][]string{c.names, words, outsideNames} {
		for _, n := range l {
			all[n] = true
		}
	}
	var ns []string
	for n := range all {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	n := ns[t.Intn(len(ns))]
	t.Probe("swept")
	t.State(n)
	blocks := n == "send" || n == "<!"
	bound := false
	for _, b := range c.names {
		bound = bound || b == n
	}
	if bound {
		t.NonTrivial()
	}
	for _, a := range c08Shapes {
		if blocks && len(a) > 0 && a[0] == "al" {
			continue
		}
		for k := t.Intn(4); k > 0; k-- {
			c.hist = nil
			c.eval(c.route(n, a))
			c.judge(nil)
		}
	}
	t.Sample(n)
}

// runSandboxTool: the command-line tool under -sandbox.
func runSandboxTool(t *core.T) {
	setupWorld()
	c := &c08{t: t}
	c.env = zygo.NewZlispSandbox()
	c.env.StandardSetup()
	c.names = c.env.VerifNames()
	c.open()
	var lines []string
	for n := t.Range(1, 6); n > 0; n-- {
		if t.Intn(4) == 0 {
			w := []string{".cd", ".ls", ".gls", ".quit", ".dump", ".verb", ".source", ".load", "cd", "!", "&", "*", ":load", "source", "include", "import", "exit", "quit", "."}[t.Intn(19)]
			lines = append(lines, w+" "+[]string{"", "/verif-canary", "\"/verif-canary/secret.zy\"", "7", "ls", "a"}[t.Intn(6)])
			continue
		}
		lines = append(lines, c.statement())
	}
	text := strings.Join(lines, "\n")
	args := []string{"-sandbox", "-no-liner"}
	if t.Bool() {
		args = append(args, "-quiet")
	}
	if t.Intn(4) == 0 {
		args = append(args, "-demo")
	}
	if t.Intn(8) == 0 {
		args = append(args, "-countcalls")
	}
	if t.Intn(4) == 0 {
		args = append(args, "-exitonfail")
	}
	stdin := ""
	var keep []*os.File
	switch t.Pick(3, 2, 2) {
	case 0:
		c.conf = "zygo, on standard input"
		stdin = text + "\n"
	case 1:
		c.conf = "zygo -c"
		args = append(args, "-c", text)
	case 2:
		c.conf = "zygo, script file"
		f, p := memfile("script", text)
		keep = append(keep, f)
		c.w.Script = p
		if t.Bool() {
			args = append(args, "-i")
			stdin = lines[0] + "\n"
		}
		args = append(args, p)
	}
	t.Probe(c.conf)
	c.hist = append(c.hist, strings.Join(args, " "), text)
	t.Logf("> %s %q %q", c.conf, text, stdin)
	in, _ := memfile("stdin", stdin)
	keep = append(keep, in)
	old := os.Stdin
	os.Stdin = in
	c.w.Stdin = true
	cfg := zygo.NewZlispConfig("zygo")
	cfg.DefineFlags()
	cfg.Flags.Init("zygo", flag.ContinueOnError)
	if err := cfg.Flags.Parse(args); err != nil {
		t.Harnessf("flags: %v", err)
	}
	if err := cfg.ValidateConfig(); err != nil {
		t.Harnessf("flags: %v", err)
	}
	SetBudget(40000, 100000)
	var p interface{}
	c.w.Run(func() { p, _ = core.Guard(func() { zygo.ReplMain(cfg) }) })
	os.Stdin = old
	zygo.Verbose = false
	for _, f := range keep {
		f.Close()
	}
	TakeOutput()
	_, exited := p.(core.Exited)
	t.Logf("exited %v %v", exited, c.w.Events)
	if exited {
		t.NonTrivial()
	}
	t.State(text)
	// the tool itself ends with these; scripts try others
	c.judge([]int{0, 1, -1})
	t.Sample(clip(strings.Join(c.hist, " ;; "), 1000))
}

// runWorldControl: the same world around an interpreter that is not
// sandboxed notices what that does.
func runWorldControl(t *core.T) {
	setupWorld()
	c := &c08{t: t, conf: "control: not a sandbox"}
	c.env = zygo.NewZlisp()
	c.env.StandardSetup()
	c.open()
	tests := []struct{ text, want string }{
		{`(slurpf "/verif-canary/secret.zy")`, "verif-canary"},
		{`(source "/verif-canary/secret.zy")`, "verif-canary"},
		{`(include "/verif-canary/secret.zy")`, "verif-canary"},
		{`(import "/verif-canary/secret.zy")`, "verif-canary"},
		{`(owritef ["x"] "/verif-canary/out")`, "verif-canary"},
		{`(system "echo CANARY")`, ""},
		{`(getenv "CANARY_VAR")`, "getenv"},
		{`(setenv "CANARY_VAR" "x")`, "setenv"},
	}
	k := tests[t.Intn(len(tests))]
	c.eval(k.text)
	if len(c.w.Events) == 0 || !strings.Contains(strings.Join(c.w.Events, " "), k.want) {
		t.Harnessf("control: %s did not reach the simulated world: %v", k.text, c.w.Events)
	}
	c.w.Events = nil
	c.eval(`(exit 7)`)
	if len(c.w.Exits) != 1 || c.w.Exits[0] != 7 {
		t.Harnessf("control: exit did not reach the simulated world")
	}
	t.Probe("control")
	t.NonTrivial()
}

func init() {
	core.Register(&core.Property{
		ID: "C08", Level: "exploration",
		Rule:      "A run is one sandboxed interpreter (bare, with the standard setup, with the demo data, a duplicate or clone of one, or the command-line tool's own main function under -sandbox on standard input, -c or a script file) with a simulated outside world behind Go's syscall package: while a text is evaluated every call to the kernel, every use of the environment, every process start and every exit of the process is decided by the simulator, recorded, and refused with a seeded error or made to seem to succeed (reads give a canary file). Texts reach for every name the interpreter knows, every word in the library's sources (special forms are bound nowhere) and the names of the outside-world functions, through 29 routes (direct, alias, apply, map, eval of quoted and of built forms, macros at expansion and run time, closures, parameters, hashes, arrays, packages, infix, lazy arguments, loops), with 40 shapes of arguments (canary paths, commands, environment names, exit codes) and nested calls; tool lines include the REPL's own commands. Nothing may be recorded. Controls run the same world around an unsandboxed interpreter and must see its effects. Non-trivial: a text ended in a value (programs), the swept name is bound (sweep), the tool ran to its end. States: distinct texts or swept names.",
		QuickRuns: 130000, ThorRuns: 6000000,
		Assumptions: []string{
			"reading the clock and time zone files, random numbers and writing to standard output and error are not the outside world",
			"the kernel is reached only through Go's syscall package (the library has no assembly or cgo of its own)",
			"the command-line tool itself may open the script file it is given, read standard input and exit with status 0, 1 or -1",
		},
		Components: map[string]interface{}{
			"real":      []string{"the whole library, the tool's ReplMain and flag handling, Go's os, os/exec, io and time packages"},
			"simulated": []string{"the kernel behind syscall.Syscall, Syscall6, RawSyscall, RawSyscall6, fork and exec; the environment; os.Exit; standard input; Go map iteration order"},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C08", Name: "sweep", Weight: 2, Run: runSandboxSweep},
			{Prop: "C08", Name: "programs", Weight: 6, Run: runSandboxPrograms},
			{Prop: "C08", Name: "tool", Weight: 3, Run: runSandboxTool},
			{Prop: "C08", Name: "control", Weight: 1, Run: runWorldControl},
		},
	})
}
