// Package props holds the simulated scenarios and oracles, one family
// per property.
package props

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// ---- process-global state of the system under test ----

type regSnap struct {
	registry, builtin, userdef map[string]*zygo.RegisteredType
	values                     map[*zygo.RegisteredType]zygo.RegisteredType
	aliases                    map[*zygo.RegisteredType]map[string]bool
	list                       []string
}

var snap *regSnap

func copyReg(m map[string]*zygo.RegisteredType) map[string]*zygo.RegisteredType {
	r := make(map[string]*zygo.RegisteredType, len(m))
	for _, k := range regKeys(m) {
		r[k] = m[k]
	}
	return r
}

func regKeys(m map[string]*zygo.RegisteredType) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func takeSnap() *regSnap {
	g := &zygo.GoStructRegistry
	s := &regSnap{copyReg(g.Registry), copyReg(g.Builtin), copyReg(g.Userdef),
		map[*zygo.RegisteredType]zygo.RegisteredType{}, map[*zygo.RegisteredType]map[string]bool{},
		append([]string{}, zygo.ListRegisteredTypes...)}
	for _, e := range g.Registry {
		s.values[e] = *e
		al := map[string]bool{}
		for k, v := range e.Aliases {
			al[k] = v
		}
		s.aliases[e] = al
	}
	return s
}

// restoreRegistry undoes every type registration since the process
// started: the registry is process-global, and a run must not depend on
// earlier runs.
func restoreRegistry() {
	if snap == nil {
		return
	}
	g := &zygo.GoStructRegistry
	g.Registry, g.Builtin, g.Userdef = copyReg(snap.registry), copyReg(snap.builtin), copyReg(snap.userdef)
	for _, k := range regKeys(snap.registry) {
		e := snap.registry[k]
		v := snap.values[e]
		v.Aliases = map[string]bool{}
		al := make([]string, 0)
		for a := range snap.aliases[e] {
			al = append(al, a)
		}
		sort.Strings(al)
		for _, a := range al {
			v.Aliases[a] = true
		}
		*e = v
	}
	zygo.ListRegisteredTypes = append([]string{}, snap.list...)
}

// ---- stdout of the system under test ----

var outFile *os.File
var devNull *os.File

func setupStdout() {
	f, err := os.CreateTemp("", "verifout")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	outFile = f
	realStdout = os.Stdout // not to be collected, which would close it
	os.Stdout = f
	zygo.OurStdout = f
}

// TakeOutput returns and clears what was printed.
func TakeOutput() string {
	n, _ := outFile.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	b := make([]byte, n)
	k, _ := outFile.ReadAt(b, 0)
	outFile.Seek(0, io.SeekStart)
	outFile.Truncate(0)
	return string(b[:k])
}

// ---- budgets ----

type budgetStop struct{ kind string }

var (
	stepsUsed, stepBudget int64
	runesUsed, runeBudget int64
	onStep                func(env *zygo.Zlisp)
	budgetHit             string
	stepsTotal            int64
)

// SetBudget bounds the VM instructions and lexed runes until the next
// call; the simulated clock is the number of VM instructions.
func SetBudget(steps, runes int64) {
	stepsTotal += stepsUsed
	stepsUsed, runesUsed, budgetHit = 0, 0, ""
	stepBudget, runeBudget = steps, runes
}

func init() {
	zygo.VerifStepHook = func(env *zygo.Zlisp) {
		stepsUsed++
		if stepsUsed > stepBudget {
			budgetHit = "steps"
			panic(budgetStop{"steps"})
		}
		if onStep != nil {
			onStep(env)
		}
	}
	zygo.VerifRuneHook = func() {
		runesUsed++
		if runesUsed > runeBudget {
			budgetHit = "runes"
			panic(budgetStop{"runes"})
		}
	}
	core.BeforeRun = func(t *core.T) {
		if snap == nil {
			// one throw-away interpreter first: creating one may
			// complete process-global tables lazily.
			snap = takeSnap()
			setupStdout()
		}
		restoreRegistry()
		TakeOutput()
		onStep = nil
		stepsTotal = 0
		stepsUsed = 0
		SetBudget(1<<40, 1<<40)
		stepsTotal = 0
	}
	core.AfterRun = func(t *core.T) {
		if t != nil {
			t.Steps = stepsTotal + stepsUsed
		}
		onStep = nil
	}
}

// ---- structural dump of values ----

// Dump writes a value structurally, independently of the system's own
// printer. Cycles and depth are cut.
func Dump(x zygo.Sexp) string {
	var b strings.Builder
	d := dumper{b: &b}
	d.dump(x, 0)
	return b.String()
}

type dumper struct {
	pkgs map[*zygo.Stack]int
	b    *strings.Builder
	n    int
}

func (d *dumper) dump(x zygo.Sexp, depth int) {
	d.n++
	if depth > 200 || d.n > 20000 {
		d.b.WriteString("<deep>")
		return
	}
	w := d.b.WriteString
	switch v := x.(type) {
	case nil:
		w("<go-nil>")
	case *zygo.SexpSentinel:
		switch v {
		case zygo.SexpNull:
			w("nil")
		case zygo.SexpEnd:
			w("<End>")
		case zygo.SexpMarker:
			w("<Marker>")
		default:
			fmt.Fprintf(d.b, "<sentinel %d>", v.Val)
		}
	case *zygo.SexpInt:
		w(strconv.FormatInt(v.Val, 10))
	case *zygo.SexpUint64:
		w(strconv.FormatUint(v.Val, 10) + "ULL")
	case *zygo.SexpFloat:
		w("f" + strconv.FormatFloat(v.Val, 'g', -1, 64))
	case *zygo.SexpBool:
		w(strconv.FormatBool(v.Val))
	case *zygo.SexpChar:
		w("#" + strconv.QuoteRune(v.Val))
	case *zygo.SexpStr:
		w(strconv.Quote(v.S))
	case *zygo.SexpSymbol:
		w("'" + v.Name())
	case *zygo.SexpPair:
		w("(")
		for {
			d.dump(v.Head, depth+1)
			if v.Tail == zygo.SexpNull {
				break
			}
			p, ok := v.Tail.(*zygo.SexpPair)
			if !ok {
				w(" \\ ")
				d.dump(v.Tail, depth+1)
				break
			}
			d.n++
			if d.n > 20000 {
				w("<deep>")
				break
			}
			w(" ")
			v = p
		}
		w(")")
	case *zygo.SexpArray:
		w("[")
		for i, e := range v.Val {
			if i > 0 {
				w(" ")
			}
			d.dump(e, depth+1)
		}
		w("]")
	case *zygo.SexpHash:
		w("{" + v.TypeName)
		for _, k := range v.KeyOrder {
			// not HashGet, which follows dotted symbols
			val, err := v.HashGetDefault(nil, k, zygo.SexpEnd)
			if err != nil || val == zygo.SexpEnd {
				continue
			}
			w(" ")
			d.dump(k, depth+1)
			w(":")
			d.dump(val, depth+1)
		}
		w("}")
	case *zygo.SexpComment:
		w("/*" + v.Comment + "*/")
	case *zygo.SexpComma:
		w(",")
	case *zygo.SexpSemicolon:
		w(";")
	case *zygo.SexpFunction:
		w("<fn>")
	case *zygo.SexpRaw:
		fmt.Fprintf(d.b, "raw%x", v.Val)
	case *zygo.SexpLazyArg:
		w("<lazy>")
	case *zygo.SexpError:
		w("<error " + Scrub(v.Error()) + ">")
	case *zygo.SexpPointer:
		w("<ptr ")
		d.dump(v.Target, depth+1)
		w(">")
	case *zygo.RegisteredType:
		w("<type " + v.RegisteredName + ">")
	case *zygo.Stack:
		if v.IsPackage {
			d.dumpPkg(v, depth)
			return
		}
		fmt.Fprintf(d.b, "<%T>", x)
	default:
		fmt.Fprintf(d.b, "<%T>", x)
	}
}

var reNum = regexp.MustCompile(`[0-9a-fx]{6,}`)
var rePtr = regexp.MustCompile(`0x[0-9a-fA-F]{3,}`)
var reGoroutine = regexp.MustCompile(`goroutine \d+`)

// Scrub removes pointers and goroutine numbers from text, which may
// differ between processes.
func Scrub(s string) string {
	if i := strings.Index(s, "stack trace:"); i >= 0 {
		s = s[:i] + "stack trace"
	}
	s = rePtr.ReplaceAllString(s, "0xP")
	return reGoroutine.ReplaceAllString(s, "goroutine N")
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n] + "..."
}

// ---- evaluation ----

// Res is the outcome of a call into the library.
type Res struct {
	Val    zygo.Sexp
	Dump   string
	Err    error
	ErrTxt string
	Panic  string // a panic escaped
	Stack  string
	Budget string // the step or rune budget ran out
}

func (r Res) String() string {
	switch {
	case r.Budget != "":
		return "<out of " + r.Budget + ">"
	case r.Panic != "":
		return "<panic " + clip(r.Panic, 300) + ">"
	case r.Err != nil:
		return "<error " + clip(r.ErrTxt, 300) + ">"
	}
	return r.Dump
}

// Kind is "value", "error", "panic" or "budget".
func (r Res) Kind() string {
	switch {
	case r.Budget != "":
		return "budget"
	case r.Panic != "":
		return "panic"
	case r.Err != nil:
		return "error"
	}
	return "value"
}

// Call guards a call into the library.
func Call(f func() (zygo.Sexp, error)) (r Res) {
	var v zygo.Sexp
	var err error
	p, st := core.Guard(func() { v, err = f() })
	if budgetHit != "" {
		r.Budget = budgetHit
		return
	}
	if p != nil {
		if b, ok := p.(budgetStop); ok {
			r.Budget = b.kind
			return
		}
		r.Panic = Scrub(fmt.Sprint(p))
		r.Stack = st
		return
	}
	if err != nil {
		r.Err = err
		r.ErrTxt = Scrub(err.Error())
		return
	}
	r.Val = v
	r.Dump = Dump(v)
	return
}

// Eval is EvalString, guarded.
func Eval(env *zygo.Zlisp, text string) Res {
	return Call(func() (zygo.Sexp, error) { return env.EvalString(text) })
}

func depths(env *zygo.Zlisp) zygo.VerifDepths { return env.VerifDepths() }

// atRest says whether the interpreter is at rest, and how not.
func atRest(env *zygo.Zlisp) string {
	d := depths(env)
	var bad []string
	if d.Data != 0 {
		bad = append(bad, fmt.Sprintf("data stack depth %d", d.Data))
	}
	if d.Scope != 1 {
		bad = append(bad, fmt.Sprintf("scope stack depth %d", d.Scope))
	}
	if d.Addr != 0 {
		bad = append(bad, fmt.Sprintf("address stack depth %d", d.Addr))
	}
	if d.Loop != 0 {
		bad = append(bad, fmt.Sprintf("loop stack depth %d", d.Loop))
	}
	if !d.MainFunc {
		bad = append(bad, "not in the main program")
	}
	if !d.AtEnd {
		bad = append(bad, "main program not at its end")
	}
	return strings.Join(bad, ", ")
}

var realStdout *os.File
