package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C13: the source of the text and the parser are the two parties of a
// stream protocol; the simulator is the transport. It decides where the
// stream is cut, what is queued before the parser is resumed, when
// it is resumed with nothing new, when the reader fails, and when a
// conversation is abandoned half way for another one.

// emitter builds a source text together with what is known about it.
type emitter struct {
	t     *core.T
	r     []rune
	open  int
	soft  bool   // the parser may or may not ask for more here
	state []byte // after rune i: 'c' complete, 'o' open, 's' soft
	need  bool   // a separator is needed before the next atom
	plain bool   // only constructs with known values
	nopen int
	rare  map[string]bool
}

func (e *emitter) put(s string) {
	for _, c := range s {
		e.r = append(e.r, c)
		st := byte('c')
		if e.soft {
			st = 's'
		}
		if e.open > 0 {
			st = 'o'
		}
		e.state = append(e.state, st)
	}
}

// opn writes an opening s: after it, the text is unfinished.
func (e *emitter) opn(s string) {
	n := len([]rune(s))
	rs := []rune(s)
	if n > 1 {
		sv := e.soft
		e.soft = true
		e.put(string(rs[:n-1]))
		e.soft = sv
	}
	e.open++
	e.put(string(rs[n-1:]))
}

func (e *emitter) cls(s string) {
	rs := []rune(s)
	if len(rs) > 1 {
		e.put(string(rs[:len(rs)-1]))
	}
	e.open--
	e.put(string(rs[len(rs)-1:]))
}

func (e *emitter) ws() {
	t := e.t
	switch t.Pick(12, 3, 2, 2, 2, 1, 1, 1) {
	case 0:
		e.put(" ")
	case 1:
		e.put("\n")
	case 2:
		e.put("\t ")
	case 3:
		e.put("\n\n  ")
	case 4:
		e.put(" // c " + []string{"x", "(", "\"", "a /* b", "`", "]"}[t.Intn(6)] + "\n")
	case 5:
		// a block comment within one line
		e.put(" ")
		e.opn("/*")
		e.put([]string{" c ", "", "*", " ** ", "(", " // ", "\"", " * x"}[t.Intn(8)])
		e.cls("*/")
		e.put(" ")
		e.rare["block-comment"] = true
	case 6:
		e.put(" ")
		e.opn("/*")
		e.put([]string{" a\n b\n", "\n", "x *\n* y", "\n\n(\n"}[t.Intn(4)])
		e.cls("*/")
		e.put("\n")
		e.rare["multi-line-comment"] = true
	case 7:
		e.put("\r\n")
	}
	e.need = false
}

func (e *emitter) sep() {
	if e.need || e.t.Chance(1, 4) {
		e.ws()
	}
}

// apart makes sure that what follows does not touch what precedes.
func (e *emitter) apart() {
	if len(e.r) > 0 && !strings.ContainsRune(" \t\n\r([{", e.r[len(e.r)-1]) {
		e.put(" ")
	}
}

var c13syms = []string{"a", "foo", "x1", "bar2", "e", "Inf2", "n_m", "some?", "a.b", ".c", "t.u.v", "#lz", "?q", "世界"}

// atom emits an atom and returns its dump.
func (e *emitter) atom() string {
	t := e.t
	e.sep()
	e.need = true
	switch t.Pick(6, 5, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1) {
	case 0:
		n := t.Intn(1000)
		e.put(strconv.Itoa(n))
		return strconv.Itoa(n)
	case 1:
		s := c13syms[t.Intn(len(c13syms))]
		e.apart()
		e.put(s)
		return "'" + strings.TrimLeft(s, "") // name as written
	case 2:
		n := -1 - t.Intn(50)
		e.apart()
		e.put(strconv.Itoa(n))
		return strconv.Itoa(n)
	case 3, 4: // string
		parts := []string{"", "a", "hello world", "(", "]", "// no", "/* no", "`", "x\ny", "%q", "é世", ";", "~", "\\n", "\\\"", "\\\\", "\\t"}
		vals := []string{"", "a", "hello world", "(", "]", "// no", "/* no", "`", "x\ny", "%q", "é世", ";", "~", "\n", "\"", "\\", "\t"}
		e.opn("\"")
		v := ""
		for i, n := 0, t.Intn(3); i < n; i++ {
			k := t.Intn(len(parts))
			e.put(parts[k])
			v += vals[k]
		}
		e.cls("\"")
		e.rare["string"] = true
		return strconv.Quote(v)
	case 5: // raw string
		parts := []string{"raw", "", "a\nb", "\"", "(", "\\n", "// x", "/*", "'", "\n\n"}
		e.opn("`")
		v := ""
		for i, n := 0, t.Intn(3); i < n; i++ {
			k := t.Intn(len(parts))
			e.put(parts[k])
			v += parts[k]
		}
		e.cls("`")
		e.rare["raw-string"] = true
		return strconv.Quote(v)
	case 6: // char
		lits := []string{"'a'", "'z'", "'('", "'\\n'", "' '", "'世'", "'\\''", "'\"'", "'é'"}
		vals := []rune{'a', 'z', '(', '\n', ' ', '世', '\'', '"', 'é'}
		k := t.Intn(len(lits))
		rs := []rune(lits[k])
		e.soft = true
		e.put(string(rs[:len(rs)-1]))
		e.soft = false
		e.put("'")
		return "#" + strconv.QuoteRune(vals[k])
	case 7: // float
		lits := []string{"1.5", "2.0", "-3.25", "1e3", "-2.5e-3", ".5", "1E+2", "6."}
		vals := []float64{1.5, 2, -3.25, 1000, -2.5e-3, .5, 100, 6}
		k := t.Intn(len(lits))
		e.apart()
		e.put(lits[k])
		return "f" + strconv.FormatFloat(vals[k], 'g', -1, 64)
	case 8:
		lits := []string{"true", "false", "nil"}
		vals := []string{"true", "false", "'nil"}
		k := t.Intn(len(lits))
		e.put(lits[k])
		return vals[k]
	case 9:
		lits := []string{"0x1F", "0o17", "0b101", "12ULL", "1_000"}
		vals := []string{"31", "15", "5", "12ULL", "1000"}
		k := t.Intn(len(lits))
		e.put(lits[k])
		return vals[k]
	case 10: // operator symbols stand between spaces
		ops := []string{"*", "<=", "==", "!=", "->", "/", "<", "&&", "+=", "=", ":=", "**", "||"}
		names := []string{"*", "<=", "==", "!=", "->", "/", "<", "and", "+=", "=", ":=", "**", "or"}
		k := t.Intn(len(ops))
		if len(e.r) > 0 && e.r[len(e.r)-1] != ' ' {
			e.put(" ")
		}
		e.put(ops[k])
		e.put(" ")
		return "'" + names[k]
	default: // signs; a following Inf would be -Inf, which is not generated
		ops := []string{"+", "-"}
		k := t.Intn(2)
		if len(e.r) > 0 && e.r[len(e.r)-1] != ' ' {
			e.put(" ")
		}
		if e.open == 0 {
			e.soft = true
		}
		e.put(ops[k] + " ")
		e.soft = false
		return "'" + ops[k]
	}
}

// expr emits an expression; "?" stands for an unknown dump.
func (e *emitter) expr(depth int) string {
	t := e.t
	if depth <= 0 {
		return e.atom()
	}
	switch t.Pick(8, 6, 4, 2, 2, 2, 2, 1) {
	case 0:
		return e.atom()
	case 1: // list
		e.sep()
		e.opn("(")
		e.need = false
		e.nopen++
		var el []string
		t.Many(0, 5, 3, func(i int) { el = append(el, e.expr(depth-1)) })
		if t.Chance(1, 5) {
			e.ws()
		}
		e.cls(")")
		e.need = false
		if len(el) == 0 {
			return "nil"
		}
		return joinList(el)
	case 2: // array
		e.sep()
		e.opn("[")
		e.need = false
		e.nopen++
		var el []string
		t.Many(0, 5, 3, func(i int) { el = append(el, e.expr(depth-1)) })
		if t.Chance(1, 5) {
			e.ws()
		}
		e.cls("]")
		e.need = false
		return joinArr(el)
	case 3: // prefix
		pre := []string{"%", "^", "~", "~@"}
		nm := []string{"'quote", "'syntaxQuote", "'unquote", "'unquote-splicing"}
		k := t.Intn(len(pre))
		e.sep()
		if len(e.r) > 0 && !strings.ContainsRune(" \n\t([{", e.r[len(e.r)-1]) {
			e.put(" ")
		}
		sv := e.soft
		e.soft = true
		e.put(pre[k])
		e.need = false
		// the operand directly follows
		mark := len(e.r)
		d := e.operand(depth - 1)
		e.soft = sv
		_ = mark
		// the last rune of the operand is settled by e.put with soft; fix it
		if e.open == 0 && !sv {
			last := e.r[len(e.r)-1]
			if last == ')' || last == ']' || last == '"' {
				e.state[len(e.state)-1] = 'c'
			}
		}
		e.rare["prefix"] = true
		if nm[k] == "'unquote-splicing" {
			return "?"
		}
		return joinList([]string{nm[k], d})
	case 4: // infix block
		e.sep()
		e.opn("{")
		e.nopen++
		n := t.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				e.put([]string{" + ", "; ", " , ", " == ", "\n"}[t.Intn(5)])
			}
			e.put([]string{"a", "b", "7", "(f 1)", "x[0]"}[t.Intn(5)])
		}
		e.cls("}")
		e.need = true
		e.rare["infix"] = true
		return "?"
	case 5: // hash literals
		e.sep()
		e.opn("{")
		e.nopen++
		n := t.Intn(3)
		if t.Chance(1, 4) {
			e.ws()
		}
		for i := 0; i < n; i++ {
			e.put([]string{"a:", "b: ", "\"k\": ", "`r`:", "zz :"}[t.Intn(4)])
			e.need = true
			e.expr(depth - 2)
			if t.Bool() {
				e.put(" ")
			} else {
				e.put(", ")
			}
		}
		e.cls("}")
		e.need = true
		e.rare["hash-literal"] = true
		return "?"
	case 6: // dotted pair
		e.sep()
		e.opn("(")
		e.need = false
		e.nopen++
		a := e.expr(depth - 2)
		e.put(" \\ ")
		e.need = false
		b := e.atomNoSign()
		e.cls(")")
		e.need = false
		e.rare["dotted"] = true
		return "(" + a + " \\ " + b + ")?"
	default:
		e.sep()
		e.need = true
		e.put("key:")
		e.put(" ")
		return "?"
	}
}

func (e *emitter) atomNoSign() string {
	n := e.t.Intn(100)
	e.put(strconv.Itoa(n))
	return strconv.Itoa(n)
}

func (e *emitter) operand(depth int) string {
	t := e.t
	switch t.Pick(3, 3, 2, 1) {
	case 0:
		s := []string{"a", "foo", "bar2"}[t.Intn(3)]
		e.put(s)
		e.need = true
		return "'" + s
	case 1:
		e.opn("(")
		e.need = false
		el := []string{}
		t.Many(1, 4, 2, func(int) { el = append(el, e.expr(depth)) })
		e.cls(")")
		e.need = false
		return joinList(el)
	case 2:
		n := t.Intn(50)
		e.put(strconv.Itoa(n))
		e.need = true
		return strconv.Itoa(n)
	default:
		e.opn("[")
		e.need = false
		el := []string{}
		t.Many(0, 3, 2, func(int) { el = append(el, e.expr(depth)) })
		e.cls("]")
		e.need = false
		return joinArr(el)
	}
}

func joinList(el []string) string {
	for _, x := range el {
		if strings.HasSuffix(x, "?") {
			return "?"
		}
	}
	return "(" + strings.Join(el, " ") + ")"
}

func joinArr(el []string) string {
	for _, x := range el {
		if strings.HasSuffix(x, "?") {
			return "?"
		}
	}
	return "[" + strings.Join(el, " ") + "]"
}

// c13text generates a text; want[i] is the dump of expression i ("?" if
// not known); ok is false if the text contains a hard error.
type c13text struct {
	runes []rune
	state []byte
	want  []string
	bad   bool
	rare  map[string]bool
	nopen int
}

var c13bad = []string{")", "]", "12abc", "\"\\q\"", "'abc'", "}", "(a ]", "[1 )", "a~", "b%c", "#", "'\\q'", "12x", "(1 \\ 2 3)", "@"}

func genText(t *core.T, maxExpr int, allowBad bool) *c13text {
	e := &emitter{t: t, rare: map[string]bool{}}
	x := &c13text{rare: e.rare}
	badAt := -1
	if allowBad && t.Chance(1, 6) {
		badAt = t.Intn(4)
	}
	t.Many(1, maxExpr, 3, func(i int) {
		if i == badAt {
			e.ws()
			e.put(c13bad[t.Intn(len(c13bad))])
			e.put("\n")
			e.need = false
			x.bad = true
			return
		}
		x.want = append(x.want, e.expr(t.Intn(4)))
	})
	if n := len(x.want); n > 0 && (x.want[n-1] == "'+" || x.want[n-1] == "'-") {
		// a final sign stays pending in a stream: it may start +Inf
		e.put("1 ")
		x.want = append(x.want, "1")
	}
	x.runes, x.state, x.nopen = e.r, e.state, e.nopen
	return x
}

// flaky is a RuneScanner over runes that fails when told.
type flaky struct {
	r      []rune
	i      int
	failAt int // -1: never
	err    error
}

func (f *flaky) ReadRune() (rune, int, error) {
	if f.failAt >= 0 && f.i == f.failAt {
		f.failAt = -1
		return 0, 0, f.err
	}
	if f.i >= len(f.r) {
		return 0, 0, io.EOF
	}
	c := f.r[f.i]
	f.i++
	return c, len(string(c)), nil
}

func (f *flaky) UnreadRune() error {
	if f.i > 0 {
		f.i--
	}
	return nil
}

type parseRes struct {
	exprs []zygo.Sexp
	dumps []string
	err   error
	panic string
	stop  string
}

func (p *parseRes) kind() string {
	switch {
	case p.stop != "":
		return "no-return"
	case p.panic != "":
		return "panic:" + clip(p.panic, 200)
	case p.err == nil:
		return "ok"
	case p.err == zygo.ErrMoreInputNeeded:
		return "more"
	}
	return "error:" + clip(p.err.Error(), 200)
}

func parseTokens(p *zygo.Parser) (r parseRes) {
	pv, _ := core.Guard(func() { r.exprs, r.err = p.ParseTokens() })
	if pv != nil {
		if b, ok := pv.(budgetStop); ok {
			r.stop = b.kind
			return
		}
		r.panic = fmt.Sprint(pv)
	}
	for _, x := range r.exprs {
		r.dumps = append(r.dumps, Dump(x))
	}
	return
}

func wholeParse(runes []rune) parseRes {
	env := zygo.NewZlisp()
	defer env.Close()
	p := env.NewParser()
	p.Start()
	SetBudget(1<<20, 100000)
	p.ResetAddNewInput(&flaky{r: append(append([]rune{}, runes...), '\n'), failAt: -1})
	return parseTokens(p)
}

func stripComments(d []string) []string {
	var r []string
	for _, x := range d {
		if strings.HasPrefix(x, "/*") {
			continue
		}
		r = append(r, x)
	}
	return r
}

// checkWhole compares a parse of the whole text with what the generator
// knows about it.
func checkWhole(t *core.T, x *c13text, w parseRes, how string) {
	if x.bad {
		if w.kind() == "ok" {
			t.Probe("bad-text-accepted")
		}
		return
	}
	if w.kind() != "ok" {
		t.Failf("whole-parse-"+strings.SplitN(w.kind(), ":", 2)[0], "%s of complete text %q: %s", how, string(x.runes), w.kind())
	}
	got := stripComments(w.dumps)
	if len(got) != len(x.want) {
		t.Failf("expression-count", "%s of %q gave %d expressions %v, the text has %d %v", how, string(x.runes), len(got), got, len(x.want), x.want)
	}
	for i := range got {
		if !strings.HasSuffix(x.want[i], "?") && !strings.Contains(got[i], "/*") && got[i] != x.want[i] {
			t.Failf("expression-value", "%s of %q: expression %d is %s, want %s", how, string(x.runes), i, got[i], x.want[i])
		}
	}
}

func eqDumps(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var errInjected = errors.New("simulated read failure")

// history makes the parser go through earlier conversations.
func (c *c13conv) history(t *core.T) {
	t.Many(0, 4, 1, func(i int) {
		x := genText(t, 3, true)
		cut := len(x.runes)
		kind := t.Pick(3, 3, 2, 2)
		switch kind {
		case 0:
			t.Logf("earlier conversation, whole: %q", string(x.runes))
		case 1:
			cut = t.Intn(len(x.runes) + 1)
			t.Logf("earlier conversation, abandoned after: %q", string(x.runes[:cut]))
			t.Fault("abandoned-mid-text")
		case 2:
			t.Logf("earlier conversation, reader fails after: %q", string(x.runes))
			cut = t.Intn(len(x.runes) + 1)
		case 3:
			t.Logf("earlier conversation, two pieces queued: %q", string(x.runes))
		}
		f := &flaky{r: x.runes[:cut], failAt: -1}
		if kind == 2 {
			f = &flaky{r: x.runes, failAt: cut, err: errInjected}
		}
		c.p.ResetAddNewInput(f)
		if kind == 3 && len(x.runes) > 1 {
			f.r = x.runes[:len(x.runes)/2]
			c.p.NewInput(&flaky{r: x.runes[len(x.runes)/2:], failAt: -1})
		}
		SetBudget(1<<20, 100000)
		r := parseTokens(c.p)
		t.Logf("  -> %s", r.kind())
		if kind == 2 {
			if f.failAt == -1 {
				t.Fault("read-error")
				if r.err == nil && r.panic == "" {
					t.Failf("read-error-lost", "the reader failed with %q after %q, and ParseTokens returned no error", errInjected, string(x.runes[:cut]))
				}
			}
		}
		if r.panic != "" {
			t.Failf("parser-panic", "ParseTokens panicked: %s", r.panic)
		}
		if r.stop != "" {
			t.Failf("parser-loops", "ParseTokens did not return")
		}
		switch t.Pick(4, 1, 1) {
		case 1:
			c.p.Reset()
		case 2:
			c.p.Stop()
		}
	})
}

type c13conv struct {
	p *zygo.Parser
}

// c13Stream: one parser, earlier conversations, then the text in pieces.
func c13Stream(t *core.T) {
	env := zygo.NewZlisp()
	defer env.Close()
	c := &c13conv{p: env.NewParser()}
	c.p.Start()
	c.history(t)

	x := genText(t, 5, true)
	t.Logf("text: %q", string(x.runes))
	t.Sample(fmt.Sprintf("text %q", string(x.runes)))
	w := wholeParse(x.runes)
	t.Logf("whole: %s %v", w.kind(), w.dumps)
	checkWhole(t, x, w, "parse")

	// deliver in pieces
	full := append(append([]rune{}, x.runes...), '\n')
	state := append(append([]byte{}, x.state...), 'c')
	if x.bad {
		for i := range state {
			state[i] = 's'
		}
	}
	pos := 0
	first := true
	pauses := 0
	pieces := 0
	bias := t.Intn(3)
	var r parseRes
	for pos < len(full) {
		done := false
		t.Span(func() {
			// how much to deliver, in how many queued pieces
			queued := 1 + t.Pick(6, 2, 1)
			if first {
				queued = 1
			}
			for q := 0; q < queued; q++ {
				n := 0
				switch bias {
				case 0:
					n = 1 + t.Intn(len(full)-pos+1)
				case 1:
					n = 1 + t.Intn(6)
				case 2:
					n = t.Intn(3)
				}
				if pos+n > len(full) {
					n = len(full) - pos
				}
				if n == 0 && t.Exhausted() {
					n = len(full) - pos
				}
				f := &flaky{r: full[pos : pos+n], failAt: -1}
				if first {
					c.p.ResetAddNewInput(f)
					first = false
				} else {
					c.p.NewInput(f)
				}
				pieces++
				if n == 0 {
					t.Fault("empty-piece")
				}
				t.Logf("deliver %q", string(full[pos:pos+n]))
				pos += n
			}
			SetBudget(1<<20, 100000)
			r = parseTokens(c.p)
			t.Logf("  -> %s %v", r.kind(), r.dumps)
			if r.panic != "" {
				t.Failf("parser-panic", "ParseTokens panicked: %s", r.panic)
			}
			if r.stop != "" {
				t.Failf("parser-loops", "ParseTokens did not return")
			}
			if strings.HasPrefix(r.kind(), "error") {
				done = true
				return
			}
			if pos > 0 {
				switch state[pos-1] {
				case 'c':
					if r.kind() == "more" {
						t.Failf("asks-for-more-when-complete", "after %q the parser asks for more input, though nothing is unfinished", string(full[:pos]))
					}
				case 'o':
					if r.kind() != "more" {
						t.Failf("does-not-ask-for-more", "after %q, an unfinished prefix, the parser returned %s", string(full[:pos]), r.kind())
					}
				}
			}
			if r.kind() == "more" {
				pauses++
				t.Fault("pause-inside-construct")
			} else if pos < len(full) {
				t.Fault("pause-between-expressions")
			}
			if t.Chance(1, 8) {
				// resumed with nothing new
				t.Fault("resume-without-input")
				SetBudget(1<<20, 100000)
				r2 := parseTokens(c.p)
				t.Logf("resumed with nothing new -> %s %v", r2.kind(), r2.dumps)
				if r2.kind() != r.kind() {
					t.Failf("resume-without-input", "after %q the parser said %s, and resumed with nothing new it says %s", string(full[:pos]), r.kind(), r2.kind())
				}
				r = r2
			}
		})
		if done {
			break
		}
	}
	if pieces > 1 {
		t.NonTrivial()
	}
	for k := range x.rare {
		_ = k
	}
	for _, k := range []string{"string", "raw-string", "block-comment", "multi-line-comment", "prefix", "infix", "hash-literal", "dotted"} {
		if x.rare[k] {
			t.Probe("text-with-" + k)
		}
	}
	t.State(fmt.Sprintf("%s|%d|%d", string(x.runes), pieces, pauses))
	wk, rk := w.kind(), r.kind()
	if wk != rk {
		t.Failf("pieces-differ", "whole: %s %v\npieces: %s %v", wk, w.dumps, rk, r.dumps)
	}
	if !eqDumps(w.dumps, r.dumps) {
		t.Failf("pieces-differ", "whole: %s %v\npieces: %s %v", wk, w.dumps, rk, r.dumps)
	}
}

// c13Interp: one interpreter evaluates a history of good, bad, and
// unfinished texts through different doors, with read errors; then a
// text is read through each of them and compared with its known value.
func c13Interp(t *core.T) {
	env := zygo.NewZlisp()
	defer env.Close()
	var seen []string
	env.AddFunction("obs", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		for _, a := range args {
			seen = append(seen, Dump(a))
		}
		return zygo.SexpNull, nil
	})
	n := 0
	t.Many(1, 8, 4, func(i int) {
		x := genText(t, 2, true)
		txt := string(x.runes)
		SetBudget(1<<20, 100000)
		switch t.Pick(4, 3, 2, 2, 2, 2) {
		case 0: // as quoted data
			n++
			seen = nil
			src := "(obs (quote " + txt + "\n))"
			if len(x.want) != 1 || x.bad {
				src = "(obs (quote [" + txt + "\n]))"
			}
			r := Eval(env, src)
			t.Logf("eval %q -> %s %v", src, r.Kind(), seen)
			if x.bad {
				return
			}
			if r.Kind() != "value" {
				t.Failf("history-read", "reading %q gave %s", src, r)
			}
			want := ""
			if len(x.want) == 1 {
				want = x.want[0]
			} else {
				want = joinArr(x.want)
			}
			if len(seen) != 1 {
				t.Failf("history-read", "reading %q: %d values", src, len(seen))
			}
			if !strings.HasSuffix(want, "?") && !strings.Contains(seen[0], "/*") && seen[0] != want {
				t.Failf("history-read", "reading %q gave %s, want %s", src, seen[0], want)
			}
		case 1: // last token of a text, nothing behind it
			atoms := []string{"-1", "7", "obs", "\"s\"", "'c'", "1.5", "true", "-2.5", "`r`", "12ULL", "'世'", "nil", "0x10", "1e3", "[1 -2]", "%q", "3 ", "-4\n", "-"}
			want := []string{"-1", "7", "<fn>", "\"s\"", "#'c'", "f1.5", "true", "f-2.5", "\"r\"", "12ULL", "#'世'", "nil", "16", "f1000", "[1 -2]", "'q", "3", "-4", "<fn>"}
			k := t.Intn(len(atoms))
			pre := []string{"", "1 ", "(obs 1) ", "\n", "// c\n", "/* c */ "}[t.Intn(6)]
			r := Eval(env, pre+atoms[k])
			t.Logf("eval %q -> %s", pre+atoms[k], r)
			t.Probe("last-token")
			if r.String() != want[k] {
				t.Failf("last-token", "evaluating %q gave %s, want %s", pre+atoms[k], r, want[k])
			}
			n++
		case 2: // an unfinished or broken text
			cut := t.Intn(len(x.runes) + 1)
			src := string(x.runes[:cut])
			err := func() (err error) {
				p, _ := core.Guard(func() { err = env.LoadString(src) })
				if p != nil {
					t.Failf("parser-panic", "LoadString(%q) panicked: %v", src, p)
				}
				return
			}()
			t.Logf("load %q -> %v", src, err != nil)
			if cut > 0 && !x.bad && x.state[cut-1] == 'o' && err == nil {
				t.Failf("unfinished-accepted", "LoadString accepted the unfinished text %q", src)
			}
			t.Fault("abandoned-mid-text")
			if err == nil {
				SetBudget(1<<20, 100000)
				r := Call(env.Run)
				t.Logf("   run -> %s", r.Kind())
			}
			env.Clear()
		case 3: // reader failure
			cut := t.Intn(len(x.runes) + 1)
			f := &flaky{r: x.runes, failAt: cut, err: errInjected}
			var err error
			p, _ := core.Guard(func() { err = env.LoadStream(f) })
			if p != nil {
				t.Failf("parser-panic", "LoadStream panicked: %v", p)
			}
			t.Logf("load with read failure after %q -> %v", string(x.runes[:cut]), err != nil)
			if f.failAt == -1 {
				t.Fault("read-error")
				if err == nil {
					t.Failf("read-error-lost", "the reader failed after %q and LoadStream succeeded", string(x.runes[:cut]))
				}
			}
			env.Clear()
		case 4: // read at run time
			if x.bad || len(x.want) != 1 {
				return
			}
			n++
			r := Eval(env, "(read "+strconv.Quote(txt)+")")
			if strings.ContainsAny(txt, "\r\a") || !simpleQuotable(txt) {
				t.Logf("read -> %s", r.Kind())
				return
			}
			t.Logf("(read %q) -> %s", txt, r)
			want := x.want[0]
			if r.Kind() != "value" {
				t.Failf("history-read", "(read %q) gave %s", txt, r)
			}
			if !strings.HasSuffix(want, "?") && !strings.Contains(r.Dump, "/*") && r.Dump != want {
				t.Failf("history-read", "(read %q) gave %s, want %s", txt, r, want)
			}
		case 5: // a macro that fails while expanding, an error at run time
			src := []string{"(defmac mm [a] (car a)) (mm 1)", "(undefinedfn 1)", "(read \"(\")", "(read \")\")", "(+ 1 \"x\")", "(def)", "(let [a] 1)"}[t.Intn(7)]
			r := Eval(env, src)
			t.Logf("eval %q -> %s", src, r.Kind())
		}
	})
	if n > 0 {
		t.NonTrivial()
	}
	t.State(fmt.Sprint(n, seen))
	t.Sample(fmt.Sprintf("%d texts read by one interpreter after failures; last %v", n, seen))
}

func simpleQuotable(s string) bool {
	for _, r := range s {
		if r < ' ' && r != '\n' && r != '\t' || r > 126 || r == '\\' {
			return false
		}
	}
	return true
}

// c13Repl drives the real REPL: lines arrive one by one, expressions
// span lines, and failing lines come between them.
func c13Repl(t *core.T) {
	env := zygo.NewZlisp()
	defer env.Close()
	env.StandardSetup()
	var seen []string
	env.AddFunction("obs", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		for _, a := range args {
			seen = append(seen, Dump(a))
		}
		return zygo.SexpNull, nil
	})
	var in strings.Builder
	var want []string
	t.Many(1, 6, 3, func(i int) {
		if t.Chance(1, 4) {
			bad := []string{")", "]", "(obs \"\\q\")", "(undefinedfn 1)", "12abc", "}", "(+ 1 \"x\")", "[1 )"}[t.Intn(8)]
			in.WriteString(bad + "\n")
			t.Fault("failing-line")
			return
		}
		x := genText(t, 2, false)
		if len(x.runes) == 0 {
			return
		}
		lines := strings.Count(string(x.runes), "\n")
		if lines > 0 {
			t.Fault("pause-inside-construct")
		}
		in.WriteString("(obs (quote [" + string(x.runes) + "\n]))\n")
		want = append(want, joinArr(x.want))
	})
	in.WriteString(".quit\n")
	t.Logf("session: %q", in.String())
	t.Sample(fmt.Sprintf("REPL session %q", in.String()))
	f, err := os.CreateTemp("", "verifin")
	if err != nil {
		t.Harnessf("%v", err)
	}
	os.Remove(f.Name())
	f.WriteString(in.String())
	f.Seek(0, 0)
	oldIn := os.Stdin
	os.Stdin = f
	SetBudget(1<<20, 200000)
	p, st := core.Guard(func() {
		zygo.Repl(env, &zygo.ZlispConfig{NoLiner: true, Quiet: true})
	})
	os.Stdin = oldIn
	f.Close()
	t.Logf("printed: %q", clip(Scrub(TakeOutput()), 2000))
	if p != nil {
		if _, ok := p.(budgetStop); ok {
			t.Failf("repl-loops", "the REPL did not finish session %q", in.String())
		}
		t.Failf("repl-panic", "the REPL panicked: %v\n%s", p, st)
	}
	t.Logf("seen %v", seen)
	t.NonTrivial()
	t.State(fmt.Sprint(seen))
	if len(seen) != len(want) {
		t.Failf("repl-lost-line", "the session has %d observed expressions, the REPL evaluated %d: %v", len(want), len(seen), seen)
	}
	for i := range want {
		if !strings.HasSuffix(want[i], "?") && !strings.Contains(seen[i], "/*") && seen[i] != want[i] {
			t.Failf("repl-value", "expression %d read by the REPL as %s, want %s", i, seen[i], want[i])
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID: "C13", Level: "exploration",
		Rule:      "One run = one conversation with the real parser (or interpreter, or REPL): a seeded text with known structure is cut into pieces at seeded rune positions, queued and resumed on a seeded schedule, after seeded earlier conversations that complete, fail, are abandoned mid-text, or whose reader fails. Compared with the whole-text parse, with the generator's own knowledge of every expression, and, at every pause, with the model of which prefixes are unfinished. Non-trivial: more than one piece (stream), at least one text read after history (interpreter), any REPL session. Distinct by event log. States: distinct (text, pieces, pauses).",
		QuickRuns: 120000, ThorRuns: 6000000,
		Scenarios: []*core.Scenario{
			{Prop: "C13", Name: "stream", Weight: 6, Run: c13Stream},
			{Prop: "C13", Name: "interp", Weight: 3, Run: c13Interp},
			{Prop: "C13", Name: "repl", Weight: 1, Run: c13Repl},
		},
		Assumptions: []string{"pieces are cut between runes, as the io.RuneScanner interface delivers whole runes", "a streaming client ends its text with a newline; text-level entry points (EvalString, LoadString, LoadStream, read) need not"},
		Components:  map[string]interface{}{"real": []string{"lexer", "parser and its coroutine", "REPL line reader", "LoadString/LoadStream/EvalString", "read builtin"}, "simulated": []string{"the reader that delivers the text (seam: io.RuneScanner)", "REPL standard input (file)"}},
	})
}
