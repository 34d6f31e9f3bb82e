From 7dbc94b5c903204d1c52a5aad473f951dc056edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 01/59] fix: character literals keep runes beyond one byte

---
 zygo/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..f98bc4a 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 var NaN float64
@@ -437,7 +438,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		r, _ := utf8.DecodeRuneInString(tok.str)
+		return &SexpChar{Val: r}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
-- 
2.43.0


From de434cc12ef5ce72eef82796cc977d11237c97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 02/59] fix: lex the rune after an unquote as the start of a
 token

---
 zygo/lexer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..be8e1f1 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -172,7 +172,7 @@ func canStartSignedNumberAfter(r rune) bool {
 	switch r {
 	case 0, ' ', '\t', '\n', '\r',
 		'(', '[', '{', ',', ';', ':',
-		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|':
+		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|', '~', '@', '%', '^':
 		return true
 	default:
 		return false
@@ -576,14 +576,13 @@ top:
 		return nil
 
 	case LexerUnquote:
+		lexer.state = LexerNormal
 		if r == '@' {
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
-		} else {
-			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			return nil
 		}
-		lexer.state = LexerNormal
-		return nil
+		lexer.AppendToken(lexer.Token(TokenTilde, ""))
+		goto top // process r in Normal mode
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
 
-- 
2.43.0


From 6a5b87266b4333e05c702e7158fb99708d52a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 03/59] fix: parsing depends on neither chunking nor earlier
 texts

Reset clears all lexer look-back; ParseText tells the parser that the end
of the stream is the end of the text, so the last token is never lost;
unfinished strings, dotted pairs, prefix operators ask for more
input; read errors are not taken for the end of the text.
---
 zygo/environment.go | 10 ++-----
 zygo/lexer.go       | 43 +++++++++++++++++++++++++--
 zygo/parser.go      | 71 +++++++++++++++++++++++++++++++++++++++------
 zygo/source.go      |  3 +-
 4 files changed, 107 insertions(+), 20 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..3a59d58 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -683,21 +683,17 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 
 	var exp []Sexp
 
-	env.parser.Reset()
-	env.parser.NewInput(bufio.NewReader(in))
-	exp, err = env.parser.ParseTokens()
+	defer in.Close()
+	exp, err = env.parser.ParseText(bufio.NewReader(in))
 	if err != nil {
 		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
 	}
 
-	in.Close()
-
 	return exp, nil
 }
 
 func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
-	env.parser.ResetAddNewInput(stream)
-	expressions, err := env.parser.ParseTokens()
+	expressions, err := env.parser.ParseText(stream)
 	if err != nil {
 		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
 	}
diff --git a/zygo/lexer.go b/zygo/lexer.go
index be8e1f1..5eadccf 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -144,6 +144,12 @@ type Lexer struct {
 	next           []io.RuneScanner
 	linenum        int
 
+	// true if the end of the input is known to be the end of
+	// the text, and not just of the first pieces of it.
+	wholeText bool
+	// true once the end of such a text has been reached.
+	textEnded bool
+
 	priori    int
 	priorRune [20]rune
 }
@@ -200,6 +206,27 @@ func (lex *Lexer) Reset() {
 	lex.linenum = 1
 	lex.preBuiltinRune = 0
 	lex.buffer.Reset()
+
+	// nothing lexed earlier may influence how the next text is read.
+	lex.next = nil
+	lex.wholeText = false
+	lex.textEnded = false
+	lex.prevrune = 0
+	lex.prevToken = Token{}
+	lex.prevPrevToken = Token{}
+	lex.priori = 0
+	lex.priorRune = [20]rune{}
+}
+
+// midLiteral returns true if the text read so far stops inside a
+// construct that only more input can finish: a string, a character
+// literal, or just after an unquote.
+func (lex *Lexer) midLiteral() bool {
+	switch lex.state {
+	case LexerStrLit, LexerStrEscaped, LexerRuneLit, LexerRuneEscaped, LexerUnquote:
+		return true
+	}
+	return false
 }
 
 func (lex *Lexer) EmptyToken() Token {
@@ -838,11 +865,23 @@ func (lexer *Lexer) PeekNextToken(extra int) (tok Token, err error) {
 	for len(lexer.tokens) <= extra {
 		r, _, err := lexer.stream.ReadRune()
 		if err != nil {
+			if err != io.EOF {
+				// a failing reader is not the end of the text.
+				return EndTk, err
+			}
 			if lexer.PromoteNextStream() {
 				continue
-			} else {
+			}
+			if !lexer.wholeText {
 				return EndTk, nil
 			}
+			// the end of the text ends its last token too.
+			lexer.wholeText = false
+			lexer.textEnded = true
+			r = ' '
+			if lexer.state == LexerCommentLine {
+				r = '\n'
+			}
 		}
 
 		err = lexer.LexNextRune(r)
@@ -900,7 +939,7 @@ func (lex *Lexer) AddNextStream(s io.RuneScanner) {
 			lex.stream.UnreadRune()
 			// still have input available
 			return
-		} else {
+		} else if err == io.EOF {
 			lex.PromoteNextStream()
 		}
 	}
diff --git a/zygo/parser.go b/zygo/parser.go
index f98bc4a..41f610a 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -148,7 +148,7 @@ tokFilled:
 
 	start.Head = expr
 
-	tok, err = lexer.PeekNextToken(0)
+	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -157,12 +157,15 @@ tokFilled:
 	if tok.typ == TokenBackslash {
 		// eat up the backslash
 		_, _ = lexer.GetNextToken()
-		expr, err = parser.ParseExpression(depth + 1)
+		expr, err = parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 
 		// eat up the end paren
+		if _, err = parser.ParserPeekNextToken(0); err != nil {
+			return SexpNull, err
+		}
 		tok, err = lexer.GetNextToken()
 		if err != nil {
 			return SexpNull, err
@@ -184,6 +187,16 @@ tokFilled:
 	return start, nil
 }
 
+// parseOperand parses the expression that a prefix such as % or ~, or
+// the backslash of a dotted pair, must be followed by. It asks for
+// more input if none is available yet.
+func (parser *Parser) parseOperand(depth int) (Sexp, error) {
+	if _, err := parser.ParserPeekNextToken(0); err != nil {
+		return SexpNull, err
+	}
+	return parser.ParseExpression(depth)
+}
+
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
@@ -321,7 +334,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { "name": value }, as in JSON?
 			second := lexer.tokens[extra]
@@ -337,7 +353,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		case TokenBeginBacktickString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
+			_, err = parser.ParserPeekNextToken(extra + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
 			second := lexer.tokens[extra]
@@ -357,26 +376,26 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseInfix(depth + 1)
 		return exp, err
 	case TokenQuote:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
@@ -469,10 +488,22 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	case TokenSymbol:
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
-			tok2, err := parser.ParserPeekNextToken(0)
+			tok2, err := lexer.PeekNextToken(0)
 			if err != nil {
 				return SexpEnd, err
 			}
+			if tok2.typ == TokenEnd && !lexer.textEnded {
+				if depth == 0 {
+					// can't tell yet, so leave the sign pending as
+					// an unterminated last word would be.
+					lexer.PrependToken(tok)
+					return SexpEnd, nil
+				}
+				tok2, err = parser.ParserPeekNextToken(0)
+				if err != nil {
+					return SexpEnd, err
+				}
+			}
 			if tok2.typ == TokenFloat {
 				if tok2.str == "Inf" || tok2.str == "inf" {
 					_, _ = lexer.GetNextToken() // dicard inf, since we consume
@@ -548,6 +579,10 @@ func (p *Parser) ParseTokens() (sx []Sexp, err error) {
 				}
 			}
 			if err != nil {
+				if err != ErrMoreInputNeeded {
+					// this parse is over; the next one must start afresh.
+					p.Stop()
+				}
 				return
 			}
 		}
@@ -556,6 +591,16 @@ func (p *Parser) ParseTokens() (sx []Sexp, err error) {
 	return
 }
 
+// ParseText parses the text of stream as a whole. Unlike with
+// ResetAddNewInput() followed by ParseTokens(), the end of the stream
+// is known to be the end of the text, and so also terminates
+// the last token.
+func (p *Parser) ParseText(stream io.RuneScanner) ([]Sexp, error) {
+	p.ResetAddNewInput(stream)
+	p.lexer.wholeText = true
+	return p.ParseTokens()
+}
+
 func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 
 	return func(yield func(reply *ParserReply) bool) {
@@ -570,6 +615,14 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		const depth0 int = 0
 		for {
 			expr, err = p.ParseExpression(depth0)
+			if err == nil && expr == SexpEnd && p.lexer.midLiteral() {
+				// the text stops inside a string or such.
+				p.sendMe.Err = ErrMoreInputNeeded
+				if !yield(p.sendMe) {
+					return
+				}
+				continue
+			}
 			if err != nil || expr == SexpEnd {
 				p.sendMe.Err = err
 				yield(p.sendMe)
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..b6ef85c 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -81,8 +81,7 @@ func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
 }
 
 func (env *Zlisp) SourceStream(stream io.RuneScanner) error {
-	env.parser.ResetAddNewInput(stream)
-	expressions, err := env.parser.ParseTokens()
+	expressions, err := env.parser.ParseText(stream)
 	if err != nil {
 		return errors.New(fmt.Sprintf(
 			"Error parsing on line %d: %v\n", env.parser.Linenum(), err))
-- 
2.43.0


From 2ff1bae376c5da54dce6b89e7353a5ae41d546d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 04/59] fix: end of input inside a REPL expression or read()
 must not panic

Breaking out of a range-over-func loop whose body ignores a false yield panicked.
---
 zygo/functions.go | 19 ++++++++-----------
 zygo/repl.go      |  7 ++-----
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..bce2040 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -651,7 +651,7 @@ func ConcatFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return SexpNull, fmt.Errorf("expected strings, lists or arrays")
 }
 
-func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
+func ReadFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
@@ -662,17 +662,14 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
-	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
-	//exp, err := env.parser.ParseExpression(0)
-	// have to use the iter interface...once.
-	for reply := range env.parser.ParsingIter() {
-		err = reply.Err
-		if len(reply.Expr) > 0 {
-			sx = reply.Expr[0]
-		}
-		break
+	exprs, err := env.parser.ParseText(bytes.NewBuffer([]byte(str)))
+	if err != nil {
+		return SexpNull, err
+	}
+	if len(exprs) == 0 {
+		return SexpNull, nil
 	}
-	return
+	return exprs[0], nil
 }
 
 func OldEvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..7240b8b 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -95,16 +95,14 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 	}
 	lines := []string{line}
 
-	err = UnexpectedEnd
 	var x []Sexp
 
 	// test parse, but don't load or generate bytecode
 	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(line + "\n")))
-	for reply := range env.parser.ParsingIter() {
+	for {
+		x, err = env.parser.ParseTokens()
 		//vv("\n after ResetAddNewInput, err = %v. x = '%s'\n", err, (&SexpArray{Val: x, Env: env}).SexpString(nil))
 
-		x, err = reply.Expr, reply.Err
-
 		xs = xs[:0]
 		for i := range x {
 			if x[i] == SexpEnd {
@@ -134,7 +132,6 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 		}
 		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
 	}
-	return strings.Join(lines, "\n"), xs, err
 }
 
 func processDumpCommand(env *Zlisp, args []string) {
-- 
2.43.0


From b442ad2b7e3765ed32c20e108f0c06b5a499a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 05/59] verif: guarded hooks for simulation (build tag verif,
 off by default)

---
 zygo/environment.go |  3 +++
 zygo/lexer.go       |  3 +++
 zygo/verif_off.go   | 10 ++++++++++
 zygo/verif_on.go    | 47 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 63 insertions(+)
 create mode 100644 zygo/verif_off.go
 create mode 100644 zygo/verif_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index 3a59d58..b67e720 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -881,6 +881,9 @@ func (env *Zlisp) Run() (Sexp, error) {
 	runState := env.captureControlState()
 
 	for env.pc != -1 && !env.ReachedEnd() {
+		if verifEnabled {
+			verifStep(env)
+		}
 		instr := env.curfunc.fun[env.pc]
 		if env.debugExec {
 			fmt.Printf("\n ====== in '%s', about to run: '%v'\n",
diff --git a/zygo/lexer.go b/zygo/lexer.go
index 5eadccf..ab3bf99 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -463,6 +463,9 @@ func (x *Lexer) DecodeBrace(brace rune) Token {
 }
 
 func (lexer *Lexer) LexNextRune(r rune) error {
+	if verifEnabled {
+		verifRune()
+	}
 
 	// a little look-back ring. To help with scientific
 	// notation recognition
diff --git a/zygo/verif_off.go b/zygo/verif_off.go
new file mode 100644
index 0000000..94a6c69
--- /dev/null
+++ b/zygo/verif_off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package zygo
+
+// verifEnabled guards the hooks of verif_on.go; they
+// compile to nothing unless built with the verif tag.
+const verifEnabled = false
+
+func verifStep(env *Zlisp) {}
+func verifRune()           {}
diff --git a/zygo/verif_on.go b/zygo/verif_on.go
new file mode 100644
index 0000000..5a89f8b
--- /dev/null
+++ b/zygo/verif_on.go
@@ -0,0 +1,47 @@
+//go:build verif
+
+package zygo
+
+// Hooks for verification by simulation. Only built with the verif tag.
+
+const verifEnabled = true
+
+// VerifStepHook, if set, is called before every VM instruction. It
+// may panic in order to bound programs that would not terminate.
+var VerifStepHook func(env *Zlisp)
+
+// VerifRuneHook, if set, is called for every rune lexed.
+var VerifRuneHook func()
+
+func verifStep(env *Zlisp) {
+	if VerifStepHook != nil {
+		VerifStepHook(env)
+	}
+}
+
+func verifRune() {
+	if VerifRuneHook != nil {
+		VerifRuneHook()
+	}
+}
+
+// VerifDepths are the depths of the four VM stacks, and where the VM is.
+type VerifDepths struct {
+	Data, Scope, Addr, Loop int
+
+	// MainFunc is true if the VM is in the main program,
+	// AtEnd if it has nothing more to run there.
+	MainFunc, AtEnd bool
+}
+
+// VerifDepths reports where the VM stands.
+func (env *Zlisp) VerifDepths() VerifDepths {
+	return VerifDepths{
+		Data:     env.datastack.Size(),
+		Scope:    env.linearstack.Size(),
+		Addr:     env.addrstack.Size(),
+		Loop:     env.loopstack.Size(),
+		MainFunc: env.curfunc == env.mainfunc,
+		AtEnd:    env.ReachedEnd(),
+	}
+}
-- 
2.43.0


From fb9b161bb8418459e3fd6458c335e473e8a84efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 06/59] fix: a block comment may end in **/

---
 zygo/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index ab3bf99..72d579f 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -506,6 +506,10 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			// as in "**/", this asterisk may be the closing one
+			return nil
+		}
 		lexer.state = LexerCommentBlock
 		goto writeRuneToBuffer
 
-- 
2.43.0


From cab3a6826c95f4f687d81fafd60324cf8981c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 07/59] fix: comments of any shape may open a curly block

A comment spanning lines broke the look-ahead that decides what '{'
starts, and '{ // c' followed by '}' was a syntax error.
---
 zygo/parser.go | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index 41f610a..c17222d 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -286,30 +286,13 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		extra := 1
 		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
+		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment || tok2.typ == TokenEndBlockComment {
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
 			}
+			tok2 = lexer.tokens[extra]
+			extra++
 		}
 
 		switch tok2.typ {
@@ -330,8 +313,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			}
 			return exp, err
 		case TokenRCurly:
-			_, _ = lexer.GetNextToken()       // dicard '}'
-			return MakeHash(nil, "hash", env) // return empty hash
+			lexer.tokens = lexer.tokens[extra:] // discard comments and '}'
+			return MakeHash(nil, "hash", env)   // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
 			_, err = parser.ParserPeekNextToken(extra)
-- 
2.43.0


From c7d7de49738201461b15d59745fbc902af9d539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 08/59] fix: hashes stay insertion-ordered maps after
 deletions, clones and decoding

HashDelete left the key in KeyOrder, counted a deletion even when the key
was absent and did not unwrap [k] keys; HashPairi skipped wrongly after a
deletion; a dereferenced assignment shared buckets and the order list
with its source; a decoded key order could name keys the hash lacks.
---
 zygo/generator.go |   2 +-
 zygo/hashutils.go | 118 ++++++++++++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 48 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..e206d3d 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1292,7 +1292,7 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	for i := 0; i < n; i++ {
 		// must reverse order here to preserve order on rebuild
 		key := hash.KeyOrder[(n-i)-1]
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.lookupKey(nil, key, SexpNull)
 		if err != nil {
 			return err
 		}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..ec817bd 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -188,6 +188,14 @@ func (h *SexpHash) DotPathHashGet(env *Zlisp, sym *SexpSymbol) (Sexp, error) {
 	return exp, nil
 }
 
+// unwrapHashKey lets single element keys work: h[6] = 10 means (hset h 6 10).
+func unwrapHashKey(key Sexp) Sexp {
+	if arr, isArray := key.(*SexpArray); isArray && len(arr.Val) == 1 {
+		return arr.Val[0]
+	}
+	return key
+}
+
 func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	//Q("top of HashGet, key = '%v' of type %T", key.SexpString(nil), key)
 	switch sym := key.(type) {
@@ -199,17 +207,13 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 		if sym.isDot {
 			return hash.DotPathHashGet(env, sym)
 		}
-
-	case *SexpArray:
-		if len(sym.Val) == 1 {
-			key = sym.Val[0]
-		}
 	}
+	key = unwrapHashKey(key)
 
 	// this is kind of a hack
 	// SexpEnd can't be created by user
 	// so there is no way it would actually show up in the map
-	val, err := hash.HashGetDefault(env, key, SexpEnd)
+	val, err := hash.lookupKey(env, key, SexpEnd)
 
 	if err != nil {
 		return SexpNull, err
@@ -223,6 +227,12 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	return hash.lookupKey(env, unwrapHashKey(key), defaultval)
+}
+
+// lookupKey finds key exactly as it was stored: unlike HashGet, it neither
+// follows dot paths nor unwraps single element arrays.
+func (hash *SexpHash) lookupKey(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +358,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = unwrapHashKey(key)
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -397,29 +402,48 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = unwrapHashKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
-	arr, ok := hash.Map[hashval]
 
 	// if it doesn't exist, no need to delete it
-	if !ok {
-		return nil
-	}
-
-	hash.NumKeys--
+	arr := hash.Map[hashval]
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
-		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
-			break
+		if err != nil || res != 0 {
+			continue
+		}
+		if len(arr) == 1 {
+			delete(hash.Map, hashval)
+		} else {
+			hash.Map[hashval] = append(arr[:i:i], arr[i+1:]...)
 		}
+		hash.NumKeys--
+		hash.forgetKeyOrder(key, hashval)
+		break
 	}
 
 	return nil
 }
 
+// forgetKeyOrder drops key, with hash code hashval, from the
+// insertion-order list.
+func (hash *SexpHash) forgetKeyOrder(key Sexp, hashval int) {
+	for i, k := range hash.KeyOrder {
+		res, err := hash.Env.Compare(k, key)
+		if err != nil || res != 0 {
+			continue
+		}
+		code, err := HashExpression(nil, k)
+		if err == nil && code == hashval {
+			hash.KeyOrder = append(hash.KeyOrder[:i:i], hash.KeyOrder[i+1:]...)
+			return
+		}
+	}
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -440,43 +464,43 @@ func HashIsEmpty(hash *SexpHash) bool {
 	return true
 }
 
+// SetHashKeyOrder puts the keys of hash in the order of keyOrd. Keys that
+// hash does not have are ignored; those keyOrd leaves out come last.
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
-
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
 		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
 	}
-	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+
+	ordered := &SexpHash{Map: make(map[int][]*SexpPair), Env: hash.Env}
+	for _, key := range append(append([]Sexp{}, keys.Val...), hash.KeyOrder...) {
+		val, err := hash.lookupKey(nil, key, SexpEnd)
+		if err != nil || val == SexpEnd {
+			continue
+		}
+		err = ordered.HashSet(key, val)
+		if err != nil {
+			return err
+		}
 	}
+	hash.KeyOrder = ordered.KeyOrder
 
 	return nil
 }
 
 func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
-	nk := hash.NumKeys
-	if pos > nk {
+	nk := len(hash.KeyOrder)
+	if pos < 0 || pos >= nk {
 		return &SexpPair{}, fmt.Errorf("hpair error: pos %d is beyond our key count %d",
 			pos, nk)
 	}
-	lenKeyOrder := len(hash.KeyOrder)
-	var err error
-	var key, val Sexp
-	found := false
-	for k := pos; k < lenKeyOrder; k++ {
-		key = hash.KeyOrder[k]
-		val, err = hash.HashGet(nil, key)
-
-		if err == nil {
-			found = true
-			break
-		}
-		// what about deleted keys? just skip to the next!
+	key := hash.KeyOrder[pos]
+	val, err := hash.lookupKey(nil, key, SexpEnd)
+	if err == nil && val == SexpEnd {
+		err = fmt.Errorf("hpair internal error: no value for key '%s' at pos %d", key.SexpString(nil), pos)
 	}
-	if !found {
-		panic(fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder))
+	if err != nil {
+		return &SexpPair{}, err
 	}
 
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
@@ -896,8 +920,8 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(hash.Env, key)
-		if err == nil {
+		val, err := hash.lookupKey(nil, key, SexpEnd)
+		if err == nil && val != SexpEnd {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
@@ -958,7 +982,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair{}, v...)
 	}
 	return &cp
 }
@@ -970,7 +994,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp{}, src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
-- 
2.43.0


From c9c8d252270d8c2be2c11e67faace7d6f78b61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 09/59] fix: JSON of a hash with string keys quotes each key
 once

---
 zygo/jsonmsgp.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..ec6d35a 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
@@ -122,20 +123,19 @@ func (hash *SexpHash) jsonHashHelper() string {
 	}
 
 	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
+		keyst := jsonKey(key)
 		ko = append(ko, keyst)
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
+		val, err := hash.lookupKey(nil, key, SexpNull)
+		if err != nil {
 			panic(err)
 		}
+		str += keyst + `:`
+		str += string(SexpToJson(val)) + `, `
 	}
 
 	str += `"zKeyOrder":[`
 	for _, key := range ko {
-		str += `"` + key + `", `
+		str += key + `, `
 	}
 	if n > 0 {
 		str = str[:len(str)-2]
@@ -146,6 +146,19 @@ func (hash *SexpHash) jsonHashHelper() string {
 	return str
 }
 
+// jsonKey writes a hash key as a JSON string.
+func jsonKey(key Sexp) string {
+	name := key.SexpString(nil)
+	if s, isStr := key.(*SexpStr); isStr {
+		name = s.S
+	}
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(name)
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 func (arr *SexpArray) jsonArrayHelper() string {
 	if len(arr.Val) == 0 {
 		return "[]"
-- 
2.43.0


From cf68c015d668c65af9b60564097180c765d0ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 10/59] fix: mdef reports a rejected binding instead of keeping
 the old value

---
 zygo/vm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..84f6f0e 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,10 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		err = env.LexicalBindSymbol(bindThisSym, arr[i])
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
-- 
2.43.0


From baf95f887d6c4e4d1b6b101614360c3735509378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 11/59] fix: string keys of a printed hash are escaped

---
 zygo/hashutils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index ec817bd..b30f364 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -925,7 +926,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + strconv.Quote(s.S) + ":"
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
-- 
2.43.0


From 4d48d000accbb79a13a0dad158d1732173f14b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 12/59] fix: a generated symbol is never one that already
 exists

---
 zygo/environment.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index b67e720..242f0ce 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -265,9 +265,15 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 	return symbol
 }
 
+// GenSymbol returns a symbol whose name no interpreter sharing our
+// symbol table has interned before.
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for n := env.nextsymbol; ; n++ {
+		symname := prefix + strconv.Itoa(n)
+		if _, taken := env.symtable[symname]; !taken {
+			return env.MakeSymbol(symname)
+		}
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From f4104795da034c8e77dfdb6ba1fcb58cf2b1df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 13/59] fix: a tail call is one to the running function, and
 only in tail position

A self-call in a let binding, an array literal or an assert was compiled as
a tail call and dropped the rest of the function; a call by the function's
name jumped even when the name meant something else; iterations shared one
scope, and the arguments were not checked.
---
 zygo/environment.go |  45 ++++++++-----
 zygo/generator.go   | 119 +++++++++++-----------------------
 zygo/vm.go          | 155 ++++++++++++++------------------------------
 3 files changed, 113 insertions(+), 206 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 242f0ce..7898f0b 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -518,6 +518,33 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		prehook(env, function.name, expressions)
 	}
 
+	if err := env.checkCallArgs(function, nargs); err != nil {
+		return err
+	}
+
+	if env.linearstack.IsEmpty() {
+		panic("where's the global scope?")
+	}
+
+	env.addrstack.PushAddr(env.curfunc, env.pc+1)
+
+	//P("DEBUG linearstack with this next:")
+	//env.showStackHelper(env.linearstack, "linearstack")
+
+	// this effectely *is* the call, because it sets the
+	// next instructions to happen once we exit.
+	env.curfunc = function
+	env.pc = 0
+
+	//Q("\n CallFunction starting with stack:\n")
+	//env.ShowStackStackAndScopeStack()
+
+	return nil
+}
+
+// checkCallArgs checks the nargs arguments on the datastack against what
+// function takes, and leaves them there as its formals expect them.
+func (env *Zlisp) checkCallArgs(function *SexpFunction, nargs int) error {
 	// do name and type checking
 	if function.inputTypes != nil && !function.varargs {
 		err := env.FunctionCallNameTypeCheck(function, &nargs)
@@ -541,24 +568,6 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 			fmt.Sprintf("%s expected %d arguments, got %d",
 				function.name, function.nargs, nargs))
 	}
-
-	if env.linearstack.IsEmpty() {
-		panic("where's the global scope?")
-	}
-
-	env.addrstack.PushAddr(env.curfunc, env.pc+1)
-
-	//P("DEBUG linearstack with this next:")
-	//env.showStackHelper(env.linearstack, "linearstack")
-
-	// this effectely *is* the call, because it sets the
-	// next instructions to happen once we exit.
-	env.curfunc = function
-	env.pc = 0
-
-	//Q("\n CallFunction starting with stack:\n")
-	//env.ShowStackStackAndScopeStack()
-
 	return nil
 }
 
diff --git a/zygo/generator.go b/zygo/generator.go
index e206d3d..142f56a 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -40,9 +38,7 @@ func NewGenerator(env *Zlisp) *Generator {
 }
 
 func (gen *Generator) NewSubGenerator() *Generator {
-	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
-	return subgen
+	return NewGenerator(gen.env)
 }
 
 func (gen *Generator) AddInstructions(instr []Instruction) {
@@ -85,15 +81,11 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -129,9 +121,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -174,7 +163,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -200,7 +189,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		dup = false
 		Q("def sees assign to pair, using AssignInstr{}")
 		instr = AssignInstr{}
-		err := gen.Generate(args[0])
+		err := gen.generateNonTail(args[0])
 		if err != nil {
 			return err
 		}
@@ -220,8 +209,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[1])
+	err := gen.generateNonTail(args[1])
 	if err != nil {
 		return err
 	}
@@ -268,7 +256,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -317,7 +305,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -494,7 +482,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -502,7 +490,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -525,7 +513,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.generateNonTail(args[0])
 	if err != nil {
 		return err
 	}
@@ -665,28 +653,30 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	if gen.Tail {
+		// whether the call is to ourselves is only known once the
+		// callee has been evaluated.
+		gen.AddInstruction(TailCallInstr{
+			callee: sym,
+			args:   append([]Sexp(nil), args...),
+			scopes: gen.scopes,
+		})
 	} else {
 		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
+// generateNonTail generates expr for a position whose value is still
+// used afterwards by the current function.
+func (gen *Generator) generateNonTail(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
+	gen.Tail = oldtail
+	return err
+}
+
 func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	//Q("GenerateBuilder is pushing unevaluated arguments onto the stack")
 	n := len(args)
@@ -698,36 +688,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
@@ -864,7 +824,7 @@ func (gen *Generator) Generate(expr Sexp) error {
 
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
-		err := gen.Generate(expr)
+		err := gen.generateNonTail(expr)
 		if err != nil {
 			return err
 		}
@@ -1134,8 +1094,7 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[lastpos])
+	err := gen.generateNonTail(args[lastpos])
 	if err != nil {
 		return err
 	}
@@ -1232,10 +1191,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
+				gen.generateNonTail(quotebody[1])
 				return nil
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				gen.generateNonTail(quotebody[1])
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1523,8 +1482,8 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		}
 	}
 
-	gen.Tail = oldtail
 	err := gen.Generate(expressions[size-1])
+	gen.Tail = oldtail
 	if err != nil {
 		return err
 	}
@@ -1578,7 +1537,7 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	}
 	for i := range xs {
 		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		err := gen.generateNonTail(xs[i])
 		if err != nil {
 			return err
 		}
diff --git a/zygo/vm.go b/zygo/vm.go
index 84f6f0e..69934b1 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -87,23 +71,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -364,6 +331,53 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
+// TailCallInstr is a call in tail position. A call to the function that
+// is running reuses its frame: scopes is how many scopes the function
+// has opened inside its own. Any other call is an ordinary one.
+type TailCallInstr struct {
+	callee *SexpSymbol
+	args   []Sexp
+	scopes int
+}
+
+func (c TailCallInstr) InstrString() string {
+	return fmt.Sprintf("tailCall %s %d", c.callee.name, len(c.args))
+}
+
+func (c TailCallInstr) Execute(env *Zlisp) error {
+	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return err
+	}
+	funcobj, callName, err := env.ResolveCallable(funcobj)
+	if err != nil {
+		return err
+	}
+	function, isFun := funcobj.(*SexpFunction)
+	if !isFun || function != env.curfunc {
+		return env.CallResolved(funcobj, callName, c.args)
+	}
+
+	startingDataStackSize := env.datastack.Size()
+	err = env.PrepareCallExprArgs(function, c.args)
+	if err == nil {
+		err = env.checkCallArgs(function, len(c.args))
+	}
+	if err != nil {
+		env.datastack.TruncateToSize(startingDataStackSize)
+		return err
+	}
+	// leave the extra scopes and the function's own; starting over adds
+	// a fresh one, so that closures made so far keep theirs.
+	for i := 0; i <= c.scopes; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	env.pc = 0
+	return nil
+}
+
 type DispatchInstr struct {
 	nargs int
 }
@@ -914,78 +928,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From a966344d69fa6540f6075f8ea094eb16ad1f445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 14/59] fix: errors inside and, or and templates are reported,
 breaks leave their scopes

and/or of nothing indexed an empty slice; compile errors in and/or arms and
in unquoted expressions were dropped, leaving code that yields nothing; a
break in a cond predicate or an and/or arm did not pop the scopes it left.
---
 zygo/generator.go | 48 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 142f56a..bd53dd0 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -371,17 +371,27 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen.scopes = gen.scopes
+		err = subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -410,6 +420,7 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
 		subgen.Reset()
+		subgen.scopes = gen.scopes
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
@@ -1143,17 +1154,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1191,10 +1199,12 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.generateNonTail(quotebody[1])
-				return nil
+				return gen.generateNonTail(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.generateNonTail(quotebody[1])
+				err := gen.generateNonTail(quotebody[1])
+				if err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1204,7 +1214,9 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1227,7 +1239,9 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1257,12 +1271,16 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
-- 
2.43.0


From fc728cd2a7f4f43f1ef4eb7ea026fc5354960463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 15/59] fix: every form leaves exactly one value on the operand
 stack

begin, newScope, return and quote of nothing left none, so that the next
form consumed an operand that was not its own; quote of several, include
and source of several files, struct, func and var declarations left extra
ones behind; sourcing nothing took an operand of the caller; package forms
did not count the scope they open, which a break has to leave.
---
 zygo/builders.go  |  3 ---
 zygo/func.go      | 10 ----------
 zygo/generator.go | 33 +++++++++++++++++++--------------
 zygo/source.go    |  8 +++++++-
 4 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..d214fdc 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -277,7 +277,6 @@ func StructBuilder(env *Zlisp, name string,
 
 	//Q("good: have struct name '%v'", symN)
 
-	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
 	{
@@ -756,8 +755,6 @@ func VarBuilder(env *Zlisp, name string,
 	}
 	//Q("good: var decl bound symbol '%s' to '%s' of type '%s'", symN.SexpString(nil), valSexp.SexpString(nil), rt.SexpString(nil))
 
-	env.datastack.PushExpr(valSexp)
-
 	return SexpNull, nil
 }
 
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..9f684cd 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
@@ -186,14 +184,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
diff --git a/zygo/generator.go b/zygo/generator.go
index bd53dd0..5ffd80e 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -51,12 +51,13 @@ func (gen *Generator) AddInstruction(instr Instruction) {
 
 func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		// every form leaves exactly one value
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
+	oldtail := gen.Tail
+	gen.Tail = false
 	startInstructionCount := 0
 	for _, expr := range expressions[:size-1] {
 		startInstructionCount = len(gen.instructions)
@@ -452,9 +453,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -543,7 +545,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	}
 
 	var err error
-	var exps []Sexp
+	var exps, all []Sexp
 
 	var sourceItem func(item Sexp) error
 
@@ -570,10 +572,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				return err
 			}
 
-			err = gen.GenerateBegin(exps)
-			if err != nil {
-				return err
-			}
+			all = append(all, exps...)
 
 		default:
 			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
@@ -589,7 +588,10 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		}
 	}
 
-	return nil
+	// like LoadExpressions: comments and ends yield no value.
+	all = gen.env.FilterArray(all, RemoveCommentsFilter)
+	all = gen.env.FilterArray(all, RemoveEndsFilter)
+	return gen.GenerateBegin(all)
 }
 
 func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Sexp) error {
@@ -1436,12 +1438,12 @@ scanUpTheLoops:
 // like begin, but puts its contents in a new scope
 func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
 	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
+	oldtail := gen.Tail
+	gen.Tail = false
 
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
 	gen.scopes++
@@ -1489,6 +1491,7 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	gen.Tail = false
 
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
+	gen.scopes++
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
 	if size > 1 {
@@ -1508,6 +1511,7 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
+	gen.scopes--
 	return nil
 }
 
@@ -1547,6 +1551,7 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
diff --git a/zygo/source.go b/zygo/source.go
index b6ef85c..9c2f88a 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -102,13 +102,19 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	// each file sourced leaves its value on the datastack; the last
+	// one is the result.
+	startingDataStackSize := env.datastack.Size()
 	for _, v := range args {
 		if err := env.sourceItem(v); err != nil {
 			return SexpNull, err
 		}
 	}
-
+	if env.datastack.Size() == startingDataStackSize {
+		return SexpNull, nil
+	}
 	result, err := env.datastack.PopExpr()
+	env.datastack.TruncateToSize(startingDataStackSize)
 	if err != nil {
 		return SexpNull, err
 	}
-- 
2.43.0


From 440b686d6e1de20189d3b9061acfb47ca2dc3188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 16/59] fix: drop the main program's code once it has run

It was kept and appended to by every evaluation, so that an interpreter grew
with each text it was given.
---
 zygo/environment.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index 7898f0b..a77687d 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -684,6 +684,11 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 		return err
 	}
 
+	if env.curfunc == env.mainfunc && env.ReachedEnd() {
+		// all that was loaded before has been run: don't keep it.
+		env.mainfunc.fun = nil
+		env.pc = 0
+	}
 	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
 	env.curfunc = env.mainfunc
 
-- 
2.43.0


From cc896829be643316da5e510e0917eb6b064dde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 17/59] fix: eval sees every captured variable of the function
 that calls it

It saw the function's own scopes and one level of captures only.
---
 zygo/environment.go | 18 ++++++++++++++++++
 zygo/functions.go   |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index a77687d..2a9ad70 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -584,6 +584,24 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// callingFunction is the script function that is running, which for
+// code of a user function is the one that called it.
+func (env *Zlisp) callingFunction() *SexpFunction {
+	if !env.curfunc.user {
+		return env.curfunc
+	}
+	for i := 0; i < env.addrstack.Size(); i++ {
+		elem, err := env.addrstack.Get(i)
+		if err != nil {
+			break
+		}
+		if addr, ok := elem.(Address); ok && !addr.function.user {
+			return addr.function
+		}
+	}
+	return nil
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
diff --git a/zygo/functions.go b/zygo/functions.go
index bce2040..2d18fee 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -714,6 +714,9 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
+	// the code sees what is in scope where eval was called, including
+	// what the function that called it captured.
+	sfun.parent = env.callingFunction()
 
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
-- 
2.43.0


From 03235f2603bd6475806683ae4c35c383e2d1ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 18/59] fix: apply and map do not hand out the backing of the
 array they are given

(apply array a) and (map array a) made arrays that shared a's elements.
---
 zygo/arrayutils.go | 2 +-
 zygo/functions.go  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..c84946b 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -8,7 +8,7 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 
 	var firstTyp *RegisteredType
 	for i := range arr.Val {
-		result[i], err = env.Apply(fun, arr.Val[i:i+1])
+		result[i], err = env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
 			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
 		}
diff --git a/zygo/functions.go b/zygo/functions.go
index 2d18fee..db5765f 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -903,7 +903,8 @@ func ApplyFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	switch e := args[1].(type) {
 	case *SexpArray:
-		funargs = e.Val
+		// a copy: builtins may keep or change their argument slice.
+		funargs = append([]Sexp{}, e.Val...)
 	case *SexpPair:
 		var err error
 		funargs, err = ListToArray(e)
-- 
2.43.0


From 5cdbb6cc3a4cf19d144c6cf8ee719fe288227f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 19/59] fix: making a closure does not print what it captures

The text was thrown away; with cyclic data in scope producing it never ended.
---
 zygo/expressions.go |  7 -------
 zygo/vm.go          | 11 -----------
 2 files changed, 18 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..510ad6a 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -749,13 +749,6 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
 	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
 	//	sf, sf.closingOverScopes, pre)
 	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
diff --git a/zygo/vm.go b/zygo/vm.go
index 69934b1..68c9b9f 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -834,17 +834,6 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
-- 
2.43.0


From 8d1b3ae8b828f66b9cba18949db5697190cb2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 20/59] fix: Apply called by the host leaves the interpreter at
 rest

After a successful Apply from outside any evaluation, the program
counter stayed behind the end marker of the call, and every later
evaluation returned at once without running anything.
---
 zygo/environment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index 2a9ad70..4b4a6d9 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -912,6 +912,8 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 		env.restoreControlState(callState)
 		return SexpNull, err
 	}
+	// a host may call us while no program is running
+	env.restoreControlState(callState)
 	return res, nil
 }
 
-- 
2.43.0


From 0b51d6fdd2288854e345fb80f6ab4be5ec2ea26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 21/59] fix: a mapped array has the type of an array, not of
 its first element

(def a [1]) (def a (map (fn [x] x) [2])) was refused.
---
 zygo/arrayutils.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index c84946b..1c468c1 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -6,18 +6,14 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 	result := make([]Sexp, len(arr.Val))
 	var err error
 
-	var firstTyp *RegisteredType
 	for i := range arr.Val {
 		result[i], err = env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
-			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
-		}
-		if firstTyp == nil {
-			firstTyp = result[i].Type()
+			return SexpNull, err
 		}
 	}
 
-	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
+	return &SexpArray{Val: result, Env: env}, nil
 }
 
 func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
-- 
2.43.0


From 51854f133122662dc8934c2dbd66913ba867774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 22/59] fix: compiled code leaves nothing in the symbol table

Every loop, anonymous function, package and range loop interned fresh
symbols each time it was compiled, so that an interpreter grew with
every evaluation. An anonymous func also bound itself in the scope it
was made in.
---
 zygo/environment.go | 15 +++++++++++++++
 zygo/func.go        | 11 ++++++-----
 zygo/generator.go   | 10 +++++-----
 zygo/pratt.go       | 23 +++++++++++++++++++----
 zygo/vm.go          |  4 ++--
 5 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 4b4a6d9..716e523 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -34,6 +34,8 @@ type Zlisp struct {
 	mainfunc    *SexpFunction
 	pc          int
 	nextsymbol  int
+	nextlabel   int
+	rangeSyms   *rangeSymbols
 	before      []PreHook
 	after       []PostHook
 
@@ -112,6 +114,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.symtable = make(map[string]int)
 	env.revsymtable = make(map[int]string)
 	env.nextsymbol = 1
+	env.rangeSyms = &rangeSymbols{}
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
@@ -161,6 +164,8 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nextlabel = env.nextlabel
+	dupenv.rangeSyms = env.rangeSyms
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -192,6 +197,8 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nextlabel = env.nextlabel
+	dupenv.rangeSyms = env.rangeSyms
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -276,6 +283,14 @@ func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	}
 }
 
+// genLabel names something internal to compiled code, such as a loop or
+// an anonymous function. The name is for display only and not interned:
+// code that has run leaves nothing in the symbol table.
+func (env *Zlisp) genLabel(prefix string) string {
+	env.nextlabel++
+	return prefix + strconv.Itoa(env.nextlabel)
+}
+
 func (env *Zlisp) CurrentFunctionSize() int {
 	if env.curfunc.user {
 		return 0
diff --git a/zygo/func.go b/zygo/func.go
index 9f684cd..65d7e96 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -25,7 +25,6 @@ func FuncBuilder(env *Zlisp, name string,
 	returnsLoc := 2
 	bodyLoc := 3
 	isAnon := false
-	_ = isAnon
 
 	var symN *SexpSymbol
 	switch b := args[0].(type) {
@@ -51,7 +50,7 @@ func FuncBuilder(env *Zlisp, name string,
 			bodyLoc++
 		} else {
 			// anonymous function
-			symN = env.GenSymbol("__anon")
+			symN = &SexpSymbol{name: env.genLabel("__anon")}
 			isAnon = true
 			inputsLoc--
 			returnsLoc--
@@ -205,9 +204,11 @@ func FuncBuilder(env *Zlisp, name string,
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
 	env.pc = notePc
-	err = env.LexicalBindSymbol(symN, invok)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+	if !isAnon {
+		err = env.LexicalBindSymbol(symN, invok)
+		if err != nil {
+			return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+		}
 	}
 
 	if len(body) > 0 {
diff --git a/zygo/generator.go b/zygo/generator.go
index 5ffd80e..a749f1d 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -90,7 +90,7 @@ func buildSexpFun(
 	gen.Tail = true
 
 	if len(name) == 0 {
-		gen.funcname = env.GenSymbol("__anon").name
+		gen.funcname = env.genLabel("__anon")
 	} else {
 		gen.funcname = name
 	}
@@ -912,14 +912,14 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	var loop *Loop
 	if foundSym {
 		loop = &Loop{
-			stmtname: gen.env.GenSymbol("__loop_" + labelsym.name + "_"),
+			stmtname: &SexpSymbol{name: gen.env.genLabel("__loop_" + labelsym.name + "_")},
 			//label:    &labelsym,
 			label:      labelsym,
 			scopeDepth: gen.scopes,
 		}
 	} else {
 		loop = &Loop{
-			stmtname:   gen.env.GenSymbol("__loop"),
+			stmtname:   &SexpSymbol{name: gen.env.genLabel("__loop")},
 			scopeDepth: gen.scopes,
 		}
 	}
@@ -1483,9 +1483,9 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		return fmt.Errorf("package name must be symbol or string")
 	}
 
-	// use GenSymbol so we are sure to have a unique point
+	// a symbol of our own, so we are sure to have a unique point
 	// to aim at when cleaning up.
-	symPkgName := gen.env.GenSymbol(pkgName)
+	symPkgName := &SexpSymbol{name: gen.env.genLabel(pkgName)}
 
 	oldtail := gen.Tail
 	gen.Tail = false
diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..4da8fee 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -438,7 +438,7 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 		return prattCall(env, "mdef", targets[0], targets[1], pair)
 	}
 
-	pairSym := env.GenSymbol("__range_pair")
+	pairSym := env.rangeSyms.get(env).pair
 	pairBindings := &SexpArray{Val: []Sexp{pairSym, pair}, Env: env}
 	beginArgs := []Sexp{
 		env.MakeSymbol("begin"),
@@ -449,6 +449,22 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 	return prattCall(env, "let", pairBindings, MakeList(beginArgs))
 }
 
+// rangeSymbols are the names of the variables of lowered range loops.
+// They are generated once: every loop binds them in scopes of its own.
+type rangeSymbols struct {
+	src, len, index, pair *SexpSymbol
+}
+
+func (r *rangeSymbols) get(env *Zlisp) *rangeSymbols {
+	if r.src == nil {
+		r.src = env.GenSymbol("__range_src")
+		r.len = env.GenSymbol("__range_len")
+		r.index = env.GenSymbol("__range_i")
+		r.pair = env.GenSymbol("__range_pair")
+	}
+	return r
+}
+
 func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (Sexp, bool, error) {
 	assignPos, op, foundAssign := findRangeAssign(header)
 	if !foundAssign {
@@ -478,9 +494,8 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 		return SexpNull, true, err
 	}
 
-	sourceSym := env.GenSymbol("__range_src")
-	lenSym := env.GenSymbol("__range_len")
-	indexSym := env.GenSymbol("__range_i")
+	rs := env.rangeSyms.get(env)
+	sourceSym, lenSym, indexSym := rs.src, rs.len, rs.index
 	letBindings := &SexpArray{
 		Val: []Sexp{
 			sourceSym, source,
diff --git a/zygo/vm.go b/zygo/vm.go
index 68c9b9f..64c63eb 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -756,7 +756,7 @@ toploop:
 		}
 		switch m := expr.(type) {
 		case *SexpStackmark:
-			if m.sym.number == s.sym.number {
+			if m.sym == s.sym {
 				env.datastack.PushExpr(m)
 				break toploop
 			}
@@ -783,7 +783,7 @@ toploop:
 		}
 		switch m := expr.(type) {
 		case *SexpStackmark:
-			if m.sym.number == s.sym.number {
+			if m.sym == s.sym {
 				break toploop
 			}
 		}
-- 
2.43.0


From 30b7a1618ce36b2cada814dfedbb381921fc5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 23/59] fix: numbers next to the limits and NaN compare as
 specified

(< 9223372036854775807 -1) was true (the difference overflowed), 1ULL was
greater than 2ULL, and an integer equalled NaN.
---
 zygo/comparisons.go | 58 +++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..9c653b0 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -33,21 +33,33 @@ func IsNaNFunction(name string) ZlispUserFunction {
 	}
 }
 
-func signumFloat(f float64) int {
-	if f > 0 {
+func signumInt(i int64) int {
+	if i > 0 {
 		return 1
 	}
-	if f < 0 {
+	if i < 0 {
 		return -1
 	}
 	return 0
 }
 
-func signumInt(i int64) int {
-	if i > 0 {
+// cmpInt orders two integers; their difference can overflow.
+func cmpInt(a, b int64) int {
+	if a > b {
 		return 1
 	}
-	if i < 0 {
+	if a < b {
+		return -1
+	}
+	return 0
+}
+
+// cmpFloat orders two floats, neither of which is NaN.
+func cmpFloat(a, b float64) int {
+	if a > b {
+		return 1
+	}
+	if a < b {
 		return -1
 	}
 	return 0
@@ -59,7 +71,7 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 		if math.IsNaN(f.Val) {
 			return 2, nil
 		}
-		return signumFloat(f.Val - float64(e.Val)), nil
+		return cmpFloat(f.Val, float64(e.Val)), nil
 	case *SexpFloat:
 		nanCount := 0
 		if math.IsNaN(f.Val) {
@@ -71,12 +83,12 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 		if nanCount > 0 {
 			return 1 + nanCount, nil
 		}
-		return signumFloat(f.Val - e.Val), nil
+		return cmpFloat(f.Val, e.Val), nil
 	case *SexpChar:
 		if math.IsNaN(f.Val) {
 			return 2, nil
 		}
-		return signumFloat(f.Val - float64(e.Val)), nil
+		return cmpFloat(f.Val, float64(e.Val)), nil
 	}
 	errmsg := fmt.Sprintf("err 91: cannot compare %T to %T", f, expr)
 	return 0, errors.New(errmsg)
@@ -85,17 +97,20 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return cmpInt(i.Val, e.Val), nil
 	case *SexpFloat:
-		return signumFloat(float64(i.Val) - e.Val), nil
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
+		return cmpFloat(float64(i.Val), e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return cmpInt(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return cmpInt(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,11 +125,14 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return cmpInt(int64(c.Val), e.Val), nil
 	case *SexpFloat:
-		return signumFloat(float64(c.Val) - e.Val), nil
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
+		return cmpFloat(float64(c.Val), e.Val), nil
 	case *SexpChar:
-		return signumInt(int64(c.Val) - int64(e.Val)), nil
+		return cmpInt(int64(c.Val), int64(e.Val)), nil
 	}
 	errmsg := fmt.Sprintf("err 93: cannot compare %T to %T", c, expr)
 	return 0, errors.New(errmsg)
@@ -312,17 +330,17 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		return cmpUint64(i.Val, e.Val), nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
 
-func signumUint64(i uint64) int {
-	if i > 0 {
+func cmpUint64(a, b uint64) int {
+	if a > b {
 		return 1
 	}
-	if i < 0 {
+	if a < b {
 		return -1
 	}
 	return 0
-- 
2.43.0


From ead95908f23dba619bbb24c83c6420a6b854eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 24/59] fix: lazy arguments given by name

---
 zygo/check.go       | 58 +++++++++++++++++++++++++++++++++++++++++++++
 zygo/environment.go | 12 ++++++----
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/zygo/check.go b/zygo/check.go
index 4daeabb..687ca79 100644
--- a/zygo/check.go
+++ b/zygo/check.go
@@ -120,3 +120,61 @@ func namedArgSymbol(expr Sexp) (*SexpSymbol, bool) {
 		return nil, false
 	}
 }
+
+// argBinding goes through the arguments of a call in order and tells
+// which of them are for lazy formals. The arguments of a function with
+// declared types can be given by name, as in (f a: 1 #b: 2).
+type argBinding struct {
+	function *SexpFunction
+	pos      int
+	named    bool // the last argument was a name,
+	formal   int  // of this formal
+}
+
+// nextIsLazy is called with each argument, before it is evaluated.
+func (b *argBinding) nextIsLazy(arg Sexp) bool {
+	f := b.function
+	if f == nil || f.user || !f.HasLazyFormals() {
+		return false
+	}
+	pos := b.pos
+	b.pos++
+	if b.named {
+		if f.IsLazyFormal(b.formal) {
+			b.named = false
+			return true
+		}
+		return false
+	}
+	if _, isName := namedArgSymbol(arg); isName && b.canName() {
+		return false
+	}
+	return f.IsLazyCallArg(pos)
+}
+
+// saw is called with the value of each argument that is not lazy.
+func (b *argBinding) saw(val Sexp) {
+	if b.named {
+		b.named = false
+		return
+	}
+	if !b.canName() {
+		return
+	}
+	sym, isName := namedArgSymbol(val)
+	if !isName {
+		return
+	}
+	b.named = true
+	b.formal = -1
+	for i, formal := range b.function.argSyms {
+		if formal.number == sym.number {
+			b.formal = i
+		}
+	}
+}
+
+func (b *argBinding) canName() bool {
+	f := b.function
+	return f != nil && !f.user && f.inputTypes != nil && !f.varargs
+}
diff --git a/zygo/environment.go b/zygo/environment.go
index 716e523..c60a21d 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -423,8 +423,9 @@ func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 }
 
 func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && !function.user && function.HasLazyFormals() && function.IsLazyCallArg(i) {
+	binding := argBinding{function: function}
+	for _, expr := range args {
+		if binding.nextIsLazy(expr) {
 			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
 			continue
 		}
@@ -432,6 +433,7 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
+		binding.saw(val)
 		env.datastack.PushExpr(val)
 	}
 	return nil
@@ -907,11 +909,13 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 
 	callState := env.captureControlState()
 	env.pc = -2
-	for i, expr := range args {
-		if fun.IsLazyCallArg(i) {
+	binding := argBinding{function: fun}
+	for _, expr := range args {
+		if binding.nextIsLazy(expr) {
 			env.datastack.PushExpr(NewValueLazyArg(expr))
 			continue
 		}
+		binding.saw(expr)
 		env.datastack.PushExpr(expr)
 	}
 
-- 
2.43.0


From 8da43b4ffd0d18af783d2a7576359a2c4dbdcfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:36 +0000
Subject: [PATCH 25/59] fix: func inside a function is a closure like any other

---
 zygo/func.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zygo/func.go b/zygo/func.go
index 65d7e96..d36836b 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -198,8 +198,14 @@ func FuncBuilder(env *Zlisp, name string,
 	afsHelper.MyFunction = sfun
 
 	clos := CreateClosureInstr{sfun}
-	notePc := env.pc
+	notePc, noteFun := env.pc, env.curfunc
+	// the body sees what is in scope where func was called, including
+	// what the function that called it captured.
+	if caller := env.callingFunction(); caller != nil {
+		env.curfunc = caller
+	}
 	clos.Execute(env)
+	env.curfunc = noteFun
 
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
-- 
2.43.0


From c4011fd43ff09249c3021b8e0281003324a90ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 26/59] fix: a dot path given to a function is resolved by the
 caller

---
 zygo/environment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index c60a21d..720c23e 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -433,6 +433,14 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
+		if function != nil && !function.user {
+			// a dot path means what it means here, not what it
+			// would mean among the variables of the function.
+			val, err = env.RValue(val)
+			if err != nil {
+				return err
+			}
+		}
 		binding.saw(val)
 		env.datastack.PushExpr(val)
 	}
-- 
2.43.0


From 5869a1f67d394704b48fe465d42ba4377faffce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 27/59] fix: a dot path in a closure sees what the closure
 captured

---
 zygo/environment.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 720c23e..9485703 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -1087,11 +1087,18 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 		break
 	}
 
+	// a builtin that looks up a name on behalf of the script, as for a
+	// dot path, sees what the function that called it sees.
+	curfunc := env.callingFunction()
+	if curfunc == nil {
+		curfunc = env.curfunc
+	}
+
 	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
+	if curfunc.parent != nil {
 		//P("checking non-nil parent...")
 		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
+		exp, err, whichScope := curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
 		switch err {
 		case nil:
 			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
@@ -1104,7 +1111,7 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 
 		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
 		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
+		exp, err, scope = curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
 		switch err {
 		case nil:
 			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
-- 
2.43.0


From 5f05b79ec3a2e099c409c3892994820f63d351fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 28/59] fix: the value of a dot path is that of the place it is
 written

---
 zygo/vm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zygo/vm.go b/zygo/vm.go
index 64c63eb..81a1a60 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -127,6 +127,13 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if g.sym.isDot {
+		// a dot path means what it means here, wherever its value is
+		// used later. One that leads nowhere stands for itself.
+		if val, err := env.RValue(expr); err == nil {
+			expr = val
+		}
+	}
 	env.datastack.PushExpr(expr)
 	env.pc++
 	return nil
-- 
2.43.0


From 68cfc3d36854d08ab1bef662a62e8b5ae70455f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 29/59] fix: a macro is given forms, dot paths included

---
 zygo/generator.go | 13 +++++++++----
 zygo/vm.go        | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index a749f1d..dedc1c4 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -82,7 +82,8 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp) (*SexpFunction, error) {
+	orig Sexp,
+	isMacro bool) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
@@ -128,6 +129,10 @@ func buildSexpFun(
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
+		if isMacro {
+			gen.AddInstruction(BindMacroArgInstr{argsyms[i]})
+			continue
+		}
 		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
 	}
 	err := gen.GenerateBegin(funcbody)
@@ -164,7 +169,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, false)
 	if err != nil {
 		return err
 	}
@@ -257,7 +262,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, false)
 	if err != nil {
 		return err
 	}
@@ -306,7 +311,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
 	if err != nil {
 		return err
 	}
diff --git a/zygo/vm.go b/zygo/vm.go
index 81a1a60..70d6383 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -161,6 +161,25 @@ func (p PopStackPutEnvInstr) Execute(env *Zlisp) error {
 
 }
 
+// BindMacroArgInstr binds an argument of a macro, which is a form: a dot
+// path among them is not resolved.
+type BindMacroArgInstr struct {
+	sym *SexpSymbol
+}
+
+func (p BindMacroArgInstr) InstrString() string {
+	return fmt.Sprintf("bindMacroArg %s", p.sym.name)
+}
+
+func (p BindMacroArgInstr) Execute(env *Zlisp) error {
+	expr, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	env.pc++
+	return env.LexicalBindSymbol(p.sym, expr)
+}
+
 // Update takes top of datastack and
 // assigns it to sym when sym is found
 // already in the current scope or
-- 
2.43.0


From 6f74de5879772a76ee49fabb4c1d20fe4eaa75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:14 +0000
Subject: [PATCH 30/59] fix: a splice in a hash template keeps the order of its
 elements

---
 zygo/generator.go | 8 +++-----
 zygo/vm.go        | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index dedc1c4..0a30f87 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1270,22 +1270,20 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	n := HashCountKeys(hash)
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for i := 0; i < n; i++ {
-		// must reverse order here to preserve order on rebuild
-		key := hash.KeyOrder[(n-i)-1]
+		key := hash.KeyOrder[i]
 		val, err := hash.lookupKey(nil, key, SexpNull)
 		if err != nil {
 			return err
 		}
-		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
+		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
 			return err
 		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
+		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
 			return err
 		}
 		gen.AddInstruction(SquashInstr(0))
diff --git a/zygo/vm.go b/zygo/vm.go
index 70d6383..679e831 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -642,7 +642,7 @@ func (s HashizeInstr) Execute(env *Zlisp) error {
 		if expr == SexpMarker {
 			break
 		}
-		a = append(a, expr)
+		a = append([]Sexp{expr}, a...)
 	}
 	hash, err := MakeHash(a, s.TypeName, env)
 	if err != nil {
-- 
2.43.0


From 15632f7b5185cb52ccccc29b929530c254bc58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 31/59] fix: a field takes only values of its declared type

An instance took any value under a key that is not a symbol, an array of
mixed elements by the type of its first one, and an instance of another
definition of the same name.
---
 zygo/hashutils.go | 67 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b30f364..ea872b6 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -269,6 +269,10 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		keySym = ks
 		wasSym = true
 	default:
+		d := h.definition()
+		if d != nil && d.UserStructDefn != nil && h.TypeName != "hash" && h.TypeName != "field" {
+			return fmt.Errorf("%s has no field '%s' [err 2]", d.UserStructDefn.Name, key.SexpString(nil))
+		}
 		return KeyNotSymbol
 	}
 	p := h.GoStructFactory
@@ -316,28 +320,16 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		}
 		obsTyp := val.Type()
 		if obsTyp == nil {
-			// allow certain types to be nil, e.g. [] and nil itself
-			switch a := val.(type) {
-			case *SexpArray:
-				if len(a.Val) == 0 {
-					return nil // okay
-				}
-			case *SexpSentinel:
+			// allow nil itself
+			if _, isNil := val.(*SexpSentinel); isNil {
 				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 			}
+			return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 		}
 
 		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
 		//Q("declaredTyp is %T / val = %#v", declaredTyp, declaredTyp)
-		if obsTyp != declaredTyp {
-			if obsTyp.RegisteredName == "[]" {
-				if strings.HasPrefix(declaredTyp.RegisteredName, "[]") {
-					// okay to assign empty slice to typed slice
-					goto done
-				}
-			}
+		if !hasFieldType(val, declaredTyp) {
 			return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
 				p.UserStructDefn.Name,
 				k,
@@ -346,10 +338,51 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 				val.SexpString(nil))
 		}
 	}
-done:
 	return nil
 }
 
+// hasFieldType says if val can be stored where a value of the declared
+// type is wanted. It is stricter than comparing val.Type(), which names
+// an array by its first element, and a record by its name alone.
+func hasFieldType(val Sexp, declared *RegisteredType) bool {
+	switch v := val.(type) {
+	case *SexpArray:
+		if !strings.HasPrefix(declared.RegisteredName, "[]") {
+			return false
+		}
+		for i, ele := range v.Val {
+			if _, isNil := ele.(*SexpSentinel); isNil && i > 0 {
+				continue
+			}
+			if arr, isArr := ele.(*SexpArray); isArr && len(arr.Val) == 0 &&
+				strings.HasPrefix(declared.RegisteredName, "[][]") {
+				continue
+			}
+			eleTyp := ele.Type()
+			if eleTyp == nil || GoStructRegistry.GetOrCreateSliceType(eleTyp) != declared {
+				return false
+			}
+			if _, isArr := ele.(*SexpArray); isArr && !hasFieldType(ele, eleTyp) {
+				return false
+			}
+		}
+		// okay to assign an empty slice to a typed slice
+		return true
+	case *SexpHash:
+		return v.definition() == declared
+	}
+	return val.Type() == declared
+}
+
+// definition is the type an instance was created with, or, for what is
+// not an instance of a declared struct, its Type().
+func (hash *SexpHash) definition() *RegisteredType {
+	if p := hash.GoStructFactory; p != nil && p.UserStructDefn != nil {
+		return p
+	}
+	return hash.Type()
+}
+
 func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	//vv("in HashSet, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
 
-- 
2.43.0


From c4ed8c781226363c7daffc2bc9df4c3a794710a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 32/59] fix: derefSet does not change the type of what it sets

A pointer to an array or to a pointer took any array or pointer, one to a
record took a record of another definition of the same name, and one to a
symbol rewrote the shared symbol.
---
 zygo/functions.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index db5765f..303ca06 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1785,6 +1785,17 @@ func DerefFunction(name string) ZlispUserFunction {
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
+				case *SexpSymbol:
+					// symbols are shared by everything that names them.
+					return SexpNull, fmt.Errorf("cannot assign through a pointer to a symbol")
+				case *SexpArray, *SexpPointer:
+					// one Go type for values of many types
+					if !hasFieldType(args[1], ptr.PointedToType) {
+						return SexpNull, fmt.Errorf("type mismatch: value '%v' is not assignable to '%v'",
+							args[1].SexpString(nil), ptr.PointedToType.RegisteredName)
+					}
+					ptr.ReflectTarget.Elem().Set(rhs.Elem())
+					return
 				default:
 					//P("we have a reflection capable type match!")
 					ptr.ReflectTarget.Elem().Set(rhs.Elem())
@@ -1826,11 +1837,9 @@ func DerefFunction(name string) ZlispUserFunction {
 				return
 			case *SexpHash:
 				//P("ptr.PointedToType = '%#v'", ptr.PointedToType)
-				pt := payload.Type()
-				tt := ptr.PointedToType
-				if tt == pt && tt.RegisteredName == pt.RegisteredName {
+				if target, isHash := ptr.Target.(*SexpHash); isHash && target.definition() == payload.definition() {
 					//P("have matching type!: %v", tt.RegisteredName)
-					ptr.Target.(*SexpHash).CloneFrom(payload)
+					target.CloneFrom(payload)
 					return
 				} else {
 					return SexpNull, fmt.Errorf("cannot assign type '%v' to type '%v'",
-- 
2.43.0


From 18666b1785fd53fd1333e8eb34c2363be58bad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 33/59] fix: decoding reports a record that breaks its
 declaration

The error was dropped when the text gave the order of the keys.
---
 zygo/jsonmsgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index ec6d35a..19c6e5f 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -353,11 +353,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash
 
 	case []byte:
-- 
2.43.0


From 1a320713b947c6ae44a729169c2dd1172052f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 34/59] fix: a bad struct declaration leaves the previous one
 in force

It used to leave a struct without fields; also a field of the struct's own
type took no instance at all.
---
 zygo/builders.go | 70 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index d214fdc..8e0f9b9 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -279,12 +279,22 @@ func StructBuilder(env *Zlisp, name string,
 
 	structName := symN.name
 
+	// a bad declaration leaves the previous one, if any, in force
+	undo := env.saveStructDecl(symN)
+	declared := false
+	defer func() {
+		if !declared {
+			undo()
+		}
+	}()
+
+	var rtR *RegisteredType
 	{
 		// begin enable recursion -- add ourselves to the env early, then
 		// update later, so that structs can refer to themselves.
 		udsR := NewRecordDefn()
 		udsR.SetName(structName)
-		rtR := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		rtR = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return udsR, nil
 		})
 		rtR.UserStructDefn = udsR
@@ -348,6 +358,20 @@ func StructBuilder(env *Zlisp, name string,
 					}
 					//Q("ko = '%#v'", ko)
 					first := ko[0]
+					if _, isSym := first.(*SexpSymbol); !isSym {
+						return SexpNull, fmt.Errorf("bad struct declaration '%v': bad "+
+							"field at array entry %v; field name '%v' is not a symbol",
+							structName, i, first.SexpString(nil))
+					}
+					fieldTyp, err := (*SexpHash)(asHash).HashGet(nil, first)
+					if err != nil {
+						return SexpNull, err
+					}
+					if _, isTyp := fieldTyp.(*RegisteredType); !isTyp {
+						return SexpNull, fmt.Errorf("bad struct declaration '%v': bad "+
+							"field at array entry %v; '%v' is not a type",
+							structName, i, fieldTyp.SexpString(nil))
+					}
 					//Q("first = '%#v'", first)
 					xar = append(xar, first)
 					xar = append(xar, ev)
@@ -367,6 +391,12 @@ func StructBuilder(env *Zlisp, name string,
 	})
 	rt.UserStructDefn = uds
 	rt.DisplayAs = structName
+	for fieldName, fieldTyp := range uds.FieldType {
+		if fieldTyp == rtR {
+			// a field of the type being declared
+			uds.FieldType[fieldName] = rt
+		}
+	}
 	GoStructRegistry.RegisterUserdef(rt, false, structName)
 	//Q("good: registered new userdefined struct '%s'", structName)
 
@@ -383,9 +413,47 @@ func StructBuilder(env *Zlisp, name string,
 			structName, err)
 	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
+	declared = true
 	return rt, nil
 }
 
+// saveStructDecl notes what sym stands for, in the registry and in the
+// current scope. The function it returns puts that back.
+func (env *Zlisp) saveStructDecl(sym *SexpSymbol) (undo func()) {
+	gsr := &GoStructRegistry
+	all, wasReg := gsr.Registry[sym.name]
+	user, wasUser := gsr.Userdef[sym.name]
+	nlist := len(ListRegisteredTypes)
+
+	scope := env.linearstack.GetTop().(*Scope)
+	val, wasBound := scope.Map[sym.number]
+
+	return func() {
+		if wasUser {
+			gsr.Userdef[sym.name] = user
+		} else {
+			delete(gsr.Userdef, sym.name)
+		}
+		if wasReg {
+			gsr.Registry[sym.name] = all
+		} else {
+			delete(gsr.Registry, sym.name)
+			list := ListRegisteredTypes[:nlist:nlist]
+			for _, name := range ListRegisteredTypes[nlist:] {
+				if name != sym.name {
+					list = append(list, name)
+				}
+			}
+			ListRegisteredTypes = list
+		}
+		if wasBound {
+			scope.Map[sym.number] = val
+		} else {
+			delete(scope.Map, sym.number)
+		}
+	}
+}
+
 func InterfaceBuilder(env *Zlisp, name string,
 	args []Sexp) (Sexp, error) {
 
-- 
2.43.0


From 4d3094a58e657ebcd95ceeca30201bec380d3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 35/59] fix: a type is not a value of itself

A type reports itself as its Type(), so {t.n = int64} was accepted where
an int64 is wanted, and (derefSet (& int64) string) overwrote int64 for
the whole process.
---
 zygo/functions.go |  6 +++---
 zygo/hashutils.go | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 303ca06..f3e94bb 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1785,9 +1785,9 @@ func DerefFunction(name string) ZlispUserFunction {
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
-				case *SexpSymbol:
-					// symbols are shared by everything that names them.
-					return SexpNull, fmt.Errorf("cannot assign through a pointer to a symbol")
+				case *SexpSymbol, *RegisteredType:
+					// symbols and types are shared by everything that names them.
+					return SexpNull, fmt.Errorf("cannot assign through a pointer to a symbol or a type")
 				case *SexpArray, *SexpPointer:
 					// one Go type for values of many types
 					if !hasFieldType(args[1], ptr.PointedToType) {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index ea872b6..4deee1f 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -362,14 +362,27 @@ func hasFieldType(val Sexp, declared *RegisteredType) bool {
 			if eleTyp == nil || GoStructRegistry.GetOrCreateSliceType(eleTyp) != declared {
 				return false
 			}
-			if _, isArr := ele.(*SexpArray); isArr && !hasFieldType(ele, eleTyp) {
-				return false
+			switch ele.(type) {
+			case *SexpArray, *SexpPointer, *RegisteredType:
+				if !hasFieldType(ele, eleTyp) {
+					return false
+				}
 			}
 		}
 		// okay to assign an empty slice to a typed slice
 		return true
 	case *SexpHash:
 		return v.definition() == declared
+	case *SexpPointer:
+		switch v.Target.(type) {
+		case *SexpArray, *SexpPointer, *RegisteredType:
+			if !hasFieldType(v.Target, v.PointedToType) {
+				return false
+			}
+		}
+	case *RegisteredType:
+		// a type reports itself as its Type()
+		return false
 	}
 	return val.Type() == declared
 }
-- 
2.43.0


From 6f6a637f9b92e5df19cc73b8da7edb7eed81caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 36/59] fix: a hash is not a value of the type it is named
 after

The decoders, msgmap and defmap make hashes with any type name, such as
int64, *In or that of a struct declared afterwards, and these were taken
for values of that type.
---
 zygo/hashutils.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 4deee1f..1d5999b 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -362,40 +362,50 @@ func hasFieldType(val Sexp, declared *RegisteredType) bool {
 			if eleTyp == nil || GoStructRegistry.GetOrCreateSliceType(eleTyp) != declared {
 				return false
 			}
-			switch ele.(type) {
-			case *SexpArray, *SexpPointer, *RegisteredType:
-				if !hasFieldType(ele, eleTyp) {
-					return false
-				}
+			if !isOfItsType(ele, eleTyp) {
+				return false
 			}
 		}
 		// okay to assign an empty slice to a typed slice
 		return true
 	case *SexpHash:
-		return v.definition() == declared
+		return v.definition() == declared && v.isRecord()
+	}
+	return val.Type() == declared && isOfItsType(val, declared)
+}
+
+// isOfItsType says if val, whose Type() is typ, really is such a value.
+func isOfItsType(val Sexp, typ *RegisteredType) bool {
+	switch v := val.(type) {
+	case *SexpArray:
+		return hasFieldType(v, typ)
 	case *SexpPointer:
-		switch v.Target.(type) {
-		case *SexpArray, *SexpPointer, *RegisteredType:
-			if !hasFieldType(v.Target, v.PointedToType) {
-				return false
-			}
-		}
+		return isOfItsType(v.Target, v.PointedToType)
+	case *SexpHash:
+		// a hash can be given any type name, the decoders do
+		return v.isRecord()
 	case *RegisteredType:
 		// a type reports itself as its Type()
 		return false
 	}
-	return val.Type() == declared
+	return true
 }
 
-// definition is the type an instance was created with, or, for what is
-// not an instance of a declared struct, its Type().
+// definition is the type a record was created with.
 func (hash *SexpHash) definition() *RegisteredType {
-	if p := hash.GoStructFactory; p != nil && p.UserStructDefn != nil {
+	if p := hash.GoStructFactory; p != nil {
 		return p
 	}
 	return hash.Type()
 }
 
+// isRecord says if the hash was created as an instance of a declared
+// struct, or of a registered Go struct.
+func (hash *SexpHash) isRecord() bool {
+	d := hash.definition()
+	return d != nil && (d.UserStructDefn != nil || d.hasShadowStruct)
+}
+
 func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	//vv("in HashSet, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
 
-- 
2.43.0


From a1c273f9e1b3a44f954b0351fc27a852b6574e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 37/59] fix: assigning to a selection leaves a value

{h[k] = v} and (set (hashidx h [k]) v) took the value without leaving
one, so as an argument or inside begin they broke the data stack.
---
 zygo/vm.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/zygo/vm.go b/zygo/vm.go
index 679e831..06846de 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -873,25 +873,34 @@ func (a AssignInstr) InstrString() string {
 
 func (a AssignInstr) Execute(env *Zlisp) error {
 	env.pc++
-	rhs, err := env.datastack.PopExpr()
+	rhs, err := a.assign(env)
 	if err != nil {
 		return err
 	}
+	// an assignment is an expression: it leaves the value assigned.
+	env.datastack.PushExpr(rhs)
+	return nil
+}
+
+func (a AssignInstr) assign(env *Zlisp) (Sexp, error) {
+	rhs, err := env.datastack.PopExpr()
+	if err != nil {
+		return SexpNull, err
+	}
 	rhs, err = env.RValue(rhs)
 	if err != nil {
-		return err
+		return SexpNull, err
 	}
 	lhs, err := env.datastack.PopExpr()
 	if err != nil {
-		return err
+		return SexpNull, err
 	}
 	switch x := lhs.(type) {
 	case *SexpSymbol:
-		return env.LexicalBindSymbol(x, rhs)
+		return rhs, env.LexicalBindSymbol(x, rhs)
 	case Selector:
 		Q("AssignInstr: I see lhs is Selector")
-		err := x.AssignToSelection(env, rhs)
-		return err
+		return rhs, x.AssignToSelection(env, rhs)
 	case *SexpArray:
 		switch rhsArray := rhs.(type) {
 		case *SexpArray:
@@ -900,27 +909,27 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 			nRhs := len(rhsArray.Val)
 			nLhs := len(x.Val)
 			if nRhs != nLhs {
-				return fmt.Errorf("assignment count mismatch %v != %v", nLhs, nRhs)
+				return SexpNull, fmt.Errorf("assignment count mismatch %v != %v", nLhs, nRhs)
 			}
 			for i := range x.Val {
 				switch sym := x.Val[i].(type) {
 				case *SexpSymbol:
 					err = env.LexicalBindSymbol(sym, rhsArray.Val[i])
 					if err != nil {
-						return err
+						return SexpNull, err
 					}
 				default:
-					return fmt.Errorf("assignment error: left-hand-side element %v needs to be a symbol but"+
+					return SexpNull, fmt.Errorf("assignment error: left-hand-side element %v needs to be a symbol but"+
 						" we found %T", i, x.Val[i])
 				}
 			}
-			return nil
+			return rhs, nil
 		default:
-			return fmt.Errorf("AssignInstr: don't know how to assign rhs %T `%v` to lhs %T `%v`",
+			return SexpNull, fmt.Errorf("AssignInstr: don't know how to assign rhs %T `%v` to lhs %T `%v`",
 				rhs, rhs.SexpString(nil), lhs, lhs.SexpString(nil))
 		}
 	}
-	return fmt.Errorf("AssignInstr: don't know how to assign to lhs %T", lhs)
+	return SexpNull, fmt.Errorf("AssignInstr: don't know how to assign to lhs %T", lhs)
 }
 
 // PopScopeTransferToDataStackInstr is used to wrap up a package
-- 
2.43.0


From a2d0d0873404f582bd9d2f7d76527e427e68bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 38/59] fix: arrays of hashes have a type

(def a [(hash a:1)]) (def a [1]) panicked: the Go type of hashes, which
are registered under the name they are given, was nil.
---
 zygo/builders.go  |  2 +-
 zygo/gotypereg.go | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 8e0f9b9..a451a49 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -737,7 +737,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 
 	//Q("arrayOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	derivedType := reflect.ArrayOf(sz, rt.TypeCache)
+	derivedType := reflect.ArrayOf(sz, rt.goType())
 	arrayRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return reflect.New(derivedType), nil
 	})
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..b120c3c 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -235,6 +235,15 @@ func (p *RegisteredType) ShortName() string {
 	return p.DisplayAs
 }
 
+// goType is the Go type of the values of p; names that hashes were given
+// without being declared have none of their own.
+func (p *RegisteredType) goType() reflect.Type {
+	if p.TypeCache == nil {
+		return reflect.TypeOf((*SexpHash)(nil))
+	}
+	return p.TypeCache
+}
+
 func NewRegisteredType(f MakeGoStructFunc) *RegisteredType {
 	rt := &RegisteredType{Factory: f}
 	rt.Init()
@@ -431,7 +440,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		Q("type named '%v' already registered, reusing the pointer type", ptrName)
 	} else {
 		Q("registering new pointer type '%v'", ptrName)
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
+		derivedType := reflect.PtrTo(pointedToType.goType())
 		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
@@ -450,7 +459,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		Q("type named '%v' already registered, re-using the type", sliceName)
 	} else {
 		Q("registering new slice type '%v'", sliceName)
-		derivedType := reflect.SliceOf(rt.TypeCache)
+		derivedType := reflect.SliceOf(rt.goType())
 		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
-- 
2.43.0


From 381e8cb103ea65e7dbfb611e39947540924ce7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 39/59] fix: printing data that contains itself ends

---
 zygo/arrayutils.go  | 10 ++++++++--
 zygo/expressions.go | 21 +++++++++++++++++----
 zygo/hashutils.go   | 16 ++++++++++++++--
 zygo/printstate.go  | 44 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 83 insertions(+), 8 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 1c468c1..941e523 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -141,17 +141,23 @@ type SexpArraySelector struct {
 }
 
 func (si *SexpArraySelector) SexpString(ps *PrintState) string {
+	open, ok := ps.enter(si)
+	if !ok {
+		return deeper
+	}
+	defer open.leave(si)
+
 	//Q("in SexpArraySelector.SexpString(), si.Container.Env = %p", si.Container.Env)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
-		return fmt.Sprintf("(arraySelector %v %v)", si.Container.SexpString(ps), si.Select.SexpString(ps))
+		return fmt.Sprintf("(arraySelector %v %v)", si.Container.SexpString(ps.within(open)), si.Select.SexpString(ps.within(open)))
 	}
 
 	//Q("in SexpArraySelector.SexpString(), rhs = %v", rhs.SexpString(ps))
 	//Q("in SexpArraySelector.SexpString(), si.Container = %v", si.Container.SexpString(ps))
 	//Q("in SexpArraySelector.SexpString(), si.Select = %v", si.Select.SexpString(ps))
 
-	return fmt.Sprintf("%v /*(arraySelector %v %v)*/", rhs.SexpString(ps), si.Container.SexpString(ps), si.Select.SexpString(ps))
+	return fmt.Sprintf("%v /*(arraySelector %v %v)*/", rhs.SexpString(ps.within(open)), si.Container.SexpString(ps.within(open)), si.Select.SexpString(ps.within(open)))
 }
 
 // Type returns the type of the value.
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 510ad6a..29f4a66 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -224,24 +224,31 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
+	top := pair
+	open, ok := ps.enter(top)
+	if !ok {
+		return deeper
+	}
+	defer open.leave(top)
+
 	str := "("
 
 	for {
 		switch pair.Tail.(type) {
 		case *SexpPair:
-			str += pair.Head.SexpString(ps) + " "
+			str += pair.Head.SexpString(ps.within(open)) + " "
 			pair = pair.Tail.(*SexpPair)
 			continue
 		}
 		break
 	}
 
-	str += pair.Head.SexpString(ps)
+	str += pair.Head.SexpString(ps.within(open))
 
 	if pair.Tail == SexpNull {
 		str += ")"
 	} else {
-		str += " \\ " + pair.Tail.SexpString(ps) + ")"
+		str += " \\ " + pair.Tail.SexpString(ps.within(open)) + ")"
 	}
 
 	return str
@@ -313,13 +320,19 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 	if n == 0 {
 		return opn + cls
 	}
+	open, ok := ps.enter(arr)
+	if !ok {
+		return deeper
+	}
+	defer open.leave(arr)
+
 	ta := arr.IsFuncDeclTypeArray
 	str := opn
 
 	last := n - 1
 	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
+		str += indInner + sexp.SexpString(ps.within(open))
 		comma2 = comma
 		if i == last {
 			comma2 = ""
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 1d5999b..389cfb4 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -949,9 +949,15 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	open, ok := ps.enter(hash)
+	if !ok {
+		return deeper
+	}
+	defer open.leave(hash)
+
 	indInner := ""
 	indent := ps.GetIndent()
-	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
+	innerPs := ps.AddIndent(4).within(open) // generates a fresh new PrintState
 	inner := indent + 4
 	prettyEnd := ""
 	origIndInner := ""
@@ -1128,12 +1134,18 @@ func (h *SexpHash) NewSexpHashSelector(sym *SexpSymbol) *SexpHashSelector {
 }
 
 func (si *SexpHashSelector) SexpString(ps *PrintState) string {
+	open, ok := ps.enter(si)
+	if !ok {
+		return deeper
+	}
+	defer open.leave(si)
+
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("SexpHashSelector error: could not get RHS: '%v'",
 			err)
 	}
-	return fmt.Sprintf("%v /*(hashSelector %v %v)*/", rhs.SexpString(ps), si.Container.SexpString(ps), si.Select.SexpString(ps))
+	return fmt.Sprintf("%v /*(hashSelector %v %v)*/", rhs.SexpString(ps.within(open)), si.Container.SexpString(ps.within(open)), si.Select.SexpString(ps.within(open)))
 }
 
 // Type returns the type of the value.
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..e396c9d 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,49 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	// open holds the values that are being printed, that is the
+	// containers, outermost first, of the value printed next.
+	open openValues
+}
+
+// maxPrintDepth is how deep SexpString goes into nested values.
+const maxPrintDepth = 10000
+
+// deeper is printed for a value inside itself, and for what is nested
+// more than maxPrintDepth deep.
+const deeper = "..."
+
+type openValues map[Sexp]struct{}
+
+// enter notes that x is being printed. Unless it is refused, because x
+// is being printed already or is nested too deep, what x contains is to
+// be printed with ps.within(open), and leave called after that.
+func (ps *PrintState) enter(x Sexp) (open openValues, ok bool) {
+	if ps != nil {
+		open = ps.open
+	}
+	if open == nil {
+		open = make(openValues)
+	}
+	if _, busy := open[x]; busy || len(open) >= maxPrintDepth {
+		return nil, false
+	}
+	open[x] = struct{}{}
+	return open, true
+}
+
+func (open openValues) leave(x Sexp) {
+	delete(open, x)
+}
+
+// within is ps for what is inside the values in open.
+func (ps *PrintState) within(open openValues) *PrintState {
+	if ps == nil {
+		ps = NewPrintState()
+	}
+	ps.open = open
+	return ps
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -48,6 +91,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		open:      ps.open,
 	}
 }
 
-- 
2.43.0


From 2fde200d9672f9850a429aaacb953e7e41a3f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 40/59] fix: an array that starts with itself has no type

---
 zygo/expressions.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 29f4a66..b6bc377 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -268,20 +268,40 @@ type SexpArray struct {
 	Env *Zlisp
 }
 
+// maxSliceDepth is how deep arrays of arrays have a type.
+const maxSliceDepth = 1000
+
 func (r *SexpArray) Type() *RegisteredType {
-	if r.Typ == nil {
-		if len(r.Val) > 0 {
-			// take type from first element
-			ty := r.Val[0].Type()
-			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
-			}
+	// take type from first element. nested holds the arrays, outermost
+	// first, that take their type from what last starts with.
+	var nested []*SexpArray
+	last := r
+	for last.Typ == nil && len(last.Val) > 0 {
+		if len(nested) == maxSliceDepth {
+			return nil // starts with itself, or as good as
+		}
+		nested = append(nested, last)
+		first, isArr := last.Val[0].(*SexpArray)
+		if !isArr {
+			break
+		}
+		last = first
+	}
+
+	ty := last.Typ
+	if ty == nil {
+		if len(last.Val) > 0 {
+			ty = last.Val[0].Type()
 		} else {
 			// empty array
-			r.Typ = GoStructRegistry.Lookup("[]")
-			//P("lookup [] returned type %#v", r.Typ)
+			ty = GoStructRegistry.Lookup("[]")
+			last.Typ = ty
 		}
 	}
+	for i := len(nested) - 1; i >= 0 && ty != nil; i-- {
+		ty = GoStructRegistry.GetOrCreateSliceType(ty)
+		nested[i].Typ = ty
+	}
 	return r.Typ
 }
 
-- 
2.43.0


From 3df6b24fd8b34ba539a850425b5e9b835a23d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 41/59] fix: a lazy argument sees nothing of the function that
 forces it

---
 zygo/expressions.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index b6bc377..2519759 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -654,11 +654,19 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 		return lazy.Value, nil
 	}
 
+	// functions that are made in the expression note what is in scope when
+	// they are compiled, which has to be what was when the call was made.
+	callState := env.captureControlState()
+	if lazy.Stack != nil {
+		env.linearstack = lazy.Stack.Clone()
+	}
 	gen := NewGenerator(env)
 	if err := gen.Generate(lazy.Expr); err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 	if len(gen.instructions) == 0 {
+		env.restoreControlState(callState)
 		lazy.Value = SexpNull
 		lazy.Forced = true
 		return lazy.Value, nil
@@ -675,10 +683,6 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 	}
 	sfun.parent = lazy.CurFunc
 
-	callState := env.captureControlState()
-	if lazy.Stack != nil {
-		env.linearstack = lazy.Stack.Clone()
-	}
 	env.pc = -2
 	if err := env.CallFunction(sfun, 0); err != nil {
 		env.restoreControlState(callState)
-- 
2.43.0


From 8d154c6f188d054af0ef1abee509f0ec5eff256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 42/59] verif: list the members of a package

---
 zygo/verif_on.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/zygo/verif_on.go b/zygo/verif_on.go
index 5a89f8b..1aab70d 100644
--- a/zygo/verif_on.go
+++ b/zygo/verif_on.go
@@ -2,6 +2,8 @@
 
 package zygo
 
+import "sort"
+
 // Hooks for verification by simulation. Only built with the verif tag.
 
 const verifEnabled = true
@@ -45,3 +47,22 @@ func (env *Zlisp) VerifDepths() VerifDepths {
 		AtEnd:    env.ReachedEnd(),
 	}
 }
+
+// VerifMembers lists what a package defines itself, by name.
+func VerifMembers(pkg *Stack) (names []string, vals []Sexp) {
+	sc, ok := pkg.GetTop().(*Scope)
+	if !ok {
+		return nil, nil
+	}
+	byName := map[string]Sexp{}
+	for num, v := range sc.Map {
+		name := pkg.env.revsymtable[num]
+		names = append(names, name)
+		byName[name] = v
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		vals = append(vals, byName[name])
+	}
+	return names, vals
+}
-- 
2.43.0


From 715b797240f1492fbdd092250724751531ae248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 43/59] fix: a path through hashes and packages goes on where
 it is

A path that came to a hash inside a nested package, or to a package
inside a nested hash, went on with its second name again: p.inner.H.k
looked for H in H.
---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 389cfb4..29b13ee 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -924,7 +924,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..314fc35 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -272,7 +272,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From db902c7937279a461679dce7b771c0cd5c7dd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 44/59] verif: list the names an interpreter knows

---
 zygo/verif_on.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/zygo/verif_on.go b/zygo/verif_on.go
index 1aab70d..7f824f3 100644
--- a/zygo/verif_on.go
+++ b/zygo/verif_on.go
@@ -66,3 +66,32 @@ func VerifMembers(pkg *Stack) (names []string, vals []Sexp) {
 	}
 	return names, vals
 }
+
+// VerifNames lists every name that is bound in the global scope, is a
+// builtin or a macro, or is reserved.
+func (env *Zlisp) VerifNames() []string {
+	has := map[string]bool{}
+	add := func(num int) { has[env.revsymtable[num]] = true }
+	for num := range env.builtins {
+		add(num)
+	}
+	for num := range env.macros {
+		add(num)
+	}
+	for num := range env.reserved {
+		add(num)
+	}
+	if len(env.linearstack.elements) > 0 {
+		if sc, ok := env.linearstack.elements[0].(*Scope); ok {
+			for num := range sc.Map {
+				add(num)
+			}
+		}
+	}
+	var names []string
+	for name := range has {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
-- 
2.43.0


From 6321c65ca6d48e9a2faa1333a998b94dd48f48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 45/59] fix: a sandbox has no sys, import, req or include

The standard setup gave a sandboxed interpreter sys and import, which run
commands and read files, and the compiler's include read files with no
binding at all.
---
 zygo/builders.go    | 8 ++++++--
 zygo/environment.go | 9 ++++++++-
 zygo/generator.go   | 3 +++
 zygo/repl.go        | 8 +++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index a451a49..28d276f 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,9 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("sys", SystemBuilder)
+	}
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,7 +42,9 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
diff --git a/zygo/environment.go b/zygo/environment.go
index 9485703..1e3e8e0 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -51,6 +51,9 @@ type Zlisp struct {
 
 	booter Booter
 
+	// no way to the outside world: files, processes, the environment.
+	sandboxed bool
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -91,7 +94,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -180,6 +185,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
 
@@ -214,6 +220,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
 }
diff --git a/zygo/generator.go b/zygo/generator.go
index 0a30f87..0b8cb77 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -545,6 +545,9 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateInclude(args []Sexp) error {
+	if gen.env.sandboxed {
+		return fmt.Errorf("include is not available in a sandbox")
+	}
 	if len(args) < 1 {
 		return WrongNargs
 	}
diff --git a/zygo/repl.go b/zygo/repl.go
index 7240b8b..c3d3dbc 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -407,9 +407,11 @@ func (env *Zlisp) StandardSetup() {
 	_, err = env.EvalString(rangeMacro)
 	panicOn(err)
 
-	reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
-	_, err = env.EvalString(reqMacro)
-	panicOn(err)
+	if !env.sandboxed {
+		reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
+		_, err = env.EvalString(reqMacro)
+		panicOn(err)
+	}
 
 	incrMacro := `(defmac ++ [a] ^(set ~a (+ ~a 1)))`
 	_, err = env.EvalString(incrMacro)
-- 
2.43.0


From b7700f914ff1a4b248f334fb73eb6a5c1330c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 46/59] fix: the types a script declares are its interpreter's
 own

Struct declarations, and the names given to hashes, went into the
process's registry of Go types, so what a program did depended on what
other interpreters of the process had run.
---
 zygo/builders.go    | 44 ++++++++++--------------
 zygo/environment.go |  6 ++++
 zygo/expressions.go |  4 +++
 zygo/gotypereg.go   | 84 +++++++++++++++++++++++++++++++++++----------
 zygo/hashutils.go   | 13 ++++---
 zygo/jsonmsgp.go    |  8 ++---
 6 files changed, 105 insertions(+), 54 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 28d276f..1461553 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -67,6 +67,7 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+	rt        *RegisteredType // of the declaration
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -89,9 +90,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	return p.rt
 }
 
 // pretty print a struct
@@ -302,8 +301,9 @@ func StructBuilder(env *Zlisp, name string,
 			return udsR, nil
 		})
 		rtR.UserStructDefn = udsR
+		udsR.rt = rtR
 		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
+		env.declareType(rtR, structName)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
@@ -394,6 +394,7 @@ func StructBuilder(env *Zlisp, name string,
 		return uds, nil
 	})
 	rt.UserStructDefn = uds
+	uds.rt = rt
 	rt.DisplayAs = structName
 	for fieldName, fieldTyp := range uds.FieldType {
 		if fieldTyp == rtR {
@@ -401,7 +402,7 @@ func StructBuilder(env *Zlisp, name string,
 			uds.FieldType[fieldName] = rt
 		}
 	}
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
+	env.declareType(rt, structName)
 	//Q("good: registered new userdefined struct '%s'", structName)
 
 	// replace our recursive-reference-enabling symbol with the real one.
@@ -421,34 +422,27 @@ func StructBuilder(env *Zlisp, name string,
 	return rt, nil
 }
 
-// saveStructDecl notes what sym stands for, in the registry and in the
-// current scope. The function it returns puts that back.
+// saveStructDecl notes what sym stands for, as a type and in the current
+// scope. The function it returns puts that back.
 func (env *Zlisp) saveStructDecl(sym *SexpSymbol) (undo func()) {
-	gsr := &GoStructRegistry
-	all, wasReg := gsr.Registry[sym.name]
-	user, wasUser := gsr.Userdef[sym.name]
-	nlist := len(ListRegisteredTypes)
+	rt, wasType := env.types.named[sym.name]
+	names := env.types.names
 
 	scope := env.linearstack.GetTop().(*Scope)
 	val, wasBound := scope.Map[sym.number]
 
 	return func() {
-		if wasUser {
-			gsr.Userdef[sym.name] = user
+		if wasType {
+			env.types.named[sym.name] = rt
 		} else {
-			delete(gsr.Userdef, sym.name)
-		}
-		if wasReg {
-			gsr.Registry[sym.name] = all
-		} else {
-			delete(gsr.Registry, sym.name)
-			list := ListRegisteredTypes[:nlist:nlist]
-			for _, name := range ListRegisteredTypes[nlist:] {
+			delete(env.types.named, sym.name)
+			list := names[:len(names):len(names)]
+			for _, name := range env.types.names[len(names):] {
 				if name != sym.name {
 					list = append(list, name)
 				}
 			}
-			ListRegisteredTypes = list
+			env.types.names = list
 		}
 		if wasBound {
 			scope.Map[sym.number] = val
@@ -747,7 +741,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	env.declareType(arrayRt, arrayName)
 	return arrayRt, nil
 }
 
@@ -814,9 +808,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index 1e3e8e0..b12fbc5 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -51,6 +51,9 @@ type Zlisp struct {
 
 	booter Booter
 
+	// the types declared by scripts
+	types *typeDecls
+
 	// no way to the outside world: files, processes, the environment.
 	sandboxed bool
 
@@ -123,6 +126,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
+	env.types = &typeDecls{named: make(map[string]*RegisteredType)}
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
@@ -185,6 +189,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.types = env.types
 	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
@@ -220,6 +225,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.types = env.types
 	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 2519759..f3bd137 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -136,9 +136,13 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+	typ *RegisteredType // if it was declared
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.typ != nil {
+		return r.typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index b120c3c..ee4628a 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -142,6 +142,43 @@ func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
 
+// typeDecls holds the types that the scripts of an interpreter declare.
+// Those of the host are in GoStructRegistry.
+type typeDecls struct {
+	named map[string]*RegisteredType
+	names []string // in the order of their declaration
+}
+
+// lookupType finds the type that name stands for in env.
+func (env *Zlisp) lookupType(name string) *RegisteredType {
+	if env != nil {
+		if rt, found := env.types.named[name]; found {
+			return rt
+		}
+	}
+	return GoStructRegistry.Lookup(name)
+}
+
+// declareType makes name stand for e in env.
+func (env *Zlisp) declareType(e *RegisteredType, name string) {
+	e.asUserdef(name)
+	if prev := env.types.named[name]; prev != nil {
+		e.derived = prev.derivedTypes()
+	} else if GoStructRegistry.Lookup(name) == nil {
+		env.types.names = append(env.types.names, name)
+	}
+	env.types.named[name] = e
+}
+
+func (e *RegisteredType) asUserdef(name string) {
+	e.RegisteredName = name
+	e.IsUser = true
+	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if e.DisplayAs == "" {
+		e.DisplayAs = name
+	}
+}
+
 // wait to AddFunction until EnvAvail()
 func (r *GoStructRegistryType) LazyAddFunction(name string, function ZlispUserFunction) {
 	if r.LazyFunc == nil {
@@ -195,6 +232,22 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	derived *derivedTypes
+}
+
+// derivedTypes are the types of slices of and pointers to values of a
+// type, once there are any. A type declared anew keeps them.
+type derivedTypes struct {
+	slice   *RegisteredType
+	pointer *RegisteredType
+}
+
+func (e *RegisteredType) derivedTypes() *derivedTypes {
+	if e.derived == nil {
+		e.derived = new(derivedTypes)
+	}
+	return e.derived
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
@@ -397,7 +450,7 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
+	r := append(append([]string{}, ListRegisteredTypes...), env.types.names...)
 	s := make([]Sexp, len(r))
 	for i := range r {
 		s[i] = &SexpStr{S: r[i]}
@@ -434,38 +487,33 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
 	Q("pointedToType = %#v", pointedToType)
-	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
-	if ptrRt != nil {
-		Q("type named '%v' already registered, reusing the pointer type", ptrName)
-	} else {
-		Q("registering new pointer type '%v'", ptrName)
+	derived := pointedToType.derivedTypes()
+	ptrRt := derived.pointer
+	if ptrRt == nil {
+		ptrName := "*" + pointedToType.RegisteredName
 		derivedType := reflect.PtrTo(pointedToType.goType())
 		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
-		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		ptrRt.asUserdef(ptrName)
+		derived.pointer = ptrRt
 	}
 	return ptrRt
 }
 
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
-	//sliceName := "sliceOf" + rt.RegisteredName
-	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
-	if sliceRt != nil {
-		Q("type named '%v' already registered, re-using the type", sliceName)
-	} else {
-		Q("registering new slice type '%v'", sliceName)
+	derived := rt.derivedTypes()
+	sliceRt := derived.slice
+	if sliceRt == nil {
+		sliceName := "[]" + rt.RegisteredName
 		derivedType := reflect.SliceOf(rt.goType())
 		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
-		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		sliceRt.asUserdef(sliceName)
+		derived.slice = sliceRt
 	}
 	return sliceRt
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 29b13ee..71662ab 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -93,7 +93,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.lookupType(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -141,9 +141,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		k++
 	}
 
-	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.lookupType(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -166,7 +165,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.declareType(factory, typename)
 	}
 
 	return &hash, nil
@@ -287,7 +286,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
 		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
+		rt := h.Env.lookupType(h.TypeName)
 
 		// was it found? If so, use it!
 		if rt != nil && rt.UserStructDefn != nil {
@@ -1022,7 +1021,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	return r.Env.lookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 19c6e5f..227ccf1 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -561,8 +561,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.lookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -920,8 +920,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.lookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
-- 
2.43.0


From aaf4e1c29183886eb29cbbd9aef414d7d4e82f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 47/59] fix: symbols are numbered, and Go types found, in a
 fixed order

Both walked Go maps, so symbol numbers, and which of a type's two names a
record got that a Go method returned, changed from run to run.
---
 zygo/callgo.go      | 43 +++++++++++++++++--------------------------
 zygo/environment.go | 10 +++++++++-
 zygo/gotypereg.go   | 45 +++++++++++++++++++++++++++++++++++++++------
 zygo/hashutils.go   | 31 ++++++++++++-------------------
 4 files changed, 77 insertions(+), 52 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..c6a28ce 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -159,35 +159,26 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				r = append(r, &SexpChar{Val: e})
 			default:
 				// go through the type registry
-				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
-					st, err := factory.Factory(env, nil)
-					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
-							hashName, err)
-					}
-					//Q("got st from Factory, checking if types match")
-					if reflect.ValueOf(st).Type() == out[i].Type() {
-						//Q("types match")
-						retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-						if err != nil {
-							return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-								hashName, err)
-						}
-
-						//Q("filling from shadow")
-						err = retHash.FillHashFromShadow(env, f)
-						if err != nil {
-							return SexpNull, err
-						}
-						r = append(r, retHash)
-						found = true
-						break
-					}
+				factory, err := GoStructRegistry.lookupGoType(env, out[i].Type())
+				if err != nil {
+					return SexpNull, err
 				}
-				if !found {
+				if factory == nil {
 					r = append(r, &SexpReflect{Val: out[i]})
+					continue
+				}
+				retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
+				if err != nil {
+					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+						factory.RegisteredName, err)
+				}
+
+				//Q("filling from shadow")
+				err = retHash.FillHashFromShadow(env, f)
+				if err != nil {
+					return SexpNull, err
 				}
+				r = append(r, retHash)
 			}
 		}
 		return env.NewSexpArray(r), nil
diff --git a/zygo/environment.go b/zygo/environment.go
index b12fbc5..1a97bb7 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
 )
 
@@ -130,7 +131,14 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in order, as symbols are numbered as they are made
+	keys := make([]string, 0, len(funcs))
+	for key := range funcs {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index ee4628a..517e6b7 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"time"
 )
 
@@ -191,8 +192,13 @@ func (r *GoStructRegistryType) EnvAvail(env *Zlisp) {
 	if len(r.LazyFunc) == 0 {
 		return
 	}
-	for nm, fn := range r.LazyFunc {
-		env.AddFunction(nm, fn)
+	names := make([]string, 0, len(r.LazyFunc))
+	for nm := range r.LazyFunc {
+		names = append(names, nm)
+	}
+	sort.Strings(names)
+	for _, nm := range names {
+		env.AddFunction(nm, r.LazyFunc[nm])
 	}
 	// clear it out, all added.
 	r.LazyFunc = make(map[string]ZlispUserFunction)
@@ -459,13 +465,40 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
-		env.AddGlobal(e.RegisteredName, e)
+	for _, types := range []map[string]*RegisteredType{GoStructRegistry.Builtin, GoStructRegistry.Userdef} {
+		for _, name := range sortedTypeNames(types) {
+			e := types[name]
+			env.AddGlobal(e.RegisteredName, e)
+		}
+	}
+}
+
+func sortedTypeNames(types map[string]*RegisteredType) []string {
+	names := make([]string, 0, len(types))
+	for name := range types {
+		names = append(names, name)
 	}
+	sort.Strings(names)
+	return names
+}
 
-	for _, e := range GoStructRegistry.Userdef {
-		env.AddGlobal(e.RegisteredName, e)
+// lookupGoType finds the type that Go values of type typ have: the first
+// one registered. It is nil if there is none.
+func (r *GoStructRegistryType) lookupGoType(env *Zlisp, typ reflect.Type) (*RegisteredType, error) {
+	for _, name := range ListRegisteredTypes {
+		factory, found := r.Registry[name]
+		if !found {
+			continue
+		}
+		st, err := factory.Factory(env, nil)
+		if err != nil {
+			return nil, fmt.Errorf("MakeHash '%s' problem on Factory call: %s", name, err)
+		}
+		if reflect.TypeOf(st) == typ {
+			return factory, nil
+		}
 	}
+	return nil, nil
 }
 
 func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 71662ab..b36b859 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -768,29 +768,22 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 	// check for one of our registered structs
 
 	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
-		//P("fillHashHelper is trying hashName='%s'", hashName)
-		st, err := factory.Factory(env, nil)
+	factory, err := GoStructRegistry.lookupGoType(env, reflect.TypeOf(r))
+	if err != nil {
+		return SexpNull, err
+	}
+	if factory != nil {
+		retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
 		if err != nil {
-			return SexpNull, err
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+				factory.RegisteredName, err)
 		}
-		if reflect.ValueOf(st).Type() == reflect.ValueOf(r).Type() {
-			//Q("we have a registered struct match for st=%T and r=%T", st, r)
-			retHash, err := MakeHash([]Sexp{}, hashName, env)
-			if err != nil {
-				return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-					hashName, err)
-			}
 
-			err = retHash.FillHashFromShadow(env, r)
-			if err != nil {
-				return SexpNull, err
-			}
-			//Q("retHash = %#v\n", retHash)
-			return retHash, nil // or return sx?
-		} else {
-			//Q("fillHashHelper: no match for st=%T and r=%T", st, r)
+		err = retHash.FillHashFromShadow(env, r)
+		if err != nil {
+			return SexpNull, err
 		}
+		return retHash, nil
 	}
 
 	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
-- 
2.43.0


From e7726b358bdffa425c37f44017c228fe130ed846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 48/59] fix: printed values, error texts and conversions hold
 no addresses and follow key order

%v and %#v of a value showed the Go struct behind it, with addresses that
differ from run to run; so did printed packages, the stack trace of a
recovered panic, and togo of a struct with pointers. Conversions of hashes
to Go walked Go maps, so that the last key or the first error depended on
map iteration order. Two debug messages carried the time of day.
---
 zygo/callgo.go      |   9 +-
 zygo/comparisons.go |   5 -
 zygo/environment.go |  13 +--
 zygo/functions.go   |   4 +-
 zygo/gosyntax.go    | 131 ++++++++++++++++++++++
 zygo/hashutils.go   |  22 ++++
 zygo/jsonmsgp.go    | 264 +++++++++++++++++++++-----------------------
 zygo/rawutils.go    |   4 +-
 zygo/repl.go        |   2 +-
 zygo/scopes.go      |   2 +-
 zygo/stack.go       |   2 +-
 zygo/stringer.go    |  75 +++++++++++++
 12 files changed, 370 insertions(+), 163 deletions(-)
 create mode 100644 zygo/gosyntax.go
 create mode 100644 zygo/stringer.go

diff --git a/zygo/callgo.go b/zygo/callgo.go
index c6a28ce..1573397 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -186,7 +183,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 9c653b0..b521246 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -112,11 +112,6 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 		case *int64:
 			return cmpInt(i.Val, *z), nil
 		}
-		P("compareInt(): ifa = %v/%T", ifa, ifa)
-		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
-		P("compareInt(): r.Elem().Interface() = %v/%T", r.Elem().Interface(), r.Elem().Interface())
-		P("compareInt(): r.Elem().Type() = %v/%T", r.Elem().Type(), r.Elem().Type())
-		P("compareInt(): r.Elem().Type().Name() = %v/%T", r.Elem().Type().Name(), r.Elem().Type().Name())
 	}
 	errmsg := fmt.Sprintf("err 92: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
diff --git a/zygo/environment.go b/zygo/environment.go
index 1a97bb7..0ccd898 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"runtime"
 	"sort"
 	"strconv"
 )
@@ -676,15 +675,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -698,7 +695,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
@@ -770,7 +767,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	defer in.Close()
 	exp, err = env.parser.ParseText(bufio.NewReader(in))
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%T')\n", env.parser.Linenum(), err, err)
 	}
 
 	return exp, nil
@@ -779,7 +776,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	expressions, err := env.parser.ParseText(stream)
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v (LoadStream err='%T')\n", env.parser.Linenum(), err, err)
 	}
 	return env.LoadExpressions(expressions)
 }
diff --git a/zygo/functions.go b/zygo/functions.go
index f3e94bb..d3c4f3e 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -836,8 +836,10 @@ func PrintFunction(name string) ZlispUserFunction {
 						ar[i] = x.S
 					case *SexpTime:
 						ar[i] = x.Tm.In(NYC)
+					case *SexpUint64:
+						ar[i] = x.Val
 					default:
-						ar[i] = args[i+1]
+						ar[i] = x.SexpString(nil)
 					}
 				}
 				if name == "printf" {
diff --git a/zygo/gosyntax.go b/zygo/gosyntax.go
new file mode 100644
index 0000000..346fb44
--- /dev/null
+++ b/zygo/gosyntax.go
@@ -0,0 +1,131 @@
+package zygo
+
+import (
+	"fmt"
+	"reflect"
+	"runtime"
+	"sort"
+	"strings"
+)
+
+// goSyntax writes x as %#v does, except that it shows what pointers point
+// to and not their addresses, which are different each time.
+func goSyntax(x interface{}) string {
+	return goSyntaxValue(reflect.ValueOf(x), make(map[goPointee]bool))
+}
+
+type goPointee struct {
+	addr uintptr
+	typ  reflect.Type
+}
+
+func goSyntaxValue(v reflect.Value, open map[goPointee]bool) string {
+	if !v.IsValid() {
+		return "<nil>"
+	}
+	typ := v.Type()
+	if _, isGo := goStringer(v); isGo || pointerFree(typ, nil) {
+		return fmt.Sprintf("%#v", v)
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		if v.IsNil() {
+			if v.Kind() == reflect.Interface || v.Kind() == reflect.Slice || v.Kind() == reflect.Map {
+				return typ.String() + "(nil)"
+			}
+			return "(" + typ.String() + ")(nil)"
+		}
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Map:
+		at := goPointee{v.Pointer(), typ}
+		if open[at] {
+			return "(" + typ.String() + ")(" + deeper + ")"
+		}
+		open[at] = true
+		defer delete(open, at)
+	}
+
+	var parts []string
+	switch v.Kind() {
+	case reflect.Ptr:
+		return "&" + goSyntaxValue(v.Elem(), open)
+	case reflect.Interface:
+		return goSyntaxValue(v.Elem(), open)
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			parts = append(parts, typ.Field(i).Name+":"+goSyntaxValue(v.Field(i), open))
+		}
+	case reflect.Slice, reflect.Array:
+		for i := 0; i < v.Len(); i++ {
+			parts = append(parts, goSyntaxValue(v.Index(i), open))
+		}
+	case reflect.Map:
+		for _, key := range v.MapKeys() {
+			parts = append(parts, goSyntaxValue(key, open)+":"+goSyntaxValue(v.MapIndex(key), open))
+		}
+		sort.Strings(parts)
+	default: // channels and functions
+		return "(" + typ.String() + ")(" + deeper + ")"
+	}
+	return typ.String() + "{" + strings.Join(parts, ", ") + "}"
+}
+
+func goStringer(v reflect.Value) (fmt.GoStringer, bool) {
+	if !v.CanInterface() {
+		return nil, false
+	}
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+	gs, ok := v.Interface().(fmt.GoStringer)
+	return gs, ok
+}
+
+// pointerFree is true of types whose values %#v shows without addresses.
+func pointerFree(typ reflect.Type, within []reflect.Type) bool {
+	for _, t := range within {
+		if t == typ {
+			return true
+		}
+	}
+	within = append(within, typ)
+	switch typ.Kind() {
+	case reflect.Ptr, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		return false
+	case reflect.Slice, reflect.Array:
+		return pointerFree(typ.Elem(), within)
+	case reflect.Map:
+		return pointerFree(typ.Key(), within) && pointerFree(typ.Elem(), within)
+	case reflect.Struct:
+		for i := 0; i < typ.NumField(); i++ {
+			if !pointerFree(typ.Field(i).Type, within) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// sexpText is x as an error message shows it.
+func sexpText(x Sexp) string {
+	if x == nil {
+		return "<nil>"
+	}
+	return x.SexpString(nil)
+}
+
+// panicTrace is the stack of a function that recovered from a panic: the
+// functions and lines, but none of the addresses debug.Stack has.
+func panicTrace() string {
+	pc := make([]uintptr, 100)
+	frames := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
+	var s strings.Builder
+	for {
+		f, more := frames.Next()
+		fmt.Fprintf(&s, "%s(...)\n\t%s:%d\n", f.Function, f.File, f.Line)
+		if !more {
+			return s.String()
+		}
+	}
+}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b36b859..3f27535 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -562,6 +563,27 @@ func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
 }
 
+// inOrder gives the keys and values of hash in the order of its keys.
+func (hash *SexpHash) inOrder() (pairs []*SexpPair) {
+	for _, key := range hash.KeyOrder {
+		val, err := hash.lookupKey(nil, key, SexpEnd)
+		if err == nil && val != SexpEnd {
+			pairs = append(pairs, Cons(key, val))
+		}
+	}
+	return pairs
+}
+
+// fieldNames lists the fields of a Go struct.
+func fieldNames(fields map[string]*HashFieldDet) string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return strings.Join(names, " ")
+}
+
 func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 227ccf1..342fa10 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -382,9 +382,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		nm := fmt.Sprintf("%T", val)
 		rt := GoStructRegistry.Lookup(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch, val = %s.  type = %T.\n", nm, goSyntax(val), val)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %s.  type = %T. TODO: make a record for it.\n", nm, goSyntax(val), val)
 		}
 		return SexpNull
 	}
@@ -491,16 +491,14 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
-			for _, pair := range arr {
-				key := SexpToGo(pair.Head, env, dedup)
-				val := SexpToGo(pair.Tail, env, dedup)
-				keyString, isStringKey := key.(string)
-				if !isStringKey {
-					panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
-				}
-				m[keyString] = val
+		for _, pair := range e.inOrder() {
+			key := SexpToGo(pair.Head, env, dedup)
+			val := SexpToGo(pair.Tail, env, dedup)
+			keyString, isStringKey := key.(string)
+			if !isStringKey {
+				panic(fmt.Errorf("key '%v' should have been a string, but was not.", sexpText(pair.Head)))
 			}
+			m[keyString] = val
 		}
 		m["Atype"] = e.TypeName
 		ko := make([]interface{}, 0)
@@ -583,7 +581,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: fmt.Sprintf("%#v", newStruct)}, nil
+		return &SexpStr{S: goSyntax(newStruct)}, nil
 	}
 
 }
@@ -786,42 +784,38 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						vals, isstr := val.(string)
-						if !isstr {
-							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
-						}
-						m[keys] = vals
+				for _, pair := range src.inOrder() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", sexpText(pair.Head)))
 					}
+					vals, isstr := val.(string)
+					if !isstr {
+						panic(fmt.Errorf("val '%v' should have been an string, but was not.", sexpText(pair.Tail)))
+					}
+					m[keys] = vals
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
 				return target, nil
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keys] = x
-						case int64:
-							m[keys] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.inOrder() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", sexpText(pair.Head)))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keys] = x
+					case int64:
+						m[keys] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", sexpText(pair.Tail)))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -831,22 +825,20 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keyint64, isint64Key := key.(int64)
-						if !isint64Key {
-							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keyint64] = x
-						case int64:
-							m[keyint64] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.inOrder() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keyint64, isint64Key := key.(int64)
+					if !isint64Key {
+						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", sexpText(pair.Head)))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keyint64] = x
+					case int64:
+						m[keyint64] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", sexpText(pair.Tail)))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -863,26 +855,24 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
-						for _, pair := range arr {
-							key := SexpToGo(pair.Head, env, dedup)
-							//val := SexpToGo(pair.Tail, env, dedup)
-							keys, isstr := key.(string)
-							if !isstr {
-								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-							}
-							//vv("keys = '%v'", keys)
-
-							goElem := reflect.New(mapElemTyp) // returns pointer to new value
-							//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-							if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
-								return nil, err
-							}
-							//P(" goElem = %#v after filling i=%d", goElem, i)
-							//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-							pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
-							//vv("pmap after set is now %#v", pmap)
+					for _, pair := range src.inOrder() {
+						key := SexpToGo(pair.Head, env, dedup)
+						//val := SexpToGo(pair.Tail, env, dedup)
+						keys, isstr := key.(string)
+						if !isstr {
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", sexpText(pair.Head)))
+						}
+						//vv("keys = '%v'", keys)
+
+						goElem := reflect.New(mapElemTyp) // returns pointer to new value
+						//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
+						if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
+						//P(" goElem = %#v after filling i=%d", goElem, i)
+						//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
+						pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
+						//vv("pmap after set is now %#v", pmap)
 					}
 					targVa.Elem().Set(pmap)
 					//vv("target returning = '%#v'", target)
@@ -890,7 +880,7 @@ func SexpToGoStructs(
 				}
 				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%s'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, goSyntax(target), targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
@@ -982,70 +972,68 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
-			for _, pair := range arr {
-				recordKey = ""
-				switch k := pair.Head.(type) {
-				case *SexpStr:
-					recordKey = k.S
-				case *SexpSymbol:
-					recordKey = k.name
-				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
-					continue
-				}
-				// We've got to match pair.Head to
-				// one of the struct fields: we'll use
-				// the json tags for that. Or their
-				// full exact name if they didn't have
-				// a json tag.
-				//vv(" JsonTagMap = %#v", src.JsonTagMap)
-				det, found := src.JsonTagMap[recordKey]
-				//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+		for _, pair := range src.inOrder() {
+			recordKey = ""
+			switch k := pair.Head.(type) {
+			case *SexpStr:
+				recordKey = k.S
+			case *SexpSymbol:
+				recordKey = k.name
+			default:
+				fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
+				panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+				continue
+			}
+			// We've got to match pair.Head to
+			// one of the struct fields: we'll use
+			// the json tags for that. Or their
+			// full exact name if they didn't have
+			// a json tag.
+			//vv(" JsonTagMap = %#v", src.JsonTagMap)
+			det, found := src.JsonTagMap[recordKey]
+			//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+			if !found {
+				// try once more, with uppercased version
+				// of record key
+				upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
+				det, found = src.JsonTagMap[upperKey]
+				//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 				if !found {
-					// try once more, with uppercased version
-					// of record key
-					upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
-					det, found = src.JsonTagMap[upperKey]
-					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
-					if !found {
-						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
-						continue
-					}
-				}
-				//vv(" ****  recordKey = '%s'\n", recordKey)
-				//vv(" we found in pair.Tail: %T !", pair.Tail)
-
-				dref := targVa.Elem()
-				//vv(" deref = %#v / type %T", dref, dref)
-
-				// fld should hold our target when
-				// done recursing through any embedded structs.
-				// TODO: handle embedded pointers to structs too.
-				var fld reflect.Value
-				//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
-				// drill down to the actual target
-				fld = dref
-				for _, p := range det.EmbedPath {
-					//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
-					fld = fld.Field(p.ChildFieldNum)
-					//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+					fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
+					panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. the fields are: %s", recordKey, fieldNames(src.JsonTagMap)))
+					continue
 				}
-				//vv(" fld = %#v ", fld)
+			}
+			//vv(" ****  recordKey = '%s'\n", recordKey)
+			//vv(" we found in pair.Tail: %T !", pair.Tail)
+
+			dref := targVa.Elem()
+			//vv(" deref = %#v / type %T", dref, dref)
+
+			// fld should hold our target when
+			// done recursing through any embedded structs.
+			// TODO: handle embedded pointers to structs too.
+			var fld reflect.Value
+			//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
+			// drill down to the actual target
+			fld = dref
+			for _, p := range det.EmbedPath {
+				//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
+				fld = fld.Field(p.ChildFieldNum)
+				//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+			}
+			//vv(" fld = %#v ", fld)
 
-				// INVAR: fld points at our target to fill
-				ptrFld := fld.Addr()
-				tmp, needed := unexportHelper(&ptrFld, &fld)
-				if needed {
-					ptrFld = *tmp
-				}
-				_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
-				if err != nil {
-					panic(err)
-					//return nil, err
-				}
+			// INVAR: fld points at our target to fill
+			ptrFld := fld.Addr()
+			tmp, needed := unexportHelper(&ptrFld, &fld)
+			if needed {
+				ptrFld = *tmp
+			}
+			_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
+			if err != nil {
+				panic(err)
+				//return nil, err
 			}
 		}
 	case *SexpPair:
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 9adc714..22e8c56 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -180,11 +180,11 @@ func Raw64Builder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				case *SexpStr:
 					joined += extractRawHelper(tt.S)
 				default:
-					vv("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
+					P("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
 				}
 
 			default:
-				vv("don't know what to do with %T/val=%v", x, x)
+				P("don't know what to do with %T/val=%v", x, x)
 			}
 		}
 	}
diff --git a/zygo/repl.go b/zygo/repl.go
index c3d3dbc..f631358 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -130,7 +130,7 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 			env.parser.NewInput(bytes.NewBuffer([]byte(nextline + "\n")))
 			continue
 		}
-		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
+		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %T)\n", env.parser.Linenum(), err, err)
 	}
 }
 
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..15da0db 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -312,7 +312,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/stack.go b/zygo/stack.go
index 314fc35..c2085c9 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -161,7 +161,7 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return fmt.Sprintf("already-saw Stack %s in Show", stack.PackageName), nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
diff --git a/zygo/stringer.go b/zygo/stringer.go
new file mode 100644
index 0000000..bdcbcdc
--- /dev/null
+++ b/zygo/stringer.go
@@ -0,0 +1,75 @@
+package zygo
+
+// In messages made with %v and %#v values read as the printer shows them, rather
+// than as Go structs full of addresses.
+
+func (x *RecordDefn) String() string        { return sexpText(x) }
+func (x *RegisteredType) String() string    { return sexpText(x) }
+func (x *Scope) String() string             { return sexpText(x) }
+func (x *SexpArray) String() string         { return sexpText(x) }
+func (x *SexpArraySelector) String() string { return sexpText(x) }
+func (x *SexpBool) String() string          { return sexpText(x) }
+func (x *SexpChannel) String() string       { return sexpText(x) }
+func (x *SexpChar) String() string          { return sexpText(x) }
+func (x *SexpClosureEnv) String() string    { return sexpText(x) }
+func (x *SexpComma) String() string         { return sexpText(x) }
+func (x *SexpComment) String() string       { return sexpText(x) }
+func (x *SexpDate) String() string          { return sexpText(x) }
+func (x *SexpDur) String() string           { return sexpText(x) }
+func (x *SexpField) String() string         { return sexpText(x) }
+func (x *SexpFloat) String() string         { return sexpText(x) }
+func (x *SexpFunction) String() string      { return sexpText(x) }
+func (x *SexpHash) String() string          { return sexpText(x) }
+func (x *SexpHashSelector) String() string  { return sexpText(x) }
+func (x *SexpInt) String() string           { return sexpText(x) }
+func (x *SexpInterfaceDecl) String() string { return sexpText(x) }
+func (x *SexpLazyArg) String() string       { return sexpText(x) }
+func (x *SexpPair) String() string          { return sexpText(x) }
+func (x *SexpPointer) String() string       { return sexpText(x) }
+func (x *SexpRaw) String() string           { return sexpText(x) }
+func (x *SexpReflect) String() string       { return sexpText(x) }
+func (x *SexpRegexp) String() string        { return sexpText(x) }
+func (x *SexpSemicolon) String() string     { return sexpText(x) }
+func (x *SexpSentinel) String() string      { return sexpText(x) }
+func (x *SexpStackmark) String() string     { return sexpText(x) }
+func (x *SexpStr) String() string           { return sexpText(x) }
+func (x *SexpSymbol) String() string        { return sexpText(x) }
+func (x *SexpTime) String() string          { return sexpText(x) }
+func (x *SexpUint64) String() string        { return sexpText(x) }
+func (x *Stack) String() string             { return sexpText(x) }
+
+func (x *RecordDefn) GoString() string        { return sexpText(x) }
+func (x *RegisteredType) GoString() string    { return sexpText(x) }
+func (x *Scope) GoString() string             { return sexpText(x) }
+func (x *SexpArray) GoString() string         { return sexpText(x) }
+func (x *SexpArraySelector) GoString() string { return sexpText(x) }
+func (x *SexpBool) GoString() string          { return sexpText(x) }
+func (x *SexpChannel) GoString() string       { return sexpText(x) }
+func (x *SexpChar) GoString() string          { return sexpText(x) }
+func (x *SexpClosureEnv) GoString() string    { return sexpText(x) }
+func (x *SexpComma) GoString() string         { return sexpText(x) }
+func (x *SexpComment) GoString() string       { return sexpText(x) }
+func (x *SexpDate) GoString() string          { return sexpText(x) }
+func (x *SexpDur) GoString() string           { return sexpText(x) }
+func (x *SexpField) GoString() string         { return sexpText(x) }
+func (x *SexpFloat) GoString() string         { return sexpText(x) }
+func (x *SexpFunction) GoString() string      { return sexpText(x) }
+func (x *SexpHash) GoString() string          { return sexpText(x) }
+func (x *SexpHashSelector) GoString() string  { return sexpText(x) }
+func (x *SexpInt) GoString() string           { return sexpText(x) }
+func (x *SexpInterfaceDecl) GoString() string { return sexpText(x) }
+func (x *SexpLazyArg) GoString() string       { return sexpText(x) }
+func (x *SexpPair) GoString() string          { return sexpText(x) }
+func (x *SexpPointer) GoString() string       { return sexpText(x) }
+func (x *SexpRaw) GoString() string           { return sexpText(x) }
+func (x *SexpReflect) GoString() string       { return sexpText(x) }
+func (x *SexpRegexp) GoString() string        { return sexpText(x) }
+func (x *SexpSemicolon) GoString() string     { return sexpText(x) }
+func (x *SexpSentinel) GoString() string      { return sexpText(x) }
+func (x *SexpStackmark) GoString() string     { return sexpText(x) }
+func (x *SexpStr) GoString() string           { return sexpText(x) }
+func (x *SexpSymbol) GoString() string        { return sexpText(x) }
+func (x *SexpTime) GoString() string          { return sexpText(x) }
+func (x *SexpUint64) GoString() string        { return sexpText(x) }
+func (x *Stack) GoString() string             { return sexpText(x) }
+func (x *SexpError) GoString() string         { return sexpText(x) }
-- 
2.43.0


From c22afac85020c152d00d17cb35d67bf951b4f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 49/59] fix: what nests too deep is an error, not a stack
 overflow

---
 zygo/closing.go     |  19 +++-----
 zygo/comment.go     |  34 +++++++++++--
 zygo/comparisons.go |  50 +++++++++++--------
 zygo/environment.go |  18 +++++++
 zygo/expressions.go |   2 +-
 zygo/generator.go   |  40 +++++++++------
 zygo/jsonmsgp.go    |  36 +++++++++-----
 zygo/listutils.go   |  69 ++++++++++----------------
 zygo/nesting.go     |  51 +++++++++++++++++++
 zygo/parser.go      | 116 +++++++++++++++++++++-----------------------
 zygo/source.go      |   5 +-
 zygo/stack.go       |  28 +++++++++++
 zygo/system.go      |  11 +++--
 zygo/typeutils.go   |  31 ++++++------
 14 files changed, 321 insertions(+), 189 deletions(-)
 create mode 100644 zygo/nesting.go

diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..407abfd 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,21 +8,16 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
-		scop, ok := stk.elements[i].(*Scope)
-		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
-			break
+	var stk *Stack
+	if i := env.linearstack.innermostFunction(); i > 0 {
+		stk = env.NewStack(env.linearstack.Size() - i)
+		for _, elem := range env.linearstack.elements[i : env.linearstack.tos+1] {
+			stk.Push(elem)
 		}
+	} else {
+		stk = env.linearstack.Clone()
 	}
 
 	return &Closing{
diff --git a/zygo/comment.go b/zygo/comment.go
index fc51d05..ab009a6 100644
--- a/zygo/comment.go
+++ b/zygo/comment.go
@@ -48,12 +48,30 @@ func RemoveCommasFilter(x Sexp) bool {
 }
 
 func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
+	return env.filterAny(x, f, nil)
+}
+
+// filterAny filters x, which is inside the arrays and lists in open. What
+// is inside itself, or nested too deep to be compiled, is kept as it is.
+func (env *Zlisp) filterAny(x Sexp, f Filter, open openValues) (filtered Sexp, keep bool) {
+	switch ele := x.(type) {
+	case *SexpArray, *SexpPair:
+		if _, busy := open[ele]; busy || len(open) > maxRunNesting {
+			return x, true
+		}
+		if open == nil {
+			open = make(openValues)
+		}
+		open[ele] = struct{}{}
+		defer open.leave(ele)
+	}
+
 	switch ele := x.(type) {
 	case *SexpArray:
-		res := &SexpArray{Val: env.FilterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
+		res := &SexpArray{Val: env.filterArray(ele.Val, f, open), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
 		return res, true
 	case *SexpPair:
-		return env.FilterList(ele, f), true
+		return env.filterList(ele, f, open), true
 	case *SexpHash:
 		return env.FilterHash(ele, f), true
 	default:
@@ -66,13 +84,17 @@ func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
 }
 
 func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
+	return env.filterArray(x, f, nil)
+}
+
+func (env *Zlisp) filterArray(x []Sexp, f Filter, open openValues) []Sexp {
 	//P("FilterArray: before: %d in size", len(x))
 	//for i := range x {
 	//P("x[i=%d] = %v", i, x[i].SexpString())
 	//}
 	res := []Sexp{}
 	for i := range x {
-		filtered, keep := env.FilterAny(x[i], f)
+		filtered, keep := env.filterAny(x[i], f, open)
 		if keep {
 			res = append(res, filtered)
 		}
@@ -93,6 +115,10 @@ func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
 }
 
 func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
+	return env.filterList(h, f, nil)
+}
+
+func (env *Zlisp) filterList(h *SexpPair, f Filter, open openValues) Sexp {
 	//P("in FilterList")
 	arr, err := ListToArray(h)
 	res := []Sexp{}
@@ -100,6 +126,6 @@ func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
 		// don't filter pair lists
 		return h
 	}
-	res = env.FilterArray(arr, f)
+	res = env.filterArray(arr, f, open)
 	return MakeList(res)
 }
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index b521246..8edb090 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -159,26 +159,29 @@ func (env *Zlisp) compareSymbol(sym *SexpSymbol, expr Sexp) (int, error) {
 	return 0, errors.New(errmsg)
 }
 
-func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
-	var bp *SexpPair
-	switch t := b.(type) {
-	case *SexpPair:
-		bp = t
-	default:
-		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
-		return 0, errors.New(errmsg)
-	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
-		return 0, err
-	}
-	if res != 0 {
-		return res, nil
+func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
+	for {
+		bp, isPair := b.(*SexpPair)
+		if !isPair {
+			errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
+			return 0, errors.New(errmsg)
+		}
+		res, err := env.compare(a.Head, bp.Head, depth+1)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		atail, isPair := a.Tail.(*SexpPair)
+		if !isPair {
+			return env.compare(a.Tail, bp.Tail, depth+1)
+		}
+		a, b = atail, bp.Tail
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
-func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
+func (env *Zlisp) compareArray(a *SexpArray, b Sexp, depth int) (int, error) {
 	var ba *SexpArray
 	switch t := b.(type) {
 	case *SexpArray:
@@ -195,7 +198,7 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
 	}
 
 	for i := 0; i < length; i++ {
-		res, err := env.Compare(a.Val[i], ba.Val[i])
+		res, err := env.compare(a.Val[i], ba.Val[i], depth+1)
 		if err != nil {
 			return 0, err
 		}
@@ -246,6 +249,13 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 }
 
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
+	return env.compare(a, b, 0)
+}
+
+func (env *Zlisp) compare(a Sexp, b Sexp, depth int) (int, error) {
+	if depth > maxValueNesting {
+		return 0, errTooDeep
+	}
 
 	var err error
 	if sel, isSel := a.(Selector); isSel {
@@ -277,9 +287,9 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 	case *SexpSymbol:
 		return env.compareSymbol(at, b)
 	case *SexpPair:
-		return env.comparePair(at, b)
+		return env.comparePair(at, b, depth)
 	case *SexpArray:
-		return env.compareArray(at, b)
+		return env.compareArray(at, b, depth)
 	case *SexpHash:
 		return compareHash(at, b)
 	case *RegisteredType:
diff --git a/zygo/environment.go b/zygo/environment.go
index 0ccd898..cde3798 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -54,6 +54,9 @@ type Zlisp struct {
 	// the types declared by scripts
 	types *typeDecls
 
+	// how deep what is being run and compiled is nested.
+	nesting *nesting
+
 	// no way to the outside world: files, processes, the environment.
 	sandboxed bool
 
@@ -127,6 +130,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
 	env.types = &typeDecls{named: make(map[string]*RegisteredType)}
+	env.nesting = new(nesting)
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
@@ -197,6 +201,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.types = env.types
+	dupenv.nesting = env.nesting
 	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
@@ -233,6 +238,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.types = env.types
+	dupenv.nesting = env.nesting
 	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
@@ -571,6 +577,9 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		panic("where's the global scope?")
 	}
 
+	if env.addrstack.Size() >= maxCallDepth {
+		return errTooDeep
+	}
 	env.addrstack.PushAddr(env.curfunc, env.pc+1)
 
 	//P("DEBUG linearstack with this next:")
@@ -699,6 +708,9 @@ func (env *Zlisp) CallUserFunction(
 	}
 	if err != nil {
 		env.restoreControlState(callState)
+		if len(err.Error()) > maxErrorText {
+			return 0, err
+		}
 		return 0, errors.New(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
@@ -964,6 +976,12 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 
 func (env *Zlisp) Run() (Sexp, error) {
 	runState := env.captureControlState()
+	if err := env.nesting.enter(maxRunNesting); err != nil {
+		env.restoreControlState(runState)
+		env.pc = functionSize(env.curfunc)
+		return SexpNull, err
+	}
+	defer env.nesting.leave()
 
 	for env.pc != -1 && !env.ReachedEnd() {
 		if verifEnabled {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index f3bd137..e74f77d 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -614,7 +614,7 @@ type SexpLazyArg struct {
 func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
-		lazy.Stack = env.linearstack.Clone()
+		lazy.Stack = env.linearstack.cloneInnermost()
 		lazy.CurFunc = env.curfunc
 	}
 	return lazy
diff --git a/zygo/generator.go b/zygo/generator.go
index 0b8cb77..1a80e4c 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -568,7 +568,10 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		case *SexpPair:
 			expr := item
 			for expr != SexpNull {
-				list := expr.(*SexpPair)
+				list, isPair := expr.(*SexpPair)
+				if !isPair {
+					return NotAList
+				}
 				if err := sourceItem(list.Head); err != nil {
 					return err
 				}
@@ -704,7 +707,9 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	if err := gen.Generate(fun); err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -803,6 +808,11 @@ func (gen *Generator) Generate(expr Sexp) error {
 	if _, isComment := expr.(*SexpComment); isComment {
 		return nil
 	}
+	if err := gen.env.nesting.enter(maxRunNesting); err != nil {
+		return err
+	}
+	defer gen.env.nesting.leave()
+
 	switch e := expr.(type) {
 	case *SexpSymbol:
 		gen.AddInstruction(EnvToStackInstr{e})
@@ -818,19 +828,9 @@ func (gen *Generator) Generate(expr Sexp) error {
 				}
 			}
 			if isAssign && pos > 0 && legalLeftHandSide {
-				err := gen.GenerateAssignment(e, pos)
-				if err != nil {
-					return fmt.Errorf("Error generating %s:\n%v",
-						expr.SexpString(nil), err)
-				}
-				return nil
+				return errGenerating(expr, gen.GenerateAssignment(e, pos))
 			}
-			err := gen.GenerateCall(e)
-			if err != nil {
-				return fmt.Errorf("Error generating %s:\n%v",
-					expr.SexpString(nil), err)
-			}
-			return nil
+			return errGenerating(expr, gen.GenerateCall(e))
 		} else {
 			gen.AddInstruction(PushInstr{expr})
 		}
@@ -843,6 +843,14 @@ func (gen *Generator) Generate(expr Sexp) error {
 	return nil
 }
 
+// errGenerating says what was being compiled when err happened.
+func errGenerating(expr Sexp, err error) error {
+	if err == nil || len(err.Error()) > maxErrorText {
+		return err
+	}
+	return fmt.Errorf("Error generating %s:\n%v", expr.SexpString(nil), err)
+}
+
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
 		err := gen.generateNonTail(expr)
@@ -1158,6 +1166,10 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	if len(args) != 1 {
 		return fmt.Errorf("syntaxQuote takes exactly one argument")
 	}
+	if err := gen.env.nesting.enter(maxRunNesting); err != nil {
+		return err
+	}
+	defer gen.env.nesting.leave()
 	arg := args[0]
 
 	// need to handle arrays, since they can have unquotes
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 342fa10..8f5bd7c 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -101,11 +101,18 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 
 // sexp -> json
 func SexpToJson(exp Sexp) string {
+	return sexpToJson(exp, 0)
+}
+
+func sexpToJson(exp Sexp, depth int) string {
+	if depth > maxGoNesting {
+		panic(errTooDeep)
+	}
 	switch e := exp.(type) {
 	case *SexpHash:
-		return e.jsonHashHelper()
+		return e.jsonHashHelper(depth)
 	case *SexpArray:
-		return e.jsonArrayHelper()
+		return e.jsonArrayHelper(depth)
 	case *SexpSymbol:
 		return `"` + e.name + `"`
 	default:
@@ -113,7 +120,7 @@ func SexpToJson(exp Sexp) string {
 	}
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
+func (hash *SexpHash) jsonHashHelper(depth int) string {
 	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
 
 	ko := []string{}
@@ -130,7 +137,7 @@ func (hash *SexpHash) jsonHashHelper() string {
 			panic(err)
 		}
 		str += keyst + `:`
-		str += string(SexpToJson(val)) + `, `
+		str += sexpToJson(val, depth+1) + `, `
 	}
 
 	str += `"zKeyOrder":[`
@@ -159,14 +166,14 @@ func jsonKey(key Sexp) string {
 	return strings.TrimSuffix(buf.String(), "\n")
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
+func (arr *SexpArray) jsonArrayHelper(depth int) string {
 	if len(arr.Val) == 0 {
 		return "[]"
 	}
 
-	str := "[" + SexpToJson(arr.Val[0])
+	str := "[" + sexpToJson(arr.Val[0], depth+1)
 	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+		str += ", " + sexpToJson(sexp, depth+1)
 	}
 	return str + "]"
 }
@@ -429,6 +436,13 @@ func makeSortedSlicesFromMap(m map[string]interface{}) ([]string, []interface{})
 //
 //	same pointer for a SexpHash used in more than one place.
 func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result interface{}) {
+	return sexpToGo(sexp, env, dedup, 0)
+}
+
+func sexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}, depth int) (result interface{}) {
+	if depth > maxGoNesting {
+		panic(errTooDeep)
+	}
 
 	cacheHit := false
 	if dedup == nil {
@@ -467,7 +481,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		//P("*SexpArray decoding! e.Val='%#v'", e.Val)
 		ar := make([]interface{}, len(e.Val))
 		for i, ele := range e.Val {
-			ar[i] = SexpToGo(ele, env, dedup)
+			ar[i] = sexpToGo(ele, env, dedup, depth+1)
 		}
 		return ar
 	case *SexpInt:
@@ -492,8 +506,8 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 
 		m := make(map[string]interface{})
 		for _, pair := range e.inOrder() {
-			key := SexpToGo(pair.Head, env, dedup)
-			val := SexpToGo(pair.Tail, env, dedup)
+			key := sexpToGo(pair.Head, env, dedup, depth+1)
+			val := sexpToGo(pair.Tail, env, dedup, depth+1)
 			keyString, isStringKey := key.(string)
 			if !isStringKey {
 				panic(fmt.Errorf("key '%v' should have been a string, but was not.", sexpText(pair.Head)))
@@ -503,7 +517,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		m["Atype"] = e.TypeName
 		ko := make([]interface{}, 0)
 		for _, k := range e.KeyOrder {
-			ko = append(ko, SexpToGo(k, env, dedup))
+			ko = append(ko, sexpToGo(k, env, dedup, depth+1))
 		}
 		m["zKeyOrder"] = ko
 		return m
diff --git a/zygo/listutils.go b/zygo/listutils.go
index b69efad..46917d7 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -23,42 +23,32 @@ func ListToArray(expr Sexp) ([]Sexp, error) {
 }
 
 func MakeList(expressions []Sexp) Sexp {
-	if len(expressions) == 0 {
-		return SexpNull
-	}
-
-	return Cons(expressions[0], MakeList(expressions[1:]))
+	return listEndingIn(expressions, SexpNull)
 }
 
-func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
-	if expr == SexpNull {
-		return SexpNull, nil
+// listEndingIn makes the list of heads with tail as what follows them.
+func listEndingIn(heads []Sexp, tail Sexp) Sexp {
+	for i := len(heads) - 1; i >= 0; i-- {
+		tail = Cons(heads[i], tail)
 	}
+	return tail
+}
 
-	var list = &SexpPair{}
-	switch e := expr.(type) {
-	case *SexpPair:
-		list.Head = e.Head
-		list.Tail = e.Tail
-	default:
-		return SexpNull, NotAList
-	}
-
-	var err error
-
-	list.Head, err = env.Apply(fun, []Sexp{list.Head})
-
-	if err != nil {
-		return SexpNull, err
-	}
-
-	list.Tail, err = MapList(env, fun, list.Tail)
-
-	if err != nil {
-		return SexpNull, err
+func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
+	var mapped []Sexp
+	for expr != SexpNull {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return SexpNull, NotAList
+		}
+		val, err := env.Apply(fun, []Sexp{list.Head})
+		if err != nil {
+			return SexpNull, err
+		}
+		mapped = append(mapped, val)
+		expr = list.Tail
 	}
-
-	return list, nil
+	return MakeList(mapped), nil
 }
 
 // O(n^2) for n total nodes in all lists. So this is
@@ -87,20 +77,11 @@ func ConcatTwoLists(a *SexpPair, b Sexp) (Sexp, error) {
 		return SexpNull, NotAList
 	}
 
-	if a.Tail == SexpNull {
-		return Cons(a.Head, b), nil
-	}
-
-	switch t := a.Tail.(type) {
-	case *SexpPair:
-		newtail, err := ConcatTwoLists(t, b)
-		if err != nil {
-			return SexpNull, err
-		}
-		return Cons(a.Head, newtail), nil
+	heads, err := ListToArray(a)
+	if err != nil {
+		return SexpNull, err
 	}
-
-	return SexpNull, NotAList
+	return listEndingIn(heads, b), nil
 }
 
 func ListLen(expr Sexp) (int, error) {
diff --git a/zygo/nesting.go b/zygo/nesting.go
new file mode 100644
index 0000000..e8cfd4e
--- /dev/null
+++ b/zygo/nesting.go
@@ -0,0 +1,51 @@
+package zygo
+
+import (
+	"errors"
+	"sync/atomic"
+)
+
+// Go gives up the whole process when a goroutine's stack overflows, and
+// nothing can recover from that. So whatever follows the nesting of what a
+// script is made of, or has made, stops at some depth and reports it.
+const (
+	// maxSourceNesting is how deep the text of a program may nest.
+	maxSourceNesting = 10000
+
+	// maxValueNesting is how deep a value that is looked into may nest.
+	maxValueNesting = 10000
+
+	// maxGoNesting is how deep a value that is converted may nest. The
+	// decoders follow no more than this either.
+	maxGoNesting = 1000
+
+	// maxRunNesting is how deep runs of the interpreter, and what
+	// they compile, may nest.
+	maxRunNesting = 50000
+
+	// maxCallDepth is how many calls may be under way at once.
+	maxCallDepth = 1000000
+
+	// maxErrorText is when an error has enough said about where it was.
+	maxErrorText = 10000
+)
+
+// errTooDeep reports what is nested too deep to be followed.
+var errTooDeep = errors.New("nested too deep, or inside itself")
+
+// nesting counts what is open of what must not nest too deep.
+type nesting struct {
+	depth atomic.Int64
+}
+
+func (n *nesting) enter(max int64) error {
+	if n.depth.Add(1) > max {
+		n.depth.Add(-1)
+		return errTooDeep
+	}
+	return nil
+}
+
+func (n *nesting) leave() {
+	n.depth.Add(-1)
+}
diff --git a/zygo/parser.go b/zygo/parser.go
index c17222d..68ccf7f 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -111,80 +111,71 @@ func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err
 	lexer := parser.lexer
 	var tok Token
 
-tokFilled:
+	var heads []Sexp // of what is read so far
 	for {
-		tok, err = lexer.PeekNextToken(0)
-		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
-		if err != nil {
-			return SexpNull, err
-		}
-		if tok.typ != TokenEnd {
-			break tokFilled
-		}
-		// instead of returning UnexpectedEnd, we:
-		parser.sendMe.Err = ErrMoreInputNeeded
-		ok := parser.yield(parser.sendMe)
-		if !ok {
-			return SexpEnd, nil
-		}
-		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
-
-		// have to still fill tok, so
-		// loop to the top to PeekNextToken
-	}
-
-	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
-	if tok.typ == endTokenTyp {
-		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
-	}
-
-	var start = &SexpPair{}
-
-	expr, err := parser.ParseExpression(depth + 1)
-	if err != nil {
-		return SexpNull, err
-	}
+	tokFilled:
+		for {
+			tok, err = lexer.PeekNextToken(0)
+			//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
+			if err != nil {
+				return SexpNull, err
+			}
+			if tok.typ != TokenEnd {
+				break tokFilled
+			}
+			// instead of returning UnexpectedEnd, we:
+			parser.sendMe.Err = ErrMoreInputNeeded
+			ok := parser.yield(parser.sendMe)
+			if !ok {
+				return listEndingIn(heads, SexpEnd), nil
+			}
+			//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
-	start.Head = expr
+			// have to still fill tok, so
+			// loop to the top to PeekNextToken
+		}
 
-	tok, err = parser.ParserPeekNextToken(0)
-	if err != nil {
-		return SexpNull, err
-	}
+		// allow TokenRCurly to end a list too, for the JSON {} style hashes.
+		if tok.typ == endTokenTyp {
+			_, _ = lexer.GetNextToken()
+			return MakeList(heads), nil
+		}
 
-	// backslash '\' replaces dot '.'
-	if tok.typ == TokenBackslash {
-		// eat up the backslash
-		_, _ = lexer.GetNextToken()
-		expr, err = parser.parseOperand(depth + 1)
+		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
+		heads = append(heads, expr)
 
-		// eat up the end paren
-		if _, err = parser.ParserPeekNextToken(0); err != nil {
-			return SexpNull, err
-		}
-		tok, err = lexer.GetNextToken()
+		tok, err = parser.ParserPeekNextToken(0)
 		if err != nil {
 			return SexpNull, err
 		}
-		// make sure it was actually an end paren
-		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
-		}
-		start.Tail = expr
-		return start, nil
-	}
 
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
-	}
-	start.Tail = expr
+		// backslash '\' replaces dot '.'
+		if tok.typ == TokenBackslash {
+			// eat up the backslash
+			_, _ = lexer.GetNextToken()
+			expr, err = parser.parseOperand(depth + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
-	return start, nil
+			// eat up the end paren
+			if _, err = parser.ParserPeekNextToken(0); err != nil {
+				return SexpNull, err
+			}
+			tok, err = lexer.GetNextToken()
+			if err != nil {
+				return SexpNull, err
+			}
+			// make sure it was actually an end paren
+			if tok.typ != TokenRParen {
+				return SexpNull, errors.New("extra value in dotted pair")
+			}
+			return listEndingIn(heads, expr), nil
+		}
+	}
 }
 
 // parseOperand parses the expression that a prefix such as % or ~, or
@@ -252,6 +243,9 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	if depth > maxSourceNesting {
+		return SexpNull, errTooDeep
+	}
 
 	// defer func() {
 	// 	if res != nil {
diff --git a/zygo/source.go b/zygo/source.go
index 9c2f88a..873d08d 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -133,7 +133,10 @@ func (env *Zlisp) sourceItem(item Sexp) error {
 	case *SexpPair:
 		expr := item
 		for expr != SexpNull {
-			list := expr.(*SexpPair)
+			list, isPair := expr.(*SexpPair)
+			if !isPair {
+				return NotAList
+			}
 			if err := env.sourceItem(list.Head); err != nil {
 				return err
 			}
diff --git a/zygo/stack.go b/zygo/stack.go
index c2085c9..e5ecaec 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -67,6 +67,34 @@ func (stack *Stack) Clone() *Stack {
 	return ret
 }
 
+// innermostFunction finds the scope of the innermost function in a stack
+// of scopes; it is -1 if no function runs.
+func (stack *Stack) innermostFunction() int {
+	for i := stack.tos; i >= 0; i-- {
+		scope, isScope := stack.elements[i].(*Scope)
+		if isScope && scope.IsFunction {
+			return i
+		}
+	}
+	return -1
+}
+
+// cloneInnermost clones what code that runs now can see of a stack of
+// scopes: the global scope, and the scopes from that of the innermost
+// function up. In between are the scopes of callers, which may be many.
+func (stack *Stack) cloneInnermost() *Stack {
+	from := stack.innermostFunction()
+	if from <= 1 {
+		return stack.Clone()
+	}
+	seen := &Stack{env: stack.env, tos: -1}
+	seen.Push(stack.elements[0])
+	for _, elem := range stack.elements[from : stack.tos+1] {
+		seen.Push(elem)
+	}
+	return seen
+}
+
 func (stack *Stack) Top() int {
 	return stack.tos
 }
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..f436f79 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -43,7 +43,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
-	flat, err := flattenToWordsHelper(args)
+	flat, err := flattenToWordsHelper(args, 0)
 	if err != nil {
 		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
 	}
@@ -73,7 +73,7 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	if len(args) == 0 {
 		return SexpNull, WrongNargs
 	}
-	stringArgs, err := flattenToWordsHelper(args)
+	stringArgs, err := flattenToWordsHelper(args, 0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -86,7 +86,7 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	return env.NewSexpArray(res), nil
 }
 
-func flattenToWordsHelper(args []Sexp) ([]string, error) {
+func flattenToWordsHelper(args []Sexp, depth int) ([]string, error) {
 	stringArgs := []string{}
 
 	for i := range args {
@@ -97,11 +97,14 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpSymbol:
 			stringArgs = append(stringArgs, c.name)
 		case *SexpPair:
+			if depth > maxValueNesting {
+				return []string{}, errTooDeep
+			}
 			carry, err := ListToArray(c)
 			if err != nil {
 				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
 			}
-			moreWords, err := flattenToWordsHelper(carry)
+			moreWords, err := flattenToWordsHelper(carry, depth+1)
 			if err != nil {
 				return []string{}, err
 			}
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..2f60119 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -14,30 +14,27 @@ func IsArray(expr Sexp) bool {
 }
 
 func IsList(expr Sexp) bool {
-	if expr == SexpNull {
-		return true
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		return IsList(list.Tail)
+	for expr != SexpNull {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return false
+		}
+		expr = list.Tail
 	}
-	return false
+	return true
 }
 
 func IsAssignmentList(expr Sexp, pos int) (bool, int) {
-	if expr == SexpNull {
-		return false, -1
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		sym, isSym := list.Head.(*SexpSymbol)
-		if !isSym {
-			return IsAssignmentList(list.Tail, pos+1)
+	for ; expr != SexpNull; pos++ {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			break
 		}
-		if sym.name == "=" || sym.name == ":=" {
+		sym, isSym := list.Head.(*SexpSymbol)
+		if isSym && (sym.name == "=" || sym.name == ":=") {
 			return true, pos
 		}
-		return IsAssignmentList(list.Tail, pos+1)
+		expr = list.Tail
 	}
 	return false, -1
 }
-- 
2.43.0


From a6b6374a728a66355426e2512664f3af58e7f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 50/59] fix: gob's type numbers do not depend on what was
 encoded before

---
 zygo/gob.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/zygo/gob.go b/zygo/gob.go
index 0396f78..3a25cbd 100644
--- a/zygo/gob.go
+++ b/zygo/gob.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"io"
+	"sync"
 )
 
 func GobEncodeFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
@@ -22,6 +24,8 @@ func GobEncodeFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("error converting object to Go struct: '%s'", err)
 	}
 
+	meetGobTypes(env)
+
 	// serialize to gob
 	var gobBytes bytes.Buffer
 
@@ -34,6 +38,30 @@ func GobEncodeFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return &SexpRaw{Val: gobBytes.Bytes()}, nil
 }
 
+// gobTypesMet is how many of ListRegisteredTypes gob has been shown.
+var gobTypesMet struct {
+	sync.Mutex
+	n int
+}
+
+// meetGobTypes has gob number the registered Go structs in the order of
+// their registration. Their numbers are part of what it writes, and it
+// numbers the types of a process in the order that it meets them in.
+func meetGobTypes(env *Zlisp) {
+	met := &gobTypesMet
+	met.Lock()
+	defer met.Unlock()
+	for ; met.n < len(ListRegisteredTypes); met.n++ {
+		typ := GoStructRegistry.Registry[ListRegisteredTypes[met.n]]
+		if typ == nil || !typ.hasShadowStruct {
+			continue
+		}
+		if zero, err := typ.Factory(env, nil); err == nil {
+			gob.NewEncoder(io.Discard).Encode(zero)
+		}
+	}
+}
+
 func GobDecodeFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
-- 
2.43.0


From c048e14b175a8b6bba141342cd8d5abe6d099b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 51/59] fix: a scope is shown the same way whatever the order
 of its map

---
 zygo/scopes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zygo/scopes.go b/zygo/scopes.go
index 15da0db..d2969ca 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -285,6 +285,8 @@ func (scope *Scope) DeleteSymbolInScope(sym *SexpSymbol) error {
 type SymtabE struct {
 	Key string
 	Val string
+
+	val Sexp
 }
 
 type SymtabSorter []*SymtabE
@@ -324,10 +326,12 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	sortme := []*SymtabE{}
 	for symbolNumber, val := range scop.Map {
 		symbolName := env.revsymtable[symbolNumber]
-		sortme = append(sortme, &SymtabE{Key: symbolName, Val: val.SexpString(ps)})
+		sortme = append(sortme, &SymtabE{Key: symbolName, val: val})
 	}
 	sort.Sort(SymtabSorter(sortme))
 	for i := range sortme {
+		// in order, as a scope that several values refer to is shown once.
+		sortme[i].Val = sortme[i].val.SexpString(ps)
 		s += fmt.Sprintf("%s %s -> %s\n", rep4,
 			sortme[i].Key, sortme[i].Val)
 	}
-- 
2.43.0


From b2e341ab51961da113c728ef3fbeb8a90824691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 52/59] fix: what does not convert to a Go struct is an error,
 and nothing is lost

Numbers out of range or inexact, kinds the converter does not know and
wrong records were stored wrapped or dropped silently; a record referred
to twice was one Go struct only where both references were of one Go
type; cycles did not end; maps converted for four Go types only.
---
 zygo/jsonmsgp.go | 192 ++++++++++++++++++++++++++++-------------------
 1 file changed, 116 insertions(+), 76 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 8f5bd7c..dc61717 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -656,6 +657,9 @@ func SexpToGoStructs(
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
 	}
+	if calldepth > maxGoNesting {
+		panic(errTooDeep)
+	}
 
 	// elimintes all the decoding!
 	// add top-level primary target to the dedup cache too
@@ -671,8 +675,9 @@ func SexpToGoStructs(
 		_ = cacheHit
 		recov := recover()
 		if !cacheHit && err == nil && recov == nil {
+			// the Go structs of records were cached as soon as there was one.
 			asHash, ok := sexp.(*SexpHash)
-			if ok {
+			if ok && asHash.TypeName == "hash" {
 				// cache it. we might be overwriting with
 				// ourselves, but faster to just write again
 				// than to read and compare then write.
@@ -755,26 +760,20 @@ func SexpToGoStructs(
 		// ugorji msgpack will give us int64 not int,
 		// so match that to make the decodings comparable.
 		//vv("*SexpInt code src.Val='%#v'.. targVa.Elem()='%#v'/Type: %T", src.Val, targVa.Elem().Interface(), targVa.Elem().Interface())
-		switch targVa.Elem().Interface().(type) {
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		default:
-			targVa.Elem().SetInt(int64(src.Val))
+		if !setGoInt(targVa.Elem(), src.Val) {
+			panic(fmt.Errorf("the integer %v is no value of the Go type %v", src.Val, targElemTyp))
+		}
+	case *SexpUint64:
+		if !setGoUint(targVa.Elem(), src.Val) {
+			panic(fmt.Errorf("the integer %v is no value of the Go type %v", src.Val, targElemTyp))
 		}
 	case *SexpStr:
 		targVa.Elem().SetString(src.S)
 	case *SexpChar:
 		targVa.Elem().Set(reflect.ValueOf(rune(src.Val)))
 	case *SexpFloat:
-		switch targVa.Elem().Interface().(type) {
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		default:
-			targVa.Elem().SetFloat(float64(src.Val))
+		if !setGoFloat(targVa.Elem(), src.Val) {
+			panic(fmt.Errorf("the number %v is no value of the Go type %v", src.Val, targElemTyp))
 		}
 	case *SexpHash:
 		//P(" ==== found SexpHash")
@@ -783,11 +782,10 @@ func SexpToGoStructs(
 		if alreadyGoStruct, already := dedup[src]; already {
 			//P("SexpToGoStructs dedup cache HIT! woot! alreadyGoStruct = '%v' for src.TypeName='%v'", alreadyGoStruct, src.TypeName)
 			// already did it. Return alreadyGoStruct.
-			cacheHit = true
-			vo := reflect.ValueOf(alreadyGoStruct).Elem()
-			targVa.Elem().Set(vo)
-
-			return target, nil
+			if setShared(targVa.Elem(), reflect.ValueOf(alreadyGoStruct)) {
+				cacheHit = true
+				return target, nil
+			}
 		}
 
 		tn := src.TypeName
@@ -813,70 +811,23 @@ func SexpToGoStructs(
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
 				return target, nil
-
-			case *map[string]float64:
-				m := make(map[string]float64)
-				for _, pair := range src.inOrder() {
-					key := SexpToGo(pair.Head, env, dedup)
-					val := SexpToGo(pair.Tail, env, dedup)
-					keys, isstr := key.(string)
-					if !isstr {
-						panic(fmt.Errorf("key '%v' should have been an string, but was not.", sexpText(pair.Head)))
-					}
-					switch x := val.(type) {
-					case float64:
-						m[keys] = x
-					case int64:
-						m[keys] = float64(x)
-					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", sexpText(pair.Tail)))
-					}
-				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-
-			case *map[int64]float64:
-				//P("target is a map[int64]float64")
-
-				m := make(map[int64]float64)
-				for _, pair := range src.inOrder() {
-					key := SexpToGo(pair.Head, env, dedup)
-					val := SexpToGo(pair.Tail, env, dedup)
-					keyint64, isint64Key := key.(int64)
-					if !isint64Key {
-						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", sexpText(pair.Head)))
-					}
-					switch x := val.(type) {
-					case float64:
-						m[keyint64] = x
-					case int64:
-						m[keyint64] = float64(x)
-					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", sexpText(pair.Tail)))
-					}
-				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
 			}
 			if targKind == reflect.Ptr && targElemKind == reflect.Map {
 				mapKeyTyp := targElemTyp.Key()
 				mapKeyKind := mapKeyTyp.Kind()
 				mapElemTyp := targElemTyp.Elem()
-				mapElemKind := mapElemTyp.Kind()
-				if mapKeyKind == reflect.String && mapElemKind == reflect.Interface {
+				switch mapKeyKind {
+				case reflect.String, reflect.Int64, reflect.Int, reflect.Int32:
 					// we can try these, map[string]someInterface
 
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
 					for _, pair := range src.inOrder() {
-						key := SexpToGo(pair.Head, env, dedup)
-						//val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", sexpText(pair.Head)))
+						goKey := reflect.New(mapKeyTyp)
+						if _, err := SexpToGoStructs(pair.Head, goKey.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
-						//vv("keys = '%v'", keys)
 
 						goElem := reflect.New(mapElemTyp) // returns pointer to new value
 						//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
@@ -885,7 +836,7 @@ func SexpToGoStructs(
 						}
 						//P(" goElem = %#v after filling i=%d", goElem, i)
 						//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-						pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
+						pmap.SetMapIndex(goKey.Elem(), goElem.Elem())
 						//vv("pmap after set is now %#v", pmap)
 					}
 					targVa.Elem().Set(pmap)
@@ -934,7 +885,7 @@ func SexpToGoStructs(
 		// can we avoid making another top by a simple check that we are at depth 0?
 		var err error
 		var checkPtrStruct interface{}
-		if calldepth == 0 {
+		if calldepth == 0 && reflect.TypeOf(top) == factory.goType() {
 			checkPtrStruct = top
 		} else {
 			checkPtrStruct, err = factory.Factory(env, src)
@@ -985,6 +936,14 @@ func SexpToGoStructs(
 
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
+		if calldepth > 0 && targVa.Pointer() != factOutputVal.Pointer() {
+			// a struct by value starts as the factory makes it, too.
+			targVa.Elem().Set(factOutputVal.Elem())
+		}
+
+		// from here on, whatever refers to the record shares its struct.
+		dedup[src] = targVa.Interface()
+
 		//maploop:
 		for _, pair := range src.inOrder() {
 			recordKey = ""
@@ -1009,7 +968,10 @@ func SexpToGoStructs(
 			if !found {
 				// try once more, with uppercased version
 				// of record key
-				upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
+				upperKey := recordKey
+				if recordKey != "" {
+					upperKey = strings.ToUpper(recordKey[:1]) + recordKey[1:]
+				}
 				det, found = src.JsonTagMap[upperKey]
 				//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 				if !found {
@@ -1062,6 +1024,11 @@ func SexpToGoStructs(
 		//return src
 	case *SexpSentinel:
 		// set to nil
+		switch targElemKind {
+		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct:
+		default:
+			panic(fmt.Errorf("nil is no value of the Go type %v", targElemTyp))
+		}
 		targVa.Elem().Set(reflect.Zero(targVa.Type().Elem()))
 	case *SexpTime:
 		targVa.Elem().Set(reflect.ValueOf(src.Tm))
@@ -1069,12 +1036,85 @@ func SexpToGoStructs(
 		targVa.Elem().Set(reflect.ValueOf(src.Dur))
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
+	case *SexpReflect:
+		if !src.Val.IsValid() || !src.Val.Type().AssignableTo(targElemTyp) {
+			panic(fmt.Errorf("'%v' is no value of the Go type %v", sexpText(src), targElemTyp))
+		}
+		targVa.Elem().Set(src.Val)
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		panic(fmt.Errorf("a %T cannot be converted to the Go type %v", src, targElemTyp))
 	}
 	return target, nil
 }
 
+// setGoInt, setGoUint and setGoFloat set v to a number, if that is a value
+// of v's type.
+func setGoInt(v reflect.Value, n int64) bool {
+	switch {
+	case v.CanInt():
+		if v.OverflowInt(n) {
+			return false
+		}
+		v.SetInt(n)
+	case v.CanUint():
+		if n < 0 || v.OverflowUint(uint64(n)) {
+			return false
+		}
+		v.SetUint(uint64(n))
+	case v.CanFloat():
+		f := float64(n)
+		if f >= 1<<63 || int64(f) != n {
+			return false
+		}
+		return setGoFloat(v, f)
+	default:
+		return false
+	}
+	return true
+}
+
+func setGoUint(v reflect.Value, n uint64) bool {
+	if n <= math.MaxInt64 {
+		return setGoInt(v, int64(n))
+	}
+	if !v.CanUint() || v.OverflowUint(n) {
+		return false
+	}
+	v.SetUint(n)
+	return true
+}
+
+func setGoFloat(v reflect.Value, f float64) bool {
+	switch {
+	case v.CanFloat():
+		if v.OverflowFloat(f) {
+			return false
+		}
+		v.SetFloat(f)
+		return true
+	case f == math.Trunc(f) && f >= -(1<<63) && f < 1<<63:
+		return (v.CanInt() || v.CanUint()) && setGoInt(v, int64(f))
+	}
+	return false
+}
+
+// setShared makes v refer to, or if v is a struct be equal to, what already
+// points to. It tells whether that was possible.
+func setShared(v, already reflect.Value) bool {
+	if already.Kind() != reflect.Ptr || already.IsNil() {
+		return false
+	}
+	switch {
+	case already.Elem().Kind() == reflect.Struct && already.Type().AssignableTo(v.Type()):
+		v.Set(already)
+	case already.Elem().Type() == v.Type():
+		v.Set(already.Elem())
+	default:
+		return false
+	}
+	return true
+}
+
 /*
 if accessing unexported fields, we'll recover from
 
-- 
2.43.0


From 8dda6562b6ba442317ff47c9b7b41392ef339cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 53/59] fix: a Go struct handed back to the script is whole

Fields of embedded structs, unexported fields, slices, maps, nested and
shared structs came back as nil or panicked; a nil pointer panicked.
---
 zygo/callgo.go    |  19 +---
 zygo/hashutils.go | 239 +++++++++++++++++++++++++++-------------------
 2 files changed, 145 insertions(+), 113 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index 1573397..b689c1d 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -135,6 +135,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 		nout := len(out)
 		r := make([]Sexp, 0)
+		made := make(map[interface{}]*SexpHash)
 		for i := 0; i < nout; i++ {
 			f := out[i].Interface()
 			switch e := f.(type) {
@@ -156,26 +157,16 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				r = append(r, &SexpChar{Val: e})
 			default:
 				// go through the type registry
-				factory, err := GoStructRegistry.lookupGoType(env, out[i].Type())
-				if err != nil {
-					return SexpNull, err
-				}
-				if factory == nil {
+				va := reflect.ValueOf(f)
+				if va.Kind() != reflect.Ptr {
 					r = append(r, &SexpReflect{Val: out[i]})
 					continue
 				}
-				retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-				if err != nil {
-					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-						factory.RegisteredName, err)
-				}
-
-				//Q("filling from shadow")
-				err = retHash.FillHashFromShadow(env, f)
+				sx, err := fillHashHelper(va, 0, env, made)
 				if err != nil {
 					return SexpNull, err
 				}
-				r = append(r, retHash)
+				r = append(r, sx)
 			}
 		}
 		return env.NewSexpArray(r), nil
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 3f27535..7de7547 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -4,10 +4,12 @@ import (
 	"errors"
 	"fmt"
 	"hash/fnv"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
 	"strings"
+	"time"
 )
 
 var NoAttachedGoStruct = fmt.Errorf("hash has no attach Go struct")
@@ -685,9 +687,11 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 		jsonTag := fld.Tag.Get("json")
 		if jsonTag != "" {
 			det.FieldJsonTag = jsonTag
-			(*json2ptr)[jsonTag] = det
-		} else {
-			(*json2ptr)[fld.Name] = det
+		}
+		// as in Go, a field hides those of the same name embedded below it.
+		outer, hidden := (*json2ptr)[det.FieldJsonTag]
+		if !hidden || len(outer.EmbedPath) > len(embedPath)+1 {
+			(*json2ptr)[det.FieldJsonTag] = det
 		}
 		*detOrder = append(*detOrder, det)
 
@@ -758,15 +762,36 @@ func GenericHpairFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
 	//Q("in FillHashFromShadow, with src = %#v", src)
+	return h.fillFromShadow(env, src, make(map[interface{}]*SexpHash), 0)
+}
+
+// fillFromShadow is FillHashFromShadow, with the records already made of
+// Go structs.
+func (h *SexpHash) fillFromShadow(env *Zlisp, src interface{}, made map[interface{}]*SexpHash, depth int) error {
 	h.GoShadowStruct = src
+	h.GoShadowStructVa = reflect.ValueOf(src)
 	h.ShadowSet = true
-	vaSrc := reflect.ValueOf(src).Elem()
+	made[src] = h
+	vaSrc := h.GoShadowStructVa.Elem()
 
 	for i, det := range h.DetOrder {
 		_ = i
 		//Q("\n looking at det for %s; %v-th entry in h.DetOrder\n", det.FieldJsonTag, i)
-		goField := vaSrc.Field(det.FieldNum)
-		val, err := fillHashHelper(goField.Interface(), 0, env, false)
+		if h.JsonTagMap[det.FieldJsonTag] != det {
+			continue // hidden by another field
+		}
+		if det.StructField.Anonymous {
+			continue // its fields are fields of h
+		}
+		goField := vaSrc
+		for _, p := range det.EmbedPath {
+			goField = goField.Field(p.ChildFieldNum)
+		}
+		if !goField.CanInterface() {
+			// as unexportHelper does
+			goField = reflect.NewAt(goField.Type(), goField.Addr().UnsafePointer()).Elem()
+		}
+		val, err := fillHashHelper(goField, depth, env, made)
 		if err != nil {
 			//Q("got err='%s' back from fillHashhelper", err)
 			return fmt.Errorf("error on GoToSexp for field '%s': '%s'",
@@ -783,124 +808,139 @@ func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
 }
 
 // translate Go -> Sexp, assuming hard *T{} struct pointers
-// for all Go structs
-func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp, error) {
-	//Q("fillHashHelper() at depth %d, decoded type is %T\n", depth, r)
+// for all Go structs. made has the records already made of Go structs.
+func fillHashHelper(v reflect.Value, depth int, env *Zlisp, made map[interface{}]*SexpHash) (Sexp, error) {
+	//Q("fillHashHelper() at depth %d, decoded type is %v\n", depth, v.Type())
+	if depth > maxGoNesting {
+		return SexpNull, errTooDeep
+	}
 
-	// check for one of our registered structs
+	switch v.Kind() {
+	case reflect.Interface:
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+		return fillHashHelper(v.Elem(), depth, env, made)
 
-	// go through the type registry upfront
-	factory, err := GoStructRegistry.lookupGoType(env, reflect.TypeOf(r))
-	if err != nil {
-		return SexpNull, err
-	}
-	if factory != nil {
-		retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
+	case reflect.Struct:
+		if _, isTime := v.Interface().(time.Time); isTime {
+			return SexpNull, nil // times are not handed back
+		}
+		if !v.CanAddr() {
+			p := reflect.New(v.Type())
+			p.Elem().Set(v)
+			v = p.Elem()
+		}
+		sx, err := fillHashHelper(v.Addr(), depth, env, made)
+		if _, isReflect := sx.(*SexpReflect); isReflect {
+			return &SexpReflect{Val: v}, nil
+		}
+		return sx, err
+
+	case reflect.Ptr:
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+		// check for one of our registered structs
+		r := v.Interface()
+		if h, already := made[r]; already {
+			return h, nil
+		}
+		factory, err := GoStructRegistry.lookupGoType(env, v.Type())
+		if err != nil {
+			return SexpNull, err
+		}
+		if factory == nil || !factory.hasShadowStruct {
+			return &SexpReflect{Val: v}, nil
+		}
+		h, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
 		if err != nil {
 			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
 				factory.RegisteredName, err)
 		}
-
-		err = retHash.FillHashFromShadow(env, r)
+		err = h.fillFromShadow(env, r, made, depth+1)
 		if err != nil {
 			return SexpNull, err
 		}
-		return retHash, nil
-	}
+		return h, nil
 
-	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
+	case reflect.String:
+		return &SexpStr{S: v.String()}, nil
 
-	// now handle basic non struct types:
-	switch val := r.(type) {
-	case string:
-		//Q("depth %d found string case: val = %#v\n", depth, val)
-		if preferSym {
-			return env.MakeSymbol(val), nil
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if dur, isDur := v.Interface().(time.Duration); isDur {
+			return &SexpDur{Dur: dur}, nil
 		}
-		return &SexpStr{S: val}, nil
-
-	case int:
-		//Q("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
+		return &SexpInt{Val: v.Int()}, nil
 
-	case int32:
-		//Q("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case int64:
-		//Q("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v.Uint() > math.MaxInt64 {
+			return &SexpUint64{Val: v.Uint()}, nil
+		}
+		return &SexpInt{Val: int64(v.Uint())}, nil
 
-	case float64:
-		//Q("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}, nil
+	case reflect.Float32, reflect.Float64:
+		return &SexpFloat{Val: v.Float()}, nil
 
-	case []interface{}:
-		//Q("depth %d found []interface{} case: val = %#v\n", depth, val)
+	case reflect.Bool:
+		return &SexpBool{Val: v.Bool()}, nil
 
-		slice := []Sexp{}
-		for i := range val {
-			sx2, err := fillHashHelper(val[i], depth+1, env, preferSym)
+	case reflect.Slice:
+		if v.Type().Elem().Kind() == reflect.Uint8 {
+			return &SexpRaw{Val: v.Bytes()}, nil
+		}
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+		slice := make([]Sexp, v.Len())
+		for i := range slice {
+			sx, err := fillHashHelper(v.Index(i), depth+1, env, made)
 			if err != nil {
 				return SexpNull, fmt.Errorf("error in fillHashHelper() call: '%s'", err)
 			}
-			slice = append(slice, sx2)
+			slice[i] = sx
 		}
 		return &SexpArray{Val: slice, Env: env}, nil
 
-	case map[string]interface{}:
-
-		//Q("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//Q("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//Q("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
-			}
+	case reflect.Map:
+		if v.IsNil() {
+			return SexpNull, nil
 		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
+		if m, isGeneric := v.Interface().(map[string]interface{}); isGeneric {
+			return GoToSexp(m, env)
 		}
-		panicOn(err)
-		return hash, nil
-
-	case []byte:
-		//Q("depth %d found []byte case: val = %#v\n", depth, val)
-
-		return &SexpRaw{Val: val}, nil
-
-	case nil:
-		return SexpNull, nil
+		return fillHashFromMap(v, depth, env, made)
+	}
 
-	case bool:
-		return &SexpBool{Val: val}, nil
+	return &SexpReflect{Val: v}, nil
+}
 
+// fillHashFromMap makes a hash of a Go map; the keys are in order.
+func fillHashFromMap(v reflect.Value, depth int, env *Zlisp, made map[interface{}]*SexpHash) (Sexp, error) {
+	keys := v.MapKeys()
+	switch v.Type().Key().Kind() {
+	case reflect.String:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
 	default:
-		//Q("unknown type in type switch, val = %#v.  type = %T.\n", val, val)
+		return &SexpReflect{Val: v}, nil
 	}
-
-	return SexpNull, nil
+	pairs := make([]Sexp, 0, 2*len(keys))
+	for _, key := range keys {
+		var k Sexp
+		if key.Kind() == reflect.String {
+			k = env.MakeSymbol(key.String())
+		} else {
+			k = &SexpInt{Val: key.Int()}
+		}
+		val, err := fillHashHelper(v.MapIndex(key), depth+1, env, made)
+		if err != nil {
+			return SexpNull, err
+		}
+		pairs = append(pairs, k, val)
+	}
+	return MakeHash(pairs, "hash", env)
 }
 
 func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (Sexp, error) {
@@ -1080,9 +1120,10 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.GoFieldSx = src.GoFieldSx
 	p.GoType = src.GoType
 	p.NumMethod = src.NumMethod
-	p.GoShadowStruct = src.GoShadowStruct
-	p.GoShadowStructVa = src.GoShadowStructVa
-	p.ShadowSet = src.ShadowSet
+	// the Go struct of src is not that of p, which has none of these values.
+	p.GoShadowStruct = nil
+	p.GoShadowStructVa = reflect.Value{}
+	p.ShadowSet = false
 
 	// json tag name -> pointers to example values, as factories for SexpToGoStructs()
 	p.JsonTagMap = make(map[string]*HashFieldDet)
-- 
2.43.0


From dc145f73853a8481fcdca703980f5d48add210d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 54/59] fix: a failed conversion leaves no half filled Go
 struct behind

A record inside one that did not convert was left with the Go struct that
was being filled, and a method call on it used that one later.
---
 zygo/jsonmsgp.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index dc61717..b8568e6 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -895,6 +895,7 @@ func SexpToGoStructs(
 		}
 		factOutputVal := reflect.ValueOf(checkPtrStruct)
 		factType := factOutputVal.Type()
+		attach := false
 		if targTyp.Kind() == reflect.Ptr && targTyp.Elem().Kind() == reflect.Interface && factType.Implements(targTyp.Elem()) {
 			//Q(" accepting type check: %v implements %v", factType, targTyp)
 
@@ -909,9 +910,7 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			attach = true
 
 		} else if targTyp.Kind() == reflect.Ptr && targTyp.Elem() == factType {
 			//Q("we have a double pointer that matches the factory type! factType == targTyp.Elem(). factType=%v/%T  targTyp = %v/%T", factType, factType, targTyp, targTyp)
@@ -923,9 +922,7 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			attach = true
 
 		} else if factType != targTyp {
 			// factType=*zygo.NestInner/*reflect.rtype  targTyp = **zygo.NestInner/*reflect.rtype
@@ -1012,6 +1009,12 @@ func SexpToGoStructs(
 				//return nil, err
 			}
 		}
+		if attach {
+			// only a struct that is filled is that of the record
+			src.ShadowSet = true
+			src.GoShadowStruct = checkPtrStruct
+			src.GoShadowStructVa = factOutputVal
+		}
 	case *SexpPair:
 		panic("unimplemented")
 		// no conversion
-- 
2.43.0


From c333cba4e209c44a3fe800caefd614b7abd8a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 55/59] fix: a target of mdef that is no symbol is an error,
 not a crash

---
 zygo/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 1a80e4c..ba6af0a 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1115,9 +1115,10 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not: '%s'", i+1, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
-- 
2.43.0


From 6fbcccd689201cf99877de46fa3f3ccea4ac9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 56/59] fix: showing a field copes with any key, and with a
 field inside itself

---
 zygo/builders.go | 147 ++++++++++++++++++++++++-----------------------
 1 file changed, 75 insertions(+), 72 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 1461553..a189fc0 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -101,10 +101,16 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	}
 	s := fmt.Sprintf("(struct %s [\n", p.Name)
 
+	txt := make([][]string, len(p.Fields))
 	w := make([][]int, len(p.Fields))
 	maxnfield := 0
 	for i, f := range p.Fields {
-		w[i] = f.FieldWidths()
+		var ok bool
+		txt[i], ok = f.texts(ps)
+		if !ok {
+			return fmt.Sprintf("(struct %s [%s])", p.Name, deeper)
+		}
+		w[i] = fieldWidths(txt[i])
 		//Q("w[i=%v] = %v", i, w[i])
 		maxnfield = maxi(maxnfield, len(w[i]))
 	}
@@ -135,8 +141,8 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	// xxxxxxx
 	// xxx     x  x x
 	//Q("pad = %#v", biggestCol)
-	for _, f := range p.Fields {
-		s += " " + f.AlignString(biggestCol) + "\n"
+	for i, f := range p.Fields {
+		s += " " + f.align(txt[i], biggestCol) + "\n"
 	}
 	s += " ])\n"
 	return s
@@ -155,96 +161,90 @@ func (r SexpField) Type() *RegisteredType {
 	return r.GoStructFactory
 }
 
-// compute key and value widths to assist alignment
-func (f *SexpField) FieldWidths() []int {
+// texts lists what is shown for each key of the field: the key, then its
+// value. It is not ok when the field is being shown already, or is nested
+// too deep.
+func (f *SexpField) texts(ps *PrintState) (txt []string, ok bool) {
+	open, ok := ps.enter(f)
+	if !ok {
+		return nil, false
+	}
+	defer open.leave(f)
+
 	hash := (*SexpHash)(f)
-	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.lookupKey(nil, key, SexpNull)
+		if err != nil {
+			val = SexpNull
+		}
 		str := ""
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				str += s.S + ":"
-			case *SexpSymbol:
-				str += s.name + ":"
-			default:
-				str += key.SexpString(nil) + ":"
-			}
-			wide = append(wide, len(str))
-			wide = append(wide, len(val.SexpString(nil))+1)
-		} else {
-			panic(err)
+		switch s := key.(type) {
+		case *SexpStr:
+			str = s.S
+		case *SexpSymbol:
+			str = s.name
+		default:
+			str = key.SexpString(NewPrintState().within(open))
 		}
+		txt = append(txt, str+":", val.SexpString(NewPrintState().within(open)))
+	}
+	return txt, true
+}
+
+// compute key and value widths to assist alignment
+func (f *SexpField) FieldWidths() []int {
+	txt, _ := f.texts(nil)
+	return fieldWidths(txt)
+}
+
+func fieldWidths(txt []string) []int {
+	wide := []int{}
+	for i, str := range txt {
+		wide = append(wide, len(str)+i%2)
 	}
 	return wide
 }
 
 func (f *SexpField) AlignString(pad []int) string {
+	txt, _ := f.texts(nil)
+	return f.align(txt, pad)
+}
+
+func (f *SexpField) align(txt []string, pad []int) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
-	spc := " "
-	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
-		r := ""
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				r += s.S + ":"
-			case *SexpSymbol:
-				r += s.name + ":"
-			default:
-				r += key.SexpString(nil) + ":"
-			}
-			xtra := pad[i*2] - len(r)
-			if xtra < 0 {
-				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
-			}
-			leftpad := strings.Repeat(" ", xtra)
-			vs := val.SexpString(nil)
-			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
-			if i == 0 {
-				spc = " "
-			} else {
-				spc = ""
-			}
-			r = leftpad + r + spc + vs + rightpad
-		} else {
-			panic(err)
+	spaces := func(i int) string {
+		if i >= len(pad) || pad[i] <= len(txt[i]) {
+			return ""
+		}
+		return strings.Repeat(" ", pad[i]-len(txt[i]))
+	}
+	for i := 0; i < len(txt); i += 2 {
+		spc := ""
+		if i == 0 {
+			spc = " "
 		}
-		str += r
+		str += spaces(i) + txt[i] + spc + txt[i+1] + spaces(i+1)
 	}
-	if len(hash.Map) > 0 {
+	if len(txt) > 0 {
 		return str[:len(str)-1] + ")"
 	}
 	return str + ")"
 }
 
 func (f *SexpField) SexpString(ps *PrintState) string {
-	hash := (*SexpHash)(f)
-	str := " (" + hash.TypeName + " "
-
-	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				str += s.S + ":"
-			case *SexpSymbol:
-				str += s.name + ":"
-			default:
-				str += key.SexpString(nil) + ":"
-			}
-			if i > 0 {
-				str += val.SexpString(nil) + " "
-			} else {
-				str += val.SexpString(nil) + "    "
-			}
-		} else {
-			panic(err)
+	txt, ok := f.texts(ps)
+	if !ok {
+		return deeper
+	}
+	str := " (" + (*SexpHash)(f).TypeName + " "
+	for i := 0; i < len(txt); i += 2 {
+		str += txt[i] + txt[i+1] + " "
+		if i == 0 {
+			str += "   "
 		}
 	}
-	if len(hash.Map) > 0 {
+	if len(txt) > 0 {
 		return str[:len(str)-1] + ")"
 	}
 	return str + ")"
@@ -851,6 +851,9 @@ func ExpectErrorBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		if err.Error() == expectedError.S {
 			return SexpNull, nil
 		}
+		if len(err.Error()) > maxErrorText {
+			return SexpNull, err
+		}
 		return SexpNull, fmt.Errorf("expectError expected '%s' but saw '%s'", expectedError.S, err)
 	}
 
-- 
2.43.0


From 398f41398972a2d2c23e04a46709c0b1c03c4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 57/59] fix: binding and compiling do not print values nobody
 sees

---
 zygo/generator.go | 3 ---
 zygo/gotypereg.go | 1 -
 zygo/scopes.go    | 2 --
 3 files changed, 6 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index ba6af0a..36f9ef9 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -187,7 +187,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -1057,7 +1056,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1578,7 +1576,6 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
 		err := gen.generateNonTail(xs[i])
 		if err != nil {
 			return err
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 517e6b7..f84594e 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -257,7 +257,6 @@ func (e *RegisteredType) derivedTypes() *derivedTypes {
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
diff --git a/zygo/scopes.go b/zygo/scopes.go
index d2969ca..e9f16c2 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -192,7 +192,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
 
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
@@ -212,7 +211,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
 
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
-- 
2.43.0


From 3eb0fe3141cbdcd8cc80df2c351fe7891048f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 58/59] fix: dump shows a value without the interpreter behind
 it

---
 zygo/jsonmsgp.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index b8568e6..129de7e 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -634,10 +634,37 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	goon.Dump(args[0])
+	left := maxDumpValues
+	if isPlainData(args[0], &left) {
+		goon.Dump(args[0])
+	} else {
+		fmt.Printf("(%T)(%s)\n", args[0], args[0].SexpString(nil))
+	}
 	return SexpNull, nil
 }
 
+// maxDumpValues is how many values (dump) shows the Go fields of.
+const maxDumpValues = 200
+
+// isPlainData is false if x refers to the interpreter, to a type, or to
+// itself, or holds more than left values: the Go fields that can be reached
+// from there are too many to list.
+func isPlainData(x Sexp, left *int) bool {
+	*left--
+	if *left < 0 {
+		return false
+	}
+	switch e := x.(type) {
+	case *SexpInt:
+		return e.Typ == nil
+	case *SexpUint64, *SexpFloat, *SexpBool, *SexpChar, *SexpStr, *SexpRaw, *SexpTime, *SexpSymbol, *SexpSentinel:
+		return true
+	case *SexpPair:
+		return isPlainData(e.Head, left) && isPlainData(e.Tail, left)
+	}
+	return false
+}
+
 // try to convert to registered go structs if possible,
 // filling in the structure of target (should be a pointer).
 func SexpToGoStructs(
-- 
2.43.0


From 6a44465cd2f1ccd273ee482abe89e1bef6e288cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 59/59] fix: a panic in a macro written in Go is an error

---
 zygo/environment.go | 38 ++++++++++++++++----------------------
 zygo/msgpackmap.go  |  8 +++++++-
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index cde3798..2bb46e6 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -656,6 +656,20 @@ func (env *Zlisp) callingFunction() *SexpFunction {
 	return nil
 }
 
+// callProtected calls a Go function; a panic in it is returned as an error,
+// to protect against bad calls/bad reflection in usercalls.
+func (env *Zlisp) callProtected(function *SexpFunction, name string, args []Sexp) (res Sexp, err error) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			err = fmt.Errorf("CallUserFunction caught panic during call of "+
+				"'%s': '%v'\n stack trace:\n%v\n",
+				name, recovered, panicTrace())
+		}
+	}()
+	return function.userfun(env, name, args)
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -681,31 +695,11 @@ func (env *Zlisp) CallUserFunction(
 	//P("DEBUG linearstack with this next, just before calling function.userfun:")
 	//env.showStackHelper(env.linearstack, "linearstack")
 
-	// protect against bad calls/bad reflection in usercalls
-	var wasPanic bool
-	var recovered interface{}
-	var trace string
-	res, err := func() (Sexp, error) {
-		defer func() {
-			recovered = recover()
-			if recovered != nil {
-				wasPanic = true
-				trace = panicTrace()
-			}
-		}()
-
-		// the point we were getting to, before the panic protection:
-		return function.userfun(env, name, args)
-	}()
+	res, err := env.callProtected(function, name, args)
 
 	//P("DEBUG linearstack with this next, just *after* calling function.userfun:")
 	//env.showStackHelper(env.linearstack, "linearstack")
 
-	if wasPanic {
-		err = fmt.Errorf("CallUserFunction caught panic during call of "+
-			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, trace)
-	}
 	if err != nil {
 		env.restoreControlState(callState)
 		if len(err.Error()) > maxErrorText {
@@ -942,7 +936,7 @@ func (env *Zlisp) FindObject(name string) (Sexp, bool) {
 func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	//VPrintf("\n\n debug Apply not working on user funcs: fun = '%#v'   and args = '%#v'\n\n", fun, args)
 	if fun.user {
-		return fun.userfun(env, fun.name, args)
+		return env.callProtected(fun, fun.name, args)
 	}
 
 	callState := env.captureControlState()
diff --git a/zygo/msgpackmap.go b/zygo/msgpackmap.go
index e8b89d0..1095624 100644
--- a/zygo/msgpackmap.go
+++ b/zygo/msgpackmap.go
@@ -19,13 +19,19 @@ func MsgpackMapMacro(env *Zlisp, name string,
 			"(msgpack-map struct-name)\n")
 	}
 
+	sym, isSym := args[0].(*SexpSymbol)
+	if !isSym {
+		return SexpNull, fmt.Errorf("struct-name must be a symbol, not %T. use: "+
+			"(msgpack-map struct-name)\n", args[0])
+	}
+
 	return MakeList([]Sexp{
 		env.MakeSymbol("def"),
 		args[0],
 		MakeList([]Sexp{
 			env.MakeSymbol("quote"),
 			env.MakeSymbol("msgmap"),
-			&SexpStr{S: args[0].(*SexpSymbol).name},
+			&SexpStr{S: sym.name},
 		}),
 	}), nil
 }
-- 
2.43.0

