package props

import (
	"fmt"
	"strconv"
	"strings"
)

// Text of forms, as a user would write them. Tail controls layout.

type printer struct {
	b   strings.Builder
	lay func() int // layout decision: 0 single space
}

func (p *printer) sep() {
	switch p.lay() {
	case 1:
		p.b.WriteString("\n")
	case 2:
		p.b.WriteString("  ")
	case 3:
		p.b.WriteString(" // c\n")
	case 4:
		p.b.WriteString(" /* ( */ ")
	default:
		p.b.WriteString(" ")
	}
}

func quoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) form(f V) {
	switch x := f.(type) {
	case RNil:
		p.b.WriteString("()")
	case int64:
		p.b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		p.b.WriteString(s)
	case bool:
		p.b.WriteString(strconv.FormatBool(x))
	case Ch:
		p.b.WriteString("'" + string(rune(x)) + "'")
	case string:
		p.b.WriteString(quoteStr(x))
	case Sy:
		p.b.WriteString(string(x))
	case *Ar:
		p.b.WriteString("[")
		for i, e := range x.E {
			if i > 0 {
				p.sep()
			}
			p.form(e)
		}
		p.b.WriteString("]")
	case *Pr:
		xs, ok := unlist(x)
		if ok && len(xs) == 2 {
			if h, isSy := x.H.(Sy); isSy {
				pre := map[Sy]string{"syntaxQuote": "^", "unquote": "~", "unquote-splicing": "~@"}[h]
				if h == "quote" && p.lay() == 5 {
					pre = "%"
				}
				if pre != "" {
					p.b.WriteString(pre)
					p.form(xs[1])
					return
				}
			}
		}
		p.b.WriteString("(")
		var cur V = x
		for i := 0; ; i++ {
			pr, ok := cur.(*Pr)
			if !ok {
				if _, isNil := cur.(RNil); !isNil {
					p.b.WriteString(" \\ ")
					p.form(cur)
				}
				break
			}
			if i > 0 {
				p.sep()
			}
			p.form(pr.H)
			cur = pr.T
		}
		p.b.WriteString(")")
	case *Inf:
		p.infix(x)
	default:
		panic(fmt.Sprintf("print %T", f))
	}
}

// Text prints forms as one source text.
func Text(forms []V, lay func() int) string {
	if lay == nil {
		lay = func() int { return 0 }
	}
	p := &printer{lay: lay}
	for i, f := range forms {
		if i > 0 {
			if lay() == 1 {
				p.b.WriteString("\n")
			} else {
				p.b.WriteString(" ")
			}
		}
		p.form(f)
	}
	return p.b.String()
}
