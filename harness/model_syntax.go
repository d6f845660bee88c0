package main

// An independent reference of the raw text syntax, written from the package
// documentation. It works on byte offsets and shares nothing with the scanner
// of the code under test.

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)

type exprKind int

const (
	kPlain exprKind = iota
	kBind
	kCall
	kFunc
)

// mNum is a number literal.
type mNum struct {
	F   float64
	Int *big.Int // exact value of integer literals, else nil
	// Inexact literals are written with a fraction or exponent and have not
	// exactly the value F.
	Inexact bool
	Join    bool // an index assigned by #join
}

type mExpr struct {
	Kind   exprKind
	Text   string // plain text
	Dollar bool
	Index  int // -1: not an int
	Name   string
	Args   []any // mNum, string, bool, nil
	Line   int
	Col    int
	Off    int
}

type pStatus int

const (
	pOK pStatus = iota
	pBad
	pUnspec
)

func isNameByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

var (
	reNumber      = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	reSmallNumber = regexp.MustCompile(`^[0-9.+-]{1,200}([eE][+-]?[0-9]{1,3})?$`)
	reInteger     = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reOddNumber   = regexp.MustCompile(`(?i)^[+-]?(inf|infinity|nan|0x[0-9a-f_.p+-]*|[0-9_.e+-]*_[0-9_.e+-]*)$`)
)

// parseLit returns the value of a bare literal.
func parseLit(tok string) (v any, st pStatus, why string) {
	switch tok {
	case "true":
		return true, pOK, ""
	case "false":
		return false, pOK, ""
	case "null", "nil":
		return nil, pOK, ""
	}
	if reNumber.MatchString(tok) {
		f, err := strconv.ParseFloat(tok, 64)
		if err != nil {
			return nil, pUnspec, "number out of the range of float64"
		}
		n := mNum{F: f}
		if reInteger.MatchString(tok) {
			n.Int, _ = new(big.Int).SetString(strings.TrimPrefix(tok, "+"), 10)
		} else {
			n.Inexact = true
			if reSmallNumber.MatchString(tok) {
				exact, ok := new(big.Rat).SetString(strings.TrimPrefix(tok, "+"))
				n.Inexact = !ok || exact.Cmp(new(big.Rat).SetFloat64(f)) != 0
			}
		}
		return n, pOK, ""
	}
	if reOddNumber.MatchString(tok) {
		return nil, pUnspec, "hex, inf, nan or underscore number"
	}
	trimmed := strings.TrimRightFunc(tok, unicode.IsSpace)
	if trimmed != tok {
		_, st, why := parseLit(trimmed)
		if st != pBad {
			return nil, pUnspec, "white space after a literal " + why
		}
	}
	switch strings.ToLower(tok) {
	case "true", "false", "null", "nil":
		return nil, pUnspec, "upper case keyword"
	}
	return nil, pBad, "bad literal"
}

// refParse is the reference parser. Plain expressions are merged.
func refParse(s string) (out []mExpr, st pStatus, why string) {
	i := 0
	plainStart := -1
	flush := func(end int) {
		if plainStart >= 0 && end > plainStart {
			out = append(out, mExpr{Kind: kPlain, Text: s[plainStart:end], Off: plainStart})
		}
		plainStart = -1
	}
	bindCount := 0
	bindDollar := false
	mixed := false
	for i < len(s) {
		c := s[i]
		switch c {
		case '\'', '"', '`':
			if plainStart < 0 {
				plainStart = i
			}
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if c == '\'' && j+1 < len(s) && s[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j < len(s) {
				j++
			}
			i = j
		case '$', '?':
			if i+1 < len(s) && s[i+1] == c {
				if plainStart < 0 {
					plainStart = i
				}
				i += 2
				continue
			}
			flush(i)
			e := mExpr{Kind: kBind, Dollar: c == '$', Off: i}
			bindCount++
			if bindCount == 1 {
				bindDollar = e.Dollar
			} else if bindDollar != e.Dollar {
				mixed = true
			}
			i++
			if c == '?' {
				if i < len(s) && isDigit(s[i]) {
					if s[i] == '0' {
						return nil, pUnspec, "?0"
					}
					return nil, pBad, "? with index"
				}
				e.Index = bindCount
			} else {
				if i >= len(s) || !isDigit(s[i]) || s[i] == '0' {
					return nil, pBad, "$ without index"
				}
				j := i
				for j < len(s) && isDigit(s[j]) {
					j++
				}
				n, err := strconv.Atoi(s[i:j])
				if err != nil {
					n = -1
				}
				e.Index = n
				i = j
			}
			out = append(out, e)
		case '#':
			flush(i)
			e := mExpr{Kind: kFunc, Off: i}
			i++
			j := i
			for j < len(s) && isNameByte(s[j]) {
				j++
			}
			if j == i {
				return nil, pBad, "# without name"
			}
			e.Name = s[i:j]
			i = j
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			if j > i {
				v, st, why := parseLit(s[i:j])
				if st != pOK {
					return nil, st, why
				}
				e.Kind = kCall
				e.Args = []any{v}
				i = j
			} else if i < len(s) && s[i] == '(' {
				e.Kind = kCall
				var st pStatus
				var why string
				e.Args, i, st, why = refArgs(s, i+1)
				if st != pOK {
					return nil, st, why
				}
			}
			out = append(out, e)
		default:
			if plainStart < 0 {
				plainStart = i
			}
			i++
		}
	}
	flush(len(s))
	if mixed {
		return nil, pBad, "mixed bindvar styles"
	}
	line, col, at := 1, 0, 0
	for k := range out {
		for at <= out[k].Off {
			r, w := utf8.DecodeRuneInString(s[at:])
			if r == '\n' {
				line, col = line+1, 0
			} else {
				col++
			}
			at += w
		}
		out[k].Line, out[k].Col = line, col
	}
	return out, pOK, ""
}

func skipSpace(s string, i int) int {
	for i < len(s) {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(r) {
			break
		}
		i += w
	}
	return i
}

// refArgs parses the arguments of a call, i is behind the left parenthesis.
func refArgs(s string, i int) (args []any, end int, st pStatus, why string) {
	for n := 0; ; n++ {
		i = skipSpace(s, i)
		if i >= len(s) {
			return nil, 0, pBad, "unterminated call"
		}
		switch {
		case s[i] == ')':
			if n > 0 {
				return nil, 0, pUnspec, "trailing comma"
			}
			return args, i + 1, pOK, ""
		case s[i] == ',':
			return nil, 0, pBad, "missing argument"
		case s[i] == '\'':
			j := i + 1
			b := new(strings.Builder)
			for {
				if j >= len(s) {
					return nil, 0, pBad, "unterminated string"
				}
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b.WriteByte('\'')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			args = append(args, b.String())
			i = j + 1
		default:
			j := i
			for j < len(s) && s[j] != ',' && s[j] != ')' {
				j++
			}
			v, st, why := parseLit(s[i:j])
			if st == pBad {
				return nil, 0, pBad, why
			}
			if j >= len(s) {
				return nil, 0, pBad, "unterminated call"
			}
			if st != pOK {
				return nil, 0, st, why
			}
			args = append(args, v)
			i = j
		}
		i = skipSpace(s, i)
		if i >= len(s) {
			return nil, 0, pBad, "unterminated call"
		}
		switch s[i] {
		case ')':
			return args, i + 1, pOK, ""
		case ',':
			i++
		default:
			return nil, 0, pBad, "missing comma"
		}
	}
}

// sameLit reports whether the parsed literal got is the literal want.
func sameLit(want, got any) bool {
	n, ok := want.(mNum)
	if !ok {
		return want == got
	}
	switch g := got.(type) {
	case float64:
		if g == n.F {
			if n.Int == nil || !n.Int.IsInt64() && !n.Int.IsUint64() {
				return true
			}
			x, acc := big.NewFloat(g).Int(nil)
			return acc == big.Exact && x.Cmp(n.Int) == 0
		}
		return false
	case int64:
		return n.Int != nil && n.Int.Cmp(big.NewInt(g)) == 0
	case int:
		return n.Int != nil && n.Int.Cmp(big.NewInt(int64(g))) == 0
	case uint64:
		return n.Int != nil && n.Int.Cmp(new(big.Int).SetUint64(g)) == 0
	}
	return false
}

// compareParse compares the result of syntax.Parse with the reference. It
// returns a description of the difference, or "".
func compareParse(s string, want []mExpr, c *syntax.Clause) string {
	type item struct {
		e   syntax.Expr
		txt string
	}
	var got []item
	for _, e := range c.ExprList {
		if p, ok := e.(*syntax.PlainExpr); ok {
			if p.Text == "" {
				continue
			}
			if n := len(got); n > 0 && got[n-1].e == nil {
				got[n-1].txt += p.Text
			} else {
				got = append(got, item{nil, p.Text})
			}
			continue
		}
		got = append(got, item{e, ""})
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(got) {
			return fmt.Sprintf("expression %d missing: want %s", i, want[i])
		}
		if i >= len(want) {
			return fmt.Sprintf("extra expression %d: %s", i, descExpr(got[i].e, got[i].txt))
		}
		w, g := want[i], got[i]
		bad := func() string {
			return fmt.Sprintf("expression %d: got %s, want %s", i, descExpr(g.e, g.txt), w)
		}
		if g.e == nil {
			if w.Kind != kPlain || w.Text != g.txt {
				return bad()
			}
			continue
		}
		switch e := g.e.(type) {
		case *syntax.BindVarExpr:
			style := syntax.Question
			if w.Dollar {
				style = syntax.Dollar
			}
			if w.Kind != kBind || e.Type != style || w.Index != e.Index && w.Index >= 0 {
				return bad()
			}
		case *syntax.FuncCallExpr:
			if w.Kind != kCall || w.Name != e.Name || len(w.Args) != len(e.Args) {
				return bad()
			}
			for k := range e.Args {
				if !sameLit(w.Args[k], e.Args[k]) {
					return bad()
				}
			}
		case *syntax.FuncExpr:
			if w.Kind != kFunc || w.Name != e.Name {
				return bad()
			}
		default:
			return bad()
		}
		if int(g.e.Pos().Line()) != w.Line || int(g.e.Pos().Col()) != w.Col {
			return fmt.Sprintf("expression %d %s: got position %d:%d, want %d:%d", i, w, g.e.Pos().Line(), g.e.Pos().Col(), w.Line, w.Col)
		}
		if s := g.e.Pos().String(); i < 50 && s != fmt.Sprintf("%d:%d", w.Line, w.Col) {
			return fmt.Sprintf("expression %d %s: the position %d:%d reads %s", i, w, w.Line, w.Col, s)
		}
	}
	return ""
}

func (e mExpr) String() string {
	switch e.Kind {
	case kPlain:
		return fmt.Sprintf("plain %q", clip(e.Text, 80))
	case kBind:
		return fmt.Sprintf("bindvar(dollar=%v, %d)", e.Dollar, e.Index)
	case kCall:
		return fmt.Sprintf("call #%s(%s)", e.Name, descArgs(e.Args))
	}
	return "function #" + e.Name
}

func descArgs(args []any) string {
	b := new(strings.Builder)
	for i, a := range args {
		if i > 0 {
			b.WriteString(", ")
		}
		switch a := a.(type) {
		case mNum:
			if a.Int != nil {
				b.WriteString(a.Int.String())
			} else {
				fmt.Fprint(b, a.F)
			}
		case string:
			fmt.Fprintf(b, "%q", clip(a, 60))
		default:
			fmt.Fprintf(b, "%T %v", a, a)
		}
	}
	return b.String()
}

func descExpr(e syntax.Expr, txt string) string {
	switch e := e.(type) {
	case nil:
		return fmt.Sprintf("plain %q", clip(txt, 80))
	case *syntax.BindVarExpr:
		return fmt.Sprintf("bindvar(dollar=%v, %d)", e.Type == syntax.Dollar, e.Index)
	case *syntax.FuncCallExpr:
		return fmt.Sprintf("call #%s(%s)", e.Name, descArgs(e.Args))
	case *syntax.FuncExpr:
		return "function #" + e.Name
	}
	return fmt.Sprintf("%T", e)
}
