package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)

var (
	c20Alphabet = []string{"#", "f", "1", "0", "$", "?", "'", "\"", "`", "(", ")", ",", " ", "\n", "é", "\xff", "\x00", "_"}
	// behind "#f("
	c20ArgAlphabet = []string{"1", "0", "-", ".", "e", "'", "a", ",", ")", " ", "true", "nil", "false", "null", "\n", "+", "#f("}
)

func init() {
	register(&Check{
		ID: "C20",
		Rule: "all texts up to length 5 over an alphabet of special characters, all argument lists up to length 5 over an alphabet of literal parts, texts rendered from random lists of expressions (which the parser must give back), token sequences, mutated texts and long texts; the parsed list is compared with an independent parser or the rendered list, positions included; " +
			"non-trivial: the text has a reference; distinct by text",
		Required: []string{"accepted", "rejected", "bindvar ?", "bindvar $", "call", "call without args", "function value", "number", "string", "bool", "nil", "line > 1", "column after multi-byte", "rendered", "rendered, many", "long", "adjacent", "integer > 2^53"},
		Phases: []Phase{
			{Name: "small", Quick: smallTexts(len(c20Alphabet), 5), Thorough: smallTexts(len(c20Alphabet), 6), Exhaustive: true, Run: func(t *T, idx int) { t.c20Text(nthText(c20Alphabet, idx)) }},
			{Name: "small args", Quick: smallTexts(len(c20ArgAlphabet), 5), Thorough: smallTexts(len(c20ArgAlphabet), 6), Exhaustive: true, Run: func(t *T, idx int) { t.c20Text("#f(" + nthText(c20ArgAlphabet, idx)) }},
			{Name: "rendered", Quick: 60000, Thorough: 3000000, Run: c20Rendered},
			{Name: "tokens", Quick: 100000, Thorough: 5000000, Run: c20Tokens},
			{Name: "mutated", Quick: 50000, Thorough: 3000000, Run: func(t *T, idx int) { t.c20Text(t.mutate(newGen(t).frag(1).Raw)) }},
			{Name: "numbers", Quick: 40000, Thorough: 1500000, Run: c20Numbers},
			{Name: "long", Quick: 60, Thorough: 1000, Run: c20Long},
		},
		Assumptions: []string{
			"not judged, as the documentation does not say: ?0, hexadecimal, infinite, NaN and underscored numbers, numbers beyond float64, upper case keywords, white space between a literal and what follows, a comma before the right parenthesis",
			"integers written without fraction or exponent keep their exact value up to 64 bits, other numbers are the nearest float64",
			"how plain text is cut into pieces is not judged",
		},
	})
}

func (t *T) c20Text(s string) {
	t.desc = func() string { return fmt.Sprintf("text %q", clip(s, 3000)) }
	want, st, why := refParse(s)
	if st == pUnspec {
		panic(unspecified{why})
	}
	for _, e := range want {
		if e.Kind == kBind && e.Index < 0 {
			panic(unspecified{"an index beyond int"})
		}
	}
	t.c20Compare(s, want, st == pBad, why)
}

func (t *T) c20Compare(s string, want []mExpr, bad bool, why string) {
	t.Eval()
	c, err := syntax.Parse(s)
	if bad {
		if err == nil {
			t.Failf("%q is accepted: %s", clip(s, 2000), why)
		}
		if c != nil {
			t.Failf("a clause is returned with the error %v", err)
		}
		t.Feat("rejected")
		if strings.ContainsAny(s, "#?$") {
			t.Key(s)
		}
		return
	}
	if err != nil {
		t.Failf("%q is rejected: %v", clip(s, 2000), err)
	}
	if d := compareParse(s, want, c); d != "" {
		t.Failf("%s", d)
	}
	t.Feat("accepted")
	t.c20Feats(s, want)
	// the result belongs to the caller
	for i := range c.ExprList {
		if e, ok := c.ExprList[i].(*syntax.FuncCallExpr); ok {
			for k := range e.Args {
				e.Args[k] = "overwritten"
			}
			e.Name = "overwritten"
		}
		c.ExprList[i] = nil
	}
	c2, err := syntax.Parse(s)
	if err != nil {
		t.Failf("the second parse fails: %v", err)
	}
	if d := compareParse(s, want, c2); d != "" {
		t.Failf("second parse: %s", d)
	}
}

func (t *T) c20Feats(s string, want []mExpr) {
	refs := 0
	prev := kPlain
	for i, e := range want {
		if e.Kind != kPlain {
			refs++
			if e.Line > 1 {
				t.Feat("line > 1")
			}
			if i < 100 && e.Col != e.Off-strings.LastIndexByte(s[:e.Off], '\n') {
				t.Feat("column after multi-byte")
			}
			if i > 0 && prev != kPlain {
				t.Feat("adjacent")
			}
		}
		prev = e.Kind
		switch e.Kind {
		case kBind:
			if e.Dollar {
				t.Feat("bindvar $")
			} else {
				t.Feat("bindvar ?")
			}
		case kFunc:
			t.Feat("function value")
		case kCall:
			t.Feat("call")
			if len(e.Args) == 0 {
				t.Feat("call without args")
			}
			for _, a := range e.Args {
				switch a := a.(type) {
				case nil:
					t.Feat("nil")
				case bool:
					t.Feat("bool")
				case string:
					t.Feat("string")
				case mNum:
					t.Feat("number")
					if a.Int != nil && a.Int.BitLen() > 53 {
						t.Feat("integer > 2^53")
					}
				}
			}
		}
	}
	if refs > 0 {
		t.Key(s)
	}
}

// c20Rendered renders a list of expressions, which the parser must give back.
// It does not use the reference parser.
func c20Rendered(t *T, idx int) {
	g := newGen(t)
	dollar := t.Intn(2) == 0
	b := new(strings.Builder)
	var want []mExpr
	line, col := 1, 1
	write := func(s string) {
		b.WriteString(s)
		for _, r := range s {
			col++
			if r == '\n' {
				line, col = line+1, 1
			}
		}
	}
	add := func(e mExpr, s string) {
		e.Off, e.Line, e.Col = b.Len(), line, col
		if e.Kind == kPlain {
			if n := len(want); n > 0 && want[n-1].Kind == kPlain {
				want[n-1].Text += s
				write(s)
				return
			}
			e.Text = s
		}
		want = append(want, e)
		write(s)
	}
	binds := 0
	n, maxArgs := 1+t.Intn(8), 4
	if t.Intn(12) == 0 { // many of them
		n, maxArgs = 1+t.Intn(150), 1+t.Intn(40)
		t.Feat("rendered, many")
	}
	for i := 0; i < n; i++ {
		last := b.String()
		var lastByte byte
		if last != "" {
			lastByte = last[len(last)-1]
		}
		switch k := t.Intn(9); {
		case k < 3:
			p := g.oneOf("a", " ", "SELECT ", "= ", "'#f1 ?'", "'it''s'", "\"$1\"", "`#`", "??", "$$", "\n", "\r\n", "é", "日本", "\t", ")", ",", "(", "\x00", "\xff", ".", "-", "::text", "'\n'", "\u2028", "--", "''")
			// it must not continue what is before it
			switch {
			case lastByte == '\'' && p[0] == '\'' && len(want) > 0 && want[len(want)-1].Kind == kPlain:
				p = " " + p
			case lastByte == '?' && p[0] == '?':
				p = " " + p
			case len(want) > 0 && want[len(want)-1].Kind != kPlain:
				if isDigit(p[0]) || isNameByte(p[0]) || p[0] == '(' {
					p = " " + p
				}
			}
			add(mExpr{Kind: kPlain}, p)
		case k < 5:
			binds++
			switch {
			case dollar:
				n := 1 + t.Intn(12)
				if t.Intn(10) == 0 {
					n = []int{99, 1000, 65536, 1 << 31}[t.Intn(4)]
				}
				add(mExpr{Kind: kBind, Dollar: true, Index: n}, "$"+strconv.Itoa(n))
			default:
				if lastByte == '?' {
					add(mExpr{Kind: kPlain}, " ") // "??" is literal
				}
				add(mExpr{Kind: kBind, Index: binds}, "?")
			}
		case k < 7:
			name := g.oneOf("f", "join", "arg", "a_b", "_", "F", "fragment", "xyz", strings.Repeat("n", 1+t.Intn(40)))
			switch t.Intn(4) {
			case 0:
				add(mExpr{Kind: kFunc, Name: name}, "#"+name)
			case 1:
				n := t.Intn(30)
				add(mExpr{Kind: kCall, Name: name, Args: []any{mNum{F: float64(n), Int: big.NewInt(int64(n))}}}, "#"+name+g.oneOf("", "", "0")+strconv.Itoa(n))
			default:
				var args []any
				txt := g.oneOf("", " ", "\n\t ")
				for k := t.Intn(maxArgs); k > 0; k-- {
					if len(args) > 0 {
						txt += g.oneOf(",", ", ", ",\n")
					}
					switch t.Intn(5) {
					case 0:
						n := t.Intn(2000) - 1000
						args = append(args, mNum{F: float64(n), Int: big.NewInt(int64(n))})
						txt += strconv.Itoa(n)
					case 1:
						f := float64(t.Intn(2000)-1000) / 8
						txt += strconv.FormatFloat(f, 'f', 3, 64)
						args = append(args, mNum{F: f})
					case 2:
						v := t.Intn(2) == 0
						args = append(args, v)
						txt += strconv.FormatBool(v)
					case 3:
						args = append(args, nil)
						txt += g.oneOf("nil", "null")
					default:
						s := g.oneOf("", "a", "'", "''", "#f=#arg", ", ", ")", "(", "é\n", "\x00", "\xff", "#join('#f', ',')", "?", "x'y", "\\", "\"", g.escape(), g.escape())
						if t.Intn(6) == 0 {
							s = strings.Repeat(s+g.oneOf("é", "'", "ab", ""), 1+t.Intn(30))
						}
						args = append(args, s)
						txt += "'" + strings.ReplaceAll(s, "'", "''") + "'" + g.oneOf("", " ", "\n")
					}
				}
				if len(args) == 0 {
					txt = g.oneOf("", " ")
				}
				add(mExpr{Kind: kCall, Name: name, Args: args}, "#"+name+"("+txt+")")
			}
			// a name or number must not be continued
			if l := b.String(); l[len(l)-1] != ')' && t.Intn(2) == 0 {
				add(mExpr{Kind: kPlain}, g.oneOf(" ", "-", "é", "'q'", "%"))
			}
		default:
			add(mExpr{Kind: kPlain}, g.oneOf(" ", "\n", " AND ", "'?'"))
		}
		// "$1" followed by "$2" is fine, "$$" would be literal
		if dollar && strings.HasSuffix(b.String(), "$") {
			add(mExpr{Kind: kPlain}, ".")
		}
		if strings.HasSuffix(b.String(), "??") {
			add(mExpr{Kind: kPlain}, " ")
		}
		if strings.HasSuffix(b.String(), "'") {
			add(mExpr{Kind: kPlain}, " ")
		}
	}
	s := b.String()
	t.desc = func() string { return fmt.Sprintf("text %q", s) }
	t.c20Compare(s, want, false, "")
	t.Feat("rendered")
	t.Sample(fmt.Sprintf("%q", s))
}

func c20Tokens(t *T, idx int) {
	b := new(strings.Builder)
	pool := c06TokenList
	for n := 1 + t.Intn(10); n > 0; n-- {
		if t.Intn(3) == 0 {
			b.WriteString(c20Alphabet[t.Intn(len(c20Alphabet))])
		} else {
			b.WriteString(pool[t.Intn(len(pool))])
		}
	}
	t.c20Text(b.String())
}

// c20Numbers parses number literals of all forms.
func c20Numbers(t *T, idx int) {
	g := newGen(t)
	digits := func(max int) string {
		s := ""
		for n := t.Intn(max + 1); n > 0; n-- {
			s += string("0123456789"[t.Intn(10)])
		}
		return s
	}
	lit := g.oneOf("", "", "-", "+")
	switch t.Intn(5) {
	case 0:
		lit += digits(21)
	case 1:
		lit += digits(6) + g.oneOf("", ".") + digits(6)
	case 2:
		lit += digits(3) + g.oneOf("", ".") + digits(3) + g.oneOf("e", "E") + g.oneOf("", "+", "-") + digits(2)
	case 3:
		x := new(big.Int).Lsh(big.NewInt(1), uint(50+t.Intn(16)))
		lit += x.Add(x, big.NewInt(int64(t.Intn(5)-2))).String()
	default:
		lit += g.oneOf("9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9007199254740993", "0.1", "1e308", "4.9e-324", "007", "-0")
	}
	t.c20Text(g.oneOf("#f("+lit+")", "#f("+lit+", 1)", "#f('', "+lit+")", "x #f("+lit+")y", "#f"+lit, "#f"+lit+" ", "$"+lit, "?"+lit))
}

func c20Long(t *T, idx int) {
	g := newGen(t)
	n := append(append([]int{}, sizes...), hugeSizes...)[t.Intn(len(sizes)+len(hugeSizes))]
	t.big(n)
	unit := g.oneOf("?, ", "$1", "#f", "#f1", "#f(1) ", "#join('#f', ',')", "é#f", "\n?", "'#' ", "x", "#f(", "''", "?,\n")
	t.c20Text(strings.Repeat(unit, n))
	t.c20Text("#f('" + strings.Repeat(g.oneOf("a", "''", "é", "\n"), n) + "', 1)?")
	t.c20Text("#f(" + strings.Repeat("1,", n) + "2)")
	t.c20Text("#" + strings.Repeat("f", n) + "(1)")
	t.c20Text(strings.Repeat("é", n) + "?" + strings.Repeat("\n", n%5000) + "#f")
	// styles are not mixed, however far the placeholders are from each other
	a, b := "$1 ", "?"
	if t.Intn(2) == 0 {
		a, b = "? ", "$1"
	}
	t.c20Text(strings.Repeat(a, n) + b)
	t.c20Text(strings.Repeat(a, n) + b + strings.Repeat(a, t.Intn(3)))
	t.Feat("long")
}
