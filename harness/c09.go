package main

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func init() {
	register(&Check{
		ID: "C09",
		Rule: "random fragment trees and query builders are built with both styles, and with each form of their references (?, $n, #argN, #join and calls with parentheses), and the results are compared with each other after substituting the bound values; no reference implementation is involved; " +
			"non-trivial: at least two args are bound; distinct by the described input",
		Required: []string{"both ok", "both fail", "several args", "merged", "forms", "form ?", "form $", "form #arg", "form join", "form f", "form fragment", "form paren", "query", "forms in query", "distinct.order"},
		Phases: []Phase{
			{Name: "styles of trees", Quick: 40000, Thorough: 1500000, Run: c09Trees},
			{Name: "styles of queries", Quick: 20000, Thorough: 700000, Run: c09Queries},
			{Name: "forms", Quick: 30000, Thorough: 1000000, Run: c09Forms},
			{Name: "forms in queries", Quick: 10000, Thorough: 300000, Run: c09QueryForms},
		},
		Assumptions: []string{"cases with literal ? or $ in the built text are left out", "values that are equal under == are the same value"},
	})
}

// substitute replaces the placeholders of a built query by its args.
func substitute(style syntax.BindVarStyle, query string, args []any) (string, error) {
	b := new(strings.Builder)
	n := 0
	used := make([]bool, len(args))
	for i := 0; i < len(query); i++ {
		c := query[i]
		if c != '?' && c != '$' {
			b.WriteByte(c)
			continue
		}
		if (c == '?') != (style == syntax.Question) {
			return "", fmt.Errorf("%q at byte %d in %s style", c, i, styleName(style))
		}
		k := 0
		if c == '?' {
			n++
			k = n
		} else {
			for i+1 < len(query) && isDigit(query[i+1]) {
				i++
				k = k*10 + int(query[i]-'0')
			}
		}
		if k < 1 || k > len(args) {
			return "", fmt.Errorf("placeholder %d of %d args", k, len(args))
		}
		used[k-1] = true
		fmt.Fprintf(b, "\x02%s\x03", canonical(args[k-1]))
	}
	for i, u := range used {
		if !u {
			return "", fmt.Errorf("arg %d has no placeholder", i+1)
		}
	}
	return b.String(), nil
}

// canonical describes a value so that equal ones have the same description.
func canonical(v any) string {
	if f, ok := v.(float64); ok && f == 0 {
		v = 0.0
	}
	return descArgList([]any{v})
}

// literalMarks tells if the reference expects literal ? or $ in the text, or
// digits next to a placeholder.
func literalMarks(segs []seg) bool {
	for i, s := range segs {
		if s.bind {
			continue
		}
		if strings.ContainsAny(s.text, "?$") || i > 0 && s.text != "" && isDigit(s.text[0]) {
			return true
		}
	}
	return false
}

// compareStyles builds b, described by n, in both styles.
func (t *T) compareStyles(n *mNode, scope *mScope) {
	segs, _ := t.evalModel(n, scope)
	if literalMarks(segs) {
		panic(unspecified{"literal placeholder marks"})
	}
	t.Eval()
	var out [2]outcome
	var text [2]string
	r := newRealizer(t.Rand)
	b := r.builder(n)
	for _, i := range t.Perm(2) {
		o := &out[i]
		if t.Intn(3) == 0 { // another object
			b = newRealizer(t.Rand).builder(n)
		}
		o.query, o.args, o.err = buildIn(b, styles[i], scope)
		if o.err != nil {
			continue
		}
		var err error
		text[i], err = substitute(styles[i], o.query, o.args)
		if err != nil {
			t.Failf("%s style: %v: %q", styleName(styles[i]), err, clip(o.query, 1000))
		}
	}
	if (out[0].err != nil) != (out[1].err != nil) {
		t.Failf("%s style: error %v, %s style: error %v", styleName(styles[0]), out[0].err, styleName(styles[1]), out[1].err)
	}
	if out[0].err != nil {
		t.Feat("both fail")
		return
	}
	t.Feat("both ok")
	if text[0] != text[1] {
		t.Failf("the styles denote different statements: %s\n%s: %q\n%s: %q", diffText("text", text[0], text[1]), styleName(styles[0]), clip(out[0].query, 800), styleName(styles[1]), clip(out[1].query, 800))
	}
	if len(out[1].args) > 1 {
		t.Feat("several args")
		t.Key(describe(n))
	}
	if len(out[0].args) < len(out[1].args) {
		t.Feat("merged")
	}
}

func c09Trees(t *T, idx int) {
	g := newGen(t)
	g.clean = true
	g.faults = t.Intn(5) == 0
	scope := builtinScope
	if t.Intn(3) == 0 {
		scope = standardFuncs(builtinScope, []any{g.value(), g.value()}, []*mNode{{Raw: "?", Args: []any{g.value()}}})
		g.custom = []string{"garg", "gfrag", "num"}
	}
	n := g.frag(1 + t.Intn(4))
	t.desc = func() string { return describe(n) }
	t.compareStyles(n, scope)
	t.Sample(describe(n))
}

func c09Queries(t *T, idx int) {
	g := newQGen(t)
	g.misuse = 15
	n := &mNode{Kind: nQuery, Query: g.query(t.Intn(3))}
	t.desc = func() string { return describe(n) }
	t.Feat("query")
	t.compareStyles(n, builtinScope)
	t.Sample(describe(n))
}

// absNode is a fragment whose references can be written in several forms.
type absNode struct {
	args           []any
	kids           []*absNode
	pieces         []absPiece
	prefix, suffix string
}

// absPiece is text, or a list of references with a separator.
type absPiece struct {
	text string
	refs []int // 1-based
	kid  bool
	sep  string
}

func (g *gen) abs(depth int) *absNode {
	n := &absNode{}
	for i := g.Intn(5); i > 0; i-- {
		n.args = append(n.args, g.value())
	}
	if depth > 0 {
		for i := g.Intn(3); i > 0; i-- {
			n.kids = append(n.kids, g.abs(depth-1))
		}
	}
	lists := func(k int, kid bool) {
		for i := 1; i <= k; {
			// a run of references
			p := absPiece{kid: kid, sep: g.oneOf(", ", " AND ", " ", "; ")}
			for m := 1 + g.Intn(k); m > 0 && i <= k; m-- {
				p.refs = append(p.refs, i)
				i++
			}
			n.pieces = append(n.pieces, p)
		}
	}
	lists(len(n.args), false)
	na := len(n.pieces)
	lists(len(n.kids), true)
	// mix, with the args in order
	argRuns, kidRuns := n.pieces[:na:na], n.pieces[na:]
	// some text keeps the body from being empty
	n.pieces = []absPiece{{text: g.oneOf("x", "a.b ", "(")}}
	for len(argRuns)+len(kidRuns) > 0 {
		n.pieces = append(n.pieces, absPiece{text: g.oneOf("x = ", "(a)", " OR ", "f(", "é ", "'s'", "\n")})
		if len(kidRuns) == 0 || len(argRuns) > 0 && g.chance(2) {
			n.pieces = append(n.pieces, argRuns[0])
			argRuns = argRuns[1:]
		} else {
			n.pieces = append(n.pieces, kidRuns[0])
			kidRuns = kidRuns[1:]
		}
	}
	n.pieces = append(n.pieces, absPiece{text: g.oneOf(" end", ")", "")})
	if g.chance(4) {
		n.prefix = "PRE"
	}
	if g.chance(4) {
		n.suffix = "POST"
	}
	return n
}

// write chooses a form for each reference. The text of kids is never empty
// because of their pieces of text.
func (g *gen) write(n *absNode) *mNode {
	m := &mNode{Args: n.args, Prefix: n.prefix, Suffix: n.suffix}
	for _, k := range n.kids {
		m.Kids = append(m.Kids, g.write(k))
	}
	form := g.Intn(4) // of args: ?, $, #arg, first ? then #arg
	switchAt := g.Intn(len(n.args) + 1)
	b := new(strings.Builder)
	for _, p := range n.pieces {
		b.WriteString(p.text)
		if len(p.refs) == 0 {
			continue
		}
		joinable := p.kid || form != 0 && form != 3
		if !p.kid && form == 3 && p.refs[0] > switchAt {
			joinable = true
		}
		if joinable && g.chance(3) {
			name := "arg"
			if p.kid {
				name = g.oneOf("f", "fragment")
			}
			g.Feat("form join")
			fmt.Fprintf(b, "#join('#%s', '%s', %d, %d)", name, p.sep, p.refs[0], p.refs[len(p.refs)-1])
			continue
		}
		for k, i := range p.refs {
			if k > 0 {
				b.WriteString(p.sep)
			}
			if p.kid {
				name := g.oneOf("f", "fragment")
				g.Feat("form " + name)
				if g.chance(2) {
					g.Feat("form paren")
					fmt.Fprintf(b, "#%s(%d)", name, i)
				} else {
					fmt.Fprintf(b, "#%s%d", name, i)
				}
				continue
			}
			f := form
			if f == 3 {
				f = 2
				if i <= switchAt {
					f = 0
				}
			}
			if f == 1 && g.chance(4) {
				f = 2
			}
			switch f {
			case 0:
				b.WriteString("?")
				g.Feat("form ?")
			case 1:
				fmt.Fprintf(b, "$%d", i)
				g.Feat("form $")
			case 2:
				g.Feat("form #arg")
				if g.chance(3) {
					fmt.Fprintf(b, "#arg( %d)", i)
				} else {
					fmt.Fprintf(b, "#arg%d", i)
				}
			}
		}
	}
	m.Raw = b.String()
	return m
}

func c09Forms(t *T, idx int) {
	g := newGen(t)
	a := g.abs(t.Intn(3))
	variants := []*mNode{g.write(a), g.write(a), g.write(a)}
	t.desc = func() string {
		return describe(variants[0]) + describe(variants[1]) + describe(variants[2])
	}
	t.sameBuilds(variants)
	t.Feat("forms")
}

// sameBuilds builds all variants, which must give the same.
func (t *T) sameBuilds(variants []*mNode) {
	t.Eval()
	for _, style := range styles {
		var first outcome
		for i, v := range variants {
			var o outcome
			o.query, o.args, o.err = buildIn(newRealizer(t.Rand).builder(v), style, nil)
			if o.err != nil {
				t.Failf("%s style: variant %d fails: %v", styleName(style), i, o.err)
			}
			if i == 0 {
				first = o
				continue
			}
			if d := o.diff(first); d != "" {
				t.Failf("%s style: variant %d differs from variant 0: %s", styleName(style), i, d)
			}
		}
		if len(first.args) > 1 {
			t.Key(describe(variants[0]))
		}
	}
}

// c09QueryForms uses the variants within query builders.
func c09QueryForms(t *T, idx int) {
	g := newGen(t)
	var abs []*absNode
	for i := 0; i < 5; i++ {
		abs = append(abs, g.abs(t.Intn(2)))
	}
	distinct := t.Intn(2) == 0
	op := g.oneOf("=", " > ", " LIKE ")
	val := g.value()
	cte := t.Intn(2) == 0
	variant := func() *mNode {
		q := &mQuery{}
		add := func(o *mOp) { q.Ops = append(q.Ops, o) }
		expr := func(n *mNode) *mNode { return &mNode{Kind: nExprCol, Kids: []*mNode{n}} }
		add(&mOp{Kind: opFrom, Name: "t"})
		add(&mOp{Kind: opSelect, Cols: []*mNode{expr(g.write(abs[0])), {Kind: nColumn, Name: "id", Alias: "t"}}})
		add(&mOp{Kind: opJoin, Text: "INNER JOIN", Name: "u", Node: g.write(abs[1])})
		c := &mNode{Kind: nColumn, Name: "w", Alias: "t"}
		if t.Intn(2) == 0 {
			add(&mOp{Kind: opWhere2, Cols: []*mNode{c}, Text: op, Arg: val})
		} else {
			add(&mOp{Kind: opWhere, Node: &mNode{Raw: "#f1" + op + g.oneOf("?", "$1", "#arg1", "#join('#arg','')"), Kids: []*mNode{c}, Args: []any{val}}})
		}
		add(&mOp{Kind: opOrderBy, Cols: []*mNode{expr(g.write(abs[2]))}, Order: uint(1)})
		add(&mOp{Kind: opUnion, Cols: []*mNode{g.write(abs[3])}})
		if cte {
			add(&mOp{Kind: opWith, Text: "t", Node: g.write(abs[4])})
		}
		if distinct {
			add(&mOp{Kind: opDistinct})
			t.Feat("distinct.order")
		}
		return &mNode{Kind: nQuery, Query: q}
	}
	variants := []*mNode{variant(), variant()}
	t.desc = func() string { return describe(variants[0]) + describe(variants[1]) }
	t.sameBuilds(variants)
	t.Feat("forms in query")
}

var _ = sqlf.F
var _ = sqlb.Asc
