package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// evalModel evaluates the reference.
func (t *T) evalModel(n *mNode, scope *mScope) ([]seg, *mErr) {
	ev := &evaluator{feat: t.Feat}
	segs, err := ev.eval(n, scope)
	return coalesce(segs), err
}

// checkTree builds a tree in both styles and compares with the reference.
// It returns the reference result.
func (t *T) checkTree(n *mNode, scope *mScope) ([]seg, *mErr) {
	if scope == nil {
		scope = builtinScope
	}
	t.desc = func() string { return describe(n) }
	segs, merr := t.evalModel(n, scope)
	t.Eval()
	for _, style := range styles {
		r := newRealizer(t.Rand)
		r.leave = t.Intn(6) == 0
		b := r.builder(n)
		if len(r.late) > 0 {
			if t.Intn(3) == 0 {
				buildIn(b, styles[t.Intn(2)], scope) // whatever there is by now
			}
			r.flush()
			t.Feat("changed in use")
		}
		var q string
		var args []any
		var err error
		if f, ok := b.(sqlf.QueryBuilder); ok && scope == builtinScope && t.Intn(4) > 0 {
			q, args, err = f.BuildQuery(style)
		} else {
			q, args, err = buildIn(b, style, scope)
		}
		if merr != nil {
			if err == nil {
				t.Failf("%s style: the build must fail (%s), but it returned %q with args %s", styleName(style), merr, clip(q, 300), descValue(args))
			}
			if q != "" || args != nil {
				t.Failf("%s style: failed build returned query %q args %v", styleName(style), clip(q, 200), args)
			}
			continue
		}
		if err != nil {
			t.Failf("%s style: unexpected error: %v", styleName(style), err)
		}
		if d := matchBuild(style, segs, q, args); d != "" {
			t.Failf("%s style: %s", styleName(style), d)
		}
	}
	return segs, merr
}

func countBinds(segs []seg) (n int) {
	for _, s := range segs {
		if s.bind {
			n++
		}
	}
	return n
}

// notable sizes of lists and texts
var sizes = []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}
var hugeSizes = []int{4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, 70001}
var giantSizes = []int{70001, 131073, 100003, 65537, 100000, 150001}

func featTree(t *T, segs []seg, merr *mErr) {
	if merr != nil {
		t.Feat("tree.error")
		return
	}
	t.Feat("tree.ok")
	b := countBinds(segs)
	t.FeatN("binds", b)
	if b > 1 {
		t.Feat("tree.several binds")
	}
}

func init() {
	register(&Check{
		ID:       "C01",
		Rule:     "random fragment trees, lists of notable sizes, all pairs of arg value kinds, and build sequences on one context; non-trivial: at least one arg is bound; distinct by the described tree",
		Required: []string{"tree.ok", "tree.several binds", "arg.unhashable", "arg.nan", "merged", "context sequence", "wide", "pair", "shared fragment"},
		Phases: []Phase{
			{Name: "trees", Quick: 60000, Thorough: 3000000, Run: c01Trees},
			{Name: "pairs", Quick: valueKinds * valueKinds, Thorough: valueKinds * valueKinds * 16, Run: c01Pairs},
			{Name: "wide", Quick: 400, Thorough: 4000, Run: c01Wide},
			{Name: "giant", Quick: 8, Thorough: 60, Run: c01Giant},
			{Name: "contexts", Quick: 10000, Thorough: 400000, Run: c01Contexts},
		},
		Assumptions: []string{"values are identified by dynamic type and identity or deep equality", "custom functions use every placeholder they commit"},
	})
}

func c01Trees(t *T, idx int) {
	g := newGen(t)
	g.usualArgs(1 + t.Intn(8))
	scope := builtinScope
	if t.Intn(3) == 0 {
		scope = standardFuncs(builtinScope, []any{g.value(), g.value()}, []*mNode{{Raw: "?", Args: []any{g.value()}}})
		g.custom = []string{"garg", "gfrag", "num"}
	}
	n := g.frag(1 + t.Intn(4))
	segs, merr := t.checkTree(n, scope)
	featTree(t, segs, merr)
	if b := countBinds(segs); b > 0 {
		t.Key(describe(n))
		vals := map[any]bool{}
		for _, s := range segs {
			if s.bind && isHashable(s.val) {
				if vals[s.val] {
					t.Feat("merged")
					break
				}
				vals[s.val] = true
			}
		}
	}
	t.Sample(describe(n))
}

func c01Pairs(t *T, idx int) {
	a, b := valueOfKind(t.Rand, idx%valueKinds), valueOfKind(t.Rand, idx/valueKinds%valueKinds)
	a2 := valueOfKind(t.Rand, idx%valueKinds)
	n := &mNode{Raw: "?,?,?,? #f1 #f2", Args: []any{a, b, a, a2}, Kids: []*mNode{
		{Raw: "$2 $1 $2", Args: []any{b, a}},
		{Kind: nCustom, Segs: []seg{{bind: true, val: a2}, {text: " "}, {bind: true, val: b}}},
	}}
	segs, merr := t.checkTree(n, nil)
	featTree(t, segs, merr)
	t.Feat("pair")
	t.Key(describe(n))
}

func c01Wide(t *T, idx int) {
	g := newGen(t)
	n := sizes[idx%len(sizes)]
	if idx%100 == 99 {
		n = hugeSizes[t.Intn(len(hugeSizes))]
	}
	t.big(n)
	distinct := t.Intn(2) == 0
	args := make([]any, n)
	for i := range args {
		if distinct {
			args[i] = i
		} else {
			args[i] = genValue(t.Rand, t.Feat)
		}
	}
	var b strings.Builder
	var kids []*mNode
	form := t.Intn(5)
	perm := t.Perm(n)
	switch form {
	case 0:
		b.WriteString("x IN (#join('#arg', ', '))")
	case 1:
		for i := 0; i < n; i++ {
			b.WriteString("?,")
		}
	case 2:
		for _, i := range perm {
			fmt.Fprintf(&b, "$%d,", i+1)
		}
	case 3: // one fragment for each arg
		for i := range args {
			kids = append(kids, &mNode{Raw: g.oneOf("?", "$1", "#arg1", "#join('#arg','')"), Args: args[i : i+1]})
		}
		args = nil
		b.WriteString("#join('#f', ' OR ')")
	case 4:
		for _, i := range perm {
			fmt.Fprintf(&b, "#arg(%d) ", i+1)
		}
		b.WriteString("#join('$1=#arg', ';', 1)")
		if n == 0 {
			b.Reset()
		}
	}
	root := &mNode{Raw: b.String(), Args: args, Kids: kids}
	segs, merr := t.checkTree(root, nil)
	featTree(t, segs, merr)
	if n > 9 {
		t.Feat("wide")
	}
	t.Key(fmt.Sprint(form, n, distinct, idx))
}

// c01Giant binds very many args, the last of which are equal to others.
func c01Giant(t *T, idx int) {
	n := giantSizes[idx%len(giantSizes)]
	t.big(n)
	args := make([]any, n+300)
	for i := range args {
		switch {
		case i < n:
			args[i] = i
		case i%3 == 0:
			args[i] = n - 1 - t.Intn(50) // equal to a late one
		case i%3 == 1:
			args[i] = t.Intn(n)
		default:
			args[i] = args[i-1]
		}
	}
	root := &mNode{Args: args}
	switch idx / len(giantSizes) % 2 {
	case 0:
		root.Raw = "x IN (#join('#arg', ', '))"
	case 1:
		root.Raw = strings.Repeat("?,", len(args))
	}
	segs, merr := t.checkTree(root, nil)
	featTree(t, segs, merr)
	t.Feat("wide")
	t.Key(fmt.Sprint("giant", idx))
}

// c01Contexts builds several fragments in one context.
func c01Contexts(t *T, idx int) {
	g := newGen(t)
	var roots []*mNode
	for i := 2 + t.Intn(4); i > 0; i-- {
		g.budget = 15
		roots = append(roots, g.frag(t.Intn(3)))
	}
	if t.Intn(3) == 0 {
		roots = append(roots, roots[0])
	}
	t.desc = func() string {
		s := ""
		for _, n := range roots {
			s += describe(n)
		}
		return s
	}
	var all [][]seg
	for _, n := range roots {
		segs, merr := t.evalModel(n, builtinScope)
		if merr != nil {
			return
		}
		all = append(all, segs)
	}
	t.Eval()
	for _, style := range styles {
		ctx := sqlf.NewContext(style)
		r := newRealizer(t.Rand)
		query := ""
		var segs []seg
		for i, n := range roots {
			q, err := r.builder(n).BuildFragment(ctx)
			if err != nil {
				t.Failf("build %d: unexpected error %v", i, err)
			}
			query += q + "\x00;"
			segs = append(append(segs, all[i]...), seg{text: "\x00;"})
			if d := matchBuild(style, coalesce(segs), query, ctx.Args()); d != "" {
				t.Failf("%s style, after build %d in one context: %s", styleName(style), i+1, d)
			}
		}
		t.Feat("context sequence")
	}
	t.Key(t.desc())
	t.Sample(t.desc())
}

// ---------------------------------------------------------------- C02

var c02Alphabet = []string{"a", "'", "\"", "`", "$", "?", "#", "1", " ", "\n", "\x00", "é", "\xff", "(", "\\"}

func init() {
	register(&Check{
		ID:       "C02",
		Rule:     "all texts up to length 5 over an alphabet of special bytes, random texts of special pieces and of random bytes, prefixes, suffixes and separators; non-trivial: the text is well-formed and not blank; distinct by text",
		Required: []string{"text.plain", "text.with references", "quoted", "invalid utf8", "nul", "affix", "separator", "long", "dialect"},
		Phases: []Phase{
			{Name: "small texts", Quick: pow(15, 4), Thorough: pow(15, 6), Exhaustive: true, Run: c02Small},
			{Name: "small texts 5", Quick: 60000, Thorough: 1, Run: func(t *T, idx int) { c02Small(t, t.Intn(pow(15, 5))+pow(15, 4)) }},
			{Name: "pieces", Quick: 60000, Thorough: 3000000, Run: c02Pieces},
			{Name: "dialects", Quick: 80000, Thorough: 3000000, Run: c02Dialects},
			{Name: "bytes", Quick: 30000, Thorough: 1000000, Run: c02Bytes},
			{Name: "affixes", Quick: 20000, Thorough: 600000, Run: c02Affixes},
			{Name: "long", Quick: 60, Thorough: 600, Run: c02Long},
			{Name: "long runs", Quick: 90, Thorough: 600, Run: c02Runs},
		},
		Assumptions: []string{"?0 is not judged: neither a reference form nor literal text by the documentation"},
	})
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

// nthText returns the idx-th string over the alphabet (all lengths).
func nthText(alphabet []string, idx int) string {
	n := len(alphabet)
	var parts []string
	for {
		if idx == 0 {
			break
		}
		idx--
		parts = append(parts, alphabet[idx%n])
		idx /= n
	}
	return strings.Join(parts, "")
}

func featText(t *T, s string) {
	if strings.ContainsAny(s, "'\"`") {
		t.Feat("quoted")
	}
	if strings.Contains(s, "\x00") {
		t.Feat("nul")
	}
	if strings.ToValidUTF8(s, "") != s {
		t.Feat("invalid utf8")
	}
}

// checkText checks the text of a raw fragment with whatever references it
// has: each is bound to something recognizable.
func (t *T) checkText(s string) {
	t.Input(fmt.Sprintf("raw text %q", clip(s, 2000)))
	exprs, st, why := refParse(s)
	if st == pUnspec {
		panic(unspecified{why})
	}
	if st == pBad {
		return
	}
	t.Eval()
	refs := 0
	n := &mNode{Raw: s}
	for _, e := range exprs {
		switch e.Kind {
		case kPlain:
			continue
		case kBind:
			if e.Index < 1 || e.Index > 9 {
				return
			}
			for len(n.Args) < e.Index {
				n.Args = append(n.Args, len(n.Args))
			}
		case kCall:
			return
		case kFunc:
			return
		}
		refs++
	}
	featText(t, s)
	if refs == 0 {
		t.Feat("text.plain")
		for _, style := range styles {
			q, args, err := sqlf.F(s).BuildQuery(style)
			if err != nil {
				t.Failf("plain text does not build: %v", err)
			}
			if want := strings.Trim(s, spaces); q != want || len(args) != 0 {
				t.Failf("plain text changed, %d args: %s", len(args), diffText("text", q, want))
			}
		}
	} else {
		t.Feat("text.with references")
		// all args must be used; add what is missing behind
		for i := range n.Args {
			n.Raw += fmt.Sprintf(" #arg%d", i+1)
		}
		if _, st, _ := refParse(n.Raw); st == pOK {
			t.checkTree(n, nil)
		}
	}
	if strings.Trim(s, spaces) != "" {
		t.Key(s)
	}
}

func c02Small(t *T, idx int) {
	t.checkText(nthText(c02Alphabet, idx))
}

func c02Pieces(t *T, idx int) {
	g := newGen(t)
	s := ""
	for i := 1 + t.Intn(12); i > 0; i-- {
		s += g.text()
		if t.Intn(6) == 0 {
			s += g.oneOf("?", "?", "'", "\"", "`", "?,") // unterminated quotes as well
		}
	}
	t.checkText(s)
	t.Sample(fmt.Sprintf("%q", s))
}

// c02Dialects has text that means something in some dialect of SQL.
func c02Dialects(t *T, idx int) {
	g := newGen(t)
	s := ""
	for i := 1 + t.Intn(14); i > 0; i-- {
		switch t.Intn(5) {
		case 0:
			s += g.oneOf("E", "e", "N", "U&", "x", "B", "q", "_utf8", "r", "$$tag$$", "--", "/*", "*/", "//", "[", "]", "{", "}", "--+", "/*!", ";", "\\g")
		case 1:
			s += g.oneOf("'", "\"", "`", "''", "\\'", "\\\"", "\\`", "\\", "\\\\", "'\\'", "\"\"", "``", "'a\\'")
		case 2:
			s += g.oneOf("?|", "?&", "?-", "?||", "??|", "??&", "?:", "?::int", "->?", "->>?", "@>?", "(?)", "[?]", "?]", "{?}", "?*", "-?", "--?", "/*?*/", ":?", "@?", "=?", "%?", "?%", "?.", "?a", "?'", "'?'", "\\?", "?\\", "?\n", "?;")
		case 3:
			s += g.oneOf("a", "1", " ", "\n", "\r", ",", "(", ")", ".", "é", "\t")
		default:
			s += g.oneOf("::", ":=", ":a", "@a", "@@a", "->", "->>", "<->", "@>", "&&", "||", "|/", "!!", "~*", "%", "^", "<>", "!=", "+", "-", "*", "/", "&", "|", "~", "=>", "..")
		}
	}
	if t.Intn(3) == 0 { // quotes closed
		for _, q := range []string{"'", "\"", "`", ""} {
			if _, st, _ := refParse(s + q); st == pOK {
				s += q
				break
			}
		}
	}
	if _, st, _ := refParse(s); st == pOK {
		t.Feat("dialect")
	}
	t.checkText(s)
	t.Sample(fmt.Sprintf("%q", s))
}

func c02Bytes(t *T, idx int) {
	b := make([]byte, t.Intn(40))
	for i := range b {
		if t.Intn(3) == 0 {
			b[i] = byte(t.Intn(256))
		} else {
			b[i] = "'\"`$?# \n\\a1\x00\xc3\xa9\xe2\x80\xf0"[t.Intn(17)]
		}
	}
	s := string(b)
	if t.Intn(2) == 0 { // no references
		s = strings.NewReplacer("#", "", "$", "$$", "?", "??").Replace(s)
	}
	t.checkText(s)
}

func c02Affixes(t *T, idx int) {
	g := newGen(t)
	sep := g.anyText()
	n := &mNode{Raw: "#join('#f'," + quoteArg(sep) + ")", Prefix: g.anyText(), Suffix: g.anyText()}
	for i := t.Intn(5); i > 0; i-- {
		n.Kids = append(n.Kids, &mNode{Raw: g.oneOf("x", "", "y z", "'q'", " "), Prefix: g.anyText(), Suffix: g.anyText()})
	}
	t.checkTree(n, nil)
	t.Feat("affix")
	if len(n.Kids) > 1 {
		t.Feat("separator")
	}
	t.Key(describe(n))
	t.Sample(describe(n))
}

// anyText is arbitrary text, with reference-like parts.
func (g *gen) anyText() string {
	s := ""
	for i := g.Intn(4); i > 0; i-- {
		if g.chance(3) {
			s += g.oneOf("#f1", "?", "$1", "'", "\"", "#", "$", "#join('#f',',')", "$0", ",", ")", "''", g.escape())
		} else {
			s += g.text()
		}
	}
	return s
}

func c02Long(t *T, idx int) {
	g := newGen(t)
	n := append(append([]int{}, sizes...), hugeSizes...)[t.Intn(len(sizes)+len(hugeSizes))]
	t.big(n)
	var b strings.Builder
	quote := t.Intn(3) == 0
	if quote {
		b.WriteString("'")
	}
	for b.Len() < n {
		if quote {
			b.WriteString(g.oneOf("a", "''", "?", "é", "\xff", "#f1 ", "\n", "\""))
		} else {
			b.WriteString(g.text())
		}
	}
	if quote {
		b.WriteString("'")
	}
	t.checkText(b.String())
	t.checkText(strings.Repeat(g.oneOf("?? ", "$$", "''", "\n", "é", "\xe6\x97", "x"), n/2))
	t.checkText("a" + strings.Repeat(" ", n) + "b")
	t.Feat("long")
}

// c02Runs has one run of great length of a single kind: quoted, plain,
// white space, a separator, a prefix, or a piece between references.
func c02Runs(t *T, idx int) {
	n := []int{1 << 12, 1<<16 - 2, 1<<16 + 1, 70001, 100003, 1<<17 + 1, 1<<18 + 1, 1<<20 + 1}[idx/9%8]
	if idx < 9 {
		n = 1<<21 + 1
	}
	n += t.Intn(3)
	t.big(n)
	run := func(pieces ...string) string {
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(pieces[t.Intn(len(pieces))])
		}
		return b.String()
	}
	x := []any{"x"}
	var node *mNode
	switch idx % 9 {
	case 0:
		node = &mNode{Raw: "? '" + run("a", "''", "?", "é", "\xff", "#f1 ", "\n", "\"", "$1") + "' $$ b", Args: x}
	case 1:
		node = &mNode{Raw: "? \"" + run("a", "'", "?", "é", "#f1 ", "\n", "`", "$1") + "\" ?", Args: []any{1, 2}}
	case 2:
		node = &mNode{Raw: "`" + run("a", "'", "?", "\xe6", "#f1 ", "\"", "$1") + "` $1", Args: x}
	case 3:
		node = &mNode{Raw: "? " + run("a", "??", "$$", "é", "\n", " ", ",", "\x00") + " ?", Args: []any{1, 2}}
	case 4:
		node = &mNode{Raw: "?" + strings.Repeat(" ", n) + "?", Args: []any{1, 2}}
	case 5:
		node = &mNode{Raw: "#join('#arg', " + quoteArg(run("a", "'", "?", "é", "#f1 ", "\n", " ")) + ")", Args: []any{1, 2, 3}}
	case 6:
		node = &mNode{Raw: "?", Prefix: run("a", "'", "?", "#f1 "), Suffix: run("a", "'", "?", "#f1 "), Args: x}
	case 7:
		node = &mNode{Raw: "#join('" + run("a", "??", "$$", "é", "\n", " ") + "#arg', ',')", Args: []any{1, 2}}
	case 8:
		node = &mNode{Raw: "#f1 #f1", Kids: []*mNode{{Kind: nTable, Name: run("a", "'", "?", "#f1 ", "\xff")}}}
	}
	t.checkTree(node, nil)
	t.Feat("long")
	t.Key(fmt.Sprint("run", idx))
}

// ---------------------------------------------------------------- C03

func init() {
	register(&Check{
		ID:       "C03",
		Rule:     "random fragment trees with sharing, deep chains, wide fragments and every reference form at notable indexes; non-trivial: at least one reference to a fragment; distinct by the described tree",
		Required: []string{"tree.ok", "shared fragment", "deep", "wide", "form", "empty body", "affix"},
		Phases: []Phase{
			{Name: "trees", Quick: 80000, Thorough: 4000000, Run: c03Trees},
			{Name: "deep", Quick: 200, Thorough: 4000, Run: c03Deep},
			{Name: "indexes", Quick: 1200, Thorough: 20000, Run: c03Indexes},
			{Name: "affixes", Quick: 6000, Thorough: 200000, Run: c03Affixes},
		},
	})
}

func c03Trees(t *T, idx int) {
	g := newGen(t)
	g.clean = t.Intn(2) == 0
	g.usualArgs(3)
	scope := builtinScope
	if t.Intn(4) == 0 {
		scope = standardFuncs(builtinScope, []any{g.value()}, []*mNode{g.frag(1)})
		g.custom = []string{"gfrag", "num", "odd"}
	}
	n := g.frag(1 + t.Intn(5))
	segs, merr := t.checkTree(n, scope)
	featTree(t, segs, merr)
	if len(n.Kids) > 0 && merr == nil {
		t.Key(describe(n))
	}
	if merr == nil && len(segs) == 0 {
		t.Feat("empty body")
	}
	t.Sample(describe(n))
}

func c03Deep(t *T, idx int) {
	g := newGen(t)
	depth := []int{10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 500, 1000, 1025}[idx%15]
	n := &mNode{Raw: g.oneOf("leaf ?", "", "'?' $1", "x"), Args: nil}
	if strings.Contains(n.Raw, "leaf ?") || strings.Contains(n.Raw, "$1") {
		n.Args = []any{"leaf"}
	}
	other := &mNode{Raw: "o?", Args: []any{0}}
	for i := 0; i < depth; i++ {
		p := &mNode{Kids: []*mNode{n}}
		switch t.Intn(5) {
		case 0:
			p.Raw = "(#f1)"
		case 1:
			p.Raw, p.Kids = "#f2 #f1", []*mNode{n, other}
		case 2:
			p.Raw, p.Args = "? #join('#f','')", []any{i}
		case 3:
			p.Raw, p.Prefix, p.Suffix = " #fragment1\n", g.oneOf("P", ""), g.oneOf("S", "")
		case 4:
			p.Raw, p.Args = "#f(1) $2$1 ", []any{i, "x"}
		}
		if i%7 == 0 && t.Intn(4) == 0 {
			p = &mNode{Kind: nExprCol, Kids: []*mNode{p}}
		}
		n = p
	}
	segs, merr := t.checkTree(n, nil)
	featTree(t, segs, merr)
	t.Feat("deep")
	t.Key(fmt.Sprint(depth, idx))
}

// c03Indexes references the N-th of many with every form.
func c03Indexes(t *T, idx int) {
	g := newGen(t)
	count := sizes[1+idx%(len(sizes)-1)]
	n := &mNode{}
	for i := 1; i <= count; i++ {
		n.Args = append(n.Args, fmt.Sprint("arg", i))
		n.Kids = append(n.Kids, &mNode{Kind: nTable, Name: fmt.Sprint("kid", i)})
	}
	var b strings.Builder
	dollar := t.Intn(2) == 0
	for k := 0; k < 12; k++ {
		i := count - t.Intn(min(count, 3))
		if t.Intn(3) == 0 {
			i = 1 + t.Intn(count)
		}
		if dollar {
			fmt.Fprintf(&b, "$%d;", i)
		}
		fmt.Fprintf(&b, "%s %s;", g.call("arg", i), g.kidRef(i))
	}
	if !dollar {
		for k := t.Intn(count + 1); k > 0; k-- {
			b.WriteString("? ")
		}
	}
	b.WriteString("#join('#arg=#f', ', ')")
	n.Raw = b.String()
	t.checkTree(n, nil)
	t.Feat("form")
	if count > 9 {
		t.Feat("wide")
	}
	t.Key(n.Raw)
}

func c03Affixes(t *T, idx int) {
	g := newGen(t)
	body := g.oneOf("", " ", "\n\t", "\u00a0", "#f1", " #f1 ", "#f1#f2", "x", "#join('#f', ',')", "#join('#f', ' ')", "\u200b", "''", "\x00", "#f1 #f2", "?")
	n := &mNode{Raw: body, Prefix: g.oneOf("", "WHERE", " ", "P ", " P", "\n"), Suffix: g.oneOf("", "LIMIT 1", " ", " S", "S ", "\t")}
	if body == "?" {
		n.Args = []any{1}
	}
	for i := 0; i < strings.Count(body, "#f"); i++ {
		n.Kids = append(n.Kids, g.leaf())
	}
	outer := &mNode{Raw: g.oneOf("#f1", "a #f1 b", "#f1#f1"), Kids: []*mNode{n}, Prefix: g.oneOf("", "OUT"), Suffix: g.oneOf("", "END")}
	segs, _ := t.checkTree(outer, nil)
	if len(segs) == 0 {
		t.Feat("empty body")
	} else {
		t.Feat("affix")
	}
	t.Key(describe(outer))
	t.Sample(describe(outer))
}

// leaf is a small builder, often one that builds empty.
func (g *gen) leaf() *mNode {
	switch g.Intn(7) {
	case 0:
		return &mNode{Kind: nNil}
	case 1:
		return &mNode{Raw: g.oneOf("", " ", "\n")}
	case 2:
		return &mNode{Raw: "", Prefix: "P", Suffix: "S"}
	case 3:
		return &mNode{Kind: nCustom, Segs: []seg{{text: g.oneOf("", " ", "c")}}}
	case 4:
		return &mNode{Raw: "?", Args: []any{g.value()}}
	case 5:
		return &mNode{Kind: nColumn, Anon: true, Name: g.oneOf("", "col")}
	}
	return &mNode{Raw: "x", Prefix: g.oneOf("", "P")}
}

// ---------------------------------------------------------------- C04

func init() {
	register(&Check{
		ID:       "C04",
		Rule:     "all combinations of list lengths 0-4, template, separator and range from a fixed set; random templates over random lists; long lists; non-trivial: the build succeeds with at least one item; distinct by case",
		Required: []string{"join.end", "join.empty", "join.item_empty", "join.rolled back", "explicit range", "range error", "custom function", "long list", "items", "narrow list", "narrow out of range"},
		Phases: []Phase{
			{Name: "grid", Quick: c04GridSize(), Thorough: c04GridSize() * 4, Exhaustive: true, Run: c04Grid},
			{Name: "random", Quick: 80000, Thorough: 3000000, Run: c04Random},
			{Name: "long", Quick: 150, Thorough: 2000, Run: c04Long},
			{Name: "giant", Quick: 6, Thorough: 40, Run: c04Giant},
			{Name: "narrow", Quick: 8000, Thorough: 200000, Run: c04Narrow},
		},
		Assumptions: []string{"zero or negative explicit indexes, and whether a fixed reference in a template without any item counts as used, are not judged"},
	})
}

var c04Templates = []string{
	"#f", "#arg", "#fragment", "#f=#arg", "#arg=#f", "#f#arg", "#arg#f", "#f#f", "#arg #arg", "(#f)", " #f ", "#f1=#arg", "#arg=#f1", "$1=#arg", "#arg=$1",
	"?#arg", "#f?", "#f #f1 #arg1", "#f'#arg'", "'#f'#arg", "\"?\"#arg", "#f$$", "#arg??", "#num", "#num=#arg", "#arg:#num", "#odd", "#odd#f", "#garg", "#garg,#arg",
	"#gfrag", "#f#gfrag", "#num#odd#garg", "#f2#arg", "#arg#arg2", "#arg(2)#f", "#join(''#f'', ''+'')#arg", "#arg#join(''#arg'', ''+'')", "#failat", "#boom", "#plain", "#noend", "#val", "#nope", "#f1", "x", "",
	"#f#nope1", "#arg#plain1", "#num1#f", "#none()#arg", "#join", "#f\n#arg", "é#arg", "#arg\x00", "#F", "#arg #val('x', 1.5, true)",
}

var c04Ranges = func() []string {
	r := []string{""}
	for f := 1; f <= 6; f++ {
		r = append(r, fmt.Sprint(", ", f))
		for to := 1; to <= 6; to++ {
			r = append(r, fmt.Sprintf(", %d,%d", f, to))
		}
	}
	return r
}()

func c04GridSize() int { return len(c04Templates) * len(c04Ranges) * 25 }

func c04Grid(t *T, idx int) {
	k := idx
	next := func(n int) int {
		r := k % n
		k /= n
		return r
	}
	tmpl, rng := c04Templates[next(len(c04Templates))], c04Ranges[next(len(c04Ranges))]
	nArgs, nKids := next(5), next(5)
	variant := next(4)
	n := &mNode{Raw: "[#join(" + "'" + tmpl + "', ', '" + rng + ")]"}
	switch variant {
	case 1:
		n.Raw += " $1"
	case 2:
		n.Raw = "#f1 " + n.Raw
	case 3:
		n.Raw = "#join('#f','')#join('#arg','')" + n.Raw
	}
	g := newGen(t)
	for i := 1; i <= nArgs; i++ {
		n.Args = append(n.Args, g.value())
	}
	for i := 1; i <= nKids; i++ {
		if g.chance(3) {
			n.Kids = append(n.Kids, g.leaf())
		} else {
			n.Kids = append(n.Kids, &mNode{Raw: fmt.Sprint("k", i, "=?"), Args: []any{g.value()}})
		}
	}
	// use what the join might leave out
	if (idx+variant)%2 == 0 {
		for i := range n.Args {
			n.Raw += fmt.Sprintf(" #arg%d", i+1)
		}
		for i := range n.Kids {
			n.Raw += fmt.Sprintf(" #f%d", i+1)
		}
	}
	scope := standardFuncs(builtinScope, []any{"g1", "g2", 3}, []*mNode{{Raw: "s?", Args: []any{7}}, {Raw: ""}, {Raw: "z"}})
	t.c04(n, scope, rng != "")
}

func (t *T) c04(n *mNode, scope *mScope, explicit bool) {
	segs, merr := t.checkTree(n, scope)
	if merr == nil {
		t.Key(describe(n))
		t.Feat("items")
		if explicit {
			t.Feat("explicit range")
		}
		if strings.Contains(n.Raw, "#num") || strings.Contains(n.Raw, "#garg") {
			t.Feat("custom function")
		}
		if len(n.Args) != len(n.Kids) && strings.Contains(n.Raw, "#arg") && strings.Contains(n.Raw, "#f") {
			t.Feat("join.rolled back")
		}
	} else if explicit {
		t.Feat("range error")
	}
	_ = segs
	t.Sample(describe(n))
}

func c04Random(t *T, idx int) {
	g := newGen(t)
	g.clean = t.Intn(2) == 0
	g.faults = t.Intn(3) == 0
	shared := []*mNode{g.frag(1), {Raw: ""}, g.frag(0)} // without custom functions: no recursion
	g.custom = []string{"num", "odd", "garg", "gfrag"}
	scope := standardFuncs(builtinScope, []any{g.value(), g.value(), g.value()}, shared)
	n := &mNode{}
	for i := g.size(7); i > 0; i-- {
		n.Args = append(n.Args, g.value())
	}
	for i := g.size(7); i > 0; i-- {
		if g.chance(2) {
			n.Kids = append(n.Kids, g.leaf())
		} else {
			n.Kids = append(n.Kids, g.frag(1))
		}
	}
	for i := 1 + t.Intn(3); i > 0; i-- {
		n.Raw += g.text() + g.join(g.chance(2), g.chance(2), len(n.Args), len(n.Kids))
	}
	for i := range n.Args {
		if g.Intn(3) > 0 {
			n.Raw += " " + g.call("arg", i+1)
		}
	}
	for i := range n.Kids {
		if g.Intn(3) > 0 {
			n.Raw += " " + g.kidRef(i+1)
		}
	}
	t.c04(n, scope, strings.Contains(n.Raw, ", 1"))
}

func c04Long(t *T, idx int) {
	g := newGen(t)
	count := sizes[idx%len(sizes)]
	if idx%30 == 29 {
		count = hugeSizes[t.Intn(len(hugeSizes))]
	}
	t.big(count)
	n := &mNode{}
	mod := []int{1 + count/2, count + 1, max(1, count-t.Intn(3))}[t.Intn(3)]
	for i := 0; i < count; i++ {
		n.Args = append(n.Args, i%mod)
		switch t.Intn(4) {
		case 0:
			n.Kids = append(n.Kids, &mNode{Raw: ""})
		default:
			n.Kids = append(n.Kids, &mNode{Kind: nTable, Name: fmt.Sprint("k", i)})
		}
	}
	short := t.Intn(3)
	if short > 0 && count > short {
		if t.Intn(2) == 0 {
			n.Kids = n.Kids[:count-short]
		} else {
			n.Args = n.Args[:count-short]
		}
	}
	n.Raw = g.oneOf("#join('#f#arg', ', ')", "#join('#arg #f', '')", "#join('#f=$1 #arg', ' AND ')") + "; #join('#arg',',') #join('#f', '+')"
	if count > 2 {
		from := 1 + t.Intn(count-2)
		n.Raw += fmt.Sprintf(" #join('#arg', ';', %d) #join('#f', ';', %d, %d)", from, from, from+t.Intn(count-from))
	}
	t.c04(n, builtinScope, count > 2)
	if count > 64 {
		t.Feat("long list")
	}
}

var narrowKinds = []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(namedUint8(0))}

// c04Narrow lists functions with parameters of all sizes, which may end
// before their own limit does.
func c04Narrow(t *T, idx int) {
	typ := narrowKinds[idx%len(narrowKinds)]
	limit := []int64{1, 2, 3, 5, 126, 127, 128, 255, 256, 300}[t.Intn(10)]
	if t.Intn(3) == 0 {
		limit = 1 << 62
	}
	toInt := func(v reflect.Value) int64 {
		switch v.Kind() {
		case reflect.Float64:
			return int64(v.Float())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return int64(v.Uint())
		}
		return v.Int()
	}
	in := []reflect.Type{typ}
	if t.Intn(2) == 0 {
		in = []reflect.Type{ctxType, typ}
	}
	real := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{strType, errType}, false), func(args []reflect.Value) []reflect.Value {
		i := toInt(args[len(args)-1])
		if i < 1 || i > limit {
			return []reflect.Value{reflect.ValueOf(""), reflect.ValueOf(&sqlf.ErrInvalidIndex).Elem()}
		}
		return []reflect.Value{reflect.ValueOf(fmt.Sprint("v", i)), reflect.Zero(errType)}
	})
	f := &mFunc{Params: []reflect.Kind{typ.Kind()}, Joinable: true, Construct: real.Interface(),
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := toInt(reflect.ValueOf(a[0]))
			if i < 1 || i > limit {
				return nil, errIndex("narrow")
			}
			return text(fmt.Sprint("v", i)), nil
		}}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{"narrow": f}}
	near := []int64{1, 2, 3, 5, 126, 127, 128, 129, 254, 255, 256, 257, 258, 259, 300, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 2}
	from := near[t.Intn(len(near))]
	to := from + int64(t.Intn(4))
	if t.Intn(3) == 0 {
		from = 1 + int64(t.Intn(3))
		to = near[t.Intn(16)]
	}
	n := &mNode{}
	for i := t.Intn(3); i > 0; i-- {
		n.Args = append(n.Args, i)
	}
	tmpl := "#narrow"
	if len(n.Args) > 0 && t.Intn(2) == 0 {
		tmpl = []string{"#arg#narrow", "#narrow#arg"}[t.Intn(2)]
	}
	switch {
	case t.Intn(2) == 0:
		n.Raw = fmt.Sprintf("#join('%s', ',', %d, %d)", tmpl, from, to)
	case limit < 1<<62 || typ.Bits() == 8 || typ.Bits() == 16 && t.Intn(20) == 0:
		n.Raw = fmt.Sprintf("#join('%s', ',', %d)", tmpl, from)
		if t.Intn(3) == 0 {
			n.Raw = fmt.Sprintf("#join('%s', ',')", tmpl)
		}
	default:
		n.Raw = fmt.Sprintf("#narrow(%d)", from)
	}
	for i := range n.Args {
		n.Raw += fmt.Sprintf(" #arg%d", i+1)
	}
	segs, merr := t.checkTree(n, scope)
	if merr == nil {
		t.Feat("narrow list")
		if len(segs) > 0 {
			t.Key(fmt.Sprint(n.Raw, typ, limit))
		}
	} else {
		t.Feat("narrow out of range")
	}
}

func c04Giant(t *T, idx int) {
	count := giantSizes[idx%len(giantSizes)]
	t.big(count)
	n := &mNode{}
	for i := 0; i < count; i++ {
		n.Args = append(n.Args, i%1000)
		n.Kids = append(n.Kids, &mNode{Kind: nTable, Name: fmt.Sprint("k", i)})
	}
	n.Raw = []string{
		"#join('#f', ', ') #join('#arg', ',')",
		fmt.Sprintf("#join('#f#arg', '', 1, %d)", count),
		"#join('#f', ' #f ') $1 #join('#arg', ',', 2)",
	}[idx/len(giantSizes)%3]
	t.c04(n, builtinScope, false)
	t.Feat("long list")
}

// ---------------------------------------------------------------- C05

func init() {
	register(&Check{
		ID:       "C05",
		Rule:     "random trees with injected faults (judged by the reference), the same faults below #join, and all short token sequences with 0-2 args and fragments; non-trivial: the reference requires an error; distinct by case",
		Required: []string{"tree.ok", "tree.error", "fault.nested", "fault.join", "fault.builder", "fault kinds", "wide fault", "far index", "bad literal", "property used", "property rolled back", "property out of range"},
		Phases: []Phase{
			{Name: "tokens", Quick: c05TokenCases(3), Thorough: c05TokenCases(5), Exhaustive: true, Run: c05Tokens},
			{Name: "trees", Quick: 80000, Thorough: 4000000, Run: c05Trees},
			{Name: "single fault", Quick: 30000, Thorough: 1000000, Run: c05Single},
			{Name: "wide", Quick: 1500, Thorough: 30000, Run: c05Wide},
			{Name: "far indexes", Quick: len(c05Far) * len(c05FarForms) * 3, Thorough: len(c05Far) * len(c05FarForms) * 12, Exhaustive: true, Run: c05FarIndex},
			{Name: "properties", Quick: 20000, Thorough: 400000, Run: c05Properties},
			{Name: "spellings", Quick: len(c05Spellings), Thorough: len(c05Spellings), Exhaustive: true, Run: c05Spelling},
		},
		Assumptions: []string{"?0, trailing commas, blank behind a bare literal and unusual number spellings are not judged"},
	})
}

var c05TokenList = []string{"#f", "#arg", "1", "2", "(", ")", "'", ",", "?", "$", "#join('#f',',')", "#join('#arg#f',',')", " ", "x", "#", "#fragment(1)"}

func c05TokenCases(n int) int {
	total := 0
	for i := 0; i <= n; i++ {
		total += pow(len(c05TokenList), i)
	}
	return total * 9
}

func c05Tokens(t *T, idx int) {
	nArgs, nKids := idx%3, idx/3%3
	n := &mNode{Raw: nthText(c05TokenList, idx/9)}
	for i := 0; i < nArgs; i++ {
		n.Args = append(n.Args, i)
	}
	for i := 0; i < nKids; i++ {
		n.Kids = append(n.Kids, &mNode{Raw: fmt.Sprint("k", i+1)})
	}
	segs, merr := t.checkTree(n, nil)
	featTree(t, segs, merr)
	if merr != nil {
		t.Key("")
	}
}

func c05Trees(t *T, idx int) {
	g := newGen(t)
	g.faults = true
	g.faultRate = 4 + t.Intn(40)
	g.clean = t.Intn(2) == 0
	scope := builtinScope
	if t.Intn(3) == 0 {
		scope = standardFuncs(builtinScope, []any{1, 2}, []*mNode{{Raw: "z"}, g.frag(1)})
		g.custom = []string{"num", "garg", "gfrag", "failat", "boom", "plain"}
	}
	n := g.frag(1 + t.Intn(4))
	segs, merr := t.checkTree(n, scope)
	featTree(t, segs, merr)
	if merr != nil {
		t.Key(describe(n))
	}
	t.Sample(describe(n))
}

// c05Single places one fault at the bottom of an otherwise sound tree.
func c05Single(t *T, idx int) {
	g := newGen(t)
	g.clean = true
	bad := &mNode{}
	kind := idx % 18
	switch kind {
	case 0:
		bad = &mNode{Raw: "#f1"}
	case 1:
		bad = &mNode{Raw: "#arg1"}
	case 2:
		bad = &mNode{Raw: "$1"}
	case 3:
		bad = &mNode{Raw: "?, ?", Args: []any{1}}
	case 4:
		bad = &mNode{Raw: "x", Args: []any{nil}}
	case 5:
		bad = &mNode{Raw: "x", Kids: []*mNode{{Raw: ""}}}
	case 6:
		bad = &mNode{Raw: "$1 $3", Args: []any{1, 2, 3}}
	case 7:
		bad = &mNode{Raw: "#join('#f', ',', 2)", Kids: []*mNode{{Raw: "a"}, {Raw: "b"}}}
	case 8:
		bad = &mNode{Raw: "#join('#f', ',', 1, 3)", Kids: []*mNode{{Raw: "a"}, {Raw: "b"}}}
	case 9:
		bad = &mNode{Raw: "$1, ?", Args: []any{1}}
	case 10:
		bad = &mNode{Raw: "?, $1", Args: []any{1}}
	case 11:
		bad = &mNode{Raw: g.oneOf("#nope", "#nope1", "#", "#f(", "$", "#f('", "$x", "#f(1 1)", "# ", "#join('#', ',')")}
	case 12:
		bad = &mNode{Raw: "#f", Kids: []*mNode{{Raw: "a"}}}
	case 13:
		bad = &mNode{Raw: "#arg", Args: []any{1}}
	case 14:
		bad = &mNode{Raw: "#f1 #f(1, 1)", Kids: []*mNode{{Raw: "a"}}}
	case 15:
		bad = &mNode{Kind: nCustom, Fail: errCustom}
	case 16:
		bad = &mNode{Raw: "#f0", Kids: nil}
	case 17:
		bad = &mNode{Raw: "#join('#f=#arg', ',')", Kids: []*mNode{{Raw: "a"}, {Raw: "b"}}, Args: []any{1}}
	}
	t.Feat("fault kinds")
	n := bad
	depth := t.Intn(6)
	for i := 0; i < depth; i++ {
		var before, after []*mNode
		for k := t.Intn(3); k > 0; k-- {
			before = append(before, &mNode{Raw: "b ?", Args: []any{k}})
		}
		for k := t.Intn(3); k > 0; k-- {
			after = append(after, &mNode{Raw: "a"})
		}
		kids := append(append(append([]*mNode{}, before...), n), after...)
		p := &mNode{Kids: kids}
		switch t.Intn(5) {
		case 0:
			for k := range kids {
				p.Raw += fmt.Sprintf("#f%d ", k+1)
			}
		case 1:
			p.Raw = "#join('#f', ', ')"
			t.Feat("fault.join")
		case 2:
			p.Raw = "#join('(#fragment #arg)', ' AND ')"
			for range kids {
				p.Args = append(p.Args, g.value())
			}
			t.Feat("fault.join")
		case 3:
			p.Raw = fmt.Sprintf("#join('#f', ', ', 1, %d)", len(kids))
			t.Feat("fault.join")
		case 4:
			p.Kids = []*mNode{{Kind: nExprCol, Kids: []*mNode{wrapFrag(n)}}}
			p.Raw = "#f1"
		}
		n = p
	}
	if depth > 0 {
		t.Feat("fault.nested")
	}
	if t.Intn(4) == 0 { // as part of a query builder
		q := &mQuery{Ops: []*mOp{{Kind: opFrom, Name: "t"}, {Kind: opSelect, Cols: []*mNode{{Kind: nColumn, Alias: "t", Name: "id"}}}}}
		switch t.Intn(4) {
		case 0:
			q.Ops = append(q.Ops, &mOp{Kind: opWhere, Node: wrapFrag(n)})
		case 1:
			q.Ops = append(q.Ops, &mOp{Kind: opJoin, Text: "LEFT JOIN", Name: "j", Node: wrapFrag(n)})
		case 2:
			q.Ops = append(q.Ops, &mOp{Kind: opUnion, Cols: []*mNode{n}})
		case 3:
			q.Ops = append(q.Ops, &mOp{Kind: opWith, Text: "t", Node: n})
		}
		n = &mNode{Kind: nQuery, Query: q}
		t.Feat("fault.builder")
	}
	_, merr := t.checkTree(n, nil)
	if merr == nil {
		panic(fmt.Sprintf("harness: fault kind %d is no error", kind))
	}
	t.Key(describe(n))
	t.Sample(describe(n))
}

// c05Wide leaves one of many args or fragments unused, or refers to the one
// behind the last.
func c05Wide(t *T, idx int) {
	g := newGen(t)
	all := append(append([]int{}, sizes[2:]...), 2000, 4097, 10001)
	nArgs, nKids := all[idx%len(all)], all[t.Intn(len(all))]
	switch t.Intn(4) {
	case 0:
		nKids = t.Intn(3)
	case 1:
		nArgs, nKids = t.Intn(3), nArgs
	}
	n := &mNode{}
	for i := 0; i < nArgs; i++ {
		n.Args = append(n.Args, i/(1+t.Intn(2)))
	}
	same := &mNode{Raw: ""}
	for i := 0; i < nKids; i++ {
		switch t.Intn(8) {
		case 0:
			n.Kids = append(n.Kids, same)
		case 1:
			n.Kids = append(n.Kids, &mNode{Raw: "k"})
		default:
			n.Kids = append(n.Kids, &mNode{Kind: nTable, Name: fmt.Sprint("k", i)})
		}
	}
	pos := func(n int) int { // notable positions
		switch t.Intn(4) {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return t.Intn(n)
	}
	noArg, noKid := -1, -1
	far := false
	switch t.Intn(5) {
	case 0, 1:
		if nArgs > 0 {
			noArg = pos(nArgs)
		}
	case 2, 3:
		if nKids > 0 {
			noKid = pos(nKids)
		}
	case 4:
		far = true
	}
	var b strings.Builder
	dollar := t.Intn(2) == 0
	span := func(name string, count, skip int) {
		if skip < 0 || t.Intn(2) == 0 { // one by one
			if skip < 0 && t.Intn(2) == 0 {
				fmt.Fprintf(&b, "#join('#%s', ',') ", name)
				if count == 0 {
					b.Reset()
				}
				return
			}
			for i := 0; i < count; i++ {
				if i == skip {
					continue
				}
				if dollar && name == "arg" {
					fmt.Fprintf(&b, "$%d,", i+1)
				} else {
					b.WriteString(g.call(name, i+1))
					b.WriteString(" ")
				}
			}
			return
		}
		if skip > 0 {
			fmt.Fprintf(&b, "#join('#%s', ',', 1, %d) ", name, skip)
		}
		if skip < count-1 {
			fmt.Fprintf(&b, "#join('#%s', ',', %d) ", name, skip+2)
		}
	}
	if nArgs > 0 {
		span("arg", nArgs, noArg)
	}
	if nKids > 0 {
		span("f", nKids, noKid)
	}
	if far {
		b.WriteString(g.call(g.oneOf("arg", "f"), max(nArgs, nKids)+1))
	}
	n.Raw = b.String()
	if t.Intn(3) == 0 {
		n = &mNode{Raw: g.oneOf("(#f1)", "#join('#f', ',')"), Kids: []*mNode{n}}
	}
	segs, merr := t.checkTree(n, nil)
	featTree(t, segs, merr)
	if merr != nil {
		t.Feat("wide fault")
		t.Key(fmt.Sprint("wide", nArgs, nKids, noArg, noKid, far, idx))
	}
}

// indexes that come near 1 or 2 when they are truncated to some size
var c05Far = []string{"3", "9", "10", "11", "129", "256", "257", "258", "1001", "10001", "32769", "65536", "65537", "65538", "131073", "1000001", "16777217", "2147483648", "2147483649",
	"4294967296", "4294967297", "4294967298", "1099511627777", "9007199254740993", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551616",
	"18446744073709551617", "18446744073709551618", "36893488147419103233", "100000000000000000001", "340282366920938463463374607431768211457", "1" + strings.Repeat("0", 400)}
var c05FarForms = []string{"$%s", "$1 $%s", "#arg%s", "#f%s", "#fragment%s", "#arg(%s)", "#f(%s)", "#fragment( %s)", "#join('#f', ',', %s)", "#join('#arg', ',', %s)",
	"#join('#f', ',', 1, %s)", "#join('#arg', ',', 1, %s)", "#join('#arg#f', ',', %s, %s)", "#join('#f%s#arg', ',')", "#join('$%s#arg', ',')", "#f(%s.0)", "#arg(%se0)"}

// c05FarIndex refers to a far index of a short list.
func c05FarIndex(t *T, idx int) {
	far, form := c05Far[idx%len(c05Far)], c05FarForms[idx/len(c05Far)%len(c05FarForms)]
	n := &mNode{Raw: strings.ReplaceAll(form, "%s", far)}
	if idx/len(c05Far)/len(c05FarForms)%3 != 1 { // all are used otherwise
		if strings.Contains(n.Raw, "$") {
			n.Raw += " $1 $2"
		} else {
			n.Raw += " #arg1 #arg2"
		}
		n.Raw += " #f1 #f2"
	}
	n.Args = []any{"a", "b"}
	n.Kids = []*mNode{{Raw: "k1"}, {Raw: "k2"}}
	if idx/len(c05Far)/len(c05FarForms)%3 == 2 {
		n = &mNode{Raw: "x #join('#f', '')", Kids: []*mNode{n}}
	}
	_, merr := t.checkTree(n, nil)
	if merr == nil {
		panic("harness: far index is no error: " + n.Raw)
	}
	t.Feat("far index")
	t.Key(describe(n))
}

// look-alikes of literals, which are none
var c05Spellings = []string{"NULL", "Null", "NIL", "Nil", "TRUE", "True", "FALSE", "False", "None", "none", "undefined", "t", "f", "yes", "no", "nul", "nulll", "tru", "truee", "null.", "a", "_", "1a", "a1", "1 2", "1..2", "--1", "+-1", "1e", "e1", "$1", "?", "#f1", "#", "(", "\"a\"", "\"\"", "`a`", "a'b'", "null null", "nil1", "true1", "-null", "-true", "=1", "1;", "é", "\x00", "\xff", ".", "-", "+", "'a' 'b'", "'a''", "'a'b", "1'a'", "null'a'", "@", "1%", "1/2", "[1]", "{}"}

func c05Spelling(t *T, idx int) {
	if st, why := c05SpellingStatus(c05Spellings[idx]); st == pUnspec {
		panic(unspecified{why})
	}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	scope = standardFuncs(scope, []any{1}, []*mNode{{Raw: "z"}})
	for _, form := range []string{"#val(%s, 1, true)", "#val('x', %s, true)", "#val('x', 1, %s)", "#join('#arg', %s) #arg1", "#arg(%s) #arg1", "#join('#arg', ',', %s) #arg1", "#arg1 #join('#plain(%s)', '')"} {
		n := &mNode{Raw: strings.ReplaceAll(form, "%s", c05Spellings[idx]), Args: []any{1}}
		_, merr := t.checkTree(n, scope)
		if merr != nil {
			t.Feat("bad literal")
			t.Key(describe(n))
		}
	}
}

// c05Properties follows what the lists of properties report as used, while
// their items are built directly, by functions and by joins over functions.
func c05Properties(t *T, _ int) {
	type list struct {
		name  string
		props sqlf.Properties
		used  []bool
	}
	args, frags := &list{name: "garg"}, &list{name: "gfrag"}
	style := styles[t.Intn(2)]
	root := sqlf.NewContext(style)
	var values []any
	for i := t.Intn(7); i > 0; i-- {
		values = append(values, len(values)+100)
	}
	var builders []sqlf.FragmentBuilder
	for i := t.Intn(7); i > 0; i-- {
		builders = append(builders, sqlf.F(fmt.Sprint("f", len(builders)+1)))
	}
	args.props, frags.props = sqlf.NewArgsProperties(values...), sqlf.NewFragmentProperties(builders...)
	args.used, frags.used = make([]bool, len(values)), make([]bool, len(builders))
	if len(args.props) != len(values) || len(frags.props) != len(builders) {
		t.Failf("%d properties of %d args, %d of %d fragments", len(args.props), len(values), len(frags.props), len(builders))
	}
	// built is whether s, just built, is the build of an item
	built := func(l *list, i int, s string) bool {
		all := root.Args()
		switch {
		case l == frags:
			return s == fmt.Sprint("f", i)
		case style == syntax.Question:
			return s == "?" && len(all) > 0 && all[len(all)-1] == values[i-1]
		}
		for k, v := range all {
			if v == values[i-1] {
				return s == fmt.Sprint("$", k+1)
			}
		}
		return false
	}
	ctx, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{
		"garg":  func(ctx *sqlf.Context, i int) (string, error) { return args.props.Build(ctx, i) },
		"gfrag": func(ctx *sqlf.Context, i int) (string, error) { return frags.props.Build(ctx, i) },
	})
	if err != nil {
		t.Failf("%v", err)
	}
	var log []string
	verify := func(what string) {
		log = append(log, what)
		t.Input(strings.Join(log, "; "))
		for _, l := range []*list{args, frags} {
			for i, p := range l.props {
				if p.Used() != l.used[i] {
					t.Failf("#%s%d: Used() is %v, want %v", l.name, i+1, p.Used(), l.used[i])
				}
			}
		}
	}
	verify(fmt.Sprintf("%d args, %d fragments", len(values), len(builders)))
	pick := func() *list {
		if t.Intn(2) == 0 {
			return frags
		}
		return args
	}
	wantInvalid := func(what string, err error) {
		if err == nil || !errors.Is(err, sqlf.ErrInvalidIndex) {
			t.Failf("%s: error %v, want ErrInvalidIndex", what, err)
		}
		t.Feat("property out of range")
	}
	for n := 1 + t.Intn(6); n > 0; n-- {
		l := pick()
		max := len(l.props)
		switch t.Intn(6) {
		case 0: // direct
			i := t.Intn(max+4) - 1
			s, err := l.props.Build([]*sqlf.Context{ctx, root}[t.Intn(2)], i)
			what := fmt.Sprintf("%s.Build(%d)", l.name, i)
			if i < 1 || i > max {
				wantInvalid(what, err)
			} else {
				if err != nil || !built(l, i, s) {
					t.Failf("%s: %q, %v", what, s, err)
				}
				l.used[i-1] = true
			}
			verify(what)
		case 1: // marked
			if max > 0 {
				i := 1 + t.Intn(max)
				l.props[i-1].ReportUsed()
				l.used[i-1] = true
				verify(fmt.Sprintf("%s%d.ReportUsed()", l.name, i))
				t.Feat("property used")
			}
		case 2: // the item itself
			if max > 0 {
				i := 1 + t.Intn(max)
				s, err := l.props[i-1].BuildFragment([]*sqlf.Context{ctx, root}[t.Intn(2)])
				if err != nil || !built(l, i, s) {
					t.Failf("%s%d: %q, %v", l.name, i, s, err)
				}
				l.used[i-1] = true
				verify(fmt.Sprintf("%s%d.BuildFragment()", l.name, i))
			}
		case 3: // join of both, up to the shorter one
			raw := []string{"#join('#garg=#gfrag', ',')", "#join('#gfrag#garg', '')"}[t.Intn(2)]
			if _, err := sqlf.F(raw).BuildFragment(ctx); err != nil {
				t.Failf("%s: %v", raw, err)
			}
			m := len(args.props)
			if len(frags.props) < m {
				m = len(frags.props)
			}
			if len(args.props) != len(frags.props) {
				t.Feat("property rolled back")
			}
			for i := 0; i < m; i++ {
				args.used[i], frags.used[i] = true, true
			}
			verify(raw)
		case 4: // range
			if max == 0 {
				continue
			}
			from := 1 + t.Intn(max)
			to := from + t.Intn(max-from+1)
			raw := fmt.Sprintf("#join('#%s', ',', %d, %d)", l.name, from, to)
			if t.Intn(3) == 0 {
				raw, to = fmt.Sprintf("#join('#%s', ',', %d)", l.name, from), max
			}
			if _, err := sqlf.Ff("#f1", sqlf.F(raw)).BuildFragment(ctx); err != nil {
				t.Failf("%s: %v", raw, err)
			}
			for i := from; i <= to; i++ {
				l.used[i-1] = true
			}
			verify(raw)
			t.Feat("property used")
		default: // calls
			i := t.Intn(max + 3)
			raw := fmt.Sprintf("#%s%d", l.name, i)
			_, err := sqlf.F(raw).BuildFragment(ctx)
			if i < 1 || i > max {
				wantInvalid(raw, err)
			} else {
				if err != nil {
					t.Failf("%s: %v", raw, err)
				}
				l.used[i-1] = true
				t.Feat("property used")
			}
			verify(raw)
		}
	}
	t.Eval()
	if len(log) > 2 {
		t.Key(strings.Join(log, "; "))
	}
}

func c05SpellingStatus(s string) (pStatus, string) {
	_, st, why := refParse("#val(" + s + ", 1, true)")
	return st, why
}

func wrapFrag(n *mNode) *mNode {
	if n.Kind == nFrag {
		return n
	}
	return &mNode{Raw: "#f1", Kids: []*mNode{n}}
}

var _ = syntax.Dollar
