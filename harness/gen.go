package main

import (
	"fmt"
	"strings"
)

// gen generates fragment trees, mostly well-formed ones.
type gen struct {
	*T
	pool   []any    // arg values used so far
	nodes  []*mNode // fragments that can be shared
	scope  *mScope  // functions besides the built-in ones
	custom []string // names of join compatible functions of the scope
	// faults makes ill-formed references and unused items possible
	faults    bool
	faultRate int // 1 in n pieces
	plainVals bool
	forDB     bool // values that database/sql passes on
	budget    int
	injected  int
	noShare   bool
	clean     bool // literal text of simple words only
	maxArgs   int  // 0: 6
	maxKids   int  // 0: 4
	fit       bool // numbers that fit every kind
	long      int  // texts are up to this many times longer
}

func newGen(t *T) *gen {
	g := &gen{T: t, budget: 40, faultRate: 12, scope: builtinScope}
	if g.chance(50) { // sizes beyond the usual ones, in combination with everything else
		t.Feat("large tree")
		g.budget = 150
		switch g.Intn(4) {
		case 0:
			g.maxArgs = 10 + g.Intn(60)
		case 1:
			g.maxKids = 6 + g.Intn(30)
		case 2:
			g.long = 2 + g.Intn(30)
		case 3:
			g.maxArgs, g.maxKids, g.long = 10+g.Intn(30), 6+g.Intn(12), 2+g.Intn(12)
		}
	}
	return g
}

// usualArgs limits the number of args, except in large trees.
func (g *gen) usualArgs(n int) {
	if g.maxArgs == 0 {
		g.maxArgs = n
	}
}

func (g *gen) value() any {
	if len(g.pool) > 0 && g.Intn(10) < 4 {
		return g.pool[g.Intn(len(g.pool))]
	}
	var v any
	if g.plainVals {
		v = g.Intn(1000)
	} else if g.forDB {
		v = dbValue(g.Rand)
	} else {
		v = genValue(g.Rand, g.Feat)
	}
	g.pool = append(g.pool, v)
	return v
}

func (g *gen) oneOf(s ...string) string { return s[g.Intn(len(s))] }

// chance is true in one of n cases.
func (g *gen) chance(n int) bool { return g.Intn(n) == 0 }

// escape is what another language would take for an escape, a verb, an entity
// or a template.
func (g *gen) escape() string {
	return g.oneOf("\\n", "\\t", "\\r\\n", "\\0", "\\x41", "\\u00e9", "\\\\", "\\", "\\b", "\\e", "%s", "%d", "%v", "%%", "%", "%n", "%!", "%[1]s", "%20", "%27", "&amp;", "&lt;", "&", "{0}", "{}", "{{.}}", "{{", "{name}", "<br>", "<", ">", "^", "~", "a+b", "*", "\\N", "\\'"[:1], "@", ":1", ":name", "=20", "!", "[0]")
}

// text generates literal text, which contains no reference.
func (g *gen) text() string {
	b := new(strings.Builder)
	n := 1 + g.Intn(3)
	if g.long > 0 && g.chance(2) {
		n += g.Intn(3 * g.long)
	}
	for ; n > 0; n-- {
		if g.clean {
			b.WriteString(g.oneOf(" a ", " = ", ",", " AND ", "(", ")", "x.y", " "))
			continue
		}
		switch g.Intn(17) {
		case 0:
			b.WriteString(" ")
		case 9: // what means something in some dialect
			b.WriteString(g.oneOf("E'\\'", "e'a\\'", "N'\\\\'", "\"\\\"", "`\\`", "U&'\\00e9'", "x'1F'", "[a'b']", "-- '?'\n", "/* '#f1' ?? */", "/*", "*/", "--", "->>", "@>", "??|", "??&", "::", ":=", "<=>", "||", "{", "\\'", "\\ ", "q'[?]'", "_utf8'x'", "$$tag$$"))
		case 1:
			b.WriteString(g.oneOf("\n", "\t", "\r\n", "  ", "\v", "\f", "\u00a0", "\u2003", "\u3000", "\u0085"))
		case 2:
			b.WriteString(g.oneOf("'#f1 ? $1 #join(''#f'', '','')'", "''", "'it''s'", "'#'", "'?'", "'$9'"))
		case 3:
			b.WriteString(g.oneOf("\"#f1?\"", "`$1`", "\"a'b\"", "`#\"'`", "\"\"", "``", "\"??$$\""))
		case 4:
			b.WriteString(g.oneOf("$$", "??", "$$$$", "????", "$$ body $$", "a ?? b", "??#"[:2]))
		case 5:
			b.WriteString(g.oneOf("é", "日本語", "🙂", "\u0301", "\u200d", "\ufeff", "\ufffd", "ſK"))
		case 6:
			b.WriteString(g.oneOf("\x00", "\x01", "\x7f", "\x1b", "a\x00b"))
		case 7:
			b.WriteString(g.oneOf("\xff", "\xc3", "\xe6\x97", "\xf0\x9f\x99", "\x80", "a\xffb"))
		case 8:
			b.WriteString(g.oneOf("0", "12", "1.5", "-- c\n", "/* c */", "\\", "%", "@x", ":p", "[]", "{}", g.escape(), g.escape(), g.escape()))
		default:
			b.WriteString(g.oneOf("SELECT ", " FROM ", "a", "foo.bar", " AND ", " = ", ", ", "(", ")", "_", "x y", ";", " IN "))
		}
	}
	return b.String()
}

// quoteArg writes s as a string argument of a function.
func quoteArg(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (g *gen) call(name string, i int) string {
	switch g.Intn(6) {
	case 0:
		return fmt.Sprintf("#%s(%d)", name, i)
	case 1:
		return fmt.Sprintf("#%s(%s%d)", name, g.oneOf("", " ", "\n", "\t "), i)
	case 2:
		return fmt.Sprintf("#%s(%s)", name, g.oneOf(fmt.Sprintf("%d.0", i), fmt.Sprintf("%de0", i), fmt.Sprintf("+%d", i), fmt.Sprintf("0%d", i)))
	}
	return fmt.Sprintf("#%s%d", name, i)
}

func (g *gen) kidRef(i int) string { return g.call(g.oneOf("f", "f", "fragment"), i) }

// argRef writes a reference to an arg with a dollar or function form.
func (g *gen) argRef(i int, dollar bool) string {
	if dollar && g.Intn(3) > 0 {
		return fmt.Sprintf("$%d", i)
	}
	return g.call("arg", i)
}

// join writes a #join over lists with the lengths of args and kids, starting
// at 'from', with explicit bounds or not.
func (g *gen) join(useArg, useKid bool, nArgs, nKids int) string {
	var tmpl strings.Builder
	parts := []string{}
	if useArg {
		parts = append(parts, "#arg")
	}
	if useKid {
		parts = append(parts, g.oneOf("#f", "#fragment"))
	}
	if len(g.custom) > 0 && g.chance(4) {
		parts = append(parts, "#"+g.custom[g.Intn(len(g.custom))])
	}
	if len(parts) == 0 {
		parts = append(parts, "#arg")
	}
	if nKids > 0 && g.chance(8) {
		parts = append(parts, fmt.Sprintf("#f%d", 1+g.Intn(nKids)))
	}
	if nArgs > 0 && g.chance(8) {
		parts = append(parts, fmt.Sprintf("%s%d", g.oneOf("$", "#arg"), 1+g.Intn(nArgs)))
	}
	if nArgs > 0 && g.chance(16) {
		parts = []string{"?", parts[0]}
	}
	if g.faults && g.chance(g.faultRate) {
		g.injected++
		parts = append(parts, g.oneOf("#f99", "#nope", "#nope1", "$77", "#arg0", "#f('x')", "#join('#f'", "#", "$", "?", "#arg()"))
	}
	if g.chance(30) { // many of them
		for n := g.Intn(14); n > 0; n-- {
			parts = append(parts, parts[g.Intn(len(parts))])
		}
	}
	g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for i, p := range parts {
		if i > 0 || g.chance(3) {
			if g.chance(2) {
				tmpl.WriteString(g.oneOf("=", " ", ":", "::", " AS ", "(", ")", "'x'", "\"#f1\"", "é", "\n"))
			}
		}
		tmpl.WriteString(p)
	}
	if g.chance(4) {
		tmpl.WriteString(g.oneOf(")", " ", " DESC", "'#f'", "$$", "é", "\xff", "\x80", " ", "日"))
	}
	sep := g.oneOf(", ", ",", " AND ", "", " ", "'", "?", "$1", "#f", "\n", "é", "\x00", "::", "' , '", "\xff")
	if g.chance(8) {
		sep = g.escape()
	}
	if g.chance(20) {
		sep = strings.Repeat(sep+g.oneOf(",", " OR ", "é"), 1+g.Intn(80))
	}
	s := "#join(" + quoteArg(tmpl.String()) + g.oneOf(",", ", ", " , ") + quoteArg(sep)
	n := nArgs
	if !useArg || useKid && nKids < nArgs {
		n = nKids
	}
	if !useArg && !useKid {
		n = 3
	}
	if n > 0 && g.chance(4) {
		from := 1 + g.Intn(n)
		s += fmt.Sprintf(", %d", from)
		if g.chance(2) {
			to := from + g.Intn(n-from+1)
			if g.faults && g.chance(g.faultRate) {
				g.injected++
				to = n + 1 + g.Intn(3)
			}
			s += fmt.Sprintf(",%d", to)
		}
	} else if g.faults && g.chance(g.faultRate*4) {
		g.injected++
		s += g.oneOf(fmt.Sprintf(",%d", n+1), ",'x'", ",1,2,3", ",3,2", ",true", ",null", ",1.5", fmt.Sprintf(",1,%d", n+1))
	}
	return s + ")"
}

func (g *gen) size(max int) int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return max
	}
	return g.Intn(max + 1)
}

// frag generates a fragment.
func (g *gen) frag(depth int) *mNode {
	g.budget--
	n := &mNode{}
	max := g.maxArgs
	if max == 0 {
		max = 6
	}
	for i := g.size(max); i > 0; i-- {
		n.Args = append(n.Args, g.value())
	}
	if depth > 0 && g.budget > 0 {
		max := 4
		if g.maxKids > 0 {
			max = g.maxKids
		}
		for i := g.size(max); i > 0 && g.budget > 0; i-- {
			n.Kids = append(n.Kids, g.builder(depth-1))
		}
	}
	n.Raw = g.raw(len(n.Args), len(n.Kids))
	if g.chance(4) {
		n.Prefix = g.affix()
	}
	if g.chance(4) {
		n.Suffix = g.affix()
	}
	if !g.noShare {
		g.nodes = append(g.nodes, n)
	}
	return n
}

func (g *gen) affix() string {
	if g.clean {
		return g.oneOf("WHERE", "SELECT", "FOR UPDATE", "(")
	}
	if g.long > 0 && g.chance(2) {
		return strings.Repeat(g.oneOf("WHERE ", "#f1", "'", "?é", "x"), 1+g.Intn(3*g.long))
	}
	return g.oneOf("WHERE", "SELECT", "ORDER BY", "#f1", "?", "$1", "'", " ", "\n", "é", "\xff", "#join('#f', ',')", "??", "\u00a0x\u00a0", g.escape())
}

// raw generates a raw text that uses all of nArgs args and nKids fragments.
func (g *gen) raw(nArgs, nKids int) string {
	var pieces []string
	dollar := g.chance(2)
	// which args are used by '?', in order
	nQuestion := 0
	if !dollar {
		nQuestion = g.Intn(nArgs + 1)
		if g.chance(2) {
			nQuestion = nArgs
		}
	}
	used := make([]bool, nArgs+1)
	usedK := make([]bool, nKids+1)
	for i := 0; i < nQuestion; i++ {
		pieces = append(pieces, "?")
		used[i+1] = true
	}
	if nArgs > 0 && g.chance(3) {
		pieces = append(pieces, g.join(true, nKids > 0 && g.chance(2) && nKids >= nArgs, nArgs, nKids))
		if !strings.Contains(pieces[len(pieces)-1], "),") { // covers unless a range was given
			for i := range used {
				used[i] = used[i] || g.Intn(4) > 0
			}
		}
	}
	if nKids > 0 && g.chance(3) {
		pieces = append(pieces, g.join(nArgs >= nKids && g.chance(2), true, nArgs, nKids))
		for i := range usedK {
			usedK[i] = usedK[i] || g.Intn(4) > 0
		}
	}
	if len(g.custom) > 0 && g.chance(3) {
		pieces = append(pieces, g.customCall())
	}
	skip := func() bool {
		if g.faults && g.chance(g.faultRate*2) {
			g.injected++
			return true
		}
		return false
	}
	for i := 1; i <= nArgs; i++ {
		for !used[i] || g.chance(8) {
			used[i] = true
			if !skip() {
				pieces = append(pieces, g.argRef(i, dollar))
			}
		}
	}
	for i := 1; i <= nKids; i++ {
		for !usedK[i] || g.chance(8) {
			usedK[i] = true
			if !skip() {
				pieces = append(pieces, g.kidRef(i))
			}
		}
	}
	for g.faults && g.chance(g.faultRate/2+2) {
		g.injected++
		pieces = append(pieces, g.fault(nArgs, nKids))
	}
	g.Shuffle(len(pieces), func(i, j int) { pieces[i], pieces[j] = pieces[j], pieces[i] })
	b := new(strings.Builder)
	for _, p := range pieces {
		if g.Intn(3) > 0 {
			b.WriteString(g.text())
		}
		// a preceding odd $ or ? would merge with the reference
		s := b.String()
		if len(s) > 0 && (p[0] == '?' || p[0] == '$') && s[len(s)-1] == p[0] {
			b.WriteString(" ")
		}
		// a function call with an index must not be continued by digits
		b.WriteString(p)
		b.WriteString(g.oneOf("", " ", ",", " "))
	}
	if g.Intn(3) > 0 {
		b.WriteString(g.text())
	}
	if len(pieces) == 0 && g.chance(2) {
		return g.oneOf("", " ", "\n\t", "\u00a0")
	}
	return b.String()
}

func (g *gen) customCall() string {
	name := g.custom[g.Intn(len(g.custom))]
	return fmt.Sprintf("#%s%d", name, 1+g.Intn(3))
}

// fault generates a piece with (probably) a fault.
func (g *gen) fault(nArgs, nKids int) string {
	switch g.Intn(14) {
	case 0:
		return fmt.Sprintf("#f%d", nKids+1)
	case 1:
		return fmt.Sprintf("#arg%d", nArgs+1)
	case 2:
		return fmt.Sprintf("$%d", nArgs+1)
	case 3:
		return g.oneOf("#f0", "#arg0", "#f(-1)", "#fragment(0)", "$0", "$", "#", "#1")
	case 4:
		return g.oneOf("#nope", "#nope1", "#nope('x')", "#F1", "#Join('#f',',')", "#args1")
	case 5:
		return g.oneOf("#f", "#arg", "#join", "#fragment") + g.oneOf("", " ", ",")
	case 6:
		return g.oneOf("#f()", "#f(1,2)", "#f('1')", "#f(true)", "#f(null)", "#arg(1.5)", "#join('#f')", "#join()", "#join1", "#join('x', ',')", "#join(1, ',')", "#join('#f', 1)")
	case 7:
		return g.oneOf("#f(", "#f(1", "#f('1)", "#f(1,", "#f(,1)", "#f(1 2)", "#f(abc)", "#f(1))#")
	case 8:
		return "?1"
	case 9:
		return "$1 ?"
	case 10:
		return "? $1"
	case 11:
		return g.oneOf("#f99999999999999999999", "$99999999999999999999", "#arg(1e300)", "$9223372036854775807", "#f2147483648", "#f4294967297")
	case 12:
		return g.oneOf("#join('#f#nope', ',')", "#join('#f(1)', ',')", "#join('#join', ',')", "#join('#f', ',', 99)", "#join('#arg', ',', 1, 99)", "#join('?$1#f',',')", "#join('#f #', ',')")
	default:
		return g.oneOf("?", "#f1", "$1", "#arg1")
	}
}

// builder generates any kind of builder.
func (g *gen) builder(depth int) *mNode {
	if len(g.nodes) > 0 && !g.noShare && g.chance(6) {
		g.Feat("shared fragment")
		return g.nodes[g.Intn(len(g.nodes))]
	}
	switch g.Intn(14) {
	case 0:
		return &mNode{Kind: nNil, Name: g.oneOf("", "query")}
	case 1:
		return &mNode{Kind: nTable, Name: g.oneOf("foo", "t", "schema.tbl", "\"q?\"", "", "é")}
	case 2:
		return &mNode{Kind: nAliased, Name: g.oneOf("foo", "bar"), Alias: g.oneOf("", "b", "f")}
	case 3:
		return &mNode{Kind: nColumn, Name: g.oneOf("id", "*", "name", ""), Alias: g.oneOf("t", "foo", "")}
	case 4:
		return &mNode{Kind: nColumn, Anon: true, Name: g.oneOf("id", "*", "count(1)", ""), Alias: g.oneOf("t", "foo", "")}
	case 5:
		if depth > 0 && g.budget > 0 {
			return &mNode{Kind: nExprCol, Kids: []*mNode{g.frag(depth - 1)}}
		}
	case 6:
		n := &mNode{Kind: nCustom}
		for i := g.Intn(4); i > 0; i-- {
			if g.chance(2) {
				n.Segs = append(n.Segs, seg{bind: true, val: g.value()}, seg{text: g.oneOf(" ", ",", "::int")})
			} else {
				n.Segs = append(n.Segs, seg{text: g.oneOf("custom ", " #f1 ", "'?'", "\xff", " ")})
			}
		}
		if g.faults && g.chance(g.faultRate) {
			g.injected++
			n.Fail = errCustom
		}
		return n
	case 7:
		return &mNode{Raw: g.oneOf("", " ", "x", "  y  ")}
	}
	return g.frag(depth)
}
