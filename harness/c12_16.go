package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// buildQB builds a query builder in one of the ways there are.
func (t *T) buildQB(b *sqlb.QueryBuilder, style syntax.BindVarStyle) (q string, args []any, err error) {
	switch t.Intn(3) {
	case 0:
		return buildIn(b, style, nil)
	case 1:
		q, args, err = sqlf.Ff("#f1", b).BuildQuery(style)
		return q, args, err
	}
	return b.BuildQuery(style)
}

// compareBuild compares the outcome of a build with the reference.
func (t *T) compareBuild(when string, style syntax.BindVarStyle, segs []seg, merr *mErr, q string, args []any, err error) {
	t.Eval()
	if merr != nil {
		if err == nil {
			t.Failf("%s, %s style: the build must fail (%s), but it returned %q", when, styleName(style), merr, clip(q, 500))
		}
		if q != "" || args != nil {
			t.Failf("%s, %s style: the failed build returned %q %v", when, styleName(style), q, args)
		}
		return
	}
	if err != nil {
		t.Failf("%s, %s style: unexpected error: %v", when, styleName(style), err)
	}
	if d := matchBuild(style, segs, q, args); d != "" {
		t.Failf("%s, %s style: %s", when, styleName(style), d)
	}
}

func (t *T) modelQuery(q *mQuery) ([]seg, *mErr) {
	ev := &evaluator{feat: t.Feat}
	segs, merr := ev.query(q, builtinScope)
	return coalesce(segs), merr
}

// checkHistory replays the calls, with builds in between.
func (t *T) checkHistory(q *mQuery, between int) ([]seg, *mErr) {
	t.desc = func() string { return q.describe(0) }
	segs, merr := t.modelQuery(q)
	r := newRealizer(t.Rand)
	r.leave = between == 0 && t.Intn(3) == 0
	b := sqlb.NewQueryBuilder()
	done := 0
	for done < len(q.Ops) {
		n := len(q.Ops) - done
		if between > 0 && t.Intn(2) == 0 {
			n = 1 + t.Intn(n)
		}
		r.applyOps(b, q.Ops[done:done+n])
		done += n
		if done < len(q.Ops) && between > 0 {
			between--
			part := &mQuery{Ops: q.Ops[:done]}
			psegs, pmerr := t.modelQuery(part)
			style := styles[t.Intn(2)]
			s, args, err := t.buildQB(b, style)
			t.compareBuild(fmt.Sprintf("after %d of %d calls", done, len(q.Ops)), style, psegs, pmerr, s, args, err)
			t.Feat("build between calls")
		}
	}
	if len(r.late) > 0 {
		if t.Intn(3) == 0 {
			t.buildQB(b, styles[t.Intn(2)]) // whatever there is by now
		}
		r.flush()
		t.Feat("changed in use")
	}
	first := t.Intn(2)
	for i := 0; i < 2; i++ {
		style := styles[(first+i)%2]
		s, args, err := t.buildQB(b, style)
		t.compareBuild("at the end", style, segs, merr, s, args, err)
	}
	return segs, merr
}

func featQuery(t *T, q *mQuery, merr *mErr) {
	if merr != nil {
		t.Feat("query.error")
		return
	}
	t.Feat("query.ok")
	s := q.state()
	n := 0
	for _, ok := range []bool{len(s.ctes) > 0, s.distinct, len(s.joins) > 0, len(s.where) > 0, len(s.group) > 0, len(s.orders) > 0, s.limit > 0, s.offset > 0, len(s.unions) > 0} {
		if ok {
			n++
		}
	}
	t.Feat(fmt.Sprint("query.parts ", n))
}

func init() {
	register(&Check{
		ID:   "C12",
		Rule: "random call histories on query builders, with builds in between, compared clause by clause with a reference that replays the calls; non-trivial: the history builds and has at least three clauses besides SELECT and FROM; distinct by the described calls",
		Required: []string{"query.ok", "query.error", "query.parts 7", "query.parts 8", "build between calls", "join replaced", "join.kept", "join.omitted",
			"clause.WHERE", "clause.GROUP BY", "clause.ORDER BY", "clause.UNION", "union.empty", "cte.included", "cte.omitted", "cte.empty", "distinct.order", "sub-query", "shared column", "wide", "changed in use", "same condition again", "condition of join in where", "same union again"},
		Phases: []Phase{
			{Name: "histories", Quick: 30000, Thorough: 1500000, Run: c12Histories},
			{Name: "plain", Quick: 20000, Thorough: 600000, Run: c12Plain},
			{Name: "wide", Quick: 120, Thorough: 1200, Run: c12Wide},
		},
		Assumptions: []string{"an empty column in ORDER BY, the same CTE name declared twice and references to an empty table name are not judged"},
	})
	register(&Check{
		ID:   "C13",
		Rule: "random query builders whose args are unique values; every place for an arg carries the marker of its value; non-trivial: at least two args; distinct by the described calls",
		Required: []string{"query.ok", "marker", "marker.with", "marker.select", "marker.from", "marker.where", "marker.group", "marker.order", "marker.union",
			"join.omitted", "cte.omitted", "sub-query", "distinct.order"},
		Phases: []Phase{
			{Name: "markers", Quick: 20000, Thorough: 2000000, Run: c13Markers},
			{Name: "values", Quick: 15000, Thorough: 600000, Run: c13Values},
		},
	})
	register(&Check{
		ID:       "C14",
		Rule:     "all graphs of up to three joins (every combination of optional flags, references between ON clauses and of the other clauses, with and without DISTINCT) and random larger ones, compared with reachability; non-trivial: at least one optional join; distinct by graph",
		Required: []string{"omitted", "kept by select", "kept by where", "kept by group", "kept by order", "kept transitively", "no distinct", "query.ok", "join.omitted"},
		Phases: []Phase{
			{Name: "graphs of 3", Quick: 1 << 13, Thorough: 1 << 13, Exhaustive: true, Run: func(t *T, idx int) { c14Graph(t, 3, idx, true) }},
			{Name: "graphs of 4", Quick: 20000, Thorough: 1 << 21, Run: func(t *T, idx int) {
				if t.phase.Thorough == 1<<21 && idx >= 0 {
					c14Graph(t, 4, t.Intn(1<<21), false)
				}
			}},
			{Name: "large graphs", Quick: 4000, Thorough: 200000, Run: c14Large},
			{Name: "queries", Quick: 20000, Thorough: 1000000, Run: c14Queries},
		},
		Assumptions: []string{"references inside custom builders and sub-queries are opaque, as documented for LeftJoinOptional"},
	})
	register(&Check{
		ID:       "C15",
		Rule:     "all dependency graphs of up to three CTEs with every combination of the tables in use, and random larger ones, compared with reachability; non-trivial: at least one CTE is declared; distinct by graph",
		Required: []string{"included", "omitted", "cycle", "aliased", "transitive", "from is cte", "dropped join", "empty cte", "cte.included", "cte.omitted"},
		Phases: []Phase{
			{Name: "graphs of 3", Quick: 1 << 12, Thorough: 1 << 12, Exhaustive: true, Run: func(t *T, idx int) { c15Graph(t, 3, idx&511, idx>>9) }},
			{Name: "larger graphs", Quick: 15000, Thorough: 600000, Run: c15Large},
			{Name: "queries", Quick: 15000, Thorough: 600000, Run: c15Queries},
		},
		Assumptions: []string{"each CTE name is declared once"},
	})
	req := []string{"query.ok", "repeated build", "nested misuse"}
	for i := 0; i < misuseKinds; i++ {
		req = append(req, fmt.Sprint("misuse kind ", i))
	}
	register(&Check{
		ID:       "C16",
		Rule:     "random query builders with and without a misuse inserted at a random place of the call history, built repeatedly in both styles; non-trivial: the builder is misused; distinct by the described calls",
		Required: req,
		Phases: []Phase{
			{Name: "misuse", Quick: 40000, Thorough: 1500000, Run: c16Misuse},
			{Name: "sound", Quick: 20000, Thorough: 600000, Run: c16Sound},
			{Name: "names", Quick: 5000, Thorough: 5000, Run: c16Names},
		},
	})
}

func c12Histories(t *T, idx int) {
	g := newQGen(t)
	g.misuse = 12
	g.loose = t.Intn(4) == 0
	q := g.query(t.Intn(3))
	segs, merr := t.checkHistory(q, t.Intn(4))
	featQuery(t, q, merr)
	if merr == nil && len(segs) > 0 {
		s := q.state()
		if len(s.where)+len(s.group)+len(s.orders)+len(s.unions)+len(s.joins) > 2 {
			t.Key(q.describe(0))
		}
	}
	t.Sample(q.describe(0))
}

func c12Plain(t *T, idx int) {
	g := newQGen(t)
	g.plain = true
	q := g.query(1)
	_, merr := t.checkHistory(q, t.Intn(3))
	featQuery(t, q, merr)
	if merr == nil {
		t.Key(q.describe(0))
	}
}

// c12Wide makes very many calls.
func c12Wide(t *T, idx int) {
	n := append(append([]int{}, sizes...), 3000)[idx%(len(sizes)+1)]
	q := &mQuery{}
	pre, suf := t.affixes()
	tn := func(i int) string { return fmt.Sprint(pre, "t", i, suf) }
	add := func(o *mOp) { q.Ops = append(q.Ops, o) }
	add(&mOp{Kind: opFrom, Name: tn(0)})
	col := func(i int) *mNode {
		if t.Intn(4) == 0 {
			return &mNode{Kind: nExprCol, Kids: []*mNode{{Raw: "?", Args: []any{i}}}}
		}
		return &mNode{Kind: nColumn, Name: fmt.Sprint("c", i), Alias: tn(t.Intn(n + 1))}
	}
	several := func(i int, f func(int) *mNode) (l []*mNode) {
		k := 1
		if t.Intn(8) == 0 {
			k = t.Intn(40)
		}
		for ; k > 0; k-- {
			l = append(l, f(i))
			i += 1000
		}
		return l
	}
	one := t.Intn(2) == 0 // everything of one kind
	kind := t.Intn(8)
	sel := &mOp{Kind: opSelect, Cols: []*mNode{{Kind: nColumn, Name: "id", Alias: tn(0)}}}
	add(sel)
	for i := 1; i <= n; i++ {
		add(&mOp{Kind: opJoin, Text: "LEFT JOIN", Optional: i%2 == 0, Name: tn(i), Node: &mNode{Raw: "#f1", Kids: []*mNode{{Kind: nTable, Name: tn(i / 2)}}}})
	}
	for i := 0; i < n; i++ {
		if !one {
			kind = t.Intn(8)
		}
		switch kind {
		case 0:
			sel.Cols = append(sel.Cols, col(i))
		case 1:
			add(&mOp{Kind: opWhere, Node: wrapFrag(col(i))})
		case 2:
			add(&mOp{Kind: opGroupBy, Cols: several(i, col)})
		case 3:
			add(&mOp{Kind: opOrderBy, Cols: []*mNode{col(i)}, Order: uint(t.Intn(6))})
		case 4:
			add(&mOp{Kind: opUnion, Cols: several(i, func(i int) *mNode { return &mNode{Raw: "u ?", Args: []any{i}} })})
		case 5:
			add(&mOp{Kind: opWith, Text: tn(i), Node: &mNode{Raw: "w ?", Args: []any{i}}, Deps: []string{tn(i / 2)}})
		case 6:
			add(&mOp{Kind: opWhereIn, Cols: []*mNode{col(i)}, Arg: []int{i}})
		case 7:
			add(&mOp{Kind: opLimit, N: int64(i)})
		}
	}
	if t.Intn(2) == 0 {
		add(&mOp{Kind: opDistinct})
	}
	_, merr := t.checkHistory(q, 0)
	featQuery(t, q, merr)
	t.Feat("wide")
	t.Key(fmt.Sprint(n, one, kind, idx))
}

// ---------------------------------------------------------------- C13

var placeholderRE = regexp.MustCompile(`\$\d+`)

var markerRE = regexp.MustCompile(`\[(v\d+)\](\?|\$\d+)`)

func c13Markers(t *T, idx int) {
	g := newQGen(t)
	g.unique = 1
	q := g.query(t.Intn(3))
	segs, merr := t.checkHistory(q, t.Intn(3))
	featQuery(t, q, merr)
	if merr != nil {
		return
	}
	// without the reference: each marked placeholder has the arg it says
	b := newRealizer(t.Rand).query(q)
	for _, style := range styles {
		s, args, err := b.BuildQuery(style)
		if err != nil {
			t.Failf("unexpected error: %v", err)
		}
		if style == syntax.Question {
			if n := strings.Count(s, "?") - strings.Count(s, "'?'"); n != len(args) {
				t.Failf("question style: %d placeholders but %d args: %q", n, len(args), clip(s, 1000))
			}
		}
		count, last, k := 0, 0, 0
		for _, m := range markerRE.FindAllStringSubmatchIndex(s, -1) {
			want := s[m[2]:m[3]]
			n := 0
			if style == syntax.Question {
				k += strings.Count(s[last:m[5]], "?") - strings.Count(s[last:m[5]], "'?'")
				last, n = m[5], k
			} else {
				fmt.Sscan(s[m[4]+1:m[5]], &n)
			}
			if n < 1 || n > len(args) {
				t.Failf("%s style: placeholder %d of %d args: %q", styleName(style), n, len(args), clip(s, 1000))
			}
			if args[n-1] != want {
				t.Failf("%s style: the place of %s is bound to %v: %q", styleName(style), want, args[n-1], clip(s, 1000))
			}
			count++
		}
		t.FeatN("marker", count)
	}
	// where the markers were
	parts, merr := (&evaluator{}).queryParts(q, builtinScope)
	if merr == nil {
		names := []string{"with", "select", "from", "where", "group", "order", "limit", "offset", "union"}
		for i, c := range parts.clauses {
			for _, s := range c {
				if s.bind {
					t.Feat("marker." + names[i])
				}
			}
		}
	}
	if countBinds(segs) > 1 {
		t.Key(q.describe(0))
	}
	t.Sample(q.describe(0))
}

func c13Values(t *T, idx int) {
	g := newQGen(t)
	q := g.query(1 + t.Intn(2))
	segs, merr := t.checkHistory(q, t.Intn(3))
	featQuery(t, q, merr)
	if merr == nil && countBinds(segs) > 1 {
		t.Key(q.describe(0))
	}
}

// ---------------------------------------------------------------- C14

// c14Graph checks the graph of n joins with the number idx.
func c14Graph(t *T, n, idx int, exhaustive bool) {
	bit := func() bool { b := idx&1 == 1; idx >>= 1; return b }
	distinct := bit()
	optional := make([]bool, n)
	ref := make([]bool, n)
	edges := make([][]bool, n)
	for i := range optional {
		optional[i], ref[i] = bit(), bit()
		edges[i] = make([]bool, n)
		for j := range edges[i] {
			if i != j {
				edges[i][j] = bit()
			}
		}
	}
	c14Check(t, distinct, optional, ref, edges)
}

func c14Large(t *T, idx int) {
	n := 4 + t.Intn(12)
	if idx%50 == 0 {
		n = 64 + t.Intn(200)
	}
	distinct := t.Intn(4) > 0
	optional := make([]bool, n)
	ref := make([]bool, n)
	edges := make([][]bool, n)
	density := 1 + t.Intn(2*n)
	for i := range optional {
		optional[i], ref[i] = t.Intn(3) > 0, t.Intn(n) == 0
		edges[i] = make([]bool, n)
		for j := range edges[i] {
			edges[i][j] = i != j && t.Intn(density+1) == 0
		}
	}
	if idx%3 == 0 { // a chain, in some direction
		perm := t.Perm(n)
		for i := 1; i < n; i++ {
			edges[perm[i-1]][perm[i]] = true
		}
	}
	c14Check(t, distinct, optional, ref, edges)
}

func c14Check(t *T, distinct bool, optional, ref []bool, edges [][]bool) {
	n := len(optional)
	t.desc = func() string {
		return fmt.Sprintf("distinct %v optional %v referenced %v edges %v", distinct, optional, ref, edges)
	}
	// reachability
	kept := make([]bool, n)
	var visit func(i int)
	visit = func(i int) {
		if kept[i] {
			return
		}
		kept[i] = true
		for j := range edges[i] {
			if edges[i][j] {
				visit(j)
			}
		}
	}
	for i := range optional {
		if ref[i] || !optional[i] || !distinct {
			visit(i)
		}
	}
	b := sqlb.NewQueryBuilder()
	mode := t.Intn(3)
	pre, suf := t.affixes()
	jn := func(i int) string { return fmt.Sprint(pre, "j", i, suf) }
	names := make([]sqlb.TableAliased, n)
	for i := range names {
		switch mode {
		case 0:
			names[i] = sqlb.NewTableAliased(sqlb.Table(jn(i)), "")
		case 1:
			names[i] = sqlb.NewTableAliased("tbl", sqlb.Table(jn(i)))
		default: // aliases that are names of others
			names[i] = sqlb.NewTableAliased(sqlb.Table(jn((i+1)%n)), sqlb.Table(jn(i)))
		}
	}
	order := t.Perm(n)
	texts := make([]string, n)
	join := func(i int) {
		texts[i] = fmt.Sprintf(" ON m.id = %s.id", jn(i))
		on := sqlf.F("#join('#f', ' AND ')").WithFragments(sqlf.Ff("#f1 = #f2", sqlb.Table("m").Column("id"), names[i].Column("id")))
		for _, j := range t.Perm(n) {
			if !edges[i][j] {
				continue
			}
			switch t.Intn(4) {
			case 0:
				on.AppendFragments(names[j].Column("x"))
				texts[i] += fmt.Sprintf(" AND %s.x", jn(j))
			case 1:
				on.AppendFragments(sqlf.Ff("#f1.x", names[j]))
				texts[i] += fmt.Sprintf(" AND %s.x", jn(j))
			case 2:
				on.AppendFragments(sqlf.Ff("(#f1)", sqlf.Ff("#f1 > 1", names[j].AppliedName())))
				texts[i] += fmt.Sprintf(" AND (%s > 1)", jn(j))
			case 3:
				on.AppendFragments(sqlb.ExprColumn(sqlf.Ff("lower(#f1)", names[j].AnonymousColumn("y"))))
				texts[i] += " AND lower(y)"
			}
		}
		table := string(names[i].Name)
		if names[i].Alias != "" {
			table += " AS " + string(names[i].Alias)
		}
		kind := "LEFT"
		defer func() { texts[i] = " " + kind + " JOIN " + table + texts[i] }()
		if optional[i] {
			b.LeftJoinOptional(names[i], on)
			return
		}
		switch t.Intn(4) {
		case 0:
			b.LeftJoin(names[i], on)
		case 1:
			b.InnerJoin(names[i], on)
			kind = "INNER"
		case 2:
			b.RightJoin(names[i], on)
			kind = "RIGHT"
		default:
			b.FullJoin(names[i], on)
			kind = "FULL"
		}
	}
	m := sqlb.NewTableAliased("main", "m")
	sel := []*sqlb.Column{m.Column("id")}
	late := t.Intn(2) == 0
	if !late {
		b.From(m)
	}
	for _, i := range order {
		if t.Intn(8) == 0 { // replaced by the next
			b.LeftJoinOptional(names[i], sqlf.Ff("#f1", names[t.Intn(n)].Column("z")))
		}
		join(i)
	}
	if late {
		b.From(m)
	}
	for i := range ref {
		if !ref[i] {
			continue
		}
		if !distinct {
			t.Feat("no distinct")
		}
		c := names[i].Column("c")
		switch t.Intn(3) {
		case 0:
			c = sqlb.ExprColumn(sqlf.Ff("max(#f1)", c))
		case 1:
			c = names[i].AnonymousColumn("c")
		}
		switch t.Intn(6) {
		case 0:
			sel = append(sel, c)
			t.Feat("kept by select")
		case 1:
			b.Where(sqlf.Ff("#f1 > 0", c))
			t.Feat("kept by where")
		case 2:
			b.GroupBy(c)
			t.Feat("kept by group")
		case 3:
			b.OrderBy(c, sqlb.Order(t.Intn(6)))
			t.Feat("kept by order")
		case 4:
			b.Where2(c, "=", 1)
			t.Feat("kept by where")
		case 5:
			b.WhereIn(c, []int{1})
			t.Feat("kept by where")
		}
	}
	b.Select(sel...)
	if distinct {
		b.Distinct()
	}
	for k := 0; k < 2; k++ {
		s, _, err := b.BuildQuery(styles[t.Intn(2)])
		t.Eval()
		if err != nil {
			t.Failf("unexpected error: %v", err)
		}
		at := strings.Index(s, "FROM main AS m")
		if at < 0 {
			t.Failf("FROM table missing: %q", s)
		}
		pos := at
		clause := "FROM main AS m"
		for _, i := range order {
			if kept[i] {
				clause += texts[i]
			}
		}
		if rest := s[at:]; !strings.HasPrefix(rest, clause) || len(rest) > len(clause) && rest[len(clause)] != ' ' || strings.HasPrefix(rest[min(len(rest), len(clause)+1):], "AND ") {
			t.Failf("%s", diffText("FROM clause", clip(rest, len(clause)+100), clause))
		}
		for _, i := range order {
			text := fmt.Sprintf("%s ON m.id = %s.id", names[i].Name, jn(i))
			if names[i].Alias != "" {
				text = fmt.Sprintf("%s AS %s ON m.id = %s.id", names[i].Name, names[i].Alias, jn(i))
			}
			text = " JOIN " + text
			c := strings.Count(s, text)
			switch {
			case kept[i] && c != 1:
				t.Failf("join %d must be present once, found %d times: %q", i, c, clip(s, 2000))
			case !kept[i] && c != 0:
				t.Failf("join %d must be omitted: %q", i, clip(s, 2000))
			case kept[i]:
				p := strings.Index(s, text)
				if p < pos {
					t.Failf("join %d is out of order: %q", i, clip(s, 2000))
				}
				pos = p
				if distinct && optional[i] && !ref[i] {
					t.Feat("kept transitively")
				}
			default:
				t.Feat("omitted")
				// nothing of it is left
				if strings.Contains(s, jn(i)+".") {
					t.Failf("table of the omitted join %d is referenced: %q", i, clip(s, 2000))
				}
			}
		}
	}
	for _, o := range optional {
		if o {
			t.Key(t.desc())
			break
		}
	}
	if n < 9 {
		t.Sample(t.desc())
	}
}

func c14Queries(t *T, idx int) {
	g := newQGen(t)
	g.distinct, g.optional = 85, 75
	g.plain = t.Intn(2) == 0
	q := g.query(t.Intn(2))
	_, merr := t.checkHistory(q, t.Intn(3))
	featQuery(t, q, merr)
	if merr == nil && len(q.state().joins) > 0 {
		t.Key(q.describe(0))
	}
}

// ---------------------------------------------------------------- C15

func c15Graph(t *T, n, edgeBits, useBits int) {
	edges := make([][]bool, n)
	for i := range edges {
		edges[i] = make([]bool, n)
		for j := range edges[i] {
			edges[i][j] = edgeBits&1 == 1
			edgeBits >>= 1
		}
	}
	use := make([]int, n)
	for i := range use {
		if useBits>>i&1 == 1 {
			use[i] = 1 + t.Intn(3)
		} else if t.Intn(6) == 0 {
			use[i] = -1
		}
	}
	c15Check(t, edges, use)
}

func c15Large(t *T, idx int) {
	n := 1 + t.Intn(10)
	if idx%40 == 0 {
		n = 50 + t.Intn(200)
	}
	edges := make([][]bool, n)
	density := 1 + t.Intn(2*n)
	use := make([]int, n)
	for i := range edges {
		edges[i] = make([]bool, n)
		for j := range edges[i] {
			edges[i][j] = t.Intn(density+1) == 0
		}
		if t.Intn(n) < 2 {
			use[i] = -1 + t.Intn(6)
		}
	}
	if idx%3 == 0 { // a chain
		perm := t.Perm(n)
		for i := 1; i < n; i++ {
			edges[perm[i-1]][perm[i]] = true
		}
		if t.Intn(2) == 0 {
			edges[perm[n-1]][perm[0]] = true
		}
	}
	c15Check(t, edges, use)
}

// c15Check builds a query with the CTEs c0.. and the dependencies among them;
// use tells where the CTE is used: 0 not at all, -1 only by an optional join
// that gets omitted, 1 by a join, 2 by an aliased join, 3 by a kept optional
// join, 4 by FROM.
func c15Check(t *T, edges [][]bool, use []int) {
	n := len(edges)
	t.desc = func() string { return fmt.Sprintf("edges %v use %v", edges, use) }
	need := make([]bool, n)
	var visit func(i int)
	visit = func(i int) {
		if need[i] {
			t.Feat("cycle")
			return
		}
		need[i] = true
		for j, e := range edges[i] {
			if e {
				if use[j] <= 0 {
					t.Feat("transitive")
				}
				visit(j)
			}
		}
	}
	for i, u := range use {
		if u > 0 {
			visit(i)
		}
	}
	b := sqlb.NewQueryBuilder().Distinct()
	pre, suf := t.affixes()
	name := func(i int) sqlb.Table { return sqlb.Table(fmt.Sprint(pre, "c", i, suf)) }
	order := t.Perm(n)
	empty := make([]bool, n)
	bodies := make([]string, n)
	from := sqlb.NewTableAliased("main", "m")
	with := func() {
		for _, i := range order {
			var deps []sqlb.Table
			for _, j := range t.Perm(n) {
				if edges[i][j] {
					deps = append(deps, name(j))
				}
			}
			if t.Intn(4) == 0 {
				deps = append(deps, "unknown", "main", "m")
			}
			if t.Intn(8) == 0 && len(deps) > 0 {
				deps = append(deps, deps[0])
			}
			if t.Intn(10) == 0 {
				empty[i] = true
				b.With(name(i), []sqlf.FragmentBuilder{sqlf.F(" "), (*sqlf.Fragment)(nil), (*sqlb.QueryBuilder)(nil), sqlf.F("#join('#f','')").WithPrefix("x")}[t.Intn(4)], deps...)
				continue
			}
			body := sqlf.FragmentBuilder(sqlf.Fa(fmt.Sprintf("cte%d ?", i), fmt.Sprintf("arg%d", i)))
			bodies[i] = fmt.Sprintf("%s AS (cte%d ?)", name(i), i)
			if t.Intn(4) == 0 {
				bodies[i] = fmt.Sprintf("%s AS (SELECT cte%d ? FROM x)", name(i), i)
				body = sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("x", "")).Select(sqlb.ExprColumn(body.(*sqlf.Fragment)))
			}
			b.With(name(i), body, deps...)
		}
	}
	joins := func() {
		for i, u := range use {
			on := sqlf.F("1 = 1")
			a := sqlb.Table(fmt.Sprintf("a%d", i))
			switch u {
			case -1:
				b.LeftJoinOptional(sqlb.NewTableAliased(name(i), []sqlb.Table{"", a}[t.Intn(2)]), on)
				t.Feat("dropped join")
			case 1:
				b.InnerJoin(sqlb.NewTableAliased(name(i), ""), on)
			case 2:
				b.LeftJoin(sqlb.NewTableAliased(name(i), a), on)
				t.Feat("aliased")
			case 3:
				b.LeftJoinOptional(sqlb.NewTableAliased(name(i), a), on)
				b.Where(sqlf.Ff("#f1 IS NULL", a.Column("id")))
				t.Feat("aliased")
			case 4:
				if from.Name != "main" {
					b.CrossJoin(sqlb.NewTableAliased(name(i), a))
					break
				}
				from = sqlb.NewTableAliased(name(i), []sqlb.Table{"", a}[t.Intn(2)])
				t.Feat("from is cte")
			}
		}
	}
	if t.Intn(2) == 0 {
		with()
		joins()
	} else {
		joins()
		with()
	}
	b.From(from)
	b.Select(sqlb.ExprColumn(sqlf.F("1")))
	style := styles[t.Intn(2)]
	s, args, err := b.BuildQuery(style)
	t.Eval()
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	var with0 []string
	for _, i := range order {
		if need[i] && !empty[i] {
			with0 = append(with0, bodies[i])
		}
	}
	clause := strings.Join(with0, ", ") + " SELECT DISTINCT 1 FROM "
	if len(with0) > 0 {
		clause = "WITH " + clause
	} else {
		clause = clause[1:]
	}
	if got := placeholderRE.ReplaceAllString(s, "?"); len(got) < len(clause) || !strings.EqualFold(got[:4], clause[:4]) || got[4:len(clause)] != clause[4:] {
		t.Failf("%s", diffText("query", clip(got, len(clause)+100), clause))
	}
	pos, wantArgs := -1, []any{}
	for _, i := range order {
		head := fmt.Sprintf("%s AS (", name(i))
		c := strings.Count(s, head+"cte") + strings.Count(s, head+"SELECT")
		body := strings.Count(s, fmt.Sprintf("cte%d ", i))
		want := 0
		if need[i] && !empty[i] {
			want = 1
			wantArgs = append(wantArgs, fmt.Sprintf("arg%d", i))
			t.Feat("included")
		} else if !need[i] {
			t.Feat("omitted")
		} else {
			t.Feat("empty cte")
		}
		if c != want || body != want {
			t.Failf("CTE %d is present %d times (its body %d times), want %d: %q", i, c, body, want, clip(s, 2000))
		}
		if want == 1 {
			p := strings.Index(s, head)
			if p < pos {
				t.Failf("CTE %d is out of order: %q", i, clip(s, 2000))
			}
			pos = p
		}
	}
	if len(args) != len(wantArgs) {
		t.Failf("got args %v, want %v: %q", args, wantArgs, clip(s, 2000))
	}
	for i := range args {
		if args[i] != wantArgs[i] {
			t.Failf("got args %v, want %v: %q", args, wantArgs, clip(s, 2000))
		}
	}
	if hasWith := strings.Contains(strings.ToUpper(s), "WITH "); hasWith != (len(wantArgs) > 0) {
		t.Failf("WITH present: %v, CTEs: %d: %q", hasWith, len(wantArgs), clip(s, 2000))
	}
	t.Key(t.desc())
	if n < 9 {
		t.Sample(t.desc())
	}
}

func c15Queries(t *T, idx int) {
	g := newQGen(t)
	g.distinct = 70
	q := g.query(2)
	_, merr := t.checkHistory(q, t.Intn(3))
	featQuery(t, q, merr)
	if merr == nil && len(q.state().ctes) > 0 {
		t.Key(q.describe(0))
	}
}

// ---------------------------------------------------------------- C16

func c16Misuse(t *T, idx int) {
	g := newQGen(t)
	g.plain = t.Intn(2) == 0
	q := g.query(t.Intn(2))
	s := &qScope{}
	if st := q.state(); st.from != nil {
		s.tables = []string{st.from.applied()}
	} else {
		return
	}
	kind := idx % misuseKinds
	n := 1
	if t.Intn(8) == 0 {
		n = 2
	}
	for ; n > 0; n-- {
		g.misusedBy(q, s, kind)
		kind = t.Intn(misuseKinds)
	}
	segs, merr := t.modelQuery(q)
	t.desc = func() string { return q.describe(0) }
	_ = segs
	if merr == nil {
		// the misuse got replaced by a later call
		t.Feat("misuse undone")
		return
	}
	b := sqlb.NewQueryBuilder()
	r := newRealizer(t.Rand)
	r.applyOps(b, q.Ops)
	for k := 0; k < 3; k++ {
		style := styles[t.Intn(2)]
		s, args, err := t.buildQB(b, style)
		t.compareBuild(fmt.Sprintf("build %d", k+1), style, nil, merr, s, args, err)
		t.Feat("repeated build")
		switch t.Intn(6) {
		case 0: // as a part of other queries
			outer := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("o", "")).Select(sqlb.Table("o").Column("id"))
			switch t.Intn(4) {
			case 0:
				outer.Union(b)
			case 1:
				outer.With("o", b)
			case 2:
				outer.Where(sqlf.Ff("x IN (#f1)", b))
			case 3:
				outer.Select(sqlb.ExprColumn(sqlf.Ff("#join('#f', ',')", b)))
			}
			s, args, err := outer.BuildQuery(style)
			t.compareBuild("the outer query", style, nil, merr, s, args, err)
			t.Feat("nested misuse")
		case 1: // further calls do not hide it
			b.Limit(3).GroupBy(sqlb.Table(q.state().fromName()).Column("id"))
		case 2:
			b.Debug()
		}
	}
	t.Key(q.describe(0))
	t.Sample(q.describe(0))
}

func (s *mState) fromName() string {
	if s.from == nil {
		return "x"
	}
	return s.from.applied()
}

func c16Sound(t *T, idx int) {
	g := newQGen(t)
	g.loose = t.Intn(3) == 0
	q := g.query(t.Intn(3))
	_, merr := t.checkHistory(q, 1)
	featQuery(t, q, merr)
	t.Key(q.describe(0))
}

// c16Names makes short histories of FROM and joins over few names.
func c16Names(t *T, idx int) {
	names := []string{"a", "b", ""}
	q := &mQuery{Ops: []*mOp{{Kind: opSelect, Cols: []*mNode{{Kind: nExprCol, Kids: []*mNode{{Raw: "1"}}}}}}}
	n := 1 + t.Intn(5)
	for i := 0; i < n; i++ {
		o := &mOp{Kind: opFrom, Name: names[t.Intn(2)], Alias: names[t.Intn(3)]}
		if t.Intn(20) == 0 {
			o.Name = ""
		}
		if t.Intn(2) == 0 {
			o.Kind, o.Text = opJoin, joinTypes[t.Intn(5)]
			o.Optional = o.Text == "LEFT JOIN" && t.Intn(2) == 0
		}
		q.Ops = append(q.Ops, o)
		if t.Intn(4) == 0 {
			q.Ops = append(q.Ops, &mOp{Kind: opWhere, Node: &mNode{Raw: "#f1", Kids: []*mNode{{Kind: nColumn, Name: "id", Alias: names[t.Intn(2)]}}}})
		}
		if t.Intn(6) == 0 {
			q.Ops = append(q.Ops, &mOp{Kind: opDistinct})
		}
	}
	_, merr := t.checkHistory(q, 2)
	featQuery(t, q, merr)
	t.Key(q.describe(0))
}
