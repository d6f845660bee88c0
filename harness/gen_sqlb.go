package main

import (
	"fmt"
	"reflect"
	"strings"
)

// qgen generates query builder histories.
type qgen struct {
	*gen
	misuse   int    // 1 in n queries is misused on purpose, 0: none
	distinct int    // percentage of queries with DISTINCT
	plain    bool   // no args in columns and no sub-queries
	unique   int    // > 0: args are unique values
	optional int    // percentage of joins that are optional left joins
	pre, suf string // of all names of tables
	loose    bool   // references to undefined tables where they are legal
	shared   []*mNode
}

func newQGen(t *T) *qgen {
	g := newGen(t)
	g.clean = !g.chance(6)
	if g.budget < 60 {
		g.budget = 60
	}
	g.usualArgs(2)
	q := &qgen{gen: g, distinct: 50, optional: 40}
	q.pre, q.suf = t.affixes()
	return q
}

// affixes generates a prefix and a suffix for names: names can be long, and
// differ in little.
func (t *T) affixes() (pre, suf string) {
	part := func() string {
		switch t.Intn(4) {
		case 0:
			return strings.Repeat([]string{"_", "x_", "tbl", "é", "T"}[t.Intn(5)], 1+t.Intn(12))
		case 1:
			return []string{"_of", "schema.tbl_", "_per_customer_and_region", "_a1", "日"}[t.Intn(5)]
		default:
			return "_" + strings.Repeat("n", 1+t.Intn(90))
		}
	}
	switch t.Intn(9) {
	case 0:
		pre = part()
	case 1:
		suf = part()
	case 2:
		pre, suf = part(), part()
	}
	return
}

var qTables = []string{"foo", "bar", "baz", "qux", "s.tbl", "Foo", "t1", "t10", "é", "\"q t\""}
var qAliases = []string{"a", "b", "c", "f", "foo2", "A", "x1", "bar"}

func (g *qgen) tableName(of []string) string {
	return g.pre + of[g.Intn(len(of))] + g.suf
}

type qScope struct {
	tables []string // applied names that can be referenced
}

func (g *qgen) argValue() any {
	if g.unique > 0 {
		g.unique++
		return fmt.Sprintf("v%d", g.unique)
	}
	return g.value()
}

func (g *qgen) tableRef(s *qScope) string {
	if g.loose && g.chance(12) {
		return "outer_t"
	}
	return s.tables[g.Intn(len(s.tables))]
}

// col generates a column.
func (g *qgen) col(s *qScope, depth int) *mNode {
	if len(g.shared) > 0 && g.chance(6) {
		n := g.shared[g.Intn(len(g.shared))]
		ok := n.Kind == nColumn || n.Kind == nExprCol
		refTables(n, func(t string) {
			if !contains(s.tables, t) {
				ok = false
			}
		})
		if ok {
			g.Feat("shared column")
			return n
		}
	}
	var n *mNode
	switch k := g.Intn(8); {
	case k == 0 && !g.plain:
		n = &mNode{Kind: nExprCol, Kids: []*mNode{g.cond(s, depth)}}
	case k == 1:
		n = &mNode{Kind: nExprCol, Kids: []*mNode{{Raw: g.oneOf("1", "now()", "count(*)", "'?'")}}}
	case k == 2:
		n = &mNode{Kind: nColumn, Anon: true, Name: g.colName("id", "count(1)", "*"), Alias: g.tableRef(s)}
	case k == 3:
		n = &mNode{Kind: nExprCol, Kids: []*mNode{{
			Raw: "COALESCE(#f1, #f2)", Kids: []*mNode{{Kind: nColumn, Name: "x", Alias: g.tableRef(s)}, {Kind: nColumn, Name: "y", Alias: g.tableRef(s)}},
		}}}
	case k == 4 && g.chance(3):
		n = &mNode{Kind: nColumn, Name: g.colName("1", "y"), Alias: ""}
	default:
		n = &mNode{Kind: nColumn, Name: g.colName("id", "name", "c1", "*", "name é", "日"), Alias: g.tableRef(s)}
	}
	g.shared = append(g.shared, n)
	return n
}

// colName picks a name of a column, from those given, or quoted, or long.
func (g *qgen) colName(of ...string) string {
	if g.plain || !g.chance(4) {
		return of[g.Intn(len(of))]
	}
	g.Feat("odd column name")
	switch g.Intn(5) {
	case 0: // quoted: the first byte is the last one
		q := g.oneOf("\"", "`", "'")
		in := g.oneOf("id", "a.b", "a b", "ORDER", "é", "", "?", "#c1")
		if g.unique > 0 && in == "?" { // the placeholders are counted
			in = "id"
		}
		return q + in + q
	case 1:
		return g.oneOf("[id]", "ana", "a", "AA", "x*", "é", "a.b", "a.*", ".a", " id ", "t0.id")
	case 2: // several columns, or an expression
		return g.oneOf("id, name", "id::text", "id AS x", "data->>'k'", "(c)", "NULL", "id -- x", "MAX")
	default:
		return strings.Repeat(g.oneOf("c", "_", "col_", "é", "日"), 2+g.Intn(40)) + g.oneOf("", "1", "z")
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tableNode refers to a table by value.
func (g *qgen) tableNode(s *qScope) *mNode {
	t := g.tableRef(s)
	if g.chance(2) {
		return &mNode{Kind: nTable, Name: t}
	}
	if g.chance(2) {
		return &mNode{Kind: nAliased, Name: "any", Alias: t}
	}
	return &mNode{Kind: nAliased, Name: t}
}

// cond generates a condition or expression.
func (g *qgen) cond(s *qScope, depth int) *mNode {
	g.budget--
	if g.plain {
		n := &mNode{Raw: "#f1 = #f2", Kids: []*mNode{{Kind: nColumn, Name: "id", Alias: g.tableRef(s)}, {Kind: nColumn, Name: "id", Alias: g.tableRef(s)}}}
		if g.chance(3) {
			n = &mNode{Raw: "(#f1)", Kids: []*mNode{n}}
		}
		if g.chance(4) {
			n = &mNode{Raw: "#f1.id > 0", Kids: []*mNode{g.tableNode(s)}}
		}
		return n
	}
	k := g.Intn(9)
	if depth <= 0 || g.budget <= 0 {
		k = g.Intn(5)
	}
	if g.unique > 0 && k != 6 {
		// marker in front of every arg
		g.unique++
		v := fmt.Sprintf("v%d", g.unique)
		c := &mNode{Kind: nColumn, Name: "m", Alias: g.tableRef(s)}
		switch k {
		case 0, 1:
			return &mNode{Raw: "#f1=[" + v + "]?", Kids: []*mNode{c}, Args: []any{v}}
		case 2:
			return &mNode{Raw: "[" + v + "]#arg1 < #f1", Kids: []*mNode{c}, Args: []any{v}}
		case 3:
			v2 := fmt.Sprintf("v%d", g.unique+1)
			g.unique++
			return &mNode{Raw: "([" + v2 + "]$2 OR [" + v + "]$1)", Args: []any{v, v2}}
		case 4, 5:
			return &mNode{Raw: "[" + v + "]?", Args: []any{v}}
		case 7:
			v2 := fmt.Sprintf("v%d", g.unique+1)
			g.unique++
			return &mNode{Raw: "(#join('#f', ' OR ') [" + v2 + "]$1)", Args: []any{v2}, Kids: []*mNode{
				g.cond(s, depth-1), {Raw: "[" + v + "]#join('#arg', '')", Args: []any{v}}, g.cond(s, depth-1)}}
		case 8:
			return &mNode{Raw: "(#f2 [" + v + "]? #f1)", Args: []any{v}, Kids: []*mNode{g.cond(s, depth-1), g.cond(s, depth-1)}}
		}
	}
	switch k {
	case 0:
		return &mNode{Raw: "#f1 = $1", Kids: []*mNode{g.col(s, 0)}, Args: []any{g.argValue()}}
	case 1:
		return &mNode{Raw: "#f1 BETWEEN ? AND ?", Kids: []*mNode{g.col(s, 0)}, Args: []any{g.argValue(), g.argValue()}}
	case 2:
		return &mNode{Raw: "#f1 = #f2", Kids: []*mNode{g.col(s, 0), g.col(s, 0)}}
	case 3:
		return &mNode{Raw: "#f1.id IS NULL", Kids: []*mNode{g.tableNode(s)}}
	case 4:
		n := &mNode{Raw: "#f1 IN (#join('#arg', ', '))", Kids: []*mNode{g.col(s, 0)}}
		for i := g.Intn(4); i >= 0; i-- {
			n.Args = append(n.Args, g.argValue())
		}
		return n
	case 5:
		return &mNode{Raw: g.oneOf("", " ", "#join('#f', ',')")}
	case 6:
		g.Feat("sub-query")
		return &mNode{Raw: g.oneOf("#f1 IN (#f2)", "(#f2) = #f1"), Kids: []*mNode{g.col(s, 0), {Kind: nQuery, Query: g.query(depth - 1)}}}
	case 7:
		n := &mNode{Raw: "#join('#f', ' OR ')", Prefix: "(", Suffix: ")"}
		for i := g.Intn(3); i >= 0; i-- {
			n.Kids = append(n.Kids, g.cond(s, depth-1))
		}
		return n
	default:
		f := g.frag(depth - 1)
		return f
	}
}

// list generates an argument of WhereIn.
func (g *qgen) list() any {
	if g.unique > 0 {
		n := g.Intn(4)
		l := []string{}
		for ; n >= 0; n-- {
			g.unique++
			l = append(l, fmt.Sprintf("v%d", g.unique))
		}
		return l
	}
	switch g.Intn(9) {
	case 0:
		return []int{g.Intn(3), g.Intn(3)}
	case 1:
		return []any{g.value(), g.value(), nil}
	case 2:
		return [2]string{"a", "b"}
	case 3:
		return &[]int64{1, 2, 3}
	case 4:
		return []string{}
	case 5:
		return g.Intn(9)
	case 6:
		return []namedString{"x"}
	case 7:
		return [][]byte{{1}, {2, 3}}
	default:
		return g.value()
	}
}

var joinTypes = []string{"LEFT JOIN", "INNER JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN"}

func (g *qgen) joinOp(name, alias string, s *qScope, depth int) *mOp {
	o := &mOp{Kind: opJoin, Text: joinTypes[g.Intn(len(joinTypes))], Name: name, Alias: alias}
	if g.Intn(100) < g.optional {
		o.Text, o.Optional = "LEFT JOIN", true
	}
	if o.Text != "CROSS JOIN" && !g.chance(10) {
		o.Node = g.cond(s, depth)
		if o.Node.Kind != nFrag {
			o.Node = wrapFrag(o.Node)
		}
	}
	return o
}

// many is a number below n, and now and then a much larger one.
func (g *qgen) many(n int) int {
	if g.chance(40) {
		return g.Intn(24)
	}
	return g.Intn(n)
}

// rows is an argument of Limit or Offset.
func (g *qgen) rows() int64 {
	switch g.Intn(4) {
	case 0:
		return int64(g.Intn(30))
	case 1:
		return g.Int63() >> g.Intn(63)
	}
	return []int64{0, -1, 1, 10, 20, 1 << 62, 1<<63 - 1, -1 << 63}[g.Intn(8)]
}

// query generates the calls on a builder.
func (g *qgen) query(depth int) *mQuery {
	g.budget -= 3
	s := &qScope{}
	// applied names
	used := map[string]bool{}
	type tab struct{ name, alias string }
	newTab := func() tab {
		for {
			t := tab{name: g.tableName(qTables)}
			if g.chance(2) {
				t.alias = g.tableName(qAliases)
			}
			a := t.alias
			if a == "" {
				a = t.name
			}
			if !used[a] {
				used[a] = true
				return t
			}
		}
	}
	applied := func(t tab) string {
		if t.alias != "" {
			return t.alias
		}
		return t.name
	}
	from := newTab()
	s.tables = append(s.tables, applied(from))
	var joins []tab
	nj := g.Intn(4)
	if g.chance(8) {
		nj = 4 + g.Intn(5)
	}
	for i := nj; i > 0; i-- {
		j := newTab()
		joins = append(joins, j)
		s.tables = append(s.tables, applied(j))
	}
	misuse := g.misuse > 0 && g.chance(g.misuse)
	var ops []*mOp
	add := func(o *mOp) { ops = append(ops, o) }
	if g.chance(6) { // a first FROM, which gets replaced
		t := newTab()
		add(&mOp{Kind: opFrom, Name: t.name, Alias: t.alias})
	}
	fromAt := len(ops)
	add(&mOp{Kind: opFrom, Name: from.name, Alias: from.alias})
	for _, j := range joins {
		add(g.joinOp(j.name, j.alias, s, depth))
		if g.chance(6) { // join again: replace
			again := j
			if j.alias != "" && g.chance(2) {
				again.name = g.tableName(qTables)
			}
			add(g.joinOp(again.name, again.alias, s, depth))
			g.Feat("join replaced")
		}
	}
	if g.chance(2) {
		g.Shuffle(len(ops)-fromAt-1, func(i, j int) {
			a, b := fromAt+1+i, fromAt+1+j
			ops[a], ops[b] = ops[b], ops[a]
		})
	}
	head := len(ops)
	selectOp := func() *mOp {
		o := &mOp{Kind: opSelect}
		for i := g.many(3); i >= 0; i-- {
			o.Cols = append(o.Cols, g.col(s, depth))
		}
		return o
	}
	if g.chance(5) {
		add(selectOp())
	}
	sel := selectOp()
	if g.chance(8) {
		add(&mOp{Kind: opSelect}) // no columns: nothing changes
	}
	if !misuse || !g.chance(6) {
		// one column at least that has text
		sel.Cols = append(sel.Cols, &mNode{Kind: nColumn, Name: "id", Alias: s.tables[g.Intn(len(s.tables))]})
		add(sel)
	}
	if g.Intn(100) < g.distinct {
		add(&mOp{Kind: opDistinct})
		for g.chance(6) { // it's distinct all the same
			add(&mOp{Kind: opDistinct})
		}
	}
	for i := g.many(4); i > 0; i-- {
		switch g.Intn(8) {
		case 0:
			if g.unique > 0 {
				break
			}
			add(&mOp{Kind: opWhere2, Cols: []*mNode{g.col(s, 0)}, Text: g.oneOf("=", " > ", " LIKE ", " <> "), Arg: g.argValue()})
		case 1:
			add(&mOp{Kind: opWhereIn, Cols: []*mNode{g.col(s, 0)}, Arg: g.list()})
		case 2:
			add(&mOp{Kind: opWhereNotIn, Cols: []*mNode{g.col(s, 0)}, Arg: g.list()})
		case 3:
			if g.chance(2) {
				add(&mOp{Kind: opWhere}) // nil
			}
		default:
			add(&mOp{Kind: opWhere, Node: wrapFrag(g.cond(s, depth))})
		}
	}
	for i := g.size(3); i > 0; i-- {
		o := &mOp{Kind: opGroupBy}
		for k := g.many(3); k > 0; k-- {
			o.Cols = append(o.Cols, g.col(s, depth))
		}
		add(o)
	}
	for i := g.many(4); i > 0; i-- {
		c := g.col(s, depth)
		if g.chance(3) {
			c = &mNode{Kind: nColumn, Name: "ord", Alias: g.tableRef(s)}
		}
		add(&mOp{Kind: opOrderBy, Cols: []*mNode{c}, Order: uint(g.Intn(6))})
	}
	for i := g.size(2); i > 0; i-- {
		add(&mOp{Kind: opLimit, N: g.rows()})
	}
	for i := g.size(2); i > 0; i-- {
		add(&mOp{Kind: opOffset, N: g.rows()})
	}
	if depth > 0 {
		for i := g.size(2); i > 0 && g.budget > 0; i-- {
			o := &mOp{Kind: opUnion}
			members := 1 + g.Intn(2)
			if n := g.many(1); n > 0 {
				members = n
			}
			for k := members; k > 0; k-- {
				c := g.Intn(5)
				if c > 1 && k > 2 && g.chance(2) {
					c = g.Intn(2)
				}
				switch c {
				case 0:
					o.Cols = append(o.Cols, &mNode{Kind: nNil, Name: g.oneOf("", "query")})
				case 1:
					o.Cols = append(o.Cols, g.cond(&qScope{tables: []string{"u"}}, 0))
				default:
					o.Cols = append(o.Cols, &mNode{Kind: nQuery, Query: g.query(depth - 1)})
				}
			}
			add(o)
		}
		if g.chance(2) {
			g.withOps(&ops, append([]string{from.name}, func() (l []string) {
				for _, j := range joins {
					l = append(l, j.name)
				}
				return
			}()...), depth)
		}
	}
	if g.chance(6) {
		add(&mOp{Kind: opDebug})
		for g.chance(6) {
			add(&mOp{Kind: opDebug})
		}
	}
	if g.unique == 0 && g.chance(5) {
		g.reuse(&ops)
	}
	// the calls may come in any order, but some are order-sensitive among
	// themselves, which the reference accounts for
	switch g.Intn(3) {
	case 0:
		g.Shuffle(len(ops)-head, func(i, j int) { ops[head+i], ops[head+j] = ops[head+j], ops[head+i] })
	case 1:
		g.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	}
	q := &mQuery{Ops: ops}
	if misuse {
		g.misused(q, s, depth)
	}
	return q
}

// reuse gives the same conditions, columns and queries to the builder again.
func (g *qgen) reuse(ops *[]*mOp) {
	var conds []*mOp
	for _, o := range *ops {
		if (o.Kind == opWhere || o.Kind == opJoin) && o.Node != nil && o.Node.Kind == nFrag {
			conds = append(conds, o)
		}
	}
	for _, o := range append([]*mOp{}, *ops...) {
		if !g.chance(3) {
			continue
		}
		switch o.Kind {
		case opWhere:
			if o.Node == nil {
				continue
			}
			g.Feat("same condition again")
			*ops = append(*ops, &mOp{Kind: opWhere, Node: o.Node})
		case opJoin:
			if o.Node == nil {
				continue
			}
			g.Feat("condition of join in where")
			if c := conds[g.Intn(len(conds))]; o.Node.Kind == nFrag && c.Kind == opJoin {
				*ops = append(*ops, &mOp{Kind: opWhere, Node: o.Node})
			}
		case opUnion:
			for _, c := range o.Cols {
				if c.Kind == nQuery {
					g.Feat("same union again")
				}
			}
			if g.chance(2) {
				o.Cols = append(o.Cols, o.Cols[g.Intn(len(o.Cols))])
			} else {
				*ops = append(*ops, &mOp{Kind: opUnion, Cols: o.Cols})
			}
		case opOrderBy, opGroupBy, opSelect:
			*ops = append(*ops, o)
		case opWhereIn, opWhereNotIn, opWhere2:
			*ops = append(*ops, o)
		case opLimit, opOffset:
			*ops = append(*ops, o)
		}
	}
}

func (g *qgen) withOps(ops *[]*mOp, tables []string, depth int) {
	names := append([]string{}, tables...)
	names = append(names, "cte1", "cte2", "cte3")
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	seen := map[string]bool{}
	n := 1 + g.Intn(4)
	var with []*mOp
	for _, name := range names {
		if len(with) == n {
			break
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		o := &mOp{Kind: opWith, Text: name}
		for k := g.Intn(3); k > 0; k-- {
			o.Deps = append(o.Deps, names[g.Intn(len(names))])
		}
		switch {
		case g.chance(8):
			o.Node = &mNode{Raw: g.oneOf("", " ")}
		case depth > 0 && g.chance(2):
			o.Node = &mNode{Kind: nQuery, Query: g.query(depth - 1)}
		default:
			o.Node = g.cond(&qScope{tables: []string{"c"}}, 0)
		}
		with = append(with, o)
	}
	*ops = append(*ops, with...)
}

const misuseKinds = 9

// misused inserts a misuse.
func (g *qgen) misused(q *mQuery, s *qScope, depth int) {
	g.misusedBy(q, s, g.Intn(misuseKinds))
}

func (g *qgen) misusedBy(q *mQuery, s *qScope, kind int) {
	insert := func(o *mOp) {
		i := g.Intn(len(q.Ops) + 1)
		q.Ops = append(q.Ops[:i:i], append([]*mOp{o}, q.Ops[i:]...)...)
	}
	remove := func(k opKind) {
		ops := []*mOp{}
		for _, o := range q.Ops {
			if o.Kind != k {
				ops = append(ops, o)
			}
		}
		q.Ops = ops
	}
	undef := &mNode{Kind: nColumn, Name: "id", Alias: "undefined_t"}
	switch kind {
	case 0:
		insert(&mOp{Kind: opFrom, Alias: g.oneOf("", "x")})
	case 1:
		insert(&mOp{Kind: opJoin, Text: joinTypes[g.Intn(5)], Alias: g.oneOf("", "x")})
	case 2:
		remove(opFrom)
	case 3:
		remove(opSelect)
	case 4:
		insert(&mOp{Kind: opOrderBy, Cols: []*mNode{{Kind: nColumn, Name: "id", Alias: s.tables[0]}}, Order: []uint{6, 7, 100, 1 << 62}[g.Intn(4)]})
	case 5: // join with the name of FROM: whichever comes second is wrong
		insert(&mOp{Kind: opJoin, Text: "INNER JOIN", Name: g.oneOf("foo", "new"), Alias: s.tables[0]})
	case 6:
		if g.chance(2) {
			undef = &mNode{Kind: nExprCol, Kids: []*mNode{{Raw: "f(#f1)", Kids: []*mNode{undef}}}}
		}
		switch g.Intn(4) {
		case 0:
			insert(&mOp{Kind: opOrderBy, Cols: []*mNode{undef}})
		case 1:
			insert(&mOp{Kind: opGroupBy, Cols: []*mNode{undef}})
		case 2:
			q.Ops = append(q.Ops, &mOp{Kind: opSelect, Cols: []*mNode{undef}})
		case 3:
			insert(&mOp{Kind: opWhere2, Cols: []*mNode{undef}, Text: "=", Arg: 1})
		}
	case 7:
		insert(&mOp{Kind: opWhere, Node: &mNode{Raw: "(#f1)", Kids: []*mNode{{Raw: "#f1.x", Kids: []*mNode{{Kind: nTable, Name: "undefined_t"}}}}}})
	case 8: // a needed join refers to an undefined table
		q.Ops = append(q.Ops,
			&mOp{Kind: opJoin, Text: "LEFT JOIN", Optional: g.chance(2), Name: "needed_t", Node: &mNode{Raw: "#f1", Kids: []*mNode{undef}}},
			&mOp{Kind: opWhere, Node: &mNode{Raw: "#f1", Kids: []*mNode{{Kind: nColumn, Name: "x", Alias: "needed_t"}}}})
	}
	g.Feat(fmt.Sprint("misuse kind ", kind))
}

// refFlatten is the reference of util.ArgsFlatted.
func refFlatten(values ...any) (r []any) {
	for _, v := range values {
		if v == nil {
			r = append(r, nil)
			continue
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Pointer && !rv.IsNil() {
			if k := rv.Elem().Kind(); k == reflect.Slice || k == reflect.Array {
				rv = rv.Elem()
			}
		}
		if k := rv.Kind(); k != reflect.Slice && k != reflect.Array {
			r = append(r, v)
			continue
		}
		for i := 0; i < rv.Len(); i++ {
			r = append(r, rv.Index(i).Interface())
		}
	}
	return r
}
