package main

// Reference semantics of the query builder: a history of calls is replayed on
// a plain record of what was requested, which is rendered clause by clause.

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
)

type opKind int

const (
	opSelect opKind = iota
	opDistinct
	opFrom
	opJoin // Text is the join type; LEFT JOIN with Optional
	opWhere
	opWhere2
	opWhereIn
	opWhereNotIn
	opGroupBy
	opOrderBy
	opLimit
	opOffset
	opUnion
	opWith
	opDebug
)

type mOp struct {
	Kind     opKind
	Text     string // join type, operator of Where2, name of the CTE
	Optional bool
	Name     string // table
	Alias    string
	Node     *mNode   // condition, CTE; nil: nil fragment
	Cols     []*mNode // columns, union members
	Order    uint
	N        int64
	Arg      any // of Where2, list of WhereIn
	Deps     []string
}

type mQuery struct{ Ops []*mOp }

type mJoin struct {
	op    *mOp
	isOn  bool
	index int
}

type mState struct {
	distinct bool
	from     *mOp
	joins    []*mOp
	sel      []*mNode
	where    []*mNode
	group    []*mNode
	orders   []*mOp
	limit    int64
	offset   int64
	unions   []*mNode
	ctes     []*mOp
	errs     []string
}

func (o *mOp) applied() string {
	if o.Alias != "" {
		return o.Alias
	}
	return o.Name
}

func (q *mQuery) state() *mState {
	s := &mState{}
	for _, o := range q.Ops {
		switch o.Kind {
		case opSelect:
			if len(o.Cols) > 0 {
				s.sel = o.Cols
			}
		case opDistinct:
			s.distinct = true
		case opFrom:
			if o.Name == "" {
				s.errs = append(s.errs, "empty FROM")
				continue
			}
			conflict := false
			for _, j := range s.joins {
				if j.applied() == o.applied() {
					conflict = true
				}
			}
			if conflict {
				s.errs = append(s.errs, "FROM uses the name of a join")
				continue
			}
			s.from = o
		case opJoin:
			if o.Name == "" {
				s.errs = append(s.errs, "empty join table")
				continue
			}
			if s.from != nil && s.from.applied() == o.applied() {
				s.errs = append(s.errs, "join uses the name of FROM")
				continue
			}
			replaced := false
			for i, j := range s.joins {
				if j.applied() == o.applied() {
					s.joins[i] = o
					replaced = true
				}
			}
			if !replaced {
				s.joins = append(s.joins, o)
			}
		case opWhere:
			if o.Node != nil {
				s.where = append(s.where, o.Node)
			}
		case opWhere2:
			s.where = append(s.where, &mNode{Raw: "#f1" + o.Text + "$1", Kids: o.Cols, Args: []any{o.Arg}})
		case opWhereIn, opWhereNotIn:
			in := "IN"
			if o.Kind == opWhereNotIn {
				in = "NOT IN"
			}
			s.where = append(s.where, &mNode{Raw: "#f1 " + in + " (#join('#arg', ', '))", Kids: o.Cols, Args: refFlatten(o.Arg)})
		case opGroupBy:
			s.group = append(s.group, o.Cols...)
		case opOrderBy:
			s.orders = append(s.orders, o)
		case opLimit:
			if o.N > 0 {
				s.limit = o.N
			}
		case opOffset:
			if o.N > 0 {
				s.offset = o.N
			}
		case opUnion:
			s.unions = append(s.unions, o.Cols...)
		case opWith:
			s.ctes = append(s.ctes, o)
		}
	}
	return s
}

// refTables lists the tables that a builder refers to by table and column values.
func refTables(n *mNode, add func(string)) {
	if n == nil {
		return
	}
	switch n.Kind {
	case nTable, nAliased:
		if n.applied() == "" {
			panic(unspecified{"empty table name"})
		}
		add(n.applied())
	case nColumn:
		if n.Alias != "" {
			add(n.Alias)
		}
	case nFrag, nExprCol:
		for _, k := range n.Kids {
			refTables(k, add)
		}
	}
}

// resolve returns which joins are kept (by index), or an error for a reference
// to an undefined table.
func (s *mState) resolve() (kept []bool, err *mErr) {
	joins := map[string]int{}
	for i, j := range s.joins {
		joins[j.applied()] = i
	}
	needed := map[string]bool{}
	var undefined string
	var visit func(t string, strict bool)
	visit = func(t string, strict bool) {
		if t == s.from.applied() {
			return
		}
		i, ok := joins[t]
		if !ok {
			if strict {
				undefined = t
			}
			return
		}
		key := t
		if strict {
			key = "strict " + t
		}
		if needed[key] {
			return
		}
		needed[key], needed[t] = true, true
		refTables(s.joins[i].Node, func(t string) { visit(t, strict) })
	}
	strict := func(t string) { visit(t, true) }
	for _, l := range [][]*mNode{s.sel, s.where, s.group} {
		for _, n := range l {
			refTables(n, strict)
		}
	}
	for _, o := range s.orders {
		refTables(o.Cols[0], strict)
	}
	if undefined != "" {
		return nil, errOther("undefined table %q", undefined)
	}
	for _, j := range s.joins {
		if !j.Optional {
			visit(j.applied(), false)
		}
	}
	kept = make([]bool, len(s.joins))
	for i, j := range s.joins {
		kept[i] = !s.distinct || !j.Optional || needed[j.applied()]
	}
	return kept, nil
}

// neededCTEs returns the names of the CTEs to include.
func (s *mState) neededCTEs(kept []bool) map[string]bool {
	decl := map[string]*mOp{}
	for _, c := range s.ctes {
		if decl[c.Text] != nil {
			panic(unspecified{"CTE declared twice"})
		}
		decl[c.Text] = c
	}
	need := map[string]bool{}
	var visit func(string)
	visit = func(n string) {
		c := decl[n]
		if c == nil || need[n] {
			return
		}
		need[n] = true
		for _, d := range c.Deps {
			visit(d)
		}
	}
	visit(s.from.Name)
	for i, j := range s.joins {
		if kept[i] {
			visit(j.Name)
		}
	}
	return need
}

func (ev *evaluator) list(nodes []*mNode, sep string, scope *mScope) (out []seg, err *mErr) {
	for _, n := range nodes {
		s, err := ev.eval(n, scope)
		if err != nil {
			return nil, err
		}
		s = coalesce(s)
		if len(s) == 0 {
			continue
		}
		if len(out) > 0 {
			out = append(out, seg{text: sep})
		}
		out = append(out, s...)
	}
	return trimSegs(out), nil
}

// qParts is a rendered query by clauses.
type qParts struct {
	state   *mState
	kept    []bool
	ctes    map[string]bool
	clauses [][]seg
	omitted int // CTEs and joins left out
}

func (ev *evaluator) query(q *mQuery, scope *mScope) ([]seg, *mErr) {
	p, err := ev.queryParts(q, scope)
	if err != nil {
		return nil, err
	}
	var out []seg
	for _, c := range p.clauses {
		if len(c) == 0 {
			continue
		}
		if len(out) > 0 {
			out = append(out, seg{text: " "})
		}
		out = append(out, c...)
	}
	return trimSegs(out), nil
}

func (ev *evaluator) queryParts(q *mQuery, scope *mScope) (*qParts, *mErr) {
	s := q.state()
	p := &qParts{state: s}
	if len(s.errs) > 0 {
		ev.f("misuse")
		return nil, errOther("misuse: %v", s.errs)
	}
	if s.from == nil {
		ev.f("misuse.nofrom")
		return nil, errOther("no FROM")
	}
	for _, o := range s.orders {
		if o.Order > uint(sqlb.DescNullsLast) {
			ev.f("misuse.order")
			return nil, errOther("invalid order")
		}
	}
	kept, err := s.resolve()
	if err != nil {
		ev.f("misuse.undefined")
		return nil, err
	}
	need := s.neededCTEs(kept)
	p.kept, p.ctes = kept, need
	add := func(c []seg) { p.clauses = append(p.clauses, c) }

	var with []seg
	for _, c := range s.ctes {
		if !need[c.Text] {
			p.omitted++
			ev.f("cte.omitted")
			continue
		}
		body, err := ev.eval(c.Node, scope)
		if err != nil {
			return nil, err
		}
		body = coalesce(body)
		if len(body) == 0 {
			ev.f("cte.empty")
			continue
		}
		if len(with) == 0 {
			with = append(with, seg{text: "With "})
		} else {
			with = append(with, seg{text: ", "})
		}
		with = append(with, seg{text: c.Text + " AS ("})
		with = append(with, body...)
		with = append(with, seg{text: ")"})
		ev.f("cte.included")
	}
	add(with)

	sel, err := ev.list(s.sel, ", ", scope)
	if err != nil {
		return nil, err
	}
	var orderItems [][]seg
	for _, o := range s.orders {
		c, err := ev.eval(o.Cols[0], scope)
		if err != nil {
			return nil, err
		}
		// the column is written in front of the order or alias
		c = trimLeft(coalesce(c))
		if len(c) == 0 {
			panic(unspecified{"empty column in ORDER BY"})
		}
		orderItems = append(orderItems, c)
	}
	if len(sel) == 0 {
		ev.f("misuse.noselect")
		return nil, errOther("no columns selected")
	}
	var head []seg
	if s.distinct {
		head = append(head, seg{text: "SELECT DISTINCT "})
	} else {
		head = append(head, seg{text: "SELECT "})
	}
	head = append(head, sel...)
	if s.distinct {
		for i, c := range orderItems {
			head = append(head, seg{text: ", "})
			head = append(head, c...)
			head = append(head, seg{text: fmt.Sprintf(" AS _order_%d", i+1)})
			ev.f("distinct.order")
		}
	}
	add(head)

	tableText := func(o *mOp) string {
		if o.Alias != "" {
			return o.Name + " AS " + o.Alias
		}
		return o.Name
	}
	from := text("FROM " + tableText(s.from))
	for i, j := range s.joins {
		if !kept[i] {
			p.omitted++
			ev.f("join.omitted")
			continue
		}
		ev.f("join.kept")
		from = append(from, seg{text: " " + j.Text + " " + tableText(j)})
		if j.Node == nil {
			continue
		}
		on, err := ev.eval(j.Node, scope)
		if err != nil {
			return nil, err
		}
		on = trimSegs(on)
		if len(on) == 0 {
			continue
		}
		from = append(from, seg{text: " ON "})
		from = append(from, on...)
	}
	add(coalesce(from))

	clause := func(prefix, sep string, nodes []*mNode) *mErr {
		l, err := ev.list(nodes, sep, scope)
		if err != nil {
			return err
		}
		if len(l) > 0 {
			l = append([]seg{{text: prefix + " "}}, l...)
			ev.f("clause." + prefix)
		}
		add(l)
		return nil
	}
	if err := clause("WHERE", " AND ", s.where); err != nil {
		return nil, err
	}
	if err := clause("GROUP BY", ", ", s.group); err != nil {
		return nil, err
	}
	var orders []seg
	for i, o := range s.orders {
		if i == 0 {
			orders = append(orders, seg{text: "ORDER BY "})
		} else {
			orders = append(orders, seg{text: ", "})
		}
		if s.distinct {
			orders = append(orders, seg{text: fmt.Sprintf("_order_%d", i+1)})
		} else {
			orders = append(orders, orderItems[i]...)
		}
		orders = append(orders, seg{text: " " + orderText[o.Order]})
		ev.f("clause.ORDER BY")
	}
	add(orders)
	if s.limit > 0 {
		add(text(fmt.Sprintf("LIMIT %d", s.limit)))
	} else {
		add(nil)
	}
	if s.offset > 0 {
		add(text(fmt.Sprintf("OFFSET %d", s.offset)))
	} else {
		add(nil)
	}
	var unions []seg
	for _, u := range s.unions {
		m, err := ev.eval(u, scope)
		if err != nil {
			return nil, err
		}
		m = coalesce(m)
		if len(m) == 0 {
			ev.f("union.empty")
			continue
		}
		if len(unions) > 0 {
			unions = append(unions, seg{text: " "})
		}
		unions = append(unions, seg{text: "UNION ("})
		unions = append(unions, m...)
		unions = append(unions, seg{text: ")"})
		ev.f("clause.UNION")
	}
	if len(unions) > 0 {
		// the query in front is trimmed on its own
		last := len(p.clauses) - 1
		for last >= 0 && len(p.clauses[last]) == 0 {
			last--
		}
		p.clauses[last] = trimRight(p.clauses[last])
	}
	add(unions)
	return p, nil
}

func trimLeft(s []seg) []seg {
	if len(s) > 0 && !s[0].bind {
		s = append([]seg{}, s...)
		s[0].text = strings.TrimLeft(s[0].text, spaces)
		if s[0].text == "" {
			s = s[1:]
		}
	}
	return s
}

func trimRight(s []seg) []seg {
	s = coalesce(s)
	if n := len(s); n > 0 && !s[n-1].bind {
		s[n-1].text = strings.TrimRight(s[n-1].text, spaces)
		if s[n-1].text == "" {
			s = s[:n-1]
		}
	}
	return s
}

var orderText = []string{
	"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST",
}

// apply replays the calls from..to on a real builder.
func (r *realizer) applyOps(b *sqlb.QueryBuilder, ops []*mOp) *sqlb.QueryBuilder {
	cols := func(nodes []*mNode) (c []*sqlb.Column) {
		for _, n := range nodes {
			c = append(c, r.column(n))
		}
		if !r.track {
			return c
		}
		return callerSlice(r, c, func(i int) *sqlb.Column { return sqlb.Table("sentinel").Column("sentinel") })
	}
	builders := func(nodes []*mNode) (c []sqlf.FragmentBuilder) {
		for _, n := range nodes {
			c = append(c, r.builder(n))
		}
		if !r.track {
			return c
		}
		return r.kidSlice(c)
	}
	frag := func(n *mNode) *sqlf.Fragment {
		if n == nil {
			return nil
		}
		return r.fragment(n)
	}
	for _, o := range ops {
		t := sqlb.NewTableAliased(sqlb.Table(o.Name), sqlb.Table(o.Alias))
		if r.pick(3) == 0 {
			t = sqlb.NewTableAliased(sqlb.Table(o.Name), "other").WithAlias(sqlb.Table(o.Alias))
		}
		cur := b // methods return what they are called on
		switch o.Kind {
		case opSelect:
			cur = b.Select(cols(o.Cols)...)
		case opDistinct:
			cur = b.Distinct()
		case opFrom:
			cur = b.From(t)
		case opJoin:
			on := frag(o.Node)
			switch {
			case o.Optional:
				cur = b.LeftJoinOptional(t, on)
			case o.Text == "LEFT JOIN":
				cur = b.LeftJoin(t, on)
			case o.Text == "INNER JOIN":
				cur = b.InnerJoin(t, on)
			case o.Text == "RIGHT JOIN":
				cur = b.RightJoin(t, on)
			case o.Text == "FULL JOIN":
				cur = b.FullJoin(t, on)
			case o.Text == "CROSS JOIN":
				cur = b.CrossJoin(t)
			}
		case opWhere:
			cur = b.Where(frag(o.Node))
		case opWhere2:
			cur = b.Where2(r.column(o.Cols[0]), o.Text, o.Arg)
		case opWhereIn:
			cur = b.WhereIn(r.column(o.Cols[0]), o.Arg)
		case opWhereNotIn:
			cur = b.WhereNotIn(r.column(o.Cols[0]), o.Arg)
		case opGroupBy:
			cur = b.GroupBy(cols(o.Cols)...)
		case opOrderBy:
			cur = b.OrderBy(r.column(o.Cols[0]), sqlb.Order(o.Order))
		case opLimit:
			cur = b.Limit(o.N)
		case opOffset:
			cur = b.Offset(o.N)
		case opUnion:
			cur = b.Union(builders(o.Cols)...)
		case opWith:
			deps := make([]sqlb.Table, len(o.Deps))
			for i, d := range o.Deps {
				deps[i] = sqlb.Table(d)
			}
			deps = callerSlice(r, deps, func(i int) sqlb.Table { return "sentinel" })
			cur = b.With(sqlb.Table(o.Text), r.builder(o.Node), deps...)
		case opDebug:
			b.Debug()
		}
		if r.pick(2) == 0 {
			b = cur
		}
	}
	return b
}

func (r *realizer) query(q *mQuery) *sqlb.QueryBuilder {
	b := sqlb.NewQueryBuilder()
	if r.leave && !r.track && r.pick(2) == 0 { // called on when it is in use
		n := r.pick(len(q.Ops) + 1)
		r.applyOps(b, q.Ops[:n])
		r.late = append(r.late, func() { r.applyOps(b, q.Ops[n:]) })
		return b
	}
	if last := r.applyOps(b, q.Ops); r.pick(2) == 0 {
		return last
	}
	return b
}

func (q *mQuery) describe(depth int) string {
	b := new(strings.Builder)
	ind := strings.Repeat("  ", depth)
	names := []string{"Select", "Distinct", "From", "Join", "Where", "Where2", "WhereIn", "WhereNotIn", "GroupBy", "OrderBy", "Limit", "Offset", "Union", "With", "Debug"}
	for i, o := range q.Ops {
		if i > 60 || b.Len() > 6000 {
			fmt.Fprintf(b, "%s...(%d calls)\n", ind, len(q.Ops))
			break
		}
		fmt.Fprintf(b, "%s.%s", ind, names[o.Kind])
		if o.Text != "" {
			fmt.Fprintf(b, " %q", o.Text)
		}
		if o.Optional {
			b.WriteString(" optional")
		}
		if o.Kind == opFrom || o.Kind == opJoin {
			fmt.Fprintf(b, " %s AS %q", o.Name, o.Alias)
		}
		switch o.Kind {
		case opLimit, opOffset:
			fmt.Fprintf(b, " %d", o.N)
		case opOrderBy:
			fmt.Fprintf(b, " order %d", o.Order)
		case opWhere2, opWhereIn, opWhereNotIn:
			fmt.Fprintf(b, " arg %s", descValue(o.Arg))
		case opWith:
			fmt.Fprintf(b, " deps %v", o.Deps)
		}
		b.WriteString("\n")
		seen := map[*mNode]bool{}
		for _, c := range o.Cols {
			describeTo(b, c, depth+2, seen)
		}
		if o.Node != nil {
			describeTo(b, o.Node, depth+2, seen)
		}
	}
	return b.String()
}
