package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	register(&Check{
		ID: "C08",
		Rule: "many goroutines start at once to build fresh shared fragments, columns and query builders (in both styles, with custom functions, as parts of goroutine-local fragments and builders), parse shared texts, interpolate, flatten, scan and count, under the race detector; each result is compared with that of a lone run on an identical object, and builds afterwards with the reference; " +
			"non-trivial: two goroutines work on one object; distinct by the described objects",
		Required: []string{"fragment", "query builder", "column", "custom functions", "in local fragment", "in local builder", "parse", "interpolate", "flatten", "scan", "count",
			"failing build", "overlapping", "overlapping with yields", "same task overlapping", "user code", "join", "distinct", "cte", "union", "debug", "shared args", "wide", "deep", "compared with the reference"},
		Phases: []Phase{
			{Name: "mixed", Quick: 1200, Thorough: 60000, Serial: true, Run: c08Mixed},
			{Name: "one object", Quick: 1200, Thorough: 60000, Serial: true, Run: c08One},
		},
		Assumptions: []string{"the race detector sees the accesses of the schedules that occurred", "properties shared through custom functions belong to one goroutine", "each build has its own context"},
	})
}

// c08Task is something to do concurrently. It returns a description of the result.
type c08Task struct {
	name string
	run  func(rng func(int) int) string
}

func descOutcome(q string, args []any, err error) string {
	if err != nil {
		return fmt.Sprintf("failed with %q %d", q, len(args))
	}
	return fmt.Sprintf("%q %s", q, descArgList(args))
}

// descArgList describes args including their identity.
func descArgList(args []any) string {
	s := ""
	for _, a := range args {
		v := reflect.ValueOf(a)
		switch v.Kind() {
		case reflect.Func, reflect.Chan, reflect.Map, reflect.Pointer, reflect.UnsafePointer:
			s += fmt.Sprintf("%T@%x;", a, v.Pointer())
		case reflect.Slice:
			s += fmt.Sprintf("%T@%x+%d;", a, v.Pointer(), v.Len())
		default:
			s += fmt.Sprintf("%T(%v);", a, a)
		}
	}
	return s
}

// c08Nodes generates what is shared.
func c08Nodes(t *T) (nodes []*mNode, scope *mScope, scopeFor func() *mScope) {
	g := newGen(t)
	g.faults = t.Intn(3) == 0
	g.faultRate = 15
	// shared properties may not be used concurrently: no garg, gfrag
	g.custom = []string{"num", "odd"}
	for i := 1 + t.Intn(3); i > 0; i-- {
		g.budget = 15
		n := g.frag(t.Intn(4))
		// a text that was never seen before
		n.Raw += fmt.Sprintf(" /* %d %d */", t.idx, t.Int63())
		nodes = append(nodes, n)
	}
	if t.Intn(6) == 0 { // wide or deep
		w := &mNode{Raw: fmt.Sprintf("/* %d */ ", t.Int63())}
		for i := []int{65, 100, 129, 257, 300}[t.Intn(5)]; i > 0; i-- {
			w.Args = append(w.Args, g.value())
			w.Kids = append(w.Kids, &mNode{Kind: nTable, Name: fmt.Sprint("k", i)})
		}
		switch t.Intn(3) {
		case 0:
			w.Raw += "#join('#arg', ', ') #join('#f', ' AND ')"
		case 1:
			w.Raw += strings.Repeat("?, ", len(w.Args)) + "#join('#f', ' AND ')"
		case 2:
			for i := range w.Args {
				w.Raw += fmt.Sprintf("$%d=#f%d ", i+1, i+1)
			}
		}
		nodes = append(nodes, w)
		t.Feat("wide")
	}
	if t.Intn(12) == 0 {
		d := &mNode{Raw: fmt.Sprintf("? /* %d */ ", t.Int63()), Args: []any{1}}
		for i := []int{20, 33, 65, 129}[t.Intn(4)]; i > 0; i-- {
			d = &mNode{Raw: g.oneOf("#f1 ?", "#join('(#f #arg)', '')"), Args: []any{i % 5}, Kids: []*mNode{d}}
		}
		nodes = append(nodes, d)
		t.Feat("deep")
	}
	if t.Intn(2) == 0 { // much code of the user's between args
		funcs := t.Intn(2) == 0
		d := &mNode{Raw: fmt.Sprintf("/* %d */ ", t.Int63())}
		for i := 2 + t.Intn(5); i > 0; i-- {
			if funcs {
				d.Raw += g.oneOf("#num1 ", "#odd1 ? #odd3 ", "#join('#f=#num', ',') ", "#val('x', 1.5, true) ", "#join('#f #odd', '~') ")
			}
			d.Raw += g.oneOf("#f1 ? ", "? #f2 ", "#f3 ? #f1 ", "#join('#f=#arg', ',') ")
		}
		d.Raw += "#f1 #f2 #f3 #join('#arg', '')"
		for i := 2 + t.Intn(2); i > 0; i-- {
			d.Args = append(d.Args, g.value())
		}
		for i := 0; i < 3; i++ {
			d.Kids = append(d.Kids, &mNode{Kind: nCustom, Segs: []seg{{text: fmt.Sprint("k", i, " ")}, {bind: true, val: fmt.Sprint("a", t.Int63())}, {text: " "}, {bind: true, val: t.Intn(3)}}})
		}
		nodes = append(nodes, d)
		t.Feat("user code")
	}
	q := newQGen(t)
	q.misuse = 12
	for i := 1 + t.Intn(2); i > 0; i-- {
		q.budget = 25
		q.nodes = g.nodes
		n := &mNode{Kind: nQuery, Query: q.query(t.Intn(3))}
		if t.Intn(8) == 0 {
			n.Query.Ops = append(n.Query.Ops, &mOp{Kind: opDebug})
		}
		nodes = append(nodes, n)
	}
	for _, s := range q.shared {
		if t.Intn(4) == 0 {
			nodes = append(nodes, s)
		}
	}
	return nodes, nil, func() *mScope { return standardFuncs(builtinScope, []any{1}, nil) }
}

// c08Tasks makes the tasks on the objects of r.
func c08Tasks(t *T, nodes []*mNode, r *realizer, texts []string, values []any, scan *sql.DB) []c08Task {
	var tasks []c08Task
	add := func(name string, f func(rng func(int) int) string) {
		tasks = append(tasks, c08Task{name, f})
	}
	scope := standardFuncs(builtinScope, []any{1}, nil)
	funcs := sqlf.FuncMap{}
	for name, f := range scope.funcs {
		if name != "garg" && name != "gfrag" {
			funcs[name] = f.Construct
		}
	}
	for _, n := range nodes {
		n := n
		b := r.builder(n)
		kind := map[nodeKind]string{nFrag: "fragment", nQuery: "query builder", nColumn: "column", nExprCol: "column"}[n.Kind]
		for _, style := range styles {
			style := style
			add(kind, func(func(int) int) string {
				if q, ok := b.(sqlf.QueryBuilder); ok {
					return descOutcome(q.BuildQuery(style))
				}
				ctx := sqlf.NewContext(style)
				q, err := b.BuildFragment(ctx)
				return descOutcome(q, ctx.Args(), err)
			})
			add("custom functions", func(func(int) int) string {
				ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), funcs)
				if err != nil {
					return err.Error()
				}
				q, err := b.BuildFragment(ctx)
				return descOutcome(q, ctx.Args(), err)
			})
			add("in local fragment", func(func(int) int) string {
				return descOutcome(sqlf.Ff("#join('#f', ' ~ ') ?", b, b).WithArgs(style).WithPrefix("P").BuildQuery(style))
			})
			add("in local builder", func(func(int) int) string {
				t := sqlb.NewTableAliased("t", "")
				q := sqlb.NewQueryBuilder().From(t).Select(t.Column("id")).Distinct().
					Where(sqlf.Ff("x IN (#f1)", b)).With("t", b).Union(b)
				if c, ok := b.(*sqlb.Column); ok {
					q = sqlb.NewQueryBuilder().From(t).Select(c).OrderBy(c, sqlb.Desc).GroupBy(c).WhereIn(c, values)
				}
				if f, ok := b.(*sqlf.Fragment); ok {
					q.LeftJoin(sqlb.NewTableAliased("j", "x"), f).LeftJoinOptional(sqlb.NewTableAliased("k", ""), f).Where(f)
				}
				return descOutcome(q.BuildQuery(style))
			})
			if q, ok := b.(sqlf.QueryBuilder); ok && scan != nil {
				add("scan", func(func(int) int) string {
					l, err := util.ScanBuilder(scan, q, style, func() (*int64, []any) { v := new(int64); return v, []any{v} })
					s := fmt.Sprint(err != nil, len(l))
					for _, v := range l {
						s += fmt.Sprint(" ", *v)
					}
					return s
				})
				add("count", func(func(int) int) string {
					c, err := util.CountBuilder(scan, q, style)
					return fmt.Sprint(err != nil, c)
				})
			}
		}
	}
	for _, s := range texts {
		s := s
		add("parse", func(func(int) int) string {
			c, err := syntax.Parse(s)
			if err != nil {
				return "failed"
			}
			r := ""
			for _, e := range c.ExprList {
				r += fmt.Sprintf("%T %+v @%d:%d;", e, exprFields(e), e.Pos().Line(), e.Pos().Col())
			}
			return r
		})
		add("interpolate", func(func(int) int) string {
			q, err := util.Interpolate(s, values, util.WithTimeFormat(time.RFC822Z))
			return descOutcome(q, nil, err)
		})
	}
	add("flatten", func(func(int) int) string {
		l := util.ArgsFlatted(values, []int{1, 2}, &values, "x")
		s := descArgList(l)
		for i := range l {
			l[i] = nil // the result belongs to the caller
		}
		return s
	})
	add("flatten", func(func(int) int) string {
		return descArgList(util.ArgsFlatted(values...)) + descArgList(util.Ttoa(texts))
	})
	return tasks
}

func exprFields(e syntax.Expr) string {
	switch e := e.(type) {
	case *syntax.PlainExpr:
		return e.Text
	case *syntax.BindVarExpr:
		return fmt.Sprint(e.Type, e.Index)
	case *syntax.FuncCallExpr:
		return fmt.Sprint(e.Name, e.Args)
	case *syntax.FuncExpr:
		return e.Name
	}
	return "?"
}

func c08Texts(t *T) (texts []string, values []any) {
	g := newGen(t)
	for i := 2 + t.Intn(3); i > 0; i-- {
		texts = append(texts, fmt.Sprintf("/* %d */ ", t.Int63())+g.raw(t.Intn(4), t.Intn(3)), fmt.Sprintf("%s ? %s ? %d", g.text(), g.text(), t.Int63()))
	}
	if t.Intn(8) == 0 {
		texts = append(texts, strings.Repeat(fmt.Sprintf("? %s $$ '%d' ", g.text(), t.Int63()), 20+t.Intn(100)))
	}
	n := 2 + t.Intn(4)
	if t.Intn(8) == 0 {
		n = 65 + t.Intn(300)
	}
	for i := n; i > 0; i-- {
		values = append(values, genValue(t.Rand, nil))
	}
	return
}

func newScanDB() *sql.DB {
	return sql.OpenDB(&fakeDB{cols: []string{"a", "b"}, rows: [][]driver.Value{{int64(1), "x"}, {int64(2), "y"}}})
}

func (t *T) featNodes(nodes []*mNode) {
	for _, n := range nodes {
		if n.Kind == nQuery {
			s := n.Query.state()
			if len(s.joins) > 0 {
				t.Feat("join")
			}
			if s.distinct {
				t.Feat("distinct")
			}
			if len(s.ctes) > 0 {
				t.Feat("cte")
			}
			if len(s.unions) > 0 {
				t.Feat("union")
			}
			for _, o := range n.Query.Ops {
				if o.Kind == opDebug {
					t.Feat("debug")
				}
			}
		}
		if len(n.Args) > 0 {
			t.Feat("shared args")
		}
	}
}

func c08Mixed(t *T, idx int) {
	nodes, _, _ := c08Nodes(t)
	texts, values := c08Texts(t)
	t.desc = func() string {
		s := ""
		for _, n := range nodes {
			s += describe(n)
		}
		return s + fmt.Sprintf("texts %q values %s", texts, descArgList(values))
	}
	t.featNodes(nodes)
	db1, db2 := newScanDB(), newScanDB()
	defer db1.Close()
	defer db2.Close()
	r := newRealizer(nil)
	tasks := c08Tasks(t, nodes, r, texts, values, db1)
	t.concurrently(tasks, 6+t.Intn(10), 4+t.Intn(8), func() []c08Task {
		return c08Tasks(t, nodes, newRealizer(nil), texts, values, db2)
	})
	t.Key(t.desc())
	t.Sample(t.desc())
	t.c08After(nodes, r)
}

// c08After compares builds of the objects with the reference: the lone builds
// could be wrong the same way, by what the goroutines left behind.
func (t *T) c08After(nodes []*mNode, r *realizer) {
	scope := standardFuncs(builtinScope, []any{1}, nil)
	delete(scope.funcs, "garg")
	delete(scope.funcs, "gfrag")
	for k := 0; k < 2; k++ {
		n, style := nodes[t.Intn(len(nodes))], styles[t.Intn(2)]
		segs, merr := t.evalModel(n, scope)
		q, args, err := buildIn(r.builder(n), style, scope)
		t.compareBuild("after "+describe(n), style, segs, merr, q, args, err)
		t.Feat("compared with the reference")
	}
}

// c08One has all goroutines do the very first build of the same object.
func c08One(t *T, idx int) {
	nodes, _, _ := c08Nodes(t)
	nodes = []*mNode{nodes[t.Intn(len(nodes))]}
	texts, values := c08Texts(t)
	texts = texts[:1]
	t.desc = func() string {
		return describe(nodes[0]) + fmt.Sprintf("texts %q values %s", texts, descArgList(values))
	}
	t.featNodes(nodes)
	r := newRealizer(nil)
	tasks := c08Tasks(t, nodes, r, texts, values, nil)
	t.concurrently(tasks, 4+t.Intn(12), 2+t.Intn(3), func() []c08Task {
		return c08Tasks(t, nodes, newRealizer(nil), texts, values, nil)
	})
	t.Key(t.desc())
	t.c08After(nodes, r)
}

// concurrently runs random tasks in goroutines, each doing several, and
// compares the results with those of other, identical tasks run alone
// afterwards.
func (t *T) concurrently(tasks []c08Task, goroutines, each int, lone func() []c08Task) {
	type done struct {
		task       int
		result     string
		start, end int64
	}
	results := make([][]done, goroutines)
	plan := make([][]int, goroutines)
	same := t.Intn(2) == 0
	first := t.Intn(len(tasks))
	for g := range plan {
		for k := 0; k < each; k++ {
			plan[g] = append(plan[g], t.Intn(len(tasks)))
		}
		if same { // all start with the same one
			plan[g][0] = first
		}
	}
	var ready, wg sync.WaitGroup
	yielding = t.Intn(3) != 0
	defer func() { yielding = false }()
	// not an atomic counter, which would order the goroutines, hiding races
	epoch := time.Now()
	clock := func() int64 { return int64(time.Since(epoch)) }
	gate := make(chan struct{})
	var panicked atomic.Value
	for g := range plan {
		ready.Add(1)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					panicked.Store(fmt.Sprintf("panic in goroutine: %v", r))
				}
			}()
			ready.Done()
			<-gate
			for _, k := range plan[g] {
				start := clock()
				res := tasks[k].run(nil)
				results[g] = append(results[g], done{k, res, start, clock()})
			}
		}(g)
	}
	ready.Wait()
	close(gate)
	wg.Wait()
	yielded := yielding
	yielding = false
	// how many tasks ran while another did
	for g, l := range results {
		for _, d := range l {
			for h, m := range results {
				for _, e := range m {
					if h != g && e.start < d.end && d.start < e.end {
						t.Feat("overlapping")
						if yielded {
							t.Feat("overlapping with yields")
						}
						if d.task == e.task {
							t.Feat("same task overlapping")
						}
					}
				}
			}
		}
	}
	if p := panicked.Load(); p != nil {
		t.Failf("%s", p)
	}
	want := map[int]string{}
	others := lone()
	for g, l := range results {
		for _, d := range l {
			t.Eval()
			w, ok := want[d.task]
			if !ok {
				w = others[d.task].run(nil)
				want[d.task] = w
			}
			if d.result != w {
				t.Failf("goroutine %d, %s (task %d):\n got  %s\n want %s", g, tasks[d.task].name, d.task, clip(d.result, 1500), clip(w, 1500))
			}
			t.Feat(tasks[d.task].name)
			if len(w) > 6 && w[:6] == "failed" {
				t.Feat("failing build")
			}
		}
	}
}
