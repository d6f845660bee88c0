package main

// C21: the cause of a failure is found in the error that is returned.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	req := []string{"build.failed", "build.deep", "not reached", "query.failed", "function", "function panics", "builder", "derived", "join", "invalid index", "invalid index in join", "valuer", "query builder in scan", "query builder in count", "wide", "deep"}
	for i := range causeNames {
		req = append(req, "cause "+causeNames[i])
	}
	for _, k := range []string{"connect", "prepare", "query", "next", "scanner"} {
		req = append(req, "db "+k)
	}
	for _, k := range c21Places {
		req = append(req, "place "+k)
	}
	register(&Check{
		ID:       "C21",
		Rule:     "one failing component of the user (builder, function, query builder, driver value, database) is put at a random place of a sound tree, query, arg list or scan, and the returned error is searched for exactly that failure; non-trivial: the component is reached and the call fails; distinct by the described case",
		Required: req,
		Phases: []Phase{
			{Name: "trees", Quick: 30000, Thorough: 1500000, Run: c21Trees},
			{Name: "queries", Quick: 15000, Thorough: 600000, Run: c21Queries},
			{Name: "indexes", Quick: 15000, Thorough: 600000, Run: c21Indexes},
			{Name: "wide", Quick: 1500, Thorough: 30000, Run: c21Wide},
			{Name: "values", Quick: 6000, Thorough: 200000, Run: c21Values},
			{Name: "database", Quick: 8000, Thorough: 300000, Run: c21Database},
		},
		Assumptions: []string{"an error belongs to a cause if errors.Is or errors.As finds the cause", "which of several failures is reported is not judged"},
	})
}

var c21Places = []string{"with", "select", "join", "where", "group", "order", "union"}

// typed errors
type causeStruct struct {
	id   int
	tags []string // not comparable
}

func (c causeStruct) Error() string { return fmt.Sprint("cause ", c.id) }

type causePointer struct{ id int }

func (c *causePointer) Error() string { return fmt.Sprint("cause ", c.id) }

type causeList struct{ errs []error }

func (c *causeList) Error() string   { return "several causes" }
func (c *causeList) Unwrap() []error { return c.errs }

type causeAs struct{ target *causePointer }

func (c causeAs) Error() string { return "as" }
func (c causeAs) As(t any) bool {
	p, ok := t.(**causePointer)
	if ok {
		*p = c.target
	}
	return ok
}

type causeIs struct{ is error }

func (c causeIs) Error() string        { return "" }
func (c causeIs) Is(target error) bool { return target == c.is }

var causeNames = []string{"plain", "pointer", "struct", "wrapped", "list", "as", "is", "io.EOF", "sql.ErrNoRows", "canceled", "wraps ErrInvalidIndex", "ErrInvalidIndex"}

// cause returns an error and a function which looks for it in another.
func (t *T) cause(kind int) (error, func(error) bool) {
	t.Feat("cause " + causeNames[kind])
	id := t.Intn(1000)
	var err error
	switch kind {
	case 0:
		err = errors.New("c")
	case 1:
		p := &causePointer{id}
		return p, func(e error) bool {
			var q *causePointer
			return errors.As(e, &q) && q == p
		}
	case 2:
		return causeStruct{id, []string{"x"}}, func(e error) bool {
			var q causeStruct
			return errors.As(e, &q) && q.id == id
		}
	case 3:
		err = errors.New("c")
		return fmt.Errorf("user: %w", fmt.Errorf("inner: %w", err)), func(e error) bool { return errors.Is(e, err) }
	case 4:
		err = errors.New("c")
		return &causeList{[]error{errors.New("d"), err}}, func(e error) bool { return errors.Is(e, err) }
	case 5:
		p := &causePointer{id}
		return causeAs{p}, func(e error) bool {
			var q *causePointer
			return errors.As(e, &q) && q == p
		}
	case 6:
		is := errors.New("c")
		return causeIs{is}, func(e error) bool { return errors.Is(e, is) }
	case 7:
		err = io.EOF
	case 8:
		err = sql.ErrNoRows
	case 9:
		err = context.Canceled
	case 10:
		err = fmt.Errorf("user: %w", sqlf.ErrInvalidIndex)
	case 11:
		err = sqlf.ErrInvalidIndex
	}
	return err, func(e error) bool { return errors.Is(e, err) }
}

func (t *T) anyCause() (error, func(error) bool) { return t.cause(t.Intn(len(causeNames))) }

// eachFrag visits all fragments that are reachable from n.
func eachFrag(n *mNode, place string, seen map[*mNode]bool, f func(n *mNode, place string)) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	if n.Kind == nFrag {
		f(n, place)
	}
	for _, k := range n.Kids {
		eachFrag(k, place, seen, f)
	}
	if n.Kind != nQuery {
		return
	}
	for _, o := range n.Query.Ops {
		place := map[opKind]string{opWith: "with", opSelect: "select", opJoin: "join", opWhere: "where", opWhere2: "where", opWhereIn: "where", opWhereNotIn: "where", opGroupBy: "group", opOrderBy: "order", opUnion: "union"}[o.Kind]
		eachFrag(o.Node, place, seen, f)
		for _, c := range o.Cols {
			eachFrag(c, place, seen, f)
		}
	}
}

// plant lets the fragment n fail with err when it is built.
func (t *T) plant(n *mNode, err error, scope *mScope, fn *mFunc) {
	kid := &mNode{Kind: nCustom, Fail: err}
	switch t.Intn(5) {
	case 0:
		kid.Segs = []seg{{bind: true, val: "committed before the failure"}}
	case 1:
		kid = &mNode{Kind: nDerive, Kids: []*mNode{kid}, Funcs: map[string]*mFunc{"extra": {Eval: nil, Construct: func() {}}}}
		t.Feat("derived")
	case 2:
		kid = &mNode{Raw: "(#f1)", Kids: []*mNode{kid}}
	}
	ref := ""
	if fn != nil && t.Intn(2) == 0 {
		scope.funcs["cause"] = fn
		t.Feat("function")
		ref = []string{"#cause2", "#cause(2)", "#join('#cause', ',')", "#join('#cause$1', ',', 2)", "#join('a#cause', ',', 1, 2)"}[t.Intn(5)]
		if strings.Contains(ref, "$1") {
			n.Args = append(n.Args[:len(n.Args):len(n.Args)], 1)
			ref = strings.Replace(ref, "$1", fmt.Sprintf(" $%d", len(n.Args)), 1)
		}
	} else {
		t.Feat("builder")
		n.Kids = append(n.Kids[:len(n.Kids):len(n.Kids)], kid)
		k := len(n.Kids)
		ref = []string{"#f%d", "#fragment(%d)", "#join('#f', ', ', %d)", "#join('x #fragment', ', ', %d, %[1]d)", "#join('#f', '')"}[t.Intn(5)]
		if strings.Contains(ref, "%") {
			ref = fmt.Sprintf(ref, k)
		}
	}
	if strings.Contains(ref, "join") {
		t.Feat("join")
	}
	if t.Intn(2) == 0 {
		n.Raw = ref + " " + n.Raw
	} else {
		n.Raw += " " + ref
	}
}

// failingFunc is a function for which 1 is fine and 2 fails.
func (t *T) failingFunc(err error) *mFunc {
	panics := t.Intn(3) == 0
	if panics {
		t.Feat("function panics")
	}
	fail := func(i int) (string, error) {
		switch i {
		case 1:
			return "fine", nil
		case 2:
			if panics {
				panic(err)
			}
			return "partial", err
		}
		return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, i)
	}
	var real any = fail
	if t.Intn(2) == 0 {
		real = func(_ *sqlf.Context, i int) (string, error) { return fail(i) }
	}
	return &mFunc{Params: []reflect.Kind{reflect.Int}, Joinable: true, Construct: real,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			switch a[0].(int64) {
			case 1:
				return text("fine"), nil
			case 2:
				return nil, errOther("cause")
			}
			return nil, errIndex("cause")
		}}
}

// buildAll builds n in both styles and in several ways.
func (t *T) buildAll(n *mNode, scope *mScope, check func(how string, err error)) {
	for _, style := range styles {
		b := newRealizer(t.Rand).builder(n)
		var err error
		how := "BuildFragment"
		if f, ok := b.(sqlf.QueryBuilder); ok && len(scope.funcs) == 0 && t.Intn(2) == 0 {
			how = "BuildQuery"
			_, _, err = f.BuildQuery(style)
		} else {
			for k := t.Intn(4); k > 0; k-- {
				switch t.Intn(3) {
				case 0:
					b = sqlf.Ff("#f1", b)
				case 1:
					b = sqlf.Ff("a #join('#fragment', '-')", b)
				case 2:
					b = &derivingBuilder{sqlf.FuncMap{fmt.Sprint("d", string(rune('a'+k))): func() {}}, b}
				}
				how += " nested"
			}
			_, _, err = buildIn(b, style, scope)
		}
		check(how+", "+styleName(style)+" style", err)
	}
}

func c21Trees(t *T, idx int) {
	t.Eval()
	g := newGen(t)
	g.forDB = true
	g.clean = true
	g.usualArgs(3)
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	n := g.frag(1 + t.Intn(5))
	c21Run(t, n, scope, "build")
}

func c21Queries(t *T, idx int) {
	t.Eval()
	g := newQGen(t)
	g.forDB = true
	g.distinct = 30
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	n := &mNode{Kind: nQuery, Query: g.query(1)}
	if t.Intn(5) == 0 {
		n = &mNode{Raw: "(#f1)", Kids: []*mNode{n}}
	}
	c21Run(t, n, scope, "query")
}

func c21Run(t *T, n *mNode, scope *mScope, what string) {
	t.desc = func() string { return describe(n) }
	if _, merr := t.evalModel(n, scope); merr != nil {
		t.Feat("unsound before")
		return
	}
	type cand struct {
		n     *mNode
		place string
	}
	var cands []cand
	eachFrag(n, "", map[*mNode]bool{}, func(n *mNode, place string) { cands = append(cands, cand{n, place}) })
	if len(cands) == 0 {
		return
	}
	c := cands[t.Intn(len(cands))]
	kind := t.Intn(len(causeNames))
	err, found := t.cause(kind)
	var fn *mFunc
	if !strings.Contains(causeNames[kind], "ErrInvalidIndex") { // which ends a list
		fn = t.failingFunc(err)
	}
	t.plant(c.n, err, scope, fn)
	_, merr := t.evalModel(n, scope)
	t.buildAll(n, scope, func(how string, e error) {
		if merr == nil {
			if e != nil {
				t.Failf("%s: unexpected error: %v", how, e)
			}
			return
		}
		if e == nil {
			t.Failf("%s: the build must fail with %q, but it does not", how, err)
		}
		if !found(e) {
			t.Failf("%s: the error %q does not have the cause %T %q", how, e, err, err)
		}
		if errors.Is(e, sqlf.ErrInvalidIndex) != errors.Is(err, sqlf.ErrInvalidIndex) {
			t.Failf("%s: the cause %T %q is reported as %q (invalid index: %v)", how, err, err, e, errors.Is(e, sqlf.ErrInvalidIndex))
		}
	})
	if merr == nil {
		t.Feat("not reached")
		return
	}
	t.Feat(what + ".failed")
	if c.place != "" {
		t.Feat("place " + c.place)
	}
	if c.n != n {
		t.Feat("build.deep")
	}
	t.Key(describe(n))
	t.Sample(describe(n))
}

// c21Indexes has one reference with an invalid index.
func c21Indexes(t *T, idx int) {
	t.Eval()
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	var n *mNode
	if t.Intn(2) == 0 {
		g := newGen(t)
		g.forDB = true
		g.clean = true
		g.usualArgs(3)
		n = g.frag(1 + t.Intn(4))
	} else {
		g := newQGen(t)
		g.forDB = true
		n = &mNode{Kind: nQuery, Query: g.query(1)}
	}
	t.desc = func() string { return describe(n) }
	if _, merr := t.evalModel(n, scope); merr != nil {
		return
	}
	var cands []*mNode
	eachFrag(n, "", map[*mNode]bool{}, func(n *mNode, _ string) { cands = append(cands, n) })
	if len(cands) == 0 {
		return
	}
	c := cands[t.Intn(len(cands))]
	na, nk := len(c.Args), len(c.Kids)
	over := 1 + t.Intn(3)
	ref := ""
	switch t.Intn(10) {
	case 0:
		ref = fmt.Sprintf("#f%d", nk+over)
	case 1:
		ref = fmt.Sprintf("#fragment(%d)", nk+over)
	case 2:
		ref = fmt.Sprintf("#arg%d", na+over)
	case 3:
		ref = []string{"#f0", "#arg0", "#f(-1)", "#arg(-3)", "#fragment0", "#arg(9223372036854775807)", "#f(-9223372036854775808)"}[t.Intn(7)]
	case 4:
		ref = fmt.Sprintf("#join('#f', ',', %d)", nk+over)
	case 5:
		ref = fmt.Sprintf("#join('#arg', ',', 1, %d)", na+over)
	case 6:
		ref = fmt.Sprintf("#join('#f#arg', ',', 1, %d)", max(na, nk)+over)
	case 7: // nested once more
		c.Kids = append(c.Kids[:nk:nk], &mNode{Raw: "#f1"})
		ref = fmt.Sprintf("#join('#f', ', ', %d)", nk+1)
	case 8: // a fixed reference in a template
		c.Kids = append(c.Kids[:nk:nk], &mNode{Raw: "x"})
		ref = fmt.Sprintf("#join('#f #arg%d', ', ', %d)", na+over, nk+1)
	case 9: // a function of the user
		fn := t.failingFunc(nil)
		scope.funcs["cause"] = fn
		ref = []string{"#cause9", "#cause(0)", "#join('#cause', ',', 7)", "#join('#cause', ',', 3, 9)"}[t.Intn(4)]
	}
	if t.Intn(2) == 0 {
		c.Raw = ref + " " + c.Raw
	} else {
		c.Raw += " " + ref
	}
	_, merr := t.evalModel(n, scope)
	t.buildAll(n, scope, func(how string, e error) {
		if merr == nil {
			if e != nil {
				t.Failf("%s: unexpected error: %v", how, e)
			}
			return
		}
		if e == nil {
			t.Failf("%s: the build must fail with ErrInvalidIndex, but it does not", how)
		}
		if merr.invalid && !errors.Is(e, sqlf.ErrInvalidIndex) {
			t.Failf("%s: the invalid index of %s is reported as %q, which is no ErrInvalidIndex", how, ref, e)
		}
	})
	if merr == nil || !merr.invalid {
		t.Feat("not reached")
		return
	}
	t.Feat("invalid index")
	if strings.Contains(ref, "join") {
		t.Feat("invalid index in join")
	}
	t.Key(describe(n))
}

// c21Wide has the failure at any place of a long list, or far below.
func c21Wide(t *T, idx int) {
	t.Eval()
	size := sizes[1+t.Intn(len(sizes)-1)]
	if t.Intn(2) == 0 {
		size = 1 + t.Intn(40)
	}
	at := t.Intn(size)
	kind := t.Intn(len(causeNames))
	err, found := t.cause(kind)
	invalid := false
	if t.Intn(4) == 0 { // or an invalid index
		err, invalid = sqlf.ErrInvalidIndex, true
		found = func(e error) bool { return errors.Is(e, sqlf.ErrInvalidIndex) }
	}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	bad := &mNode{Kind: nCustom, Fail: err}
	if invalid {
		bad = &mNode{Raw: []string{"#f1", "#arg9", "#join('#f', ',', 3)", "#join('#arg', '', 1, 300)"}[t.Intn(4)]}
	}
	for n := t.Intn(3); n > 0; n-- {
		bad = &mNode{Raw: "(#f1)", Kids: []*mNode{bad}}
	}
	kids := make([]*mNode, size)
	for i := range kids {
		kids[i] = &mNode{Raw: fmt.Sprint("k", i+1)}
	}
	kids[at] = bad
	n := &mNode{Kids: kids}
	shape := t.Intn(9)
	each := func(format string) string {
		b := new(strings.Builder)
		for i := range kids {
			fmt.Fprintf(b, format, i+1)
		}
		return b.String()
	}
	switch shape {
	case 0:
		n.Raw = each("#f%d ")
	case 1:
		n.Raw = "#join('#f', ', ')"
	case 2:
		n.Raw = fmt.Sprintf("#join('(#fragment)', ', ', 1, %d)", size)
	case 3: // far below
		if size > 300 {
			size = 300
		}
		n = bad
		for i := 0; i < size; i++ {
			n = &mNode{Raw: []string{"(#f1)", "#join('#f', ',')", "x #fragment(1)"}[t.Intn(3)], Kids: []*mNode{n}}
		}
		t.Feat("deep")
	case 4: // items of a shared list
		scope = standardFuncs(builtinScope, nil, kids)
		n = &mNode{Raw: each("#gfrag%d ")}
		if t.Intn(2) == 0 {
			n = &mNode{Raw: "#join('#gfrag', ', ')"}
		}
	case 5: // beside args
		for i := range kids {
			n.Args = append(n.Args, i)
		}
		n.Raw = "#join('#arg=#f', ', ')"
	case 6:
		n.Raw = "#join('" + each("#f%d ") + "#num', ', ', 1, 2)"
		n.Raw = strings.Replace(n.Raw, "#num", "#arg", 1)
		n.Args = []any{1, 2}
	default: // clauses of a query
		q := &mQuery{}
		add := func(o *mOp) { q.Ops = append(q.Ops, o) }
		col := func(k *mNode) *mNode { return &mNode{Kind: nExprCol, Kids: []*mNode{wrapFrag(k)}} }
		add(&mOp{Kind: opFrom, Name: "t"})
		place := c21Places[t.Intn(len(c21Places))]
		if place != "select" {
			add(&mOp{Kind: opSelect, Cols: []*mNode{col(&mNode{Raw: "1"})}})
		} else {
			add(&mOp{Kind: opSelect})
		}
		if t.Intn(2) == 0 {
			add(&mOp{Kind: opDistinct})
		}
		for i, k := range kids {
			switch place {
			case "select":
				q.Ops[1].Cols = append(q.Ops[1].Cols, col(k))
			case "with":
				dep := []string{fmt.Sprint("c", i+1)}
				name := fmt.Sprint("c", i)
				if i == 0 {
					name = "t"
				}
				add(&mOp{Kind: opWith, Text: name, Node: k, Deps: dep})
			case "join":
				add(&mOp{Kind: opJoin, Text: "LEFT JOIN", Name: fmt.Sprint("j", i), Node: wrapFrag(k)})
			case "where":
				add(&mOp{Kind: opWhere, Node: wrapFrag(k)})
			case "group":
				add(&mOp{Kind: opGroupBy, Cols: []*mNode{col(k)}})
			case "order":
				add(&mOp{Kind: opOrderBy, Cols: []*mNode{col(k)}})
			case "union":
				add(&mOp{Kind: opUnion, Cols: []*mNode{k}})
			}
		}
		n = &mNode{Kind: nQuery, Query: q}
		t.Feat("place " + place)
	}
	t.desc = func() string { return fmt.Sprintf("%d, failing %d: %s", size, at+1, describe(n)) }
	_, merr := t.evalModel(n, scope)
	if merr == nil {
		panic("harness: nothing fails")
	}
	t.buildAll(n, scope, func(how string, e error) {
		if e == nil {
			t.Failf("%s: the build must fail with %q, but it does not", how, err)
		}
		if !found(e) {
			t.Failf("%s: the error %q does not have the cause %T %q", how, clip(e.Error(), 500), err, err)
		}
		if errors.Is(e, sqlf.ErrInvalidIndex) != errors.Is(err, sqlf.ErrInvalidIndex) {
			t.Failf("%s: the cause %T %q is reported as %q (invalid index: %v)", how, err, err, clip(e.Error(), 500), errors.Is(e, sqlf.ErrInvalidIndex))
		}
	})
	t.Feat("wide")
	t.Key(fmt.Sprint(shape, size, at, err, describe(bad)))
}

type causeValuer struct{ err error }

func (c causeValuer) Value() (driver.Value, error) { return nil, c.err }

type causePointerValuer struct{ err error }

func (c *causePointerValuer) Value() (driver.Value, error) { return "partial", c.err }

// c21Values interpolates an arg that fails to give its value.
func c21Values(t *T, idx int) {
	t.Eval()
	err, found := t.anyCause()
	var bad any = causeValuer{err}
	switch t.Intn(4) {
	case 0:
		bad = &causePointerValuer{err}
	case 1:
		bad = &causeValuer{err}
	case 2:
		bad = struct{ causeValuer }{causeValuer{err}}
	}
	n := 1 + t.Intn(5)
	if t.Intn(20) == 0 {
		n = sizes[1+t.Intn(len(sizes)-1)]
	}
	at := t.Intn(n)
	args := make([]any, n)
	for i := range args {
		args[i] = i
	}
	args[at] = bad
	query := "SELECT '?' "
	dollar := t.Intn(2) == 0
	for i := range args {
		if dollar {
			query += fmt.Sprintf(" $%d", i+1)
		} else {
			query += " ?"
		}
	}
	t.Input(fmt.Sprintf("Interpolate(%q) arg %d is %T failing with %T %q", query, at+1, bad, err, err))
	q, e := util.Interpolate(query, args)
	if e == nil {
		t.Failf("the value fails, but Interpolate returned %q", q)
	}
	if q != "" {
		t.Failf("the failed Interpolate returned %q", q)
	}
	if !found(e) {
		t.Failf("the error %q does not have the cause", e)
	}
	t.Feat("valuer")
	t.Key(t.input)
	t.Sample(t.input)
}

type failingQuery struct {
	err     error
	partial bool
}

func (f *failingQuery) BuildQuery(syntax.BindVarStyle) (string, []any, error) {
	if f.partial {
		return "SELECT 1", []any{1}, f.err
	}
	return "", nil, f.err
}

type causeScanner struct{ err error }

func (c causeScanner) Scan(any) error { return c.err }

// c21Database has a database or query builder that fails.
func c21Database(t *T, idx int) {
	t.Eval()
	err, found := t.anyCause()
	rows := t.Intn(5)
	if t.Intn(20) == 0 {
		rows = sizes[t.Intn(len(sizes))]
	}
	d := &fakeDB{cols: []string{"a"}, faultErr: err, prepared: t.Intn(2) == 0}
	for r := 0; r < rows; r++ {
		d.rows = append(d.rows, []driver.Value{int64(r)})
	}
	count := t.Intn(2) == 0
	if count {
		d.rows = [][]driver.Value{{int64(5)}}
	}
	var builder sqlf.QueryBuilder
	scanner := -1
	what := ""
	switch k := t.Intn(6); k {
	case 0:
		d.fault, what = faultConnect, "connect"
	case 1:
		d.fault, d.prepared, what = faultPrepare, true, "prepare"
	case 2:
		d.fault, what = faultQuery, "query"
	case 3:
		d.fault, what = faultNext, "next"
		if !count {
			d.faultRow = t.Intn(rows + 1)
		}
	case 4:
		if count || rows == 0 {
			return
		}
		scanner, what = t.Intn(rows), "scanner"
	case 5:
		builder, what = &failingQuery{err, t.Intn(2) == 0}, "builder"
		if t.Intn(2) == 0 {
			builder = sqlf.Ff("SELECT #join('#f', ',')", &customBuilder{fail: err})
		}
		if count {
			t.Feat("query builder in count")
		} else {
			t.Feat("query builder in scan")
		}
	}
	if err == io.EOF && (what == "next") || errors.Is(err, sql.ErrNoRows) && count && what != "builder" {
		return // the regular end
	}
	db := sql.OpenDB(d)
	defer db.Close()
	t.Input(fmt.Sprintf("count %v, failing: %s with %T %q, %d rows, fault at %d, scanner %d", count, what, err, err, rows, d.faultRow, scanner))
	dest := func() func() (int64, []any) {
		at := 0
		return func() (int64, []any) {
			at++
			if at-1 == scanner {
				return 0, []any{causeScanner{err}}
			}
			return 0, []any{new(any)}
		}
	}()
	var e error
	query, args := []string{"SELECT a, $1 FROM t", "SELECT ?", "SELECT $1 #", "SELECT 1", "SELECT 'x", "SELECT $7"}[t.Intn(6)], []any{}
	for k := t.Intn(3); k > 0; k-- {
		args = append(args, dbValue(t.Rand))
	}
	t.input += fmt.Sprintf(" query %q args %s", query, descValue(args))
	style := styles[t.Intn(2)]
	if builder == nil && t.Intn(2) == 0 {
		builder = sqlf.Fa("SELECT a #join('#arg', ', ') FROM t", args...)
	}
	switch {
	case count && builder != nil:
		_, e = util.CountBuilder(db, builder, style)
	case count:
		_, e = util.Count(db, query, args)
	case builder != nil:
		_, e = util.ScanBuilder(db, builder, style, dest)
	default:
		_, e = util.Scan(db, query, args, dest)
	}
	t.Feat("db " + what)
	if e == nil {
		t.Failf("no error")
	}
	if !found(e) {
		t.Failf("the error %q does not have the cause", e)
	}
	t.Key(t.input)
	t.Sample(t.input)
}
