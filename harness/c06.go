package main

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	req := []string{"parsed", "rejected", "built", "build error", "interpolated", "interpolate error", "template", "deep", "huge", "repeats", "builder ok", "builder error", "nil", "panicking function"}
	register(&Check{
		ID:       "C06",
		Rule:     "all texts up to length 4 over an alphabet of special bytes, token sequences, mutated sound texts, huge and deeply nested inputs, arbitrary builder calls and panicking functions; each case must return within the watchdog's limit; non-trivial: text of two bytes or more, or a builder with calls; distinct by input",
		Required: req,
		Phases: []Phase{
			{Name: "small", Quick: smallTexts(len(c06Alphabet), 3), Thorough: smallTexts(len(c06Alphabet), 5), Exhaustive: true, Run: func(t *T, idx int) { c06Text(t, nthText(c06Alphabet, idx)) }},
			{Name: "small 4", Quick: 60000, Thorough: 1, Run: func(t *T, idx int) { c06Text(t, nthText(c06Alphabet, t.Intn(smallTexts(len(c06Alphabet), 5)))) }},
			{Name: "tokens", Quick: 100000, Thorough: 5000000, Run: c06Tokens},
			{Name: "mutated", Quick: 60000, Thorough: 3000000, Run: c06Mutated},
			{Name: "interpolate", Quick: 40000, Thorough: 1000000, Run: c06Interpolate},
			{Name: "builders", Quick: 40000, Thorough: 2000000, Run: c06Builders},
			{Name: "functions", Quick: 6000, Thorough: 100000, Run: c06Functions},
			{Name: "trees", Quick: 10000, Thorough: 400000, Run: c06Trees},
			{Name: "deep", Quick: 40, Thorough: 400, Run: c06Deep},
			{Name: "linear", Quick: 2 * linearKinds, Thorough: 4 * linearKinds, Run: c06Linear},
			{Name: "repeats", Quick: 60, Thorough: 1500, Run: c06Repeats},
			{Name: "huge", Quick: 150, Thorough: 3000, Run: c06Huge},
		},
		Assumptions: []string{
			"untyped nil given to With, Union, or as a column, fragments that contain themselves and functions that do not return are misuse of the API",
			"methods of arg values (Value, String) return and do not panic",
			"hangs are judged by a limit of 15 s (45 s when confirmed alone) for inputs of up to some 10^5 tokens or 3000 levels, which take well below 1 s, and for wide inputs of 10^6 items, which take some seconds (the work grows with the square of the nesting depth)",
		},
	})
}

func smallTexts(n, l int) (total int) {
	for i := 0; i <= l; i++ {
		total += pow(n, i)
	}
	return
}

var c06Alphabet = []string{"#", "f", "join", "arg", "(", ")", "'", ",", "?", "$", "1", "0", "-", ".", "e", " ", "\"", "`", "\n", "\x00", "é", "\xff", "t", "nil"}

func (t *T) c06Build(b sqlf.FragmentBuilder, scope *mScope) {
	for _, style := range styles {
		q, args, err := buildIn(b, style, scope)
		if err != nil {
			t.Feat("build error")
			if q != "" || args != nil {
				t.Failf("failed build returned %q %v", q, args)
			}
		} else {
			t.Feat("built")
		}
	}
	t.Eval()
}

// c06Text uses a text wherever the library takes one.
func c06Text(t *T, s string) {
	t.desc = func() string { return fmt.Sprintf("text %q", clip(s, 3000)) }
	if c, err := syntax.Parse(s); err != nil {
		t.Feat("rejected")
		_ = err.Error()
	} else {
		t.Feat("parsed")
		for _, e := range c.ExprList {
			_ = fmt.Sprint(e.Pos())
		}
	}
	kid := sqlf.Fa("k?", 1)
	t.c06Build(&sqlf.Fragment{Raw: s, Args: []any{1, "x"}, Fragments: []sqlf.FragmentBuilder{kid, nilFragment}}, nil)
	t.c06Build(sqlf.F(s), nil)
	// as template
	t.c06Build(sqlf.Ff("#join("+quoteArg(s)+",',')", kid, sqlf.F("b")).WithArgs(1), nil)
	t.Feat("template")
	if in, err := util.Interpolate(s, []any{1, "x", nil}); err != nil {
		t.Feat("interpolate error")
	} else {
		t.Feat("interpolated")
		_ = in
	}
	if len(s) >= 2 {
		t.Key(s)
	}
}

var nilFragment *sqlf.Fragment

var c06TokenList = []string{
	"#f", "#f1", "#arg", "#arg1", "#join", "#fragment", "#", "##", "?", "??", "?1", "$", "$1", "$$", "$0", "(", ")", ",", "'", "''", "\"", "`",
	"1", "0", "-1", "+1", "1.5", "1e5", "1e999", "0x10", ".", "e", "true", "false", "nil", "null", "'#f'", "'#f=#arg'", "', '", " ", "\n", "\t", "a", "é",
	"\x00", "\xff", "\xef\xbb\xbf", "#join('#f', ',')", "#join('#arg', ',', 1, 2)", "#join('", "#join('#f'", "#é", "99999999999999999999", "$99999999999999999999", "$9223372036854775807", "$9223372036854775808", "$18446744073709551615", "#arg9223372036854775807", "#arg18446744073709551615", "#f18446744073709551616", "#arg(-1)", "#f(-9223372036854775808)", "#join('#f', ',', 9223372036854775807)", "#join('#f', ',', 1, 9223372036854775807)",
	"--", "/*", "*/", "\\'", "\\", "#f(1)", "#f(", "$f", "?f", "\u2028", "\u00a0", "%s", "%!d", "#join('#join(''#f'','','')', ',')",
	"1e-400", "0.000001", "-0", "1_000", "1e", "1e+", "0b1", "0o7", "Inf", "NaN",
}

func c06Tokens(t *T, idx int) {
	b := new(strings.Builder)
	n := 1 + t.Intn(12)
	if t.Intn(20) == 0 {
		n = 100
	}
	for ; n > 0; n-- {
		b.WriteString(c06TokenList[t.Intn(len(c06TokenList))])
	}
	c06Text(t, b.String())
	t.Sample(fmt.Sprintf("%q", b.String()))
}

func (t *T) mutate(s string) string {
	b := []byte(s)
	for n := 1 + t.Intn(3); n > 0; n-- {
		i := t.Intn(len(b) + 1)
		switch t.Intn(6) {
		case 0:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1:
			b = append(b[:i:i], append([]byte(c06TokenList[t.Intn(len(c06TokenList))]), b[i:]...)...)
		case 2:
			if i < len(b) {
				b[i] = byte(t.Intn(256))
			}
		case 3:
			b = b[:i]
		case 4:
			j := t.Intn(len(b) + 1)
			if i < j {
				b = append(b[:j:j], b[i:]...) // repeat a part
			}
		case 5:
			b = b[i:]
		}
	}
	return string(b)
}

func c06Mutated(t *T, idx int) {
	g := newGen(t)
	n := g.frag(1)
	c06Text(t, t.mutate(n.Raw))
}

func c06Interpolate(t *T, idx int) {
	g := newGen(t)
	s := ""
	for n := t.Intn(8); n > 0; n-- {
		s += g.oneOf("?", "$1", "$2", "$9", "$0", g.text(), c06TokenList[t.Intn(len(c06TokenList))])
	}
	args := []any{}
	for n := t.Intn(4); n > 0; n-- {
		v := genValue(t.Rand, nil)
		if t.Intn(3) == 0 {
			v = c06Value(t)
		}
		args = append(args, v)
	}
	t.desc = func() string { return fmt.Sprintf("query %q args %s", s, descValue(args)) }
	t.Eval()
	var opts []util.InterpolateOption
	if t.Intn(3) == 0 {
		opts = append(opts, util.WithTimeFormat(g.oneOf("", "2006", "'", "MST", "\xff")))
	}
	if _, err := util.Interpolate(s, args, opts...); err != nil {
		t.Feat("interpolate error")
	} else {
		t.Feat("interpolated")
	}
	t.Key(t.desc())
}

type selfValuer struct{ n int }

type ptrValuer struct{ v any }

func (p *ptrValuer) Value() (driver.Value, error) {
	if p == nil {
		return nil, nil
	}
	return p.v, nil
}

// c06Value returns values that are hard to interpolate.
func c06Value(t *T) any {
	switch t.Intn(18) {
	case 0:
		return (*time.Time)(nil)
	case 1:
		return (*valuerVal)(nil)
	case 2:
		return (*ptrValuer)(nil)
	case 3:
		return &ptrValuer{nil}
	case 4:
		return time.Time{}
	case 5:
		return selfValuer{1}
	case 6:
		return (*stringerVal)(nil)
	case 7:
		return valuerVal{valuerVal{1}}
	case 8:
		return valuerVal{(*int)(nil)}
	case 9:
		return valuerVal{[]byte("x")}
	case 10:
		return math.Inf(1)
	case 11:
		return math.NaN()
	case 12:
		return struct{}{}
	case 13:
		return make(chan int)
	case 14:
		var e error
		return &e
	case 15:
		return [][]any{{1}, nil}
	case 16:
		x := any(nil)
		return &x
	default:
		return failingValuer{}
	}
}

type failingValuer struct{}

var errValuer = errors.New("valuer fails")

func (failingValuer) Value() (driver.Value, error) { return nil, errValuer }
func (s selfValuer) Value() (driver.Value, error)  { return s, nil }

func c06Builders(t *T, idx int) {
	g := newQGen(t)
	g.misuse = 3
	g.faults = t.Intn(2) == 0
	b := sqlb.NewQueryBuilder()
	var log []string
	t.desc = func() string { return strings.Join(log, "\n") }
	r := newRealizer(t.Rand)
	s := &qScope{tables: []string{"foo", "a", "", "undefined"}}
	frag := func() *sqlf.Fragment {
		switch t.Intn(7) {
		case 0:
			t.Feat("nil")
			return nil
		case 1:
			return &sqlf.Fragment{}
		case 3: // an element that is nil
			return sqlf.Ff(g.oneOf("#f1", "#join('#f',',')", "#f1 #f2", "x"), nil, sqlf.F("x"))
		case 2:
			return sqlf.F(c06TokenList[t.Intn(len(c06TokenList))])
		}
		return r.fragment(wrapFrag(g.cond(s, 1)))
	}
	table := func() sqlb.TableAliased {
		return sqlb.NewTableAliased(sqlb.Table(g.oneOf("foo", "bar", "a", "", "t1")), "x").WithAlias(sqlb.Table(g.oneOf("", "", "a", "b", "foo", "x y", "#f1", "?")))
	}
	col := func() *sqlb.Column {
		switch t.Intn(8) {
		case 0:
			t.Feat("nil")
			return sqlb.ExprColumn(nil)
		case 1:
			return sqlb.ExprColumn(frag())
		case 2:
			return table().Column(g.oneOf("", "id", "#", "?", "'", "$1"))
		case 3:
			return sqlb.Table("").AnonymousColumn("")
		}
		return r.column(g.col(s, 1))
	}
	builder := func() sqlf.FragmentBuilder {
		switch t.Intn(7) {
		case 0:
			t.Feat("nil")
			return (*sqlf.Fragment)(nil)
		case 1:
			return (*sqlb.QueryBuilder)(nil)
		case 2:
			return table()
		case 3:
			return sqlb.Table("")
		case 4:
			return r.builder(g.builder(1))
		case 5:
			return sqlb.NewQueryBuilder()
		}
		return frag()
	}
	for n := t.Intn(20); n > 0; n-- {
		k := t.Intn(20)
		log = append(log, fmt.Sprint("call kind ", k))
		switch k {
		case 0, 1:
			b.From(table())
		case 2:
			b.LeftJoinOptional(table(), frag())
		case 3:
			b.LeftJoin(table(), frag())
		case 4:
			b.InnerJoin(table(), frag())
		case 5:
			b.RightJoin(table(), frag())
		case 6:
			b.FullJoin(table(), frag())
		case 7:
			b.CrossJoin(table())
		case 8, 9:
			b.Select(col(), col())
		case 10:
			b.Select()
		case 11:
			b.Where(frag())
		case 12:
			b.Where2(col(), g.oneOf("=", "", "?", "#", "' "), g.value())
		case 13:
			b.WhereIn(col(), []any{nil, g.value(), []int{}, [0]int{}, (*[]int)(nil), []any{nil}, map[int]int{}}[t.Intn(7)])
		case 14:
			b.WhereNotIn(col(), g.list())
		case 15:
			b.GroupBy(col())
		case 16:
			b.OrderBy(col(), sqlb.Order(t.Intn(8)))
		case 17:
			b.Limit(int64(t.Intn(3)-1) << 62).Offset(int64(t.Uint64()))
		case 18:
			b.Union(builder(), builder())
		case 19:
			b.With(sqlb.Table(g.oneOf("foo", "", "a", "x")), builder(), "foo", "a", "x", "")
			if t.Intn(3) == 0 {
				b.Debug()
			}
			if t.Intn(3) == 0 {
				b.Distinct()
			}
		}
		if t.Intn(5) == 0 {
			b.BuildQuery(styles[t.Intn(2)])
		}
	}
	t.Eval()
	for k := 0; k < 2; k++ {
		q, args, err := b.BuildQuery(styles[k])
		if err != nil {
			t.Feat("builder error")
			if q != "" || args != nil {
				t.Failf("failed build returned %q %v", q, args)
			}
		} else {
			t.Feat("builder ok")
		}
	}
	if _, err := sqlf.Fa("?", 1).BuildFragment(nil); err == nil {
		t.Failf("build with a nil context succeeded")
	}
	if q, err := (*sqlb.QueryBuilder)(nil).BuildFragment(sqlf.NewContext(0)); q != "" || err != nil {
		t.Failf("nil builder builds to %q, %v", q, err)
	}
	if len(log) > 0 {
		t.Key(fmt.Sprint(idx))
	}
}

func c06Functions(t *T, idx int) {
	var nilMap map[string]int
	panics := []any{"text", errors.New("an error"), 42, nil, []int{1}, sqlf.ErrInvalidIndex, fmt.Errorf("wrapped: %w", sqlf.ErrInvalidIndex), struct{ f func() }{}}
	v := panics[t.Intn(len(panics))]
	kind := t.Intn(5)
	at := 1 + t.Intn(4)
	blow := func(i int) {
		if i != at {
			return
		}
		switch kind {
		case 0:
			panic(v)
		case 1:
			nilMap["x"] = 1
		case 2:
			_ = []int{}[i]
		case 3:
			var f *sqlf.Fragment
			_ = f.Raw
		case 4:
			panic(fmt.Sprint("at ", i))
		}
	}
	index := func(i int) (string, error) {
		if i < 1 || i > 4 {
			return "", sqlf.ErrInvalidIndex
		}
		blow(i)
		return "x", nil
	}
	funcs := sqlf.FuncMap{
		"p":  index,
		"q":  func(ctx *sqlf.Context, i int) (string, error) { return index(i) },
		"r":  func(i int) string { blow(i); return "r" },
		"s":  func(i int) { blow(i) },
		"z":  func(i int) (string, error) { panic("always") },
		"zz": func() string { panic(v) },
	}
	raw, fails := "", true
	switch t.Intn(8) {
	case 0:
		raw = fmt.Sprintf("#p%d", at)
	case 1:
		raw = fmt.Sprintf("#q(%d)", at)
	case 2:
		raw = fmt.Sprintf("#r%d", at)
	case 3:
		raw = fmt.Sprintf("#s%d", at)
	case 4:
		raw, fails = fmt.Sprintf("#p%d", 1+at%4), false
	case 5:
		raw = fmt.Sprintf("#join('#p', ',', 1, %d)", at)
		if kind == 0 {
			// a panic with ErrInvalidIndex ends the list like a return of it
			raw = fmt.Sprintf("#join('#q', ',', %d)", at)
		}
	case 6:
		raw = "#join('#z', ',')"
	case 7:
		raw = "#zz()"
	}
	frag := sqlf.F(raw)
	for d := t.Intn(4); d > 0; d-- {
		frag = sqlf.Ff("a #f1", frag)
	}
	t.desc = func() string { return fmt.Sprintf("%q panic kind %d value %v at %d", raw, kind, v, at) }
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[t.Intn(2)]), funcs)
	must(err)
	q, err := frag.BuildFragment(ctx)
	t.Eval()
	t.Feat("panicking function")
	if fails && err == nil {
		t.Failf("the panic of the function got lost, the build returned %q", q)
	}
	if !fails && err != nil {
		t.Failf("unexpected error %v", err)
	}
	if err != nil {
		_ = err.Error()
	}
	t.Key(t.desc())
}

func c06Trees(t *T, idx int) {
	g := newGen(t)
	g.faults = true
	g.faultRate = 3
	scope := standardFuncs(builtinScope, []any{1}, []*mNode{{Raw: "#f1"}, {Raw: "x"}})
	g.custom = []string{"num", "odd", "garg", "gfrag", "failat", "boom", "plain", "none", "val"}
	n := g.frag(t.Intn(5))
	t.desc = func() string { return describe(n) }
	t.c06Build(newRealizer(t.Rand).builder(n), scope)
	t.Key(describe(n))
}

func c06Deep(t *T, idx int) {
	depth := []int{100, 300, 1000, 3000}[idx%4]
	kind := t.Intn(5)
	t.Input(fmt.Sprintf("depth %d kind %d", depth, kind))
	b := sqlf.FragmentBuilder(sqlf.Fa("?", 1))
	if kind >= 3 && depth > 1000 {
		depth = 1000 // every level of a query builder is several levels of fragments
	}
	for i := 0; i < depth; i++ {
		switch kind {
		case 0:
			b = sqlf.Ff("#f1", b)
		case 1:
			b = sqlf.Ff("(#join('#f', ','))", b)
		case 2:
			b = sqlb.ExprColumn(sqlf.Ff("#f1", b))
		case 3:
			b = sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.ExprColumn(sqlf.Ff("(#f1)", b)))
		case 4:
			b = sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id")).Union(b)
		}
	}
	for _, style := range styles {
		_, args, err := buildIn(b, style, nil)
		if err != nil {
			t.Failf("depth %d: %s", depth, clip(err.Error(), 500))
		}
		if len(args) != 1 {
			t.Failf("depth %d: %d args", depth, len(args))
		}
	}
	// references to tables through many levels
	q := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("id")).Distinct()
	f := sqlf.Ff("#f1", sqlb.Table("t").Column("x"))
	for i := 0; i < depth; i++ {
		f = sqlf.Ff("#f1", f)
	}
	if _, _, err := q.Where(f).BuildQuery(0); err != nil {
		t.Failf("depth %d: %s", depth, clip(err.Error(), 500))
	}
	// an error at the bottom, through all levels
	f = sqlf.F("#f1")
	for i := 0; i < min(depth, 1000); i++ {
		f = sqlf.Ff("#f1", f)
	}
	if _, _, err := f.BuildQuery(0); err == nil {
		t.Failf("the error got lost")
	}
	t.Eval()
	t.Feat("deep")
	t.Key(fmt.Sprint(depth, kind))
}

func c06Huge(t *T, idx int) {
	n := []int{1000, 10000, 60000}[idx%3]
	tok := c06TokenList[t.Intn(len(c06TokenList))]
	tok2 := ""
	if t.Intn(2) == 0 {
		tok2 = c06TokenList[t.Intn(len(c06TokenList))]
	}
	s := strings.Repeat(tok+tok2, n)
	if t.Intn(3) == 0 {
		s = c06TokenList[t.Intn(len(c06TokenList))] + s + c06TokenList[t.Intn(len(c06TokenList))]
	}
	t.Input(fmt.Sprintf("%d times %q%q", n, tok, tok2))
	if _, err := syntax.Parse(s); err != nil {
		t.Feat("rejected")
	} else {
		t.Feat("parsed")
	}
	// the text of errors is limited work as well
	kids := make([]sqlf.FragmentBuilder, n)
	for i := range kids {
		kids[i] = nilFragment
	}
	t.c06Build(sqlf.F(s), nil)
	if !strings.Contains(s, "join") { // #join over n items, n times, is n^2 of work
		t.c06Build(&sqlf.Fragment{Raw: s, Args: make([]any, n), Fragments: kids}, nil)
	}
	util.Interpolate(s, make([]any, n))
	b := sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", ""))
	if t.Intn(2) == 0 {
		b.Distinct()
	}
	for i := 0; i < n/10; i++ {
		name := sqlb.Table(fmt.Sprint("t", i))
		b.With(name, sqlf.F("x"), sqlb.Table(fmt.Sprint("t", i+1)), sqlb.Table(fmt.Sprint("t", i/2)))
		b.LeftJoinOptional(sqlb.NewTableAliased(name, ""), sqlf.Ff("#f1 #f2", name, sqlb.Table(fmt.Sprint("t", i/2))))
		b.Where(sqlf.Fa("?", i)).GroupBy(name.Column("x")).OrderBy(name.Column("y"), 0)
	}
	if _, _, err := b.Select(sqlb.Table("t").Column("x")).BuildQuery(styles[t.Intn(2)]); err != nil {
		t.Failf("unexpected error %s", clip(err.Error(), 500))
	}
	t.Eval()
	t.Feat("huge")
	t.Key(fmt.Sprint(n, tok, tok2))
}

const linearKinds = 30

// c06Repeats repeats a random unit of some pieces to a text of a million
// bytes or two.
func c06Repeats(t *T, idx int) {
	dollar := t.Intn(2) == 0
	refs := []string{"?", "#f1", "#f2", "#arg1", "#fragment(1)", "#arg(2)", "#join('#f', ',')", "#join('#arg=#f', ';', 1, 2)", "#val('a', 1)"}
	if dollar {
		refs[0] = "$1"
	}
	texts := []string{";", "\n", " ", ",", "(", ")", "'x'", "\"y\"", "`z`", "''", "$$", "??", "é", "\xff", "\x00", "a", "AND", "--", "/*", "*/", "=", "1", ".", "\t", "\r\n", "\\", "[", "{", ":", "|", "日本語", "%"}
	unit, binds := "", 0
	for i := 1 + t.Intn(6); i > 0; i-- {
		if t.Intn(5) < 3 {
			unit += texts[t.Intn(len(texts))]
		} else {
			r := refs[t.Intn(len(refs))]
			if r == "?" {
				binds++
			}
			unit += r
			if t.Intn(2) == 0 {
				unit += texts[t.Intn(7)]
			}
		}
	}
	n := 1500000 / (len(unit) + 1)
	if strings.Contains(unit, "#") {
		n /= 2
	}
	raw := strings.Repeat(unit, n)
	t.Input(fmt.Sprintf("%q repeated %d times", unit, n))
	t.Eval()
	if _, err := syntax.Parse(raw); err == nil {
		t.Feat("parsed")
	}
	args := []any{1, 2}
	for len(args) < binds*n {
		args = append(args, len(args)%7)
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[t.Intn(2)]), sqlf.FuncMap{"val": func(s string, i int) string { return s }})
	must(err)
	kids := []sqlf.FragmentBuilder{sqlf.F("k1"), sqlf.Fa("?", 1)}
	f := &sqlf.Fragment{Raw: raw + " #arg1#arg2#f1#f2", Args: args, Fragments: kids}
	if _, err := f.BuildFragment(ctx); err == nil {
		t.Feat("built")
	}
	if len(unit) < 40 && t.Intn(2) == 0 {
		util.Interpolate(raw, args)
	}
	if t.Intn(4) == 0 { // as template
		sqlf.Ff("#join("+quoteArg(strings.Repeat(unit, n/4)+"#f")+",',')", kids...).BuildFragment(ctx)
	}
	t.Feat("repeats")
	t.Key(unit)
}

// c06Linear handles inputs of a million items: work that grows with the square
// of their number, even that of copying a text, takes minutes.
func c06Linear(t *T, idx int) {
	n := 1000000
	kind := idx % linearKinds
	style := styles[idx/linearKinds%2]
	t.Input(fmt.Sprintf("kind %d, %d items, %s style", kind, n, styleName(style)))
	distinctArgs := func() []any {
		args := make([]any, n)
		for i := range args {
			args[i] = i
		}
		return args
	}
	build := func(b sqlf.FragmentBuilder, wantArgs int) {
		ctx := sqlf.NewContext(style)
		q, err := b.BuildFragment(ctx)
		if err != nil {
			t.Failf("unexpected error: %s", clip(err.Error(), 300))
		}
		if got := len(ctx.Args()); wantArgs >= 0 && got != wantArgs {
			t.Failf("%d args, want %d", got, wantArgs)
		}
		if q == "" {
			t.Failf("nothing built")
		}
	}
	merged := func(many int) int {
		if style == syntax.Dollar {
			return 1
		}
		return many
	}
	table := sqlb.NewTableAliased("t", "")
	query := func() *sqlb.QueryBuilder {
		return sqlb.NewQueryBuilder().From(table).Select(table.Column("id"))
	}
	switch kind {
	case 0:
		build(sqlf.Fa(strings.Repeat("?,", n), distinctArgs()...), n)
	case 1:
		build(sqlf.Fa(strings.Repeat("$1 ", n), 1), merged(n))
	case 2:
		b := new(strings.Builder)
		for i := n; i >= 1; i-- {
			fmt.Fprintf(b, "$%d ", i)
		}
		build(sqlf.Fa(b.String(), distinctArgs()...), n)
	case 3:
		build(sqlf.Fa("#join('#arg', ', ')", distinctArgs()...), n)
	case 4:
		kids := make([]sqlf.FragmentBuilder, n/2)
		for i := range kids {
			kids[i] = sqlf.Fa("x = ?", 1)
		}
		build(sqlf.Ff("#join('#f', ' AND ')", kids...), merged(n/2))
	case 5:
		build(sqlf.Ff(strings.Repeat("#f1 ", n), sqlf.F("x")), 0)
	case 6:
		build(sqlf.F(strings.Repeat("some text\n", n)), 0)
	case 7:
		build(sqlf.F(strings.Repeat("'é'' $1'", n)), 0)
	case 8:
		build(sqlf.F("'"+strings.Repeat("''?", n)+"'"), 0)
	case 9:
		build(sqlf.F(strings.Repeat("$$??", n)), 0)
	case 10:
		if _, err := syntax.Parse("#f(" + strings.Repeat("1,'',", n) + "1)"); err != nil {
			t.Failf("unexpected error: %s", clip(err.Error(), 300))
		}
	case 11:
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"count": func(l ...int) string { return fmt.Sprint(len(l)) }})
		must(err)
		q, err := sqlf.F("#count(" + strings.Repeat("1, ", n) + "1)").BuildFragment(ctx)
		if err != nil || q != fmt.Sprint(n+1) {
			t.Failf("%q %v", clip(q, 100), err)
		}
	case 12: // a wide template, some times
		build(sqlf.Ff("#join('"+strings.Repeat("x #f ", n/10)+"', ',')", sqlf.F("a"), sqlf.F(""), sqlf.F("c")), 0)
	case 13:
		build(sqlf.Fa("#join('#arg$1', ', ')", distinctArgs()...), -1)
	case 14:
		if _, err := util.Interpolate(strings.Repeat("?,", n), distinctArgs()); err != nil {
			t.Failf("unexpected error: %s", clip(err.Error(), 300))
		}
	case 15:
		s, err := util.Interpolate(strings.Repeat("$1,", 3), []any{strings.Repeat("'", n)})
		if err != nil || len(s) != 3*(2*n+3) {
			t.Failf("%d bytes, %v", len(s), err)
		}
	case 16:
		list := make([]any, n)
		for i := range list {
			list[i] = []int{i, i}
		}
		if got := util.ArgsFlatted(list...); len(got) != 2*n {
			t.Failf("%d values", len(got))
		}
	case 17:
		build(query().WhereIn(table.Column("x"), distinctArgs()), n)
	case 18:
		b := query()
		for i := 0; i < n/5; i++ {
			b.Where2(table.Column("x"), "=", i)
		}
		build(b, n/5)
	case 19:
		b := query()
		for i := 0; i < n/5; i++ {
			b.OrderBy(table.Column("x"), sqlb.Desc).GroupBy(table.Column("x"))
		}
		build(b.Distinct(), 0)
	case 20:
		b := query()
		for i := 0; i < n/10; i++ {
			name := sqlb.NewTableAliased("j", sqlb.Table(fmt.Sprint("j", i)))
			b.LeftJoinOptional(name, sqlf.Ff("#f1 = #f2", table.Column("id"), name.Column("id")))
			if i%2 == 0 {
				b.GroupBy(name.Column("id"))
			}
		}
		build(b.Distinct(), 0)
	case 21:
		b := query()
		for i := 0; i < n/10; i++ {
			name := sqlb.Table(fmt.Sprint("w", i))
			b.With(name, sqlf.Fa("SELECT ?", i), sqlb.Table(fmt.Sprint("w", i/2)))
			b.InnerJoin(sqlb.NewTableAliased(name, ""), nil)
		}
		build(b, n/10)
	case 22:
		b := query()
		for i := 0; i < n/10; i++ {
			b.Union(query().Where2(table.Column("x"), "=", i))
		}
		build(b, n/10)
	case 23:
		cols := make([]*sqlb.Column, n/2)
		for i := range cols {
			cols[i] = table.Column(fmt.Sprint("c", i))
		}
		build(sqlb.NewQueryBuilder().From(table).Select(cols...), 0)
	case 24: // the same table joined again and again
		b := query()
		for i := 0; i < n/5; i++ {
			b.LeftJoin(sqlb.NewTableAliased("j", "a"), sqlf.Fa("?", i))
		}
		build(b, 1)
	case 25: // the fault is at the very end
		if _, _, err := sqlf.Fa(strings.Repeat("$1 ", n)+"$2", 1).BuildQuery(style); err == nil {
			t.Failf("the error got lost")
		}
	case 26:
		kids := make([]sqlf.FragmentBuilder, n/2)
		for i := range kids {
			kids[i] = table.Column("x")
		}
		build(query().Where(sqlf.Ff("#join('#f', '+')", kids...)), 0)
	case 27: // one context for many builds
		ctx := sqlf.NewContext(style)
		f := sqlf.Fa("x = ?", 1)
		for i := 0; i < n/2; i++ {
			if _, err := f.BuildFragment(ctx); err != nil {
				t.Failf("unexpected error: %v", err)
			}
		}
		if len(ctx.Args()) != merged(n/2) {
			t.Failf("%d args", len(ctx.Args()))
		}
	case 28: // args that can't be map keys
		args := make([]any, n/2)
		for i := range args {
			args[i] = []byte{byte(i)}
		}
		build(sqlf.Fa("#join('#arg', ', ')", args...), n/2)
	case 29: // very many lists
		kids := make([]sqlf.FragmentBuilder, n/10)
		for i := range kids {
			kids[i] = sqlf.Fa("#join('#arg', ', ')", i, i+1, i+2)
		}
		build(sqlf.Ff("#join('(#f)', ', ')", kids...), -1)
	}
	t.Eval()
	t.Feat("linear")
	t.Key(fmt.Sprint("linear", idx, style))
}
