package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// yielding tells code of the user's that it runs concurrently, and should let
// others in. It's only read while goroutines run, to not synchronize them.
var yielding bool

// yieldPoint is where code of the user's, called by the library, gives way to
// other goroutines.
func yieldPoint() {
	if !yielding {
		return
	}
	// not from T: it may not be shared, and a lock would hide races
	switch r := rand.Uint32() % 64; {
	case r < 24:
		runtime.Gosched()
	case r < 26:
		time.Sleep(time.Duration(rand.Uint32()%50) * time.Microsecond)
	}
}

// customBuilder is a FragmentBuilder of the user.
type customBuilder struct {
	segs []seg
	fail error
}

var errCustom = errors.New("custom builder fails")

func (c *customBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	yieldPoint()
	b := new(strings.Builder)
	for _, s := range c.segs {
		if s.bind {
			b.WriteString(ctx.CommitArg(s.val))
			yieldPoint()
		} else {
			b.WriteString(s.text)
		}
	}
	if c.fail != nil {
		return "", c.fail
	}
	return b.String(), nil
}

// other types of builders: not hashable, functions, values
type (
	valueBuilder struct{ l []*customBuilder }
	sliceBuilder []*customBuilder
	mapBuilder   map[string]*customBuilder
	funcBuilder  func(ctx *sqlf.Context) (string, error)
	plainBuilder struct{ *customBuilder }
)

func (b valueBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	return b.l[0].BuildFragment(ctx)
}
func (b sliceBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	return b[0].BuildFragment(ctx)
}
func (b mapBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	return b[""].BuildFragment(ctx)
}
func (b funcBuilder) BuildFragment(ctx *sqlf.Context) (string, error) { return b(ctx) }

// realizer creates the objects of the library for mNodes. A node that is
// referenced several times becomes one shared object.
type realizer struct {
	memo map[*mNode]sqlf.FragmentBuilder
	rng  *rand.Rand // chooses between equivalent ways to create, may be nil
	// track makes all slices that are passed to the library have spare
	// capacity with sentinels, and keeps them for checkTracked
	track   bool
	tracked []func() string
	// leave leaves some of the changes of fragments and calls of query
	// builders for later, to be made by flush
	leave bool
	late  []func()
}

// sentinel stands in the spare capacity of slices.
type sentinel struct{ n int }

// BuildFragment makes a sentinel visible if it ever gets built.
func (s *sentinel) BuildFragment(*sqlf.Context) (string, error) {
	return fmt.Sprintf("<sentinel %d>", s.n), nil
}

// callerSlice returns a slice with the given elements, as passed by callers.
func callerSlice[E any](r *realizer, elems []E, spare func(i int) E) []E {
	if !r.track {
		return append([]E{}, elems...)
	}
	n := len(elems)
	extra := r.pick(4)
	s := make([]E, 0, n+extra)
	s = append(s, elems...)
	full := s[:n+extra]
	for i := n; i < len(full); i++ {
		full[i] = spare(i)
	}
	snap := append([]E{}, full...)
	r.tracked = append(r.tracked, func() string {
		for i := range full {
			if !sameValue(any(snap[i]), any(full[i])) {
				return fmt.Sprintf("element %d of a caller's slice (length %d, capacity %d) changed from %s to %s", i, n, len(full), descValue(snap[i]), descValue(full[i]))
			}
		}
		return ""
	})
	return s
}

// checkTracked tells which of the slices of the caller changed, and which of
// the fragments differs from what it was made of.
func (r *realizer) checkTracked() string {
	for _, f := range r.tracked {
		if d := f(); d != "" {
			return d
		}
	}
	for n, b := range r.memo {
		if n.Kind != nFrag {
			continue
		}
		f, ok := b.(*sqlf.Fragment)
		if !ok || f == nil {
			continue
		}
		if f.Raw != n.Raw || f.Prefix != n.Prefix || f.Suffix != n.Suffix {
			return fmt.Sprintf("fragment %q prefix %q suffix %q was changed to %q prefix %q suffix %q", n.Raw, n.Prefix, n.Suffix, f.Raw, f.Prefix, f.Suffix)
		}
		if len(f.Args) != len(n.Args) || len(f.Fragments) != len(n.Kids) {
			return fmt.Sprintf("fragment %q has now %d args and %d fragments, it had %d and %d", n.Raw, len(f.Args), len(f.Fragments), len(n.Args), len(n.Kids))
		}
		for i := range f.Args {
			if !sameValue(n.Args[i], f.Args[i]) {
				return fmt.Sprintf("arg %d of fragment %q changed from %s to %s", i+1, n.Raw, descValue(n.Args[i]), descValue(f.Args[i]))
			}
		}
		for i := range f.Fragments {
			if want, ok := r.memo[n.Kids[i]]; ok && !sameValue(want, f.Fragments[i]) {
				return fmt.Sprintf("fragment %d of fragment %q was replaced by %s", i+1, n.Raw, descValue(f.Fragments[i]))
			}
		}
	}
	return ""
}

func (r *realizer) argSlice(args []any) []any {
	return callerSlice(r, args, func(i int) any { return &sentinel{i} })
}

func (r *realizer) kidSlice(kids []sqlf.FragmentBuilder) []sqlf.FragmentBuilder {
	return callerSlice(r, kids, func(i int) sqlf.FragmentBuilder { return &sentinel{i} })
}

// wrappedQuery is a query builder extended by the user, as recommended.
type wrappedQuery struct {
	*sqlb.QueryBuilder
	extra int
}

type moreWrapped struct{ wrappedQuery }

func newRealizer(rng *rand.Rand) *realizer {
	return &realizer{memo: map[*mNode]sqlf.FragmentBuilder{}, rng: rng}
}

func (r *realizer) pick(n int) int {
	if r.rng == nil {
		return 0
	}
	return r.rng.Intn(n)
}

// flush makes the changes that were left for later, after what they change
// was given to others.
func (r *realizer) flush() {
	r.leave = false
	for len(r.late) > 0 {
		i := r.pick(len(r.late))
		f := r.late[i]
		r.late = append(r.late[:i], r.late[i+1:]...)
		f()
	}
}

func (r *realizer) builder(n *mNode) sqlf.FragmentBuilder {
	if b, ok := r.memo[n]; ok {
		return b
	}
	var b sqlf.FragmentBuilder
	switch n.Kind {
	case nNil:
		if n.Name == "query" {
			b = (*sqlb.QueryBuilder)(nil)
		} else {
			b = (*sqlf.Fragment)(nil)
		}
	case nTable:
		b = sqlb.Table(n.Name)
	case nAliased:
		ta := sqlb.NewTableAliased(sqlb.Table(n.Name), sqlb.Table(n.Alias))
		if r.pick(3) == 0 {
			ta = sqlb.NewTableAliased(sqlb.Table(n.Name), "other").WithAlias(sqlb.Table(n.Alias))
		}
		b = ta
	case nColumn, nExprCol:
		b = r.newColumn(n)
	case nCustom:
		c := &customBuilder{n.Segs, n.Fail}
		switch r.pick(12) {
		case 1:
			b = valueBuilder{[]*customBuilder{c}}
		case 2:
			b = sliceBuilder{c}
		case 3:
			b = mapBuilder{"": c}
		case 4:
			b = funcBuilder(c.BuildFragment)
		case 5:
			b = plainBuilder{c}
		default:
			b = c
		}
	case nQuery:
		q := r.query(n.Query)
		switch r.pick(8) { // builders are meant to be wrapped
		case 0:
			b = &wrappedQuery{q, 1}
		case 1:
			b = struct{ *sqlb.QueryBuilder }{q}
		case 2:
			b = &moreWrapped{wrappedQuery{q, 1}}
		default:
			b = q
		}
	case nDerive:
		b = &derivingBuilder{realFuncs(n.Funcs), r.builder(n.Kids[0])}
	default:
		b = r.newFragment(n)
	}
	r.memo[n] = b
	return b
}

func (r *realizer) newColumn(n *mNode) *sqlb.Column {
	if n.Kind == nExprCol {
		if n.Kids[0].Kind == nNil {
			return sqlb.ExprColumn(nil)
		}
		f := r.builder(n.Kids[0]).(*sqlf.Fragment)
		if r.pick(3) == 0 {
			before, after := r.around()
			fs := make([]*sqlf.Fragment, 0, before+1+after)
			for i := 0; i < before+1+after; i++ {
				if i == before {
					fs = append(fs, f)
				} else {
					fs = append(fs, sqlf.F("another expression"))
				}
			}
			return sqlb.ExprColumns(fs...)[before]
		}
		return sqlb.ExprColumn(f)
	}
	t := sqlb.Table(n.Alias)
	viaAliased := n.Alias != "" && r.pick(2) == 0
	ta := sqlb.NewTableAliased("some_table", t)
	if r.pick(2) == 0 {
		ta = sqlb.NewTableAliased(t, "")
	}
	// by itself, or among other columns of the table
	if r.pick(2) == 0 {
		switch {
		case n.Anon && viaAliased:
			return ta.AnonymousColumn(n.Name)
		case n.Anon:
			return t.AnonymousColumn(n.Name)
		case viaAliased:
			return ta.Column(n.Name)
		}
		return t.Column(n.Name)
	}
	before, after := r.around()
	names := make([]string, before+1+after)
	for i := range names {
		names[i] = "x"
	}
	names[before] = n.Name
	var cols []*sqlb.Column
	switch {
	case n.Anon && viaAliased:
		cols = ta.AnonymousColumns(names...)
	case n.Anon:
		cols = t.AnonymousColumns(names...)
	case viaAliased:
		cols = ta.Columns(names...)
	default:
		cols = t.Columns(names...)
	}
	return cols[before]
}

// around is how many others stand before and after one in a list.
func (r *realizer) around() (before, after int) {
	n := 3
	if r.pick(8) == 0 {
		n = 80
	}
	return r.pick(n), r.pick(n)
}

func (r *realizer) column(n *mNode) *sqlb.Column {
	return r.builder(n).(*sqlb.Column)
}

func (r *realizer) fragment(n *mNode) *sqlf.Fragment {
	return r.builder(n).(*sqlf.Fragment)
}

func (r *realizer) newFragment(n *mNode) *sqlf.Fragment {
	kids := make([]sqlf.FragmentBuilder, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = r.builder(k)
	}
	kids = r.kidSlice(kids)
	args := r.argSlice(n.Args)
	var f *sqlf.Fragment
	if r.leave && !r.track && r.pick(3) == 0 { // changed when it is in use
		f = sqlf.F(n.Raw)
		switch na, nk := r.pick(len(args)+1), r.pick(len(kids)+1); r.pick(3) {
		case 0:
			f.WithArgs(args[:na]...).WithFragments(kids[:nk]...).WithPrefix(n.Prefix)
			r.late = append(r.late, func() { f.AppendArgs(args[na:]...).AppendFragments(kids[nk:]...).WithSuffix(n.Suffix) })
		case 1:
			f.WithArgs("replaced").WithFragments(kids...).WithPrefix("replaced")
			r.late = append(r.late, func() { f.WithArgs(args...).WithPrefix(n.Prefix).WithSuffix(n.Suffix) })
		default:
			f.Raw, f.Args = "replaced", args
			r.late = append(r.late, func() {
				f.Raw, f.Fragments, f.Prefix, f.Suffix = n.Raw, kids, n.Prefix, n.Suffix
			})
		}
		return f
	}
	switch r.pick(4) {
	case 0:
		if r.track { // for AppendArgs() it is a slice of the fragment itself
			args, kids = append([]any{}, args...), append([]sqlf.FragmentBuilder{}, kids...)
		}
		return &sqlf.Fragment{Raw: n.Raw, Args: args, Fragments: kids, Prefix: n.Prefix, Suffix: n.Suffix}
	case 1:
		f = sqlf.Fa(n.Raw, args...)
		f = r.either(f, f.WithFragments(kids...))
	case 2:
		f = sqlf.Ff(n.Raw, kids...)
		f = r.either(f, f.WithArgs(args...))
	default:
		f = sqlf.F(n.Raw)
		na, nk := r.pick(len(args)+1), r.pick(len(kids)+1)
		f.WithArgs(args[:na]...).WithFragments(kids[:nk]...)
		f = r.either(f, f.AppendArgs(args[na:]...))
		for _, k := range kids[nk:] {
			f = r.either(f, f.AppendFragments(k))
		}
	}
	return f.WithPrefix(n.Prefix).WithSuffix(n.Suffix)
}

// either is one of two names of a fragment.
func (r *realizer) either(f, returned *sqlf.Fragment) *sqlf.Fragment {
	if r.pick(2) == 0 {
		return f
	}
	return returned
}

// buildIn builds b in a new context with the functions of the scopes.
func buildIn(b sqlf.FragmentBuilder, style syntax.BindVarStyle, scope *mScope) (string, []any, error) {
	ctx, err := newContext(style, scope)
	if err != nil {
		return "", nil, err
	}
	q, err := b.BuildFragment(ctx)
	if err != nil {
		return q, nil, err
	}
	return q, ctx.Args(), nil
}

func newContext(style syntax.BindVarStyle, scope *mScope) (*sqlf.Context, error) {
	if scope == nil || scope == builtinScope {
		return sqlf.NewContext(style), nil
	}
	ctx, err := newContext(style, scope.parent)
	if err != nil {
		return nil, err
	}
	return sqlf.ContextWithFuncs(ctx, realFuncs(scope.funcs))
}

func realFuncs(l map[string]*mFunc) sqlf.FuncMap {
	funcs := sqlf.FuncMap{}
	for name, f := range l {
		funcs[name] = f.Construct
	}
	return funcs
}

// derivingBuilder builds in a context of its own with more functions.
type derivingBuilder struct {
	funcs sqlf.FuncMap
	kid   sqlf.FragmentBuilder
}

func (d *derivingBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	c, err := sqlf.ContextWithFuncs(ctx, d.funcs)
	if err != nil {
		return "", err
	}
	return d.kid.BuildFragment(c)
}

func isHashable(v any) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return map[any]bool{v: true} != nil
}

// sameValue reports whether got is the value want: of the same dynamic type
// and, if it has an identity, the same object.
func sameValue(want, got any) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	w, g := reflect.ValueOf(want), reflect.ValueOf(got)
	if w.Type() != g.Type() {
		return false
	}
	switch w.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(w.Float()) == math.Float64bits(g.Float())
	case reflect.Slice:
		return w.IsNil() == g.IsNil() && w.Len() == g.Len() && (w.Len() == 0 || w.Pointer() == g.Pointer())
	case reflect.Map, reflect.Func:
		return w.Pointer() == g.Pointer()
	}
	if isHashable(want) && isHashable(got) && want == got {
		return true
	}
	return reflect.DeepEqual(want, got)
}

// equalArgs tells if two args must be merged with dollar style.
func equalArgs(a, b any) bool {
	return isHashable(a) && isHashable(b) && a == b
}

// matchQuestion compares a build with question style.
func matchQuestion(segs []seg, query string, args []any) string {
	b := new(strings.Builder)
	var want []any
	for _, s := range segs {
		if s.bind {
			b.WriteByte('?')
			want = append(want, s.val)
		} else {
			b.WriteString(s.text)
		}
	}
	if b.String() != query {
		return diffText("query", query, b.String())
	}
	if len(args) != len(want) {
		return fmt.Sprintf("got %d args, want %d\nquery: %q", len(args), len(want), clip(query, 400))
	}
	for i := range args {
		if !sameValue(want[i], args[i]) {
			return fmt.Sprintf("arg %d: got %s, want %s\nquery: %q", i+1, descValue(args[i]), descValue(want[i]), clip(query, 400))
		}
	}
	return ""
}

// matchDollar compares a build with dollar style: each placeholder must name
// an arg with the value expected there, all args must be named, and equal args
// must be merged. The numbering itself is not prescribed.
func matchDollar(segs []seg, query string, args []any, known []any) string {
	rest := query
	used := make([]bool, len(args))
	for i := range known {
		if i < len(used) {
			used[i] = true
		}
	}
	for i, s := range segs {
		if !s.bind {
			if !strings.HasPrefix(rest, s.text) {
				return diffText("query", query, renderDollar(segs, known)) + fmt.Sprintf("\nat segment %d", i)
			}
			rest = rest[len(s.text):]
			continue
		}
		if rest == "" || rest[0] != '$' {
			return diffText("query", query, renderDollar(segs, known)) + fmt.Sprintf("\nat segment %d", i)
		}
		// a placeholder followed by literal digits is ambiguous; take the
		// first split that allows the rest to go on
		n := 1
		for n < len(rest) && isDigit(rest[n]) {
			n++
		}
		if i+1 < len(segs) && !segs[i+1].bind {
			lead := 0
			for lead < len(segs[i+1].text) && isDigit(segs[i+1].text[lead]) {
				lead++
			}
			n -= lead
		}
		if n < 2 {
			return diffText("query", query, renderDollar(segs, known)) + fmt.Sprintf("\nat segment %d", i)
		}
		k, err := strconv.Atoi(rest[1:n])
		if err != nil || k < 1 || k > len(args) || rest[1] == '0' {
			return fmt.Sprintf("placeholder %q names no arg (%d args)\nquery: %q", rest[:n], len(args), clip(query, 400))
		}
		rest = rest[n:]
		used[k-1] = true
		if !equalArgs(s.val, args[k-1]) && !sameValue(s.val, args[k-1]) || reflect.TypeOf(s.val) != reflect.TypeOf(args[k-1]) {
			return fmt.Sprintf("placeholder $%d (bind %d): bound to %s, want %s\nquery: %q", k, i, descValue(args[k-1]), descValue(s.val), clip(query, 400))
		}
	}
	if rest != "" {
		return diffText("query", query, renderDollar(segs, known))
	}
	for i, u := range used {
		if !u {
			return fmt.Sprintf("arg %d (%s) has no placeholder\nquery: %q", i+1, descValue(args[i]), clip(query, 400))
		}
	}
	seen := map[any]int{}
	for i, a := range args {
		if !isHashable(a) {
			continue
		}
		if j, ok := seen[a]; ok {
			return fmt.Sprintf("args %d and %d are equal: %s\nquery: %q", j+1, i+1, descValue(a), clip(query, 400))
		}
		seen[a] = i
	}
	return ""
}

func renderDollar(segs []seg, known []any) string {
	b := new(strings.Builder)
	args := append([]any{}, known...)
	for _, s := range segs {
		if !s.bind {
			b.WriteString(s.text)
			continue
		}
		k := -1
		for i, a := range args {
			if equalArgs(a, s.val) {
				k = i
				break
			}
		}
		if k < 0 {
			args = append(args, s.val)
			k = len(args) - 1
		}
		fmt.Fprintf(b, "$%d", k+1)
		if b.Len() > 4000 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

func matchBuild(style syntax.BindVarStyle, segs []seg, query string, args []any) string {
	if style == syntax.Dollar {
		return matchDollar(segs, query, args, nil)
	}
	return matchQuestion(segs, query, args)
}

func diffText(what, got, want string) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	from := n - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string { return clip(s[from:], 400) }
	return fmt.Sprintf("%s differs at byte %d:\n got  ...%q\n want ...%q", what, n, cut(got), cut(want))
}

func descValue(v any) string {
	return clip(fmt.Sprintf("%T(%+v)", v, v), 160)
}

func styleName(s syntax.BindVarStyle) string {
	if s == syntax.Dollar {
		return "dollar"
	}
	return "question"
}

var styles = []syntax.BindVarStyle{syntax.Dollar, syntax.Question}

// describe writes the node tree for reports.
func describe(n *mNode) string {
	b := new(strings.Builder)
	describeTo(b, n, 0, map[*mNode]bool{})
	return clip(b.String(), 6000)
}

func describeTo(b *strings.Builder, n *mNode, depth int, seen map[*mNode]bool) {
	if b.Len() > 8000 {
		return
	}
	ind := strings.Repeat("  ", depth)
	switch n.Kind {
	case nNil:
		fmt.Fprintf(b, "%snil\n", ind)
	case nTable, nAliased:
		fmt.Fprintf(b, "%stable %q alias %q\n", ind, n.Name, n.Alias)
	case nColumn:
		fmt.Fprintf(b, "%scolumn %q.%q anon=%v\n", ind, n.Alias, n.Name, n.Anon)
	case nExprCol:
		fmt.Fprintf(b, "%sexpr column\n", ind)
	case nDerive:
		fmt.Fprintf(b, "%sderived context %v\n", ind, funcNames(n.Funcs))
	case nCustom:
		fmt.Fprintf(b, "%scustom %v fail=%v\n", ind, len(n.Segs), n.Fail)
	case nQuery:
		fmt.Fprintf(b, "%squery builder:\n%s", ind, n.Query.describe(depth+1))
		return
	default:
		fmt.Fprintf(b, "%sfragment %q", ind, clip(n.Raw, 300))
		if n.Prefix != "" || n.Suffix != "" {
			fmt.Fprintf(b, " prefix %q suffix %q", clip(n.Prefix, 60), clip(n.Suffix, 60))
		}
		for i, a := range n.Args {
			if i > 20 {
				fmt.Fprintf(b, " ...(%d args)", len(n.Args))
				break
			}
			fmt.Fprintf(b, " [%s]", clip(descValue(a), 60))
		}
		b.WriteString("\n")
	}
	if seen[n] && len(n.Kids) > 0 {
		fmt.Fprintf(b, "%s  (shared, see above)\n", ind)
		return
	}
	seen[n] = true
	for i, k := range n.Kids {
		if i > 20 {
			fmt.Fprintf(b, "%s  ...(%d fragments)\n", ind, len(n.Kids))
			break
		}
		describeTo(b, k, depth+1, seen)
	}
}

func funcNames(m map[string]*mFunc) (l []string) {
	for name := range m {
		l = append(l, name)
	}
	sort.Strings(l)
	return l
}
