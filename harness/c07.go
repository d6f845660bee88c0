package main

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "random histories of builds, appends, builder calls and uses as a part of something else over fragments, columns and builders that share args, slices (with sentinels in their spare capacity) and each other; after each step all slices and fragments of the caller are compared with what they were, and each build with a build of freshly made identical objects; non-trivial: at least two builds; distinct by the described history",
		Required: []string{"built again", "failed build", "build after a failed build", "append", "append to sibling", "used as join condition", "used as where condition",
			"used as sub-fragment", "returned args overwritten", "both styles", "debug", "query built again", "sub-query", "tracked slices", "error again", "long look-alikes", "edited", "edited copy"},
		Phases: []Phase{
			{Name: "fragments", Quick: 12000, Thorough: 500000, Run: c07Fragments},
			{Name: "trees", Quick: 12000, Thorough: 500000, Run: c07Trees},
			{Name: "builders", Quick: 9000, Thorough: 300000, Run: c07Builders},
			{Name: "edits", Quick: 10000, Thorough: 400000, Run: c07Edits},
			{Name: "look-alikes", Quick: 6000, Thorough: 200000, Run: c07LookAlikes},
			{Name: "appends", Quick: 10000, Thorough: 300000, Run: c07Appends},
		},
		Assumptions: []string{"the library only sees the fragments through its public API; fields of Fragment are exported and read by the monitor directly",
			"a fragment whose exported Args or Fragments field was set directly owns that slice"},
	})
}

// outcome of a build
type outcome struct {
	query string
	args  []any
	err   error
}

func (o outcome) diff(p outcome) string {
	if (o.err != nil) != (p.err != nil) {
		return fmt.Sprintf("error %v, want %v", o.err, p.err)
	}
	if o.query != p.query {
		return diffText("query", o.query, p.query)
	}
	if len(o.args) != len(p.args) || (o.args == nil) != (p.args == nil) {
		return fmt.Sprintf("%d args %s, want %d %s", len(o.args), descValue(o.args), len(p.args), descValue(p.args))
	}
	for i := range o.args {
		if !sameValue(p.args[i], o.args[i]) {
			return fmt.Sprintf("arg %d is %s, want %s", i+1, descValue(o.args[i]), descValue(p.args[i]))
		}
	}
	return ""
}

// mustMatch compares a build with the reference and with the build of a fresh
// identical object.
func (t *T) mustMatch(when string, style syntax.BindVarStyle, n *mNode, scope *mScope, got outcome) {
	segs, merr := t.evalModel(n, scope)
	if merr != nil && got.err != nil {
		t.Feat("failed build")
	}
	t.compareBuild(when, style, segs, merr, got.query, got.args, got.err)
	var fresh outcome
	fresh.query, fresh.args, fresh.err = buildIn(newRealizer(nil).builder(n), style, scope)
	if d := got.diff(fresh); d != "" {
		t.Failf("%s, %s style: differs from a fresh object: %s", when, styleName(style), d)
	}
}

// c07History keeps the state of a case.
type c07History struct {
	*T
	r      *realizer
	log    []string
	built  map[any]int
	styles map[syntax.BindVarStyle]bool
	failed bool
	builds int
}

func newC07(t *T) *c07History {
	h := &c07History{T: t, r: newRealizer(t.Rand), built: map[any]int{}, styles: map[syntax.BindVarStyle]bool{}}
	h.r.track = true
	return h
}

func (h *c07History) note(format string, a ...any) {
	h.log = append(h.log, fmt.Sprintf(format, a...))
}

func (h *c07History) verify() {
	if d := h.r.checkTracked(); d != "" {
		h.Failf("after %s: %s", h.log[len(h.log)-1], d)
	}
}

// build builds b, which is described by n.
func (h *c07History) build(b sqlf.FragmentBuilder, n *mNode, scope *mScope) {
	style := styles[h.Intn(2)]
	h.note("build %s of %s", styleName(style), clip(describe(n), 80))
	var got outcome
	if q, ok := b.(sqlf.QueryBuilder); ok && (scope == nil || scope == builtinScope) && h.Intn(2) == 0 {
		got.query, got.args, got.err = q.BuildQuery(style)
	} else {
		got.query, got.args, got.err = buildIn(b, style, scope)
	}
	if scope == nil {
		scope = builtinScope
	}
	h.mustMatch(h.log[len(h.log)-1], style, n, scope, got)
	h.builds++
	h.styles[style] = true
	if len(h.styles) == 2 {
		h.Feat("both styles")
	}
	if h.built[n] > 0 {
		h.Feat("built again")
		if got.err != nil {
			h.Feat("error again")
		}
		if h.failed && got.err == nil {
			h.Feat("build after a failed build")
		}
	}
	h.built[n]++
	h.failed = h.failed || got.err != nil
	if len(got.args) > 0 && h.Intn(3) == 0 {
		h.note("overwrite the returned args")
		full := got.args[:cap(got.args)]
		for i := range full {
			full[i] = &sentinel{-1}
		}
		h.Feat("returned args overwritten")
	}
	h.verify()
	if len(h.r.tracked) > 0 {
		h.Feat("tracked slices")
	}
}

// c07Fragments works on a few fragments.
func c07Fragments(t *T, idx int) {
	h := newC07(t)
	g := newGen(t)
	g.faults = t.Intn(2) == 0
	g.faultRate = 10
	g.usualArgs(4)
	scope := standardFuncs(builtinScope, []any{1, "p"}, []*mNode{{Raw: "p ?", Args: []any{7}}})
	if t.Intn(2) == 0 {
		g.custom = []string{"num", "odd", "garg"}
	}
	var nodes []*mNode
	for i := 1 + t.Intn(3); i > 0; i-- {
		g.budget = 10
		nodes = append(nodes, g.frag(t.Intn(3)))
	}
	t.desc = func() string {
		s := strings.Join(h.log, "\n") + "\n"
		for _, n := range nodes {
			s += describe(n)
		}
		return s
	}
	for steps := 4 + t.Intn(12); steps > 0; steps-- {
		n := nodes[t.Intn(len(nodes))]
		switch t.Intn(12) {
		case 0: // part of another fragment
			m := &mNode{Raw: g.oneOf("(#f1)", "#join('#f', ',')", "#f1 ? #f1"), Kids: []*mNode{n}}
			if strings.Contains(m.Raw, "?") {
				m.Args = []any{g.value()}
			}
			if t.Intn(2) == 0 {
				m.Prefix = "P"
			}
			nodes = append(nodes, m)
			h.note("new fragment %q around %q", m.Raw, n.Raw)
			h.r.builder(m)
			h.Feat("used as sub-fragment")
		case 1: // condition of a builder
			col := &mNode{Kind: nColumn, Name: "id", Alias: "t"}
			q := &mQuery{Ops: []*mOp{{Kind: opFrom, Name: "t"}, {Kind: opSelect, Cols: []*mNode{col}}}}
			f := wrapFrag(n)
			switch t.Intn(4) {
			case 0, 1:
				o := &mOp{Kind: opJoin, Text: joinTypes[t.Intn(4)], Name: "j", Node: f}
				if o.Text == "LEFT JOIN" {
					o.Optional = t.Intn(2) == 0
				}
				q.Ops = append(q.Ops, o)
				if t.Intn(2) == 0 { // join twice
					q.Ops = append(q.Ops, &mOp{Kind: opJoin, Text: "INNER JOIN", Name: "j", Node: f})
				}
				h.Feat("used as join condition")
			case 2:
				q.Ops = append(q.Ops, &mOp{Kind: opWhere, Node: f})
				h.Feat("used as where condition")
			case 3:
				q.Ops = append(q.Ops, &mOp{Kind: opGroupBy, Cols: []*mNode{{Kind: nExprCol, Kids: []*mNode{f}}}})
			}
			b := &mNode{Kind: nQuery, Query: q}
			nodes = append(nodes, b)
			h.note("new query builder with %q", clip(f.Raw, 60))
			h.r.builder(b)
		case 2:
			if n.Kind != nFrag {
				continue
			}
			f := h.r.fragment(n)
			if t.Intn(2) == 0 {
				n.Prefix = g.affix()
				f.WithPrefix(n.Prefix)
			} else {
				n.Suffix = g.affix()
				f.WithSuffix(n.Suffix)
			}
			h.note("set prefix or suffix of %q", clip(n.Raw, 60))
		default:
			s := scope
			if len(g.custom) == 0 || t.Intn(4) == 0 {
				s = builtinScope
			}
			h.build(h.r.builder(n), n, s)
			continue
		}
		h.verify()
	}
	if h.builds > 1 {
		t.Key(t.desc())
	}
	t.Sample(t.desc())
}

// c07Trees builds larger trees and their parts repeatedly.
func c07Trees(t *T, idx int) {
	h := newC07(t)
	g := newGen(t)
	g.faults = t.Intn(3) == 0
	g.faultRate = 25
	n := g.frag(1 + t.Intn(3))
	t.desc = func() string { return strings.Join(h.log, "\n") + "\n" + describe(n) }
	b := h.r.builder(n)
	for k := 2 + t.Intn(4); k > 0; k-- {
		if t.Intn(3) == 0 && len(g.nodes) > 0 {
			part := g.nodes[t.Intn(len(g.nodes))]
			h.build(h.r.builder(part), part, builtinScope)
			continue
		}
		h.build(b, n, builtinScope)
	}
	t.Key(t.desc())
}

// c07LookAlikes builds fragments whose texts or contents differ in one spot
// only, one after the other.
func c07LookAlikes(t *T, idx int) {
	h := newC07(t)
	g := newGen(t)
	t.desc = func() string { return strings.Join(h.log, "\n") }
	pad := func() string {
		n := []int{0, 1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 511, 512, 1000, 1023, 1024, 2047, 2048, 4096, 5000}[t.Intn(26)]
		var b strings.Builder
		unit := g.oneOf("x", "abc ", "é", "SELECT a FROM b WHERE ", "'q' ", "?? ")
		for b.Len() < n {
			b.WriteString(unit)
		}
		return b.String()
	}
	before, after := pad(), pad()
	spots := []string{"a", "b", "#f1", "#f2", "?", "$1", "#arg1", "#arg2", "'#f1'", "A", "??", "$$", "#join('#f', ',')", "#join('#f', ';')", "#join('#arg', ',')", " ", "#f1 #f2", "#nope", "#f(", "#join('#f#arg', '')", "#join('#arg#f', '')"}
	var nodes []*mNode
	base := &mNode{Args: []any{g.value(), g.value()}, Kids: []*mNode{{Raw: "k1"}, {Raw: "?", Args: []any{g.value()}}}}
	use := " #arg1 #arg2 #f1 #f2"
	for i := 2 + t.Intn(5); i > 0; i-- {
		n := &mNode{Args: base.Args, Kids: base.Kids}
		spot := spots[t.Intn(len(spots))]
		switch t.Intn(6) {
		case 0: // the same text with other contents
			n.Raw = before + spots[0] + after + use
			n.Args = []any{g.value(), g.value()}
			n.Kids = []*mNode{{Raw: "K1"}, {Raw: ""}}
		case 1:
			n.Raw = before + spot + after + use
			n.Prefix = g.oneOf("", "P", "Q")
		case 2: // inside of a template
			n.Raw = "#join(" + quoteArg(before+spot+after+" #f") + ", ',')" + use
		case 3:
			n.Raw = "#join('#f', " + quoteArg(before+spot+after) + ")" + use
		default:
			n.Raw = before + spot + after + use
		}
		nodes = append(nodes, n)
	}
	if len(before)+len(after) > 64 {
		t.Feat("long look-alikes")
	}
	for k := 3 + t.Intn(8); k > 0; k-- {
		n := nodes[t.Intn(len(nodes))]
		h.build(newRealizer(nil).builder(n), n, builtinScope)
	}
	t.Key(t.desc())
}

// c07Builders works on query builders which share columns, conditions and
// each other.
func c07Builders(t *T, idx int) {
	h := newC07(t)
	g := newQGen(t)
	g.misuse = 15
	g.loose = t.Intn(4) == 0
	var qs []*mQuery
	for i := 1 + t.Intn(3); i > 0; i-- {
		g.budget = 30
		q := g.query(t.Intn(3))
		if len(qs) > 0 && t.Intn(2) == 0 { // one within the other
			sub := &mNode{Kind: nQuery, Query: qs[t.Intn(len(qs))]}
			switch t.Intn(3) {
			case 0:
				q.Ops = append(q.Ops, &mOp{Kind: opUnion, Cols: []*mNode{sub}})
			case 1:
				q.Ops = append(q.Ops, &mOp{Kind: opWhere, Node: &mNode{Raw: "x IN (#f1)", Kids: []*mNode{sub}}})
			case 2:
				q.Ops = append(q.Ops, &mOp{Kind: opSelect, Cols: []*mNode{{Kind: nExprCol, Kids: []*mNode{{Raw: "(#f1)", Kids: []*mNode{sub}}}}}})
			}
		}
		qs = append(qs, q)
	}
	t.desc = func() string {
		s := strings.Join(h.log, "\n") + "\n"
		for i, q := range qs {
			s += fmt.Sprintf("builder %d:\n%s", i, q.describe(1))
		}
		return s
	}
	lists := map[*mOp]string{}
	for _, q := range qs {
		for _, o := range q.Ops {
			if o.Kind == opWhereIn || o.Kind == opWhereNotIn {
				lists[o] = fmt.Sprintf("%#v", o.Arg)
			}
		}
	}
	bs := make([]*sqlb.QueryBuilder, len(qs))
	done := make([]int, len(qs))
	builds := make([]int, len(qs))
	for i := range bs {
		bs[i] = sqlb.NewQueryBuilder()
	}
	// builders that are a part of another one are complete from the start:
	// the realizer makes them on demand, in full.
	for steps := 6 + t.Intn(12); steps > 0; steps-- {
		i := t.Intn(len(qs))
		if done[i] < len(qs[i].Ops) && t.Intn(2) == 0 {
			n := 1 + t.Intn(len(qs[i].Ops)-done[i])
			h.note("calls %d to %d on builder %d", done[i], done[i]+n, i)
			h.r.applyOps(bs[i], qs[i].Ops[done[i]:done[i]+n])
			done[i] += n
			builds[i] = 0
		} else if t.Intn(6) == 0 && done[i] > 0 {
			// a part of it alone
			o := qs[i].Ops[t.Intn(done[i])]
			l := o.Cols
			if o.Node != nil {
				l = append([]*mNode{o.Node}, l...)
			}
			if len(l) > 0 {
				n := l[t.Intn(len(l))]
				h.build(h.r.builder(n), n, builtinScope)
			}
		} else {
			if t.Intn(8) == 0 {
				bs[i].Debug()
				h.note("debug builder %d", i)
				h.Feat("debug")
			}
			style := styles[t.Intn(2)]
			h.note("build %s of builder %d after %d calls", styleName(style), i, done[i])
			var got outcome
			got.query, got.args, got.err = t.buildQB(bs[i], style)
			n := &mNode{Kind: nQuery, Query: &mQuery{Ops: qs[i].Ops[:done[i]]}}
			h.mustMatch(h.log[len(h.log)-1], style, n, builtinScope, got)
			h.builds++
			if builds[i]++; builds[i] > 1 {
				h.Feat("query built again")
			}
			full := got.args[:cap(got.args)]
			for k := range full {
				full[k] = &sentinel{-1}
			}
		}
		h.verify()
		for o, s := range lists {
			if now := fmt.Sprintf("%#v", o.Arg); now != s {
				t.Failf("after %s: list of IN changed from %s to %s", h.log[len(h.log)-1], s, now)
			}
		}
	}
	if h.builds > 1 {
		t.Key(t.desc())
	}
	t.Sample(t.desc())
}

// c07Edits changes the exported fields of fragments that have been built.
func c07Edits(t *T, idx int) {
	h := newC07(t)
	g := newGen(t)
	g.faults = t.Intn(3) == 0
	g.faultRate = 25
	n := g.frag(t.Intn(3))
	t.desc = func() string { return strings.Join(h.log, "\n") + "\n" + describe(n) }
	h.r.builder(n)
	owned := map[*mNode]bool{}
	edits := 0
	for steps := 4 + t.Intn(10); steps > 0; steps-- {
		if t.Intn(2) == 0 {
			h.build(h.r.builder(n), n, builtinScope)
			continue
		}
		// one of the fragments in the tree
		var l []*mNode
		seen := map[*mNode]bool{}
		var collect func(n *mNode)
		collect = func(n *mNode) {
			if n.Kind != nFrag || seen[n] {
				return
			}
			seen[n] = true
			l = append(l, n)
			for _, k := range n.Kids {
				collect(k)
			}
		}
		collect(n)
		e := l[t.Intn(len(l))]
		f := h.r.fragment(e)
		edits++
		g.nodes = nil // nothing new refers to e
		switch k := t.Intn(6); {
		case k == 0 && len(e.Args) > 0:
			if !owned[e] {
				e.Args = append([]any{}, e.Args...)
				f.Args = append([]any{}, e.Args...)
				owned[e] = true
				h.build(h.r.builder(n), n, builtinScope)
			}
			i := t.Intn(len(e.Args))
			e.Args[i] = g.value()
			f.Args[i] = e.Args[i]
			h.note("arg %d of %q is %s", i+1, clip(e.Raw, 60), descValue(e.Args[i]))
		case k == 1:
			f.Prefix, f.Suffix = g.affix(), g.affix()
			e.Prefix, e.Suffix = f.Prefix, f.Suffix
			h.note("new prefix and suffix of %q", clip(e.Raw, 60))
		case k == 2 && len(e.Kids) > 0:
			i := t.Intn(len(e.Kids))
			kid := g.leaf()
			e.Kids = append([]*mNode{}, e.Kids...)
			e.Kids[i] = kid
			f.Fragments = append([]sqlf.FragmentBuilder{}, f.Fragments...)
			f.Fragments[i] = h.r.builder(kid)
			h.note("new fragment %d of %q", i+1, clip(e.Raw, 60))
		case k == 3:
			// the original is left alone from now on
			c := *f
			m := *e
			c.Raw += " -- copy"
			m.Raw = c.Raw
			h.r.memo[&m] = &c
			h.build(&c, &m, builtinScope)
			h.Feat("edited copy")
			continue
		default:
			g.budget = 6
			m := g.frag(t.Intn(2))
			e.Raw, e.Prefix, e.Suffix = m.Raw, m.Prefix, m.Suffix
			e.Args, e.Kids = m.Args, m.Kids
			f.Raw = m.Raw
			f.WithPrefix(m.Prefix).WithSuffix(m.Suffix)
			kids := make([]sqlf.FragmentBuilder, len(m.Kids))
			for i, k := range m.Kids {
				kids[i] = h.r.builder(k)
			}
			owned[e] = t.Intn(2) == 0
			if owned[e] {
				e.Args = append([]any{}, m.Args...)
				f.Args, f.Fragments = append([]any{}, m.Args...), kids
			} else {
				f.WithArgs(h.r.argSlice(m.Args)...).WithFragments(h.r.kidSlice(kids)...)
			}
			h.note("new text %q", clip(e.Raw, 60))
		}
		h.Feat("edited")
		h.verify()
	}
	h.build(h.r.builder(n), n, builtinScope)
	if edits > 0 {
		t.Key(t.desc())
	}
	t.Sample(t.desc())
}

// c07Appends appends to fragments that were made from the same slices.
func c07Appends(t *T, idx int) {
	h := newC07(t)
	g := newGen(t)
	g.clean = true
	type obj struct {
		n *mNode
		f *sqlf.Fragment
	}
	// the slices
	var args [][]any
	var kids [][]sqlf.FragmentBuilder
	var kidNodes [][]*mNode
	for i := 1 + t.Intn(2); i > 0; i-- {
		var a []any
		for k := t.Intn(4); k > 0; k-- {
			a = append(a, g.value())
		}
		args = append(args, h.r.argSlice(a))
		var l []sqlf.FragmentBuilder
		var ln []*mNode
		for k := t.Intn(4); k > 0; k-- {
			n := g.leaf()
			ln = append(ln, n)
			l = append(l, h.r.builder(n))
		}
		kids = append(kids, h.r.kidSlice(l))
		kidNodes = append(kidNodes, ln)
	}
	var objs []obj
	t.desc = func() string {
		s := strings.Join(h.log, "\n") + "\n"
		for _, o := range objs {
			s += describe(o.n)
		}
		return s
	}
	raw := func() string {
		return g.oneOf("#join('#arg',',') #join('#f',';')", "#join('#f',';')#join('[#arg]','')", "(#join('#f', ' AND ') #join('#arg',' '))")
	}
	setArgs := func(o obj, l []any) {
		o.n.Args = append([]any{}, l...)
	}
	appended := 0
	for steps := 5 + t.Intn(12); steps > 0; steps-- {
		ai, ki := t.Intn(len(args)), t.Intn(len(kids))
		k := t.Intn(8)
		if len(objs) == 0 {
			k = 0
		}
		if k <= 1 && len(objs) < 5 {
			n := &mNode{Raw: raw()}
			na := t.Intn(len(args[ai]) + 1)
			nk := t.Intn(len(kids[ki]) + 1)
			n.Args = append([]any{}, args[ai][:na]...)
			n.Kids = append([]*mNode{}, kidNodes[ki][:nk]...)
			var f *sqlf.Fragment
			switch t.Intn(3) {
			case 0:
				f = sqlf.Fa(n.Raw, args[ai][:na]...).WithFragments(kids[ki][:nk]...)
			case 1:
				f = sqlf.Ff(n.Raw, kids[ki][:nk]...).WithArgs(args[ai][:na]...)
			case 2:
				f = sqlf.F(n.Raw).WithArgs(args[ai][:na]...).WithFragments(kids[ki][:nk]...)
			}
			h.r.memo[n] = f
			objs = append(objs, obj{n, f})
			h.note("new fragment %d from slice %d[:%d], %d[:%d]", len(objs)-1, ai, na, ki, nk)
			h.verify()
			continue
		}
		oi := t.Intn(len(objs))
		o := objs[oi]
		switch k {
		case 2, 3:
			l := []any{g.value()}
			if t.Intn(3) == 0 {
				l = h.r.argSlice([]any{g.value(), g.value()})
			}
			o.f.AppendArgs(l...)
			o.n.Args = append(o.n.Args[:len(o.n.Args):len(o.n.Args)], l...)
			h.note("append %d args to %d", len(l), oi)
		case 4:
			n := g.leaf()
			l := h.r.kidSlice([]sqlf.FragmentBuilder{h.r.builder(n)})
			o.f.AppendFragments(l...)
			o.n.Kids = append(o.n.Kids[:len(o.n.Kids):len(o.n.Kids)], n)
			h.note("append a fragment to %d", oi)
		case 5:
			o.f.WithArgs(args[ai]...)
			setArgs(o, args[ai])
			h.note("set args of %d to slice %d", oi, ai)
		case 6:
			// take over the slice of another fragment
			p := objs[t.Intn(len(objs))]
			o.f.WithArgs(p.f.Args...).WithFragments(p.f.Fragments...)
			setArgs(o, p.n.Args)
			o.n.Kids = append([]*mNode{}, p.n.Kids...)
			h.note("set args and fragments of %d to those of another", oi)
		default:
			h.build(o.f, o.n, builtinScope)
			continue
		}
		if k >= 2 && k <= 4 {
			h.Feat("append")
			if appended++; appended > 1 && len(objs) > 1 {
				h.Feat("append to sibling")
			}
		}
		h.verify()
	}
	for _, o := range objs {
		h.build(o.f, o.n, builtinScope)
	}
	t.Key(t.desc())
	t.Sample(t.desc())
}
