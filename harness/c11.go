package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func init() {
	register(&Check{
		ID: "C11",
		Rule: "histories over a growing tree of contexts: deriving contexts with functions that shadow outer and built-in ones, failing registrations, builds of fragments (some of which derive contexts on their own, call functions that build or derive, or keep their context for later) and CommitArg, in arbitrary order; after every step the concatenated queries and the args of every context of the tree are compared with the reference; " +
			"non-trivial: two contexts and two builds; distinct by the history",
		Required: []string{"derived", "failed registration", "build", "shadows outer", "shadows builtin", "sibling", "invisible", "commit", "deriving builder", "deriving function", "building function", "kept context",
			"garg", "gfrag", "join over shared", "shared index error", "merged across builds", "build in parent after child", "join of shadowed", "join of incompatible", "after a failed build", "sizes"},
		Phases: []Phase{
			{Name: "histories", Quick: 60000, Thorough: 2500000, Run: c11Histories},
			{Name: "visibility", Quick: 30000, Thorough: 1000000, Run: c11Visibility},
			{Name: "sizes", Quick: 200, Thorough: 3000, Run: c11Sizes},
			{Name: "properties", Quick: 40000, Thorough: 1500000, Run: c11Properties},
		},
		Assumptions: []string{"the args of a context after a failed build are not judged", "shared properties are used by one goroutine"},
	})
}

type c11Ctx struct {
	ctx   *sqlf.Context
	scope *mScope
	depth int
}

type c11History struct {
	*T
	g     *gen
	style int
	ctxs  []*c11Ctx
	segs  []seg // all builds
	query string
	log   []string
	kept  map[uint64]*c11Ctx // contexts that functions keep, during a build
	defs  int
	calls int
	deps  int // builds
	// known are the args of the context when the last failed build ended;
	// segs and query are of the builds behind it
	known  []any
	failed bool
}

var c11Names = []string{"fa", "fb", "fc", "fd", "f", "arg", "join", "fragment"}

// define makes a function; its text tells which definition it is.
func (h *c11History) define(name string) *mFunc {
	h.defs++
	id := h.defs
	limit := int64(h.Intn(4))
	intp := []reflect.Kind{reflect.Int}
	mark := func(i int64) string { return fmt.Sprintf("<%s.%d:%d>", name, id, i) }
	bad := func(i int64) bool { return i < 1 || i > limit }
	k := h.Intn(9)
	if (k == 4 || k == 5) && name != "fc" && name != "fd" {
		k = 0 // functions that build call simple ones: there is no recursion
	}
	switch k {
	case 0, 1, 2: // text
		return &mFunc{Params: intp, Joinable: true,
			Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
				if bad(a[0].(int64)) {
					return nil, errIndex("%s", name)
				}
				return text(mark(a[0].(int64))), nil
			},
			Construct: func(i int) (string, error) {
				if bad(int64(i)) {
					return "", sqlf.ErrInvalidIndex
				}
				return mark(int64(i)), nil
			}}
	case 3: // binds an arg
		return &mFunc{Params: intp, Joinable: true,
			Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
				i := a[0].(int64)
				if bad(i) {
					return nil, errIndex("%s", name)
				}
				return []seg{{text: mark(i)}, {bind: true, val: i}, {text: "+"}, {bind: true, val: fmt.Sprint(id)}}, nil
			},
			Construct: func(ctx *sqlf.Context, i int64) (string, error) {
				if bad(i) {
					return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, i)
				}
				return mark(i) + ctx.CommitArg(i) + "+" + ctx.CommitArg(fmt.Sprint(id)), nil
			}}
	case 4, 5: // builds a fragment with its context, or one derived from it
		frag := &mNode{Raw: "{? #" + h.g.oneOf("fa", "fb") + "1}", Args: []any{h.g.value()}}
		if h.Intn(3) == 0 {
			frag.Raw = "{?}"
		}
		inner := map[string]*mFunc{}
		if k == 5 {
			// a function of its own, which is not defined elsewhere
			inner["inner"] = &mFunc{Params: intp,
				Eval:      func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) { return text(mark(100 + a[0].(int64))), nil },
				Construct: func(i int) string { return mark(int64(100 + i)) }}
			frag.Raw += "#inner1"
		}
		return &mFunc{Params: intp, Joinable: true,
			Eval: func(ev *evaluator, fc *mFragCtx, a []any) ([]seg, *mErr) {
				if bad(a[0].(int64)) {
					return nil, errIndex("%s", name)
				}
				scope := fc.scope
				if k == 5 {
					scope = &mScope{parent: scope, funcs: inner}
					ev.f("deriving function")
				}
				ev.f("building function")
				s, err := ev.eval(frag, scope)
				if err != nil {
					return nil, err.nested()
				}
				return append(text(mark(a[0].(int64))), s...), nil
			},
			Construct: func(ctx *sqlf.Context, i int) (string, error) {
				if bad(int64(i)) {
					return "", sqlf.ErrInvalidIndex
				}
				if k == 5 {
					var err error
					if ctx, err = sqlf.ContextWithFuncs(ctx, realFuncs(inner)); err != nil {
						return "", err
					}
				}
				s, err := newRealizer(nil).builder(frag).BuildFragment(ctx)
				if err != nil {
					// another error than that of the index
					return "", fmt.Errorf("in %s: %v", name, err)
				}
				return mark(int64(i)) + s, nil
			}}
	case 6: // takes what #join takes
		return &mFunc{Params: []reflect.Kind{reflect.String, reflect.String, reflect.Int}, Variadic: true,
			Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
				return text(fmt.Sprintf("<%s.%d:%q>", name, id, a)), nil
			},
			Construct: func(a, b string, n ...int64) string {
				l := []any{a, b}
				for _, i := range n {
					l = append(l, i)
				}
				return fmt.Sprintf("<%s.%d:%q>", name, id, l)
			}}
	case 7: // keeps its context
		return &mFunc{Params: []reflect.Kind{reflect.Uint},
			Eval: func(ev *evaluator, fc *mFragCtx, a []any) ([]seg, *mErr) {
				if i := a[0].(uint64); i >= 1000 {
					h.kept[i] = &c11Ctx{scope: fc.scope}
				}
				return text(mark(int64(a[0].(uint64)))), nil
			},
			Construct: func(ctx *sqlf.Context, i uint) string {
				if k := h.kept[uint64(i)]; k != nil && k.ctx == nil {
					k.ctx = ctx
				}
				return mark(int64(i))
			}}
	default: // never ends a #join
		return &mFunc{Params: intp,
			Eval:      func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) { return text(mark(a[0].(int64))), nil },
			Construct: func(i int) (string, error) { return mark(int64(i)), nil }}
	}
}

func (h *c11History) defineSome() map[string]*mFunc {
	m := map[string]*mFunc{}
	for n := 1 + h.Intn(3); n > 0; n-- {
		name := c11Names[h.Intn(4)]
		if h.Intn(6) == 0 {
			name = c11Names[h.Intn(len(c11Names))]
		}
		m[name] = h.define(name)
	}
	return m
}

// frag generates a fragment for a context of the scope.
func (h *c11History) frag(scope *mScope, depth int) *mNode {
	g := h.g
	n := &mNode{}
	b := new(strings.Builder)
	ref := func(name string) {
		f := scope.lookup(name)
		switch {
		case f == nil:
			if g.chance(12) {
				fmt.Fprintf(b, "#%s1", name)
			}
		case f.Variadic && name == "join" && scope.lookup("join") == builtinScope.funcs["join"]:
		case f.Variadic:
			fmt.Fprintf(b, "#%s('#fa', ', ')", name)
		case name == "arg" && f == builtinScope.funcs["arg"], (name == "f" || name == "fragment") && f == builtinScope.funcs["f"]:
		case f.Joinable && g.chance(2):
			other := ""
			if g.chance(3) {
				if o := c11Names[g.Intn(4)]; scope.lookup(o) != nil && scope.lookup(o).Joinable {
					other = " #" + o
				}
			}
			fmt.Fprintf(b, "#join('#%s%s', ', ')", name, other)
			if len(name) == 2 && scope.parent != nil {
				for s := scope.parent; s != nil; s = s.parent {
					if s.funcs[name] != nil && s.funcs[name] != f {
						g.Feat("join of shadowed")
					}
				}
			}
		case len(f.Params) == 1 && f.Params[0] == reflect.Uint:
			h.calls++
			fmt.Fprintf(b, "#%s%d", name, 1000+h.calls)
		case !f.Joinable && g.chance(5):
			fmt.Fprintf(b, "#join('#%s', ', ')", name)
			g.Feat("join of incompatible")
		default:
			fmt.Fprintf(b, "#%s%d", name, 1+g.Intn(2))
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		n.Args = append(n.Args, g.value())
		b.WriteString(g.oneOf(" ", "a=", ", "))
		b.WriteString("?")
		ref(c11Names[g.Intn(len(c11Names))])
	}
	for i := 1 + g.Intn(2); i > 0; i-- {
		b.WriteString(" ")
		ref(c11Names[g.Intn(5)])
	}
	if depth > 0 && scope.lookup("f") == builtinScope.funcs["f"] {
		for i := g.Intn(3); i > 0; i-- {
			var kid *mNode
			if g.chance(3) {
				funcs := h.defineSome()
				if g.chance(3) {
					delete(funcs, "f")
				}
				kid = &mNode{Kind: nDerive, Funcs: funcs, Kids: []*mNode{h.frag(&mScope{parent: scope, funcs: funcs}, depth-1)}}
				g.Feat("deriving builder")
			} else {
				kid = h.frag(scope, depth-1)
			}
			n.Kids = append(n.Kids, kid)
			fmt.Fprintf(b, " #f%d", len(n.Kids))
			if g.chance(3) {
				ref(c11Names[g.Intn(4)])
			}
		}
	}
	n.Raw = b.String()
	return n
}

func (h *c11History) notef(format string, a ...any) {
	h.log = append(h.log, fmt.Sprintf(format, a...))
}

// verify compares all contexts with what was built.
func (h *c11History) verify() {
	args := h.ctxs[0].ctx.Args()
	style := styles[h.style]
	h.Eval()
	if len(args) < len(h.known) {
		h.Failf("%d of the args are gone", len(h.known)-len(args))
	}
	for k := range h.known {
		if !sameValue(h.known[k], args[k]) {
			h.Failf("arg %d was %s after a failed build, it is %s now", k+1, descValue(h.known[k]), descValue(args[k]))
		}
	}
	d := ""
	switch {
	case style == syntax.Dollar && h.failed:
		d = matchDollar(coalesce(h.segs), h.query, args, h.known)
	case h.failed:
		d = matchQuestion(coalesce(h.segs), h.query, args[len(h.known):])
	default:
		d = matchBuild(style, coalesce(h.segs), h.query, args)
	}
	if d != "" {
		h.Failf("%s style: %s", styleName(style), d)
	}
	if h.failed && len(h.segs) > 0 {
		h.Feat("after a failed build")
	}
	for i, c := range h.ctxs {
		l := c.ctx.Args()
		if len(l) != len(args) {
			h.Failf("context %d reports %d args, the root %d", i, len(l), len(args))
		}
		for k := range l {
			if !sameValue(args[k], l[k]) {
				h.Failf("context %d reports arg %d as %s, the root as %s", i, k+1, descValue(l[k]), descValue(args[k]))
			}
		}
	}
}

// build builds n in a context; it reports whether the build succeeded.
func (h *c11History) build(c *c11Ctx, n *mNode) bool {
	h.notef("build in context %d:\n%s", h.indexOf(c), describe(n))
	h.kept = map[uint64]*c11Ctx{}
	segs, merr := h.evalModel(n, c.scope)
	q, err := newRealizer(h.Rand).builder(n).BuildFragment(c.ctx)
	if (err != nil) != (merr != nil) {
		h.Eval()
		h.Failf("error %v, want error: %v\nquery: %q", err, merr, q)
	}
	if merr != nil {
		if q != "" {
			h.Failf("failed build returned %q", q)
		}
		if strings.Contains(merr.msg, "undefined") {
			h.Feat("invisible")
		}
		// what a failed build leaves is not judged, but what follows is
		h.known = append([]any{}, h.ctxs[0].ctx.Args()...)
		h.segs, h.query, h.failed = nil, "", true
		return false
	}
	h.Feat("build")
	h.query += q + ";"
	h.segs = append(append(h.segs, segs...), seg{text: ";"})
	for i := 1000; i <= 1000+h.calls; i++ {
		k := h.kept[uint64(i)]
		if k == nil || k.ctx == nil {
			continue // called in a pass that was dropped
		}
		h.Feat("kept context")
		if len(h.ctxs) < 12 {
			h.ctxs = append(h.ctxs, k)
		}
	}
	if c.depth < h.deps {
		h.Feat("build in parent after child")
	}
	if c.depth > h.deps {
		h.deps = c.depth
	}
	h.verify()
	return true
}

func (h *c11History) indexOf(c *c11Ctx) int {
	for i := range h.ctxs {
		if h.ctxs[i] == c {
			return i
		}
	}
	return -1
}

func newC11(t *T) *c11History {
	h := &c11History{T: t, g: newGen(t), style: t.Intn(2)}
	h.g.plainVals = t.Intn(3) == 0
	h.ctxs = []*c11Ctx{{ctx: sqlf.NewContext(styles[h.style]), scope: builtinScope}}
	t.desc = func() string {
		return styleName(styles[h.style]) + "\n" + clip(strings.Join(h.log, "\n"), 6000)
	}
	return h
}

func (h *c11History) derive() {
	i := h.Intn(len(h.ctxs))
	c := h.ctxs[i]
	funcs := h.defineSome()
	h.notef("context %d = context %d with %v", len(h.ctxs), i, funcNames(funcs))
	for name := range funcs {
		if f := c.scope.lookup(name); f != nil {
			if builtinScope.funcs[name] == f {
				h.Feat("shadows builtin")
			} else {
				h.Feat("shadows outer")
			}
		}
	}
	m := realFuncs(funcs)
	ctx, err := sqlf.ContextWithFuncs(c.ctx, m)
	if err != nil {
		h.Failf("deriving failed: %v", err)
	}
	for name := range m { // the map stays the caller's
		m[name] = func() string { return "changed later" }
	}
	h.Feat("derived")
	if c.depth < 2 && len(h.ctxs) > 2 {
		h.Feat("sibling")
	}
	h.ctxs = append(h.ctxs, &c11Ctx{ctx: ctx, scope: &mScope{parent: c.scope, funcs: funcs}, depth: c.depth + 1})
}

func c11Histories(t *T, idx int) {
	h := newC11(t)
	builds := 0
	for n := 2 + t.Intn(9); n > 0; n-- {
		switch t.Intn(8) {
		case 0, 1, 2:
			if len(h.ctxs) < 8 {
				h.derive()
			}
		case 3:
			i := t.Intn(len(h.ctxs))
			h.notef("failing registration in context %d", i)
			_, err := sqlf.ContextWithFuncs(h.ctxs[i].ctx, sqlf.FuncMap{"fa": func(int) string { return "never" }, "fb": 1})
			if err == nil {
				t.Failf("a number was registered as a function")
			}
			h.Feat("failed registration")
		case 4:
			i := t.Intn(len(h.ctxs))
			v := h.g.value()
			h.notef("context %d commits %s", i, descValue(v))
			h.query += h.ctxs[i].ctx.CommitArg(v) + ";"
			h.segs = append(h.segs, seg{bind: true, val: v}, seg{text: ";"})
			h.Feat("commit")
			h.verify()
		default:
			c := h.ctxs[t.Intn(len(h.ctxs))]
			if h.build(c, h.frag(c.scope, t.Intn(3))) {
				builds++
			}
		}
	}
	if h.style == 0 && builds > 1 && countBinds(h.segs) > len(h.ctxs[0].ctx.Args()) {
		t.Feat("merged across builds")
	}
	if len(h.ctxs) > 1 && builds > 1 {
		t.Key(strings.Join(h.log, "\n"))
	}
	t.Sample(strings.Join(h.log, "; "))
}

// c11Visibility builds a call of every name in every context of a tree.
func c11Visibility(t *T, idx int) {
	h := newC11(t)
	for n := 1 + t.Intn(7); n > 0; n-- {
		h.derive()
	}
	type probe struct {
		c    *c11Ctx
		name string
	}
	var probes []probe
	for _, c := range h.ctxs {
		for _, name := range c11Names {
			probes = append(probes, probe{c, name})
		}
	}
	t.Shuffle(len(probes), func(i, j int) { probes[i], probes[j] = probes[j], probes[i] })
	for _, p := range probes {
		f := p.c.scope.lookup(p.name)
		call := "#" + p.name + "1"
		kids := []*mNode{}
		var args []any
		if f == nil || p.name == "join" || f.Variadic {
			call = "#" + p.name + "('#fa', '-')"
		}
		if f == builtinScope.funcs[p.name] {
			switch p.name {
			case "f", "fragment":
				kids = []*mNode{{Raw: "kid"}}
			case "arg":
				args = []any{h.g.value()}
			}
		}
		n := &mNode{Raw: call, Kids: kids, Args: args}
		h.notef("build %q in context %d", call, h.indexOf(p.c))
		if !h.build(p.c, n) {
			continue
		}
	}
	if len(h.ctxs) > 2 {
		t.Key(strings.Join(h.log, "\n"))
	}
}

// c11Sizes derives long chains and large families of contexts, and collects
// many args.
func c11Sizes(t *T, idx int) {
	h := newC11(t)
	n := []int{5, 17, 33, 65, 129, 257, 513, 1001, 1025, 2049}[idx%10]
	shape := idx / 10 % 5
	h.notef("shape %d size %d", shape, n)
	mark := func(s string) *mFunc {
		return &mFunc{Params: []reflect.Kind{reflect.Int}, Joinable: true,
			Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
				if i := a[0].(int64); i < 1 || i > 3 {
					return nil, errIndex("mark")
				}
				return []seg{{text: s}, {bind: true, val: s}}, nil
			},
			Construct: func(ctx *sqlf.Context, i int) (string, error) {
				if i < 1 || i > 3 {
					return "", sqlf.ErrInvalidIndex
				}
				return s + ctx.CommitArg(s), nil
			}}
	}
	derive := func(from *c11Ctx, funcs map[string]*mFunc) *c11Ctx {
		ctx, err := sqlf.ContextWithFuncs(from.ctx, realFuncs(funcs))
		must(err)
		return &c11Ctx{ctx: ctx, scope: &mScope{parent: from.scope, funcs: funcs}, depth: from.depth + 1}
	}
	nested := func(depth int, raw string) *mNode {
		d := &mNode{Raw: raw}
		for i := 0; i < depth; i++ {
			d = &mNode{Raw: "#f1", Kids: []*mNode{d}}
		}
		return d
	}
	probe := &mNode{Raw: "#fa1 #join('#fa', ',') #fragment1 #arg1", Kids: []*mNode{{Raw: "k"}}, Args: []any{"p"}}
	first := derive(h.ctxs[0], map[string]*mFunc{"fa": mark("first")})
	h.ctxs = append(h.ctxs, first)
	switch shape {
	case 0: // a chain; only the first and the last are compared
		c := first
		for i := 0; i < n; i++ {
			funcs := map[string]*mFunc{"fb": mark(fmt.Sprint("b", i))}
			if i == n/2 && t.Intn(2) == 0 {
				funcs["fa"] = mark("middle")
			}
			if t.Intn(4) == 0 {
				funcs = nil
			}
			c = derive(c, funcs)
		}
		h.ctxs = append(h.ctxs, c)
		h.build(c, probe)
		h.build(c, &mNode{Raw: "#fb2 #fc1"})
		h.build(c, &mNode{Raw: "#join('#fb', '')"})
		h.build(first, probe)
	case 1: // nested fragments
		n = min(n, 1025)
		h.build(first, nested(n, "#fa1 #join('#fa', '+')"))
		h.build(first, nested(n, "#fb1"))
		h.build(h.ctxs[0], nested(n, "#fa1"))
		c := derive(first, map[string]*mFunc{"fa": mark("second")})
		h.ctxs = append(h.ctxs, c)
		h.build(c, nested(n, "#fa2"))
		h.build(first, probe)
	case 2: // siblings
		for i := 0; i < n; i++ {
			c := derive(first, map[string]*mFunc{"fb": mark(fmt.Sprint("b", i))})
			if i == 0 || i == n-1 || i == n/2 {
				h.ctxs = append(h.ctxs, c)
				h.build(c, &mNode{Raw: "#fb1 #fa1"})
			}
		}
		h.build(first, &mNode{Raw: "#fb1"})
		h.build(h.ctxs[2], &mNode{Raw: "#fb1 #fa1"})
	case 3: // args
		for i := 0; i < 4; i++ {
			node := &mNode{Raw: "#join('#arg', ',') #fa1"}
			for k := 0; k < n; k++ {
				node.Args = append(node.Args, k*(1+i%2))
			}
			if !h.build(h.ctxs[1+i%(len(h.ctxs)-1)], node) {
				break
			}
			if i == 1 {
				h.ctxs = append(h.ctxs, derive(first, map[string]*mFunc{"fb": mark("late")}))
			}
		}
	case 4: // many functions
		funcs := map[string]*mFunc{}
		name := func(i int) string {
			s := "g"
			for ; i > 0; i /= 26 {
				s += string(rune('a' + i%26))
			}
			return s + "_"
		}
		for i := 0; i < n; i++ {
			funcs[name(i)] = mark(fmt.Sprint("g", i))
		}
		c := derive(first, funcs)
		h.ctxs = append(h.ctxs, c)
		var b strings.Builder
		for k := 0; k < 20; k++ {
			fmt.Fprintf(&b, "#%s%d ", name(t.Intn(n)), 1+t.Intn(3))
		}
		h.build(c, &mNode{Raw: b.String()})
		h.build(c, &mNode{Raw: "#" + name(n) + "x1"})
		h.build(c, probe)
	}
	t.Feat("sizes")
	t.Key(fmt.Sprint(shape, n, idx))
}

// c11Properties uses args and fragments exposed by functions.
func c11Properties(t *T, idx int) {
	g := newGen(t)
	g.faults = t.Intn(4) == 0
	var props []any
	for i := t.Intn(5); i > 0; i-- {
		props = append(props, g.value())
	}
	var frags []*mNode
	for i := t.Intn(5); i > 0; i-- {
		g.budget = 6
		frags = append(frags, g.frag(t.Intn(2)))
	}
	scope := standardFuncs(builtinScope, props, frags)
	h := newC11(t)
	h.notef("shared: %d args, %d fragments", len(props), len(frags))
	ctx, err := sqlf.ContextWithFuncs(h.ctxs[0].ctx, realFuncs(scope.funcs))
	if err != nil {
		t.Failf("%v", err)
	}
	h.ctxs = append(h.ctxs, &c11Ctx{ctx: ctx, scope: scope, depth: 1})
	for n := 1 + t.Intn(4); n > 0; n-- {
		b := new(strings.Builder)
		node := &mNode{}
		for k := 1 + t.Intn(3); k > 0; k-- {
			name, max := "garg", len(props)
			if t.Intn(2) == 0 {
				name, max = "gfrag", len(frags)
			}
			b.WriteString(g.oneOf("", " ", "x="))
			switch t.Intn(8) {
			case 0, 1:
				fmt.Fprintf(b, "#join('#%s', ', ')", name)
				t.Feat("join over shared")
			case 2:
				fmt.Fprintf(b, "#join('#garg=#gfrag', ' AND ')")
				t.Feat("join over shared")
			case 3:
				if max > 0 {
					from := 1 + t.Intn(max)
					fmt.Fprintf(b, "#join('#%s', ', ', %d, %d)", name, from, from+t.Intn(max-from+1))
					t.Feat("join over shared")
				}
			case 4:
				if t.Intn(5) == 0 { // out of range
					fmt.Fprintf(b, "#%s%d", name, []int{0, max + 1, max + 2}[t.Intn(3)])
					t.Feat("shared index error")
				}
			case 5: // with local ones
				i := len(node.Args)
				node.Args = append(node.Args, g.value())
				fmt.Fprintf(b, "#arg%d#join('#%s:#arg', ' ', %d)", i+1, name, i+1)
				if i+1 > max {
					t.Feat("shared index error")
				}
			default:
				if max > 0 {
					fmt.Fprintf(b, "#%s%d ", name, 1+t.Intn(max))
				}
			}
			if max > 0 {
				t.Feat(name)
			}
		}
		node.Raw = b.String()
		if t.Intn(3) == 0 {
			node = &mNode{Raw: "(#f1) #join('#f', '-')", Kids: []*mNode{node}}
		}
		h.build(h.ctxs[1], node)
	}
	if len(props)+len(frags) > 1 {
		t.Key(strings.Join(h.log, "\n"))
	}
	t.Sample(strings.Join(h.log, "; "))
}
