package main

// Reference semantics of fragment trees. A tree is described by mNodes, which
// are evaluated here by direct substitution into a list of segments (text, or
// a value to bind), and realized (realize.go) as objects of the library.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
)

type seg struct {
	bind bool
	text string
	val  any
}

type nodeKind int

const (
	nFrag nodeKind = iota
	nNil
	nTable
	nAliased
	nColumn
	nExprCol
	nCustom
	nQuery
	nDerive // a builder of the user that derives a context to build its kid
)

// mNode describes a FragmentBuilder.
type mNode struct {
	Kind           nodeKind
	Raw            string
	Prefix, Suffix string
	Args           []any
	Kids           []*mNode

	Name, Alias string // tables; Name is the column for nColumn
	Anon        bool   // anonymous column
	Segs        []seg  // nCustom
	Fail        error  // nCustom returns this error
	Query       *mQuery
	Funcs       map[string]*mFunc // nDerive
}

type mErr struct {
	index   bool // the index of the reference itself is invalid
	invalid bool // an invalid index is the cause, at any depth
	msg     string
}

func (e *mErr) String() string { return e.msg }

func errOther(format string, a ...any) *mErr { return &mErr{false, false, fmt.Sprintf(format, a...)} }
func errIndex(format string, a ...any) *mErr { return &mErr{true, true, fmt.Sprintf(format, a...)} }

// nested is err when it is reported from inside of a valid reference.
func (e *mErr) nested() *mErr { return &mErr{false, e.invalid, e.msg} }

// mFunc is the model of a function.
type mFunc struct {
	Params    []reflect.Kind // without the context
	Variadic  bool           // the last parameter is variadic
	Joinable  bool
	Eval      func(ev *evaluator, fc *mFragCtx, args []any) ([]seg, *mErr)
	Construct any // the real function
}

type mScope struct {
	parent *mScope
	funcs  map[string]*mFunc
}

func (s *mScope) lookup(name string) *mFunc {
	for ; s != nil; s = s.parent {
		if f := s.funcs[name]; f != nil {
			return f
		}
	}
	return nil
}

type mFragCtx struct {
	node     *mNode
	usedArgs []int // 0: no, 1: maybe, 2: yes
	usedKids []int
	scope    *mScope
	journal  []usage // changes of usedArgs and usedKids
}

type usage struct {
	list  []int
	i     int
	value int // before
}

func (fc *mFragCtx) use(list []int, i int) {
	if list[i] != 2 {
		fc.journal = append(fc.journal, usage{list, i, list[i]})
		list[i] = 2
	}
}

type evaluator struct {
	steps int
	feat  func(string)
}

func (ev *evaluator) f(name string) {
	if ev.feat != nil {
		ev.feat(name)
	}
}

var builtinScope *mScope

func init() {
	ints := func(n int) []reflect.Kind {
		r := make([]reflect.Kind, n)
		for i := range r {
			r[i] = reflect.Int
		}
		return r
	}
	fragment := &mFunc{Params: ints(1), Joinable: true, Eval: func(ev *evaluator, fc *mFragCtx, args []any) ([]seg, *mErr) {
		return ev.kid(fc, int(args[0].(int64)))
	}}
	builtinScope = &mScope{funcs: map[string]*mFunc{
		"f":        fragment,
		"fragment": fragment,
		"arg": {Params: ints(1), Joinable: true, Eval: func(ev *evaluator, fc *mFragCtx, args []any) ([]seg, *mErr) {
			return ev.arg(fc, int(args[0].(int64)))
		}},
		"join": {Params: []reflect.Kind{reflect.String, reflect.String, reflect.Int}, Variadic: true,
			Eval: func(ev *evaluator, fc *mFragCtx, args []any) ([]seg, *mErr) { return ev.join(fc, args) }},
	}}
}

func (ev *evaluator) kid(fc *mFragCtx, i int) ([]seg, *mErr) {
	if fc == nil || i < 1 || i > len(fc.node.Kids) {
		return nil, errIndex("fragment index %d", i)
	}
	fc.use(fc.usedKids, i-1)
	segs, err := ev.eval(fc.node.Kids[i-1], fc.scope)
	if err != nil {
		return nil, err.nested()
	}
	return segs, nil
}

func (ev *evaluator) arg(fc *mFragCtx, i int) ([]seg, *mErr) {
	if fc == nil || i < 1 || i > len(fc.node.Args) {
		return nil, errIndex("arg index %d", i)
	}
	fc.use(fc.usedArgs, i-1)
	return []seg{{bind: true, val: fc.node.Args[i-1]}}, nil
}

const maxEvalSteps = 400000

// eval evaluates a builder.
func (ev *evaluator) eval(n *mNode, scope *mScope) ([]seg, *mErr) {
	ev.steps++
	if ev.steps > maxEvalSteps {
		panic(unspecified{"evaluation too large"})
	}
	switch n.Kind {
	case nNil:
		return nil, nil
	case nTable:
		return text(n.Name), nil
	case nAliased:
		return text(n.applied()), nil
	case nCustom:
		if n.Fail != nil {
			return nil, errOther("custom builder fails")
		}
		return n.Segs, nil
	case nColumn:
		raw := n.Name
		if !n.Anon && raw != "" && n.Alias != "" {
			raw = n.Alias + "." + raw
		}
		return ev.evalFrag(&mNode{Raw: raw}, scope)
	case nExprCol:
		return ev.eval(n.Kids[0], scope)
	case nQuery:
		return ev.query(n.Query, scope)
	case nDerive:
		return ev.eval(n.Kids[0], &mScope{parent: scope, funcs: n.Funcs})
	}
	return ev.evalFrag(n, scope)
}

func (n *mNode) applied() string {
	if n.Alias != "" {
		return n.Alias
	}
	return n.Name
}

func text(s string) []seg {
	if s == "" {
		return nil
	}
	return []seg{{text: s}}
}

func (ev *evaluator) evalFrag(n *mNode, scope *mScope) ([]seg, *mErr) {
	fc := &mFragCtx{node: n, scope: scope, usedArgs: make([]int, len(n.Args)), usedKids: make([]int, len(n.Kids))}
	exprs, st, why := refParse(n.Raw)
	switch st {
	case pBad:
		return nil, errOther("parse %q: %s", n.Raw, why)
	case pUnspec:
		panic(unspecified{why})
	}
	segs, err := ev.exprs(fc, exprs)
	if err != nil {
		return nil, err
	}
	for _, used := range [][]int{fc.usedArgs, fc.usedKids} {
		maybe := false
		for _, u := range used {
			switch u {
			case 0:
				return nil, errOther("%q: unused arg or fragment", clip(n.Raw, 100))
			case 1:
				maybe = true
			}
		}
		if maybe {
			panic(unspecified{"used only in a template without items"})
		}
	}
	segs = trimSegs(segs)
	if len(segs) == 0 {
		return nil, nil
	}
	var r []seg
	if n.Prefix != "" {
		r = append(r, seg{text: n.Prefix + " "})
	}
	r = append(r, segs...)
	if n.Suffix != "" {
		r = append(r, seg{text: " " + n.Suffix})
	}
	return r, nil
}

// trimSegs trims white space of the whole and drops empty text.
func trimSegs(segs []seg) []seg {
	segs = coalesce(segs)
	if len(segs) > 0 && !segs[0].bind {
		segs[0].text = strings.TrimLeft(segs[0].text, spaces)
		if segs[0].text == "" {
			segs = segs[1:]
		}
	}
	if n := len(segs); n > 0 && !segs[n-1].bind {
		segs[n-1].text = strings.TrimRight(segs[n-1].text, spaces)
		if segs[n-1].text == "" {
			segs = segs[:n-1]
		}
	}
	return segs
}

// spaces are the runes with the Unicode property White_Space.
const spaces = "\t\n\v\f\r \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

func coalesce(segs []seg) []seg {
	r := make([]seg, 0, len(segs))
	for i := 0; i < len(segs); {
		if segs[i].bind {
			r = append(r, segs[i])
			i++
			continue
		}
		j, n := i, 0
		for ; j < len(segs) && !segs[j].bind; j++ {
			n += len(segs[j].text)
		}
		switch {
		case n == 0:
		case n == len(segs[i].text):
			r = append(r, segs[i])
		default:
			b := make([]byte, 0, n)
			for ; i < j; i++ {
				b = append(b, segs[i].text...)
			}
			r = append(r, seg{text: string(b)})
		}
		i = j
	}
	return r
}

func (ev *evaluator) exprs(fc *mFragCtx, exprs []mExpr) (out []seg, err *mErr) {
	for _, e := range exprs {
		s, err := ev.expr(fc, e)
		if err != nil {
			return nil, err
		}
		out = append(out, s...)
	}
	return out, nil
}

func (ev *evaluator) expr(fc *mFragCtx, e mExpr) ([]seg, *mErr) {
	switch e.Kind {
	case kPlain:
		return text(e.Text), nil
	case kBind:
		s, err := ev.arg(fc, e.Index)
		if err != nil {
			err.index, err.invalid = false, false
		}
		return s, err
	case kFunc:
		return nil, errOther("function value #%s", e.Name)
	}
	f := fc.scope.lookup(e.Name)
	if f == nil {
		return nil, errOther("undefined function #%s", e.Name)
	}
	return ev.call(fc, f, e.Args)
}

func (ev *evaluator) call(fc *mFragCtx, f *mFunc, lits []any) ([]seg, *mErr) {
	nFixed := len(f.Params)
	if f.Variadic {
		nFixed--
		if len(lits) < nFixed {
			return nil, errOther("wrong number of args")
		}
	} else if len(lits) != nFixed {
		return nil, errOther("wrong number of args")
	}
	args := make([]any, len(lits))
	for i, l := range lits {
		k := f.Params[len(f.Params)-1]
		if i < nFixed {
			k = f.Params[i]
		}
		v, ok := convertLit(l, k)
		if n, isNum := l.(mNum); !ok && isNum && n.Join {
			return nil, errIndex("index %d", n.Int)
		}
		if !ok {
			return nil, errOther("arg %v can't be a %s", l, k)
		}
		args[i] = v
	}
	return f.Eval(ev, fc, args)
}

// convertLit converts a literal to a parameter kind: int64, uint64, float64,
// bool or string; ok is false if it is not possible without loss.
func convertLit(l any, k reflect.Kind) (v any, ok bool) {
	switch l := l.(type) {
	case nil:
		return nil, false
	case bool:
		return l, k == reflect.Bool
	case string:
		return l, k == reflect.String
	case mNum:
		var x *big.Int
		if l.Int != nil {
			x = l.Int
		} else if l.F == math.Trunc(l.F) && !math.IsInf(l.F, 0) {
			x, _ = big.NewFloat(l.F).Int(nil)
		}
		bits := 0
		switch k {
		case reflect.Int8, reflect.Uint8:
			bits = 8
		case reflect.Int16, reflect.Uint16:
			bits = 16
		case reflect.Int32, reflect.Uint32:
			bits = 32
		case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
			bits = 64
		}
		one := big.NewInt(1)
		switch k {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if x == nil {
				return nil, false
			}
			if l.Int == nil && (l.Inexact || l.F == -1<<63) {
				panic(unspecified{"integer written as a number that float64 does not hold"})
			}
			lim := new(big.Int).Lsh(one, uint(bits-1))
			if x.Cmp(lim) >= 0 || x.Cmp(new(big.Int).Neg(lim)) < 0 {
				return nil, false
			}
			return x.Int64(), true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if x == nil || x.Sign() < 0 || x.BitLen() > bits {
				return nil, false
			}
			if l.Int == nil && l.Inexact {
				panic(unspecified{"integer written as a number that float64 does not hold"})
			}
			return x.Uint64(), true
		case reflect.Float64:
			return l.F, true
		case reflect.Float32:
			f := float32(l.F)
			if math.IsInf(float64(f), 0) {
				return nil, false
			}
			return float64(f), true
		}
	}
	return nil, false
}

func (ev *evaluator) join(fc *mFragCtx, args []any) ([]seg, *mErr) {
	tmpl, sep := args[0].(string), args[1].(string)
	from, to := 0, 0
	switch len(args) {
	case 2:
	case 3, 4:
		from = int(args[2].(int64))
		if len(args) == 4 {
			to = int(args[3].(int64))
		}
	default:
		return nil, errOther("too many args for #join")
	}
	if to > 0 && from > to {
		return nil, errOther("range %d to %d", from, to)
	}
	if len(args) > 2 && from <= 0 || len(args) > 3 && to <= 0 {
		panic(unspecified{"non-positive index of #join"})
	}
	exprs, st, why := refParse(tmpl)
	switch st {
	case pBad:
		return nil, errOther("template %q: %s", tmpl, why)
	case pUnspec:
		panic(unspecified{why})
	}
	values := 0
	for _, e := range exprs {
		if e.Kind != kFunc {
			continue
		}
		f := fc.scope.lookup(e.Name)
		if f == nil {
			return nil, errOther("undefined function #%s", e.Name)
		}
		if !f.Joinable {
			return nil, errOther("incompatible function #%s", e.Name)
		}
		values++
	}
	if values == 0 {
		return nil, errOther("no function value in template")
	}
	start := from
	if start == 0 {
		start = 1
	}
	var out []seg
	passes := 0
	for i := start; to == 0 || i <= to; i++ {
		ev.steps++
		if ev.steps > maxEvalSteps {
			panic(unspecified{"evaluation too large"})
		}
		mark := len(fc.journal)
		var item []seg
		var firstErr, idxErr, fixedErr *mErr
		for _, e := range exprs {
			var s []seg
			var err *mErr
			if e.Kind == kFunc {
				s, err = ev.call(fc, fc.scope.lookup(e.Name), []any{mNum{F: float64(i), Int: big.NewInt(int64(i)), Join: true}})
				if err != nil && err.index {
					if idxErr == nil {
						idxErr = err
					}
					continue
				}
				if err != nil && firstErr == nil {
					firstErr = err
				}
			} else {
				s, err = ev.expr(fc, e)
				if err != nil && fixedErr == nil {
					fixedErr = err
				}
			}
			item = append(item, s...)
		}
		if idxErr != nil {
			if from > 0 && i == from || to > 0 {
				return nil, idxErr // whatever else fails, too
			}
			if fixedErr != nil && passes == 0 {
				panic(unspecified{"bad fixed reference in a template without items"})
			}
			if firstErr != nil || fixedErr != nil {
				panic(unspecified{"error in the pass behind the last item"})
			}
			// a function value's use leaves no trace; whether a fixed
			// reference in a template without any item counts as used is
			// not specified
			undo := append([]usage{}, fc.journal[mark:]...)
			fc.journal = fc.journal[:mark]
			for k := len(undo) - 1; k >= 0; k-- {
				undo[k].list[undo[k].i] = undo[k].value
			}
			if passes == 0 {
				for _, e := range exprs {
					if e.Kind == kBind || e.Kind == kCall {
						ev.expr(fc, e)
					}
				}
				for k := mark; k < len(fc.journal); k++ {
					u := &fc.journal[k]
					u.list[u.i] = 1
				}
			}
			ev.f("join.end")
			if passes == 0 {
				ev.f("join.empty")
			}
			break
		}
		if firstErr != nil {
			return nil, firstErr.nested()
		}
		if fixedErr != nil {
			return nil, fixedErr.nested()
		}
		passes++
		item = coalesce(item)
		if len(item) > 0 {
			if len(out) > 0 && sep != "" {
				out = append(out, seg{text: sep})
			}
			out = append(out, item...)
		} else {
			ev.f("join.item_empty")
		}
	}
	return out, nil
}
