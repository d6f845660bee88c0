package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/qjebbs/go-sqlf/v2"
)

var errFn = errors.New("custom function fails")

// standardFuncs creates a scope of custom functions over the given shared
// args and fragments. New real objects are made for each context.
func standardFuncs(parent *mScope, props []any, frags []*mNode) *mScope {
	intp := []reflect.Kind{reflect.Int}
	s := &mScope{parent: parent, funcs: map[string]*mFunc{}}
	lit := func(x string) []seg { return text(x) }
	s.funcs["num"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			if i < 1 || i > 5 {
				return nil, errIndex("num")
			}
			return lit(fmt.Sprint("n", i)), nil
		},
		Construct: func(i int) (string, error) {
			yieldPoint()
			if i < 1 || i > 5 {
				return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, i)
			}
			return fmt.Sprint("n", i), nil
		}}
	s.funcs["odd"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			if i < 1 || i > 6 {
				return nil, errIndex("odd")
			}
			if i%2 == 0 {
				return nil, nil
			}
			return lit(fmt.Sprint("? $", i, " ")), nil
		},
		Construct: func(_ *sqlf.Context, i uint8) (string, error) {
			yieldPoint()
			if i < 1 || i > 6 {
				return "", sqlf.ErrInvalidIndex
			}
			if i%2 == 0 {
				return "", nil
			}
			return fmt.Sprint("? $", i, " "), nil
		}}
	// an arg of the shared list
	s.funcs["garg"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			if i < 1 || int(i) > len(props) {
				return nil, errIndex("garg")
			}
			return []seg{{bind: true, val: props[i-1]}}, nil
		},
		Construct: func() any {
			p := sqlf.NewArgsProperties(props...)
			return func(ctx *sqlf.Context, i int) (string, error) { return p.Build(ctx, i) }
		}()}
	rz := newRealizer(nil)
	fb := make([]sqlf.FragmentBuilder, len(frags))
	for i, f := range frags {
		fb[i] = rz.builder(f)
	}
	s.funcs["gfrag"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(ev *evaluator, fc *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			if i < 1 || int(i) > len(frags) {
				return nil, errIndex("gfrag")
			}
			r, err := ev.eval(frags[i-1], fc.scope)
			if err != nil {
				err = err.nested()
			}
			return r, err
		},
		Construct: func() any {
			p := sqlf.NewFragmentProperties(fb...)
			return func(ctx *sqlf.Context, i int) (string, error) { return p.Build(ctx, i) }
		}()}
	// commits an arg by itself
	s.funcs["val"] = &mFunc{Params: []reflect.Kind{reflect.String, reflect.Float64, reflect.Bool}, Variadic: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			r := []seg{{bind: true, val: a[0]}, {text: ","}, {bind: true, val: a[1]}}
			for _, b := range a[2:] {
				r = append(r, seg{text: fmt.Sprint(",", b)})
			}
			return r, nil
		},
		Construct: func(ctx *sqlf.Context, a string, f float64, bs ...bool) string {
			r := ctx.CommitArg(a) + ","
			yieldPoint()
			r += ctx.CommitArg(f)
			for _, b := range bs {
				r += fmt.Sprint(",", b)
			}
			return r
		}}
	s.funcs["failat"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			switch {
			case i < 1 || i > 3:
				return nil, errIndex("failat")
			case i == 2:
				return nil, errOther("failat")
			}
			return lit("ok"), nil
		},
		Construct: func(i int64) (string, error) {
			switch {
			case i < 1 || i > 3:
				return "", sqlf.ErrInvalidIndex
			case i == 2:
				return "", errFn
			}
			return "ok", nil
		}}
	s.funcs["boom"] = &mFunc{Params: intp, Joinable: true,
		Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) {
			i := a[0].(int64)
			switch {
			case i < 1 || i > 3:
				return nil, errIndex("boom")
			case i == 2:
				return nil, errOther("boom")
			}
			return lit("fine"), nil
		},
		Construct: func(i int64) (string, error) {
			switch {
			case i < 1 || i > 3:
				return "", sqlf.ErrInvalidIndex
			case i == 2:
				panic("boom")
			}
			return "fine", nil
		}}
	// not compatible with #join
	s.funcs["plain"] = &mFunc{Params: intp,
		Eval:      func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) { return lit(fmt.Sprint("p", a[0])), nil },
		Construct: func(i int) string { return fmt.Sprint("p", i) }}
	s.funcs["noend"] = &mFunc{Params: intp, // never reports an invalid index
		Eval:      func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) { return lit("x"), nil },
		Construct: func(i int) (string, error) { return "x", nil }}
	s.funcs["none"] = &mFunc{Eval: func(*evaluator, *mFragCtx, []any) ([]seg, *mErr) { return nil, nil },
		Construct: func() {}}
	return s
}
