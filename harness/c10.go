package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
)

func init() {
	register(&Check{
		ID: "C10",
		Rule: "random function types (made with reflect), names and non-functions are registered, which must succeed exactly for the documented ones; accepted functions record what they are called with, from fragments at any depth, with literals of all spellings that match the parameters or not, and return strings, errors or panic; the recorded args, the text and the args of the build are compared with the reference; " +
			"non-trivial: a call with at least one arg or a type with at least one parameter; distinct by type, literals and behaviour",
		Required: []string{"type accepted", "type rejected", "name accepted", "name rejected", "not a function", "called", "call rejected", "variadic", "named type", "context", "no fit", "exact integer above 2^53",
			"kind int", "kind int8", "kind int16", "kind int32", "kind int64", "kind uint", "kind uint8", "kind uint16", "kind uint32", "kind uint64", "kind float32", "kind float64", "kind string", "kind bool",
			"returned error", "panicked", "returned text", "no result", "in join", "nested call", "wrong count", "probe of join", "long result", "long list", "long literal", "long name", "one of many rejected", "many functions", "many params called"},
		Phases: []Phase{
			{Name: "names", Quick: 20000, Thorough: 500000, Run: c10Names},
			{Name: "name runes", Quick: 0x3000 * 2, Thorough: 0x20000 * 2, Exhaustive: true, Run: c10NameRunes},
			{Name: "types", Quick: 60000, Thorough: 2000000, Run: c10Types},
			{Name: "many", Quick: 1500, Thorough: 60000, Run: c10Many},
			{Name: "calls", Quick: 120000, Thorough: 5000000, Run: c10Calls},
			{Name: "integers", Quick: 60000, Thorough: 2000000, Run: c10Integers},
			{Name: "long", Quick: 4000, Thorough: 80000, Run: c10Long},
			{Name: "fixed", Quick: len(c10Fixed), Thorough: len(c10Fixed), Exhaustive: true, Run: c10FixedCase},
		},
		Assumptions: []string{
			"functions whose string result has a named type, and nil functions, are not judged at registration",
			"a float parameter holds the nearest value of its type; integers are exact",
			"number literals are those of ordinary decimal notation; hexadecimal, inf, nan and underscores are not judged",
		},
	})
}

type (
	namedBool   bool
	namedUint8  uint8
	namedFloat  float32
	namedInt64  int64
	namedStruct struct{}
)

var (
	ctxType = reflect.TypeOf((*sqlf.Context)(nil))
	strType = reflect.TypeOf("")
	errType = reflect.TypeOf((*error)(nil)).Elem()

	goodParams = []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), strType, reflect.TypeOf(false),
		reflect.TypeOf(namedString("")), reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedBool(false)), reflect.TypeOf(namedUint8(0)), reflect.TypeOf(namedFloat(0)), reflect.TypeOf(namedInt64(0)),
	}
	badParams = []reflect.Type{
		reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf([]byte(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf([]string(nil)),
		reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(new(int)), reflect.TypeOf(new(string)), reflect.TypeOf(namedStruct{}), errType, reflect.TypeOf((*any)(nil)).Elem(),
		reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf([2]int{}), reflect.TypeOf(sqlf.Context{}), reflect.TypeOf((*sqlf.Fragment)(nil)),
		reflect.TypeOf((*sqlf.FragmentBuilder)(nil)).Elem(), reflect.TypeOf((**sqlf.Context)(nil)), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	}
	badResults = []reflect.Type{reflect.TypeOf(0), errType, reflect.TypeOf([]byte(nil)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(new(string)), reflect.TypeOf(false), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf(&errVal{}), reflect.TypeOf((*fmt.Formatter)(nil)).Elem()}
)

// goodFnName tells if a function may have this name.
func goodFnName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isNameByte(s[i]) {
			return false
		}
	}
	return true
}

func c10Names(t *T, idx int) {
	g := newGen(t)
	b := new(strings.Builder)
	if t.Intn(2) == 0 {
		n := t.Intn(6)
		if t.Intn(10) == 0 {
			n = t.Intn(300)
		}
		for ; n > 0; n-- {
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[t.Intn(53)])
		}
	}
	if t.Intn(2) == 0 {
		b.WriteString(g.oneOf("é", "ſ", "K", "ａ", "1", "a1", "1a", " ", "a b", "-", "#", ".", "\x00", "\xff", "@", "[", "`", "{", "/", "日", "ª", "$", "?", "(", "'", "\n", "f ", "²", "_", "__", "aA"))
	}
	if t.Intn(3) == 0 {
		b.WriteByte(byte(t.Intn(256)))
	}
	if t.Intn(3) == 0 {
		b.WriteByte("azAZ_mM"[t.Intn(7)])
	}
	name := b.String()
	t.desc = func() string { return fmt.Sprintf("name %q", name) }
	t.Eval()
	calls := 0
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[t.Intn(2)]), sqlf.FuncMap{name: func(int) (string, error) { calls++; return "x", nil }})
	if (err == nil) != goodFnName(name) {
		t.Failf("registering a function named %q: error %v", name, err)
	}
	if err == nil {
		t.Feat("name accepted")
	} else {
		t.Feat("name rejected")
	}
	if err == nil && name != "" { // the parser must find it, too
		ctx, _ := sqlf.ContextWithFuncs(sqlf.NewContext(styles[t.Intn(2)]), sqlf.FuncMap{name: func(i int) string { calls = i; return "<x>" }})
		for _, raw := range []string{"a#%s7b", "a#%s(7)b", "#%s(7)"} {
			calls = 0
			q, err := sqlf.F(fmt.Sprintf(raw, name)).BuildFragment(ctx)
			if want := strings.Split(raw, "#")[0] + "<x>"; err != nil || !strings.HasPrefix(q, want) || calls != 7 {
				t.Failf("function %q called as %q: got %q, error %v, arg %d", name, raw, q, err, calls)
			}
		}
		t.Key(name)
	}
}

// c10NameRunes registers names with each rune, first and later.
func c10NameRunes(t *T, idx int) {
	name := string(rune(idx / 2))
	if idx%2 == 1 {
		name = "a" + name + "_"
	}
	if k := idx / 2; k >= 0x2f80 && k < 0x3000 { // bytes which are no rune, and full width letters
		name = string([]byte{byte(idx)})
		if idx%2 == 1 {
			name = string(rune(0xff00 + idx/2%256))
		}
	}
	t.desc = func() string { return fmt.Sprintf("name %q", name) }
	t.Eval()
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[0]), sqlf.FuncMap{name: func(int) (string, error) { return "x", nil }})
	if (err == nil) != goodFnName(name) {
		t.Failf("registering a function named %q: error %v", name, err)
	}
	t.Key(name)
}

// fnType is a random function type and whether it may be registered.
type fnType struct {
	in, out  []reflect.Type
	variadic bool
	good     bool
	judged   bool
}

func (f *fnType) typ() reflect.Type { return reflect.FuncOf(f.in, f.out, f.variadic) }

func (t *T) fnType(badRate int) *fnType {
	f := &fnType{good: true, judged: true}
	bad := func() bool { return badRate > 0 && t.Intn(badRate) == 0 }
	if t.Intn(3) == 0 {
		f.in = append(f.in, ctxType)
	}
	n := t.Intn(4)
	if t.Intn(8) == 0 { // many
		n = 4 + t.Intn([]int{4, 40}[t.Intn(2)])
		badRate *= n / 3
	}
	for ; n > 0; n-- {
		p := goodParams[t.Intn(len(goodParams))]
		if bad() {
			f.good = false
			p = badParams[t.Intn(len(badParams))]
			if len(f.in) > 0 && t.Intn(4) == 0 {
				p = ctxType // not first
			}
		}
		f.in = append(f.in, p)
	}
	if n := len(f.in); n > 0 && t.Intn(3) == 0 {
		if f.in[n-1] == ctxType {
			f.good = false
			if badRate == 0 {
				f.good = true
				goto out
			}
		}
		f.variadic = true
		f.in[n-1] = reflect.SliceOf(f.in[n-1])
	}
out:
	switch t.Intn(4) {
	case 0:
	case 1:
		f.out = []reflect.Type{strType}
	default:
		f.out = []reflect.Type{strType, errType}
	}
	if bad() || badRate > 4 && f.good && t.Intn(6) == 0 {
		switch t.Intn(5) {
		case 0:
			f.out = append(f.out, errType)
			f.good = f.good && len(f.out) == 2
			if len(f.out) == 1 {
				f.good = false
			}
		case 1:
			f.out = []reflect.Type{badResults[t.Intn(len(badResults))]}
			f.good = false
		case 2:
			f.out = []reflect.Type{badResults[t.Intn(len(badResults))], errType}
			f.good = false
		case 3:
			second := badResults[t.Intn(len(badResults))]
			f.out = []reflect.Type{strType, second}
			f.good = f.good && second == errType
		case 4:
			f.out = []reflect.Type{strType, errType, strType, errType}[:3+t.Intn(2)]
			for n := t.Intn(30) * t.Intn(2); n > 0; n-- {
				f.out = append(f.out, badResults[t.Intn(len(badResults))])
			}
			f.good = false
		}
	}
	return f
}

func zeroResults(out []reflect.Type) []reflect.Value {
	r := make([]reflect.Value, len(out))
	for i, o := range out {
		r[i] = reflect.Zero(o)
	}
	return r
}

func c10Types(t *T, idx int) {
	funcs := sqlf.FuncMap{}
	good := true
	desc := ""
	names := []string{"x", "Y", "_z"}
	for i := 0; i < 1+t.Intn(3)*t.Intn(2); i++ {
		if t.Intn(12) == 0 {
			v := []any{nil, 1, "x", struct{}{}, []int{}, &good, reflect.ValueOf(func() {}), map[string]int{}, errFn, sqlf.FuncMap{}}[t.Intn(10)]
			funcs[names[i]] = v
			good = false
			desc += fmt.Sprintf("%T;", v)
			t.Feat("not a function")
			continue
		}
		f := t.fnType(4)
		good = good && f.good
		funcs[names[i]] = reflect.MakeFunc(f.typ(), func([]reflect.Value) []reflect.Value { return zeroResults(f.out) }).Interface()
		desc += f.typ().String() + ";"
	}
	t.desc = func() string { return "types " + desc }
	t.Eval()
	parent := sqlf.NewContext(styles[t.Intn(2)])
	_, err := sqlf.ContextWithFuncs(parent, funcs)
	if (err == nil) != good {
		t.Failf("registering functions of the types %s: error %v, want success %v", desc, err, good)
	}
	if good {
		t.Feat("type accepted")
	} else {
		t.Feat("type rejected")
	}
	t.Key(desc)
	t.Sample(desc)
}

// c10Many registers up to hundreds of functions at once, one of them unusable
// or none, and calls each of them.
func c10Many(t *T, idx int) {
	n := 2 + t.Intn([]int{10, 40, 250}[t.Intn(3)])
	bad := -1
	if t.Intn(3) == 0 {
		bad = t.Intn(n)
	}
	funcs := sqlf.FuncMap{}
	raw := new(strings.Builder)
	want := new(strings.Builder)
	desc := ""
	name := func(i int) string {
		s := ""
		for ; i >= 0; i = i/26 - 1 {
			s = string(rune('A'+i%26)) + s
		}
		return s
	}
	for k, i := range t.Perm(n) {
		i, nm := i, name(i)
		if k == bad {
			if t.Intn(2) == 0 {
				nm += t.oneOfNames("1", "é", " ", "-")
				funcs[nm] = func(int) string { return "" }
			} else {
				f := t.fnType(2)
				for f.good {
					f = t.fnType(2)
				}
				funcs[nm] = reflect.MakeFunc(f.typ(), func([]reflect.Value) []reflect.Value { return zeroResults(f.out) }).Interface()
			}
			desc = fmt.Sprintf("one of %d is unusable: %s %T", n, nm, funcs[nm])
			continue
		}
		funcs[nm] = func(x int) (string, error) {
			if x < 1 || x > 2 {
				return "", sqlf.ErrInvalidIndex
			}
			return fmt.Sprintf("<%d:%d>", i, x), nil
		}
		if t.Intn(6) == 0 {
			fmt.Fprintf(raw, "#join('#%s','')", nm)
			fmt.Fprintf(want, "<%d:1><%d:2>", i, i)
			continue
		}
		fmt.Fprintf(raw, "#%s%d", nm, 1+i%2)
		fmt.Fprintf(want, "<%d:%d>", i, 1+i%2)
	}
	t.desc = func() string { return fmt.Sprintf("%d functions; %s\n%s", n, desc, clip(raw.String(), 500)) }
	t.Eval()
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[t.Intn(2)]), funcs)
	if (err == nil) != (bad < 0) {
		t.Failf("registering %d functions: error %v", n, err)
	}
	t.Key(fmt.Sprint(n, bad, desc))
	if err != nil {
		t.Feat("one of many rejected")
		return
	}
	q, err := sqlf.F(raw.String()).BuildFragment(ctx)
	if err != nil || q != want.String() {
		t.Failf("calling %d functions: error %v\ngot  %q\nwant %q", n, err, clip(q, 500), clip(want.String(), 500))
	}
	t.Feat("many functions")
}

func (t *T) oneOfNames(s ...string) string { return s[t.Intn(len(s))] }

// recorder is a function that records its calls.
type recorder struct {
	typ      *fnType
	behave   int
	limit    int64 // for indexes
	ret      string
	got      [][]any // recorded
	want     [][]any // of the reference
	inside   *mNode  // what it builds with its context
	panicVal any
}

const (
	behText = iota
	behCommit
	behBuild
	behError
	behPanic
	behIndex
	behErrorAt
	behaviours
)

func (r *recorder) hasCtx() bool { return len(r.typ.in) > 0 && r.typ.in[0] == ctxType }

func (r *recorder) params() (l []reflect.Type) {
	l = r.typ.in
	if r.hasCtx() {
		l = l[1:]
	}
	return l
}

// norm converts an arg to int64, uint64, float64, string or bool.
func norm(v reflect.Value) any {
	switch {
	case v.CanInt():
		return v.Int()
	case v.CanUint():
		return v.Uint()
	case v.CanFloat():
		return v.Float()
	case v.Kind() == reflect.String:
		return v.String()
	case v.Kind() == reflect.Bool:
		return v.Bool()
	}
	return fmt.Sprint("bad ", v)
}

func index(a []any) (int64, bool) {
	if len(a) == 0 {
		return 0, false
	}
	switch x := a[0].(type) {
	case int64:
		return x, true
	case uint64:
		if x > math.MaxInt64 {
			return math.MaxInt64, true
		}
		return int64(x), true
	case float64:
		return int64(x), true
	}
	return 0, false
}

// outcome of a call with these args: 0 text, 1 index error, 2 other error
func (r *recorder) outcome(a []any) int {
	i, isIndex := index(a)
	two := len(r.typ.out) == 2
	switch r.behave {
	case behError:
		if two {
			return 2
		}
	case behPanic:
		return 2
	case behIndex, behErrorAt:
		if isIndex && two {
			if i < 1 || i > r.limit {
				return 1
			}
			if r.behave == behErrorAt && i == 2 {
				return 2
			}
		}
	}
	return 0
}

func (r *recorder) real() any {
	return reflect.MakeFunc(r.typ.typ(), func(in []reflect.Value) []reflect.Value {
		var ctx *sqlf.Context
		if r.hasCtx() {
			ctx = in[0].Interface().(*sqlf.Context)
			in = in[1:]
		}
		args := []any{}
		for i, v := range in {
			if r.typ.variadic && i == len(in)-1 {
				for k := 0; k < v.Len(); k++ {
					args = append(args, norm(v.Index(k)))
				}
				break
			}
			args = append(args, norm(v))
		}
		r.got = append(r.got, args)
		out := zeroResults(r.typ.out)
		if len(out) > 0 {
			out[0] = reflect.ValueOf(r.ret)
		}
		var err error
		switch r.outcome(args) {
		case 1:
			err = sqlf.ErrInvalidIndex
			if r.limit%2 == 0 {
				err = fmt.Errorf("wrapped: %w", err)
			}
		case 2:
			if r.behave == behPanic {
				panic(r.panicVal)
			}
			err = errFn
			switch len(r.ret) % 3 {
			case 1:
				err = &errVal{""} // without a message
			case 2:
				err = fmt.Errorf("%w", &errVal{r.ret})
			}
		default:
			if ctx == nil || len(out) == 0 {
				break
			}
			switch r.behave {
			case behCommit:
				out[0] = reflect.ValueOf(r.ret + ctx.CommitArg("c:"+r.ret) + "," + ctx.CommitArg(len(args)))
			case behBuild:
				s, e := newRealizer(nil).builder(r.inside).BuildFragment(ctx)
				if e != nil {
					if len(out) == 2 {
						err = e
						break
					}
					panic(e)
				}
				out[0] = reflect.ValueOf(r.ret + s)
			}
		}
		if err != nil && len(out) == 2 {
			out[1] = reflect.ValueOf(&err).Elem()
		}
		return out
	}).Interface()
}

func (r *recorder) model() *mFunc {
	f := &mFunc{Variadic: r.typ.variadic}
	for i, p := range r.params() {
		if r.typ.variadic && i == len(r.params())-1 {
			p = p.Elem()
		}
		f.Params = append(f.Params, p.Kind())
	}
	numeric := len(f.Params) == 1 && f.Params[0] != reflect.String && f.Params[0] != reflect.Bool
	f.Joinable = len(r.typ.out) == 2 && numeric && (r.behave == behIndex || r.behave == behErrorAt)
	f.Eval = func(ev *evaluator, fc *mFragCtx, a []any) ([]seg, *mErr) {
		r.want = append(r.want, append([]any{}, a...))
		switch r.outcome(a) {
		case 1:
			return nil, errIndex("index %v", a)
		case 2:
			return nil, errOther("fails")
		}
		if len(r.typ.out) == 0 {
			return nil, nil
		}
		out := text(r.ret)
		if r.hasCtx() {
			switch r.behave {
			case behCommit:
				out = append(out, seg{bind: true, val: "c:" + r.ret}, seg{text: ","}, seg{bind: true, val: len(a)})
			case behBuild:
				s, err := ev.eval(r.inside, fc.scope)
				if err != nil {
					return nil, err.nested()
				}
				out = append(out, s...)
			}
		}
		return out, nil
	}
	f.Construct = r.real()
	return f
}

func (r *recorder) String() string {
	return fmt.Sprintf("%s behaviour %d limit %d returns %q", r.typ.typ(), r.behave, r.limit, clip(r.ret, 60))
}

func (t *T) recorder() *recorder {
	g := newGen(t)
	r := &recorder{typ: t.fnType(0), behave: t.Intn(behaviours), limit: int64(t.Intn(5))}
	if t.Intn(3) > 0 {
		r.behave = []int{behText, behCommit, behIndex}[t.Intn(3)]
	}
	if t.Intn(5) == 0 { // compatible with #join
		r.typ.in = []reflect.Type{goodParams[t.Intn(12)]}
		r.typ.variadic = t.Intn(5) == 0
		if r.typ.variadic {
			r.typ.in[0] = reflect.SliceOf(r.typ.in[0])
		}
		if t.Intn(2) == 0 {
			r.typ.in = append([]reflect.Type{ctxType}, r.typ.in...)
		}
		r.typ.out = []reflect.Type{strType, errType}
		r.behave = []int{behIndex, behIndex, behErrorAt, behText}[t.Intn(4)]
	}
	r.ret = g.oneOf("", " ", "ret", "#f1", "?", "$1", "'", "\x00\xff", "é", "  x\n", "x\x00", "\x00", "x\t", "\n", "\u00a0x\u00a0", "x;", "\ufeff", "\r\n", "x ", strings.Repeat("long ", 200), "#join('#f',',')", "%s", "??")
	r.panicVal = []any{errFn, "boom", 42, struct{}{}, fmt.Errorf("wrapped: %w", errFn), []int{1}, &errVal{"x"}, &errVal{""}, errors.New(""), ""}[t.Intn(10)]
	r.inside = &mNode{Raw: g.oneOf("in ?", "in $1", "in #arg1", "in #join('#arg',',')", "?#arg1"), Args: []any{g.value()}}
	return r
}

// numberLit writes a number, mostly one that fits the kind.
func (g *gen) numberLit(k reflect.Kind) string {
	if g.fit {
		return fmt.Sprint(g.Intn(100))
	}
	switch k {
	case reflect.Float32, reflect.Float64:
		if g.chance(2) {
			return g.oneOf("1.5", "0.1", "-2.25", ".5", "5.", "1e3", "1E-3", "+1.5e+2", "3.4e38", "3.5e38", "1e-50", "16777217", "123456789.123456789", "-0.0", "0.30000000000000004", "9007199254740993", "1.7976931348623157e308")
		}
	}
	switch g.Intn(8) {
	case 0:
		return g.oneOf("1.5", "-0.5", "1e-1", "0.000001", "255.5", "1e400"[:3])
	case 1:
		return g.oneOf("127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296")
	case 2:
		return g.oneOf("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740993", "-9007199254740993", "1e18", "1e19", "1e20", "9223372036854775807.0", "18446744073709551615.0", "123456789012345678")
	case 3:
		return g.oneOf("-1", "-0", "+0", "-5", "+7", "007", "1.0", "2.", "1e2", "100e-2", "12.5e1", "0.0")
	}
	return fmt.Sprint(g.Intn(10))
}

// lit writes a literal for a parameter of kind k.
func (g *gen) lit(k reflect.Kind) string {
	if !g.fit && g.chance(14) { // another kind
		k = []reflect.Kind{reflect.String, reflect.Bool, reflect.Int, reflect.Float64}[g.Intn(4)]
		if g.chance(6) {
			return g.oneOf("nil", "null", "abc", "", "1 2", "'a' 'b'", "TRUE1", "--1", "1-1", "truefalse", "(1)", "\"x\"")
		}
	}
	switch k {
	case reflect.String:
		s := quoteArg(g.oneOf("", "x", "it's", "''", "#f1", "?", "$1", ")", "(", ",", "é", "\n", "\x00", "\xff", "1", "true", "nil", " a ", "\\", "\\'", "\"", "`", "日本", "a,b)", g.escape(), g.escape()))
		return s
	case reflect.Bool:
		return g.oneOf("true", "false")
	}
	return g.numberLit(k)
}

func (g *gen) callOf(name string, f *mFunc) string {
	n := len(f.Params)
	if f.Variadic {
		n += g.Intn(4) - 1
	}
	if g.chance(12) {
		n += 1 - 2*g.Intn(2)
	}
	if n < 0 {
		n = 0
	}
	lits := []string{}
	defer func(old bool) { g.fit = old }(g.fit)
	g.fit = n > 4 && !g.chance(4)
	for i := 0; i < n; i++ {
		k := reflect.Int
		if len(f.Params) > 0 {
			k = f.Params[len(f.Params)-1]
		}
		if i < len(f.Params) {
			k = f.Params[i]
		}
		lits = append(lits, g.lit(k))
	}
	if n == 1 && g.chance(2) {
		digits := lits[0] != ""
		for i := 0; i < len(lits[0]); i++ {
			digits = digits && isDigit(lits[0][i])
		}
		if digits {
			return "#" + name + lits[0]
		}
	}
	b := new(strings.Builder)
	fmt.Fprintf(b, "#%s(", name)
	for i, l := range lits {
		if i > 0 {
			b.WriteString(",")
		}
		if g.chance(4) {
			b.WriteString(g.oneOf(" ", "\n", "\t"))
		}
		b.WriteString(l)
		if l != "" && l[len(l)-1] == '\'' && g.chance(4) {
			b.WriteString(" ")
		}
	}
	b.WriteString(")")
	return b.String()
}

func c10Calls(t *T, idx int) {
	g := newGen(t)
	g.plainVals = true
	recs := map[string]*recorder{}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	names := []string{}
	for _, name := range []string{"aa", "B", "fn_x"}[:1+t.Intn(3)] {
		recs[name] = t.recorder()
		scope.funcs[name] = recs[name].model()
		names = append(names, name)
	}
	if t.Intn(3) == 0 {
		// what is built inside of a function calls another one
		recs[names[0]].inside.Raw += g.oneOf("", " ") + "#g1"
		scope.funcs["g"] = &mFunc{Params: []reflect.Kind{reflect.Int}, Construct: func(i int) string { return fmt.Sprint("<g", i, ">") },
			Eval: func(_ *evaluator, _ *mFragCtx, a []any) ([]seg, *mErr) { return text(fmt.Sprint("<g", a[0], ">")), nil }}
		t.Feat("nested call")
	}
	joins := false
	raw := new(strings.Builder)
	for n := 1 + t.Intn(3); n > 0; n-- {
		name := names[t.Intn(len(names))]
		switch {
		case t.Intn(6) == 0:
			joins = true
			other := ""
			if t.Intn(3) == 0 {
				name2 := names[t.Intn(len(names))]
				other = g.callOf(name2, scope.funcs[name2])
			}
			parts := []string{"#" + name + g.oneOf("", " ", ","), other}
			if t.Intn(2) == 0 {
				parts[0], parts[1] = parts[1], parts[0]
			}
			fmt.Fprintf(raw, "#join(%s, ','%s)", quoteArg(strings.Join(parts, "")), g.oneOf("", "", ",1", ",2", ",1,2", ",2,3"))
			t.Feat("in join")
			if len(recs[name].typ.out) == 2 && recs[name].behave == behText {
				t.Feat("probe of join")
			}
		default:
			raw.WriteString(g.callOf(name, scope.funcs[name]))
		}
		raw.WriteString(g.oneOf("", " ", "a", ", ", ") ", "é"))
	}
	n := &mNode{Raw: raw.String()}
	for d := t.Intn(3); d > 0; d-- {
		n = &mNode{Raw: g.oneOf("#f1", "x #f1 ?", "#join('#f',' ') ?"), Kids: []*mNode{n}}
		if strings.Contains(n.Raw, "?") {
			n.Args = []any{g.value()}
		}
	}
	t.desc = func() string {
		s := describe(n)
		for _, name := range names {
			s += fmt.Sprintf("#%s: %s\n  called with %v, want %v\n", name, recs[name], recs[name].got, recs[name].want)
		}
		return s
	}
	segs, merr := t.evalModel(n, scope)
	t.checkCalls(n, scope, recs, segs, merr, joins)
}

func (t *T) checkCalls(n *mNode, scope *mScope, recs map[string]*recorder, segs []seg, merr *mErr, joins bool) {
	t.Eval()
	style := styles[t.Intn(2)]
	q, args, err := buildIn(newRealizer(t.Rand).builder(n), style, scope)
	if (err != nil) != (merr != nil) {
		t.Failf("%s style: error %v, want error: %v\nquery: %q", styleName(style), err, merr, q)
	}
	key := n.Raw
	for _, r := range recs {
		key += "|" + r.String()
	}
	if merr != nil {
		if q != "" {
			t.Failf("failed build returned %q", q)
		}
		t.Feat("call rejected")
		switch {
		case strings.Contains(merr.msg, "wrong number"):
			t.Feat("wrong count")
		case strings.Contains(merr.msg, "can't be"):
			t.Feat("no fit")
		case strings.Contains(merr.msg, "fails"):
			for _, r := range recs {
				if r.behave == behPanic {
					t.Feat("panicked")
				} else if r.behave == behError || r.behave == behErrorAt {
					t.Feat("returned error")
				}
			}
		}
		t.Key(key)
		return
	}
	if d := matchBuild(style, segs, q, args); d != "" {
		t.Failf("%s style: %s", styleName(style), d)
	}
	for name, r := range recs {
		if len(r.got) > 0 {
			t.Feat("called")
			if r.hasCtx() {
				t.Feat("context")
			}
			if len(r.typ.out) == 0 {
				t.Feat("no result")
			} else {
				t.Feat("returned text")
			}
			if r.typ.variadic {
				t.Feat("variadic")
			}
			if len(r.params()) > 12 {
				t.Feat("many params called")
			}
			for _, p := range r.params() {
				if p.Kind() == reflect.Slice {
					p = p.Elem()
				}
				t.Feat("kind " + p.Kind().String())
				if p.PkgPath() != "" {
					t.Feat("named type")
				}
			}
		}
		if joins {
			continue
		}
		if fmt.Sprintf("%#v", r.got) != fmt.Sprintf("%#v", r.want) {
			t.Failf("#%s was called with %#v, want %#v", name, r.got, r.want)
		}
		for _, c := range r.got {
			for _, a := range c {
				switch a := a.(type) {
				case int64:
					if a > 1<<53 {
						t.Feat("exact integer above 2^53")
					}
				case uint64:
					if a > 1<<53 {
						t.Feat("exact integer above 2^53")
					}
				}
			}
		}
	}
	t.Key(key)
	t.Sample(fmt.Sprintf("%q with %s", n.Raw, key))
}

// c10Integers passes arbitrary integers, in any spelling, to every kind.
func c10Integers(t *T, idx int) {
	x := new(big.Int).Rand(t.Rand, new(big.Int).Lsh(big.NewInt(1), uint(1+t.Intn(70))))
	if t.Intn(3) == 0 { // near a power of two
		x = new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(66)))
		x.Add(x, big.NewInt(int64(t.Intn(7)-3)))
	}
	if t.Intn(2) == 0 {
		x.Neg(x)
	}
	lit := x.String()
	switch t.Intn(8) {
	case 0:
		lit = strings.Replace("+0"+lit, "+0-", "-00", 1)
	case 1:
		if len(lit) < 16 {
			lit += ".0"
		}
	case 2:
		if len(lit) < 14 {
			lit += "e1"
		}
	}
	typ := goodParams[t.Intn(12)]
	if t.Intn(4) == 0 {
		typ = goodParams[14+t.Intn(6)]
	}
	r := &recorder{typ: &fnType{in: []reflect.Type{typ}, out: []reflect.Type{strType}}, ret: "r"}
	if t.Intn(4) == 0 {
		r.typ.variadic = true
		r.typ.in[0] = reflect.SliceOf(typ)
	}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{"fn": r.model()}}
	n := &mNode{Raw: "#fn(" + lit + ")"}
	digits := true
	for i := 0; i < len(lit); i++ {
		digits = digits && isDigit(lit[i])
	}
	if digits && t.Intn(2) == 0 {
		n.Raw = "#fn" + lit
	}
	t.desc = func() string { return fmt.Sprintf("%q with %s\ncalled with %v, want %v", n.Raw, r, r.got, r.want) }
	segs, merr := t.evalModel(n, scope)
	t.checkCalls(n, scope, map[string]*recorder{"fn": r}, segs, merr, false)
}

// c10Long has long results, arg lists, literals and names.
func c10Long(t *T, _ int) {
	g := newGen(t)
	size := sizes[1+t.Intn(len(sizes)-1)]
	huge := t.Intn(12) == 0
	if huge {
		size = hugeSizes[t.Intn(len(hugeSizes))]
	}
	t.big(size)
	unit := func() string {
		return g.oneOf("x", "ab ", "é", "'", "?", "#f1", "\n", " ", "\xff", "\x00", "日本", "$1,")
	}
	recs := map[string]*recorder{}
	scope := &mScope{parent: builtinScope, funcs: map[string]*mFunc{}}
	r := &recorder{typ: &fnType{out: []reflect.Type{strType, errType}[:1+t.Intn(2)]}, ret: g.oneOf("", "r", " r ")}
	if t.Intn(2) == 0 {
		r.typ.in = append(r.typ.in, ctxType)
		r.behave = []int{behText, behCommit}[t.Intn(2)]
	}
	name := "fn"
	n := &mNode{}
	call := ""
	switch t.Intn(4) {
	case 0: // result
		u := unit()
		r.ret = "<" + strings.Repeat(u, size) + ">"
		if t.Intn(3) == 0 {
			r.ret = strings.Repeat(u, size)
		}
		call = "#fn()"
		if t.Intn(3) == 0 {
			r.typ.in = append(r.typ.in, goodParams[t.Intn(12)])
			call = "#fn1"
		}
		t.Feat("long result")
	case 1: // args
		fixed := t.Intn(4)
		if size > 2000 {
			size = 2000
		}
		var p reflect.Type
		for i := 0; i <= fixed; i++ {
			p = goodParams[t.Intn(len(goodParams))]
			if i == fixed {
				p = reflect.SliceOf(p)
			}
			r.typ.in = append(r.typ.in, p)
		}
		r.typ.variadic = true
		if t.Intn(3) == 0 && size < 120 { // as many params
			last := len(r.typ.in) - 1
			e := r.typ.in[last].Elem()
			r.typ.in = r.typ.in[:last]
			for i := fixed; i < size; i++ {
				r.typ.in = append(r.typ.in, e)
			}
			r.typ.variadic = false
			if size < fixed {
				size = fixed
			}
			if t.Intn(4) == 0 {
				size += []int{-1, 1}[t.Intn(2)]
			}
		} else if size < fixed {
			size = fixed
		}
		lits := make([]string, size)
		model := r.model()
		for i := range lits {
			k := model.Params[len(model.Params)-1]
			if i < len(model.Params) {
				k = model.Params[i]
			}
			switch k {
			case reflect.String:
				lits[i] = quoteArg(fmt.Sprint("s", i, g.oneOf("", "'", ",", ")")))
			case reflect.Bool:
				lits[i] = fmt.Sprint(t.Intn(2) == 0)
			default:
				lits[i] = fmt.Sprint(i % 128)
			}
		}
		call = "#fn(" + strings.Join(lits, g.oneOf(",", ", ", ",\n")) + ")"
		t.Feat("long list")
	case 2: // literal
		r.typ.in = append(r.typ.in, strType)
		call = "#fn(" + quoteArg(strings.Repeat(unit(), size)+g.oneOf("", ".", "'")) + ")"
		t.Feat("long literal")
	default: // names that differ late
		if size > 70001 {
			size = 70001
		}
		base := strings.Repeat(g.oneOf("a", "Ab_", "_"), size)
		name = base + "x"
		for _, other := range []string{base, base + "y", base + "xx", strings.ToUpper(name)} {
			if t.Intn(3) == 0 || other == name {
				continue
			}
			o := &recorder{typ: &fnType{out: []reflect.Type{strType}}, ret: "o" + other[len(other)-1:]}
			recs[other] = o
			scope.funcs[other] = o.model()
		}
		call = "#" + name + "()"
		if t.Intn(3) == 0 {
			call += "#" + g.oneOf(base, base+"y", base+"xx", base+"z") + "()"
		}
		t.Feat("long name")
	}
	recs[name] = r
	scope.funcs[name] = r.model()
	n.Raw = g.oneOf("", "x ", "'") + call + g.oneOf("", " y", "'")
	if t.Intn(3) == 0 {
		n.Raw += " " + call
	}
	if t.Intn(2) == 0 {
		n = &mNode{Raw: "#f1 ?", Kids: []*mNode{n}, Args: []any{g.value()}}
	}
	t.desc = func() string {
		return fmt.Sprintf("size %d, %q with %s\ncalled with %s, want %s", size, clip(n.Raw, 300), clip(r.String(), 300), clip(fmt.Sprint(r.got), 300), clip(fmt.Sprint(r.want), 300))
	}
	segs, merr := t.evalModel(n, scope)
	t.checkCalls(n, scope, recs, segs, merr, false)
}

type methodHost struct{ n int }

func (m *methodHost) Fn(i int) (string, error)                           { return fmt.Sprint("m", m.n+i), nil }
func (m methodHost) Ctx(ctx *sqlf.Context, s string, n ...uint16) string { return fmt.Sprint(s, n) }

type namedFn func(ctx *sqlf.Context, i int) (string, error)

// c10Fixed lists hand-written functions.
var c10Fixed = []struct {
	fn    any
	raw   string
	want  string
	fails bool
}{
	{(&methodHost{5}).Fn, "#x2", "m7", false},
	{methodHost{5}.Ctx, "#x('a', 1, 65535)", "a[1 65535]", false},
	{methodHost{5}.Ctx, "#x('a')", "a[]", false},
	{methodHost{5}.Ctx, "#x('a', 65536)", "", true},
	{methodHost{5}.Ctx, "#x('a', -1)", "", true},
	{methodHost{5}.Ctx, "#x()", "", true},
	{namedFn(func(_ *sqlf.Context, i int) (string, error) { return fmt.Sprint(i), nil }), "#x(41)", "41", false},
	{fmt.Sprint, "#x(1)", "", true}, // ...any
	{strings.ToUpper, "#x('abC')", "ABC", false},
	{strings.Repeat, "#x('ab', 3)", "ababab", false},
	{strings.Repeat, "#x('ab', -3)", "", true}, // panics
	{strings.Contains, "#x('a','b')", "", true},
	{func(ctx *sqlf.Context) string { return ctx.CommitArg(1) }, "#x()", "$1", false},
	{func(ctx *sqlf.Context) string { return ctx.CommitArg(1) }, "#x(1)", "", true},
	{func() {}, "a#x()b", "ab", false},
	{func() (string, error) { panic(nil) }, "#x()", "", true},
	{func() string { var m map[string]int; m["x"] = 1; return "" }, "#x()", "", true},
	{func(i int) string { return strings.Repeat("x", 1/i) }, "#x0", "", true},
	{func() (string, error) { return "partial", errFn }, "#x()", "", true},
	{func() (string, error) { return "partial", sqlf.ErrInvalidIndex }, "#x()", "", true},
	{func(a, b, c, d, e, f int) string { return fmt.Sprint(a, b, c, d, e, f) }, "#x(1,2,3,4,5,6)", "1 2 3 4 5 6", false},
	{func(a bool, b ...bool) string { return fmt.Sprint(a, b) }, "#x(true, false,true)", "true [false true]", false},
	{func(a string) string { return a }, "#x(1)", "", true},
	{func(a bool) string { return fmt.Sprint(a) }, "#x(1)", "", true},
	{func(a int) string { return fmt.Sprint(a) }, "#x('1')", "", true},
	{func(a int) string { return fmt.Sprint(a) }, "#x(true)", "", true},
	{func(a int) string { return fmt.Sprint(a) }, "#x(nil)", "", true},
	{func(a string) string { return a }, "#x(null)", "", true},
	{func(a float64) string { return fmt.Sprint(a) }, "#x1.5", "1.5", false}, // the call takes the 1
}

func c10FixedCase(t *T, idx int) {
	c := c10Fixed[idx]
	t.desc = func() string { return fmt.Sprintf("%T called as %q", c.fn, c.raw) }
	t.Eval()
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(styles[0]), sqlf.FuncMap{"x": c.fn})
	if err != nil {
		if !c.fails {
			t.Failf("not registered: %v", err)
		}
		t.Key("")
		return
	}
	q, err := sqlf.F(c.raw).BuildFragment(ctx)
	if (err != nil) != c.fails || q != c.want {
		t.Failf("got %q, error %v, want %q, error %v", q, err, c.want, c.fails)
	}
	t.Key("")
}

var _ = errors.Is
