package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strings"
	"time"

	sqlf "github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	register(&Check{
		ID: "C19",
		Rule: "lists of values, slices, arrays and pointers of ordinary, named, generic, nested, empty and nil types, and of types made with reflect, are flattened and compared element by element (dynamic type, value, identity) with a reflection-free description of what went in; the inputs are compared with copies; WhereIn and WhereNotIn are built in both styles; " +
			"non-trivial: at least one slice, array or pointer to one; distinct by types and lengths",
		Required: []string{"value", "slice", "named slice", "array", "empty array", "nil slice", "empty slice", "pointer", "nil pointer", "pointer to array", "pointer to pointer", "pointer to value", "bytes", "interface slice", "nested slice", "nil element", "map", "nil",
			"reflect type", "type with methods", "pointer to type with methods", "ttoa", "where in", "where not in", "empty list", "single", "spare capacity", "nothing", "long"},
		Phases: []Phase{
			{Name: "flatten", Quick: 300000, Thorough: 6000000, Run: c19Flatten},
			{Name: "types", Quick: 120000, Thorough: 2000000, Run: c19Types},
			{Name: "ttoa", Quick: 20000, Thorough: 300000, Run: c19Ttoa},
			{Name: "where in", Quick: 80000, Thorough: 1500000, Run: c19WhereIn},
			{Name: "long", Quick: 1500, Thorough: 40000, Run: c19Long},
		},
		Assumptions: []string{"a nil pointer to a slice has no elements to be replaced by; it is kept as a value"},
	})
}

type namedInts []int
type namedAnys []any
type namedArr [3]string
type genericSlice[E any] []E
type structElem struct{ A, B any }

// fInput is an input of the flattening with what it must become, and a test
// that it is unchanged.
type fInput struct {
	v    any
	want []any
	feat string
	kind string // "", slice, pointer
	same func() bool
}

func mk[E any](t *T, n int, elem func() E) []E {
	s := make([]E, 0, n+t.Intn(3))
	for i := 0; i < n; i++ {
		s = append(s, elem())
	}
	full := s[:cap(s)]
	for i := n; i < len(full); i++ {
		full[i] = elem()
		t.Feat("spare capacity")
	}
	return s
}

func sliceInput[E any](t *T, s []E) fInput {
	full := append([]E{}, s[:cap(s)]...)
	in := fInput{v: s, feat: "slice"}
	for _, e := range s {
		in.want = append(in.want, e)
	}
	in.same = func() bool {
		now := s[:cap(s)]
		for i := range full {
			if !sameValue(any(full[i]), any(now[i])) {
				return false
			}
		}
		return true
	}
	if len(s) == 0 {
		in.feat = "empty slice"
		if s == nil {
			in.feat = "nil slice"
		}
	}
	// in a pointer
	switch t.Intn(5) {
	case 0:
		p := &s
		in.v, in.feat = p, "pointer"
	case 1:
		var p *[]E
		in = fInput{v: p, want: []any{p}, feat: "nil pointer"}
	case 2:
		if t.Intn(3) == 0 {
			p := &s
			pp := &p
			in.v, in.want, in.feat = pp, []any{pp}, "pointer to pointer"
		}
	}
	return in
}

func (t *T) fInput() fInput {
	n := []int{0, 1, 2, 3, 3, 10, 11}[t.Intn(7)]
	g := newGen(t)
	isNil := t.Intn(12) == 0
	str := func() string { return g.oneOf("", "a", "b", "'", "é") }
	switch t.Intn(38) {
	case 36, 37:
		return t.methodInput(n)
	case 0:
		v := genValue(t.Rand, nil)
		switch reflect.ValueOf(v).Kind() {
		case reflect.Slice, reflect.Array, reflect.Pointer:
			v = 5
		}
		return fInput{v: v, want: []any{v}, feat: "value"}
	case 1:
		return fInput{v: nil, want: []any{nil}, feat: "nil"}
	case 2:
		v := t.Int63()
		return fInput{v: v, want: []any{v}, feat: "value"}
	case 3:
		v := str()
		return fInput{v: v, want: []any{v}, feat: "value"}
	case 4:
		v := sharedTime.Add(time.Duration(t.Intn(5)))
		return fInput{v: v, want: []any{v}, feat: "value"}
	case 5:
		x := t.Intn(5)
		y := pointStruct{x, x}
		v := []any{&x, &y, new(string), &errVal{"e"}, new(any), &map[string]int{}}[t.Intn(6)]
		return fInput{v: v, want: []any{v}, feat: "pointer to value"}
	case 6:
		v := []any{(*int)(nil), (*pointStruct)(nil), (*string)(nil), (*any)(nil), (*[3]int)(nil), (*namedInts)(nil), (*[]any)(nil), (*[]byte)(nil), (*map[int]int)(nil), (**[]int)(nil)}[t.Intn(10)]
		return fInput{v: v, want: []any{v}, feat: "nil pointer"}
	case 7:
		v := []any{map[string]int{"a": 1}, map[int][]int(nil), func() {}, sharedChan, sliceStruct{[]int{1, 2}}}[t.Intn(5)]
		return fInput{v: v, want: []any{v}, feat: "map"}
	case 8:
		if isNil {
			return sliceInput[bool](t, nil)
		}
		return sliceInput(t, mk(t, n, func() bool { return t.Intn(2) == 0 }))
	case 9:
		if isNil {
			return sliceInput[float64](t, nil)
		}
		return sliceInput(t, mk(t, n, func() float64 { return []float64{0, 1.5, math.Copysign(0, -1), math.NaN()}[t.Intn(4)] }))
	case 10:
		return sliceInput(t, mk(t, n, func() float32 { return float32(t.Intn(3)) }))
	case 11:
		return sliceInput(t, mk(t, n, func() int64 { return t.Int63() }))
	case 12:
		return sliceInput(t, mk(t, n, func() int32 { return int32(t.Int63()) }))
	case 13:
		if isNil {
			return sliceInput[int](t, nil)
		}
		return sliceInput(t, mk(t, n, func() int { return t.Intn(9) - 4 }))
	case 14:
		return sliceInput(t, mk(t, n, func() uint64 { return t.Uint64() }))
	case 15:
		return sliceInput(t, mk(t, n, func() uint32 { return uint32(t.Uint64()) }))
	case 16:
		return sliceInput(t, mk(t, n, func() uint { return uint(t.Uint64()) }))
	case 17:
		if isNil {
			return sliceInput[string](t, nil)
		}
		return sliceInput(t, mk(t, n, str))
	case 18:
		return sliceInput(t, mk(t, n, func() int8 { return int8(t.Intn(256)) }))
	case 19:
		return sliceInput(t, mk(t, n, func() int16 { return int16(t.Intn(65536)) }))
	case 20:
		return sliceInput(t, mk(t, n, func() uint16 { return uint16(t.Intn(65536)) }))
	case 21:
		t.Feat("bytes")
		if isNil {
			return sliceInput[byte](t, nil)
		}
		return sliceInput(t, mk(t, n, func() byte { return byte(t.Intn(256)) }))
	case 22, 23:
		t.Feat("interface slice")
		if isNil {
			return sliceInput[any](t, nil)
		}
		return sliceInput(t, mk(t, n, func() any {
			if t.Intn(4) == 0 {
				t.Feat("nil element")
				return nil
			}
			return genValue(t.Rand, nil)
		}))
	case 24:
		return sliceInput(t, mk(t, n, func() time.Time { return sharedTime.Add(time.Duration(t.Intn(9))) }))
	case 25:
		return sliceInput(t, mk(t, n, func() *int {
			if t.Intn(2) == 0 {
				t.Feat("nil element")
				return nil
			}
			return sharedPtr
		}))
	case 26:
		t.Feat("nested slice")
		return sliceInput(t, mk(t, n, func() []int { return []int{1, t.Intn(3)} }))
	case 27:
		return sliceInput(t, mk(t, n, func() error { return []error{nil, sharedErr, &errVal{"x"}}[t.Intn(3)] }))
	case 28:
		return sliceInput(t, mk(t, n, func() namedString { return namedString(str()) }))
	case 29:
		return sliceInput(t, mk(t, n, func() structElem { return structElem{t.Intn(3), nil} }))
	case 30:
		s := namedInts(mk(t, n, func() int { return t.Intn(5) }))
		if isNil {
			s = nil
		}
		in := fInput{v: s, feat: "named slice"}
		for _, e := range s {
			in.want = append(in.want, e)
		}
		if t.Intn(3) == 0 {
			in.v = &s
		}
		return in
	case 31:
		s := namedAnys(mk(t, n, func() any { return genValue(t.Rand, nil) }))
		in := fInput{v: s, feat: "named slice", want: append([]any{}, s...)}
		if t.Intn(3) == 0 {
			in.v = &s
		}
		return in
	case 32:
		s := genericSlice[time.Duration](mk(t, n, func() time.Duration { return time.Duration(t.Intn(5)) }))
		in := fInput{v: s, feat: "named slice"}
		for _, e := range s {
			in.want = append(in.want, e)
		}
		return in
	case 33:
		a := [3]int{t.Intn(5), 2, 3}
		if t.Intn(2) == 0 {
			return fInput{v: &a, want: []any{a[0], 2, 3}, feat: "pointer to array"}
		}
		return fInput{v: a, want: []any{a[0], 2, 3}, feat: "array"}
	case 34:
		a := namedArr{str(), "x", ""}
		if t.Intn(2) == 0 {
			return fInput{v: &a, want: []any{a[0], "x", ""}, feat: "pointer to array"}
		}
		return fInput{v: a, want: []any{a[0], "x", ""}, feat: "array"}
	default:
		if t.Intn(2) == 0 {
			return fInput{v: [0]int{}, feat: "empty array"}
		}
		a := [2]any{nil, []int{1}}
		return fInput{v: a, want: []any{nil, a[1]}, feat: "array"}
	}
}

// slices and arrays with methods
type (
	valuerList   []string
	stringerList []int
	errorList    []error
	ptrMethods   []string
	textArr      [4]byte
	valuerArr    [2]string
	builderList  []string
)

func (l valuerList) Value() (driver.Value, error)  { return strings.Join(l, ","), nil }
func (l stringerList) String() string              { return "a list" }
func (l stringerList) Len() int                    { return 0 }
func (l errorList) Error() string                  { return "errors" }
func (l errorList) Unwrap() []error                { return l }
func (l *ptrMethods) Value() (driver.Value, error) { return "x", nil }
func (l *ptrMethods) String() string               { return "x" }
func (l *ptrMethods) Scan(any) error               { return nil }
func (a textArr) String() string                   { return "a text" }
func (a textArr) MarshalText() ([]byte, error)     { return []byte("x"), nil }
func (a valuerArr) Value() (driver.Value, error)   { return "x", nil }
func (l builderList) BuildFragment(*sqlf.Context) (string, error) {
	return "x", nil
}

// methodInput is a slice or an array whose type has methods: it has elements
// all the same.
func (t *T) methodInput(n int) fInput {
	strs := mk(t, n, func() string { return fmt.Sprint("e", t.Intn(5)) })
	ints := mk(t, n, func() int { return t.Intn(5) })
	bytes := mk(t, n, func() byte { return byte(t.Intn(256)) })
	arr, arr2 := textArr{1, byte(t.Intn(9)), 3, 4}, valuerArr{"a", "b"}
	rv := reflect.ValueOf([]any{
		valuerList(strs), stringerList(ints), errorList(mk(t, n, func() error { return []error{nil, sharedErr}[t.Intn(2)] })),
		ptrMethods(strs), arr, arr2, builderList(strs),
		json.RawMessage(bytes), net.IP(bytes), net.HardwareAddr(bytes), sort.StringSlice(strs), sort.IntSlice(ints),
		sql.RawBytes(bytes), reflect.ValueOf(&arr).Elem().Slice(1, 3).Interface(),
		sqlf.NewArgsProperties(mk(t, n, func() any { return 1 })...),
	}[t.Intn(15)])
	in := fInput{v: rv.Interface(), feat: "type with methods"}
	for i := 0; i < rv.Len(); i++ {
		in.want = append(in.want, rv.Index(i).Interface())
	}
	if t.Intn(3) == 0 {
		p := reflect.New(rv.Type())
		p.Elem().Set(rv)
		in.v, in.feat = p.Interface(), "pointer to type with methods"
	}
	return in
}

func descList(l []any) string {
	s := ""
	for i, v := range l {
		if i > 30 {
			return s + "..."
		}
		s += descValue(v) + " "
	}
	return s
}

func (t *T) sameList(what string, want, got []any) {
	if len(got) != len(want) {
		t.Failf("%s: %d elements, want %d\n got  %s\n want %s", what, len(got), len(want), descList(got), descList(want))
	}
	for i := range got {
		if !sameValue(want[i], got[i]) {
			t.Failf("%s: element %d is %s, want %s", what, i, descValue(got[i]), descValue(want[i]))
		}
	}
}

func (t *T) fInputs() (list, want []any, check func(), key string) {
	n := t.Intn(5)
	if t.Intn(4) == 0 {
		n = 1
	}
	var ins []fInput
	multi := false
	for i := 0; i < n; i++ {
		in := t.fInput()
		ins = append(ins, in)
		t.Feat(in.feat)
		want = append(want, in.want...)
		list = append(list, in.v)
		multi = multi || in.feat != "value"
		key += fmt.Sprintf("%T:%d;", in.v, len(in.want))
	}
	if !multi {
		key = ""
	}
	if n == 0 {
		t.Feat("nothing")
	}
	before := append([]any{}, list...)
	full := list[:len(list):len(list)]
	check = func() {
		for i := range full {
			if !sameValue(before[i], full[i]) {
				t.Failf("input %d was replaced", i)
			}
			if ins[i].same != nil && !ins[i].same() {
				t.Failf("input %d, %T, was modified", i, full[i])
			}
		}
	}
	t.desc = func() string { return "inputs " + descList(list) }
	return
}

func c19Flatten(t *T, idx int) {
	list, want, check, key := t.fInputs()
	t.Eval()
	got := util.ArgsFlatted(list...)
	t.sameList("flattened", want, got)
	check()
	// changing the result does not change the input
	for i := range got {
		got[i] = "overwritten"
	}
	_ = append(got, "appended")
	check()
	again := util.ArgsFlatted(list...)
	t.sameList("flattened again", want, again)
	if key != "" {
		t.Key(key)
	}
	t.Sample(descList(list))
}

// c19Types makes slices, arrays and pointers of many element types.
func c19Types(t *T, idx int) {
	elem := reflect.TypeOf(0)
	var mkElem func() reflect.Value
	v := genValue(t.Rand, nil)
	for v == nil || reflect.TypeOf(v).Kind() == reflect.Func { // functions can't be compared
		v = genValue(t.Rand, nil)
	}
	elem = reflect.TypeOf(v)
	mkElem = func() reflect.Value { return reflect.ValueOf(v) }
	if t.Intn(4) == 0 && isHashable(v) && v == v {
		elem = reflect.StructOf([]reflect.StructField{{Name: "F", Type: elem}})
		s := reflect.New(elem).Elem()
		s.Field(0).Set(reflect.ValueOf(v))
		mkElem = func() reflect.Value { return s }
	}
	n := t.Intn(5)
	var c reflect.Value
	if t.Intn(2) == 0 {
		c = reflect.MakeSlice(reflect.SliceOf(elem), n, n+t.Intn(3))
	} else {
		c = reflect.New(reflect.ArrayOf(n, elem)).Elem()
	}
	var want []any
	for i := 0; i < n; i++ {
		if t.Intn(3) > 0 {
			c.Index(i).Set(mkElem())
		}
		want = append(want, c.Index(i).Interface())
	}
	in := c.Interface()
	if t.Intn(3) == 0 {
		p := reflect.New(c.Type())
		p.Elem().Set(c)
		in = p.Interface()
	}
	t.desc = func() string { return fmt.Sprintf("%T %+v", in, in) }
	t.Eval()
	t.sameList("flattened", append([]any{"first"}, append(want, "last")...), util.ArgsFlatted("first", in, "last"))
	t.Feat("reflect type")
	t.Key(fmt.Sprintf("%T", in))
}

// c19Long flattens long and many lists.
func c19Long(t *T, idx int) {
	sizes := []int{12, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2049, 4097}
	n := sizes[t.Intn(len(sizes))]
	if t.Intn(40) == 0 {
		n = []int{32767, 32769, 65535, 65536, 65537, 100003}[t.Intn(6)]
	}
	t.big(n)
	t.Eval()
	var list, want []any
	at := 0
	next := func() int { at++; return at }
	desc := ""
	add := func(v any, elems []any) {
		list = append(list, v)
		want = append(want, elems...)
		desc += fmt.Sprintf("%T:%d ", v, len(elems))
	}
	if t.Intn(4) == 0 { // many inputs
		for len(list) < n {
			switch t.Intn(4) {
			case 0:
				s := []int{next(), next()}
				list, want = append(list, s), append(want, s[0], s[1])
			case 1:
				s := namedInts{next()}
				list, want = append(list, &s), append(want, s[0])
			case 2:
				list = append(list, []string{})
			default:
				v := next()
				list, want = append(list, v), append(want, v)
			}
		}
		desc = fmt.Sprint(len(list), " inputs")
	} else {
		for k := 1 + t.Intn(3); k > 0; k-- {
			types := []any{int(0), int64(0), int32(0), uint(0), uint64(0), uint32(0), float64(0), float32(0), "", false, int16(0), uint16(0), int8(0), uint8(0), namedInt(0), time.Duration(0), nil}
			var c reflect.Value
			elem := reflect.TypeOf(types[t.Intn(len(types))])
			if elem == nil {
				elem = reflect.TypeOf((*any)(nil)).Elem()
			}
			switch t.Intn(4) {
			case 0:
				c = reflect.New(reflect.ArrayOf(n, elem)).Elem()
			default:
				c = reflect.MakeSlice(reflect.SliceOf(elem), n, n+t.Intn(3))
			}
			var elems []any
			for i := 0; i < n; i++ {
				var e reflect.Value
				switch elem.Kind() {
				case reflect.String:
					e = reflect.ValueOf(fmt.Sprint("s", next()))
				case reflect.Bool:
					e = reflect.ValueOf(next()%3 == 0)
				default:
					e = reflect.ValueOf(next())
				}
				if elem.Kind() != reflect.Interface {
					e = e.Convert(elem)
				}
				c.Index(i).Set(e)
				elems = append(elems, c.Index(i).Interface())
			}
			if t.Intn(3) == 0 {
				p := reflect.New(c.Type())
				p.Elem().Set(c)
				c = p
			}
			add(c.Interface(), elems)
		}
	}
	t.desc = func() string { return desc }
	t.Feat("long")
	t.sameList("flattened", want, util.ArgsFlatted(list...))
	t.Key(desc)
}

func c19Ttoa(t *T, idx int) {
	n := t.Intn(5)
	t.Eval()
	t.Feat("ttoa")
	s := mk(t, n, func() string { return fmt.Sprint(t.Intn(9)) })
	want := []any{}
	for _, e := range s {
		want = append(want, e)
	}
	t.sameList("Ttoa", want, util.Ttoa(s))
	p := mk(t, n, func() *int { return []*int{nil, sharedPtr}[t.Intn(2)] })
	want = want[:0]
	for _, e := range p {
		want = append(want, e)
	}
	t.sameList("Ttoa", want, util.Ttoa(p))
	a := mk(t, n, func() any { return genValue(t.Rand, nil) })
	got := util.Ttoa(a)
	t.sameList("Ttoa", a, got)
	t.sameList("Ttoa of named", a, util.Ttoa(namedAnys(a)))
	t.Key(fmt.Sprint(s))
}

func c19WhereIn(t *T, idx int) {
	list, want, check, key := t.fInputs()
	not := t.Intn(2) == 0
	var one any = list
	switch {
	case len(list) == 1 && t.Intn(2) == 0:
		t.Feat("single")
		one = list[0]
	default:
		want = list // one level only
	}
	if t.Intn(8) == 0 {
		one, want = []any{[]int{}, []string(nil), []any{}, [0]int{}, []any(nil)}[t.Intn(5)], nil
	}
	t.desc = func() string { return fmt.Sprintf("not in: %v, list %T %+v", not, one, one) }
	col := sqlb.Table("t").Column("c")
	b := sqlb.NewQueryBuilder().Select(col).From(sqlb.NewTableAliased("t", ""))
	op := " IN ("
	if not {
		b.WhereNotIn(col, one)
		op = " NOT IN ("
		t.Feat("where not in")
	} else {
		b.WhereIn(col, one)
		t.Feat("where in")
	}
	segs := text("SELECT t.c FROM t WHERE t.c" + op)
	for i, v := range want {
		if i > 0 {
			segs = append(segs, seg{text: ", "})
		}
		segs = append(segs, seg{bind: true, val: v})
	}
	segs = append(segs, seg{text: ")"})
	t.Eval()
	if len(want) == 0 {
		t.Feat("empty list")
	}
	for _, style := range styles {
		q, args, err := b.BuildQuery(style)
		if err != nil {
			t.Failf("unexpected error %v", err)
		}
		if d := matchBuild(style, coalesce(segs), q, args); d != "" {
			t.Failf("%s style: %s", styleName(style), d)
		}
	}
	check()
	if key != "" {
		t.Key(key)
	}
}
