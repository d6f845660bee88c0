package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
)

type namedString string
type namedInt int
type namedBytes []byte
type pointStruct struct{ X, Y int }
type anyStruct struct{ V any }
type sliceStruct struct{ L []int }
type namedFunc func()
type stringerVal struct{ s string }

func (s stringerVal) String() string {
	yieldPoint()
	return "stringer:" + s.s
}

type valuerVal struct{ v any }

func (v valuerVal) Value() (driver.Value, error) {
	yieldPoint()
	return v.v, nil
}

// opaque shows and encodes the same whatever it holds.
type opaque struct{ v int }

func (opaque) String() string               { return "opaque" }
func (opaque) GoString() string             { return "opaque" }
func (opaque) MarshalText() ([]byte, error) { return []byte("opaque"), nil }

type pair struct{ A, B string }

// sameValuer has the same value for the driver whatever it holds.
type sameValuer struct{ id int }

func (sameValuer) Value() (driver.Value, error) { return int64(1), nil }

type errVal struct{ s string }

func (e *errVal) Error() string { return e.s }

var (
	sharedErr  = errors.New("shared error value")
	sharedChan = make(chan int)
	sharedTime = time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC)
	sharedPtr  = new(int)
	sharedAny  = any("x")
	sharedStr  = "s"
	sharedBig  = big.NewInt(7)
	sharedList = []int{1, 1, 1, 1}
	sharedFrag = sqlf.Fa("a ?", 1)
	longText   = strings.Repeat("long text ", 100)
)

// valueKinds is the number of kinds of argument values.
const valueKinds = 62

// genValue creates an argument value of a random kind; the values of a kind
// come from small domains, so that equal ones occur.
func genValue(r *rand.Rand, feat func(string)) any {
	k := r.Intn(valueKinds)
	if r.Intn(2) == 0 { // the common ones
		k = []int{0, 1, 2, 7, 12, 13, 14, 15, 16, 44}[r.Intn(10)]
	}
	v := valueOfKind(r, k)
	if feat != nil {
		if !isHashable(v) {
			feat("arg.unhashable")
		} else if f, ok := v.(float64); ok && f != f {
			feat("arg.nan")
		} else if v == nil {
			feat("arg.nil")
		} else {
			feat("arg.hashable")
		}
	}
	return v
}

func valueOfKind(r *rand.Rand, k int) any {
	n := r.Intn(4)
	switch k {
	case 0:
		return n
	case 1:
		return fmt.Sprint("s", n)
	case 2:
		return nil
	case 3:
		return int8(n)
	case 4:
		return int16(n)
	case 5:
		return int32(n)
	case 6:
		return int64(n)
	case 7:
		return int64(n) << 40
	case 8:
		return uint8(n)
	case 9:
		return uint16(n)
	case 10:
		return uint32(n)
	case 11:
		return uint64(math.MaxUint64 - uint64(n))
	case 12:
		return n == 0
	case 13:
		return float64(n) / 2
	case 14:
		return []byte(fmt.Sprint("b", n))
	case 15:
		return sharedTime.Add(time.Duration(n) * time.Hour)
	case 16:
		return r.Int63()
	case 17:
		return float32(n)
	case 18:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[n]
	case 19:
		return []string{"", "?", "$1", "#f1"}[n]
	case 20:
		return []string{"it's", "\x00\xff", "日本語", "'; DROP TABLE x; --"}[n]
	case 21:
		return namedString(fmt.Sprint("s", n))
	case 22:
		return namedInt(n)
	case 23:
		return namedBytes{byte(n)}
	case 24:
		return pointStruct{n, 0}
	case 25:
		return &pointStruct{n, 0}
	case 26:
		return anyStruct{n}
	case 27:
		return anyStruct{[]int{n}} // comparable type, not hashable
	case 28:
		return sliceStruct{[]int{n}}
	case 29:
		return map[string]int{"k": n}
	case 30:
		return [2]int{n, 1}
	case 31:
		return [1]any{[]string{"x"}} // not hashable
	case 32:
		return (*int)(nil)
	case 33:
		return []any{nil, (*string)(nil), []byte(nil), []int(nil)}[n]
	case 34:
		return namedFunc(func() {})
	case 35:
		return sharedChan
	case 36:
		return complex(float64(n), 1)
	case 37:
		return sql.NullString{String: "x", Valid: n == 0}
	case 38:
		return valuerVal{n}
	case 39:
		return sharedErr
	case 40:
		return &errVal{"e"}
	case 41:
		return reflect.ValueOf(n)
	case 42:
		return []any{[]int{1, 2, 3}, []string{"a"}, [3]int{}, &[]int{1}}[n]
	// values that look alike, but are not the same
	case 44:
		return opaque{n}
	case 45:
		return sharedTime.In(time.FixedZone("", n*3600))
	case 46:
		return []any{pair{"a b", "c"}, pair{"a", "b c"}, pair{"", "a b c"}, pair{"a b c", ""}}[n]
	case 47:
		return sameValuer{n}
	case 48:
		return []any{int32(1), int64(1), 1, namedInt(1)}[n]
	case 49:
		return []any{&opaque{1}, opaque{1}, "opaque", namedString("opaque")}[n]
	// pointers, and values with a meaning elsewhere
	case 50:
		x := any(n)
		return []any{&x, &sharedAny, new(any), &sharedAny}[n]
	case 51:
		s := fmt.Sprint("s", n)
		return []any{&s, &sharedStr, new(string), &sharedTime}[n]
	case 52:
		return []any{sql.Named("n", 1), sql.Named("n", 2), sql.Out{Dest: sharedPtr}, driver.NamedValue{Ordinal: 1, Value: int64(1)}}[n]
	case 53:
		return []any{time.Duration(n), json.RawMessage(`{"a":1}`), json.Number("1"), uintptr(n)}[n]
	case 54:
		return []any{int64(1) << 53, int64(1)<<53 + 1, uint64(1) << 53, float64(1 << 53)}[n]
	case 55:
		return []any{big.NewInt(1), *big.NewInt(1), sharedBig, sharedBig}[n]
	case 56:
		return []any{[]byte{}, []byte("b0"), []byte("b0x"), [2]byte{'b', '0'}}[n]
	case 57: // the same array
		return []any{sharedList[:1], sharedList[:2], sharedList[1:], sharedList}[n]
	case 58:
		return []any{"1", "1 ", " 1", "1.0"}[n]
	case 59:
		return []any{struct{}{}, [0]int{}, error(nil), (*pair)(nil)}[n]
	// values of the library, which mean nothing as args
	case 60:
		if r.Intn(2) == 0 {
			return []any{sharedFrag, sqlf.F("x"), sqlf.NewArgsProperties(1)[0], funcBuilder(nil)}[n]
		}
		return []any{sqlb.Table("t"), sqlb.NewTableAliased("t", "a"), sqlb.Table("t").Column("x"), (*sqlf.Fragment)(nil)}[n]
	case 61: // long ones that differ little
		b := []byte(longText)
		b[[]int{0, 500, 999, 999}[n]] = 'x'
		return string(b)
	default:
		return []any{sharedPtr, &sharedPtr, stringerVal{"x"}, uint(7)}[n]
	}
}

// dbValue creates an arg that database/sql passes on as it is.
func dbValue(r *rand.Rand) any {
	for {
		switch v := genValue(r, nil).(type) {
		case sql.NamedArg, sql.Out, driver.NamedValue:
		default:
			return v
		}
	}
}
