package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"log"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	register(&Check{
		ID: "C17",
		Rule: "queries with placeholders of both styles between hostile text are interpolated with values of all kinds; the literal at each placeholder is read back by an independent reader and compared with the value, all other text must be unchanged; built statements interpolate the same in both styles; builds with and without debug mode are compared, and what debug mode logs is read back; " +
			"non-trivial: a query with placeholders; distinct by query and values",
		Required: []string{"null", "bool", "integer", "float", "string", "quote in string", "time", "time format", "quote in time format", "stringer", "valuer", "nil pointer", "pointer valuer",
			"missing arg", "unsupported value", "failing valuer", "malformed query", "dollar", "question", "repeated", "unused arg", "built both", "debug", "debug nested", "debug logged", "hostile text", "valuer bytes", "many args", "long string", "index far beyond", "early time", "late time", "nested valuer", "zero time", "nothing logged", "minus behind minus", "kept apart from text before", "telling string"},
		Phases: []Phase{
			{Name: "literals", Quick: 500000, Thorough: 6000000, Run: c17Literals},
			{Name: "many", Quick: 8000, Thorough: 200000, Run: c17ManyArgs},
			{Name: "floats", Quick: 200000, Thorough: 3000000, Run: c17Floats},
			{Name: "built", Quick: 40000, Thorough: 600000, Run: c17Built},
			{Name: "debug", Quick: 30000, Thorough: 400000, Run: c17Debug},
			{Name: "debug log", Quick: 3000, Thorough: 60000, Serial: true, Run: c17DebugLog},
		},
		Assumptions: []string{
			"literals are read as standard SQL does: '' is the only escape within quotes",
			"times are rounded or cut to microseconds",
			"the zero time may be shown as '0000-00-00' or as any other",
			"nil slices and maps, NaN and infinities, values that are both a Valuer and a Stringer, and # outside of quotes are not judged",
			"byte slices may be unsupported, or shown as a quoted string or X'hex'",
		},
	})
}

// iVal is a value to interpolate and what its literal must be.
type iVal struct {
	v    any
	want any // nil, bool, *big.Int, float64, float32, string, time.Time, []byte, or iErr
}

type iErr string

type stringerInt int

func (s stringerInt) String() string { return fmt.Sprintf("it's %d", int(s)) }

type stringerPtr struct{ s string }

func (s *stringerPtr) String() string { return s.s }

type valuerString string

func (v valuerString) Value() (driver.Value, error) { return "valued " + string(v), nil }

type kindStringer struct{ s string }

func (k kindStringer) String() string { return k.s }

func (t *T) iString() string {
	g := newGen(t)
	if g.chance(6) { // texts that mean something elsewhere
		t.Feat("telling string")
		return g.oneOf("<nil>", "nil", "NULL", "null", "TRUE", "false", "DEFAULT", "0", "-1", "1e5", "NaN", "now()", "CURRENT_TIMESTAMP",
			"0001-01-01 00:00:00", "2024-02-29", "X'00'", "x", "E'a'", "'a'", "''", "'", "\"a\"", "$1", "?", "[]", "{}", "<invalid reflect.Value>", "%!s(<nil>)", "()", " ", "\x00", "\\", "*")
	}
	b := new(strings.Builder)
	for n := t.Intn(4); n > 0; n-- {
		b.WriteString(g.oneOf("a", "it's", "'", "''", "\\", "\\'", "\"", "`", "\x00", "\n", "é", "\xff", "?", "$1", "#f", "; --", "', 1); DROP TABLE x; --", "日本", "NULL", "1", " ", "%s", "??", g.escape()))
	}
	return b.String()
}

func (t *T) iValue() iVal {
	n := t.Int63() >> uint(t.Intn(63))
	if t.Intn(2) == 0 {
		n = -n
	}
	s := t.iString()
	feat := func(name string) { t.Feat(name) }
	switch t.Intn(32) {
	case 0:
		feat("null")
		return iVal{nil, nil}
	case 1:
		feat("bool")
		return iVal{n&1 == 0, n&1 == 0}
	case 2:
		feat("bool")
		return iVal{namedBool(n&1 == 0), n&1 == 0}
	case 3, 4:
		feat("integer")
		v := []any{int(n), int8(n), int16(n), int32(n), n, namedInt(n), namedInt64(n)}[t.Intn(7)]
		var x int64
		switch v := v.(type) {
		case int:
			x = int64(v)
		case int8:
			x = int64(v)
		case int16:
			x = int64(v)
		case int32:
			x = int64(v)
		case int64:
			x = v
		case namedInt:
			x = int64(v)
		case namedInt64:
			x = int64(v)
		}
		return iVal{v, big.NewInt(x)}
	case 5, 6:
		feat("integer")
		u := uint64(n)
		v := []any{uint(u), uint8(u), uint16(u), uint32(u), u, namedUint8(u)}[t.Intn(6)]
		x := new(big.Int)
		switch v := v.(type) {
		case uint:
			x.SetUint64(uint64(v))
		case uint8:
			x.SetUint64(uint64(v))
		case uint16:
			x.SetUint64(uint64(v))
		case uint32:
			x.SetUint64(uint64(v))
		case uint64:
			x.SetUint64(v)
		case namedUint8:
			x.SetUint64(uint64(v))
		}
		return iVal{v, x}
	case 7:
		feat("float")
		return iVal{float64(n) / 8, float64(n) / 8}
	case 8:
		feat("float")
		if t.Intn(2) == 0 {
			return iVal{namedFloat(n) / 8, float32(n) / 8}
		}
		return iVal{float32(n) / 8, float32(n) / 8}
	case 9, 10, 11, 12:
		feat("string")
		if strings.Contains(s, "'") {
			feat("quote in string")
		}
		if t.Intn(3) == 0 {
			return iVal{namedString(s), s}
		}
		return iVal{s, s}
	case 13, 14:
		feat("time")
		secs := n % (1 << 33)
		switch t.Intn(10) {
		case 0: // in the first years, or before
			secs = -62135596800 + n%(3*365*86400)
			feat("early time")
		case 1:
			secs = 253402300799 + n%(3*365*86400)
			feat("late time")
		case 2: // around the first second
			secs = -62135596800 + n%3
		}
		if t.Intn(15) == 0 {
			z := time.Time{}.In([]*time.Location{time.UTC, time.Local, time.FixedZone("X", 5400)}[t.Intn(3)])
			return iVal{z, z}
		}
		nanos := t.Int63n(1e9)
		if t.Intn(4) == 0 {
			nanos = []int64{0, 1, 499, 500, 501, 999, 999999500, 999999999, 1000, 120000000}[t.Intn(10)]
		}
		tm := time.Unix(secs, nanos).In([]*time.Location{time.UTC, time.Local, time.FixedZone("X", 5400)}[t.Intn(3)])
		if t.Intn(8) == 0 { // a pointer to it is a Valuer only of itself
			return iVal{valuerVal{tm}, tm}
		}
		return iVal{tm, tm}
	case 15:
		feat("stringer")
		return iVal{stringerVal{s}, "stringer:" + s}
	case 16:
		feat("stringer")
		return iVal{stringerInt(n), fmt.Sprintf("it's %d", n)}
	case 17:
		feat("stringer")
		return iVal{&stringerPtr{s}, s}
	case 18:
		feat("stringer")
		return iVal{kindStringer{s}, s}
	case 19:
		feat("stringer")
		return iVal{big.NewInt(n), big.NewInt(n).String()}
	case 20:
		feat("stringer")
		return iVal{time.Duration(n), time.Duration(n).String()}
	case 21:
		feat("valuer")
		in := t.iValue()
		switch in.v.(type) {
		case driver.Valuer:
			if t.Intn(3) == 0 {
				// database/sql doesn't take a Valuer from a Valuer
				feat("nested valuer")
				return iVal{valuerVal{valuerVal{int64(7)}}, iErr("a Valuer from a Valuer")}
			}
			in = iVal{int64(7), big.NewInt(7)}
		}
		if _, ok := in.want.(iErr); ok {
			in.v = pointStruct{1, 1}
		}
		return iVal{valuerVal{in.v}, in.want}
	case 22:
		feat("valuer")
		switch t.Intn(5) {
		case 0:
			return iVal{sql.NullString{String: s, Valid: true}, s}
		case 1:
			return iVal{sql.NullInt64{Int64: n, Valid: true}, big.NewInt(n)}
		case 2:
			return iVal{sql.NullBool{}, nil}
		case 3:
			return iVal{sql.NullFloat64{Float64: 0.1, Valid: true}, 0.1}
		}
		return iVal{valuerString(s), "valued " + s}
	case 23:
		feat("pointer valuer")
		switch t.Intn(4) {
		case 0:
			return iVal{&ptrValuer{s}, s}
		case 1:
			return iVal{(*ptrValuer)(nil), nil} // tells NULL on its own
		case 2:
			return iVal{&valuerVal{n}, big.NewInt(n)}
		}
		return iVal{(*valuerVal)(nil), nil}
	case 24, 25:
		feat("nil pointer")
		return iVal{[]any{(*int)(nil), (*string)(nil), (*time.Time)(nil), (*pointStruct)(nil), (*sql.NullString)(nil), (*stringerVal)(nil), (**int)(nil), (*[]int)(nil), (*stringerPtr)(nil), (*bool)(nil), (*big.Int)(nil)}[t.Intn(11)], nil}
	case 26:
		feat("failing valuer")
		return iVal{[]any{failingValuer{}, selfValuer{1}, &failingValuer{}}[t.Intn(3)], iErr("failing Valuer")}
	case 27:
		feat("valuer bytes")
		b := []byte(s + "x")
		return iVal{[]any{b, valuerVal{b}, namedBytes(b)}[t.Intn(3)], b}
	case 28:
		feat("unsupported value")
		x := 5
		y := "s"
		tm := sharedPtr
		return iVal{[]any{pointStruct{1, 2}, []int{1}, [2]int{}, map[string]int{"a": 1}, make(chan int), func() {}, complex(1, 2), &x, &y, &tm, &pointStruct{}, []any{1}, []string{"'"}, struct{}{}, valuerVal{[]int{1}}, valuerVal{pointStruct{}}, &errVal{"x"}, errFn}[t.Intn(18)], iErr("unsupported")}
	}
	feat("string")
	return iVal{s, s}
}

var (
	reIntLit   = regexp.MustCompile(`^[+-]?[0-9]+(\.0*)?$`)
	reFloatLit = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	reHexLit   = regexp.MustCompile(`^[xX]'([0-9a-fA-F]*)'$`)
)

var reUnquoted = regexp.MustCompile(`^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[A-Za-z]+)`)

// readLiteral reads the literal a text starts with.
func readLiteral(s string) (lit, rest string, ok bool) {
	i := 0
	if i < len(s) && (s[i] == 'x' || s[i] == 'X') && i+1 < len(s) && s[i+1] == '\'' {
		i++
	}
	if i < len(s) && s[i] == '\'' {
		for i++; ; i++ {
			if i >= len(s) {
				return "", "", false
			}
			if s[i] != '\'' {
				continue
			}
			if i+1 < len(s) && s[i+1] == '\'' {
				i++
				continue
			}
			break
		}
		return s[:i+1], s[i+1:], true
	}
	n := len(reUnquoted.FindString(s))
	return s[:n], s[n:], n > 0
}

func isWord(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

// What stands before a literal, or behind it.
const (
	apart  = iota // two tokens
	near          // two tokens for some
	merged        // one token
)

// merging tells if two texts next to each other make one token.
func merging(l, n string) int {
	if l == "" || n == "" {
		return apart
	}
	a, b := l[len(l)-1], n[0]
	wordy := func(b byte) bool { return isWord(b) || b >= 0x80 || b == '$' || b == '.' || b == '@' || b == '#' }
	switch {
	case a == '-' && b == '-', a == '\'' && b == '\'', isWord(a) && isWord(b):
		return merged
	case (a|0x20 == 'e' || a|0x20 == 'n' || a|0x20 == 'b' || a|0x20 == 'x') && b == '\'' && (len(l) == 1 || !wordy(l[len(l)-2])):
		return merged // E'', N'', B'', X''
	case a >= '0' && a <= '9' && b == '.' && len(n) > 1 && n[1] >= '0' && n[1] <= '9':
		return merged // 1.5
	case wordy(a) && (wordy(b) || b == '\''), a == '\'' && wordy(b):
		return near
	}
	return apart
}

func unquote(lit string) (string, bool) {
	if len(lit) < 2 || lit[0] != '\'' || lit[len(lit)-1] != '\'' {
		return "", false
	}
	return strings.ReplaceAll(lit[1:len(lit)-1], "''", "'"), true
}

// literalIs tells if the literal denotes the value.
func literalIs(lit string, want any, format string) bool {
	str, quoted := unquote(lit)
	switch w := want.(type) {
	case nil:
		return strings.EqualFold(lit, "NULL")
	case bool:
		return strings.EqualFold(lit, map[bool]string{true: "TRUE", false: "FALSE"}[w])
	case *big.Int:
		if !reIntLit.MatchString(lit) {
			return false
		}
		x, ok := new(big.Int).SetString(strings.TrimRight(strings.TrimPrefix(strings.SplitN(lit, ".", 2)[0], "+"), ""), 10)
		return ok && x.Cmp(w) == 0
	case float64:
		f, err := strconv.ParseFloat(lit, 64)
		return reFloatLit.MatchString(lit) && err == nil && f == w
	case float32:
		f, err := strconv.ParseFloat(lit, 32)
		return reFloatLit.MatchString(lit) && err == nil && float32(f) == w
	case string:
		return quoted && str == w
	case time.Time:
		if !quoted {
			return false
		}
		if w.IsZero() && str == "0000-00-00" {
			return true
		}
		for _, v := range []time.Time{w.Round(time.Microsecond), w.Truncate(time.Microsecond)} {
			if str == v.Format(format) {
				return true
			}
		}
		return false
	case []byte:
		if m := reHexLit.FindStringSubmatch(lit); m != nil {
			return strings.EqualFold(m[1], fmt.Sprintf("%x", w))
		}
		return quoted && str == string(w)
	}
	return false
}

var c17Formats = []string{time.RFC3339, time.RFC3339Nano, "2006-01-02 15:04:05.999999", "2006-01-02", "it's '06", "", "Mon, 02 Jan 2006 15:04:05 -0700", "'", "15h'04'"}

// checkInterpolated compares an interpolated text with the pieces of a query.
// White space or parentheses keep a literal apart from what it would make a
// token with.
func (t *T) checkInterpolated(got string, segs []seg, format string) {
	rest := got
	before := func() string { return got[:len(got)-len(rest)] }
	behind := "" // the literal the text so far ends with
	for i, s := range segs {
		if !s.bind {
			if s.text == "" {
				continue
			}
			if behind != "" {
				switch m := merging(behind, s.text); {
				case m == apart:
				case strings.HasPrefix(rest, " ") && !strings.HasPrefix(rest, s.text):
					rest = rest[1:]
					t.Feat("kept apart from text behind")
				case m == merged:
					t.Failf("piece %d: the literal %q runs into %q\nall: %q", i, clip(behind, 100), clip(rest, 60), clip(got, 1000))
				}
			}
			behind = ""
			if !strings.HasPrefix(rest, s.text) {
				t.Failf("text differs at piece %d, byte %d: want %q, got %q\nall: %q", i, len(got)-len(rest), clip(s.text, 200), clip(rest, 200), clip(got, 1000))
			}
			rest = rest[len(s.text):]
			continue
		}
		v := s.val.(iVal)
		text, space, paren := before(), false, false
		if len(rest) > 1 && rest[0] == ' ' && merging(text, rest[1:]) != apart {
			rest, space = rest[1:], true
		}
		if len(rest) > 1 && rest[0] == '(' && merging(text, rest[1:]) != apart {
			rest, paren = rest[1:], true
		}
		lit, r, ok := readLiteral(rest)
		if !ok || !literalIs(lit, v.want, format) {
			t.Failf("piece %d: the literal %q is not %T %v of %s\nall: %q", i, clip(lit+" "+clip(r, 60), 200), v.want, v.want, descValue(v.v), clip(got, 1000))
		}
		if merging(text, lit) == merged {
			if !space && !paren {
				t.Failf("piece %d: %T %v behind %q runs into it as %q\nall: %q", i, v.want, v.want, clip(text[max(0, len(text)-20):], 60), clip(rest, 60), clip(got, 1000))
			}
			t.Feat("kept apart from text before")
			if lit[0] == '-' {
				t.Feat("minus behind minus")
			}
		}
		rest = r
		if paren {
			if !strings.HasPrefix(rest, ")") {
				t.Failf("piece %d: parenthesis behind %q is not closed\nall: %q", i, clip(lit, 100), clip(got, 1000))
			}
			rest, lit = rest[1:], ""
		}
		behind = lit
	}
	if rest != "" {
		t.Failf("extra text %q\nall: %q", clip(rest, 200), clip(got, 1000))
	}
}

func c17Literals(t *T, idx int) {
	g := newGen(t)
	dollar := t.Intn(2) == 0
	var vals []iVal
	for n := t.Intn(4); n > 0; n-- {
		vals = append(vals, t.iValue())
	}
	b := new(strings.Builder)
	next := 0
	hits := map[int]int{}
	hostile := func() {
		b.WriteString(g.oneOf("a = ", "f(", "x, ", " ", "'? $1 #f'", "'it''s ?'", "\"$1?#\"", "`?`", "$$", "??", "é\x00\xff", "-- c\n", "", "", "(", "NULL ", "x -", "-", "- ", "AND", "LIMIT", "E", "x ='a' AND N", "1", "é", "a_", "'q'", "0x", "1."))
		// a mark that was not meant to be part of a doubled one
		if s := b.String(); s != "" && (s[len(s)-1] == '?' || s[len(s)-1] == '$') {
			b.WriteByte(' ')
		}
		t.Feat("hostile text")
	}
	for n := t.Intn(5); n > 0; n-- {
		hostile()
		if dollar {
			k := 1 + t.Intn(len(vals)+1)
			if t.Intn(4) > 0 && len(vals) > 0 {
				k = 1 + t.Intn(len(vals))
			}
			fmt.Fprintf(b, "$%d", k)
			hits[k]++
			t.Feat("dollar")
		} else {
			if next >= len(vals) && t.Intn(4) > 0 {
				break
			}
			next++
			b.WriteString("?")
			hits[next]++
			t.Feat("question")
		}
		b.WriteString(g.oneOf(" ", ",", ")", "\n", ";", " ::int", ", ", "AND ", "'q'", "e3", "::int", "=1", "-1", "- ", "_", "x", ".5", "日", "+1", "*"))
	}
	hostile()
	if t.Intn(20) == 0 {
		b.WriteString(g.oneOf("$0", "$", "?1", "#", "#f(", "$1 ?", "? $1"))
	}
	query := b.String()
	args := make([]any, len(vals))
	for i, v := range vals {
		args[i] = v.v
	}
	before := append([]any{}, args...)
	format := time.RFC3339
	var opts []util.InterpolateOption
	if t.Intn(3) == 0 {
		format = c17Formats[t.Intn(len(c17Formats))]
		opts = append(opts, util.WithTimeFormat(format))
		t.Feat("time format")
		if strings.Contains(format, "'") {
			t.Feat("quote in time format")
		}
	}
	t.desc = func() string {
		s := fmt.Sprintf("query %q time format %q\n", query, format)
		for _, a := range args {
			s += "  " + descValue(a) + "\n"
		}
		return s
	}
	exprs, st, why := refParse(query)
	if st == pUnspec {
		panic(unspecified{why})
	}
	wantErr := ""
	var segs []seg
	if st == pBad {
		wantErr = "malformed: " + why
		t.Feat("malformed query")
	}
	mayErr := false
	for _, e := range exprs {
		switch e.Kind {
		case kPlain:
			segs = append(segs, text(e.Text)...)
		case kBind:
			if e.Index < 1 || e.Index > len(vals) {
				wantErr = "missing arg"
				t.Feat("missing arg")
				continue
			}
			v := vals[e.Index-1]
			if w, ok := v.want.(iErr); ok {
				wantErr = string(w)
			}
			if _, ok := v.want.([]byte); ok {
				mayErr = true
			}
			if tm, ok := v.want.(time.Time); ok && tm.IsZero() {
				t.Feat("zero time")
			}
			segs = append(segs, seg{bind: true, val: v})
		default:
			panic(unspecified{"#"})
		}
	}
	for k, n := range hits {
		if n > 1 && k <= len(vals) {
			t.Feat("repeated")
		}
	}
	for i := range vals {
		if hits[i+1] == 0 {
			t.Feat("unused arg")
		}
	}
	t.Eval()
	got, err := util.Interpolate(query, args, opts...)
	for i := range args {
		if !sameValue(before[i], args[i]) {
			t.Failf("arg %d was changed to %s", i+1, descValue(args[i]))
		}
	}
	if wantErr != "" || mayErr && err != nil {
		if err == nil {
			t.Failf("no error (%s), got %q", wantErr, clip(got, 600))
		}
		if got != "" {
			t.Failf("failed with the text %q", clip(got, 600))
		}
		return
	}
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	t.checkInterpolated(got, segs, format)
	if countBinds(segs) > 0 {
		t.Key(t.desc())
	}
	t.Sample(got)
}

// c17ManyArgs interpolates many placeholders, long strings, and indexes beyond
// many args.
func c17ManyArgs(t *T, idx int) {
	sizes := []int{1, 2, 9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257}
	n := sizes[t.Intn(len(sizes))]
	if t.Intn(40) == 0 {
		n = []int{999, 1000, 1001, 4097, 65536, 65537}[t.Intn(6)]
	}
	t.big(n)
	if n > 60 {
		t.Feat("many args")
	}
	vals := make([]iVal, n)
	args := make([]any, n)
	for i := range vals {
		switch t.Intn(4) {
		case 0:
			s := fmt.Sprintf("it's %d", i)
			if n < 300 && t.Intn(20) == 0 {
				unit := newGen(t).oneOf("'", "''", "a'", "\\'", "x", "é'", "?", "$1", "'\n", "\x00", "' ")
				s = strings.Repeat(unit, sizes[t.Intn(len(sizes))]*(1+t.Intn(9)))
				t.Feat("long string")
			}
			vals[i] = iVal{s, s}
		default:
			vals[i] = iVal{i*1000 + t.Intn(1000), nil}
			vals[i].want = big.NewInt(int64(vals[i].v.(int)))
		}
		args[i] = vals[i].v
	}
	dollar := t.Intn(2) == 0
	b := new(strings.Builder)
	var segs []seg
	put := func(k int) {
		s := newGen(t).oneOf("", "a = ", "(", "'it''s ?' || ", "x -", "IN")
		if dollar {
			fmt.Fprintf(b, "%s$%d ", s, k)
		} else {
			fmt.Fprintf(b, "%s? ", s)
		}
		segs = append(segs, text(s)...)
		if k >= 1 && k <= n {
			segs = append(segs, seg{bind: true, val: vals[k-1]})
		}
		segs = append(segs, text(" ")...)
	}
	count := 1 + t.Intn(n)
	if t.Intn(2) == 0 {
		count = n
	}
	bad := 0
	for i := 1; i <= count; i++ {
		k := i
		if dollar && t.Intn(2) == 0 {
			k = 1 + t.Intn(n)
		}
		put(k)
	}
	if t.Intn(4) == 0 {
		bad = n + []int{1, 1, 2, 3, n, 255, 256, 65536, 1 << 31}[t.Intn(9)]
		if dollar {
			put(bad)
		} else if count == n {
			bad = n + 1
			put(bad)
		} else {
			bad = 0
		}
	}
	query := b.String()
	t.desc = func() string { return fmt.Sprintf("%d args, index %d, query %q", n, bad, clip(query, 1500)) }
	t.Eval()
	got, err := util.Interpolate(query, args)
	if bad != 0 {
		t.Feat("index far beyond")
		if err == nil {
			t.Failf("no error for index %d of %d args, got %q", bad, n, clip(got, 300))
		}
		return
	}
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	t.checkInterpolated(got, coalesce(segs), time.RFC3339)
	t.Key(query)
}

// c17Floats covers the whole range of floats.
func c17Floats(t *T, idx int) {
	var v iVal
	if t.Intn(2) == 0 {
		f := math.Float64frombits(t.Uint64())
		if t.Intn(3) == 0 {
			f = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 0.1, 1.0 / 3, 123456789.125, 1e15, 1e16, 9007199254740993, math.Pi, 5e-324, 2.2250738585072014e-308}[t.Intn(13)]
		}
		if f != f || math.IsInf(f, 0) {
			panic(unspecified{"nan"})
		}
		v = iVal{f, f}
	} else {
		f := math.Float32frombits(uint32(t.Uint64()))
		if f != f || math.IsInf(float64(f), 0) {
			panic(unspecified{"nan"})
		}
		v = iVal{f, f}
	}
	t.desc = func() string { return descValue(v.v) }
	t.Eval()
	style := g2(t)
	before := []string{"x = ", "x -", "x - ", "-", "(", "THEN", "1", "'q'"}[t.Intn(8)]
	behind := []string{", y", "ELSE", "e5", "-1", ".5"}[t.Intn(5)]
	got, err := util.Interpolate(before+style+behind, []any{v.v})
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	t.checkInterpolated(got, []seg{{text: before}, {bind: true, val: v}, {text: behind}}, "")
	t.Key(fmt.Sprintf("%T%x", v.v, v.v))
}

func g2(t *T) string { return []string{"?", "$1"}[t.Intn(2)] }

// interpolable values for built statements.
func (g *gen) interpolable() iVal {
	for {
		v := g.iValue()
		switch v.want.(type) {
		case iErr, []byte:
			continue
		}
		if f, ok := v.v.(float64); ok && f == 0 {
			continue // 0 and -0 are merged
		}
		if f, ok := v.v.(float32); ok && f == 0 {
			continue
		}
		if f, ok := v.v.(namedFloat); ok && f == 0 {
			continue
		}
		return v
	}
}

// c17Tree makes a tree whose placeholders are followed by separators.
func (g *gen) c17Tree(depth int, vals *[]iVal) *mNode {
	n := &mNode{}
	b := new(strings.Builder)
	for i := g.Intn(4); i > 0; i-- {
		var v iVal
		if len(*vals) > 0 && g.chance(3) {
			v = (*vals)[g.Intn(len(*vals))]
		} else {
			v = g.interpolable()
			*vals = append(*vals, v)
		}
		n.Args = append(n.Args, v.v)
		b.WriteString(g.oneOf("a = ", "'?$1' || ", "(", " ", "AND", "E", "-", "'q'"))
		fmt.Fprintf(b, "$%d", len(n.Args))
		b.WriteString(g.oneOf(" ", ", ", ") ", "AND", "'q'", "."))
		if g.chance(5) {
			fmt.Fprintf(b, "$%d ", len(n.Args))
		}
	}
	if depth > 0 {
		for i := g.Intn(3); i > 0; i-- {
			n.Kids = append(n.Kids, g.c17Tree(depth-1, vals))
			fmt.Fprintf(b, " (#f%d ) ", len(n.Kids))
		}
	}
	n.Raw = b.String()
	if len(n.Args)+len(n.Kids) == 0 {
		n.Raw = "x"
	}
	return n
}

// annotate replaces the values of segments by those with the wanted literal.
func annotate(segs []seg, vals []iVal) []seg {
	out := append([]seg{}, segs...)
	for i, s := range out {
		if !s.bind {
			continue
		}
		for _, v := range vals {
			if sameValue(v.v, s.val) {
				out[i].val = v
				break
			}
		}
	}
	return out
}

func c17Built(t *T, idx int) {
	g := newGen(t)
	var vals []iVal
	n := g.c17Tree(t.Intn(3), &vals)
	t.desc = func() string { return describe(n) }
	segs, merr := t.evalModel(n, builtinScope)
	if merr != nil {
		t.Failf("reference fails: %v", merr)
	}
	t.Eval()
	segs = annotate(segs, vals)
	for _, style := range styles {
		q, args, err := buildIn(newRealizer(t.Rand).builder(n), style, nil)
		if err != nil {
			t.Failf("unexpected error: %v", err)
		}
		got, err := util.Interpolate(q, args)
		if err != nil {
			t.Failf("interpolating %q: %v", q, err)
		}
		t.checkInterpolated(got, segs, time.RFC3339)
	}
	t.Feat("built both")
	if len(vals) > 0 {
		t.Key(describe(n))
	}
}

// c17Debug compares builds with and without debug mode.
func c17Debug(t *T, idx int) {
	g := newQGen(t)
	g.misuse = 10
	q := g.query(t.Intn(3))
	n := &mNode{Kind: nQuery, Query: q}
	t.desc = func() string { return describe(n) }
	var plain, debug []*mOp
	strip(q, map[*mQuery]bool{})
	plain = q.Ops
	debug = append(append([]*mOp{}, plain...), &mOp{Kind: opDebug})
	i := t.Intn(len(debug))
	debug[i], debug[len(debug)-1] = debug[len(debug)-1], debug[i]
	if i < len(plain) { // keep the order of the others
		debug = append(append(append([]*mOp{}, plain[:i]...), &mOp{Kind: opDebug}), plain[i:]...)
	}
	for t.Intn(5) == 0 {
		debug = append(debug, &mOp{Kind: opDebug})
	}
	withDebug := &mNode{Kind: nQuery, Query: &mQuery{Ops: debug}}
	wrap := t.Intn(2) == 0
	style := styles[t.Intn(2)]
	var out [2]outcome
	for k, x := range []*mNode{n, withDebug} {
		if wrap {
			x = &mNode{Raw: "? (#f1) $2"[2:9] + "?", Args: []any{1}, Kids: []*mNode{x}}
			t.Feat("debug nested")
		}
		out[k].query, out[k].args, out[k].err = buildIn(newRealizer(t.Rand).builder(x), style, nil)
	}
	t.Eval()
	t.Feat("debug")
	if d := out[1].diff(out[0]); d != "" {
		t.Failf("%s style, with debug mode: %s", styleName(style), d)
	}
	t.Key(describe(n))
}

// stripAll removes debug mode from a query and all within it.
func stripAll(q *mQuery, seen map[any]bool) {
	if seen[q] {
		return
	}
	seen[q] = true
	strip(q, map[*mQuery]bool{})
	var node func(n *mNode)
	node = func(n *mNode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.Query != nil {
			stripAll(n.Query, seen)
		}
		for _, k := range n.Kids {
			node(k)
		}
	}
	for _, o := range q.Ops {
		node(o.Node)
		for _, c := range o.Cols {
			node(c)
		}
	}
}

// strip removes debug mode.
func strip(q *mQuery, seen map[*mQuery]bool) {
	if seen[q] {
		return
	}
	seen[q] = true
	ops := q.Ops[:0:0]
	for _, o := range q.Ops {
		if o.Kind != opDebug {
			ops = append(ops, o)
		}
	}
	q.Ops = ops
}

// captureLog runs f and returns what it logs.
func captureLog(f func()) string {
	var buf bytes.Buffer
	flags, out := log.Flags(), log.Writer()
	log.SetFlags(0)
	log.SetOutput(&buf)
	defer func() {
		log.SetOutput(out)
		log.SetFlags(flags)
	}()
	f()
	return buf.String()
}

// c17DebugQuery compares what debug mode logs for queries of all clauses with
// the interpolated statement; without debug mode nothing is logged.
func c17DebugQuery(t *T) {
	g := newQGen(t)
	g.misuse = 0
	q := g.query(t.Intn(3))
	stripAll(q, map[any]bool{})
	debug := t.Intn(3) > 0
	if debug {
		i := t.Intn(len(q.Ops) + 1)
		q.Ops = append(append(append([]*mOp{}, q.Ops[:i]...), &mOp{Kind: opDebug}), q.Ops[i:]...)
	}
	n := &mNode{Kind: nQuery, Query: q}
	t.desc = func() string { return describe(n) }
	style := styles[t.Intn(2)]
	b := newRealizer(t.Rand).query(q)
	var query string
	var args []any
	var err error
	times := 1 + t.Intn(2)
	logged := captureLog(func() {
		for i := 0; i < times; i++ {
			query, args, err = b.BuildQuery(style)
		}
	})
	t.Eval()
	if !debug || err != nil {
		if logged != "" && !debug {
			t.Failf("debug %v, error %v, logged %q", debug, err, clip(logged, 500))
		}
		t.Feat("nothing logged")
		return
	}
	want, ierr := util.Interpolate(query, args)
	if ierr != nil {
		return // values that can't be shown
	}
	if !strings.HasSuffix(want, "\n") {
		want += "\n"
	}
	if i := strings.Index(logged, want); i > 0 && i < 60 {
		want = logged[:i] + want // something that tells what the line is about
	}
	if want = strings.Repeat(want, times); logged != want {
		t.Failf("%s style: logged %s", styleName(style), diffText("log", logged, want))
	}
	t.Feat("debug logged")
	t.Key(describe(n))
}

// c17DebugLog reads what debug mode logs.
func c17DebugLog(t *T, idx int) {
	if idx%2 == 1 {
		c17DebugQuery(t)
		return
	}
	g := newGen(t)
	var vals []iVal
	tree := func() *mNode { return g.c17Tree(t.Intn(2), &vals) }
	q := &mQuery{Ops: []*mOp{
		{Kind: opFrom, Name: "t"},
		{Kind: opSelect, Cols: []*mNode{{Kind: nExprCol, Kids: []*mNode{{Raw: "#f1 ", Kids: []*mNode{tree()}, Suffix: "x"}}}}},
		{Kind: opWhere, Node: &mNode{Raw: "#f1", Kids: []*mNode{tree()}, Suffix: "y"}},
		{Kind: opDebug},
	}}
	for t.Intn(4) == 0 {
		q.Ops = append(q.Ops, &mOp{Kind: opDebug})
	}
	n := &mNode{Kind: nQuery, Query: q}
	t.desc = func() string { return describe(n) }
	segs, merr := t.evalModel(n, builtinScope)
	if merr != nil {
		t.Failf("reference fails: %v", merr)
	}
	segs = annotate(segs, vals)
	b := newRealizer(t.Rand).builder(n)
	style := styles[t.Intn(2)]
	var buf bytes.Buffer
	flags, out := log.Flags(), log.Writer()
	log.SetFlags(0)
	log.SetOutput(&buf)
	var err error
	ctx := sqlf.NewContext(style)
	if t.Intn(2) == 0 {
		for n := t.Intn(60) * t.Intn(2); n > 0; n-- {
			ctx.CommitArg([]any{n, fmt.Sprint("x", n)}[n%2])
		}
		f := sqlf.Fa("? = ? AND EXISTS (#f1)", 1, 2)
		f.WithFragments(b)
		_, err = f.BuildFragment(ctx)
	} else {
		_, err = b.BuildFragment(ctx)
	}
	log.SetOutput(out)
	log.SetFlags(flags)
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	t.Eval()
	got := strings.TrimSuffix(buf.String(), "\n")
	if got == "" {
		t.Failf("debug mode logged nothing")
	}
	if i := strings.Index(got, "SELECT "); i > 0 && i < 60 {
		got = got[i:] // something that tells what the line is about
	}
	t.checkInterpolated(got, segs, time.RFC3339)
	t.Feat("debug logged")
	t.Key(describe(n))
}

var _ = errors.New
var _ = sqlb.Asc
var _ syntax.BindVarStyle
