package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() {
	req := []string{"scan", "scan builder", "scan row", "count", "count builder", "all rows", "no rows", "extra columns", "too few columns",
		"conversion error", "build error", "nothing sent", "via tx", "via prepared", "panic while scanning", "spare capacity", "reused dest slice", "many rows",
		"sub-query counted", "wide", "distinct order columns dropped", "well-known error"}
	for p := faultNone + 1; p < faultCount; p++ {
		req = append(req, "fault "+faultNames[p])
	}
	register(&Check{
		ID:       "C18",
		Rule:     "scans and counts against a scripted database/sql driver with a fault at every point of every small result (connect, begin, prepare, query, each row, conversion of each field, close), which records what reached it and how many row sets are open; non-trivial: at least one row or a fault; distinct by script",
		Required: req,
		Phases: []Phase{
			{Name: "faults", Quick: c18Grid(), Thorough: c18Grid(), Exhaustive: true, Run: c18Faults},
			{Name: "scans", Quick: 120000, Thorough: 1000000, Run: c18Random},
			{Name: "counts", Quick: 40000, Thorough: 400000, Run: c18Count},
			{Name: "scan row", Quick: 20000, Thorough: 200000, Run: c18ScanRow},
			{Name: "builders", Quick: 12000, Thorough: 100000, Run: c18Builders},
			{Name: "many rows", Quick: 12, Thorough: 60, Run: c18Many},
		},
		Assumptions: []string{"database/sql itself reports the faults of a driver", "an error of closing an exhausted row set may be reported or not"},
	})
}

var faultNames = []string{"none", "connect", "begin", "prepare", "query", "next", "close"}

// badScanner fails when a certain row is scanned. (A panic in a Scanner makes
// database/sql itself deadlock; so it is the function of the caller that panics.)
type badScanner struct {
	dst    *int64
	at     *int
	failAt int
}

func (s *badScanner) Scan(v any) error {
	*s.at++
	if *s.at-1 == s.failAt {
		return errInjected
	}
	n, ok := v.(int64)
	if !ok {
		return fmt.Errorf("harness: %T", v)
	}
	*s.dst = n
	return nil
}

// c18Script is what happens in a scan.
type c18Script struct {
	cols, fields int // columns of the result, fields of the destination
	rows         int
	fault        faultPoint
	faultRow     int
	badRow       int // row with a field that can't be converted, -1: none
	badField     int
	scannerFails int // row, -1: none
	scannerPanic bool
	tx, prepared bool
	spare        int // spare capacity of the destination slice
	reuse        bool
	named        bool // column names are duplicates
}

func (s c18Script) String() string { return fmt.Sprintf("%+v", struct{ S c18Script2 }{c18Script2(s)}) }

type c18Script2 c18Script

const c18MaxRows = 4

// c18Grid is the number of scripts: fields 0-3, extra columns 0-2, rows 0-4,
// faults: none, connect, begin, prepare, query, close, next at each of 0..rows,
// conversion of each field of each row, scanner at each row
func c18Grid() int { return 4 * 3 * (c18MaxRows + 1) * (6 + 5 + 3*c18MaxRows + 2*c18MaxRows) * 4 }

func c18Faults(t *T, idx int) {
	take := func(n int) int { r := idx % n; idx /= n; return r }
	s := c18Script{badRow: -1, scannerFails: -1}
	s.tx, s.prepared = take(2) == 1, take(2) == 1
	s.fields = take(4)
	s.cols = s.fields + take(3)
	s.rows = take(c18MaxRows + 1)
	switch k := take(6 + 5 + 5*c18MaxRows); {
	case k < 5:
		s.fault = []faultPoint{faultNone, faultConnect, faultPrepare, faultQuery, faultClose}[k]
	case k == 5:
		s.fault, s.tx = faultBegin, true
	case k < 11:
		s.fault, s.faultRow = faultNext, k-6
	case k < 11+3*c18MaxRows:
		s.badRow, s.badField = (k-11)%c18MaxRows, (k-11)/c18MaxRows
	default:
		k -= 11 + 3*c18MaxRows
		s.scannerFails, s.scannerPanic = k%c18MaxRows, k/c18MaxRows == 1
	}
	s.spare = t.Intn(3)
	s.reuse = t.Intn(3) == 0
	t.Key("")
	c18Run(t, s)
}

func c18Random(t *T, idx int) {
	s := c18Script{badRow: -1, scannerFails: -1}
	s.fields = t.Intn(5)
	s.cols = s.fields + t.Intn(4)
	if t.Intn(12) == 0 {
		s.cols = t.Intn(5)
	}
	s.rows = t.Intn(6)
	if t.Intn(5) == 0 {
		s.rows = t.Intn(60)
	}
	if t.Intn(25) == 0 { // wide, long
		s.fields = t.Intn(70)
		s.cols = s.fields + t.Intn(70)
		s.rows = t.Intn(300)
		t.Feat("wide")
	}
	s.tx, s.prepared = t.Intn(2) == 0, t.Intn(2) == 0
	s.fault = []faultPoint{faultNone, faultNone, faultNext, faultNext, faultClose, faultPrepare, faultQuery}[t.Intn(7)]
	s.faultRow = t.Intn(s.rows + 2)
	if t.Intn(5) == 0 {
		s.badRow, s.badField = t.Intn(s.rows+1), t.Intn(s.fields+1)
	}
	if t.Intn(8) == 0 {
		s.scannerFails = t.Intn(s.rows + 1)
		s.scannerPanic = t.Intn(2) == 0
	}
	s.spare = t.Intn(5)
	s.reuse = t.Intn(3) == 0
	s.named = t.Intn(4) == 0
	if s.rows > 0 || s.fault != faultNone {
		t.Key(s.String())
	}
	t.Sample(s.String())
	c18Run(t, s)
}

// fieldKind of a column
const (
	fInt = iota
	fString
	fBytes
	fNull
	fieldKinds
)

func cell(kind, row, col int) driver.Value {
	switch kind {
	case fInt:
		return int64(row*1000 + col)
	case fString:
		return fmt.Sprintf("r%dc%d", row, col)
	case fBytes:
		return []byte(fmt.Sprintf("b%d,%d", row, col))
	default:
		if row%2 == 0 {
			return nil
		}
		return float64(row) + 0.5
	}
}

type c18Value struct {
	fields []any // *int64, *string, *[]byte, *sql.NullFloat64
}

func (v *c18Value) values() []any {
	var r []any
	for _, f := range v.fields {
		r = append(r, reflect.ValueOf(f).Elem().Interface())
	}
	return r
}

func wantCell(kind, row, col int) any {
	c := cell(kind, row, col)
	if kind == fNull {
		f, ok := c.(float64)
		return sql.NullFloat64{Float64: f, Valid: ok}
	}
	return c
}

func c18Run(t *T, s c18Script) {
	t.Input(s.String())
	t.Eval()
	d := &fakeDB{fault: s.fault, faultRow: s.faultRow, prepared: s.prepared, faultErr: t.faultErr()}
	kinds := make([]int, s.cols)
	for i := range kinds {
		kinds[i] = t.Intn(fieldKinds)
		name := fmt.Sprint("c", i)
		if s.named {
			name = "c"
		}
		d.cols = append(d.cols, name)
	}
	for r := 0; r < s.rows; r++ {
		row := make([]driver.Value, s.cols)
		for i, k := range kinds {
			row[i] = cell(k, r, i)
		}
		d.rows = append(d.rows, row)
	}
	conversionFails := -1
	if s.fields > s.cols && s.rows > 0 {
		conversionFails = 0
	}
	if s.badRow >= 0 && s.badRow < s.rows && s.badField < s.fields && s.badField < s.cols {
		switch kinds[s.badField] {
		case fString, fBytes:
			kinds[s.badField] = fInt
			for r := range d.rows {
				d.rows[r][s.badField] = cell(fInt, r, s.badField)
			}
		}
		if kinds[s.badField] == fInt {
			d.rows[s.badRow][s.badField] = []driver.Value{nil, "x", 1.5, []byte("1x"), "99999999999999999999", time.Now()}[t.Intn(6)]
		} else {
			d.rows[s.badRow][s.badField] = []driver.Value{"x", time.Now()}[t.Intn(2)]
		}
		if conversionFails < 0 || s.badRow < conversionFails {
			conversionFails = s.badRow
		}
	}
	scannerField := -1
	scannerCalls := 0
	if s.scannerFails >= 0 && s.fields > 0 && s.cols > 0 {
		scannerField = 0
		kinds[0] = fInt
		for r := range d.rows {
			d.rows[r][0] = cell(fInt, r, 0)
		}
		if s.badRow >= 0 && s.badField == 0 {
			conversionFails = -1
			if s.fields > s.cols && s.rows > 0 {
				conversionFails = 0
			}
		}
	}
	fails := s.fault == faultConnect || s.fault == faultBegin || s.fault == faultQuery || s.fault == faultPrepare && s.prepared
	// rows that can be read
	if s.fault == faultNext && s.faultRow <= s.rows {
		fails = true
		if conversionFails >= s.faultRow {
			conversionFails = -1
		}
	}
	if conversionFails >= 0 && !(s.fault == faultConnect || s.fault == faultBegin || s.fault == faultQuery || s.fault == faultPrepare && s.prepared) {
		fails = true
		t.Feat("conversion error")
		if s.fields > s.cols {
			t.Feat("too few columns")
		}
	}
	query := fmt.Sprintf("SELECT %d ?, '?' -- é", t.Intn(1000))
	var args []any
	for n := t.Intn(4); n > 0; n-- {
		args = append(args, dbValue(t.Rand))
	}
	argsBefore := append([]any{}, args...)

	db := sql.OpenDB(d)
	defer db.Close()
	spy := &spyDB{db: db}
	if s.tx {
		tx, err := db.Begin()
		if err != nil {
			if s.fault == faultBegin || s.fault == faultConnect {
				t.Feat("fault " + faultNames[s.fault])
				return
			}
			panic(err)
		}
		defer tx.Rollback()
		spy.db = tx
		t.Feat("via tx")
	}
	if s.prepared {
		t.Feat("via prepared")
	}
	var made []*c18Value
	shared := make([]any, s.fields, s.fields+s.spare)
	var slices [][]any
	newDest := func() (*c18Value, []any) {
		v := &c18Value{}
		dest := shared
		if s.scannerPanic && len(made) == s.scannerFails {
			scannerCalls = s.scannerFails + 1
			panic("scanner panics")
		}
		if !s.reuse {
			dest = make([]any, s.fields, s.fields+s.spare)
		} else {
			t.Feat("reused dest slice")
		}
		for i := range dest {
			k := fInt
			if i < s.cols {
				k = kinds[i]
			}
			switch k {
			case fInt:
				p := new(int64)
				v.fields = append(v.fields, p)
				dest[i] = p
				if i == scannerField && !s.scannerPanic {
					dest[i] = &badScanner{dst: p, at: &scannerCalls, failAt: s.scannerFails}
				}
			case fString:
				p := new(string)
				v.fields = append(v.fields, p)
				dest[i] = p
			case fBytes:
				p := new([]byte)
				v.fields = append(v.fields, p)
				dest[i] = p
			case fNull:
				p := new(sql.NullFloat64)
				v.fields = append(v.fields, p)
				dest[i] = p
			}
		}
		full := dest[:cap(dest)]
		for i := s.fields; i < len(full); i++ {
			full[i] = &sentinel{i}
			t.Feat("spare capacity")
		}
		slices = append(slices, full, append([]any{}, full...))
		made = append(made, v)
		return v, dest
	}
	var got []*c18Value
	var err error
	panicked := func() (p bool) {
		defer func() {
			if r := recover(); r != nil {
				if r != "scanner panics" {
					panic(r)
				}
				p = true
			}
		}()
		got, err = util.Scan(spy, query, args, newDest)
		return false
	}()
	t.Feat("scan")
	if s.scannerFails >= 0 && scannerCalls > s.scannerFails {
		// the scanner was reached
		fails = true
		if s.scannerPanic {
			t.Feat("panic while scanning")
			if !panicked && err == nil {
				t.Failf("a panic of a destination was swallowed")
			}
		} else {
			t.Feat("conversion error")
		}
	}
	if panicked {
		err = errors.New("panicked")
	}
	if s.fault != faultNone && (s.fault != faultNext || s.faultRow <= s.rows) && (s.fault != faultPrepare || s.prepared) {
		t.Feat("fault " + faultNames[s.fault])
	}
	switch {
	case fails && err == nil:
		t.Failf("Scan returned %d of %d rows without an error, but it must fail", len(got), s.rows)
	case !fails && err != nil && s.fault != faultClose:
		t.Failf("unexpected error: %v", err)
	case err == nil:
		if len(got) != s.rows {
			t.Failf("Scan returned %d values for %d rows", len(got), s.rows)
		}
		for r, v := range got {
			var want []any
			for i := 0; i < s.fields; i++ {
				want = append(want, wantCell(kinds[i], r, i))
			}
			if vs := v.values(); !reflect.DeepEqual(vs, want) {
				t.Failf("row %d: got %v, want %v", r, vs, want)
			}
		}
		t.Feat("all rows")
		if s.rows == 0 {
			t.Feat("no rows")
		}
		if s.cols > s.fields && s.rows > 0 {
			t.Feat("extra columns")
		}
	}
	if !s.reuse {
		for i := 0; i < len(slices); i += 2 {
			for k := range slices[i] {
				if slices[i][k] != slices[i+1][k] {
					t.Failf("element %d (of length %d) of the destination slice of row %d was changed", k, s.fields, i/2)
				}
			}
		}
	} else if n := len(slices); n > 0 {
		for k := range slices[n-1] {
			if slices[n-2][k] != slices[n-1][k] {
				t.Failf("element %d (of length %d) of the destination slice was changed", k, s.fields)
			}
		}
	}
	for i := range args {
		if !sameValue(argsBefore[i], args[i]) {
			t.Failf("args were changed")
		}
	}
	t.checkSent(spy, d, "Query", query, args)
}

// checkSent checks what reached the database, and that nothing is left open.
func (t *T) checkSent(spy *spyDB, d *fakeDB, call, query string, args []any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if len(spy.calls) != 1 || spy.query[0] != query {
		t.Failf("calls on the database: %v %q, want one with %q", spy.calls, spy.query, query)
	}
	// database/sql itself tries again with another connection
	again := errors.Is(d.faultErr, driver.ErrBadConn) && d.fault == faultQuery
	if len(d.queries) > 1 && !again {
		t.Failf("the query was sent %d times", len(d.queries))
	}
	wantSent := d.fault == faultNone || d.fault == faultNext || d.fault == faultClose || d.fault == faultQuery
	if wantSent && len(d.queries) == 0 {
		t.Failf("the query was not sent")
	}
	if len(d.queries) >= 1 {
		if d.queries[0] != query {
			t.Failf("sent query: %s", diffText("query", d.queries[0], query))
		}
		if len(d.args[0]) != len(args) {
			t.Failf("sent %d args, want %d", len(d.args[0]), len(args))
		}
		for i := range args {
			if !sameValue(args[i], d.args[0][i]) {
				t.Failf("sent arg %d is %s, want %s", i+1, descValue(d.args[0][i]), descValue(args[i]))
			}
		}
	}
	if d.opened != d.closed {
		t.Failf("%d row sets were opened, %d closed", d.opened, d.closed)
	}
	if st, ok := spy.db.(*sql.DB); ok {
		if n := st.Stats().InUse; n != 0 {
			t.Failf("%d connections are still in use", n)
		}
	}
}

// faultErr is an error of the database; some look like those that tell the end
// of rows.
func (t *T) faultErr() error {
	switch t.Intn(9) {
	case 0:
		return errors.New(sql.ErrNoRows.Error())
	case 6, 7: // known ones, of which none means the end of rows
		t.Feat("well-known error")
		return []error{
			driver.ErrBadConn, driver.ErrBadConn, io.ErrUnexpectedEOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.DeadlineExceeded,
			sql.ErrConnDone, io.ErrNoProgress, net.ErrClosed, os.ErrDeadlineExceeded,
			fmt.Errorf("read: %w", io.ErrUnexpectedEOF), fmt.Errorf("x: %w", driver.ErrBadConn),
		}[t.Intn(12)]
	case 1:
		return errors.New("EOF")
	case 2:
		return &net.OpError{Op: "read", Err: errInjected}
	case 3:
		return context.Canceled
	case 4:
		return fmt.Errorf("reading: %w", io.EOF)
	case 5:
		return sql.ErrTxDone
	}
	return nil
}

func c18Count(t *T, idx int) {
	t.Eval()
	d := &fakeDB{prepared: t.Intn(2) == 0, faultErr: t.faultErr()}
	d.cols = []string{"count"}
	n := []int64{0, 1, 2, 42, 1 << 31, 1 << 40, 1<<53 + 1, math.MaxInt64}[t.Intn(8)]
	fails := false
	want := n
	switch t.Intn(12) {
	case 0:
		d.rows = [][]driver.Value{{[]byte(fmt.Sprint(n))}}
	case 1:
		d.rows = [][]driver.Value{{fmt.Sprint(n)}}
	case 2:
		want = 0 // no row
	case 3:
		d.rows = [][]driver.Value{{[]driver.Value{"x", 1.5, nil, "99999999999999999999", time.Now()}[t.Intn(5)]}}
		fails = true
	case 4:
		d.rows = [][]driver.Value{{n}}
		d.fault = []faultPoint{faultConnect, faultQuery, faultNext, faultPrepare}[t.Intn(4)]
		fails = d.fault != faultPrepare || d.prepared
	case 5:
		d.rows = [][]driver.Value{{n, n + 1}} // two columns
		d.cols = []string{"a", "b"}
		fails = true
	case 6:
		d.rows = [][]driver.Value{{n}}
		d.fault = faultClose
	default:
		d.rows = [][]driver.Value{{n}}
	}
	if d.fault != faultNone {
		t.Feat("fault " + faultNames[d.fault])
	}
	query := []string{"SELECT 1", "SELECT * FROM t WHERE x = $1 AND y = ?", "SELECT '%d %s' -- é", "", "SELECT $1, #f1", "SELECT '", "SELECT $9"}[t.Intn(7)]
	var args []any
	for k := t.Intn(3); k > 0; k-- {
		args = append(args, dbValue(t.Rand))
	}
	t.Input(fmt.Sprintf("count %d (fails %v) of %q args %s rows %v fault %s", n, fails, query, descValue(args), d.rows, faultNames[d.fault]))
	db := sql.OpenDB(d)
	defer db.Close()
	spy := &spyDB{db: db}
	if t.Intn(2) == 0 && d.fault != faultConnect {
		tx, err := db.Begin()
		must(err)
		defer tx.Rollback()
		spy.db = tx
	}
	got, err := util.Count(spy, query, args)
	t.Feat("count")
	switch {
	case fails && err == nil:
		t.Failf("Count returned %d, but it must fail", got)
	case !fails && err != nil && d.fault != faultClose:
		t.Failf("unexpected error: %v", err)
	case err == nil && got != want:
		t.Failf("Count returned %d, want %d", got, want)
	}
	t.checkCounted(spy, d, query, args)
	t.Key(t.input)
}

// checkCounted checks that a count of query was sent, whatever it looks like.
func (t *T) checkCounted(spy *spyDB, d *fakeDB, query string, args []any) {
	if len(spy.query) != 1 {
		t.Failf("calls on the database: %v %q, want one", spy.calls, spy.query)
	}
	if !strings.Contains(spy.query[0], query) || !strings.Contains(strings.ToUpper(spy.query[0]), "COUNT(") {
		t.Failf("sent %q, which does not count %q", spy.query[0], query)
	}
	t.Feat("sub-query counted")
	t.checkSent(spy, d, "QueryRow", spy.query[0], args)
}

// c18ScanRow uses ScanRow alone.
func c18ScanRow(t *T, idx int) {
	t.Eval()
	cols := t.Intn(6)
	fields := t.Intn(cols + 2)
	rows := 1 + t.Intn(4)
	d := &fakeDB{}
	for i := 0; i < cols; i++ {
		d.cols = append(d.cols, "c")
	}
	for r := 0; r < rows; r++ {
		row := make([]driver.Value, cols)
		for i := range row {
			row[i] = cell(t.Intn(fieldKinds), r, i)
		}
		d.rows = append(d.rows, row)
	}
	t.Input(fmt.Sprintf("%d columns %d fields %d rows", cols, fields, rows))
	db := sql.OpenDB(d)
	defer db.Close()
	rs, err := db.Query("q")
	must(err)
	defer rs.Close()
	backing := make([]any, fields+t.Intn(6))
	for r := 0; rs.Next(); r++ {
		for i := range backing {
			backing[i] = &sentinel{i}
		}
		vals := make([]any, fields)
		for i := range vals {
			backing[i] = &vals[i]
		}
		snap := append([]any{}, backing...)
		err := util.ScanRow(rs, backing[:fields]...)
		for i := range backing {
			if backing[i] != snap[i] {
				t.Failf("element %d of the caller's slice (length %d) was changed", i, fields)
			}
		}
		if fields > cols {
			if err == nil {
				t.Failf("%d columns scanned into %d fields without an error", cols, fields)
			}
			continue
		}
		if err != nil {
			t.Failf("unexpected error: %v", err)
		}
		for i := range vals {
			if !reflect.DeepEqual(vals[i], d.rows[r][i]) {
				t.Failf("row %d field %d: got %v want %v", r, i, vals[i], d.rows[r][i])
			}
		}
		if cols > fields {
			t.Feat("extra columns")
		}
		t.Feat("scan row")
	}
	// after the end there is no row to scan
	if err := util.ScanRow(rs, backing[:0]...); err == nil {
		t.Failf("ScanRow behind the last row returned no error")
	}
	t.Key(t.input)
}

// c18Builders scans and counts what builders build.
func c18Builders(t *T, idx int) {
	t.Eval()
	style := styles[t.Intn(2)]
	var b sqlf.QueryBuilder
	var n *mNode
	if t.Intn(2) == 0 {
		g := newGen(t)
		g.forDB = true
		g.faults = t.Intn(3) == 0
		n = g.frag(2)
	} else {
		g := newQGen(t)
		g.forDB = true
		g.misuse = 4
		n = &mNode{Kind: nQuery, Query: g.query(1)}
	}
	t.desc = func() string { return describe(n) }
	segs, merr := t.evalModel(n, builtinScope)
	b = newRealizer(t.Rand).builder(n).(sqlf.QueryBuilder)
	d := &fakeDB{cols: []string{"a", "_order_1"}, rows: [][]driver.Value{{int64(3), nil}, {int64(4), nil}}}
	db := sql.OpenDB(d)
	defer db.Close()
	spy := &spyDB{db: db}
	count := t.Intn(3) == 0
	var err error
	if count {
		d.cols = d.cols[:1]
		d.rows = [][]driver.Value{{int64(17)}}
		var c int64
		c, err = util.CountBuilder(spy, b, style)
		t.Feat("count builder")
		if err == nil && c != 17 {
			t.Failf("CountBuilder returned %d, want 17", c)
		}
	} else {
		var got []*int64
		got, err = util.ScanBuilder(spy, b, style, func() (*int64, []any) { v := new(int64); return v, []any{v} })
		t.Feat("scan builder")
		if err == nil && (len(got) != 2 || *got[0] != 3 || *got[1] != 4) {
			t.Failf("ScanBuilder returned %d values", len(got))
		}
		if n.Kind == nQuery {
			t.Feat("distinct order columns dropped")
		}
	}
	if merr != nil {
		t.Feat("build error")
		if err == nil {
			t.Failf("the build must fail (%s), but no error was returned", merr)
		}
		if len(spy.calls) > 0 || len(d.queries) > 0 || d.prepares > 0 {
			t.Failf("the build failed, but %v %q was called", spy.calls, spy.query)
		}
		t.Feat("nothing sent")
		t.Key(describe(n))
		return
	}
	if err != nil {
		t.Failf("unexpected error: %v", err)
	}
	if len(spy.query) != 1 {
		t.Failf("calls on the database: %v %q", spy.calls, spy.query)
	}
	query := spy.query[0]
	if count {
		// what is counted
		i, j := strings.Index(query, "("), strings.LastIndex(query, ")")
		i = strings.Index(query[i+1:], "(") + i + 1
		if i < 0 || j < i {
			t.Failf("sent %q", query)
		}
		query = query[i+1 : j]
	}
	if m := matchBuild(style, segs, query, spy.args[0]); m != "" {
		t.Failf("sent: %s", m)
	}
	if count {
		t.checkCounted(spy, d, query, spy.args[0])
	} else {
		t.checkSent(spy, d, "Query", query, spy.args[0])
	}
	t.Key(describe(n))
	t.Sample(describe(n))
}

// c18Many scans many rows, with and without a fault near the end.
func c18Many(t *T, idx int) {
	t.Eval()
	rows := []int{100, 1000, 1024, 4096, 10000, 100000}[idx%6]
	t.big(rows)
	d := &fakeDB{cols: []string{"a", "b"}}
	for r := 0; r < rows; r++ {
		d.rows = append(d.rows, []driver.Value{int64(r), "x"})
	}
	fails := idx/6%2 == 1
	if fails {
		d.fault, d.faultRow = faultNext, rows-t.Intn(3)
	}
	db := sql.OpenDB(d)
	defer db.Close()
	spy := &spyDB{db: db}
	got, err := util.Scan(spy, "q", []any{1}, func() (*int64, []any) { v := new(int64); return v, []any{v} })
	t.Input(fmt.Sprint(rows, " rows, fails: ", fails))
	if fails != (err != nil) {
		t.Failf("error %v", err)
	}
	if !fails {
		if len(got) != rows {
			t.Failf("%d values", len(got))
		}
		for i, v := range got {
			if *v != int64(i) {
				t.Failf("row %d has the value %d", i, *v)
			}
		}
	}
	t.checkSent(spy, d, "Query", "q", []any{1})
	t.Feat("many rows")
	t.Key(t.input)
}

var _ = syntax.Dollar
var _ = sqlb.Asc
