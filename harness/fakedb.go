package main

// A database/sql driver whose results and faults are scripted, and which
// records everything that reaches it.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sync"
)

type faultPoint int

const (
	faultNone faultPoint = iota
	faultConnect
	faultBegin
	faultPrepare
	faultQuery
	faultNext // at row faultRow
	faultClose
	faultCount
)

var errInjected = errors.New("injected fault")

// fakeDB is a connector, for a database that answers each query with the same rows.
type fakeDB struct {
	mu       sync.Mutex
	cols     []string
	rows     [][]driver.Value
	fault    faultPoint
	faultRow int
	faultErr error // nil: errInjected
	prepared bool  // only prepared queries are supported

	queries  []string
	args     [][]any
	prepares int
	opened   int // row sets
	closed   int
	reads    int    // rows handed out
	stmts    int    // open statements
	onNext   func() // called without the lock
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) {
	if d.fault == faultConnect {
		return nil, d.err()
	}
	c := &fakeConn{d}
	if d.prepared {
		return c, nil
	}
	return &fakeQueryConn{c}, nil
}

func (d *fakeDB) err() error {
	if d.faultErr != nil {
		return d.faultErr
	}
	return errInjected
}

func (d *fakeDB) Driver() driver.Driver { return fakeDriver{} }

type fakeDriver struct{}

func (fakeDriver) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

type fakeConn struct{ d *fakeDB }

func (c *fakeConn) Prepare(query string) (driver.Stmt, error) {
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	c.d.prepares++
	if c.d.fault == faultPrepare {
		return nil, c.d.err()
	}
	c.d.stmts++
	return &fakeStmt{c.d, query}, nil
}
func (c *fakeConn) Close() error { return nil }
func (c *fakeConn) Begin() (driver.Tx, error) {
	if c.d.fault == faultBegin {
		return nil, c.d.err()
	}
	return fakeTx{}, nil
}

// CheckNamedValue accepts every value as it is.
func (c *fakeConn) CheckNamedValue(*driver.NamedValue) error { return nil }

type fakeTx struct{}

func (fakeTx) Commit() error   { return nil }
func (fakeTx) Rollback() error { return nil }

type fakeQueryConn struct{ *fakeConn }

func (c *fakeQueryConn) QueryContext(_ context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	return c.d.query(query, args)
}

type fakeStmt struct {
	d     *fakeDB
	query string
}

func (s *fakeStmt) Close() error {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	s.d.stmts--
	return nil
}
func (s *fakeStmt) NumInput() int { return -1 }
func (s *fakeStmt) Exec([]driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}
func (s *fakeStmt) Query([]driver.Value) (driver.Rows, error) {
	return nil, errors.New("not supported")
}
func (s *fakeStmt) QueryContext(_ context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.d.query(s.query, args)
}

func (d *fakeDB) query(query string, args []driver.NamedValue) (driver.Rows, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.queries = append(d.queries, query)
	var l []any
	for i, a := range args {
		if a.Ordinal != i+1 || a.Name != "" {
			return nil, fmt.Errorf("harness: unexpected arg %v", a)
		}
		l = append(l, a.Value)
	}
	d.args = append(d.args, l)
	if d.fault == faultQuery {
		return nil, d.err()
	}
	d.opened++
	return &fakeRows{d: d}, nil
}

type fakeRows struct {
	d      *fakeDB
	at     int
	closed bool
}

func (r *fakeRows) Columns() []string { return r.d.cols }

func (r *fakeRows) Close() error {
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	if !r.closed {
		r.closed = true
		r.d.closed++
	}
	if r.d.fault == faultClose {
		return r.d.err()
	}
	return nil
}

func (r *fakeRows) Next(dest []driver.Value) error {
	if r.d.onNext != nil {
		r.d.onNext()
	}
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	if r.d.fault == faultNext && r.at == r.d.faultRow {
		return r.d.err()
	}
	if r.at >= len(r.d.rows) {
		return io.EOF
	}
	copy(dest, r.d.rows[r.at])
	r.at++
	r.d.reads++
	return nil
}

// spyDB records the calls on a QueryAble.
type spyDB struct {
	db interface {
		Exec(query string, args ...any) (sql.Result, error)
		Prepare(query string) (*sql.Stmt, error)
		Query(query string, args ...any) (*sql.Rows, error)
		QueryRow(query string, args ...any) *sql.Row
	}
	calls []string
	query []string
	args  [][]any
}

func (s *spyDB) note(call, query string, args []any) {
	s.calls = append(s.calls, call)
	s.query = append(s.query, query)
	s.args = append(s.args, append([]any{}, args...))
}

func (s *spyDB) Exec(query string, args ...any) (sql.Result, error) {
	s.note("Exec", query, args)
	return s.db.Exec(query, args...)
}
func (s *spyDB) Prepare(query string) (*sql.Stmt, error) {
	s.note("Prepare", query, nil)
	return s.db.Prepare(query)
}
func (s *spyDB) Query(query string, args ...any) (*sql.Rows, error) {
	s.note("Query", query, args)
	return s.db.Query(query, args...)
}
func (s *spyDB) QueryRow(query string, args ...any) *sql.Row {
	s.note("QueryRow", query, args)
	return s.db.QueryRow(query, args...)
}
