// Package flt makes the database fail on demand: the registered SQLite driver is wrapped by one
// whose every call (statement, row, begin, commit) can be refused with an I/O error. A refused
// call has no effect in the database; a refused commit is rolled back.
//
// Importing it changes the driver of the whole test binary. The wrapper also keeps cancelled
// contexts out of the driver: it looks at them between calls instead.
package flt

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"sync"
	"sync/atomic"
	_ "unsafe"
)

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

var once sync.Once

// Install wraps the driver; call it once the package under test is linked in.
func Install() {
	once.Do(func() {
		db, err := sql.Open("sqlite", ":memory:")
		if err != nil {
			panic(err)
		}
		inner := db.Driver()
		_ = db.Close()
		drivers["sqlite"] = drv{inner}
	})
}

// ErrIO is what a refused call reports.
var ErrIO = errors.New("disk I/O error (10)")

var (
	armed atomic.Bool
	calls atomic.Int64 // since Arm
	first atomic.Int64 // first refused call, 0: none
	last  atomic.Int64 // last refused call
	hits  atomic.Int64
)

// Arm starts counting calls and refuses calls n to m (none when n is 0).
func Arm(n, m int) {
	armed.Store(false)
	calls.Store(0)
	hits.Store(0)
	first.Store(int64(n))
	last.Store(int64(m))
	armed.Store(true)
}

// Disarm stops refusing; it tells how many calls were made and how many of them refused.
func Disarm() (made, refused int) {
	armed.Store(false)
	return int(calls.Load()), int(hits.Load())
}

func fault() error {
	if !armed.Load() {
		return nil
	}
	n := calls.Add(1)
	if f := first.Load(); f > 0 && n >= f && n <= last.Load() {
		hits.Add(1)
		return ErrIO
	}
	return nil
}

type drv struct{ d driver.Driver }

func (d drv) Open(name string) (driver.Conn, error) {
	c, err := d.d.Open(name)
	if err != nil {
		return nil, err
	}
	return &conn{c.(inner)}, nil
}

type inner interface {
	driver.Conn
	driver.ConnBeginTx
	driver.ConnPrepareContext
	driver.ExecerContext
	driver.QueryerContext
	driver.Pinger
	driver.SessionResetter
	driver.Validator
}

type conn struct{ inner }

func enter(ctx context.Context) (context.Context, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if err := fault(); err != nil {
		return nil, err
	}
	return context.WithoutCancel(ctx), nil
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	t, err := c.inner.BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return &tx{t}, nil
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	s, err := c.inner.PrepareContext(ctx, q)
	if err != nil {
		return nil, err
	}
	return &stmt{s.(innerStmt)}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	return c.inner.ExecContext(ctx, q, a)
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	r, err := c.inner.QueryContext(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return &rows{r.(innerRows)}, nil
}

func (c *conn) Ping(ctx context.Context) error { return c.inner.Ping(context.WithoutCancel(ctx)) }

type innerStmt interface {
	driver.Stmt
	driver.StmtExecContext
	driver.StmtQueryContext
}

type stmt struct{ innerStmt }

func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	return s.innerStmt.ExecContext(ctx, a)
}

func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	ctx, err := enter(ctx)
	if err != nil {
		return nil, err
	}
	r, err := s.innerStmt.QueryContext(ctx, a)
	if err != nil {
		return nil, err
	}
	return &rows{r.(innerRows)}, nil
}

type innerRows interface {
	driver.Rows
	driver.RowsColumnTypeDatabaseTypeName
	driver.RowsColumnTypeLength
	driver.RowsColumnTypeNullable
	driver.RowsColumnTypePrecisionScale
	driver.RowsColumnTypeScanType
}

type rows struct{ innerRows }

func (r *rows) Next(dest []driver.Value) error {
	if err := fault(); err != nil {
		return err
	}
	err := r.innerRows.Next(dest)
	if err == io.EOF {
		return io.EOF
	}
	return err
}

type tx struct{ driver.Tx }

func (t *tx) Commit() error {
	if err := fault(); err != nil {
		_ = t.Tx.Rollback()
		return err
	}
	return t.Tx.Commit()
}
