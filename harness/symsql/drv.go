package symsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"

	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// The driver through which natively compiled code reaches the server.

type conn struct{ s *Server }

type connector struct{ s *Server }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.s}, nil }
func (c connector) Driver() driver.Driver                        { return drv{} }

func (c *conn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (c *conn) Close() error                        { return nil }
func (c *conn) Begin() (driver.Tx, error)           { return c, nil }
func (c *conn) Commit() error                       { return nil }
func (c *conn) Rollback() error                     { return nil }

func plain(args []driver.NamedValue) []any {
	out := make([]any, len(args))
	for i := range args {
		out[i] = args[i].Value
	}
	return out
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	res, _, err := c.s.run(q, plain(args))
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	_, rs, err := c.s.run(q, plain(args))
	if err != nil {
		return nil, err
	}
	c.s.Open++
	return drvRows{rs}, nil
}

type drvRows struct{ r *rowSet }

func (r drvRows) Columns() []string { return make([]string, r.r.cols) }
func (r drvRows) Close() error      { r.r.close(); return nil }
func (r drvRows) Next(dest []driver.Value) error {
	row, err := r.r.next()
	if err == errEOF {
		return io.EOF
	}
	if err != nil {
		return err
	}
	for i, v := range row {
		dest[i] = v
	}
	return nil
}

// DB returns a handle on the server. Under the executor the handle is empty and the methods the code under
// test calls on it are replaced by those of redir.go.
func (s *Server) DB() *sql.DB {
	if sym.Symbolic() {
		db := new(sql.DB)
		dbs = append(dbs, dbEntry{db, s})
		return db
	}
	return sql.OpenDB(connector{s})
}

// Tx is a transaction; the server does not implement isolation.
func (s *Server) Tx() *sql.Tx {
	if sym.Symbolic() {
		tx := new(sql.Tx)
		txs = append(txs, txEntry{tx, s})
		return tx
	}
	tx, err := s.DB().Begin()
	if err != nil {
		panic(err)
	}
	return tx
}
