package symsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"math"
	"strconv"
	"time"

	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// What the executor runs instead of package database/sql: the same statements reach the same server, without
// the connection pool. The conversions follow driver.DefaultParameterConverter and sql.convertAssign.

type dbEntry struct {
	db *sql.DB
	s  *Server
}

type txEntry struct {
	tx *sql.Tx
	s  *Server
}

type rowsEntry struct {
	rows *sql.Rows
	st   *rowsState
}

type rowEntry struct {
	row *sql.Row
	st  *rowsState
	err error
}

type rowsState struct {
	r      *rowSet
	cur    []any
	closed bool
	err    error
}

var (
	dbs   []dbEntry
	txs   []txEntry
	rowsL []rowsEntry
	rowL  []rowEntry
)

func serverOfDB(db *sql.DB) *Server {
	for _, x := range dbs {
		if x.db == db {
			return x.s
		}
	}
	panic("symsql: unknown database")
}

func serverOfTx(tx *sql.Tx) *Server {
	for _, x := range txs {
		if x.tx == tx {
			return x.s
		}
	}
	panic("symsql: unknown transaction")
}

func stateOf(r *sql.Rows) *rowsState {
	for _, x := range rowsL {
		if x.rows == r {
			return x.st
		}
	}
	panic("symsql: unknown rows")
}

// param converts an argument as database/sql does for a driver without a converter of its own.
func param(v any) (any, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case int64, float64, bool, []byte, string, time.Time:
		return x, nil
	case driver.Valuer:
		y, err := x.Value()
		if err != nil {
			return nil, err
		}
		switch y.(type) {
		case nil, int64, float64, bool, []byte, string, time.Time:
			return y, nil
		}
		return nil, errors.New("non-Value type returned from Value")
	case int:
		return int64(x), nil
	case int8:
		return int64(x), nil
	case int16:
		return int64(x), nil
	case int32:
		return int64(x), nil
	case uint:
		return param(uint64(x))
	case uint8:
		return int64(x), nil
	case uint16:
		return int64(x), nil
	case uint32:
		return int64(x), nil
	case uint64:
		if x >= 1<<63 {
			return nil, errors.New("uint64 values with high bit set are not supported")
		}
		return int64(x), nil
	case float32:
		return float64(x), nil
	case sql.RawBytes:
		return []byte(x), nil
	case json.RawMessage:
		return []byte(x), nil
	case *string:
		if x == nil {
			return nil, nil
		}
		return *x, nil
	}
	if y, ok := sym.Basic(v); ok {
		return param(y)
	}
	return nil, errors.New("unsupported type")
}

func params(args []any) ([]any, error) {
	out := make([]any, len(args))
	for i, a := range args {
		v, err := param(a)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func (s *Server) exec(q string, args []any) (sql.Result, error) {
	a, err := params(args)
	if err != nil {
		return nil, err
	}
	res, _, err := s.run(q, a)
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (s *Server) query(q string, args []any) (*rowsState, error) {
	a, err := params(args)
	if err != nil {
		return nil, err
	}
	_, rs, err := s.run(q, a)
	if err != nil {
		return nil, err
	}
	s.Open++
	return &rowsState{r: rs}, nil
}

func (s *Server) queryRows(q string, args []any) (*sql.Rows, error) {
	st, err := s.query(q, args)
	if err != nil {
		return nil, err
	}
	r := new(sql.Rows)
	rowsL = append(rowsL, rowsEntry{r, st})
	return r, nil
}

func (s *Server) queryRow(q string, args []any) *sql.Row {
	st, err := s.query(q, args)
	r := new(sql.Row)
	rowL = append(rowL, rowEntry{r, st, err})
	return r
}

func DBExec(db *sql.DB, _ context.Context, q string, args ...any) (sql.Result, error) {
	return serverOfDB(db).exec(q, args)
}

func DBQuery(db *sql.DB, _ context.Context, q string, args ...any) (*sql.Rows, error) {
	return serverOfDB(db).queryRows(q, args)
}

func DBQueryRow(db *sql.DB, _ context.Context, q string, args ...any) *sql.Row {
	return serverOfDB(db).queryRow(q, args)
}

func TxExec(tx *sql.Tx, _ context.Context, q string, args ...any) (sql.Result, error) {
	return serverOfTx(tx).exec(q, args)
}

func TxQuery(tx *sql.Tx, _ context.Context, q string, args ...any) (*sql.Rows, error) {
	return serverOfTx(tx).queryRows(q, args)
}

func TxQueryRow(tx *sql.Tx, _ context.Context, q string, args ...any) *sql.Row {
	return serverOfTx(tx).queryRow(q, args)
}

func (st *rowsState) close() {
	if !st.closed {
		st.closed = true
		st.r.close()
	}
}

func (st *rowsState) next() bool {
	if st.closed {
		return false
	}
	row, err := st.r.next()
	if err != nil {
		if err != errEOF {
			st.err = err
		}
		st.close()
		return false
	}
	st.cur = row
	return true
}

func (st *rowsState) scan(dest []any) error {
	if st.err != nil {
		return st.err
	}
	if st.closed {
		return errors.New("sql: Rows are closed")
	}
	if st.cur == nil {
		return errors.New("sql: Scan called without calling Next")
	}
	if len(dest) != len(st.cur) {
		return errors.New("sql: wrong number of destination arguments in Scan")
	}
	for i := range dest {
		if err := assign(dest[i], st.cur[i]); err != nil {
			return err
		}
	}
	return nil
}

func RowsNext(r *sql.Rows) bool { return stateOf(r).next() }

func RowsScan(r *sql.Rows, dest ...any) error { return stateOf(r).scan(dest) }

func RowsErr(r *sql.Rows) error { return stateOf(r).err }

func RowsClose(r *sql.Rows) error {
	stateOf(r).close()
	return nil
}

func RowScan(r *sql.Row, dest ...any) error {
	for _, x := range rowL {
		if x.row != r {
			continue
		}
		if x.err != nil {
			return x.err
		}
		for _, d := range dest {
			if _, ok := d.(*sql.RawBytes); ok {
				return errors.New("sql: RawBytes isn't allowed on Row.Scan")
			}
		}
		defer x.st.close()
		if !x.st.next() {
			if x.st.err != nil {
				return x.st.err
			}
			return sql.ErrNoRows
		}
		return x.st.scan(dest)
	}
	panic("symsql: unknown row")
}

func RowErr(r *sql.Row) error {
	for _, x := range rowL {
		if x.row == r {
			return x.err
		}
	}
	panic("symsql: unknown row")
}

func cloneBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

var errAssign = errors.New("sql: Scan error")

func textOf(src any) (string, bool) {
	switch v := src.(type) {
	case string:
		return v, true
	case []byte:
		return string(v), true
	case int64:
		return strconv.FormatInt(v, 10), true
	case bool:
		return strconv.FormatBool(v), true
	case time.Time:
		return v.Format(time.RFC3339Nano), true
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64), true
	}
	return "", false
}

func intOf(src any, bits int) (int64, error) {
	switch v := src.(type) {
	case int64:
		if bits < 64 && v != v<<(64-bits)>>(64-bits) {
			return 0, errAssign
		}
		return v, nil
	case string:
		return strconv.ParseInt(v, 10, bits)
	case []byte:
		return strconv.ParseInt(string(v), 10, bits)
	}
	return 0, errAssign
}

func uintOf(src any, bits int) (uint64, error) {
	switch v := src.(type) {
	case int64:
		if v < 0 || bits < 64 && v >= 1<<bits {
			return 0, errAssign
		}
		return uint64(v), nil
	case string:
		return strconv.ParseUint(v, 10, bits)
	case []byte:
		return strconv.ParseUint(string(v), 10, bits)
	}
	return 0, errAssign
}

func floatOf(src any, bits int) (float64, error) {
	switch v := src.(type) {
	case int64:
		return float64(v), nil
	case float64:
		if bits == 32 && math.IsInf(float64(float32(v)), 0) && !math.IsInf(v, 0) {
			return 0, errAssign
		}
		return v, nil
	case string:
		return strconv.ParseFloat(v, bits)
	case []byte:
		return strconv.ParseFloat(string(v), bits)
	}
	return 0, errAssign
}

// Assign is what convertAssign does for sql.NullString and its like.
func Assign(dest, src any) error { return assign(dest, src) }

func assign(dest, src any) error {
	switch d := dest.(type) {
	case *string:
		if s, ok := textOf(src); ok {
			*d = s
			return nil
		}
		return errAssign
	case *[]byte:
		switch v := src.(type) {
		case nil:
			*d = nil
			return nil
		case []byte:
			*d = cloneBytes(v)
			return nil
		}
		if s, ok := textOf(src); ok {
			*d = []byte(s)
			return nil
		}
		return errAssign
	case *sql.RawBytes:
		switch v := src.(type) {
		case nil:
			*d = nil
			return nil
		case []byte:
			*d = v
			return nil
		}
		if s, ok := textOf(src); ok {
			*d = []byte(s)
			return nil
		}
		return errAssign
	case *json.RawMessage:
		if b, ok := src.([]byte); ok {
			*d = cloneBytes(b)
			return nil
		}
		return errAssign
	case *time.Time:
		if v, ok := src.(time.Time); ok {
			*d = v
			return nil
		}
		return errAssign
	case *bool:
		switch v := src.(type) {
		case bool:
			*d = v
			return nil
		case int64:
			if v == 0 || v == 1 {
				*d = v == 1
				return nil
			}
		case string:
			b, err := strconv.ParseBool(v)
			*d = b
			return err
		case []byte:
			b, err := strconv.ParseBool(string(v))
			*d = b
			return err
		}
		return errAssign
	case *any:
		if b, ok := src.([]byte); ok {
			src = cloneBytes(b)
		}
		*d = src
		return nil
	case sql.Scanner:
		return d.Scan(src)
	case *int64:
		v, err := intOf(src, 64)
		if err == nil {
			*d = v
		}
		return err
	case *int:
		v, err := intOf(src, 64)
		if err == nil {
			*d = int(v)
		}
		return err
	case *int32:
		v, err := intOf(src, 32)
		if err == nil {
			*d = int32(v)
		}
		return err
	case *int16:
		v, err := intOf(src, 16)
		if err == nil {
			*d = int16(v)
		}
		return err
	case *int8:
		v, err := intOf(src, 8)
		if err == nil {
			*d = int8(v)
		}
		return err
	case *uint64:
		v, err := uintOf(src, 64)
		if err == nil {
			*d = v
		}
		return err
	case *uint:
		v, err := uintOf(src, 64)
		if err == nil {
			*d = uint(v)
		}
		return err
	case *uint32:
		v, err := uintOf(src, 32)
		if err == nil {
			*d = uint32(v)
		}
		return err
	case *uint16:
		v, err := uintOf(src, 16)
		if err == nil {
			*d = uint16(v)
		}
		return err
	case *uint8:
		v, err := uintOf(src, 8)
		if err == nil {
			*d = uint8(v)
		}
		return err
	case *float64:
		v, err := floatOf(src, 64)
		if err == nil {
			*d = v
		}
		return err
	case *float32:
		v, err := floatOf(src, 32)
		if err == nil {
			*d = float32(v)
		}
		return err
	}
	panic("symsql: destination type not modelled")
}
