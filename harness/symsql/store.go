package symsql

import (
	"errors"
)

// Col is a column of a table. A column left out of an INSERT gets the next number when it is Auto, and Default
// otherwise.
type Col struct {
	Name    string
	Auto    bool
	Default any
}

type Table struct {
	s    *Server
	Name string
	Cols []Col
	Keys [][]string // unique keys, the primary key first
	Rows [][]any
	Next int64 // next automatic number
	// Touched counts statements that changed the table.
	Touched int
}

func (t *Table) col(name string) int {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return i
		}
	}
	panic(fail{errors.New("unknown column " + name + " of table " + t.Name)})
}

type Call struct {
	Query string
	Args  []any
}

// Server holds the tables and the faults to inject.
type Server struct {
	Dialect int
	Tables  []*Table
	Calls   []Call
	FailAt  int   // the call (from 0) that fails before it does anything, -1 for none
	RowErr  int   // result sets break off with an error after that many rows, -1 for never
	NoID    bool  // LastInsertId is not available
	Bytes   bool  // text is delivered as bytes, in a buffer overwritten when the next row is read
	Open    int   // result sets not closed yet
	LastErr error // why the last statement was refused
}

// ErrFault is the injected fault.
var ErrFault = errors.New("injected fault")

func New(dialect int) *Server { return &Server{Dialect: dialect, FailAt: -1, RowErr: -1} }

func (s *Server) Table(name string, keys [][]string, cols ...Col) *Table {
	t := &Table{s: s, Name: name, Cols: cols, Next: 1}
	for _, k := range keys {
		if len(k) > 0 {
			t.Keys = append(t.Keys, k)
		}
	}
	s.Tables = append(s.Tables, t)
	return t
}

type result struct {
	last    int64
	n       int64
	lastErr error
}

func (r *result) LastInsertId() (int64, error) { return r.last, r.lastErr }
func (r *result) RowsAffected() (int64, error) { return r.n, nil }

type rowSet struct {
	s    *Server
	cols int
	rows [][]any
	i    int
	prev [][]byte
}

func (r *rowSet) close() {
	r.scribble()
	r.s.Open--
}

func (r *rowSet) scribble() {
	for _, b := range r.prev {
		for i := range b {
			b[i] ^= 0x2a
		}
	}
	r.prev = nil
}

var errEOF = errors.New("no more rows")

// next delivers the next row in the form it has on the wire.
func (r *rowSet) next() ([]any, error) {
	r.scribble()
	if r.s.RowErr >= 0 && r.i >= r.s.RowErr {
		return nil, ErrFault
	}
	if r.i >= len(r.rows) {
		return nil, errEOF
	}
	row := r.rows[r.i]
	r.i++
	out := make([]any, len(row))
	for i, v := range row {
		switch v := v.(type) {
		case string:
			if r.s.Bytes {
				b := []byte(v)
				r.prev = append(r.prev, b)
				out[i] = b
				continue
			}
		case []byte:
			b := append([]byte{}, v...)
			r.prev = append(r.prev, b)
			out[i] = b
			continue
		case bool:
			if r.s.Dialect != Postgres {
				n := int64(0)
				if v {
					n = 1
				}
				out[i] = n
				continue
			}
		}
		out[i] = v
	}
	return out, nil
}

func (s *Server) refuse(err error) error {
	s.LastErr = err
	return err
}

// run executes a statement whose arguments are driver values.
func (s *Server) run(query string, args []any) (res *result, rs *rowSet, err error) {
	n := len(s.Calls)
	s.Calls = append(s.Calls, Call{query, args})
	if n == s.FailAt {
		return nil, nil, ErrFault
	}
	st, err := parse(s.Dialect, query)
	if err != nil {
		return nil, nil, s.refuse(err)
	}
	if st.nargs != len(args) {
		return nil, nil, s.refuse(errors.New("number of parameters does not match number of arguments"))
	}
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fail)
			if !ok {
				panic(r)
			}
			res, rs, err = nil, nil, s.refuse(f.err)
		}
	}()
	var t *Table
	for _, x := range s.Tables {
		if x.Name == st.table {
			t = x
		}
	}
	if t == nil {
		return nil, nil, s.refuse(errors.New("no table " + st.table))
	}
	for i, a := range args {
		if b, ok := a.([]byte); ok && b != nil {
			args[i] = append([]byte{}, b...)
		} else if ok {
			args[i] = nil
		}
	}
	res = &result{}
	var out [][]any
	switch st.kind {
	case "INSERT":
		out = t.insert(st, args, res)
	case "SELECT":
		out = t.sel(st, args)
	case "UPDATE":
		t.update(st, args, res)
	case "DELETE":
		t.del(st, args, res)
	}
	if s.NoID || s.Dialect == Postgres {
		res.last, res.lastErr = 0, ErrFault
	}
	return res, &rowSet{s: s, rows: out, cols: width(st, t)}, nil
}

func width(st *stmt, t *Table) int {
	if st.star {
		return len(t.Cols)
	}
	return len(st.out)
}

// clash returns the row that has the same value of the key, or -1.
func (t *Table) clash(rows [][]any, row []any, key []string, skip int) int {
	for i, r := range rows {
		if i == skip {
			continue
		}
		same := true
		for _, k := range key {
			c := t.col(k)
			if r[c] == nil || row[c] == nil || !equal(r[c], row[c]) {
				same = false
				break
			}
		}
		if same {
			return i
		}
	}
	return -1
}

func sameNames(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

func cloneRow(r []any) []any { return append([]any(nil), r...) }

func (t *Table) insert(st *stmt, args []any, res *result) [][]any {
	rows := append([][]any(nil), t.Rows...)
	next := t.Next
	var out [][]any
	at := make([]int, len(st.cols))
	for i, c := range st.cols {
		at[i] = t.col(c)
		for _, d := range st.cols[:i] {
			if c == d {
				panic(fail{syntax("column named twice")})
			}
		}
	}
	if st.conflict && st.target != nil {
		found := false
		for _, k := range t.Keys {
			found = found || sameNames(k, st.target)
		}
		if !found {
			panic(fail{errors.New("no unique constraint matches the ON CONFLICT specification")})
		}
	}
	changed := map[int]bool{}
	first := true
	for _, vals := range st.rows {
		row := make([]any, len(t.Cols))
		given := make([]bool, len(t.Cols))
		e := &env{t: t, args: args}
		for i, v := range vals {
			if v.op == "col" {
				panic(fail{syntax("column " + v.name + " among the values")})
			}
			row[at[i]] = e.val(v)
			given[at[i]] = true
		}
		gen := int64(-1)
		for i, c := range t.Cols {
			if c.Auto {
				auto := !given[i] || row[i] == nil && t.s.Dialect != Postgres
				if given[i] && t.s.Dialect == MySQL && row[i] != nil {
					auto = row[i].(int64) == 0
				}
				if auto {
					row[i] = next
					gen = next
					next++
				} else if n, ok := row[i].(int64); ok && t.s.Dialect != Postgres && n >= next {
					next = n + 1
				}
			} else if !given[i] {
				row[i] = c.Default
			}
		}
		hit, other := -1, false
		for _, k := range t.Keys {
			i := t.clash(rows, row, k, -1)
			if i < 0 {
				continue
			}
			switch {
			case st.ignore, st.onDup, st.conflict && (st.target == nil || sameNames(k, st.target)):
				if hit < 0 {
					hit = i
				}
			default:
				other = true
			}
		}
		// Postgres looks at the other constraints only when it adds the row
		if other && (hit < 0 || t.s.Dialect != Postgres) {
			panic(fail{errors.New("duplicate key")})
		}
		switch {
		case hit < 0:
			rows = append(rows, row)
			changed[len(rows)-1] = true
			res.n++
			out = append(out, t.project(st, row, args))
			if gen >= 0 && (first || t.s.Dialect == SQLite) {
				res.last = gen
				first = false
			} else if gen < 0 && first {
				for i, c := range t.Cols {
					if n, ok := row[i].(int64); c.Auto && ok {
						res.last = n
					}
				}
			}
		case st.ignore || st.doNothing:
		default:
			if t.s.Dialect == Postgres && changed[hit] {
				panic(fail{errors.New("ON CONFLICT DO UPDATE command cannot affect row a second time")})
			}
			old := rows[hit]
			upd := cloneRow(old)
			for _, x := range st.sets {
				upd[t.col(x.col)] = (&env{t: t, row: old, new: row, args: args}).val(x.val)
			}
			for _, k := range t.Keys {
				if t.clash(rows, upd, k, hit) >= 0 {
					panic(fail{errors.New("duplicate key")})
				}
			}
			rows[hit] = upd
			changed[hit] = true
			res.n++
			if t.s.Dialect == MySQL {
				res.n++
				for i, c := range t.Cols {
					if n, ok := upd[i].(int64); c.Auto && ok {
						res.last = n
					}
				}
			}
			out = append(out, t.project(st, upd, args))
		}
	}
	t.Rows, t.Next = rows, next
	t.Touched++
	return out
}

func (t *Table) project(st *stmt, row []any, args []any) []any {
	if st.star {
		return cloneRow(row)
	}
	e := &env{t: t, row: row, args: args}
	out := make([]any, len(st.out))
	for i, n := range st.out {
		out[i] = e.val(n)
	}
	return out
}

// match returns the rows a statement selects, in the order it asks for.
func (t *Table) match(st *stmt, args []any) []int {
	var idx []int
	for _, o := range st.order {
		for _, c := range o.cols {
			t.col(c)
		}
	}
	for i, r := range t.Rows {
		if st.where == nil || (&env{t: t, row: r, args: args}).truth(st.where) == yes {
			idx = append(idx, i)
		}
	}
	for i := 1; i < len(idx); i++ {
		for j := i; j > 0 && t.before(st, t.Rows[idx[j]], t.Rows[idx[j-1]]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	return idx
}

func (t *Table) before(st *stmt, a, b []any) bool {
	for _, o := range st.order {
		for _, c := range o.cols {
			x, y := a[t.col(c)], b[t.col(c)]
			var d int
			switch {
			case x == nil && y == nil:
			case x == nil || y == nil:
				d = 1
				if (x == nil) != (t.s.Dialect == Postgres) {
					d = -1
				}
			default:
				d = compare(x, y)
			}
			if o.desc {
				d = -d
			}
			if d != 0 {
				return d < 0
			}
		}
	}
	return false
}

func cut(idx []int, offset, limit int64) []int {
	if offset > 0 {
		if offset >= int64(len(idx)) {
			return nil
		}
		idx = idx[offset:]
	}
	if limit >= 0 && limit < int64(len(idx)) {
		idx = idx[:limit]
	}
	return idx
}

func (t *Table) sel(st *stmt, args []any) [][]any {
	idx := t.match(st, args)
	if st.group != nil {
		for _, n := range st.out {
			ok := false
			for _, g := range st.group {
				ok = ok || n.op == "col" && n.name == g
			}
			if !ok && !sameNames(st.group, t.Keys[0]) {
				panic(fail{errors.New("selected column is not in GROUP BY")})
			}
		}
		var kept []int
		for _, i := range idx {
			dup := false
			for _, j := range kept {
				same := true
				for _, g := range st.group {
					x, y := t.Rows[i][t.col(g)], t.Rows[j][t.col(g)]
					if (x == nil) != (y == nil) || x != nil && !equal(x, y) {
						same = false
						break
					}
				}
				if same {
					dup = true
					break
				}
			}
			if !dup {
				kept = append(kept, i)
			}
		}
		idx = kept
	}
	var out [][]any
	for _, i := range cut(idx, st.offset, st.limit) {
		out = append(out, t.project(st, t.Rows[i], args))
	}
	if len(t.Rows) == 0 && !st.star {
		t.project(st, make([]any, len(t.Cols)), args)
	}
	return out
}

func (t *Table) update(st *stmt, args []any, res *result) {
	rows := append([][]any(nil), t.Rows...)
	for _, x := range st.sets {
		t.col(x.col)
	}
	idx := cut(t.match(st, args), 0, st.limit)
	for _, i := range idx {
		upd := cloneRow(rows[i])
		for _, x := range st.sets {
			upd[t.col(x.col)] = (&env{t: t, row: rows[i], args: args}).val(x.val)
		}
		rows[i] = upd
	}
	for _, i := range idx {
		for _, k := range t.Keys {
			if t.clash(rows, rows[i], k, i) >= 0 {
				panic(fail{errors.New("duplicate key")})
			}
		}
	}
	res.n = int64(len(idx))
	t.Rows = rows
	t.Touched++
}

func (t *Table) del(st *stmt, args []any, res *result) {
	idx := cut(t.match(st, args), 0, st.limit)
	var rows [][]any
	for i, r := range t.Rows {
		gone := false
		for _, j := range idx {
			gone = gone || i == j
		}
		if !gone {
			rows = append(rows, r)
		}
	}
	res.n = int64(len(idx))
	t.Rows = rows
	t.Touched++
}
