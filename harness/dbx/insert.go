package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

// stored is the row an insert of m leaves in the table.
func (d desc[T]) stored(m T, next int64) []any {
	r := d.row(m)
	if d.auto >= 0 {
		r[d.auto] = next
	}
	for _, i := range d.ro {
		r[i] = int64(roDefault)
	}
	return r
}

// after is what m looks like when it has been inserted.
func (d desc[T]) after(m T, next int64) T {
	if d.auto >= 0 {
		d.put(&m, next)
	}
	if returning && d.ro != nil {
		d.stamp(&m, roDefault)
	}
	return m
}

func insertOneOf[T sequel.ColumnValuer, P insPtr[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	old := d.row(d.arb("old."))
	if d.auto >= 0 {
		t.Next = int64(sym.Range("next", 1, 1<<20))
		old[d.auto] = t.Next - 1
	}
	t.Rows = rows(old)
	m := d.arb("")
	sent := m
	s.FailAt = sym.Choose("fault", 2) - 1
	if returning && s.FailAt < 0 {
		s.RowErr = sym.Choose("rowfault", 2) - 1
	}
	next := t.Next
	err := insertOne[T, P](s.DB(), P(&m))
	want := d.stored(sent, next)
	if s.FailAt == 0 {
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(eqRows(t.Rows, rows(old)), "nothing-stored-on-error")
		return
	}
	if s.RowErr == 0 {
		sym.Assert(failed(err), "error-surfaced")
		sym.Assert(s.Open == 0, "result-set-closed")
		return
	}
	if d.keys != nil && d.auto < 0 && sym.FixBool(d.sameKey(old, want)) {
		sym.Assert(failed(err), "duplicate-refused")
		sym.Assert(eqRows(t.Rows, rows(old)), "nothing-stored-on-error")
		return
	}
	valid(s)
	sym.Assert(err == nil, "insert-succeeds")
	sym.Assert(eqRows(t.Rows, rows(old, want)), "stored-exactly")
	sym.Assert(eqRow(d.row(m), d.row(d.after(sent, next))), "model-after-insert")
	sym.Assert(s.Open == 0, "result-set-closed")
	sym.Cover("inserted")
}

func C01_One_Auto()     { insertOneOf(dAuto) }
func C01_One_AutoLast() { insertOneOf(dAutoLast) }
func C01_One_Nat()      { insertOneOf(dNat) }
func C01_One_Comp()     { insertOneOf(dComp) }
func C01_One_RO()       { insertOneOf(dRO) }
func C01_One_AutoRO()   { insertOneOf(dAutoRO) }
func C01_One_Plain()    { insertOneOf(dPlain) }
func C01_One_Named()    { insertOneOf(dNamed) }

func insertManyOf[T sequel.Inserter, P sequel.PtrScanner[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	if d.auto >= 0 {
		t.Next = int64(sym.Range("next", 1, 1<<20))
	}
	first := t.Next
	n := sym.Choose("n", sym.B(4, 5))
	data := make([]T, n)
	var want [][]any
	for i := range data {
		data[i] = d.arb(strconv.Itoa(i) + ".")
		want = append(want, d.stored(data[i], first+int64(i)))
	}
	sent := append([]T(nil), data...)
	if sym.Choose("fault", 2) == 1 {
		s.FailAt = 0
	} else if returning && n > 0 && sym.Choose("rowfault", 2) == 1 {
		s.RowErr = sym.Choose("rows", n)
	}
	res, err := insertMany[T, P](s.DB(), data)
	if n == 0 {
		sym.Assert(err == nil && len(t.Rows) == 0, "empty-insert")
		return
	}
	if s.FailAt == 0 || s.RowErr >= 0 {
		sym.Assert(failed(err), "error-surfaced")
		sym.Assert(s.Open == 0, "result-set-closed")
		return
	}
	if d.keys != nil && d.auto < 0 {
		for i := range want {
			for j := 0; j < i; j++ {
				if sym.FixBool(d.sameKey(want[i], want[j])) {
					sym.Assert(failed(err), "duplicate-refused")
					sym.Assert(len(t.Rows) == 0, "nothing-stored-on-error")
					return
				}
			}
		}
	}
	valid(s)
	sym.Assert(err == nil, "insert-succeeds")
	sym.Assert(eqRows(t.Rows, want), "stored-exactly")
	sym.Assert(len(s.Calls) == 1, "one-statement")
	if err == nil {
		k, err := res.RowsAffected()
		sym.Assert(err == nil && k == int64(n), "rows-affected")
	}
	for i := range data {
		x := sent[i]
		if returning {
			x = d.after(x, first+int64(i))
		}
		sym.Assert(eqRow(d.row(data[i]), d.row(x)), "models-after-insert")
	}
	sym.Assert(s.Open == 0, "result-set-closed")
	sym.Cover("inserted")
}

func C01_Many_Auto()     { insertManyOf(dAuto) }
func C01_Many_AutoLast() { insertManyOf(dAutoLast) }
func C01_Many_Nat()      { insertManyOf(dNat) }
func C01_Many_Comp()     { insertManyOf(dComp) }
func C01_Many_RO()       { insertManyOf(dRO) }
func C01_Many_AutoRO()   { insertManyOf(dAutoRO) }
func C01_Many_Plain()    { insertManyOf(dPlain) }
func C01_Many_Named()    { insertManyOf(dNamed) }

func C01_One_Only()      { insertOneOf(dOnly) }
func C01_Many_OnlyPair() { insertManyOf(dOnlyPair) }
