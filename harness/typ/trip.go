package main

import (
	"context"
	"math"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

var ctx = context.Background()

// kind says how the records of a model are made and compared.
type kind[T any] struct {
	table string
	cols  []string
	make  func(n string) func(id int64) T // draws the values, then builds the same record whenever it is called
	eq    func(a, b T) bool
	id    func(*T, int64)
}

func server[T any](d kind[T]) (*symsql.Server, *symsql.Table) {
	s := symsql.New(dialect)
	s.Bytes = sym.Choose("bytes", 2) == 1
	cols := []symsql.Col{{Name: "id"}}
	for _, c := range d.cols {
		cols = append(cols, symsql.Col{Name: c})
	}
	return s, s.Table(d.table, [][]string{{"id"}}, cols...)
}

// trip stores a record and reads it back.
func trip[T sequel.KeyValuer, P record[T]](d kind[T]) {
	s, t := server(d)
	build := d.make("a.")
	m := build(1)
	err := insertOne[T, P](s.DB(), P(&m))
	sym.Assert(s.LastErr == nil, "valid-statement")
	sym.Assert(err == nil, "stored")
	sym.Assert(d.eq(m, build(1)), "record-kept")
	sym.Assert(len(t.Rows) == 1, "one-row")
	var g T
	if sym.Choose("over", 2) == 1 {
		g = d.make("b.")(1)
	}
	d.id(&g, 1)
	err = db.FindByPK[T, P](ctx, s.DB(), P(&g))
	sym.Assert(err == nil, "read-back")
	sym.Assert(d.eq(g, build(1)), "comes-back-equal")
	sym.Cover("back")
}

// pair stores two records and reads them in one query.
func pair[T sequel.KeyValuer, P record[T]](d kind[T]) {
	s, t := server(d)
	b1, b2 := d.make("a."), d.make("b.")
	for i, b := range []func(int64) T{b1, b2} {
		m := b(int64(i + 1))
		err := insertOne[T, P](s.DB(), P(&m))
		sym.Assert(err == nil, "stored")
	}
	sym.Assert(len(t.Rows) == 2, "two-rows")
	got, err := db.QueryStmt[T, P](ctx, s.DB(), func(T) db.SelectStmt { return db.SelectStmt{} })
	sym.Assert(err == nil && len(got) == 2, "read-back")
	sym.Assert(len(got) == 2 && sym.And(d.eq(got[0], b1(1)), d.eq(got[1], b2(2))), "comes-back-equal")
	sym.Cover("back")
}

func ptr[V any](v V, set bool) *V {
	if !set {
		return nil
	}
	return &v
}

// same compares what pointers point to.
func same[V comparable](a, b *V) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func sameBy[V any](a, b *V, eq func(a, b V) bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return eq(*a, *b)
}

func all(bs ...bool) bool {
	r := true
	for _, b := range bs {
		r = sym.And(r, b)
	}
	return r
}

func text(n string, lo, hi int) string { return sym.String(n, lo, hi) }

func eqStr[S ~string](a, b S) bool { return sym.EqStr(string(a), string(b)) }

func eqF32[F ~float32](a, b F) bool { return math.Float32bits(float32(a)) == math.Float32bits(float32(b)) }

func eqF64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func f32(n string) float32 {
	f := sym.Float32(n)
	sym.Assume(f == f)
	return f
}

func f64(n string) float64 {
	f := sym.Float64(n)
	sym.Assume(f == f)
	return f
}

func lists[V any](a, b []V, eq func(a, b V) bool) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, eq(a[i], b[i]))
	}
	return r
}

func is[V comparable](a, b V) bool { return a == b }

// G01_Big stores numbers the database may have no type for: they are refused or come back.
func G01_Big() {
	s, t := server(kUints)
	m := model.Uints{ID: 1}
	id := "uint-comes-back"
	if sym.Choose("field", 2) == 0 {
		m.A = uint(sym.Uint64("a"))
	} else {
		m.E, id = sym.Uint64("e"), "uint64-comes-back"
	}
	want := m
	if insertOne(s.DB(), &m) != nil {
		sym.Assert(len(t.Rows) == 0, id)
		sym.Cover("refused")
		return
	}
	g := model.Uints{ID: 1}
	sym.Assert(db.FindByPK(ctx, s.DB(), &g) == nil, id)
	sym.Assert(g == want, id)
	sym.Cover("stored")
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// G01_Nil_Embedded stores a record whose embedded struct is not there.
func G01_Nil_Embedded() {
	s, t := server(kPlaced)
	m := model.Placed{ID: 1}
	sym.Assert(insertOne(s.DB(), &m) == nil || dialect == symsql.Postgres, "stored")
	sym.Assert(len(t.Rows) == 1 && t.Rows[0][1] == nil && t.Rows[0][2] == nil, "stored-as-null")
	g := model.Placed{ID: 1}
	err := db.FindByPK(ctx, s.DB(), &g)
	sym.Assert(err == nil, "nil-embedded-reads-back")
	sym.Cover("back")
}

// G01_Nil_Columns makes conditions on the columns of an embedded struct that is not there.
func G01_Nil_Columns() {
	var m model.Placed
	sym.Assert(!panics(func() { m.ColumnTown() }), "column-of-nil-embedded")
	sym.Assert(!panics(func() { m.ColumnCode() }), "column-of-nil-embedded")
	sym.Assert(!panics(func() { m.ColumnNote() }), "column")
	sym.Cover("columns")
}
