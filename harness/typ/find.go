package main

import (
	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// find stores a record and looks for it by the value of a column.
func find[T sequel.KeyValuer, P record[T]](d kind[T], by func(x T) sequel.WhereClause, eq func(a, b T) bool) {
	s, _ := server(d)
	m := d.make("a.")(1)
	x := d.make("b.")(1)
	hit := sym.FixBool(eq(m, x))
	err := insertOne[T, P](s.DB(), P(&m))
	sym.Assert(err == nil, "stored")
	got, err := db.QueryStmt[T, P](ctx, s.DB(), func(T) db.SelectStmt { return db.SelectStmt{Where: by(x)} })
	sym.Assert(err == nil, "read-back")
	sym.Assert((len(got) == 1) == hit, "found-by-its-value")
	sym.Cover("asked")
}

func G01_Find_Words() {
	var z model.Words
	switch sym.Choose("by", 4) {
	case 0:
		find(kWords, func(x model.Words) sequel.WhereClause { return db.Equal(z.ColumnA(), x.A) }, func(a, b model.Words) bool { return eqStr(a.A, b.A) })
	case 1:
		find(kWords, func(x model.Words) sequel.WhereClause { return db.Equal(z.ColumnB(), x.B) }, func(a, b model.Words) bool { return eqStr(a.B, b.B) })
	case 2:
		find(kWords, func(x model.Words) sequel.WhereClause { return db.Equal(z.ColumnC(), x.C) }, func(a, b model.Words) bool { return a.C != nil && sameBy(a.C, b.C, eqStr[string]) })
	case 3:
		find(kWords, func(x model.Words) sequel.WhereClause { return db.Equal(z.ColumnD(), x.D) }, func(a, b model.Words) bool { return a.D != nil && sameBy(a.D, b.D, eqStr[model.Text]) })
	}
}

func G01_Find_Ints() {
	var z model.Ints
	switch sym.Choose("by", 6) {
	case 0:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnA(), x.A) }, func(a, b model.Ints) bool { return a.A == b.A })
	case 1:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnB(), x.B) }, func(a, b model.Ints) bool { return a.B == b.B })
	case 2:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnC(), x.C) }, func(a, b model.Ints) bool { return a.C == b.C })
	case 3:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnD(), x.D) }, func(a, b model.Ints) bool { return a.D == b.D })
	case 4:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnE(), x.E) }, func(a, b model.Ints) bool { return a.E == b.E })
	case 5:
		find(kInts, func(x model.Ints) sequel.WhereClause { return db.Equal(z.ColumnF(), x.F) }, func(a, b model.Ints) bool { return a.F == b.F })
	}
}

func G01_Find_UintPtrs() {
	var z model.UintPtrs
	switch sym.Choose("by", 6) {
	case 0:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnA(), x.A) }, func(a, b model.UintPtrs) bool { return a.A != nil && same(a.A, b.A) })
	case 1:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnB(), x.B) }, func(a, b model.UintPtrs) bool { return a.B != nil && same(a.B, b.B) })
	case 2:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnC(), x.C) }, func(a, b model.UintPtrs) bool { return a.C != nil && same(a.C, b.C) })
	case 3:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnD(), x.D) }, func(a, b model.UintPtrs) bool { return a.D != nil && same(a.D, b.D) })
	case 4:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnE(), x.E) }, func(a, b model.UintPtrs) bool { return a.E != nil && same(a.E, b.E) })
	case 5:
		find(kUintPtrs, func(x model.UintPtrs) sequel.WhereClause { return db.Equal(z.ColumnF(), x.F) }, func(a, b model.UintPtrs) bool { return a.F != nil && same(a.F, b.F) })
	}
}

func G01_Find_Own() {
	var z model.Own
	switch sym.Choose("by", 6) {
	case 0:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnA(), x.A) }, func(a, b model.Own) bool { return a.A == b.A })
	case 1:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnB(), x.B) }, func(a, b model.Own) bool { return a.B != nil && same(a.B, b.B) })
	case 2:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnC(), x.C) }, func(a, b model.Own) bool { return a.C == b.C })
	case 3:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnD(), x.D) }, func(a, b model.Own) bool { return a.D != nil && same(a.D, b.D) })
	case 4:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnE(), x.E) }, func(a, b model.Own) bool { return a.E == b.E })
	case 5:
		find(kOwn, func(x model.Own) sequel.WhereClause { return db.Equal(z.ColumnF(), x.F) }, func(a, b model.Own) bool { return a.F != nil && same(a.F, b.F) })
	}
}

func G01_Find_Fixed() {
	var z model.Fixed
	if sym.Choose("by", 2) == 0 {
		find(kFixed, func(x model.Fixed) sequel.WhereClause { return db.Equal(z.ColumnA(), x.A) }, func(a, b model.Fixed) bool { return a.A == b.A })
	} else {
		find(kFixed, func(x model.Fixed) sequel.WhereClause { return db.Equal(z.ColumnB(), x.B) }, func(a, b model.Fixed) bool { return a.B == b.B })
	}
}
