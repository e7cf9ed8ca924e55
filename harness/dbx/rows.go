package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

var dEmb = desc[model.Emb]{
	table: "emb", cols: []symsql.Col{c("id"), c("city"), c("zip"), c("note")}, keys: []string{"id"}, auto: -1,
	row: func(m model.Emb) []any {
		r := []any{m.ID, nil, nil, strVal(m.Note)}
		if m.Place != nil {
			r[1] = m.City
			if m.Zip != nil {
				r[2] = *m.Zip
			}
		}
		return r
	},
	arb: func(n string) model.Emb {
		m := model.Emb{ID: sym.Int64(n + "id"), Place: &model.Place{City: text(n+"city", 1, 1)}}
		if sym.Choose(n+"zip?", 2) == 1 {
			v := sym.Int64(n + "zip")
			m.Zip = &v
	} else {
		w := text(n+"note", 0, 1)
		m.Note = &w
		}
		return m
	},
}

// allRows asserts that a query for everything returns every row in its own
// record.
func allRows[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, sym.Choose("rows", sym.B(3, 4)))
	broken := sym.Choose("broken", 2) == 1
	if broken {
		s.RowErr = len(t.Rows)
	}
	got, err := db.QueryStmt[T, P](ctx, s.DB(), func(T) db.SelectStmt { return db.SelectStmt{} })
	valid(s)
	sym.Assert(s.Open == 0, "result-set-closed")
	if broken {
		sym.Assert(injected(err), "error-surfaced")
		return
	}
	sym.Assert(err == nil, "query-succeeds")
	sym.Assert(len(got) == len(t.Rows), "as-many-records-as-rows")
	for i := range got {
		sym.Assert(eqRow(d.row(got[i]), t.Rows[i]), "each-row-in-its-own-record")
	}
	sym.Cover("rows-" + strconv.Itoa(len(got)))
}

func C05_Rows_Auto()     { allRows(dAuto) }
func C05_Rows_AutoLast() { allRows(dAutoLast) }
func C05_Rows_Nat()      { allRows(dNat) }
func C05_Rows_Comp()     { allRows(dComp) }
func C05_Rows_RO()       { allRows(dRO) }
func C05_Rows_Named()    { allRows(dNamed) }
func C05_Rows_Emb()      { allRows(dEmb) }
func C05_Rows_OnlyPair() { allRows(dOnlyPair) }

func C01_One_Emb()  { insertOneOf(dEmb) }
func C01_Many_Emb() { insertManyOf(dEmb) }
func C02_Emb()      { updateOf(dEmb) }
func C03_Find_Emb() { findOf(dEmb) }
func C04_Many_Emb() { upsertManyOf(dEmb) }
func C04_One_Emb()  { upsertOneOf(dEmb) }
