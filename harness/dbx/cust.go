package main

import (
	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/gen/model/conv"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

// Types whose conversions are configured: Amount is stored with ENC and read with DEC, Temp is converted in Go,
// Spot both ways.

func enc(v int64) any { return symsql.Encoded{Fn: "ENC", V: v} }

func encSpot(s conv.Spot) any { return enc(int64(s.X)<<32 | int64(uint32(s.Y))) }

func arbSpot(n string) conv.Spot { return conv.Spot{X: sym.Int32(n + "x"), Y: sym.Int32(n + "y")} }

var dCust = desc[model.Cust]{
	table: "cust", cols: []symsql.Col{auto("id"), c("a"), c("b"), c("c"), c("t"), c("s")}, keys: []string{"id"},
	row: func(m model.Cust) []any {
		r := []any{m.ID, enc(int64(m.A)), nil, m.C, m.T.Deg ^ 0x5a5a, encSpot(m.S)}
		if m.B != nil {
			r[2] = enc(int64(*m.B))
		}
		return r
	},
	arb: func(n string) model.Cust {
		m := model.Cust{ID: sym.Int64(n + "id"), A: model.Amount(sym.Int64(n + "a")), C: text(n+"c", 0, 1), T: conv.Temp{Deg: sym.Int64(n + "t")}, S: arbSpot(n + "s")}
		if sym.Choose(n+"b?", 2) == 1 {
			b := model.Amount(sym.Int64(n + "b"))
			m.B = &b
		}
		return m
	},
	put: func(m *model.Cust, v int64) { m.ID = v },
}

var dCustKey = desc[model.CustKey]{
	table: "cust_key", cols: []symsql.Col{c("c"), c("k"), c("s")}, keys: []string{"k"}, auto: -1,
	row: func(m model.CustKey) []any { return []any{m.C, enc(int64(m.K)), encSpot(m.S)} },
	arb: func(n string) model.CustKey {
		return model.CustKey{C: text(n+"c", 0, 1), K: model.Amount(sym.Int64(n + "k")), S: arbSpot(n + "s")}
	},
}

var dCustPair = desc[model.CustPair]{
	table: "cust_pair", cols: []symsql.Col{c("k"), c("a"), c("l")}, keys: []string{"k", "l"}, auto: -1,
	row: func(m model.CustPair) []any { return []any{encSpot(m.K), enc(int64(m.A)), m.L} },
	arb: func(n string) model.CustPair {
		return model.CustPair{K: arbSpot(n + "k"), A: model.Amount(sym.Int64(n + "a")), L: text(n+"l", 1, 1)}
	},
}

var dCustGo = desc[model.CustGo]{
	table: "cust_go", cols: []symsql.Col{c("t"), c("k"), c("n"), c("p")}, keys: []string{"k"}, auto: -1,
	row: func(m model.CustGo) []any {
		r := []any{m.T.Deg ^ 0x5a5a, m.K.Deg ^ 0x5a5a, m.N, nil}
		if m.P != nil {
			r[3] = m.P.Deg ^ 0x5a5a
		}
		return r
	},
	arb: func(n string) model.CustGo {
		m := model.CustGo{T: conv.Temp{Deg: sym.Int64(n + "t")}, K: conv.Temp{Deg: sym.Int64(n + "k")}, N: text(n+"n", 0, 1)}
		if sym.Choose(n+"p?", 2) == 1 {
			m.P = &conv.Temp{Deg: sym.Int64(n + "p")}
		}
		return m
	},
}

// Types that are converted in Go only.
func T01_Insert_CustGo() { insertOneOf(dCustGo) }
func T01_Many_CustGo()   { insertManyOf(dCustGo) }
func T01_Up_CustGo()     { upsertOneOf(dCustGo) }
func T01_Ups_CustGo()    { upsertManyOf(dCustGo) }
func T01_Update_CustGo() { updateOf(dCustGo) }
func T01_Find_CustGo()   { findOf(dCustGo) }
func T01_Delete_CustGo() { deleteOf(dCustGo) }
func T01_Rows_CustGo()   { allRows(dCustGo) }

func T01_Insert_Cust()     { insertOneOf(dCust) }
func T01_Insert_CustKey()  { insertOneOf(dCustKey) }
func T01_Insert_CustPair() { insertOneOf(dCustPair) }
func T01_Update_Cust()     { updateOf(dCust) }
func T01_Update_CustKey()  { updateOf(dCustKey) }
func T01_Update_CustPair() { updateOf(dCustPair) }
func T01_Find_Cust()       { findOf(dCust) }
func T01_Find_CustKey()    { findOf(dCustKey.unlocked()) }
func T01_Find_CustPair()   { findOf(dCustPair.unlocked()) }
func T01_Delete_Cust()     { deleteOf(dCust) }
func T01_Rows_Cust()       { allRows(dCust) }
func T01_Rows_CustKey()    { allRows(dCustKey) }
func T01_Rows_CustPair()   { allRows(dCustPair) }

// byKey locks or deletes by a key with an SQL function: the key compared must be the value stored.
func byKey[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](d desc[T], lock bool) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, 1)
	m := d.arb("")
	if lock && len(locks) > 0 {
		db.LockByPK[T, P](ctx, s.Tx(), P(&m), locks[0])
	} else if !lock {
		db.DeleteByPK(ctx, s.DB(), m)
	}
	valid(s)
	sym.Cover("done")
}

func T01_Lock_CustKey()    { byKey(dCustKey, true) }
func T01_Lock_CustPair()   { byKey(dCustPair, true) }
func T01_Delete_CustKey()  { byKey(dCustKey, false) }
func T01_Delete_CustPair() { byKey(dCustPair, false) }

// Statements for several records, and upserts: only those for postgres have the placeholders of the model.
func several(f func(), here bool) {
	if here {
		f()
	}
	sym.Cover("done")
}

func T01_Many_Cust()     { several(func() { insertManyOf(dCust) }, returning) }
func T01_Many_CustPair() { several(func() { insertManyOf(dCustPair) }, returning) }
func T01_Up_Cust()       { several(func() { upsertOneOf(dCust) }, returning) }
func T01_Up_CustKey()    { several(func() { upsertOneOf(dCustKey) }, returning) }
func T01_Ups_Cust()      { several(func() { upsertManyOf(dCust) }, returning) }
func T01_Ups_CustPair()  { several(func() { upsertManyOf(dCustPair) }, returning) }

func T01_Raw_Many_Cust() { several(func() { insertManyOf(dCust) }, !returning) }
func T01_Raw_Up_Cust()   { several(func() { upsertOneOf(dCust) }, !returning) }
func T01_Raw_Ups_Cust()  { several(func() { upsertManyOf(dCust) }, !returning) }
