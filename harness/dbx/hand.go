package main

import (
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

// Models written by hand that have only the methods every model needs, so that the statements are built by
// package db itself.

type handPK struct {
	A  string
	ID int64
	B  int64
}

func (handPK) TableName() string        { return "hand" }
func (handPK) HasPK()                   {}
func (v handPK) PK() (string, int, any) { return "id", 1, v.ID }
func (handPK) Columns() []string        { return []string{"a", "id", "b"} }
func (v handPK) Values() []any          { return []any{v.A, v.ID, v.B} }
func (v *handPK) Addrs() []any          { return []any{&v.A, &v.ID, &v.B} }

type handComp struct {
	K1 string
	A  int64
	K2 int64
	B  string
}

func (handComp) TableName() string { return "hand" }
func (handComp) HasPK()            {}
func (v handComp) CompositeKey() ([]string, []int, []any) {
	return []string{"k_1", "k_2"}, []int{0, 2}, []any{v.K1, v.K2}
}
func (handComp) Columns() []string { return []string{"k_1", "a", "k_2", "b"} }
func (v handComp) Values() []any   { return []any{v.K1, v.A, v.K2, v.B} }
func (v *handComp) Addrs() []any   { return []any{&v.K1, &v.A, &v.K2, &v.B} }

func (handComp) InsertPlaceholders(row int) string { return placeholders(row, 4) }
func (handPK) InsertPlaceholders(row int) string   { return placeholders(row, 3) }

// handLast names its keys in another order than its columns and has the key in the last places.
type handLast struct {
	A  int64
	K1 int64
	K2 string
}

func (handLast) TableName() string    { return "hand" }
func (handLast) DatabaseName() string { return "main" }
func (handLast) HasPK()               {}
func (v handLast) CompositeKey() ([]string, []int, []any) {
	return []string{"k_2", "k_1"}, []int{2, 1}, []any{v.K2, v.K1}
}
func (handLast) Columns() []string                 { return []string{"a", "k_1", "k_2"} }
func (v handLast) Values() []any                   { return []any{v.A, v.K1, v.K2} }
func (v *handLast) Addrs() []any                   { return []any{&v.A, &v.K1, &v.K2} }
func (handLast) InsertPlaceholders(row int) string { return placeholders(row, 3) }

var dHandPK = desc[handPK]{
	table: "hand", cols: []symsql.Col{c("a"), c("id"), c("b")}, plain: true, keys: []string{"id"}, auto: -1,
	row: func(m handPK) []any { return []any{m.A, m.ID, m.B} },
	arb: func(n string) handPK {
		return handPK{A: text(n+"a", 0, 1), ID: sym.Int64(n + "id"), B: sym.Int64(n + "b")}
	},
}

var dHandComp = desc[handComp]{
	table: "hand", cols: []symsql.Col{c("k_1"), c("a"), c("k_2"), c("b")}, plain: true, keys: []string{"k_1", "k_2"}, auto: -1,
	row: func(m handComp) []any { return []any{m.K1, m.A, m.K2, m.B} },
	arb: func(n string) handComp {
		return handComp{K1: text(n+"k1", 1, 1), A: sym.Int64(n + "a"), K2: sym.Int64(n + "k2"), B: text(n+"b", 0, 1)}
	},
}

var dHandLast = desc[handLast]{
	table: "main.hand", cols: []symsql.Col{c("a"), c("k_1"), c("k_2")}, plain: true, keys: []string{"k_2", "k_1"}, auto: -1,
	row: func(m handLast) []any { return []any{m.A, m.K1, m.K2} },
	arb: func(n string) handLast {
		return handLast{A: sym.Int64(n + "a"), K1: sym.Int64(n + "k1"), K2: text(n+"k2", 1, 1)}
	},
}
