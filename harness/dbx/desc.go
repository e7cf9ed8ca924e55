package main

import (
	"context"
	"database/sql"
	"errors"

	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

var ctx = context.Background()

// desc says, written by hand, how a model is stored.
type desc[T any] struct {
	table string
	cols  []symsql.Col
	keys  []string
	auto  int      // the automatic column, -1 for none
	ro    []int    // read-only columns
	plain bool     // the model does not quote its columns
	uniq  []string // a unique constraint besides the key
	kept  []int    // columns an upsert on postgres does not change
	row   func(T) []any
	arb   func(n string) T
	put   func(*T, int64) // sets the automatic column
	stamp func(*T, int64) // sets the read-only column
	// noLock leaves locking out
	noLock bool
}

func (d desc[T]) unlocked() desc[T] { d.noLock = true; return d }

func (d desc[T]) in(s *symsql.Server) *symsql.Table {
	keys := [][]string{d.keys}
	if d.uniq != nil {
		keys = append(keys, d.uniq)
	}
	return s.Table(d.table, keys, d.cols...)
}

func (d desc[T]) col(name string) int {
	for i := range d.cols {
		if d.cols[i].Name == name {
			return i
		}
	}
	panic(name)
}

func (d desc[T]) isKey(i int) bool {
	for _, k := range d.keys {
		if d.cols[i].Name == k {
			return true
		}
	}
	return false
}

func (d desc[T]) isRO(i int) bool {
	for _, k := range d.ro {
		if i == k {
			return true
		}
	}
	return false
}

func (d desc[T]) sameKey(a, b []any) bool {
	r := true
	for i := range d.cols {
		if d.isKey(i) {
			r = sym.And(r, eqVal(a[i], b[i]))
		}
	}
	return r
}

// valid asserts that the server has understood every statement.
func valid(s *symsql.Server) {
	if s.LastErr != nil {
		q := ""
		if len(s.Calls) > 0 {
			q = s.Calls[len(s.Calls)-1].Query
		}
		sym.Observe("refused", s.LastErr.Error(), q)
	}
	sym.Assert(s.LastErr == nil, "valid-statement")
}

// eqVal compares driver values without forking the path.
func eqVal(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && sym.EqStr(x, y)
	case []byte:
		y, ok := b.([]byte)
		return ok && sym.EqBytes(x, y)
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case symsql.Encoded:
		y, ok := b.(symsql.Encoded)
		return ok && x.Fn == y.Fn && eqVal(x.V, y.V)
	}
	return a == b
}

func eqRow(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, eqVal(a[i], b[i]))
	}
	return r
}

func eqRows(a, b [][]any) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, eqRow(a[i], b[i]))
	}
	return r
}

func c(name string) symsql.Col             { return symsql.Col{Name: name} }
func auto(name string) symsql.Col          { return symsql.Col{Name: name, Auto: true} }
func dflt(name string, v int64) symsql.Col { return symsql.Col{Name: name, Default: v} }
func text(n string, lo, hi int) string     { return sym.String(n, lo, hi) }
func rows(r ...[]any) [][]any              { return r }
func clone(r [][]any) [][]any              { return append([][]any(nil), r...) }
func failed(err error) bool                { return err != nil }
func notFound(err error) bool              { return errors.Is(err, sql.ErrNoRows) }
func injected(err error) bool              { return errors.Is(err, symsql.ErrFault) }
func with(r []any, i int, v any) []any     { q := append([]any(nil), r...); q[i] = v; return q }
func strPtr(n string) *string {
	if sym.Choose(n+"?", 2) == 0 {
		return nil
	}
	s := sym.String(n, 0, 1)
	return &s
}

func strVal(p *string) any {
	if p == nil {
		return nil
	}
	return *p
}

const roDefault = 4711

var dAuto = desc[model.Auto]{
	table: "auto", cols: []symsql.Col{auto("id"), c("name"), c("age"), c("note")}, keys: []string{"id"},
	row: func(m model.Auto) []any { return []any{m.ID, m.Name, int64(m.Age), strVal(m.Note)} },
	arb: func(n string) model.Auto {
		return model.Auto{ID: sym.Int64(n + "id"), Name: text(n+"name", 0, 1), Age: sym.Uint8(n + "age"), Note: strPtr(n + "note")}
	},
	put: func(m *model.Auto, v int64) { m.ID = v },
}

var dAutoLast = desc[model.AutoLast]{
	table: "auto_last", cols: []symsql.Col{c("name"), c("the_code"), auto("seq")}, keys: []string{"seq"}, auto: 2,
	row: func(m model.AutoLast) []any { return []any{m.Name, m.Code, int64(m.Seq)} },
	arb: func(n string) model.AutoLast {
		return model.AutoLast{Name: text(n+"name", 0, 1), Code: text(n+"code", 1, 1), Seq: sym.Uint32(n + "seq")}
	},
	put: func(m *model.AutoLast, v int64) { m.Seq = uint32(v) },
}

var dNat = desc[model.Nat]{
	table: "nat", cols: []symsql.Col{c("label"), c("code"), c("qty"), c("opt")}, keys: []string{"code"}, auto: -1,
	row: func(m model.Nat) []any {
		var opt any
		if m.Opt != nil {
			opt = *m.Opt
		}
		return []any{m.Label, m.Code, int64(m.Qty), opt}
	},
	arb: func(n string) model.Nat {
		m := model.Nat{Label: text(n+"label", 0, 1), Code: text(n+"code", 1, 2), Qty: sym.Int32(n + "qty")}
		if sym.Choose(n+"opt?", 2) == 1 {
			v := sym.Int64(n + "opt")
			m.Opt = &v
		}
		return m
	},
}

var dComp = desc[model.Comp]{
	table: "comp", cols: []symsql.Col{c("a"), c("shop"), c("b"), c("k_two"), c("flag")}, keys: []string{"shop", "k_two"}, auto: -1,
	row: func(m model.Comp) []any { return []any{m.A, m.Shop, m.B, m.Num, m.Flag} },
	arb: func(n string) model.Comp {
		return model.Comp{A: text(n+"a", 0, 1), Shop: text(n+"shop", 1, 1), B: sym.Int64(n + "b"), Num: sym.Int64(n + "num"), Flag: sym.Bool(n + "flag")}
	},
}

var dRO = desc[model.RO]{
	table: "ro", cols: []symsql.Col{c("name"), c("id"), dflt("stamp", roDefault), c("val")}, keys: []string{"id"}, auto: -1, ro: []int{2},
	row: func(m model.RO) []any { return []any{m.Name, m.ID, m.Stamp, m.Val} },
	arb: func(n string) model.RO {
		return model.RO{Name: text(n+"name", 0, 1), ID: sym.Int64(n + "id"), Stamp: sym.Int64(n + "stamp"), Val: sym.Int64(n + "val")}
	},
	stamp: func(m *model.RO, v int64) { m.Stamp = v },
}

var dAutoRO = desc[model.AutoRO]{
	table: "auto_ro", cols: []symsql.Col{dflt("stamp", roDefault), auto("id"), c("name"), c("val")}, keys: []string{"id"}, auto: 1, ro: []int{0},
	row: func(m model.AutoRO) []any { return []any{m.Stamp, m.ID, m.Name, m.Val} },
	arb: func(n string) model.AutoRO {
		return model.AutoRO{Stamp: sym.Int64(n + "stamp"), ID: sym.Int64(n + "id"), Name: text(n+"name", 0, 1), Val: sym.Int64(n + "val")}
	},
	put:   func(m *model.AutoRO, v int64) { m.ID = v },
	stamp: func(m *model.AutoRO, v int64) { m.Stamp = v },
}

var dPlain = desc[model.Plain]{
	table: "plain", cols: []symsql.Col{c("a"), c("b")}, auto: -1,
	row: func(m model.Plain) []any { return []any{m.A, m.B} },
	arb: func(n string) model.Plain { return model.Plain{A: sym.Int64(n + "a"), B: text(n+"b", 0, 2)} },
}

var dNamed = desc[model.Named]{
	table: "the_names", cols: []symsql.Col{c("id"), c("val")}, keys: []string{"id"}, auto: -1,
	row: func(m model.Named) []any { return []any{m.ID, m.Val} },
	arb: func(n string) model.Named { return model.Named{ID: sym.Int64(n + "id"), Val: text(n+"val", 0, 2)} },
}

var dOnly = desc[model.Only]{
	table: "only", cols: []symsql.Col{c("id")}, keys: []string{"id"}, auto: -1,
	row: func(m model.Only) []any { return []any{m.ID} },
	arb: func(n string) model.Only { return model.Only{ID: sym.Int64(n + "id")} },
}

var dOnlyPair = desc[model.OnlyPair]{
	table: "only_pair", cols: []symsql.Col{c("l"), c("r")}, keys: []string{"l", "r"}, auto: -1,
	row: func(m model.OnlyPair) []any { return []any{m.L, m.R} },
	arb: func(n string) model.OnlyPair { return model.OnlyPair{L: sym.Int64(n + "l"), R: text(n+"r", 1, 1)} },
}

var dUniq = desc[model.Uniq]{
	table: "uniq", cols: []symsql.Col{auto("id"), c("email"), c("visits"), c("born"), dflt("stamp", roDefault)}, keys: []string{"id"}, ro: []int{4},
	uniq: []string{"email"}, kept: []int{3},
	row: func(m model.Uniq) []any { return []any{m.ID, m.Email, m.Visits, m.Born, m.Stamp} },
	arb: func(n string) model.Uniq {
		return model.Uniq{ID: sym.Int64(n + "id"), Email: text(n+"email", 1, 1), Visits: sym.Int64(n + "visits"), Born: sym.Int64(n + "born"), Stamp: sym.Int64(n + "stamp")}
	},
	put:   func(m *model.Uniq, v int64) { m.ID = v },
	stamp: func(m *model.Uniq, v int64) { m.Stamp = v },
}
