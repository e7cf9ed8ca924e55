package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

// fill puts n rows with different keys into the table.
func (d desc[T]) fill(t *symsql.Table, n int) {
	for i := 0; i < n; i++ {
		r := d.row(d.arb("row" + strconv.Itoa(i) + "."))
		for _, q := range t.Rows {
			sym.Assume(!d.sameKey(q, r))
		}
		t.Rows = append(t.Rows, r)
	}
}

const (
	modePlain   = iota
	modeFault   // the statement fails
	modeBytes   // text comes as bytes
	modeRowFail // the result set breaks off
	modeLock
)

// mode chooses among the first n variations.
func mode(s *symsql.Server, n int) int {
	m := sym.Choose("mode", n)
	switch m {
	case modeFault:
		s.FailAt = 0
	case modeBytes:
		s.Bytes = true
	case modeRowFail:
		s.RowErr = 0
	}
	return m
}

func updateOf[T sequel.KeyValuer](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, sym.Choose("n", sym.B(3, 4)))
	m := d.arb("")
	want := clone(t.Rows)
	hits := 0
	for i, r := range want {
		if !sym.FixBool(d.sameKey(r, d.row(m))) {
			continue
		}
		hits++
		for k, v := range d.row(m) {
			if !d.isKey(k) && !d.isRO(k) {
				r = with(r, k, v)
			}
		}
		want[i] = r
	}
	before := clone(t.Rows)
	broken := mode(s, 2) == modeFault
	res, err := db.UpdateByPK(ctx, s.DB(), m)
	if broken && len(s.Calls) > 0 {
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		return
	}
	valid(s)
	sym.Assert(err == nil, "update-succeeds")
	sym.Assert(eqRows(t.Rows, want), "only-the-record-with-that-key")
	if err == nil {
		n, err := res.RowsAffected()
		sym.Assert(err == nil && (n == int64(hits) || len(d.keys) == len(d.cols) && n == 0), "rows-affected")
	}
	sym.Cover("updated-" + strconv.Itoa(hits))
}

func C02_Auto()     { updateOf(dAuto) }
func C02_AutoLast() { updateOf(dAutoLast) }
func C02_Nat()      { updateOf(dNat) }
func C02_Comp()     { updateOf(dComp) }
func C02_RO()       { updateOf(dRO) }
func C02_AutoRO()   { updateOf(dAutoRO) }
func C02_Named()    { updateOf(dNamed) }
func C02_Only()     { updateOf(dOnly) }
func C02_OnlyPair() { updateOf(dOnlyPair) }
func C02_HandPK()   { updateOf(dHandPK) }
func C02_HandComp() { updateOf(dHandComp) }
func C02_HandLast() { updateOf(dHandLast) }

func findOf[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, sym.Choose("n", sym.B(3, 4)))
	m := d.arb("")
	asked := d.row(m)
	var want []any
	for _, r := range t.Rows {
		if sym.FixBool(d.sameKey(r, asked)) {
			want = r
		}
	}
	before := clone(t.Rows)
	modes := modeLock + len(locks)
	if d.noLock {
		modes = modeLock
	}
	how := mode(s, modes)
	broken := how == modeFault || how == modeRowFail
	var err error
	if how >= modeLock {
		err = db.LockByPK[T, P](ctx, s.Tx(), P(&m), locks[how-modeLock])
	} else {
		err = db.FindByPK[T, P](ctx, s.DB(), P(&m))
	}
	sym.Assert(eqRows(t.Rows, before), "table-unchanged")
	if broken {
		sym.Assert(injected(err), "error-surfaced")
	} else if valid(s); want == nil {
		sym.Assert(notFound(err), "no-rows-reported")
		sym.Assert(d.sameKey(d.row(m), asked), "key-unchanged")
		sym.Cover("absent")
	} else {
		sym.Assert(err == nil, "find-succeeds")
		sym.Assert(eqRow(d.row(m), want), "record-with-that-key")
		sym.Cover("found")
	}
	sym.Assert(s.Open == 0, "result-set-closed")
}

func C03_Find_Auto()     { findOf(dAuto) }
func C03_Find_AutoLast() { findOf(dAutoLast) }
func C03_Find_Nat()      { findOf(dNat) }
func C03_Find_Comp()     { findOf(dComp) }
func C03_Find_RO()       { findOf(dRO) }
func C03_Find_Named()    { findOf(dNamed) }
func C03_Find_Only()     { findOf(dOnly) }
func C03_Find_OnlyPair() { findOf(dOnlyPair) }
func C03_Find_HandPK()   { findOf(dHandPK) }
func C03_Find_HandComp() { findOf(dHandComp) }
func C03_Find_HandLast() { findOf(dHandLast) }

func deleteOf[T sequel.KeyValuer](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, sym.Choose("n", sym.B(3, 4)))
	m := d.arb("")
	before := clone(t.Rows)
	var want [][]any
	for _, r := range t.Rows {
		if !sym.FixBool(d.sameKey(r, d.row(m))) {
			want = append(want, r)
		}
	}
	broken := mode(s, 2) == modeFault
	res, err := db.DeleteByPK(ctx, s.DB(), m)
	if broken {
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		return
	}
	valid(s)
	sym.Assert(err == nil, "delete-succeeds")
	sym.Assert(eqRows(t.Rows, want), "only-the-record-with-that-key")
	if err == nil {
		n, err := res.RowsAffected()
		sym.Assert(err == nil && n == int64(len(before)-len(want)), "rows-affected")
	}
	sym.Cover("deleted-" + strconv.Itoa(len(before)-len(want)))
}

func C03_Delete_Auto()     { deleteOf(dAuto) }
func C03_Delete_AutoLast() { deleteOf(dAutoLast) }
func C03_Delete_Nat()      { deleteOf(dNat) }
func C03_Delete_Comp()     { deleteOf(dComp) }
func C03_Delete_RO()       { deleteOf(dRO) }
func C03_Delete_Named()    { deleteOf(dNamed) }
func C03_Delete_Only()     { deleteOf(dOnly) }
func C03_Delete_OnlyPair() { deleteOf(dOnlyPair) }
func C03_Delete_HandPK()   { deleteOf(dHandPK) }
func C03_Delete_HandComp() { deleteOf(dHandComp) }
func C03_Delete_HandLast() { deleteOf(dHandLast) }
