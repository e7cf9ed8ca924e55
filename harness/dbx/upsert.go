package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

type upserted interface {
	sequel.Keyer
	sequel.Inserter
}

const (
	rowAdded = iota
	rowChanged
	rowIgnored
	rowRefused
)

// upsert says what storing m in rows should do, and to which row.
func (d desc[T]) upsert(rows [][]any, m T, next int64, override bool, omit []string) ([][]any, int, int) {
	r := d.stored(m, next)
	for i, old := range rows {
		hit := false
		if d.uniq != nil {
			k := d.col(d.uniq[0])
			hit = sym.FixBool(eqVal(old[k], r[k]))
		} else if d.auto < 0 {
			hit = sym.FixBool(d.sameKey(old, r))
		}
		switch {
		case !hit:
			continue
		case !override:
			return rows, rowIgnored, i
		case d.uniq != nil && dialect == symsql.SQLite:
			return rows, rowRefused, i
		}
		n := append([]any(nil), old...)
		for k := range d.cols {
			keep := d.isKey(k) || d.isRO(k)
			for _, o := range omit {
				keep = keep || d.cols[k].Name == o
			}
			if dialect == symsql.Postgres {
				for _, o := range d.kept {
					keep = keep || o == k
				}
			}
			if !keep {
				n[k] = r[k]
			}
		}
		rows = clone(rows)
		rows[i] = n
		return rows, rowChanged, i
	}
	if d.uniq != nil && d.auto < 0 {
		for i, old := range rows {
			if sym.FixBool(d.sameKey(old, r)) {
				return rows, rowRefused, i
			}
		}
	}
	return append(clone(rows), r), rowAdded, len(rows)
}

// omits chooses the columns an upsert leaves as they are.
func (d desc[T]) omits() (plain, quoted []string) {
	switch k := sym.Choose("omit", 3); {
	case k == 1:
		plain = []string{d.cols[len(d.cols)-1].Name}
	case k == 2:
		for _, c := range d.cols {
			plain = append(plain, c.Name)
		}
	}
	for _, n := range plain {
		if !d.plain {
			n = ident(n)
		}
		quoted = append(quoted, n)
	}
	return
}

func (d desc[T]) fillUniq(t *symsql.Table, n int) {
	for i := 0; i < n; i++ {
		r := d.row(d.arb("row" + strconv.Itoa(i) + "."))
		if d.auto >= 0 {
			r[d.auto] = t.Next
			t.Next++
		}
		for _, q := range t.Rows {
			if d.auto < 0 {
				sym.Assume(!d.sameKey(q, r))
			}
			if d.uniq != nil {
				sym.Assume(!eqVal(q[d.col(d.uniq[0])], r[d.col(d.uniq[0])]))
			}
		}
		t.Rows = append(t.Rows, r)
	}
}

// kept0 tells whether a is b, but for pointers that were nil and may point to zero values.
func (d desc[T]) kept0(a, b []any) bool {
	r := true
	for i := range b {
		if b[i] != nil {
			r = sym.And(r, eqVal(a[i], b[i]))
		}
	}
	return r
}

func upsertOneOf[T sequel.KeyValuer, P ptrOf[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fillUniq(t, sym.Choose("n", sym.B(2, 3)))
	m := d.arb("")
	sent := m
	override := sym.Choose("override", 2) == 1
	var omit, quoted []string
	if override {
		omit, quoted = d.omits()
	}
	before, next := clone(t.Rows), t.Next
	want, did, at := d.upsert(before, m, next, override, omit)
	if sym.Choose("fault", 2) == 1 {
		s.FailAt = 0
	}
	err := upsertOne[T, P](s.DB(), P(&m), override, quoted)
	sym.Assert(s.Open == 0, "result-set-closed")
	if s.FailAt == 0 {
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		return
	}
	if did == rowRefused {
		sym.Assert(failed(err), "other-duplicate-refused")
		sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		return
	}
	valid(s)
	sym.Assert(eqRows(t.Rows, want), "stored-or-updated-exactly")
	sym.Assert(err == nil || did == rowIgnored && returning && notFound(err), "upsert-succeeds")
	switch {
	case did == rowIgnored:
		sym.Assert(d.kept0(d.row(m), d.row(sent)), "ignored-record-unchanged")
		sym.Cover("ignored")
	case returning:
		sym.Assert(eqRow(d.row(m), want[at]), "record-as-stored")
	case d.auto >= 0:
		sym.Assert(eqRow(d.row(m), with(d.row(sent), d.auto, want[at][d.auto])), "key-of-the-record")
	default:
		sym.Assert(eqRow(d.row(m), d.row(sent)), "record-unchanged")
	}
	if did == rowChanged {
		sym.Cover("changed")
	} else {
		sym.Cover("added")
	}
}

func C04_One_Auto()     { upsertOneOf(dAuto) }
func C04_One_AutoLast() { upsertOneOf(dAutoLast) }
func C04_One_Nat()      { upsertOneOf(dNat) }
func C04_One_Comp()     { upsertOneOf(dComp) }
func C04_One_RO()       { upsertOneOf(dRO) }
func C04_One_AutoRO()   { upsertOneOf(dAutoRO) }
func C04_One_Named()    { upsertOneOf(dNamed) }
func C04_One_Only()     { upsertOneOf(dOnly) }
func C04_One_OnlyPair() { upsertOneOf(dOnlyPair) }
func C04_One_Uniq()     { upsertOneOf(dUniq) }
func C04_One_HandPK()   { upsertOneOf(dHandPK) }
func C04_One_HandComp() { upsertOneOf(dHandComp) }
func C04_One_HandLast() { upsertOneOf(dHandLast) }

func upsertManyOf[T upserted, P sequel.PtrScanner[T]](d desc[T]) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fillUniq(t, sym.Choose("n", 2))
	k := sym.Choose("k", sym.B(3, 4))
	override := sym.Choose("override", 2) == 1
	var omit, quoted []string
	if override {
		omit, quoted = d.omits()
	}
	before := clone(t.Rows)
	want := before
	data := make([]T, k)
	at := make([]int, k)
	var ignored, refused, stored bool
	for i := range data {
		data[i] = d.arb(strconv.Itoa(i) + ".")
		var did int
		want, did, at[i] = d.upsert(want, data[i], t.Next+int64(i), override, omit)
		switch did {
		case rowIgnored:
			ignored = true
		case rowRefused:
			refused = true
		default:
			stored = true
			for _, j := range at[:i] {
				refused = refused || dialect == symsql.Postgres && j == at[i]
			}
		}
	}
	sent := append([]T(nil), data...)
	broken := false
	if sym.Choose("fault", 2) == 1 {
		s.FailAt = 0
		broken = k > 0
	} else if returning && stored && !refused && sym.Choose("rowfault", 2) == 1 {
		s.RowErr = 0
		broken = true
	}
	res, err := upsertMany[T, P](s.DB(), data, override, quoted)
	sym.Assert(s.Open == 0, "result-set-closed")
	if broken {
		sym.Assert(injected(err), "error-surfaced")
		if s.FailAt == 0 {
			sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		}
		return
	}
	if refused {
		sym.Assert(failed(err), "duplicate-refused")
		sym.Assert(eqRows(t.Rows, before), "nothing-changed-on-error")
		return
	}
	valid(s)
	sym.Assert(err == nil, "upsert-succeeds")
	sym.Assert(eqRows(t.Rows, want), "stored-or-updated-exactly")
	if returning && err == nil && !ignored {
		n, err := res.RowsAffected()
		sym.Assert(err == nil && n == int64(k), "rows-affected")
	}
	for i := range data {
		got, was := d.row(data[i]), d.row(sent[i])
		switch {
		case !returning:
			sym.Assert(eqRow(got, was), "record-unchanged")
		case !ignored:
			sym.Assert(eqRow(got, want[at[i]]), "record-as-stored")
		default:
			sym.Assert(sym.Or(eqRow(got, was), eqRow(got, want[at[i]])), "no-record-of-another")
		}
	}
	if ignored {
		sym.Cover("ignored")
	} else {
		sym.Cover("stored")
	}
}

func C04_Many_Auto()     { upsertManyOf(dAuto) }
func C04_Many_AutoLast() { upsertManyOf(dAutoLast) }
func C04_Many_Nat()      { upsertManyOf(dNat) }
func C04_Many_Comp()     { upsertManyOf(dComp) }
func C04_Many_RO()       { upsertManyOf(dRO) }
func C04_Many_AutoRO()   { upsertManyOf(dAutoRO) }
func C04_Many_Named()    { upsertManyOf(dNamed) }
func C04_Many_Only()     { upsertManyOf(dOnly) }
func C04_Many_OnlyPair() { upsertManyOf(dOnlyPair) }
func C04_Many_Uniq()     { upsertManyOf(dUniq) }
func C04_Many_HandPK()   { upsertManyOf(dHandPK) }
func C04_Many_HandComp() { upsertManyOf(dHandComp) }
func C04_Many_HandLast() { upsertManyOf(dHandLast) }
