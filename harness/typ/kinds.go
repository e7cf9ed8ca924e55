package main

import (
	"database/sql"
	"encoding/json"
	"time"

	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

func cols(n int) []string {
	return []string{"a", "b", "c", "d", "e", "f", "g", "h"}[:n]
}

var kWords = kind[model.Words]{"words", cols(5), func(n string) func(int64) model.Words {
	a, b, c, d, e := text(n+"a", 0, 1), text(n+"b", 0, 2), text(n+"c", 0, 1), text(n+"d", 0, 1), text(n+"e", 1, 1)
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Words {
		return model.Words{ID: id, A: a, B: model.Text(b), C: ptr(c, set), D: ptr(model.Text(d), set), E: e}
	}
}, func(x, y model.Words) bool {
	return all(x.ID == y.ID, eqStr(x.A, y.A), eqStr(x.B, y.B), sameBy(x.C, y.C, eqStr[string]), sameBy(x.D, y.D, eqStr[model.Text]), eqStr(x.E, y.E))
}, func(m *model.Words, id int64) { m.ID = id }}

var kFlags = kind[model.Flags]{"flags", cols(4), func(n string) func(int64) model.Flags {
	a, b, c, d := sym.Bool(n+"a"), sym.Bool(n+"b"), sym.Bool(n+"c"), sym.Bool(n+"d")
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Flags {
		return model.Flags{ID: id, A: a, B: model.Flag(b), C: ptr(c, set), D: ptr(model.Flag(d), set)}
	}
}, func(x, y model.Flags) bool {
	return all(x.ID == y.ID, x.A == y.A, x.B == y.B, same(x.C, y.C), same(x.D, y.D))
}, func(m *model.Flags, id int64) { m.ID = id }}

var kInts = kind[model.Ints]{"ints", cols(6), func(n string) func(int64) model.Ints {
	m := model.Ints{A: sym.Int(n + "a"), B: sym.Int8(n + "b"), C: sym.Int16(n + "c"), D: sym.Int32(n + "d"), E: sym.Int64(n + "e"), F: model.Small(sym.Int8(n + "f"))}
	return func(id int64) model.Ints { m.ID = id; return m }
}, func(x, y model.Ints) bool {
	return all(x.ID == y.ID, x.A == y.A, x.B == y.B, x.C == y.C, x.D == y.D, x.E == y.E, x.F == y.F)
}, func(m *model.Ints, id int64) { m.ID = id }}

// half keeps numbers out of the upper half, which the database has no type for.
const half = 1<<63 - 1

var kUints = kind[model.Uints]{"uints", cols(6), func(n string) func(int64) model.Uints {
	m := model.Uints{A: uint(sym.Uint64(n + "a")), B: sym.Uint8(n + "b"), C: sym.Uint16(n + "c"), D: sym.Uint32(n + "d"), E: sym.Uint64(n + "e"), F: model.Big(sym.Uint32(n + "f"))}
	sym.Assume(sym.And(m.A <= half, m.E <= half))
	return func(id int64) model.Uints { m.ID = id; return m }
}, func(x, y model.Uints) bool {
	return all(x.ID == y.ID, x.A == y.A, x.B == y.B, x.C == y.C, x.D == y.D, x.E == y.E, x.F == y.F)
}, func(m *model.Uints, id int64) { m.ID = id }}

var kIntPtrs = kind[model.IntPtrs]{"int_ptrs", cols(6), func(n string) func(int64) model.IntPtrs {
	m := model.Ints{A: sym.Int(n + "a"), B: sym.Int8(n + "b"), C: sym.Int16(n + "c"), D: sym.Int32(n + "d"), E: sym.Int64(n + "e"), F: model.Small(sym.Int8(n + "f"))}
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.IntPtrs {
		return model.IntPtrs{ID: id, A: ptr(m.A, set), B: ptr(m.B, set), C: ptr(m.C, set), D: ptr(m.D, set), E: ptr(m.E, set), F: ptr(m.F, set)}
	}
}, func(x, y model.IntPtrs) bool {
	return all(x.ID == y.ID, same(x.A, y.A), same(x.B, y.B), same(x.C, y.C), same(x.D, y.D), same(x.E, y.E), same(x.F, y.F))
}, func(m *model.IntPtrs, id int64) { m.ID = id }}

var kUintPtrs = kind[model.UintPtrs]{"uint_ptrs", cols(6), func(n string) func(int64) model.UintPtrs {
	m := model.Uints{A: uint(sym.Uint64(n + "a")), B: sym.Uint8(n + "b"), C: sym.Uint16(n + "c"), D: sym.Uint32(n + "d"), E: sym.Uint64(n + "e"), F: model.Big(sym.Uint32(n + "f"))}
	sym.Assume(sym.And(m.A <= half, m.E <= half))
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.UintPtrs {
		return model.UintPtrs{ID: id, A: ptr(m.A, set), B: ptr(m.B, set), C: ptr(m.C, set), D: ptr(m.D, set), E: ptr(m.E, set), F: ptr(m.F, set)}
	}
}, func(x, y model.UintPtrs) bool {
	return all(x.ID == y.ID, same(x.A, y.A), same(x.B, y.B), same(x.C, y.C), same(x.D, y.D), same(x.E, y.E), same(x.F, y.F))
}, func(m *model.UintPtrs, id int64) { m.ID = id }}

var kFloats = kind[model.Floats]{"floats", cols(5), func(n string) func(int64) model.Floats {
	a, b, c, d, e := f32(n+"a"), f64(n+"b"), f32(n+"c"), f32(n+"d"), f64(n+"e")
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Floats {
		return model.Floats{ID: id, A: a, B: b, C: model.Real(c), D: ptr(d, set), E: ptr(e, set)}
	}
}, func(x, y model.Floats) bool {
	return all(x.ID == y.ID, eqF32(x.A, y.A), eqF64(x.B, y.B), eqF32(x.C, y.C), sameBy(x.D, y.D, eqF32[float32]), sameBy(x.E, y.E, eqF64))
}, func(m *model.Floats, id int64) { m.ID = id }}

var kChar = kind[model.Char]{"char", cols(1), func(n string) func(int64) model.Char {
	a := rune(sym.Range(n+"a", 'a', 'z'))
	return func(id int64) model.Char { return model.Char{ID: id, A: a} }
}, func(x, y model.Char) bool { return all(x.ID == y.ID, x.A == y.A) }, func(m *model.Char, id int64) { m.ID = id }}

var kByte = kind[model.Byte]{"byte", cols(2), func(n string) func(int64) model.Byte {
	a, b := sym.Uint8(n+"a"), sym.Uint8(n+"b")
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Byte { return model.Byte{ID: id, A: a, B: ptr(b, set)} }
}, func(x, y model.Byte) bool { return all(x.ID == y.ID, x.A == y.A, same(x.B, y.B)) }, func(m *model.Byte, id int64) { m.ID = id }}

func instant(n string) time.Time { return time.Unix(int64(sym.Uint32(n)), 0).UTC() }

var kTimes = kind[model.Times]{"times", cols(2), func(n string) func(int64) model.Times {
	a, b := instant(n+"a"), instant(n+"b")
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Times { return model.Times{ID: id, A: a, B: ptr(b, set)} }
}, func(x, y model.Times) bool {
	return all(x.ID == y.ID, x.A.Equal(y.A), sameBy(x.B, y.B, time.Time.Equal))
}, func(m *model.Times, id int64) { m.ID = id }}

var kBlobs = kind[model.Blobs]{"blobs", cols(3), func(n string) func(int64) model.Blobs {
	a, b, c := text(n+"a", 0, 2), text(n+"b", 1, 1), text(n+"c", 0, 1)
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Blobs {
		return model.Blobs{ID: id, A: []byte(a), B: json.RawMessage(b), C: ptr([]byte(c), set)}
	}
}, func(x, y model.Blobs) bool {
	return all(x.ID == y.ID, sym.EqBytes(x.A, y.A), sym.EqBytes(x.B, y.B), sameBy(x.C, y.C, func(a, b []byte) bool { return sym.EqBytes(a, b) }))
}, func(m *model.Blobs, id int64) { m.ID = id }}

var kRaw = kind[model.Raw]{"raw", cols(1), func(n string) func(int64) model.Raw {
	a := text(n+"a", 1, 2)
	return func(id int64) model.Raw { return model.Raw{ID: id, A: sql.RawBytes(a)} }
}, func(x, y model.Raw) bool { return all(x.ID == y.ID, sym.EqBytes(x.A, y.A)) }, func(m *model.Raw, id int64) { m.ID = id }}

var kFixed = kind[model.Fixed]{"fixed", cols(2), func(n string) func(int64) model.Fixed {
	var m model.Fixed
	b := sym.Bytes(n+"a", 4, 4)
	for i := range m.A {
		m.A[i] = b[i]
	}
	m.B[0], m.B[1] = rune(sym.Range(n+"r0", 'A', 'Z')), []rune{'x', 'é', '世', '😀'}[sym.Choose(n+"r1", 4)]
	return func(id int64) model.Fixed { m.ID = id; return m }
}, func(x, y model.Fixed) bool { return all(x.ID == y.ID, x.A == y.A, x.B == y.B) }, func(m *model.Fixed, id int64) { m.ID = id }}

var kNulls = kind[model.Nulls]{"nulls", cols(6), func(n string) func(int64) model.Nulls {
	set := sym.Choose(n+"set", 2) == 1
	var m model.Nulls
	if set {
		m = model.Nulls{
			A: sql.NullString{String: text(n+"a", 0, 1), Valid: true}, B: sql.NullInt64{Int64: sym.Int64(n + "b"), Valid: true}, C: sql.NullBool{Bool: sym.Bool(n + "c"), Valid: true},
			D: sql.NullFloat64{Float64: f64(n + "d"), Valid: true}, E: sql.NullTime{Time: instant(n + "e"), Valid: true}, F: sql.NullInt32{Int32: sym.Int32(n + "f"), Valid: true},
		}
	}
	return func(id int64) model.Nulls { m.ID = id; return m }
}, func(x, y model.Nulls) bool {
	return all(x.ID == y.ID, x.A.Valid == y.A.Valid, eqStr(x.A.String, y.A.String), x.B == y.B, x.C == y.C, x.D.Valid == y.D.Valid, eqF64(x.D.Float64, y.D.Float64),
		x.E.Valid == y.E.Valid, x.E.Time.Equal(y.E.Time), x.F == y.F)
}, func(m *model.Nulls, id int64) { m.ID = id }}

var kOwn = kind[model.Own]{"own", cols(6), func(n string) func(int64) model.Own {
	a, b := model.Level(sym.Range(n+"a", 1, 2)), model.Level(sym.Range(n+"b", 1, 2))
	c, d := model.Cents(sym.Int64(n+"c")), model.Cents(sym.Int64(n+"d"))
	e, f := model.Pair{sym.Uint8(n + "e1"), sym.Uint8(n + "e2")}, model.Pair{sym.Uint8(n + "f1"), sym.Uint8(n + "f2")}
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Own {
		return model.Own{ID: id, A: a, B: ptr(b, set), C: c, D: ptr(d, set), E: e, F: ptr(f, set)}
	}
}, func(x, y model.Own) bool {
	return all(x.ID == y.ID, x.A == y.A, same(x.B, y.B), x.C == y.C, same(x.D, y.D), x.E == y.E, same(x.F, y.F))
}, func(m *model.Own, id int64) { m.ID = id }}

func some[V any](n string, make func(n string) V) []V {
	k := sym.Choose(n, 3)
	var r []V
	for i := 0; i < k; i++ {
		r = append(r, make(n+string(rune('0'+i))))
	}
	return r
}

func digit(n string) int { return sym.Range(n, 0, 9) }

func one[V any](k, i int, n string, make func(n string) V) []V {
	if k != i {
		return nil
	}
	return some(n, make)
}

func num[N int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | model.Small](n string) N {
	return N(digit(n))
}

func letter[S ~string](n string) S { return S(text(n, 1, 1)) }

var halves = []float64{0, 0.5, -1.5, 1e10}

var kLists = kind[model.Lists]{"lists", cols(6), func(n string) func(int64) model.Lists {
	k := sym.Choose(n+"field", 6)
	a, b, c := one(k, 0, n+"a", letter[string]), one(k, 1, n+"b", sym.Bool), one(k, 2, n+"c", num[int])
	d, e := one(k, 3, n+"d", num[int64]), one(k, 4, n+"e", num[uint8])
	f := one(k, 5, n+"f", func(n string) float64 { return halves[sym.Choose(n, 4)] })
	return func(id int64) model.Lists {
		return model.Lists{ID: id, A: cp(a), B: cp(b), C: cp(c), D: cp(d), E: cp(e), F: cp(f)}
	}
}, func(x, y model.Lists) bool {
	return all(x.ID == y.ID, lists(x.A, y.A, eqStr[string]), lists(x.B, y.B, is[bool]), lists(x.C, y.C, is[int]), lists(x.D, y.D, is[int64]), lists(x.E, y.E, is[uint8]), lists(x.F, y.F, eqF64))
}, func(m *model.Lists, id int64) { m.ID = id }}

func cp[V any](v []V) []V { return append([]V(nil), v...) }

var kLists2 = kind[model.Lists2]{"lists_2", cols(6), func(n string) func(int64) model.Lists2 {
	k := sym.Choose(n+"field", 6)
	a, b, c := one(k, 0, n+"a", num[int8]), one(k, 1, n+"b", num[int16]), one(k, 2, n+"c", num[int32])
	d, e, f := one(k, 3, n+"d", num[uint]), one(k, 4, n+"e", num[uint16]), one(k, 5, n+"f", num[uint32])
	return func(id int64) model.Lists2 {
		return model.Lists2{ID: id, A: cp(a), B: cp(b), C: cp(c), D: cp(d), E: cp(e), F: cp(f)}
	}
}, func(x, y model.Lists2) bool {
	return all(x.ID == y.ID, lists(x.A, y.A, is[int8]), lists(x.B, y.B, is[int16]), lists(x.C, y.C, is[int32]), lists(x.D, y.D, is[uint]), lists(x.E, y.E, is[uint16]), lists(x.F, y.F, is[uint32]))
}, func(m *model.Lists2, id int64) { m.ID = id }}

var kLists3 = kind[model.Lists3]{"lists_3", cols(4), func(n string) func(int64) model.Lists3 {
	k := sym.Choose(n+"field", 4)
	a, c, d := one(k, 0, n+"a", num[uint64]), one(k, 2, n+"c", letter[model.Text]), one(k, 3, n+"d", num[model.Small])
	b := one(k, 1, n+"b", func(n string) float32 { return float32(halves[sym.Choose(n, 4)]) })
	return func(id int64) model.Lists3 {
		return model.Lists3{ID: id, A: cp(a), B: cp(b), C: cp(c), D: cp(d)}
	}
}, func(x, y model.Lists3) bool {
	return all(x.ID == y.ID, lists(x.A, y.A, is[uint64]), lists(x.B, y.B, eqF32[float32]), lists(x.C, y.C, eqStr[model.Text]), lists(x.D, y.D, is[model.Small]))
}, func(m *model.Lists3, id int64) { m.ID = id }}

var kPlaced = kind[model.Placed]{"placed", []string{"town", "code", "note"}, func(n string) func(int64) model.Placed {
	town, code, note := text(n+"town", 0, 1), sym.Int64(n+"code"), text(n+"note", 0, 1)
	set := sym.Choose(n+"set", 2) == 1
	return func(id int64) model.Placed {
		return model.Placed{ID: id, Place: &model.Place{Town: ptr(town, set), Code: code}, Note: ptr(note, set)}
	}
}, func(x, y model.Placed) bool {
	return all(x.ID == y.ID, sameBy(x.Place, y.Place, func(a, b model.Place) bool {
		return all(sameBy(a.Town, b.Town, eqStr[string]), a.Code == b.Code)
	}), sameBy(x.Note, y.Note, eqStr[string]))
}, func(m *model.Placed, id int64) { m.ID = id }}

var kNamed = kind[model.Named]{"named", cols(8), func(n string) func(int64) model.Named {
	var m model.Named
	b := sym.Bytes(n+"a", 4, 4)
	for i := range m.A {
		m.A[i] = b[i]
	}
	m.B[0], m.B[1] = rune(sym.Range(n+"r0", 'A', 'Z')), []rune{'x', 'é', '世', '😀'}[sym.Choose(n+"r1", 4)]
	l := sym.Choose(n+"len", 2)
	c, d := text(n+"c", l, l), text(n+"d", l, l)
	m.G = text(n+"g", l, l)
	set := sym.Choose(n+"set", 2) == 1
	m.E = instant(n + "e")
	f, h := instant(n+"f"), text(n+"h", l, l)
	return func(id int64) model.Named {
		m.ID = id
		m.C, m.D = model.Blob(c), ptr(model.Blob(d), set)
		m.F, m.H = ptr(f, set), ptr(h, set)
		return m
	}
}, func(x, y model.Named) bool {
	return all(x.ID == y.ID, x.A == y.A, x.B == y.B, sym.EqBytes(x.C, y.C), sameBy(x.D, y.D, func(a, b model.Blob) bool { return sym.EqBytes(a, b) }),
		x.E.Equal(y.E), sameBy(x.F, y.F, func(a, b model.Moment) bool { return a.Equal(b) }), eqStr(x.G, y.G), sameBy(x.H, y.H, eqStr[string]))
}, func(m *model.Named, id int64) { m.ID = id }}

var kLists4 = kind[model.Lists4]{"lists_4", cols(4), func(n string) func(int64) model.Lists4 {
	k := sym.Choose(n+"field", 4)
	a, b, c, d := one(k, 0, n+"a", letter[string]), one(k, 1, n+"b", num[int32]), one(k, 2, n+"c", sym.Bool), one(k, 3, n+"d", letter[model.Text])
	return func(id int64) model.Lists4 {
		return model.Lists4{ID: id, A: cp(a), B: cp(b), C: cp(c), D: cp(d)}
	}
}, func(x, y model.Lists4) bool {
	return all(x.ID == y.ID, lists(x.A, y.A, eqStr[string]), lists(x.B, y.B, is[int32]), lists(x.C, y.C, is[bool]), lists(x.D, y.D, eqStr[model.Text]))
}, func(m *model.Lists4, id int64) { m.ID = id }}
