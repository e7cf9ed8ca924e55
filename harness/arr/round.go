package main

import (
	"database/sql"
	"database/sql/driver"
	"strconv"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/zzverif/hlib"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

type (
	nInt8   int8
	nString string
	nBool   bool
)

// trip writes list, checks the literal with the reference parser, then reads it back
// into a destination that already holds something.
func trip[T comparable, S interface {
	~[]T
	driver.Valuer
}, P interface {
	*S
	sql.Scanner
}](list S, prior S, parse func(string) ([]hlib.Elem, bool), match func(T, hlib.Elem) bool) {
	v, err := list.Value()
	sym.Assert(err == nil, "writing a list failed")
	if err != nil {
		return
	}
	if list == nil {
		sym.Cover("nil list")
		sym.Assert(v == nil, "nil list is not written as NULL")
		dst := prior
		sym.Assert(P(&dst).Scan(nil) == nil, "reading NULL failed")
		sym.Assert(dst == nil, "NULL does not read back as a nil list")
		return
	}
	s, ok := v.(string)
	if !ok {
		if b, isB := v.([]byte); isB {
			s, ok = string(b), true
		}
	}
	sym.Assert(ok, "list literal is neither string nor bytes")
	if !ok {
		return
	}
	sym.Cover("list")
	el, good := parse(s)
	sym.Assert(good, "written list is not a well-formed literal")
	if good {
		sym.Assert(len(el) == len(list), "written list has another number of elements")
		if len(el) == len(list) {
			for i := range el {
				sym.Assert(match(list[i], el[i]), "written element denotes another value")
			}
		}
	}
	dst := prior
	var src any = s
	if sym.Choose("src", 2) == 1 {
		src = []byte(s)
	}
	err = P(&dst).Scan(src)
	sym.Observe("lit", s, err == nil)
	sym.Assert(err == nil, "written list cannot be read back")
	if err != nil {
		return
	}
	sym.Assert(len(dst) == len(list), "list read back has another length")
	if len(dst) == len(list) {
		for i := range dst {
			sym.Assert(dst[i] == list[i], "element changed in a write/read round trip")
		}
	}
}

// listOf is nil, empty or up to max symbolic elements.
func listOf[T any](mk func(string) T, max int) []T {
	n := sym.Choose("n", max+2)
	if n == 0 {
		return nil
	}
	out := make([]T, 0, n-1)
	for i := 1; i < n; i++ {
		out = append(out, mk("e"+string(rune('0'+i))))
	}
	return out
}

func priorOf[T any](x T) []T {
	switch sym.Choose("prior", 3) {
	case 0:
		return nil
	case 1:
		return []T{}
	}
	return []T{x, x, x}
}

type signed interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type unsigned interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func sEq[T signed](x T, e hlib.Elem) bool {
	n, err := strconv.ParseInt(e.S, 10, 64)
	return err == nil && !e.Null && n == int64(x)
}
func uEq[T unsigned](x T, e hlib.Elem) bool {
	n, err := strconv.ParseUint(e.S, 10, 64)
	return err == nil && !e.Null && n == uint64(x)
}
func bEq[T ~bool](x T, e hlib.Elem) bool {
	if x {
		return e.S == "true" || e.S == "t"
	}
	return e.S == "false" || e.S == "f"
}
func jbEq[T ~bool](x T, e hlib.Elem) bool {
	if x {
		return !e.Quoted && e.S == "true"
	}
	return !e.Quoted && e.S == "false"
}
func strEq[T ~string](x T, e hlib.Elem) bool {
	return !e.Null && e.S == string(x)
}
func qstrEq[T ~string](x T, e hlib.Elem) bool {
	return e.Quoted && e.S == string(x)
}
func fEq[T ~float32 | ~float64](x T, e hlib.Elem) bool {
	var z T
	bits := 64
	if any(z) == any(float32(0)) {
		bits = 32
	}
	f, err := strconv.ParseFloat(e.S, bits)
	return err == nil && T(f) == x
}

func str(n string) string { return sym.String(n, 0, sym.B(2, 3)) }
func finite(n string) float64 {
	f := sym.Float64(n)
	sym.Assume(sym.And(f == f, f <= 1.7976931348623157e308, f >= -1.7976931348623157e308))
	return f
}
func finite32(n string) float32 {
	f := sym.Float32(n)
	sym.Assume(sym.And(f == f, f <= 3.4028234e38, f >= -3.4028234e38))
	return f
}

// ---- PostgreSQL arrays ----

func P01_Int8() {
	trip(pgtype.Int8Array[int8](listOf(sym.Int8, 2)), priorOf(int8(7)), hlib.PgArray, sEq[int8])
}
func P01_NamedInt8() {
	trip(pgtype.Int8Array[nInt8](listOf(func(n string) nInt8 { return nInt8(sym.Int8(n)) }, 2)), priorOf(nInt8(7)), hlib.PgArray, sEq[nInt8])
}
func P01_Int16() {
	trip(pgtype.Int16Array[int16](listOf(sym.Int16, 2)), priorOf(int16(7)), hlib.PgArray, sEq[int16])
}
func P01_Int32() {
	trip(pgtype.Int32Array[int32](listOf(sym.Int32, 1)), priorOf(int32(7)), hlib.PgArray, sEq[int32])
}
func P01_Int64() {
	trip(pgtype.Int64Array[int64](listOf(sym.Int64, 1)), priorOf(int64(7)), hlib.PgArray, sEq[int64])
}
func P01_Int() {
	trip(pgtype.IntArray[int](listOf(sym.Int, 1)), priorOf(7), hlib.PgArray, sEq[int])
}
func P01_Uint8() {
	trip(pgtype.Uint8Array[uint8](listOf(sym.Uint8, 2)), priorOf(uint8(7)), hlib.PgArray, uEq[uint8])
}
func P01_Uint16() {
	trip(pgtype.Uint16Array[uint16](listOf(sym.Uint16, 2)), priorOf(uint16(7)), hlib.PgArray, uEq[uint16])
}
func P01_Uint32() {
	trip(pgtype.Uint32Array[uint32](listOf(sym.Uint32, 1)), priorOf(uint32(7)), hlib.PgArray, uEq[uint32])
}
func P01_Uint64() {
	trip(pgtype.Uint64Array[uint64](listOf(sym.Uint64, 1)), priorOf(uint64(7)), hlib.PgArray, uEq[uint64])
}
func P01_Uint() {
	trip(pgtype.UintArray[uint](listOf(sym.Uint, 1)), priorOf(uint(7)), hlib.PgArray, uEq[uint])
}
func P01_Bool() {
	trip(pgtype.BoolArray[bool](listOf(sym.Bool, 3)), priorOf(true), hlib.PgArray, bEq[bool])
}
func P01_NamedBool() {
	trip(pgtype.BoolArray[nBool](listOf(func(n string) nBool { return nBool(sym.Bool(n)) }, 3)), priorOf(nBool(true)), hlib.PgArray, bEq[nBool])
}
func P01_String() {
	trip(pgtype.StringArray[string](listOf(str, 2)), priorOf("old"), hlib.PgArray, strEq[string])
}
func P01_NamedString() {
	trip(pgtype.StringArray[nString](listOf(func(n string) nString { return nString(sym.String(n, 0, 4)) }, 1)), priorOf(nString("old")), hlib.PgArray, strEq[nString])
}
func P01_Float64() {
	trip(pgtype.Float64Array[float64](listOf(finite, 2)), priorOf(1.5), hlib.PgArray, fEq[float64])
}
func P01_Float32() {
	trip(pgtype.Float32Array[float32](listOf(finite32, 2)), priorOf(float32(1.5)), hlib.PgArray, fEq[float32])
}

func P01_Bytea() {
	n := sym.Choose("n", 4)
	var a pgtype.ByteaArray[[]byte]
	if n > 0 {
		a = pgtype.ByteaArray[[]byte]{}
		for i := 1; i < n; i++ {
			a = append(a, sym.Bytes("e"+string(rune('0'+i)), 0, sym.B(2, 4)))
		}
	}
	v, err := a.Value()
	sym.Assert(err == nil, "writing a list failed")
	dst := pgtype.ByteaArray[[]byte]{[]byte("old")}
	if n == 0 {
		sym.Assert(v == nil, "nil list is not written as NULL")
		sym.Assert(dst.Scan(nil) == nil && dst == nil, "NULL does not read back as a nil list")
		return
	}
	s, ok := v.(string)
	sym.Assert(ok, "list literal is not a string")
	sym.Cover("list")
	el, good := hlib.PgArray(s)
	sym.Assert(good && len(el) == len(a), "written list is not a well-formed literal")
	if good && len(el) == len(a) {
		for i := range el {
			sym.Assert(el[i].S == "\\x"+hexOf(a[i]), "written element denotes another value")
		}
	}
	var src any = s
	if sym.Choose("src", 2) == 1 {
		src = []byte(s)
	}
	err = dst.Scan(src)
	sym.Observe("lit", s, err == nil)
	sym.Assert(err == nil, "written list cannot be read back")
	if err != nil {
		return
	}
	sym.Assert(len(dst) == len(a), "list read back has another length")
	if len(dst) == len(a) {
		for i := range dst {
			sym.Assert(sym.EqBytes(dst[i], a[i]), "element changed in a write/read round trip")
		}
	}
}

func hexOf(b []byte) string {
	const d = "0123456789abcdef"
	var o []byte
	for _, c := range b {
		o = append(o, d[c>>4], d[c&15])
	}
	return string(o)
}

// ---- JSON slices ----

func S01_Int8() {
	trip(sqltype.Int8Slice[int8](listOf(sym.Int8, 2)), priorOf(int8(7)), hlib.JSONArray, sEq[int8])
}
func S01_NamedInt8() {
	trip(sqltype.Int8Slice[nInt8](listOf(func(n string) nInt8 { return nInt8(sym.Int8(n)) }, 2)), priorOf(nInt8(7)), hlib.JSONArray, sEq[nInt8])
}
func S01_Int16() {
	trip(sqltype.Int16Slice[int16](listOf(sym.Int16, 2)), priorOf(int16(7)), hlib.JSONArray, sEq[int16])
}
func S01_Int32() {
	trip(sqltype.Int32Slice[int32](listOf(sym.Int32, 1)), priorOf(int32(7)), hlib.JSONArray, sEq[int32])
}
func S01_Int64() {
	trip(sqltype.Int64Slice[int64](listOf(sym.Int64, 1)), priorOf(int64(7)), hlib.JSONArray, sEq[int64])
}
func S01_Int() {
	trip(sqltype.IntSlice[int](listOf(sym.Int, 1)), priorOf(7), hlib.JSONArray, sEq[int])
}
func S01_Uint8() {
	trip(sqltype.Uint8Slice[uint8](listOf(sym.Uint8, 2)), priorOf(uint8(7)), hlib.JSONArray, uEq[uint8])
}
func S01_Uint16() {
	trip(sqltype.Uint16Slice[uint16](listOf(sym.Uint16, 2)), priorOf(uint16(7)), hlib.JSONArray, uEq[uint16])
}
func S01_Uint32() {
	trip(sqltype.Uint32Slice[uint32](listOf(sym.Uint32, 1)), priorOf(uint32(7)), hlib.JSONArray, uEq[uint32])
}
func S01_Uint64() {
	trip(sqltype.Uint64Slice[uint64](listOf(sym.Uint64, 1)), priorOf(uint64(7)), hlib.JSONArray, uEq[uint64])
}
func S01_Uint() {
	trip(sqltype.UintSlice[uint](listOf(sym.Uint, 1)), priorOf(uint(7)), hlib.JSONArray, uEq[uint])
}
func S01_Bool() {
	trip(sqltype.BoolSlice[bool](listOf(sym.Bool, 3)), priorOf(true), hlib.JSONArray, jbEq[bool])
}
func S01_NamedBool() {
	trip(sqltype.BoolSlice[nBool](listOf(func(n string) nBool { return nBool(sym.Bool(n)) }, 3)), priorOf(nBool(true)), hlib.JSONArray, jbEq[nBool])
}
func S01_String() {
	trip(sqltype.StringSlice[string](listOf(str, 2)), priorOf("old"), hlib.JSONArray, qstrEq[string])
}
func S01_NamedString() {
	trip(sqltype.StringSlice[nString](listOf(func(n string) nString { return nString(sym.String(n, 0, 4)) }, 1)), priorOf(nString("old")), hlib.JSONArray, qstrEq[nString])
}
func S01_Float64() {
	trip(sqltype.Float64Slice[float64](listOf(finite, 2)), priorOf(1.5), hlib.JSONArray, fEq[float64])
}
func S01_Float32() {
	trip(sqltype.Float32Slice[float32](listOf(finite32, 2)), priorOf(float32(1.5)), hlib.JSONArray, fEq[float32])
}
