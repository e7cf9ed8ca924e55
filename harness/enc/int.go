package main

import (
	"database/sql"
	"strconv"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

type (
	myInt   int
	myInt8  int8
	myInt32 int32
	myU16   uint16
	myU64   uint64
)

type anyInt interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// fits reports whether the signed 64-bit value v is a value of the target type.
// 64-bit unsigned targets read the two's complement form they are written in.
func fits(v int64, bits int, signed bool) bool {
	if bits == 64 {
		return true
	}
	if signed {
		return sym.And(v >= -(int64(1)<<(bits-1)), v < int64(1)<<(bits-1))
	}
	return sym.And(v >= 0, v < int64(1)<<bits)
}

// scanInto runs the scanner against a *T (ptr=0) or a **T (ptr=1) holding prior,
// and reports the outcome: error, resulting value, whether the destination is unchanged
// and whether a pointer destination ended up nil.
func scanInto[T comparable](prior T, v any, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) (err error, got T, isNil bool, ptr bool) {
	switch sym.Choose("dest", 3) {
	case 0:
		x := prior
		err = s1(&x).Scan(v)
		return err, x, false, false
	case 1:
		x := prior
		p := &x
		q := p
		err = s2(&p).Scan(v)
		sym.Assert(x == prior, "old pointee overwritten")
		if err != nil {
			sym.Assert(p == q, "failed read replaced the pointer")
		}
		if p == nil {
			return err, got, true, true
		}
		return err, *p, false, true
	default:
		var p *T
		err = s2(&p).Scan(v)
		if p == nil {
			if err != nil {
				return err, prior, true, true
			}
			return err, got, true, true
		}
		return err, *p, false, true
	}
}

func fromInt64[T anyInt](bits int, signed bool, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) {
	prior := T(sym.Int64("prior"))
	v := sym.Int64("v")
	err, got, isNil, _ := scanInto(prior, v, s1, s2)
	ok := fits(v, bits, signed)
	sym.Observe("r", err == nil, isNil, int64(got))
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(ok, "out-of-range integer accepted")
		sym.Assert(sym.And(got == T(v), !isNil), "integer value changed")
	} else {
		sym.Cover("rejected")
		sym.Assert(!ok, "in-range integer rejected")
		sym.Assert(got == prior, "failed read changed the destination")
	}
}

func fromText[T anyInt](bits int, signed bool, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) {
	prior := T(sym.Int64("prior"))
	var b []byte
	if sym.Choose("shape", 2) == 0 {
		b = sym.Bytes("b", 0, sym.B(4, 6))
	} else {
		// a long run of decimal digits with an optional sign, up to 20 digits
		b = longDigits(bits)
	}
	err, got, isNil, _ := scanInto(prior, b, s1, s2)
	sym.Observe("r", err == nil, isNil, int64(got))
	var ok, same bool
	if signed {
		n, e := strconv.ParseInt(string(b), 10, 64)
		ok = e == nil && sym.FixBool(fits(n, bits, true))
		same = int64(got) == n
	} else {
		n, e := strconv.ParseUint(string(b), 10, 64)
		ok = e == nil && sym.FixBool(bits == 64 || n < uint64(1)<<(bits&63))
		same = uint64(got) == n
	}
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(ok, "text that is not an in-range integer accepted")
		sym.Assert(sym.And(same, !isNil), "integer value changed")
	} else {
		sym.Cover("rejected")
		sym.Assert(!ok, "in-range integer text rejected")
		sym.Assert(got == prior, "failed read changed the destination")
	}
}

// longDigits is text around the edges of the target range: an optional sign, a leading
// part chosen from the decimal expansions of the limits, then up to w arbitrary digits.
func longDigits(bits int) []byte {
	heads := map[int][]string{
		8:  {"", "1", "2", "00"},
		16: {"3", "6", "65", "00"},
		32: {"21474", "42949", "99999", "00000"},
		64: {"92233720368547", "184467440737095", "999999999999999", "00000000000000"},
	}[bits]
	var b []byte
	switch sym.Choose("sign", 3) {
	case 1:
		b = append(b, '-')
	case 2:
		b = append(b, '+')
	}
	b = append(b, heads[sym.Choose("head", len(heads))]...)
	d := sym.Bytes("tail", 3, sym.B(5, 6))
	for _, c := range d {
		sym.Assume(sym.And(c >= '0', c <= '9'))
	}
	return append(b, d...)
}

func fromOther[T anyInt](s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) {
	prior := T(sym.Int64("prior"))
	var v any
	switch sym.Choose("kind", 3) {
	case 0:
		v = sym.Float64("f")
	case 1:
		v = sym.Bool("b")
	default:
		v = struct{}{}
	}
	err, got, _, _ := scanInto(prior, v, s1, s2)
	sym.Cover("other")
	sym.Assert(err != nil, "unsupported driver value accepted")
	sym.Assert(got == prior, "failed read changed the destination")
}

func intAll[T anyInt](bits int, signed bool, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) {
	switch sym.Choose("src", 3) {
	case 0:
		fromInt64(bits, signed, s1, s2)
	case 1:
		fromText(bits, signed, s1, s2)
	default:
		fromOther(s1, s2)
	}
}

func E01_Int() {
	intAll(64, true, encoding.IntScanner[int, *int], encoding.IntScanner[int, **int])
}
func E01_NamedInt() {
	intAll(64, true, encoding.IntScanner[myInt, *myInt], encoding.IntScanner[myInt, **myInt])
}
func E01_Int8() {
	intAll(8, true, encoding.Int8Scanner[int8, *int8], encoding.Int8Scanner[int8, **int8])
}
func E01_NamedInt8() {
	intAll(8, true, encoding.Int8Scanner[myInt8, *myInt8], encoding.Int8Scanner[myInt8, **myInt8])
}
func E01_Int16() {
	intAll(16, true, encoding.Int16Scanner[int16, *int16], encoding.Int16Scanner[int16, **int16])
}
func E01_Int32() {
	intAll(32, true, encoding.Int32Scanner[int32, *int32], encoding.Int32Scanner[int32, **int32])
}
func E01_NamedInt32() {
	intAll(32, true, encoding.Int32Scanner[myInt32, *myInt32], encoding.Int32Scanner[myInt32, **myInt32])
}
func E01_Int64() {
	intAll(64, true, encoding.Int64Scanner[int64, *int64], encoding.Int64Scanner[int64, **int64])
}
func E01_Uint() {
	intAll(64, false, encoding.UintScanner[uint, *uint], encoding.UintScanner[uint, **uint])
}
func E01_Uint8() {
	intAll(8, false, encoding.Uint8Scanner[uint8, *uint8], encoding.Uint8Scanner[uint8, **uint8])
}
func E01_Uint16() {
	intAll(16, false, encoding.Uint16Scanner[uint16, *uint16], encoding.Uint16Scanner[uint16, **uint16])
}
func E01_NamedUint16() {
	intAll(16, false, encoding.Uint16Scanner[myU16, *myU16], encoding.Uint16Scanner[myU16, **myU16])
}
func E01_Uint32() {
	intAll(32, false, encoding.Uint32Scanner[uint32, *uint32], encoding.Uint32Scanner[uint32, **uint32])
}
func E01_Uint64() {
	intAll(64, false, encoding.Uint64Scanner[uint64, *uint64], encoding.Uint64Scanner[uint64, **uint64])
}
func E01_NamedUint64() {
	intAll(64, false, encoding.Uint64Scanner[myU64, *myU64], encoding.Uint64Scanner[myU64, **myU64])
}
