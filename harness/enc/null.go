package main

import (
	"database/sql"
	"encoding/json"
	"time"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

type (
	myBool  bool
	myStr   string
	myBytes []byte
	myF32   float32
	myF64   float64
	myInt64 int64
	myU8    uint8
	myRune  rune
	myByte  byte
)

// text is a TextUnmarshaler and Scanner that copies what it is given.
type text struct {
	S   string
	N   int
	Set bool
}

func (t *text) UnmarshalText(b []byte) error { t.S = string(b); t.Set = true; return nil }
func (t text) MarshalText() ([]byte, error)  { return []byte(t.S), nil }

type scn struct {
	V   any
	Got bool
}

func (s *scn) Scan(v any) error { s.V = v; s.Got = true; return nil }

// nullOf checks that reading NULL succeeds and leaves the zero value (or a nil pointer).
func nullOf[T comparable](prior T, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner) {
	var zero T
	var err error
	switch sym.Choose("dest", 3) {
	case 0:
		x := prior
		err = s1(&x).Scan(nil)
		sym.Assert(err == nil, "NULL rejected")
		sym.Assert(x == zero, "NULL does not reset the destination to its zero value")
	case 1:
		if s2 == nil {
			return
		}
		x := prior
		p := &x
		err = s2(&p).Scan(nil)
		sym.Assert(err == nil, "NULL rejected")
		sym.Assert(p == nil, "NULL does not make the pointer nil")
		sym.Assert(x == prior, "reading NULL changed the old pointee")
	default:
		if s2 == nil {
			return
		}
		var p *T
		err = s2(&p).Scan(nil)
		sym.Assert(err == nil, "NULL rejected")
		sym.Assert(p == nil, "NULL does not make the pointer nil")
	}
	sym.Cover("null")
}

func E02_Ints() {
	switch sym.Choose("type", 12) {
	case 0:
		nullOf(sym.Int("p"), encoding.IntScanner[int, *int], encoding.IntScanner[int, **int])
	case 1:
		nullOf(sym.Int8("p"), encoding.Int8Scanner[int8, *int8], encoding.Int8Scanner[int8, **int8])
	case 2:
		nullOf(sym.Int16("p"), encoding.Int16Scanner[int16, *int16], encoding.Int16Scanner[int16, **int16])
	case 3:
		nullOf(sym.Int32("p"), encoding.Int32Scanner[int32, *int32], encoding.Int32Scanner[int32, **int32])
	case 4:
		nullOf(sym.Int64("p"), encoding.Int64Scanner[int64, *int64], encoding.Int64Scanner[int64, **int64])
	case 5:
		nullOf(myInt64(sym.Int64("p")), encoding.Int64Scanner[myInt64, *myInt64], encoding.Int64Scanner[myInt64, **myInt64])
	case 6:
		nullOf(sym.Uint("p"), encoding.UintScanner[uint, *uint], encoding.UintScanner[uint, **uint])
	case 7:
		nullOf(sym.Uint8("p"), encoding.Uint8Scanner[uint8, *uint8], encoding.Uint8Scanner[uint8, **uint8])
	case 8:
		nullOf(sym.Uint16("p"), encoding.Uint16Scanner[uint16, *uint16], encoding.Uint16Scanner[uint16, **uint16])
	case 9:
		nullOf(sym.Uint32("p"), encoding.Uint32Scanner[uint32, *uint32], encoding.Uint32Scanner[uint32, **uint32])
	case 10:
		nullOf(sym.Uint64("p"), encoding.Uint64Scanner[uint64, *uint64], encoding.Uint64Scanner[uint64, **uint64])
	default:
		nullOf(myU8(sym.Uint8("p")), encoding.Uint8Scanner[myU8, *myU8], encoding.Uint8Scanner[myU8, **myU8])
	}
}

func E02_Bool() {
	var st []bool
	if sym.Choose("opts", 2) == 1 {
		st = append(st, sym.Bool("strict"))
	}
	if sym.Choose("type", 2) == 0 {
		nullOf(sym.Bool("p"), func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p, st...) }, func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p, st...) })
	} else {
		nullOf(myBool(sym.Bool("p")), func(p *myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, st...) }, func(p **myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, st...) })
	}
}

func someFloat() float64 {
	f := sym.Float64("p")
	sym.Assume(f == f)
	return f
}

func E02_Float() {
	var st []bool
	if sym.Choose("opts", 2) == 1 {
		st = append(st, sym.Bool("strict"))
	}
	switch sym.Choose("type", 4) {
	case 0:
		nullOf(someFloat(), func(p *float64) sql.Scanner { return encoding.Float64Scanner[float64](p, st...) }, func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p, st...) })
	case 1:
		nullOf(myF64(someFloat()), func(p *myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, st...) }, func(p **myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, st...) })
	case 2:
		nullOf(float32(someFloat()), func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p, st...) }, func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p, st...) })
	default:
		nullOf(myF32(someFloat()), func(p *myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, st...) }, func(p **myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, st...) })
	}
}

func E02_String() {
	var st []bool
	if sym.Choose("opts", 2) == 1 {
		st = append(st, sym.Bool("strict"))
	}
	s := sym.String("p", 0, 2)
	switch sym.Choose("type", 4) {
	case 0:
		nullOf(s, func(p *string) sql.Scanner { return encoding.StringScanner[string](p, st...) }, func(p **string) sql.Scanner { return encoding.StringScanner[string](p, st...) })
	case 1:
		nullOf(myStr(s), func(p *myStr) sql.Scanner { return encoding.StringScanner[myStr](p, st...) }, func(p **myStr) sql.Scanner { return encoding.StringScanner[myStr](p, st...) })
	case 2:
		b := []byte(s)
		sym.Assert(encoding.StringScanner[[]byte](&b, st...).Scan(nil) == nil && len(b) == 0, "NULL does not reset the destination to its zero value")
		b2 := []byte(s)
		p := &b2
		sym.Assert(encoding.StringScanner[[]byte](&p, st...).Scan(nil) == nil && p == nil, "NULL does not make the pointer nil")
		sym.Assert(string(b2) == s, "reading NULL changed the old pointee")
	default:
		b := myBytes(s)
		sym.Assert(encoding.StringScanner[myBytes](&b, st...).Scan(nil) == nil && len(b) == 0, "NULL does not reset the destination to its zero value")
		b2 := myBytes(s)
		p := &b2
		sym.Assert(encoding.StringScanner[myBytes](&p, st...).Scan(nil) == nil && p == nil, "NULL does not make the pointer nil")
	}
}

func someTime() time.Time {
	s := sym.Int64("sec")
	sym.Assume(sym.And(s > -1<<40, s < 1<<40))
	return time.Unix(s, 0).UTC()
}

func E02_Time() {
	nullOf(someTime(), encoding.TimeScanner[*time.Time], encoding.TimeScanner[**time.Time])
}

func E02_Text() {
	nullOf(text{S: sym.String("p", 0, 2), N: sym.Int("n"), Set: sym.Bool("set")}, encoding.TextScanner[text, *text, *text], encoding.TextScanner[text, *text, **text])
}

func E02_Pointer() {
	var p *scn
	if sym.Bool("set") {
		p = &scn{V: sym.Int64("v"), Got: true}
	}
	sym.Assert(encoding.PtrScanner(&p).Scan(nil) == nil, "NULL rejected")
	sym.Assert(p == nil, "NULL does not make the pointer nil")
	sym.Cover("null")
}

type doc struct {
	A int
	B string
}

func E02_JSON() {
	switch sym.Choose("type", 4) {
	case 0:
		nullOf(doc{sym.Int("a"), sym.String("b", 0, 2)}, func(p *doc) sql.Scanner { return encoding.JSONScanner[doc](p) }, nil)
	case 1:
		p := &doc{sym.Int("a"), "x"}
		sym.Assert(encoding.JSONScanner[*doc](&p).Scan(nil) == nil && p == nil, "NULL does not make the pointer nil")
	case 2:
		m := []string{"x"}
		sym.Assert(encoding.JSONScanner[[]string](&m).Scan(nil) == nil && m == nil, "NULL does not reset the destination to its zero value")
	default:
		m := json.RawMessage(sym.String("b", 1, 2))
		sym.Assert(encoding.JSONScanner[json.RawMessage](&m).Scan(nil) == nil && len(m) == 0, "NULL does not reset the destination to its zero value")
	}
	sym.Cover("null")
}

func E02_Fixed() {
	n := sym.B(4, 6)
	if sym.Choose("kind", 2) == 0 {
		a := sym.Bytes("p", n, n)
		b := make([]myByte, n)
		for i := range a {
			b[i] = myByte(a[i])
		}
		sym.Assert(encoding.ByteArrayScanner(b, n).Scan(nil) == nil, "NULL rejected")
		for i := range b {
			sym.Assert(b[i] == 0, "NULL does not reset the destination to its zero value")
		}
	} else {
		b := make([]myRune, n)
		for i := range b {
			b[i] = myRune(sym.Int32("r"))
		}
		sym.Assert(encoding.RuneArrayScanner(b, n).Scan(nil) == nil, "NULL rejected")
		for i := range b {
			sym.Assert(b[i] == 0, "NULL does not reset the destination to its zero value")
		}
	}
	sym.Cover("null")
}

func nullList[T any, P interface {
	*T
	sql.Scanner
}](d T, isNil func(T) bool) {
	sym.Assert(P(&d).Scan(nil) == nil, "NULL rejected")
	sym.Assert(isNil(d), "NULL does not read back as a nil list")
	sym.Cover("null")
}

func E02_Lists() {
	i8, f := sym.Int8("i"), someFloat()
	s := sym.String("s", 0, 2)
	switch sym.Choose("type", 12) {
	case 0:
		nullList(pgtype.Int8Array[int8]{i8}, func(v pgtype.Int8Array[int8]) bool { return v == nil })
	case 1:
		nullList(pgtype.Int64Array[int64]{int64(i8)}, func(v pgtype.Int64Array[int64]) bool { return v == nil })
	case 2:
		nullList(pgtype.Uint16Array[uint16]{uint16(i8)}, func(v pgtype.Uint16Array[uint16]) bool { return v == nil })
	case 3:
		nullList(pgtype.BoolArray[bool]{true}, func(v pgtype.BoolArray[bool]) bool { return v == nil })
	case 4:
		nullList(pgtype.StringArray[string]{s}, func(v pgtype.StringArray[string]) bool { return v == nil })
	case 5:
		nullList(pgtype.ByteaArray[[]byte]{[]byte(s)}, func(v pgtype.ByteaArray[[]byte]) bool { return v == nil })
	case 6:
		nullList(pgtype.Float64Array[float64]{f}, func(v pgtype.Float64Array[float64]) bool { return v == nil })
	case 7:
		nullList(sqltype.Int8Slice[int8]{i8}, func(v sqltype.Int8Slice[int8]) bool { return v == nil })
	case 8:
		nullList(sqltype.Uint64Slice[uint64]{uint64(i8)}, func(v sqltype.Uint64Slice[uint64]) bool { return v == nil })
	case 9:
		nullList(sqltype.BoolSlice[bool]{true}, func(v sqltype.BoolSlice[bool]) bool { return v == nil })
	case 10:
		nullList(sqltype.StringSlice[string]{s}, func(v sqltype.StringSlice[string]) bool { return v == nil })
	default:
		nullList(sqltype.Float32Slice[float32]{float32(f)}, func(v sqltype.Float32Slice[float32]) bool { return v == nil })
	}
}
