package main

import (
	"database/sql"
	"time"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// scribble overwrites the buffer the way a driver does when it reads the next row.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func text0(max int) ([]byte, string) {
	b := sym.Bytes("b", 0, max)
	return b, string(append([]byte(nil), b...))
}

func E03_String() {
	b, want := text0(sym.B(3, 6))
	switch sym.Choose("dest", 4) {
	case 0:
		var s string
		sym.Assert(encoding.StringScanner[string](&s).Scan(b) == nil, "text rejected")
		scribble(b)
		sym.Assert(s == want, "value read shares memory with the driver")
	case 1:
		var s *string
		sym.Assert(encoding.StringScanner[string](&s).Scan(b) == nil && s != nil, "text rejected")
		scribble(b)
		sym.Assert(*s == want, "value read shares memory with the driver")
	case 2:
		var s myStr
		sym.Assert(encoding.StringScanner[myStr](&s).Scan(b) == nil, "text rejected")
		scribble(b)
		sym.Assert(string(s) == want, "value read shares memory with the driver")
	default:
		var s *myStr
		sym.Assert(encoding.StringScanner[myStr](&s).Scan(b) == nil && s != nil, "text rejected")
		scribble(b)
		sym.Assert(string(*s) == want, "value read shares memory with the driver")
	}
	sym.Cover("read")
}

func E03_Bytes() {
	b, want := text0(sym.B(3, 6))
	old := []byte("prior")
	switch sym.Choose("dest", 4) {
	case 0:
		s := old
		sym.Assert(encoding.StringScanner[[]byte](&s).Scan(b) == nil, "text rejected")
		scribble(b)
		sym.Assert(string(s) == want, "value read shares memory with the driver")
		sym.Assert(string(old) == "prior", "earlier value overwritten")
	case 1:
		s := &old
		sym.Assert(encoding.StringScanner[[]byte](&s).Scan(b) == nil && s != nil, "text rejected")
		scribble(b)
		sym.Assert(string(*s) == want, "value read shares memory with the driver")
		sym.Assert(string(old) == "prior", "earlier value overwritten")
	case 2:
		var s myBytes
		sym.Assert(encoding.StringScanner[myBytes](&s).Scan(b) == nil, "text rejected")
		scribble(b)
		sym.Assert(string(s) == want, "value read shares memory with the driver")
	default:
		var s *myBytes
		sym.Assert(encoding.StringScanner[myBytes](&s).Scan(b) == nil && s != nil, "text rejected")
		scribble(b)
		sym.Assert(string(*s) == want, "value read shares memory with the driver")
	}
	sym.Cover("read")
}

// the value written does not alias the destination of an earlier row either
func E03_TwoRows() {
	a, wa := sym.Bytes("a", 0, 3), ""
	wa = string(append([]byte(nil), a...))
	b := sym.Bytes("b", 0, 3)
	wb := string(append([]byte(nil), b...))
	if sym.Choose("dest", 2) == 0 {
		var s []byte
		sc := encoding.StringScanner[[]byte](&s)
		sym.Assert(sc.Scan(a) == nil, "text rejected")
		first := s
		sym.Assert(sc.Scan(b) == nil, "text rejected")
		sym.Assert(sym.And(string(first) == wa, string(s) == wb), "a later row changed an earlier value")
	} else {
		var s *string
		sc := encoding.StringScanner[string](&s)
		sym.Assert(sc.Scan(a) == nil, "text rejected")
		first := s
		sym.Assert(sc.Scan(b) == nil, "text rejected")
		sym.Assert(sym.And(*first == wa, *s == wb), "a later row changed an earlier value")
	}
	sym.Cover("read")
}

func E03_Fixed() {
	n := 4
	b, want := text0(n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	if sym.Choose("kind", 2) == 0 {
		var d [4]byte
		sym.Assert(encoding.ByteArrayScanner(d[:], n).Scan(b) == nil, "text rejected")
		scribble(b)
		sym.Assert(string(d[:len(want)]) == want, "value read shares memory with the driver")
	} else {
		var d [4]rune
		sym.Assert(encoding.RuneArrayScanner(d[:], n).Scan(b) == nil, "text rejected")
		scribble(b)
		for i := range want {
			sym.Assert(d[i] == rune(want[i]), "value read shares memory with the driver")
		}
	}
	sym.Cover("read")
}

func plain(n string) []byte {
	b := sym.Bytes(n, 1, 2)
	for _, c := range b {
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
	}
	return b
}

func E03_PgLists() {
	x, y := plain("x"), plain("y")
	wx, wy := string(x), string(y)
	quoted := sym.Choose("quoted", 2) == 1
	b := []byte("{")
	if quoted {
		b = append(b, '"')
	}
	b = append(b, x...)
	if quoted {
		b = append(b, '"')
	}
	b = append(b, ',')
	b = append(b, y...)
	b = append(b, '}')
	if sym.Choose("kind", 2) == 0 {
		var d pgtype.StringArray[string]
		sym.Assert(d.Scan(b) == nil && len(d) == 2, "list rejected")
		scribble(b)
		if len(d) == 2 {
			sym.Assert(sym.And(d[0] == wx, d[1] == wy), "value read shares memory with the driver")
		}
	} else {
		var d pgtype.ByteaArray[[]byte]
		sym.Assert(d.Scan(b) == nil && len(d) == 2, "list rejected")
		scribble(b)
		if len(d) == 2 {
			sym.Assert(sym.And(string(d[0]) == wx, string(d[1]) == wy), "value read shares memory with the driver")
		}
	}
	sym.Cover("read")
}

func E03_JSONLists() {
	x, y := plain("x"), plain("y")
	wx, wy := string(x), string(y)
	b := []byte(`["`)
	b = append(b, x...)
	b = append(b, `","`...)
	b = append(b, y...)
	b = append(b, `"]`...)
	var d sqltype.StringSlice[string]
	sym.Assert(d.Scan(b) == nil && len(d) == 2, "list rejected")
	scribble(b)
	if len(d) == 2 {
		sym.Assert(sym.And(d[0] == wx, d[1] == wy), "value read shares memory with the driver")
	}
	sym.Cover("read")
}

// driverValue is a value of any of the kinds a driver hands out.
func driverValue() any {
	switch sym.Choose("driver", 7) {
	case 0:
		return sym.Int64("i")
	case 1:
		return sym.Bool("t")
	case 2:
		b := sym.Bytes("b", 0, 2)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
		return b
	case 3:
		s := sym.String("s", 0, 2)
		for i := range len(s) {
			sym.Assume(s[i] < 0x80)
		}
		return s
	case 4:
		return float64(sym.Range("f", -9, 9))
	case 5:
		return time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)
	default:
		return nil
	}
}

// keeps checks that reading a further row into a nullable field leaves alone the value an earlier row put there.
func keeps[T any](prior T, same func(a, b T) bool, scanner func(**T) sql.Scanner) {
	x := prior
	p := &x
	v := driverValue()
	err := scanner(&p).Scan(v)
	sym.Assert(same(x, prior), "reading a row changed the value an earlier row was given")
	if err == nil {
		sym.Assert(p != &x, "the value read shares memory with the value of an earlier row")
		sym.Cover("read")
	} else {
		sym.Cover("rejected")
	}
}

func same[T comparable](a, b T) bool { return a == b }

func E03_Pointers() {
	switch sym.Choose("type", 14) {
	case 0:
		keeps(sym.String("p", 1, 2), same[string], func(p **string) sql.Scanner { return encoding.StringScanner[string](p) })
	case 1:
		keeps(myStr(sym.String("p", 1, 2)), same[myStr], func(p **myStr) sql.Scanner { return encoding.StringScanner[myStr](p) })
	case 2:
		keeps(sym.Bytes("p", 1, 2), func(a, b []byte) bool { return string(a) == string(b) }, func(p **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](p) })
	case 3:
		keeps(sym.Bool("p"), same[bool], func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p) })
	case 4:
		keeps(sym.Int8("p"), same[int8], func(p **int8) sql.Scanner { return encoding.Int8Scanner[int8](p) })
	case 5:
		keeps(sym.Int32("p"), same[int32], func(p **int32) sql.Scanner { return encoding.Int32Scanner[int32](p) })
	case 6:
		keeps(sym.Int64("p"), same[int64], func(p **int64) sql.Scanner { return encoding.Int64Scanner[int64](p) })
	case 7:
		keeps(myU8(sym.Uint8("p")), same[myU8], func(p **myU8) sql.Scanner { return encoding.Uint8Scanner[myU8](p) })
	case 8:
		keeps(sym.Uint64("p"), same[uint64], func(p **uint64) sql.Scanner { return encoding.Uint64Scanner[uint64](p) })
	case 9:
		keeps(2.5, same[float64], func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p) })
	case 10:
		keeps(float32(2.5), same[float32], func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p) })
	case 11:
		keeps(someTime(), same[time.Time], func(p **time.Time) sql.Scanner { return encoding.TimeScanner(p) })
	case 12:
		keeps(text{S: sym.String("p", 1, 2), N: sym.Int("n"), Set: true}, same[text], func(p **text) sql.Scanner { return encoding.TextScanner[text, *text](p) })
	default:
		keeps(scn{Got: true}, func(a, b scn) bool { return a.Got == b.Got && a.V == b.V }, func(p **scn) sql.Scanner { return encoding.PtrScanner(p) })
	}
}
