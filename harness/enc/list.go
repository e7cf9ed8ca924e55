package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/hlib"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

func jsonOf(s string, n int) []hlib.Elem {
	el, ok := hlib.JSONArray(s)
	sym.Assert(ok, "list is not a JSON array")
	if !ok {
		return nil
	}
	sym.Assert(len(el) == n, "JSON array has another number of elements")
	if len(el) != n {
		return nil
	}
	sym.Cover("list")
	return el
}

func E06_String() {
	n := sym.Choose("n", 4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, sym.String("e"+string(rune('0'+i)), 0, sym.B(2, 3)))
	}
	for i, e := range jsonOf(encoding.MarshalStringSlice(l), n) {
		sym.Assert(e.Quoted && e.S == l[i], "element changed in JSON")
	}
}

func E06_Bytes() {
	n := sym.Choose("n", 3)
	var l [][]byte
	for i := 0; i < n; i++ {
		l = append(l, sym.Bytes("e"+string(rune('0'+i)), 0, sym.B(2, 4)))
	}
	for i, e := range jsonOf(encoding.MarshalStringSlice(l), n) {
		sym.Assert(e.Quoted && e.S == string(l[i]), "element changed in JSON")
	}
}

func ints[T ~int | ~int8 | ~int16 | ~int32 | ~int64](mk func(string) T, max int) {
	n := sym.Choose("n", max+1)
	var l []T
	for i := 0; i < n; i++ {
		l = append(l, mk("e"+string(rune('0'+i))))
	}
	for i, e := range jsonOf(encoding.MarshalIntSlice(l), n) {
		x, err := strconv.ParseInt(e.S, 10, 64)
		sym.Assert(err == nil && !e.Quoted && !e.Null && x == int64(l[i]), "element changed in JSON")
	}
}

func E06_Int8()  { ints(sym.Int8, 3) }
func E06_Int64() { ints(sym.Int64, 2) }

func uints[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](mk func(string) T, max int) {
	n := sym.Choose("n", max+1)
	var l []T
	for i := 0; i < n; i++ {
		l = append(l, mk("e"+string(rune('0'+i))))
	}
	for i, e := range jsonOf(encoding.MarshalUintSlice(l), n) {
		x, err := strconv.ParseUint(e.S, 10, 64)
		sym.Assert(err == nil && !e.Quoted && !e.Null && x == uint64(l[i]), "element changed in JSON")
	}
}

func E06_Uint8()  { uints(sym.Uint8, 3) }
func E06_Uint64() { uints(sym.Uint64, 2) }

func E06_Bool() {
	n := sym.Choose("n", 5)
	var l []myBool
	for i := 0; i < n; i++ {
		l = append(l, myBool(sym.Bool("e"+string(rune('0'+i)))))
	}
	for i, e := range jsonOf(encoding.MarshalBoolSlice(l), n) {
		sym.Assert(!e.Quoted && e.S == strconv.FormatBool(bool(l[i])), "element changed in JSON")
	}
}

func E06_Float() {
	n := sym.Choose("n", 4)
	var l []float64
	for i := 0; i < n; i++ {
		f := sym.Float64("e" + string(rune('0'+i)))
		sym.Assume(sym.And(f == f, f <= 1.7976931348623157e308, f >= -1.7976931348623157e308))
		l = append(l, f)
	}
	var s string
	if sym.Choose("prec", 2) == 0 {
		s = encoding.MarshalFloat64List(l)
	} else {
		s = encoding.MarshalFloat64List(l, -1)
	}
	for i, e := range jsonOf(s, n) {
		x, err := strconv.ParseFloat(e.S, 64)
		sym.Assert(err == nil && !e.Quoted && x == l[i], "element changed in JSON")
	}
}

// earlier results stay as they were when more lists are written
func E06_Reuse() {
	a := []string{sym.String("a", 0, 2)}
	s1 := encoding.MarshalStringSlice(a)
	keep := string(append([]byte(nil), s1...))
	s2 := encoding.MarshalIntSlice([]int8{sym.Int8("i"), 1})
	s3 := encoding.MarshalStringSlice([]string{"zzzz", sym.String("c", 0, 1)})
	sym.Assert(s1 == keep, "an earlier result changed")
	jsonOf(s1, 1)
	jsonOf(s2, 2)
	jsonOf(s3, 2)
}
