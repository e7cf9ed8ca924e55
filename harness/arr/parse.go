package main

import (
	"database/sql"
	"strconv"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/sqltype"
	"github.com/si3nloong/sqlgen/zzverif/hlib"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// read scans an arbitrary literal and compares the outcome with the reference parser:
// a well-formed literal whose elements all denote values of the element type is read
// exactly, one with an element that does not is rejected, and whatever is accepted is
// bracketed.
func read[T comparable, S ~[]T, P interface {
	*S
	sql.Scanner
}](b []byte, open, close byte, parse func(string) ([]hlib.Elem, bool), conv func(hlib.Elem) (T, bool, bool)) {
	var prior T
	dst := S{prior, prior}
	same := dst
	text := string(b)
	var src any = b
	if sym.Choose("src", 2) == 1 {
		src = text
	}
	err := P(&dst).Scan(src)
	sym.Observe("r", err == nil, len(dst))
	sym.Assert(string(b) == text, "reading changed the driver's bytes")
	if err != nil {
		sym.Cover("rejected")
		sym.Assert(len(dst) == len(same), "failed read changed the destination")
	} else {
		sym.Cover("accepted")
		i, j := 0, len(text)-1
		for i <= j && sp(text[i]) {
			i++
		}
		for j > i && sp(text[j]) {
			j--
		}
		sym.Assert(j > i && text[i] == open && text[j] == close, "text that is not a bracketed list accepted")
	}
	el, good := parse(text)
	if !good {
		sym.Assert(err != nil || loose(text, open, close, func(word string) bool {
			if _, is := any(prior).(bool); is {
				_, err := strconv.ParseBool(word)
				return err == nil
			}
			_, ok, unsure := conv(hlib.Elem{S: word})
			return ok || unsure
		}), "malformed text accepted")
		return
	}
	sym.Cover("well-formed")
	valid := true
	want := make([]T, 0, len(el))
	for _, e := range el {
		x, ok, unsure := conv(e)
		if unsure {
			return
		}
		valid = valid && ok
		want = append(want, x)
	}
	if !valid {
		sym.Assert(err != nil, "list with an element outside the element type accepted")
		return
	}
	sym.Assert(err == nil, "well-formed list rejected")
	if err == nil {
		sym.Assert(len(dst) == len(want), "wrong number of elements read")
		if len(dst) == len(want) {
			for k := range want {
				sym.Assert(dst[k] == want[k], "element read wrongly")
			}
		}
	}
}

// loose says whether the text has the form of a list, if words and escapes need not be those
// of the format: elements between commas, quoted or words that fit, and nothing else. Brackets
// around nothing at all are an empty list.
func loose(s string, open, close byte, fits func(word string) bool) bool {
	i, j := 0, len(s)
	for i < j && sp(s[i]) {
		i++
	}
	for j > i && sp(s[j-1]) {
		j--
	}
	if j-i < 2 || s[i] != open || s[j-1] != close {
		return false
	}
	s = s[i+1 : j-1]
	if empties(s, open, close) {
		return true
	}
	sp := func(c byte) bool { return open == '[' && sp(c) }
	for i = 0; ; i++ {
		for i < len(s) && sp(s[i]) {
			i++
		}
		if i < len(s) && s[i] == '"' {
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
					if open == '[' && i < len(s) && s[i] == 'u' && (i+4 >= len(s) || !hex(s[i+1:i+5])) {
						return false
					}
				}
			}
			if i >= len(s) {
				return false
			}
			i++
		} else {
			st, end := i, i
			for ; i < len(s) && s[i] != ','; i++ {
				if s[i] == close {
					return false
				}
				if !sp(s[i]) {
					end = i + 1
				}
			}
			if end == st || !fits(s[st:end]) {
				return false
			}
		}
		for i < len(s) && sp(s[i]) {
			i++
		}
		if i >= len(s) {
			return true
		}
		if s[i] != ',' {
			return false
		}
	}
}

func hex(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')) {
			return false
		}
	}
	return true
}

// empties says whether there are only brackets, one in another.
func empties(s string, open, close byte) bool {
	i, j := 0, len(s)
	for {
		for i < j && sp(s[i]) {
			i++
		}
		for j > i && sp(s[j-1]) {
			j--
		}
		if i == j {
			return true
		}
		if j-i < 2 || s[i] != open || s[j-1] != close {
			return false
		}
		i, j = i+1, j-1
	}
}

func sp(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func cSigned[T signed](bits int) func(hlib.Elem) (T, bool, bool) {
	return func(e hlib.Elem) (T, bool, bool) {
		if e.Null {
			return 0, false, false
		}
		n, err := strconv.ParseInt(e.S, 10, bits)
		return T(n), err == nil, e.Quoted && err != nil
	}
}
func cUnsigned[T unsigned](bits int) func(hlib.Elem) (T, bool, bool) {
	return func(e hlib.Elem) (T, bool, bool) {
		if e.Null {
			return 0, false, false
		}
		n, err := strconv.ParseUint(e.S, 10, bits)
		return T(n), err == nil, e.Quoted && err != nil
	}
}
func cBool(e hlib.Elem) (bool, bool, bool) {
	switch e.S {
	case "t":
		return true, !e.Null, false
	case "f":
		return false, !e.Null, false
	case "true", "false":
		return false, false, true
	}
	return false, false, false
}
func cJSONBool(e hlib.Elem) (bool, bool, bool) {
	if e.Quoted {
		return false, false, true
	}
	return e.S == "true", !e.Null && (e.S == "true" || e.S == "false"), false
}
func cStr(e hlib.Elem) (string, bool, bool) { return e.S, !e.Null, false }
func cJSONStr(e hlib.Elem) (string, bool, bool) {
	// numbers and booleans in a string list: not specified
	return e.S, !e.Null, !e.Null && !e.Quoted
}

// lit is arbitrary bytes, or a bracketed list whose inside is arbitrary.
func lit(open, close byte, q, t int) []byte {
	if sym.Choose("shape", 2) == 0 {
		return sym.Bytes("raw", 0, sym.B(4, 5))
	}
	in := sym.Bytes("in", 0, sym.B(q, t))
	return append(append([]byte{open}, in...), close)
}

// numLit is a list of one long decimal around the limits of the type.
func numLit(open, close byte, heads ...string) []byte {
	b := []byte{open}
	if sym.Choose("neg", 2) == 1 {
		b = append(b, '-')
	}
	b = append(b, heads[sym.Choose("head", len(heads))]...)
	d := sym.Bytes("tail", 2, 4)
	for _, c := range d {
		sym.Assume(sym.And(c >= '0', c <= '9'))
	}
	b = append(b, d...)
	if sym.Choose("more", 2) == 1 {
		b = append(b, ',', '1')
	}
	return append(b, close)
}

func P02_Int8() {
	read[int8, pgtype.Int8Array[int8], *pgtype.Int8Array[int8]](lit('{', '}', 4, 6), '{', '}', hlib.PgArray, cSigned[int8](8))
}
func P02_Int8Limits() {
	read[int8, pgtype.Int8Array[int8], *pgtype.Int8Array[int8]](numLit('{', '}', "", "1"), '{', '}', hlib.PgArray, cSigned[int8](8))
}
func P02_Int16Limits() {
	read[int16, pgtype.Int16Array[int16], *pgtype.Int16Array[int16]](numLit('{', '}', "", "3", "6"), '{', '}', hlib.PgArray, cSigned[int16](16))
}
func P02_Int32Limits() {
	read[int32, pgtype.Int32Array[int32], *pgtype.Int32Array[int32]](numLit('{', '}', "", "214748", "429496"), '{', '}', hlib.PgArray, cSigned[int32](32))
}
func P02_Int64Limits() {
	read[int64, pgtype.Int64Array[int64], *pgtype.Int64Array[int64]](numLit('{', '}', "", "922337203685477", "1844674407370955"), '{', '}', hlib.PgArray, cSigned[int64](64))
}
func P02_IntLimits() {
	read[int, pgtype.IntArray[int], *pgtype.IntArray[int]](numLit('{', '}', "", "922337203685477", "1844674407370955"), '{', '}', hlib.PgArray, cSigned[int](64))
}
func P02_Uint8() {
	read[uint8, pgtype.Uint8Array[uint8], *pgtype.Uint8Array[uint8]](lit('{', '}', 4, 6), '{', '}', hlib.PgArray, cUnsigned[uint8](8))
}
func P02_Uint8Limits() {
	read[uint8, pgtype.Uint8Array[uint8], *pgtype.Uint8Array[uint8]](numLit('{', '}', "", "2"), '{', '}', hlib.PgArray, cUnsigned[uint8](8))
}
func P02_Uint16Limits() {
	read[uint16, pgtype.Uint16Array[uint16], *pgtype.Uint16Array[uint16]](numLit('{', '}', "", "6"), '{', '}', hlib.PgArray, cUnsigned[uint16](16))
}
func P02_Uint32Limits() {
	read[uint32, pgtype.Uint32Array[uint32], *pgtype.Uint32Array[uint32]](numLit('{', '}', "", "429496"), '{', '}', hlib.PgArray, cUnsigned[uint32](32))
}
func P02_Uint64Limits() {
	read[uint64, pgtype.Uint64Array[uint64], *pgtype.Uint64Array[uint64]](numLit('{', '}', "", "922337203685477", "1844674407370955"), '{', '}', hlib.PgArray, cUnsigned[uint64](64))
}
func P02_UintLimits() {
	read[uint, pgtype.UintArray[uint], *pgtype.UintArray[uint]](numLit('{', '}', "", "922337203685477", "1844674407370955"), '{', '}', hlib.PgArray, cUnsigned[uint](64))
}
func P02_Bool() {
	read[bool, pgtype.BoolArray[bool], *pgtype.BoolArray[bool]](lit('{', '}', 5, 7), '{', '}', hlib.PgArray, cBool)
}
func P02_String() {
	read[string, pgtype.StringArray[string], *pgtype.StringArray[string]](lit('{', '}', 5, 6), '{', '}', hlib.PgArray, cStr)
}

func P02_Float() {
	b := lit('{', '}', 2, 4)
	dst := pgtype.Float64Array[float64]{1}
	err := dst.Scan(b)
	var d32 pgtype.Float32Array[float32]
	err2 := d32.Scan(b)
	if err == nil || err2 == nil {
		sym.Cover("accepted")
		sym.Assert(len(b) >= 2 && b[0] == '{' && b[len(b)-1] == '}', "text that is not a bracketed list accepted")
	} else {
		sym.Cover("rejected")
	}
}

// bytea in both server formats
func P02_Bytea() {
	b := lit('{', '}', 5, 7)
	dst := pgtype.ByteaArray[[]byte]{nil}
	err := dst.Scan(b)
	el, good := hlib.PgArray(string(b))
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(len(b) >= 2 && b[0] == '{' && b[len(b)-1] == '}', "text that is not a bracketed list accepted")
		if good {
			sym.Assert(len(dst) == len(el), "wrong number of elements read")
			if len(dst) == len(el) {
				for i, e := range el {
					w, ok := bytea(e.S)
					sym.Assert(ok || e.Null, "malformed bytea accepted")
					sym.Assert(e.Null || string(dst[i]) == w, "element read wrongly")
				}
			}
		}
	} else {
		sym.Cover("rejected")
		if good {
			all := true
			for _, e := range el {
				_, ok := bytea(e.S)
				all = all && ok
			}
			sym.Assert(!all, "well-formed list rejected")
		}
	}
}

// bytea in one element, longer
func P02_ByteaElem() {
	in := sym.Bytes("in", 0, sym.B(6, 8))
	hexf := sym.Choose("hex", 2) == 1
	lit := []byte(`{"`)
	if hexf {
		lit = append(lit, `\\x`...)
	}
	for _, c := range in {
		sym.Assume(sym.Or(c == '\\', sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'g'), c == 'F'))
		lit = append(lit, c)
	}
	lit = append(lit, `"}`...)
	var dst pgtype.ByteaArray[[]byte]
	err := dst.Scan(lit)
	el, good := hlib.PgArray(string(lit))
	if !good || len(el) != 1 {
		return
	}
	w, ok := bytea(el[0].S)
	sym.Cover("elem")
	sym.Assert(ok == (err == nil), "bytea accepted or rejected wrongly")
	if ok && err == nil {
		sym.Assert(len(dst) == 1 && string(dst[0]) == w, "element read wrongly")
	}
}

func bytea(s string) (string, bool) {
	var o []byte
	if len(s) >= 2 && s[0] == '\\' && s[1] == 'x' {
		s = s[2:]
		if len(s)%2 != 0 {
			return "", false
		}
		for i := 0; i < len(s); i += 2 {
			a, b := hexDigit(s[i]), hexDigit(s[i+1])
			if a < 0 || b < 0 {
				return "", false
			}
			o = append(o, byte(a<<4|b))
		}
		return string(o), true
	}
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			o = append(o, s[i])
			i++
			continue
		}
		if i+1 < len(s) && s[i+1] == '\\' {
			o = append(o, '\\')
			i += 2
			continue
		}
		if i+3 >= len(s) {
			return "", false
		}
		v := 0
		for k := 1; k <= 3; k++ {
			c := s[i+k]
			if c < '0' || c > '7' {
				return "", false
			}
			v = v*8 + int(c-'0')
		}
		if v > 255 {
			return "", false
		}
		o = append(o, byte(v))
		i += 4
	}
	return string(o), true
}

func hexDigit(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// ---- JSON ----

func S02_Int8() {
	read[int8, sqltype.Int8Slice[int8], *sqltype.Int8Slice[int8]](lit('[', ']', 4, 6), '[', ']', hlib.JSONArray, cSigned[int8](8))
}
func S02_Int8Limits() {
	read[int8, sqltype.Int8Slice[int8], *sqltype.Int8Slice[int8]](numLit('[', ']', "", "1"), '[', ']', hlib.JSONArray, cSigned[int8](8))
}
func S02_Int16Limits() {
	read[int16, sqltype.Int16Slice[int16], *sqltype.Int16Slice[int16]](numLit('[', ']', "", "3", "6"), '[', ']', hlib.JSONArray, cSigned[int16](16))
}
func S02_Int32Limits() {
	read[int32, sqltype.Int32Slice[int32], *sqltype.Int32Slice[int32]](numLit('[', ']', "", "214748", "429496"), '[', ']', hlib.JSONArray, cSigned[int32](32))
}
func S02_Int64Limits() {
	read[int64, sqltype.Int64Slice[int64], *sqltype.Int64Slice[int64]](numLit('[', ']', "", "922337203685477", "1844674407370955"), '[', ']', hlib.JSONArray, cSigned[int64](64))
}
func S02_IntLimits() {
	read[int, sqltype.IntSlice[int], *sqltype.IntSlice[int]](numLit('[', ']', "", "922337203685477", "1844674407370955"), '[', ']', hlib.JSONArray, cSigned[int](64))
}
func S02_Uint8() {
	read[uint8, sqltype.Uint8Slice[uint8], *sqltype.Uint8Slice[uint8]](lit('[', ']', 4, 6), '[', ']', hlib.JSONArray, cUnsigned[uint8](8))
}
func S02_Uint8Limits() {
	read[uint8, sqltype.Uint8Slice[uint8], *sqltype.Uint8Slice[uint8]](numLit('[', ']', "", "2"), '[', ']', hlib.JSONArray, cUnsigned[uint8](8))
}
func S02_Uint16Limits() {
	read[uint16, sqltype.Uint16Slice[uint16], *sqltype.Uint16Slice[uint16]](numLit('[', ']', "", "6"), '[', ']', hlib.JSONArray, cUnsigned[uint16](16))
}
func S02_Uint32Limits() {
	read[uint32, sqltype.Uint32Slice[uint32], *sqltype.Uint32Slice[uint32]](numLit('[', ']', "", "429496"), '[', ']', hlib.JSONArray, cUnsigned[uint32](32))
}
func S02_Uint64Limits() {
	read[uint64, sqltype.Uint64Slice[uint64], *sqltype.Uint64Slice[uint64]](numLit('[', ']', "", "922337203685477", "1844674407370955"), '[', ']', hlib.JSONArray, cUnsigned[uint64](64))
}
func S02_UintLimits() {
	read[uint, sqltype.UintSlice[uint], *sqltype.UintSlice[uint]](numLit('[', ']', "", "922337203685477", "1844674407370955"), '[', ']', hlib.JSONArray, cUnsigned[uint](64))
}
func S02_Bool() {
	read[bool, sqltype.BoolSlice[bool], *sqltype.BoolSlice[bool]](lit('[', ']', 5, 6), '[', ']', hlib.JSONArray, cJSONBool)
}
func S02_String() {
	read[string, sqltype.StringSlice[string], *sqltype.StringSlice[string]](lit('[', ']', 5, 6), '[', ']', hlib.JSONArray, cJSONStr)
}

// the database's own rendering: elements separated by ", "
func S02_Rendered() {
	n := 1 + sym.Choose("n", 3)
	kind := sym.Choose("kind", 3)
	var b []byte
	b = append(b, '[')
	var bs []bool
	var is []int8
	var ss []string
	gap := sym.Bytes("gap", 0, 1)
	for _, c := range gap {
		sym.Assume(sym.Or(c == ' ', c == '\n', c == '\t', c == '\r'))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
			b = append(b, gap...)
		}
		switch kind {
		case 0:
			v := sym.Bool("b")
			bs = append(bs, v)
			b = strconv.AppendBool(b, v)
		case 1:
			v := sym.Int8("i")
			is = append(is, v)
			b = strconv.AppendInt(b, int64(v), 10)
		default:
			v := sym.String("s", 1, 1)
			sym.Assume(sym.And(v[0] != '"', v[0] != '\\', v[0] >= 0x20))
			ss = append(ss, v)
			b = append(b, '"', v[0], '"')
		}
	}
	b = append(b, gap...)
	b = append(b, ']')
	sym.Cover("rendered")
	switch kind {
	case 0:
		var d sqltype.BoolSlice[bool]
		sym.Assert(d.Scan(b) == nil && eqList(d, bs), "rendered list read wrongly")
	case 1:
		var d sqltype.Int8Slice[int8]
		sym.Assert(d.Scan(b) == nil && eqList(d, is), "rendered list read wrongly")
		var d2 sqltype.Float64Slice[float64]
		sym.Assert(d2.Scan(b) == nil && len(d2) == n, "rendered list read wrongly")
	default:
		var d sqltype.StringSlice[string]
		sym.Assert(d.Scan(b) == nil && eqList(d, ss), "rendered list read wrongly")
	}
}

func eqList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// escapes of JSON strings
func S02_Escapes() {
	in := sym.Bytes("in", 1, sym.B(6, 7))
	b := []byte(`["\`)
	b = append(b, in...)
	b = append(b, `"]`...)
	for _, c := range in[1:] {
		sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), c == 'A', c == 'D', c == '\\', c == 'u'))
	}
	var d sqltype.StringSlice[string]
	err := d.Scan(b)
	el, good := hlib.JSONArray(string(b))
	if good && len(el) == 1 {
		sym.Cover("valid")
		sym.Assert(err == nil, "well-formed list rejected")
		if err == nil {
			sym.Assert(len(d) == 1 && string(d[0]) == el[0].S, "element read wrongly")
		}
	} else {
		sym.Assert(err != nil || loose(string(b), '[', ']', func(string) bool { return true }), "malformed text accepted")
	}
}
