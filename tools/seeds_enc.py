E_ = "sequel/encoding"
seed("e01-uint16-as-32", "E01", "a value between 65536 and 2^32-1 delivered as text for a uint16 field",
     "numbers that do not fit a 16-bit unsigned field are wrapped instead of refused",
     [(E_ + "/uint.go", "		bitSize: 16,", "		bitSize: 32,")], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	v := uint16(7)
	if err := Uint16Scanner[uint16](&v).Scan([]byte("65537")); err == nil || v != 7 {
		t.Fatal("out-of-range text was accepted", v, err)
	}
}
''')
seed("e01-base0", "E01", "integer text with a leading zero or a base prefix",
     "text such as 010 is read as octal and 0x10 as hexadecimal",
     [(E_ + "/int.go", "len(vi)), 10, i.bitSize)", "len(vi)), 0, i.bitSize)")], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	v := int32(7)
	if err := Int32Scanner[int32](&v).Scan([]byte("010")); err != nil || v != 10 {
		t.Fatal("leading zero changes the number", v, err)
	}
}
''')
seed("e02-float32-ptr-null", "E02", "NULL read into a pointer-to-float32 field that pointed to an earlier value",
     "the field is not reset to nil, the earlier value is zeroed in place instead",
     [(E_ + "/float.go", '''func (f *float32Scanner[T, Addr]) Scan(v any) error {
	switch vi := v.(type) {
	case nil:
		switch any(f.addr).(type) {
		case **T:
			*(**T)(unsafe.Pointer(f.addr)) = nil
			return nil''', '''func (f *float32Scanner[T, Addr]) Scan(v any) error {
	switch vi := v.(type) {
	case nil:
		switch any(f.addr).(type) {
		case **T:
			if p := *(**T)(unsafe.Pointer(f.addr)); p != nil && *p != 0 {
				*p = 0
			} else {
				*(**T)(unsafe.Pointer(f.addr)) = nil
			}
			return nil''')], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	old := float32(2.5)
	p := &old
	if err := Float32Scanner[float32](&p).Scan(nil); err != nil || p != nil || old != 2.5 {
		t.Fatal("NULL did not reset the pointer", p, old, err)
	}
}
''')
seed("e02-json-null-keeps", "E02", "NULL read into a JSON field whose type is a struct holding an earlier value",
     "NULL leaves the JSON field as the previous row left it",
     [(E_ + "/json.go", '''			var v T
			*(*T)(unsafe.Pointer(j.v)) = v
			return nil''', '''			return json.Unmarshal([]byte("null"), j.v)''')], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	v := struct{ A int }{A: 3}
	if err := JSONScanner(&v).Scan(nil); err != nil || v.A != 0 {
		t.Fatal("NULL left the earlier value", v, err)
	}
}
''')
seed("e03-pg-string-alias", "E03", "a string array with unquoted elements, read from a buffer the driver reuses",
     "string array elements point into the driver's buffer and change with the next row",
     [("sequel/driver/postgres/pgtype/string_array.go", "			b[i] = T(v)\n", "			b[i] = T(unsafe.String(unsafe.SliceData(v), len(v)))\n")],
     "sequel/driver/postgres/pgtype", '''
package pgtype

import "testing"

func TestDemo(t *testing.T) {
	buf := []byte("{abc,def}")
	var a StringArray[string]
	if err := a.Scan(buf); err != nil {
		t.Fatal(err)
	}
	copy(buf, "{xxx,xxx}")
	if a[0] != "abc" || a[1] != "def" {
		t.Fatal("elements changed with the buffer", a)
	}
}
''')
seed("e04-bytes-negated-bound", "E04", "a byte value exactly one byte longer than the array, delivered as []byte, while the array is a window of a larger slice",
     "one byte is written past the array (or the read panics) instead of being an error",
     [(E_ + "/byte_array.go", '''	case []byte:
		if len(b) > s.size {''', '''	case []byte:
		if len(b) > max(s.size, cap(s.v)) {'''),
      (E_ + "/byte_array.go", '''			s.v[i] = T(b[i])
		}''', '''			s.v[:cap(s.v)][i] = T(b[i])
		}
		if len(b) > s.size {
			return nil
		}''')], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	back := [6]byte{1, 2, 3, 4, 5, 6}
	if err := ByteArrayScanner(back[:4], 4).Scan([]byte("abcde")); err == nil || back != [6]byte{1, 2, 3, 4, 5, 6} {
		t.Fatal("overlong value was accepted or changed memory", back, err)
	}
}
''')
seed("e05-bool-int-positive", "E05", "a negative integer delivered for a boolean field",
     "negative integers read as false although any non-zero integer is true",
     [(E_ + "/bool.go", "val := T(vi != 0)", "val := T(vi > 0)")], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	v := false
	if err := BoolScanner[bool](&v).Scan(int64(-1)); err != nil || !v {
		t.Fatal("-1 is not true", v, err)
	}
}
''')
seed("e05-float64-as-32", "E05", "text of a float with more digits than a 32-bit float holds, delivered as string (not bytes) for a float64 field",
     "the value is rounded to 32-bit precision",
     [(E_ + "/float.go", "f64, err := strconv.ParseFloat(vi, 64)", "f64, err := strconv.ParseFloat(vi, 32)")], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	v := 0.0
	if err := Float64Scanner[float64](&v).Scan("16777217"); err != nil || v != 16777217 {
		t.Fatal("digits were lost", v, err)
	}
}
''')
seed("e03-string-shared-ptr", "E03", "two rows read into pointer string fields through one scanner with a lenient integer value",
     "the integer is written through the existing pointer, so a value taken from an earlier row changes",
     [(E_ + "/string.go", '''			val := T(strconv.FormatInt(vi, 10))
			switch any(s.addr).(type) {
			case **T:
				*(**T)(unsafe.Pointer(s.addr)) = &val
				return nil''', '''			val := T(strconv.FormatInt(vi, 10))
			switch any(s.addr).(type) {
			case **T:
				if p := *(**T)(unsafe.Pointer(s.addr)); p != nil && len(*p) > 0 {
					*p = val
					return nil
				}
				*(**T)(unsafe.Pointer(s.addr)) = &val
				return nil''')], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	old := "first"
	p := &old
	if err := StringScanner[string](&p).Scan(int64(12)); err != nil || *p != "12" || old != "first" {
		t.Fatal("the earlier row's value changed", *p, old, err)
	}
}
''')
seed("e06-int-neg-sep", "E06", "an integer list whose later element is negative and a single digit list before it",
     "large unsigned values are written as negative numbers",
     [(E_ + "/marshaler.go", '''blr.WriteString("," + strconv.FormatUint((uint64)(list[i]), 10))''', '''blr.WriteString("," + strconv.FormatInt((int64)(list[i]), 10))''')], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	if s := MarshalUintSlice([]uint64{1, 1 << 63}); s != "[1,9223372036854775808]" {
		t.Fatal(s)
	}
}
''')
seed("e07-frac-trim", "E07", "a time text with more than six fraction digits",
     "digits after the sixth of the fraction are dropped",
     [(E_ + "/time.go", '''		return time.Parse("2006-01-02 15:04:05.999999", str)''', '''		if len(str) > len("2006-01-02 15:04:05.999999") {
			str = str[:len("2006-01-02 15:04:05.999999")]
		}
		return time.Parse("2006-01-02 15:04:05.999999", str)''')], E_, '''
package encoding

import "testing"
import "time"

func TestDemo(t *testing.T) {
	var v time.Time
	if err := TimeScanner(&v).Scan("2024-02-29 01:02:03.123456789"); err != nil || v.Nanosecond() != 123456789 {
		t.Fatal(v, err)
	}
}
''')
seed("e07-partial-on-error", "E07", "an impossible date delivered as bytes into a field that held a value",
     "the field is cleared although the read failed",
     [(E_ + "/time.go", '''		ts, err := parseTime(unsafe.String(unsafe.SliceData(vt), len(vt)))
		if err != nil {
			return err
		}
		switch vi := any(t.addr).(type) {
		case **time.Time:
			*vi = &ts
			return nil
		case *time.Time:
			*vi = ts
			return nil
''', '''		ts, err := parseTime(unsafe.String(unsafe.SliceData(vt), len(vt)))
		switch vi := any(t.addr).(type) {
		case **time.Time:
			if err == nil {
				*vi = &ts
			}
			return err
		case *time.Time:
			*vi = ts
			return err
''')], E_, '''
package encoding

import "testing"
import "time"

func TestDemo(t *testing.T) {
	v := time.Unix(5, 0)
	if err := TimeScanner(&v).Scan([]byte("2023-02-29")); err == nil || !v.Equal(time.Unix(5, 0)) {
		t.Fatal(v, err)
	}
}
''')
PG_ = "sequel/driver/postgres/pgtype"
seed("p01-quote-comma-only", "P01", "a string element containing a backslash not preceded by a quote",
     "backslashes in elements are not escaped, so the element reads back differently",
     [(PG_ + "/array.go", '''		i := bytes.IndexAny(v, `"\\`)''', '''		i := bytes.IndexByte(v, '"')''')], PG_, '''
package pgtype

import "testing"

func TestDemo(t *testing.T) {
	v, _ := StringArray[string]{`a\\b`}.Value()
	var a StringArray[string]
	if err := a.Scan(v); err != nil || a[0] != `a\\b` {
		t.Fatal(v, a, err)
	}
}
''')
seed("p01-empty-keeps", "P01", "reading an empty array into a destination that holds elements",
     "an empty array leaves the elements of the earlier row in place",
     [(PG_ + "/float_array.go", '''	elems, err := scanLinearArray(src, []byte{','}, "Float64Array")
	if err != nil {
		return err
	}
	if *a != nil && len(elems) == 0 {
		*a = (*a)[:0]''', '''	elems, err := scanLinearArray(src, []byte{','}, "Float64Array")
	if err != nil {
		return err
	}
	if *a != nil && len(elems) == 0 {
		*a = (*a)[:len(elems):cap(*a)][:max(0, len(*a)-cap(*a)+len(elems)*2)]
		if len(src) == 2 {
			*a = (*a)[:min(1, cap(*a))]
		}''')], PG_, '''
package pgtype

import "testing"

func TestDemo(t *testing.T) {
	a := Float64Array[float64]{1, 2}
	if err := a.Scan("{}"); err != nil || len(a) != 0 {
		t.Fatal(a, err)
	}
}
''')
seed("p02-unterminated", "P02", "a literal whose closing brace is missing after a quoted element",
     "a truncated array literal is accepted",
     [(PG_ + "/array.go", '''	if depth > 0 {
		err = fmt.Errorf("pgtype: unable to parse array; expected %q at offset %d", '}', i)''', '''	if depth > 0 && (len(elems) == 0 || src[i-1] != '"') {
		err = fmt.Errorf("pgtype: unable to parse array; expected %q at offset %d", '}', i)''')], PG_, '''
package pgtype

import "testing"

func TestDemo(t *testing.T) {
	var a StringArray[string]
	if err := a.Scan(`{"a","b"`); err == nil {
		t.Fatal("truncated literal accepted", a)
	}
}
''')
seed("p02-null-lowercase", "P02", "a quoted empty string after another element",
     "a quoted empty string is taken for NULL and refused",
     [(PG_ + "/array.go", '''					case '"':
						elems = append(elems, elem)''', '''					case '"':
						if len(elem) == 0 && len(elems) > 0 {
							elem = nil
						}
						elems = append(elems, elem)''')], PG_, '''
package pgtype

import "testing"

func TestDemo(t *testing.T) {
	var a StringArray[string]
	if err := a.Scan(`{"a",""}`); err != nil || len(a) != 2 {
		t.Fatal(a, err)
	}
}
''')
seed("p03-backslash-end", "P03", "a string ending in a backslash",
     "a trailing backslash escapes the closing quote, so the literal does not end",
     [("sequel/driver/postgres/pgutil/pgutil.go", """		case '\\\\':
			buf = append(buf, `\\\\`...)""", """		case '\\\\':
			buf = append(buf, `\\\\`[:min(2, len(s))]...)""")], "sequel/driver/postgres/pgutil", '''
package pgutil

import "testing"

func TestDemo(t *testing.T) {
	if q := Quote(`a\\`); q != `E'a\\\\'` {
		t.Fatal(q)
	}
}
''')
SL_ = "sequel/sqltype"
seed("s01-f32-prec", "S01", "a list of two or more floats with an element, not the first, that needs 16 or 17 digits",
     "elements after the first are written with 15 digits",
     [(SL_ + "/float_slice.go", '''			b = strconv.AppendFloat(b, (float64)(a[i]), 'f', -1, 64)''', '''			b = strconv.AppendFloat(b, (float64)(a[i]), 'g', 15, 64)''')], SL_, '''
package sqltype

import "testing"

func TestDemo(t *testing.T) {
	x := 0.1
	in := Float64Slice[float64]{1, x + 0.2}
	v, _ := in.Value()
	var a Float64Slice[float64]
	if err := a.Scan(v); err != nil || a[1] != in[1] {
		t.Fatal(v, a, err)
	}
}
''')
seed("s02-escape-end", "S02", "a string element whose text ends inside an escape, followed by a closing bracket",
     "text with nested brackets inside an open string is accepted",
     [(SL_ + "/string_slice.go", '''	if depth > 0 {
		err = fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', i)
	}''', '''	if depth > 0 && len(elems) > 0 {
		err = fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', i)
	}''')], SL_, '''
package sqltype

import "testing"

func TestDemo(t *testing.T) {
	var a StringSlice[string]
	if err := a.Scan(`["a`); err == nil {
		t.Fatal("unterminated text accepted", a)
	}
}
''')
seed("j01-shared-buffer", "J01", "two JSON columns in one statement",
     "both columns are stored with the bytes of the second",
     [(E_ + "/json.go", "		buf := new(bytes.Buffer)\n", "		buf := jsonBuffer\n		buf.Reset()\n"),
      (E_ + "/json.go", "func (j jsonValuer[T]) Value()", "var jsonBuffer = new(bytes.Buffer)\n\nfunc (j jsonValuer[T]) Value()")], E_, '''
package encoding

import "testing"

func TestDemo(t *testing.T) {
	a, _ := JSONValue([]int{1, 2}).Value()
	b, _ := JSONValue([]int{3, 4}).Value()
	var x []int
	if err := JSONScanner(&x).Scan(a); err != nil || x[0] != 1 {
		t.Fatal(a, b, err)
	}
}
''')
seed("j01-failed-as-null", "J01", "a value whose MarshalJSON fails",
     "the column is stored as NULL without an error",
     [(E_ + "/json.go", "		return vj.MarshalJSON()\n", "		if b, err := vj.MarshalJSON(); err == nil {\n			return b, nil\n		}\n		return nil, nil\n")], E_, '''
package encoding

import (
	"errors"
	"testing"
)

type bad struct{}

func (bad) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

func TestDemo(t *testing.T) {
	if v, err := JSONValue(bad{}).Value(); err == nil {
		t.Fatal("stored as", v)
	}
}
''')
