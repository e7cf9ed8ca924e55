package main

import (
	"database/sql"
	"encoding/json"
	"errors"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// given is the column as drivers hand it out.
func given(b []byte) any {
	switch sym.Choose("driver", 3) {
	case 0:
		return string(b)
	case 1:
		return json.RawMessage(b)
	}
	return b
}

// stored is what a driver is handed.
func stored(v any, err error) []byte {
	sym.Assert(err == nil, "value refused")
	switch v := v.(type) {
	case []byte:
		return v
	case string:
		return []byte(v)
	}
	sym.Assert(false, "value is no text")
	return nil
}

// trip writes a value and reads it over an earlier one.
func trip[T any](make func(n string) T, eq func(a, b T) bool) {
	x, old := make("x"), make("old")
	b := stored(encoding.JSONValue(x).Value())
	d := old
	err := encoding.JSONScanner(&d).Scan(given(b))
	sym.Assert(err == nil, "read back")
	sym.Assert(eq(d, x), "comes back equal")
	sym.Cover("back")
}

// trips does so with a pointer.
func trips[T any](make func(n string) T, eq func(a, b T) bool) {
	x := make("x")
	var d *T
	if sym.Choose("dest", 2) == 1 {
		old := make("old")
		d = &old
	}
	b := stored(encoding.JSONValue(&x).Value())
	err := encoding.JSONScanner(&d).Scan(given(b))
	sym.Assert(err == nil, "read back")
	sym.Assert(d != nil && eq(*d, x), "comes back equal")
	sym.Cover("back")
}

func J01_Trip_Meta()  { trip(aMeta, eqMeta) }
func J01_Trip_Map()   { trip(aMap, eqMap) }
func J01_Trip_Table() { trip(aTable, eqTable) }
func J01_Trip_List()  { trip(list(small), eqList(eqNum)) }
func J01_Trip_Metas() {
	most = sym.B(1, 2)
	trip(list(aBrief), eqList(eqMeta))
	most = 2
}
func J01_Trip_Ptrs()  { trip(list(aPtr), eqList(eqPtr)) }
func J01_Trip_Pair()  { trip(aPair, eqPair) }
func J01_Trip_Own()   { trip(anOwn, eqOwn) }
func J01_Trip_Far()   { trip(aFar, eqFar) }
func J01_Trips_Meta() { trips(aMeta, eqMeta) }
func J01_Trips_Pair() { trips(aPair, eqPair) }
func J01_Trips_Own()  { trips(anOwn, eqOwn) }
func J01_Trips_Far()  { trips(aFar, eqFar) }
func J01_Trips_Map() {
	trips(func(n string) map[string]int8 { m := aMap(n); sym.Assume(m != nil); return m }, eqMap)
}

// null reads NULL over an earlier value.
func null[T any](old, zero T, eq func(a, b T) bool) {
	d := old
	var s sql.Scanner = encoding.JSONScanner(&d)
	sym.Assert(s.Scan(nil) == nil, "NULL rejected")
	sym.Assert(eq(d, zero), "NULL does not reset")
	p := &old
	sym.Assert(encoding.JSONScanner(&p).Scan(nil) == nil, "NULL rejected")
	sym.Assert(p == nil, "NULL does not make nil")
	sym.Cover("null")
}

func J01_Null() {
	switch sym.Choose("type", 8) {
	case 0:
		null(aMeta("old"), meta{}, eqMeta)
	case 1:
		null(aMap("old"), nil, eqMap)
	case 2:
		null(list(small)("old"), nil, eqList(eqNum))
	case 3:
		null(aPair("old"), [2]int8{}, eqPair)
	case 4:
		null(anOwn("old"), own{}, eqOwn)
	case 5:
		null(aFar("old"), far{}, eqFar)
	case 6:
		d := json.RawMessage{'"', letter("old"), '"'}
		sym.Assert(encoding.JSONScanner(&d).Scan(nil) == nil, "NULL rejected")
		sym.Assert(len(d) == 0, "NULL does not reset")
	case 7:
		null(aTable("old"), nil, eqTable)
	}
}

func blank(c byte) bool { return c == ' ' || c == '\n' || c == '\r' || c == '\t' }

// J01_Tail: text after the value is refused, unless it is blank.
func J01_Tail() {
	x := aMeta("x")
	tail := sym.Bytes("tail", 0, sym.B(1, 2))
	d, old := meta{A: 1}, meta{A: 1}
	err := encoding.JSONScanner(&d).Scan(given(append([]byte(metaText(x)), tail...)))
	ok := true
	for _, c := range tail {
		ok = sym.And(ok, blank(c))
	}
	sym.Assert((err == nil) == ok, "accepted just when whole")
	if err == nil {
		sym.Assert(eqMeta(d, x), "value")
		sym.Cover("accepted")
	} else {
		sym.Assert(eqMeta(d, old), "kept when refused")
		sym.Cover("refused")
	}
}

// J01_Text: any text is read as the list it is or refused.
func J01_Text() {
	b := sym.Bytes("text", 0, sym.B(4, 5))
	for _, c := range b {
		sym.Assume(sym.And(c < 0x80, c != '\\'))
		sym.Assume(sym.And(c != '.', sym.And(c != 'e', c != 'E')))
	}
	d := []int8{1}
	err := encoding.JSONScanner(&d).Scan(given(b))
	want, ok := lists(string(b))
	sym.Assert((err == nil) == ok, "accepted just when it is a list")
	if err == nil {
		sym.Assert(eqList(eqNum)(d, want), "value")
		sym.Cover("accepted")
	} else {
		sym.Assert(len(d) == 1 && d[0] == 1, "kept when refused")
		sym.Cover("refused")
	}
}

// lists reads a list of numbers by hand.
func lists(s string) ([]int8, bool) {
	i := 0
	skip := func() {
		for i < len(s) && blank(s[i]) {
			i++
		}
	}
	skip()
	if len(s)-i >= 4 && s[i:i+4] == "null" {
		i += 4
		skip()
		return nil, i == len(s)
	}
	if i >= len(s) || s[i] != '[' {
		return nil, false
	}
	i++
	l := []int8{}
	for {
		skip()
		if i >= len(s) {
			return nil, false
		}
		if s[i] == ']' && len(l) == 0 {
			break
		}
		v, neg, at := 0, false, i
		if len(s)-i >= 4 && s[i:i+4] == "null" {
			i += 4
		} else {
			if s[i] == '-' {
				neg = true
				i++
				at = i
			}
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				v = v*10 + int(s[i]-'0')
				i++
			}
			if i == at || s[at] == '0' && i > at+1 {
				return nil, false
			}
		}
		if neg {
			v = -v
		}
		if v > 127 || v < -128 {
			return nil, false
		}
		l = append(l, int8(v))
		skip()
		if i >= len(s) {
			return nil, false
		}
		if s[i] == ']' {
			break
		}
		if s[i] != ',' {
			return nil, false
		}
		i++
	}
	i++
	skip()
	return l, i == len(s)
}

// J01_Two: values written one after the other do not share bytes.
func J01_Two() {
	x, y := aBrief("x"), aBrief("y")
	a := stored(encoding.JSONValue(x).Value())
	b := stored(encoding.JSONValue(y).Value())
	var c, d meta
	sym.Assert(encoding.JSONScanner(&c).Scan(a) == nil, "read back")
	sym.Assert(encoding.JSONScanner(&d).Scan(b) == nil, "read back")
	sym.Assert(sym.And(eqMeta(c, x), eqMeta(d, y)), "comes back equal")
	sym.Cover("back")
}

// J01_Raw: text already in JSON is stored as it stands.
func J01_Raw() {
	b := sym.Bytes("raw", 1, 3)
	for _, c := range b {
		sym.Assume(sym.And(c >= '1', c <= '9'))
	}
	raw := json.RawMessage(append([]byte{'['}, append(b, ']')...))
	kept := string(raw)
	got := stored(encoding.JSONValue(raw).Value())
	sym.Assert(string(got) == kept, "stored as it stands")
	sym.Assert(string(raw) == kept, "value kept")
	sym.Cover("raw")
}

// bad has no JSON.
type bad struct{ N int8 }

var errBad = errors.New("no JSON")

func (b bad) MarshalJSON() ([]byte, error) {
	if b.N < 0 {
		return nil, errBad
	}
	return []byte("0"), nil
}

// J01_Fails: a value without JSON is refused.
func J01_Fails() {
	x := bad{sym.Int8("n")}
	v, err := encoding.JSONValue(x).Value()
	if sym.Choose("ptr", 2) == 1 {
		v, err = encoding.JSONValue(&x).Value()
	}
	if x.N < 0 {
		sym.Assert(err != nil, "accepted")
		sym.Cover("refused")
	} else {
		sym.Assert(string(stored(v, err)) == "0", "own form")
		sym.Cover("stored")
	}
}
