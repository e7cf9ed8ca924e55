// Package jsn checks columns kept as JSON.
package main

import (
	"errors"
	"strconv"

	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symjson"
)

type meta struct {
	A int8   `json:"a,omitempty"`
	B *int8  `json:"b,omitempty"`
	T string `json:"t,omitempty"`
}

// own has a form of its own: a text of one letter.
type own struct{ C byte }

func (o own) MarshalJSON() ([]byte, error) { return []byte{'"', o.C, '"'}, nil }

func (o *own) UnmarshalJSON(b []byte) error {
	if len(b) != 3 || b[0] != '"' {
		return errors.New("not a letter")
	}
	o.C = b[1]
	return nil
}

// far is the same with methods of its pointer.
type far struct{ C byte }

func (o *far) MarshalJSON() ([]byte, error) { return []byte{'"', o.C, '"'}, nil }

func (o *far) UnmarshalJSON(b []byte) error { return (*own)(o).UnmarshalJSON(b) }

type table map[string]int8

func init() {
	symjson.Into, symjson.From = into, from
}

func num(v *int8, n symjson.Node) error { return symjson.Int(v, n) }

func intoMeta(v *meta, n symjson.Node) error {
	if n.Kind == 'n' {
		return nil
	}
	if n.Kind != '{' {
		return symjson.ErrType
	}
	var first error
	for i, k := range n.Keys {
		var err error
		switch k {
		case "a", "A":
			err = symjson.Int(&v.A, n.Elems[i])
		case "b", "B":
			err = symjson.Ptr(&v.B, n.Elems[i], num)
		case "t", "T":
			err = symjson.Str(&v.T, n.Elems[i])
		}
		if err != nil && first == nil {
			first = err
		}
	}
	return first
}

func intoMap(v *map[string]int8, n symjson.Node) error { return symjson.Map(v, n, num) }
func intoList(v *[]int8, n symjson.Node) error         { return symjson.Slice(v, n, num) }
func intoMetas(v *[]meta, n symjson.Node) error        { return symjson.Slice(v, n, intoMeta) }
func intoPtrs(v *[]*int8, n symjson.Node) error {
	return symjson.Slice(v, n, func(e **int8, n symjson.Node) error { return symjson.Ptr(e, n, num) })
}
func intoPair(v *[2]int8, n symjson.Node) error {
	switch n.Kind {
	case 'n':
		return nil
	case '[':
	default:
		return symjson.ErrType
	}
	for i := range v {
		if i >= len(n.Elems) {
			v[i] = 0
		} else if err := num(&v[i], n.Elems[i]); err != nil {
			return err
		}
	}
	return nil
}
func intoOwn(v *own, n symjson.Node) error { return v.UnmarshalJSON(n.Raw) }
func intoFar(v *far, n symjson.Node) error { return v.UnmarshalJSON(n.Raw) }

func into(v any, n symjson.Node) error {
	switch v := v.(type) {
	case *meta:
		return intoMeta(v, n)
	case **meta:
		return symjson.Ptr(v, n, intoMeta)
	case *map[string]int8:
		return intoMap(v, n)
	case **map[string]int8:
		return symjson.Ptr(v, n, intoMap)
	case *table:
		return intoMap((*map[string]int8)(v), n)
	case **table:
		return symjson.Ptr(v, n, func(v *table, n symjson.Node) error { return intoMap((*map[string]int8)(v), n) })
	case *[]int8:
		return intoList(v, n)
	case **[]int8:
		return symjson.Ptr(v, n, intoList)
	case *[]meta:
		return intoMetas(v, n)
	case **[]meta:
		return symjson.Ptr(v, n, intoMetas)
	case *[]*int8:
		return intoPtrs(v, n)
	case **[]*int8:
		return symjson.Ptr(v, n, intoPtrs)
	case *[2]int8:
		return intoPair(v, n)
	case **[2]int8:
		return symjson.Ptr(v, n, intoPair)
	case **own:
		return symjson.Ptr(v, n, intoOwn)
	case **far:
		return symjson.Ptr(v, n, intoFar)
	}
	panic("jsn: type not supported")
}

func metaText(m meta) string {
	s := "{"
	sep := func() {
		if len(s) > 1 {
			s += ","
		}
	}
	if m.A != 0 {
		s += `"a":` + dec(m.A)
	}
	if m.B != nil {
		sep()
		s += `"b":` + dec(*m.B)
	}
	if m.T != "" {
		sep()
		s += `"t":"` + m.T + `"`
	}
	return s + "}"
}

func dec(i int8) string { return strconv.Itoa(int(i)) }

func listText[T any](nul bool, l []T, f func(T) string) string {
	if nul {
		return "null"
	}
	s := "["
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += f(x)
	}
	return s + "]"
}

func mapText(m map[string]int8) string {
	if m == nil {
		return "null"
	}
	s := "{"
	for _, k := range keys {
		if v, ok := m[k]; ok {
			if len(s) > 1 {
				s += ","
			}
			s += `"` + k + `":` + dec(v)
		}
	}
	return s + "}"
}

func ptrText(p *int8) string {
	if p == nil {
		return "null"
	}
	return dec(*p)
}

// keys are those of maps, sorted as they are written.
var keys = []string{"k", "l"}

func from(v any) ([]byte, error) {
	s := "null"
	switch v := v.(type) {
	case meta:
		s = metaText(v)
	case *meta:
		if v != nil {
			s = metaText(*v)
		}
	case **meta:
		return from(*v)
	case map[string]int8:
		s = mapText(v)
	case *map[string]int8:
		if v != nil {
			s = mapText(*v)
		}
	case **map[string]int8:
		return from(*v)
	case table:
		s = mapText(v)
	case *table:
		if v != nil {
			s = mapText(*v)
		}
	case **table:
		return from(*v)
	case []int8:
		s = listText(v == nil, v, dec)
	case *[]int8:
		if v != nil {
			return from(*v)
		}
	case **[]int8:
		return from(*v)
	case []meta:
		s = listText(v == nil, v, metaText)
	case *[]meta:
		if v != nil {
			return from(*v)
		}
	case **[]meta:
		return from(*v)
	case []*int8:
		s = listText(v == nil, v, ptrText)
	case *[]*int8:
		if v != nil {
			return from(*v)
		}
	case **[]*int8:
		return from(*v)
	case [2]int8:
		s = listText(false, v[:], dec)
	case *[2]int8:
		if v != nil {
			return from(*v)
		}
	case **[2]int8:
		return from(*v)
	case own:
		return v.MarshalJSON()
	case *own:
		if v != nil {
			return v.MarshalJSON()
		}
	case **own:
		return from(*v)
	case far:
		s = `{"C":` + strconv.Itoa(int(v.C)) + `}`
	case *far:
		if v != nil {
			return v.MarshalJSON()
		}
	case **far:
		return from(*v)
	default:
		panic("jsn: type not supported")
	}
	return []byte(s), nil
}

// What follows draws and compares values.

func letter(n string) byte {
	c := sym.Uint8(n)
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	return c
}

func small(n string) int8 {
	i := sym.Int8(n)
	if sym.Tier() == 0 {
		sym.Assume(sym.And(i >= -9, i <= 19))
	}
	return i
}

func aMeta(n string) meta {
	m := meta{A: small(n + "a")}
	if sym.Choose(n+"b?", 2) == 1 {
		b := small(n + "b")
		m.B = &b
	}
	if sym.Choose(n+"t?", 2) == 1 {
		m.T = string([]byte{letter(n + "t")})
	}
	return m
}

func eqMeta(a, b meta) bool {
	return sym.And(a.A == b.A, sym.And(eqPtr(a.B, b.B), sym.EqStr(a.T, b.T)))
}

func eqPtr(a, b *int8) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func aMap(n string) map[string]int8 {
	if sym.Choose(n+"nil", 2) == 1 {
		return nil
	}
	m := map[string]int8{}
	for _, k := range keys {
		if sym.Choose(n+k, 2) == 1 {
			m[k] = small(n + "v" + k)
		}
	}
	return m
}

func eqMap(a, b map[string]int8) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for _, k := range keys {
		x, ok := a[k]
		y, has := b[k]
		if ok != has || ok && x != y {
			return false
		}
	}
	return true
}

func aTable(n string) table { return table(aMap(n)) }

func eqTable(a, b table) bool { return eqMap(a, b) }

// most is how long lists may be.
var most = 2

func list[T any](f func(string) T) func(string) []T {
	return func(n string) []T {
		k := sym.Choose(n+"len", 4)
		if k == 3 {
			return nil
		}
		sym.Assume(k <= most)
		l := []T{}
		for i := 0; i < k; i++ {
			l = append(l, f(n+strconv.Itoa(i)))
		}
		return l
	}
}

func eqList[T any](eq func(a, b T) bool) func(a, b []T) bool {
	return func(a, b []T) bool {
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		same := true
		for i := range a {
			same = sym.And(same, eq(a[i], b[i]))
		}
		return same
	}
}

func eqNum(a, b int8) bool { return a == b }

func aPtr(n string) *int8 {
	if sym.Choose(n+"nil", 2) == 1 {
		return nil
	}
	x := small(n)
	return &x
}

func aPair(n string) [2]int8 { return [2]int8{small(n + "0"), small(n + "1")} }

func eqPair(a, b [2]int8) bool { return a == b }

func anOwn(n string) own { return own{letter(n)} }

func eqOwn(a, b own) bool { return a == b }

func aFar(n string) far { return far{letter(n)} }

func eqFar(a, b far) bool { return a == b }

// aBrief has one of its fields.
func aBrief(n string) meta {
	switch sym.Choose(n+"which", 3) {
	case 0:
		return meta{A: small(n + "a")}
	case 1:
		b := small(n + "b")
		return meta{B: &b}
	}
	return meta{T: string([]byte{letter(n + "t")})}
}
