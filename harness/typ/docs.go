package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	kind1 "github.com/si3nloong/sqlgen/zzverif/gen/model/99x/kind"
	unit "github.com/si3nloong/sqlgen/zzverif/gen/model/go-unit"
	kind0 "github.com/si3nloong/sqlgen/zzverif/gen/model/kind"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symjson"
)

func init() { symjson.Into, symjson.From = into, from }

func intoNum(v *int64, n symjson.Node) error  { return symjson.Int(v, n) }
func intoStr(v *string, n symjson.Node) error { return symjson.Str(v, n) }
func intoStrPtr(v **string, n symjson.Node) error {
	return symjson.Ptr(v, n, intoStr)
}

func intoMeta(v *model.Meta, n symjson.Node) error {
	if n.Kind == 'n' {
		return nil
	}
	if n.Kind != '{' {
		return symjson.ErrType
	}
	for i, k := range n.Keys {
		var err error
		switch k {
		case "a":
			err = intoNum(&v.A, n.Elems[i])
		case "t":
			err = intoStrPtr(&v.T, n.Elems[i])
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func intoPair(v *kind0.Pair[kind1.Kind], n symjson.Node) error {
	if n.Kind != '{' {
		return symjson.ErrType
	}
	for i, k := range n.Keys {
		var err error
		switch k {
		case "k":
			err = symjson.Int(&v.K, n.Elems[i])
		case "v":
			err = symjson.Str(&v.V, n.Elems[i])
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func into(v any, n symjson.Node) error {
	switch v := v.(type) {
	case *model.Meta:
		return intoMeta(v, n)
	case **model.Meta:
		return symjson.Ptr(v, n, intoMeta)
	case *map[string]int64:
		return symjson.Map(v, n, intoNum)
	case *model.Counts:
		return symjson.Map((*map[string]int64)(v), n, intoNum)
	case *kind0.Pair[kind1.Kind]:
		return intoPair(v, n)
	case *[]model.Meta:
		return symjson.Slice(v, n, intoMeta)
	case *[]*string:
		return symjson.Slice(v, n, intoStrPtr)
	case *[2]int64:
		if n.Kind != '[' {
			return symjson.ErrType
		}
		for i := range v {
			if i >= len(n.Elems) {
				v[i] = 0
			} else if err := intoNum(&v[i], n.Elems[i]); err != nil {
				return err
			}
		}
		return nil
	}
	panic("typ: no JSON for the type")
}

func metaText(m model.Meta) string {
	s := "{"
	if m.A != 0 {
		s += `"a":` + strconv.FormatInt(m.A, 10)
	}
	if m.T != nil {
		if len(s) > 1 {
			s += ","
		}
		s += `"t":` + strText(m.T)
	}
	return s + "}"
}

func strText(p *string) string {
	if p == nil {
		return "null"
	}
	return `"` + *p + `"`
}

func listText[T any](l []T, f func(T) string) string {
	if l == nil {
		return "null"
	}
	s := "["
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += f(x)
	}
	return s + "]"
}

// keyK is the only key of maps.
const keyK = "k"

func mapText(m map[string]int64) string {
	if m == nil {
		return "null"
	}
	if v, ok := m[keyK]; ok {
		return `{"` + keyK + `":` + strconv.FormatInt(v, 10) + `}`
	}
	return "{}"
}

func from(v any) ([]byte, error) {
	switch v := v.(type) {
	case model.Meta:
		return []byte(metaText(v)), nil
	case map[string]int64:
		return []byte(mapText(v)), nil
	case model.Counts:
		return []byte(mapText(v)), nil
	case []model.Meta:
		return []byte(listText(v, metaText)), nil
	case []*string:
		return []byte(listText(v, strText)), nil
	case [2]int64:
		return []byte(listText(v[:], func(i int64) string { return strconv.FormatInt(i, 10) })), nil
	case kind0.Pair[kind1.Kind]:
		return []byte(`{"k":` + strconv.Itoa(int(v.K)) + `,"v":"` + string(v.V) + `"}`), nil
	case *kind0.Pair[kind1.Kind]:
		if v != nil {
			return from(*v)
		}
	case *model.Meta:
		if v != nil {
			return from(*v)
		}
	case *map[string]int64:
		if v != nil {
			return from(*v)
		}
	case *model.Counts:
		if v != nil {
			return from(*v)
		}
	case *[]model.Meta:
		if v != nil {
			return from(*v)
		}
	case *[]*string:
		if v != nil {
			return from(*v)
		}
	case *[2]int64:
		if v != nil {
			return from(*v)
		}
	case nil:
	default:
		panic("typ: no JSON for the type")
	}
	return []byte("null"), nil
}

func smallNum(n string) int64 { return int64(digit(n)) - 4 }

func word(n string) string {
	c := sym.Uint8(n)
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	return string([]byte{c})
}

func aMeta(n string, which int) func() model.Meta {
	a, t := smallNum(n+"a"), word(n+"t")
	return func() model.Meta {
		switch which {
		case 1:
			return model.Meta{A: a}
		case 2:
			return model.Meta{T: ptr(t, true)}
		}
		return model.Meta{}
	}
}

func eqMeta(a, b model.Meta) bool { return sym.And(a.A == b.A, sameBy(a.T, b.T, eqStr[string])) }

func eqMap(a, b map[string]int64) bool {
	x, ok := a[keyK]
	y, has := b[keyK]
	return (a == nil) == (b == nil) && len(a) == len(b) && ok == has && (!ok || x == y)
}

// docsField is the field that has a value: the same one in both records.
var docsField int

var kDocs = kind[model.Docs]{"docs", cols(7), func(n string) func(int64) model.Docs {
	if n == "a." {
		docsField = sym.Choose(n+"field", 7)
	}
	k, how := docsField, sym.Choose(n+"how", 3)
	is := func(f int) int {
		if f == k {
			return how
		}
		return 0
	}
	a, b, e := aMeta(n+"a", is(0)), aMeta(n+"b", is(1)), aMeta(n+"e", 1+is(4)%2)
	num, w := smallNum(n+"num"), word(n+"w")
	m := func(f int) map[string]int64 {
		switch is(f) {
		case 1:
			return map[string]int64{}
		case 2:
			return map[string]int64{keyK: num}
		}
		return nil
	}
	return func(id int64) model.Docs {
		d := model.Docs{ID: id, A: a(), C: m(2), D: m(3)}
		if is(1) > 0 {
			x := b()
			d.B = &x
		}
		if is(4) > 0 {
			d.E = []model.Meta{e()}
		}
		if is(5) > 0 {
			d.F = [2]int64{num, 1}
		}
		if is(6) > 0 {
			d.G = []*string{nil, ptr(w, true)}[:is(6)]
		}
		return d
	}
}, func(x, y model.Docs) bool {
	return all(x.ID == y.ID, eqMeta(x.A, y.A), sameBy(x.B, y.B, eqMeta), eqMap(x.C, y.C), eqMap(x.D, y.D),
		(x.E == nil) == (y.E == nil), lists(x.E, y.E, eqMeta), x.F == y.F, (x.G == nil) == (y.G == nil),
		lists(x.G, y.G, func(a, b *string) bool { return sameBy(a, b, eqStr[string]) }))
}, func(m *model.Docs, id int64) { m.ID = id }}

var kForeign = kind[model.Foreign]{"foreign", cols(6), func(n string) func(int64) model.Foreign {
	a, b, w := digit(n+"a"), word(n+"b"), word(n+"w")
	set := sym.Choose(n+"set", 2)
	c := halves[2*set]
	return func(id int64) model.Foreign {
		return model.Foreign{ID: id, A: kind0.Kind(a), B: kind1.Kind(b), C: ptr(unit.Unit(c), set == 1), E: []kind1.Kind{kind1.Kind(w)}[:set],
			F: kind0.Pair[kind1.Kind]{K: kind0.Kind(a), V: kind1.Kind(w)}}
	}
}, func(x, y model.Foreign) bool {
	return all(x.ID == y.ID, x.A == y.A, eqStr(x.B, y.B), sameBy(x.C, y.C, func(a, b unit.Unit) bool { return eqF64(float64(a), float64(b)) }),
		x.D == y.D, lists(x.E, y.E, eqStr[kind1.Kind]), x.F.K == y.F.K, eqStr(x.F.V, y.F.V))
}, func(m *model.Foreign, id int64) { m.ID = id }}
