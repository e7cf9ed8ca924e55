package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a run-time value of the executor:
//
//	*Term      bool, integers, floats (IEEE bits), uintptr
//	Str        string: a view of a byte memory (cells hold *Term of width 8)
//	Slice      slice: Go slice over shared cells, so aliasing is exact
//	Struct     struct value, Array array value
//	*Val       pointer / unsafe.Pointer
//	Iface      interface value
//	*Map       map
//	*Func      function value
//	Tuple      multiple results
type Val interface{}

type Str []Val
type Slice []Val
type Struct []Val
type Array []Val
type Tuple []Val

type Iface struct {
	T types.Type // nil = nil interface
	V Val
}

type Func struct {
	fn     *ssa.Function
	env    []Val
	native func(m *Machine, args []Val) Val
	name   string
}

type Chan struct{ id int }

type mapEntry struct {
	k, v    Val
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // only for concrete keys
	symb    int                  // number of live symbolic keys
	n       int
}

// mapIter / strIter are the Range iterators
type mapIter struct {
	m   *Map
	pos int
	// snapshot semantic: entries appended during iteration are visited (allowed by Go)
}
type strIter struct {
	s   Str
	pos int
}

// opaque native payloads used by intrinsics
type Native struct{ v any }

func copyVal(v Val) Val {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	}
	return v
}

// basicWidth returns width and signedness for a scalar basic type; ok=false otherwise.
func basicWidth(t types.Type) (w uint8, signed, isFloat, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Int8:
		return 8, true, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false, true
	case types.Uint32:
		return 32, false, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true, true
	case types.Float32:
		return 32, true, true, true
	}
	return
}

func (m *Machine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, _, ok := basicWidth(u); ok {
			return m.T.C(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str(nil)
		case types.UnsafePointer, types.UntypedNil:
			return (*Val)(nil)
		case types.Complex64, types.Complex128:
			return Native{complex(0, 0)}
		}
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := m.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = m.zero(u.At(i).Type())
		}
		return tt
	}
	m.unsupported("zero value of %v", t)
	return nil
}

func (m *Machine) str(s string) Str {
	b := make(Str, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = constCache[8][s[i]]
	}
	return b
}

// concrete returns the Go string if every byte is constant.
func concrete(s []Val) (string, bool) {
	var sb strings.Builder
	sb.Grow(len(s))
	for _, v := range s {
		t := v.(*Term)
		if !t.isConst() {
			return "", false
		}
		sb.WriteByte(byte(t.val))
	}
	return sb.String(), true
}

// show renders a value for messages; symbolic bytes appear as their model values.
func (m *Machine) showStr(s []Val) string {
	var sb strings.Builder
	for _, v := range s {
		sb.WriteByte(byte(m.T.Eval(v.(*Term))))
	}
	return sb.String()
}

func (m *Machine) show(v Val) string {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprint(sext(x.val, x.w))
		}
		return fmt.Sprintf("sym(%d)", m.T.Eval(x))
	case Str:
		return fmt.Sprintf("%q", m.showStr(x))
	case Slice:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return m.show(Slice(x))
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + "(" + m.show(x.V) + ")"
	case *Val:
		if x == nil {
			return "nil"
		}
		return "&" + m.show(*x)
	case *Func:
		if x == nil {
			return "nil"
		}
		return "func"
	}
	return fmt.Sprintf("%T", v)
}

// eq returns the term for a == b (values of the same static type).
func (m *Machine) eq(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		return m.T.Eq(x, b.(*Term))
	case Str:
		return m.eqBytes(x, b.(Str))
	case Struct:
		y := b.(Struct)
		r := tTrue
		for i := range x {
			r = m.T.And(r, m.eq(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := tTrue
		for i := range x {
			r = m.T.And(r, m.eq(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Val:
		switch y := b.(type) {
		case *Val:
			return mkBool(x == y)
		}
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return mkBool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tFalse
		}
		if !types.Comparable(x.T) {
			m.rtPanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return m.eq(x.V, y.V)
	case *Map:
		return mkBool(x == b.(*Map))
	case *Func:
		y := b.(*Func)
		return mkBool(x == y)
	case Slice:
		y := b.(Slice)
		return mkBool(x == nil && y == nil)
	case *Chan:
		return mkBool(x == b.(*Chan))
	case Native:
		y, ok := b.(Native)
		return mkBool(ok && x.v == y.v)
	}
	m.unsupported("eq %T %T", a, b)
	return nil
}

func (m *Machine) eqBytes(x, y []Val) *Term {
	if len(x) != len(y) {
		return tFalse
	}
	r := tTrue
	for i := range x {
		tx, ty := x[i].(*Term), y[i].(*Term)
		if tx == ty {
			continue
		}
		r = m.T.And(r, m.T.Eq(tx, ty))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// ltBytes: lexicographic x < y
func (m *Machine) ltBytes(x, y []Val) *Term {
	n := min(len(x), len(y))
	r := mkBool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		tx, ty := x[i].(*Term), y[i].(*Term)
		r = m.T.Or(m.T.ULt(tx, ty), m.T.And(m.T.Eq(tx, ty), r))
	}
	return r
}

// ckey returns a canonical string for a fully concrete key.
func ckey(v Val) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.val), true
		}
	case Str:
		s, ok := concrete(x)
		return "s" + s, ok
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := ckey(x.V)
		return types.TypeString(x.T, nil) + ":" + k, ok
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d,%s;", len(k), k)
		}
		return sb.String(), true
	case Array:
		return ckey(Struct(x))
	case *Val:
		return fmt.Sprintf("p%p", x), true
	case *Func:
		return fmt.Sprintf("f%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case *Map:
		return fmt.Sprintf("m%p", x), true
	}
	return "", false
}

func (mp *Map) find(m *Machine, k Val) *mapEntry {
	if mp == nil {
		return nil
	}
	ck, ok := ckey(k)
	if ok && mp.symb == 0 {
		return mp.idx[ck]
	}
	if ok {
		if e := mp.idx[ck]; e != nil {
			return e
		}
	}
	for _, e := range mp.entries {
		if e.deleted {
			continue
		}
		if m.branch(m.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (mp *Map) set(m *Machine, k, v Val) {
	if e := mp.find(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	mp.entries = append(mp.entries, e)
	mp.n++
	if ck, ok := ckey(k); ok {
		if mp.idx == nil {
			mp.idx = map[string]*mapEntry{}
		}
		mp.idx[ck] = e
	} else {
		mp.symb++
	}
}

func (mp *Map) del(m *Machine, k Val) {
	e := mp.find(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	mp.n--
	if ck, ok := ckey(e.k); ok {
		delete(mp.idx, ck)
	} else {
		mp.symb--
	}
}
