package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term constructor. Every term is either a Bool (w==0) or a bit-vector
// of width 1..64. Floats are carried as their IEEE bit patterns (w 32 or 64).
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OExtract // val = lo bit
	OConcat
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OLAnd
	OLOr
	OLNot
	OIte
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFEq
	OFLt
	OFLe
	OFOfS  // signed int -> float(w)
	OFOfU  // unsigned int -> float(w)
	OFToS  // float -> signed int(w) (rtz)
	OFToU  // float -> unsigned
	OFConv // float -> float(w)
)

var opSMT = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OEq: "=", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OLAnd: "and", OLOr: "or", OLNot: "not", OIte: "ite",
}

type Term struct {
	op      Op
	w       uint8 // 0 = bool
	id      int32
	a, b, c *Term
	val     uint64
	name    string
	lo, hi  uint64 // unsigned range (bv only)
	emitted bool
	egen    uint32
	eval    uint64
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

// Terms is the per-path arena: hash-consing, variables, model evaluation.
type Terms struct {
	tab    map[tkey]*Term
	vars   []*Term
	next   int32
	model  map[int32]uint64
	gen    uint32
	consts map[[2]uint64]*Term // worker-level front of the process-wide constant table
}

var (
	constCache [65][256]*Term
	tTrue      = &Term{op: OConst, w: 0, val: 1, id: -1, lo: 1, hi: 1}
	tFalse     = &Term{op: OConst, w: 0, val: 0, id: -2}
)

func init() {
	id := int32(-3)
	for _, w := range []uint8{1, 8, 16, 32, 64} {
		for i := 0; i < 256; i++ {
			v := uint64(i) & mask(w)
			constCache[w][i] = &Term{op: OConst, w: w, val: v, id: id, lo: v, hi: v}
			id--
		}
	}
}

func NewTerms(consts map[[2]uint64]*Term) *Terms {
	return &Terms{consts: consts, tab: make(map[tkey]*Term), next: 1, model: map[int32]uint64{}, gen: 1}
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// bigConst: constants over 255 are not interned, so keyed lookups use a
// per-arena table.
func (T *Terms) C(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		return mkBool(v != 0)
	}
	if v < 256 && constCache[w][v] != nil {
		return constCache[w][v]
	}
	k := [2]uint64{uint64(w), v}
	if t := T.consts[k]; t != nil {
		return t
	}
	t := freeConst(w, v)
	T.consts[k] = t
	return t
}

func (T *Terms) Var(name string, w uint8, lo, hi uint64) *Term {
	t := &Term{op: OVar, w: w, val: uint64(len(T.vars)), name: fmt.Sprintf("v%d_%s", len(T.vars), sanitize(name)), id: T.next, lo: lo, hi: hi}
	T.next++
	T.vars = append(T.vars, t)
	return t
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func (T *Terms) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op: op, w: w, a: tid(a), b: tid(b), c: tid(c), val: val}
	if t := T.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: T.next}
	T.next++
	t.lo, t.hi = T.rng(t)
	T.tab[k] = t
	if w > 0 && t.lo == t.hi {
		r := T.C(w, t.lo)
		T.tab[k] = r
		return r
	}
	return t
}

// Alias makes later constructions of t yield u (t == u is on the path).
func (T *Terms) Alias(t, u *Term) {
	if t.op == OConst || t.op == OVar {
		return
	}
	T.tab[tkey{op: t.op, w: t.w, a: tid(t.a), b: tid(t.b), c: tid(t.c), val: t.val}] = u
}

func (T *Terms) rng(t *Term) (uint64, uint64) {
	m := mask(t.w)
	a, b := t.a, t.b
	switch t.op {
	case OAdd:
		hi, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && hi <= m {
			return a.lo + b.lo, hi
		}
		// x + (-k) where x >= k : treat constant b as subtraction
		if b.isConst() {
			k := (-b.val) & m
			if a.lo >= k && k != 0 {
				return a.lo - k, a.hi - k
			}
		}
	case OSub:
		if a.lo >= b.hi {
			return a.lo - b.hi, a.hi - b.lo
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OURem:
		if b.lo > 0 {
			if a.hi < b.lo {
				return a.lo, a.hi
			}
			return 0, b.hi - 1
		}
	case OAnd:
		return 0, min(a.hi, b.hi)
	case OOr, OXor:
		n := bits.Len64(a.hi | b.hi)
		var h uint64 = m
		if n < 64 {
			h = (uint64(1) << n) - 1
		}
		if h > m {
			h = m
		}
		var l uint64
		if t.op == OOr {
			l = max(a.lo, b.lo)
		}
		return l, h
	case ONeg:
		if a.lo >= 1 {
			return (-a.hi) & m, (-a.lo) & m
		}
	case OZExt:
		return a.lo, a.hi
	case OSExt:
		if a.lo >= uint64(1)<<(a.w-1) {
			d := m &^ mask(a.w)
			return a.lo | d, a.hi | d
		}
		if a.hi < uint64(1)<<(a.w-1) {
			return a.lo, a.hi
		}
	case OExtract:
		if t.val == 0 && a.hi <= m {
			return a.lo, a.hi
		}
	case OLShr:
		if b.isConst() && b.val < 64 {
			return a.lo >> b.val, a.hi >> b.val
		}
		return 0, a.hi
	case OShl:
		if b.isConst() && b.val < 64 && bits.LeadingZeros64(a.hi) >= int(b.val) && a.hi<<b.val <= m {
			return a.lo << b.val, a.hi << b.val
		}
	case OIte:
		return min(b.lo, t.c.lo), max(b.hi, t.c.hi)
	}
	return 0, m
}

// ---- constructors with simplification ----

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == OLNot {
		return a.a
	}
	switch a.op {
	case OULt:
		return T.ULe(a.b, a.a)
	case OULe:
		return T.ULt(a.b, a.a)
	case OSLt:
		return T.SLe(a.b, a.a)
	case OSLe:
		return T.SLt(a.b, a.a)
	}
	return T.mk(OLNot, 0, 0, a, nil, nil)
}

func (T *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return tFalse
	}
	return T.mk(OLAnd, 0, 0, a, b, nil)
}

func (T *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return tTrue
	}
	return T.mk(OLOr, 0, 0, a, b, nil)
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return T.Or(c, b)
		}
		if a.isFalse() {
			return T.And(T.Not(c), b)
		}
		if b.isTrue() {
			return T.Or(T.Not(c), a)
		}
		if b.isFalse() {
			return T.And(c, a)
		}
	}
	return T.mk(OIte, a.w, 0, c, a, b)
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return T.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w > 0 {
		if a.hi < b.lo || b.hi < a.lo {
			return tFalse
		}
		if b.isConst() {
			switch a.op {
			case OZExt:
				return T.Eq(a.a, T.C(a.a.w, b.val))
			case OSExt:
				if uint64(sext(b.val, a.a.w))&mask(a.w) == b.val {
					return T.Eq(a.a, T.C(a.a.w, b.val))
				}
				return tFalse
			case OAdd:
				if a.b.isConst() {
					return T.Eq(a.a, T.C(a.w, b.val-a.b.val))
				}
			case OSub:
				if a.b.isConst() {
					return T.Eq(a.a, T.C(a.w, b.val+a.b.val))
				}
			case OIte:
				if a.b.isConst() && a.c.isConst() {
					return T.Ite(a.a, mkBool(a.b.val == b.val), mkBool(a.c.val == b.val))
				}
				if a.b.isConst() && a.b.val != b.val {
					return T.And(T.Not(a.a), T.Eq(a.c, b))
				}
				if a.c.isConst() && a.c.val != b.val {
					return T.And(a.a, T.Eq(a.b, b))
				}
			}
		} else {
			if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
				return T.Eq(a.a, b.a)
			}
			if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
				return T.Eq(a.a, b.a)
			}
		}
	}
	if a.w > 0 && !b.isConst() {
		if a.op == ONeg && a.a.op == OVar && b.op != ONeg {
			a, b = a.a, T.Neg(b)
		} else if b.op == ONeg && b.a.op == OVar && a.op != ONeg {
			a, b = T.Neg(a), b.a
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return T.mk(OEq, 0, 0, a, b, nil)
}

func (T *Terms) ULt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.lo >= b.hi {
		return tFalse
	}
	if addNoWrap(a, b) {
		return tFalse
	}
	if a.op == OZExt && b.isConst() && b.val <= mask(a.a.w) {
		return T.ULt(a.a, T.C(a.a.w, b.val))
	}
	if b.op == OZExt && a.isConst() && a.val <= mask(b.a.w) {
		return T.ULt(T.C(b.a.w, a.val), b.a)
	}
	return T.mk(OULt, 0, 0, a, b, nil)
}

func (T *Terms) ULe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.hi <= b.lo {
		return tTrue
	}
	if a.lo > b.hi {
		return tFalse
	}
	if addNoWrap(b, a) {
		return tTrue
	}
	if a.op == OZExt && b.isConst() && b.val <= mask(a.a.w) {
		return T.ULe(a.a, T.C(a.a.w, b.val))
	}
	if b.op == OZExt && a.isConst() && a.val <= mask(b.a.w) {
		return T.ULe(T.C(b.a.w, a.val), b.a)
	}
	return T.mk(OULe, 0, 0, a, b, nil)
}

// addNoWrap: s = x + y without wrapping, so s >= x.
func addNoWrap(s, x *Term) bool {
	if s.op != OAdd || (s.a != x && s.b != x) {
		return false
	}
	h, c := bits.Add64(s.a.hi, s.b.hi, 0)
	return c == 0 && h <= mask(s.w)
}

// fitsSigned: the value of t is representable as a signed integer of width w.
func fitsSigned(t *Term, w uint8) bool {
	if w >= t.w {
		return true
	}
	h := uint64(1) << (w - 1)
	return t.hi < h || t.lo >= mask(t.w)-h+1
}

func nonneg(t *Term) bool { return t.hi < uint64(1)<<(t.w-1) }

func (T *Terms) SLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return T.ULt(a, b)
	}
	if nonneg(a) && b.isConst() && sext(b.val, b.w) <= 0 {
		return tFalse
	}
	if nonneg(b) && a.isConst() && sext(a.val, a.w) < 0 {
		return tTrue
	}
	if a.op == OSExt && b.isConst() && uint64(sext(b.val, a.a.w))&mask(a.w) == b.val {
		return T.SLt(a.a, T.C(a.a.w, b.val))
	}
	if b.op == OSExt && a.isConst() && uint64(sext(a.val, b.a.w))&mask(b.w) == a.val {
		return T.SLt(T.C(b.a.w, a.val), b.a)
	}
	if a.op == ONeg && b.isConst() && a.a.hi <= uint64(1)<<(a.w-1) {
		if sext(b.val, b.w) > 0 {
			return tTrue
		}
		return T.ULt(T.C(a.w, -b.val), a.a)
	}
	if b.op == ONeg && a.isConst() && b.a.hi <= uint64(1)<<(b.w-1) {
		if sext(a.val, a.w) >= 0 {
			return tFalse
		}
		return T.ULt(b.a, T.C(b.w, -a.val))
	}
	return T.mk(OSLt, 0, 0, a, b, nil)
}

func (T *Terms) SLe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(sext(a.val, a.w) <= sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return T.ULe(a, b)
	}
	if nonneg(a) && b.isConst() && sext(b.val, b.w) < 0 {
		return tFalse
	}
	if nonneg(b) && a.isConst() && sext(a.val, a.w) <= 0 {
		return tTrue
	}
	if a.op == OSExt && b.isConst() && uint64(sext(b.val, a.a.w))&mask(a.w) == b.val {
		return T.SLe(a.a, T.C(a.a.w, b.val))
	}
	if b.op == OSExt && a.isConst() && uint64(sext(a.val, b.a.w))&mask(b.w) == a.val {
		return T.SLe(T.C(b.a.w, a.val), b.a)
	}
	if a.op == ONeg && b.isConst() && a.a.hi <= uint64(1)<<(a.w-1) {
		if sext(b.val, b.w) >= 0 {
			return tTrue
		}
		return T.ULe(T.C(a.w, -b.val), a.a)
	}
	if b.op == ONeg && a.isConst() && b.a.hi <= uint64(1)<<(b.w-1) {
		if sext(a.val, a.w) > 0 {
			return tFalse
		}
		return T.ULe(b.a, T.C(b.w, -a.val))
	}
	return T.mk(OSLe, 0, 0, a, b, nil)
}

func (T *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %v width mismatch %d %d", opSMT[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return T.C(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return T.Bin(OAdd, a.a, T.C(w, a.b.val+b.val))
			}
		}
	case OSub:
		if a == b {
			return T.C(w, 0)
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			return T.Bin(OAdd, a, T.C(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OSDiv:
		if nonneg(a) && nonneg(b) {
			return T.Bin(OUDiv, a, b)
		}
	case OSRem:
		if nonneg(a) && nonneg(b) {
			return T.Bin(OURem, a, b)
		}
	case OURem:
		if a.hi < b.lo {
			return a
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask that covers range
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return T.C(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				if op == OAShr {
					b = T.C(w, uint64(w)-1)
				} else {
					return T.C(w, 0)
				}
			}
		}
		if op == OAShr && nonneg(a) {
			return T.Bin(OLShr, a, b)
		}
	}
	if (op == OMul || op == OAnd || op == OOr || op == OXor || op == OAdd) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return T.mk(op, w, 0, a, b, nil)
}

func (T *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return T.C(a.w, ^a.val)
	}
	return T.mk(OBNot, a.w, 0, a, nil, nil)
}

func (T *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return T.C(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a
	}
	return T.mk(ONeg, a.w, 0, a, nil, nil)
}

func (T *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.C(w, a.val)
	}
	if a.op == OZExt {
		a = a.a
	}
	if a.op == OExtract && a.val == 0 && a.a.hi <= mask(a.w) {
		if a.a.w >= w {
			return T.Extract(a.a, 0, w)
		}
		return T.ZExt(a.a, w)
	}
	return T.mk(OZExt, w, 0, a, nil, nil)
}

func (T *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.C(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OExtract && a.val == 0 && a.a.w >= w && fitsSigned(a.a, a.w) {
		return T.Extract(a.a, 0, w)
	}
	if nonneg(a) {
		return T.ZExt(a, w)
	}
	if a.op == OSExt {
		a = a.a
	}
	return T.mk(OSExt, w, 0, a, nil, nil)
}

func (T *Terms) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return T.C(w, a.val>>lo)
	}
	if lo == 0 && (a.op == OZExt || a.op == OSExt) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return T.Extract(a.a, 0, w)
		}
		if a.op == OZExt {
			return T.ZExt(a.a, w)
		}
		return T.SExt(a.a, w)
	}
	if a.op == OExtract {
		return T.Extract(a.a, a.val+lo, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return T.Ite(a.a, T.Extract(a.b, lo, w), T.Extract(a.c, lo, w))
	}
	if lo == 0 && !fitsSigned(a, w) && a.hi > mask(w) && (a.op == OAdd || a.op == OSub || a.op == OMul) && (a.b.isConst() || a.op == OAdd && a.a.op == OZExt) {
		return T.Bin(a.op, T.Extract(a.a, 0, w), T.Extract(a.b, 0, w))
	}
	return T.mk(OExtract, w, lo, a, nil, nil)
}

// Resize converts integer a to width w.
func (T *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if w <= a.w {
		return T.Extract(a, 0, w)
	}
	if signed {
		return T.SExt(a, w)
	}
	return T.ZExt(a, w)
}

func (T *Terms) FOp(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bv uint64
		if b != nil {
			bv = b.val
		}
		v := evalF(op, w, a.w, a.val, bv)
		return T.C(w, v)
	}
	// widening then narrowing a float is the identity (NaN payloads aside)
	if op == OFConv && w == 32 && a.op == OFConv && a.w == 64 && a.a.w == 32 {
		return a.a
	}
	return T.mk(op, w, 0, a, b, nil)
}

// ---- evaluation ----

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func fval(w uint8, bitsv uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(bitsv)))
	}
	return math.Float64frombits(bitsv)
}

func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalF: w = result width, aw = operand width
func evalF(op Op, w, aw uint8, x, y uint64) uint64 {
	switch op {
	case OFAdd:
		if w == 32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(x)) + math.Float32frombits(uint32(y))))
		}
		return fbits(w, fval(w, x)+fval(w, y))
	case OFSub:
		return fbits(w, fval(w, x)-fval(w, y))
	case OFMul:
		return fbits(w, fval(w, x)*fval(w, y))
	case OFDiv:
		return fbits(w, fval(w, x)/fval(w, y))
	case OFEq:
		return b2u(fval(aw, x) == fval(aw, y))
	case OFLt:
		return b2u(fval(aw, x) < fval(aw, y))
	case OFLe:
		return b2u(fval(aw, x) <= fval(aw, y))
	case OFOfS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(x, aw))))
		}
		return fbits(w, float64(sext(x, aw)))
	case OFOfU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return fbits(w, float64(x))
	case OFToS:
		return uint64(int64(fval(aw, x))) & mask(w)
	case OFToU:
		return uint64(fval(aw, x)) & mask(w)
	case OFConv:
		return fbits(w, fval(aw, x))
	}
	panic("evalF")
}

func (T *Terms) setModel(m map[int32]uint64) {
	T.model = m
	T.gen++
}

// Eval evaluates t under the current model (missing vars = lo bound).
func (T *Terms) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.egen == T.gen {
		return t.eval
	}
	var r uint64
	switch t.op {
	case OVar:
		v, ok := T.model[int32(t.val)]
		if !ok {
			v = t.lo
		}
		r = v
	case OBNot:
		r = ^T.Eval(t.a) & mask(t.w)
	case ONeg:
		r = -T.Eval(t.a) & mask(t.w)
	case OZExt:
		r = T.Eval(t.a)
	case OSExt:
		r = uint64(sext(T.Eval(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		r = (T.Eval(t.a) >> t.val) & mask(t.w)
	case OConcat:
		r = T.Eval(t.a)<<t.b.w | T.Eval(t.b)
	case OEq:
		r = b2u(T.Eval(t.a) == T.Eval(t.b))
	case OULt:
		r = b2u(T.Eval(t.a) < T.Eval(t.b))
	case OULe:
		r = b2u(T.Eval(t.a) <= T.Eval(t.b))
	case OSLt:
		r = b2u(sext(T.Eval(t.a), t.a.w) < sext(T.Eval(t.b), t.b.w))
	case OSLe:
		r = b2u(sext(T.Eval(t.a), t.a.w) <= sext(T.Eval(t.b), t.b.w))
	case OLAnd:
		r = T.Eval(t.a) & T.Eval(t.b)
	case OLOr:
		r = T.Eval(t.a) | T.Eval(t.b)
	case OLNot:
		r = 1 ^ T.Eval(t.a)
	case OIte:
		if T.Eval(t.a) != 0 {
			r = T.Eval(t.b)
		} else {
			r = T.Eval(t.c)
		}
	case OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe, OFOfS, OFOfU, OFToS, OFToU, OFConv:
		var y uint64
		if t.b != nil {
			y = T.Eval(t.b)
		}
		r = evalF(t.op, t.w, t.a.w, T.Eval(t.a), y)
	default:
		r = evalBin(t.op, t.w, T.Eval(t.a), T.Eval(t.b))
	}
	t.eval = r
	t.egen = T.gen
	return r
}

// ---- SMT-LIB printing ----

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func toFP(w uint8, s string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

// Emit writes declarations/definitions for t (and everything below) to sb.
func (T *Terms) Emit(sb *strings.Builder, t *Term) {
	if t.op == OConst || t.emitted {
		return
	}
	t.emitted = true
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortStr(t.w))
		if t.w > 0 && (t.lo > 0 || t.hi < mask(t.w)) {
			if t.lo > 0 {
				fmt.Fprintf(sb, "(assert (bvule (_ bv%d %d) %s))\n", t.lo, t.w, t.name)
			}
			if t.hi < mask(t.w) {
				fmt.Fprintf(sb, "(assert (bvule %s (_ bv%d %d)))\n", t.name, t.hi, t.w)
			}
		}
		return
	}
	if t.a != nil {
		T.Emit(sb, t.a)
	}
	if t.b != nil {
		T.Emit(sb, t.b)
	}
	if t.c != nil {
		T.Emit(sb, t.c)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
	switch t.op {
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, ref(t.a))
	case OBNot, ONeg, OLNot:
		fmt.Fprintf(sb, "(%s %s)", opSMT[t.op], ref(t.a))
	case OIte:
		fmt.Fprintf(sb, "(ite %s %s %s)", ref(t.a), ref(t.b), ref(t.c))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		fmt.Fprintf(sb, "(fp.to_ieee_bv (%s RNE %s %s))", n, toFP(t.w, ref(t.a)), toFP(t.w, ref(t.b)))
	case OFEq, OFLt, OFLe:
		n := map[Op]string{OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq"}[t.op]
		fmt.Fprintf(sb, "(%s %s %s)", n, toFP(t.a.w, ref(t.a)), toFP(t.a.w, ref(t.b)))
	case OFOfS, OFOfU, OFConv:
		var n string
		s := ref(t.a)
		eb, mb := 11, 53
		if t.w == 32 {
			eb, mb = 8, 24
		}
		switch t.op {
		case OFOfS:
			n = fmt.Sprintf("((_ to_fp %d %d) RNE %s)", eb, mb, s)
		case OFOfU:
			n = fmt.Sprintf("((_ to_fp_unsigned %d %d) RNE %s)", eb, mb, s)
		default:
			n = fmt.Sprintf("((_ to_fp %d %d) RNE %s)", eb, mb, toFP(t.a.w, s))
		}
		fmt.Fprintf(sb, "(fp.to_ieee_bv %s)", n)
	case OFToS:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(t.a.w, ref(t.a)))
	case OFToU:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(t.a.w, ref(t.a)))
	default:
		fmt.Fprintf(sb, "(%s %s %s)", opSMT[t.op], ref(t.a), ref(t.b))
	}
	sb.WriteString(")\n")
}
