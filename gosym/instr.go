package main

import (
	"go/token"
	"go/types"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) nilDeref() {
	m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p *Val, t types.Type) Val {
	if p == nil {
		m.nilDeref()
	}
	v := *p
	if v == nil {
		m.unsupported("load of uninitialised cell of type %v", t)
	}
	// reinterpretation through unsafe.Pointer
	switch t.Underlying().(type) {
	case *types.Basic:
		if s, ok := v.(Slice); ok && isString(t) {
			return Str(s)
		}
		if tv, ok := v.(*Term); ok {
			if w, _, _, ok2 := basicWidth(t); ok2 && w != tv.w {
				m.unsupported("reinterpreting load %v from width %d", t, tv.w)
			}
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			return Slice(s)
		}
	}
	return copyVal(v)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) store(p *Val, v Val) {
	if p == nil {
		m.nilDeref()
	}
	assign(p, v)
}

// assign copies v into the cell, in place: pointers to its fields stay good.
func assign(p *Val, v Val) {
	switch x := v.(type) {
	case Struct:
		if o, ok := (*p).(Struct); ok && len(o) == len(x) {
			for i := range x {
				assign(&o[i], x[i])
			}
			return
		}
	case Array:
		if o, ok := (*p).(Array); ok && len(o) == len(x) {
			for i := range x {
				assign(&o[i], x[i])
			}
			return
		}
	}
	*p = copyVal(v)
}

func asTerm(v Val) *Term { return v.(*Term) }

func (m *Machine) intConst(n int) *Term { return m.T.C(64, uint64(n)) }

// idx64 widens an index operand to 64 bits.
func (m *Machine) idx64(v Val, t types.Type) *Term {
	x := v.(*Term)
	_, signed, _, _ := basicWidth(t)
	return m.T.Resize(x, 64, signed)
}

func (m *Machine) checkIndex(i *Term, n int) {
	if !m.inRange(i, n) {
		m.rtPanic("runtime error: index out of range")
	}
}

// readAt reads element i (symbolic, already in range) from a cell vector.
func (m *Machine) readAt(cells []Val, i *Term) (Val, bool) {
	if i.isConst() {
		return cells[i.val], true
	}
	if len(cells) > 4096 {
		return nil, false
	}
	lo, hi := int(i.lo), len(cells)-1
	if i.hi < uint64(hi) {
		hi = int(i.hi)
	}
	for k := lo; k <= hi; k++ {
		if _, ok := cells[k].(*Term); !ok {
			return nil, false
		}
	}
	r := cells[hi].(*Term)
	for k := hi - 1; k >= lo; k-- {
		c := cells[k].(*Term)
		if c == r {
			continue
		}
		if r.op == OIte && r.b == c && r.a.op == OULe && false {
			continue
		}
		r = m.iteRun(i, k, c, r)
	}
	return r, true
}

// iteRun builds ite(i <= k, c, r) collapsing runs of equal values.
func (m *Machine) iteRun(i *Term, k int, c, r *Term) *Term {
	if r.op == OIte && r.b == c && r.a.op == OULe && r.a.a == i {
		return r
	}
	return m.T.Ite(m.T.ULe(i, m.T.C(i.w, uint64(k))), c, r)
}

func (m *Machine) instr(fr *frame, ci *cinstr) {
	if p := ci.in.Pos(); p.IsValid() {
		fr.pos = p
	}
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(Val)
		*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.Store:
		addr := fr.get(m, &ci.ops[0])
		v := fr.get(m, &ci.ops[1])
		m.store(m.asPtr(addr), v)
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(in, fr.get(m, &ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(m, &ci.ops[0]), fr.get(m, &ci.ops[1]))
	case *ssa.Call:
		fr.regs[ci.dst] = m.doCall(fr, &in.Call, ci)
	case *ssa.Defer:
		fn, args := m.prepCall(fr, &in.Call, ci)
		call := in.Call
		fr.defers = append(fr.defers, func() {
			if b, ok := call.Value.(*ssa.Builtin); ok && !call.IsInvoke() {
				m.builtin(fr, b, &call, args)
				return
			}
			m.callVal(fr, fn, args)
		})
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Go:
		m.unsupported("go statement")
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{T: in.X.Type(), V: copyVal(fr.get(m, &ci.ops[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(m, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(m, &ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(m, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(m, &ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("runtime error: cannot convert slice to array pointer: length too short")
		}
		m.unsupported("slice to array pointer")
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(m, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.FieldAddr:
		p := m.asPtr(fr.get(m, &ci.ops[0]))
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("FieldAddr on %T", *p)
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = fr.get(m, &ci.ops[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(m, &ci.ops[0])
		idx := m.idx64(fr.get(m, &ci.ops[1]), in.Index.Type())
		var cells []Val
		switch c := x.(type) {
		case Slice:
			cells = c
		case Str:
			cells = c
		case *Val:
			if c == nil {
				m.nilDeref()
			}
			a, ok := (*c).(Array)
			if !ok {
				m.unsupported("IndexAddr on %T", *c)
			}
			cells = a
		default:
			m.unsupported("IndexAddr on %T", x)
		}
		m.checkIndex(idx, len(cells))
		if !idx.isConst() {
			// a symbolic index used only for a load becomes an ite chain
			if refs := in.Referrers(); refs != nil && len(*refs) > 0 {
				all := true
				for _, r := range *refs {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						all = false
					}
				}
				if all {
					if v, ok := m.readAt(cells, idx); ok {
						p := new(Val)
						*p = v
						fr.regs[ci.dst] = p
						return
					}
				}
			}
			fr.regs[ci.dst] = &cells[m.concretize(idx)]
			return
		}
		fr.regs[ci.dst] = &cells[idx.val]
	case *ssa.Index:
		x := fr.get(m, &ci.ops[0])
		idx := m.idx64(fr.get(m, &ci.ops[1]), in.Index.Type())
		var cells []Val
		switch c := x.(type) {
		case Array:
			cells = c
		case Str:
			cells = c
		case Slice:
			cells = c
		default:
			m.unsupported("Index on %T", x)
		}
		m.checkIndex(idx, len(cells))
		v, ok := m.readAt(cells, idx)
		if !ok {
			v = cells[m.concretize(idx)]
		}
		fr.regs[ci.dst] = copyVal(v)
	case *ssa.Lookup:
		x := fr.get(m, &ci.ops[0])
		if s, ok := x.(Str); ok {
			idx := m.idx64(fr.get(m, &ci.ops[1]), in.Index.Type())
			m.checkIndex(idx, len(s))
			v, ok := m.readAt(s, idx)
			if !ok {
				v = s[m.concretize(idx)]
			}
			fr.regs[ci.dst] = v
			return
		}
		mp := x.(*Map)
		k := fr.get(m, &ci.ops[1])
		e := mp.find(m, k)
		var v Val
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.regs[ci.dst] = Tuple{v, mkBool(e != nil)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		mp := fr.get(m, &ci.ops[0]).(*Map)
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		k := copyVal(fr.get(m, &ci.ops[1]))
		if kf, ok := k.(Iface); ok && kf.T != nil && !types.Comparable(kf.T) {
			m.rtPanic("runtime error: hash of unhashable type " + kf.T.String())
		}
		mp.set(m, k, copyVal(fr.get(m, &ci.ops[2])))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &Map{}
	case *ssa.MakeSlice:
		n := m.sizeArg(fr.get(m, &ci.ops[0]), in.Len.Type())
		c := m.sizeArg(fr.get(m, &ci.ops[1]), in.Cap.Type())
		if n < 0 || n > 1<<24 {
			m.rtPanic("runtime error: makeslice: len out of range")
		}
		if c < n {
			m.rtPanic("runtime error: makeslice: cap out of range")
		}
		s := make(Slice, c)
		z := m.zero(in.Type().Underlying().(*types.Slice).Elem())
		for i := range s {
			s[i] = copyVal(z)
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &Chan{}
	case *ssa.MakeClosure:
		f := &Func{fn: in.Fn.(*ssa.Function)}
		for j := range in.Bindings {
			f.env = append(f.env, fr.get(m, &ci.ops[1+j]))
		}
		fr.regs[ci.dst] = f
	case *ssa.Slice:
		fr.regs[ci.dst] = m.sliceOp(fr, in, ci)
	case *ssa.Range:
		switch x := fr.get(m, &ci.ops[0]).(type) {
		case Str:
			fr.regs[ci.dst] = &strIter{s: x}
		case *Map:
			fr.regs[ci.dst] = &mapIter{m: x}
		default:
			m.unsupported("range over %T", x)
		}
	case *ssa.Next:
		switch it := fr.get(m, &ci.ops[0]).(type) {
		case *strIter:
			if it.pos >= len(it.s) {
				fr.regs[ci.dst] = Tuple{tFalse, m.intConst(0), m.T.C(32, 0)}
				return
			}
			p := it.pos
			r, n := m.decodeRune(it.s[p:])
			it.pos += n
			fr.regs[ci.dst] = Tuple{tTrue, m.intConst(p), r}
		case *mapIter:
			tt := in.Type().(*types.Tuple)
			zk := func(i int) Val {
				t := tt.At(i).Type()
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return m.zero(t)
			}
			if it.m != nil {
				for it.pos < len(it.m.entries) {
					e := it.m.entries[it.pos]
					it.pos++
					if !e.deleted {
						fr.regs[ci.dst] = Tuple{tTrue, copyVal(e.k), copyVal(e.v)}
						return
					}
				}
			}
			fr.regs[ci.dst] = Tuple{tFalse, zk(1), zk(2)}
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, fr.get(m, &ci.ops[0]).(Iface))
	case *ssa.Select, *ssa.Send:
		m.unsupported("channel operation")
	default:
		m.unsupported("instruction %T", in)
	}
}

func (m *Machine) sizeArg(v Val, t types.Type) int {
	x := m.idx64(v, t)
	if !x.isConst() && x.hi > 1<<24 {
		if !m.branch(m.T.ULe(x, m.T.C(64, 1<<20))) {
			m.rtPanic("runtime error: makeslice: len out of range")
		}
	}
	return int(int64(m.concretize(x)))
}

func (m *Machine) asPtr(v Val) *Val {
	switch p := v.(type) {
	case *Val:
		return p
	case nil:
		return nil
	}
	m.unsupported("pointer value %T", v)
	return nil
}

// decodeRune mirrors utf8.DecodeRune on symbolic bytes, forking on the byte classes.
func (m *Machine) decodeRune(s []Val) (*Term, int) {
	b0 := s[0].(*Term)
	if m.branch(m.T.ULt(b0, m.T.C(8, 0x80))) {
		return m.T.ZExt(b0, 32), 1
	}
	allc := true
	var buf [4]byte
	n := min(4, len(s))
	for i := 0; i < n; i++ {
		t := s[i].(*Term)
		if !t.isConst() {
			allc = false
			break
		}
		buf[i] = byte(t.val)
	}
	if allc {
		r, w := utf8.DecodeRune(buf[:n])
		return m.T.C(32, uint64(uint32(r))), w
	}
	T := m.T
	errR := T.C(32, utf8.RuneError)
	c8 := func(x uint64) *Term { return T.C(8, x) }
	in := func(b *Term, lo, hi uint64) *Term { return T.And(T.ULe(c8(lo), b), T.ULe(b, c8(hi))) }
	bitsOf := func(b *Term, mk uint64) *Term { return T.ZExt(T.Bin(OAnd, b, c8(mk)), 32) }
	shl := func(a *Term, n uint64) *Term { return T.Bin(OShl, a, T.C(32, n)) }
	if !m.branch(in(b0, 0xC2, 0xF4)) {
		return errR, 1
	}
	if len(s) < 2 {
		return errR, 1
	}
	b1 := s[1].(*Term)
	if m.branch(T.ULe(b0, c8(0xDF))) {
		if !m.branch(in(b1, 0x80, 0xBF)) {
			return errR, 1
		}
		return T.Bin(OOr, shl(bitsOf(b0, 0x1F), 6), bitsOf(b1, 0x3F)), 2
	}
	if m.branch(T.ULe(b0, c8(0xEF))) {
		lo := T.Ite(T.Eq(b0, c8(0xE0)), c8(0xA0), c8(0x80))
		hi := T.Ite(T.Eq(b0, c8(0xED)), c8(0x9F), c8(0xBF))
		if !m.branch(T.And(T.ULe(lo, b1), T.ULe(b1, hi))) {
			return errR, 1
		}
		if len(s) < 3 || !m.branch(in(s[2].(*Term), 0x80, 0xBF)) {
			return errR, 1
		}
		return T.Bin(OOr, T.Bin(OOr, shl(bitsOf(b0, 0x0F), 12), shl(bitsOf(b1, 0x3F), 6)), bitsOf(s[2].(*Term), 0x3F)), 3
	}
	lo := T.Ite(T.Eq(b0, c8(0xF0)), c8(0x90), c8(0x80))
	hi := T.Ite(T.Eq(b0, c8(0xF4)), c8(0x8F), c8(0xBF))
	if !m.branch(T.And(T.ULe(lo, b1), T.ULe(b1, hi))) {
		return errR, 1
	}
	if len(s) < 3 || !m.branch(in(s[2].(*Term), 0x80, 0xBF)) {
		return errR, 1
	}
	if len(s) < 4 || !m.branch(in(s[3].(*Term), 0x80, 0xBF)) {
		return errR, 1
	}
	return T.Bin(OOr, T.Bin(OOr, shl(bitsOf(b0, 0x07), 18), shl(bitsOf(b1, 0x3F), 12)), T.Bin(OOr, shl(bitsOf(s[2].(*Term), 0x3F), 6), bitsOf(s[3].(*Term), 0x3F))), 4
}

// encodeRune returns the UTF-8 bytes of rune r (32-bit term).
func (m *Machine) encodeRune(r *Term) []Val {
	T := m.T
	if r.isConst() {
		return m.str(string(rune(int32(r.val))))
	}
	c := func(x uint64) *Term { return T.C(32, x) }
	b := func(t *Term) Val { return T.Extract(t, 0, 8) }
	shr := func(n uint64) *Term { return T.Bin(OLShr, r, c(n)) }
	if m.branch(T.ULt(r, c(0x80))) {
		return []Val{b(r)}
	}
	if m.branch(T.ULt(r, c(0x800))) {
		return []Val{b(T.Bin(OOr, c(0xC0), shr(6))), b(T.Bin(OOr, c(0x80), T.Bin(OAnd, r, c(0x3F))))}
	}
	bad := T.Or(T.ULt(c(0x10FFFF), r), T.And(T.ULe(c(0xD800), r), T.ULe(r, c(0xDFFF))))
	if m.branch(bad) {
		return m.str("\uFFFD")
	}
	tail := func(n uint64) Val { return b(T.Bin(OOr, c(0x80), T.Bin(OAnd, shr(n), c(0x3F)))) }
	if m.branch(T.ULt(r, c(0x10000))) {
		return []Val{b(T.Bin(OOr, c(0xE0), shr(12))), tail(6), tail(0)}
	}
	return []Val{b(T.Bin(OOr, c(0xF0), shr(18))), tail(12), tail(6), tail(0)}
}

func (m *Machine) unop(in *ssa.UnOp, x Val) Val {
	switch in.Op {
	case token.MUL:
		return m.load(m.asPtr(x), in.Type())
	case token.NOT:
		return m.T.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if _, _, isF, _ := basicWidth(in.X.Type()); isF {
			return m.T.Bin(OXor, t, m.T.C(t.w, uint64(1)<<(t.w-1)))
		}
		return m.T.Neg(t)
	case token.XOR:
		return m.T.BNot(x.(*Term))
	}
	m.unsupported("unop %v", in.Op)
	return nil
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Val) Val {
	switch op {
	case token.EQL:
		return m.eqTyped(tx, ty, x, y)
	case token.NEQ:
		return m.T.Not(m.eqTyped(tx, ty, x, y))
	}
	if sx, ok := x.(Str); ok {
		sy := y.(Str)
		switch op {
		case token.ADD:
			if len(sx) == 0 {
				return sy
			}
			if len(sy) == 0 {
				return sx
			}
			r := make(Str, 0, len(sx)+len(sy))
			return append(append(r, sx...), sy...)
		case token.LSS:
			return m.ltBytes(sx, sy)
		case token.GTR:
			return m.ltBytes(sy, sx)
		case token.LEQ:
			return m.T.Not(m.ltBytes(sy, sx))
		case token.GEQ:
			return m.T.Not(m.ltBytes(sx, sy))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		m.unsupported("binop %v on %T", op, x)
	}
	w, signed, isF, _ := basicWidth(tx)
	T := m.T
	if isF {
		switch op {
		case token.ADD:
			return T.FOp(OFAdd, w, a, b)
		case token.SUB:
			return T.FOp(OFSub, w, a, b)
		case token.MUL:
			return T.FOp(OFMul, w, a, b)
		case token.QUO:
			return T.FOp(OFDiv, w, a, b)
		case token.LSS:
			return T.FOp(OFLt, 0, a, b)
		case token.GTR:
			return T.FOp(OFLt, 0, b, a)
		case token.LEQ:
			return T.FOp(OFLe, 0, a, b)
		case token.GEQ:
			return T.FOp(OFLe, 0, b, a)
		}
	}
	switch op {
	case token.ADD:
		return T.Bin(OAdd, a, b)
	case token.SUB:
		return T.Bin(OSub, a, b)
	case token.MUL:
		return T.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(T.Eq(b, T.C(w, 0))) {
			m.rtPanic("runtime error: integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return T.Bin(o, a, b)
	case token.AND:
		return T.Bin(OAnd, a, b)
	case token.OR:
		return T.Bin(OOr, a, b)
	case token.XOR:
		return T.Bin(OXor, a, b)
	case token.AND_NOT:
		return T.Bin(OAnd, a, T.BNot(b))
	case token.SHL, token.SHR:
		wy, sy, _, _ := basicWidth(ty)
		if sy {
			if m.branch(T.SLt(b, T.C(wy, 0))) {
				m.rtPanic("runtime error: negative shift amount")
			}
		}
		// bring shift count to width w, saturating
		var cnt *Term
		if wy > w {
			big := T.ULe(T.C(wy, uint64(w)), b)
			cnt = T.Ite(big, T.C(w, uint64(w)), T.Extract(b, 0, w))
		} else {
			cnt = T.ZExt(b, w)
		}
		if op == token.SHL {
			return T.Bin(OShl, a, cnt)
		}
		if signed {
			return T.Bin(OAShr, a, cnt)
		}
		return T.Bin(OLShr, a, cnt)
	case token.LSS:
		if signed {
			return T.SLt(a, b)
		}
		return T.ULt(a, b)
	case token.GTR:
		if signed {
			return T.SLt(b, a)
		}
		return T.ULt(b, a)
	case token.LEQ:
		if signed {
			return T.SLe(a, b)
		}
		return T.ULe(a, b)
	case token.GEQ:
		if signed {
			return T.SLe(b, a)
		}
		return T.ULe(b, a)
	}
	m.unsupported("binop %v", op)
	return nil
}

// eqTyped compares operands that may mix interface and concrete types.
func (m *Machine) eqTyped(tx, ty types.Type, x, y Val) *Term {
	_, ix := x.(Iface)
	_, iy := y.(Iface)
	if ix != iy {
		if ix {
			y = Iface{T: ty, V: y}
		} else {
			x = Iface{T: tx, V: x}
		}
	}
	if _, _, isF, ok := basicWidth(tx); ok && isF {
		return m.T.FOp(OFEq, 0, x.(*Term), y.(*Term))
	}
	if x == nil || y == nil {
		m.unsupported("eq on nil operand %v", tx)
	}
	return m.eqDeep(tx, x, y)
}

func (m *Machine) eqDeep(t types.Type, x, y Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := tTrue
		for i := range a {
			r = m.T.And(r, m.eqDeep(u.Field(i).Type(), a[i], b[i]))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := tTrue
		for i := range a {
			r = m.T.And(r, m.eqDeep(u.Elem(), a[i], b[i]))
		}
		return r
	case *types.Basic:
		if _, _, isF, ok := basicWidth(u); ok && isF {
			return m.T.FOp(OFEq, 0, x.(*Term), y.(*Term))
		}
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return mkBool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return tFalse
		}
		if !types.Comparable(a.T) {
			m.rtPanic("runtime error: comparing uncomparable type " + a.T.String())
		}
		return m.eqDeep(a.T, a.V, b.V)
	}
	return m.eq(x, y)
}

func (m *Machine) convert(from, to types.Type, x Val) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return x
	}
	wf, sf, ff, okf := basicWidth(fu)
	wt, st, ft, okt := basicWidth(tu)
	if okf && okt {
		t := x.(*Term)
		switch {
		case ff && ft:
			if wf == wt {
				return t
			}
			return m.T.FOp(OFConv, wt, t, nil)
		case ff && !ft:
			if st {
				return m.T.FOp(OFToS, wt, t, nil)
			}
			return m.T.FOp(OFToU, wt, t, nil)
		case !ff && ft:
			if sf {
				return m.T.FOp(OFOfS, wt, t, nil)
			}
			return m.T.FOp(OFOfU, wt, t, nil)
		}
		_ = wf
		return m.T.Resize(t, wt, sf)
	}
	// string conversions
	if isString(tu) {
		switch v := x.(type) {
		case Str:
			return v
		case Slice:
			et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				r := make(Str, len(v))
				copy(r, v)
				return r
			}
			var r Str
			for _, e := range v {
				r = append(r, m.encodeRune(e.(*Term))...)
			}
			return r
		case *Term:
			r := m.T.Resize(v, 64, sf)
			if !r.isConst() {
				if !m.branch(m.T.ULe(r, m.T.C(64, 0x10FFFF))) {
					return m.str("\uFFFD")
				}
			} else if r.val > 0x10FFFF {
				return m.str("\uFFFD")
			}
			return Str(m.encodeRune(m.T.Extract(r, 0, 32)))
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := x.(Str); ok {
			if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				r := make(Slice, len(s))
				copy(r, s)
				return r
			}
			r := Slice{}
			for p := 0; p < len(s); {
				c, n := m.decodeRune(s[p:])
				r = append(r, c)
				p += n
			}
			return r
		}
		if s, ok := x.(Slice); ok {
			return s
		}
	}
	if ta, ok := tu.(*types.Array); ok {
		if s, ok := x.(Slice); ok {
			if len(s) < int(ta.Len()) {
				m.rtPanic("runtime error: cannot convert slice to array: length too short")
			}
			a := make(Array, ta.Len())
			copy(a, s)
			return copyVal(a)
		}
	}
	// pointers / unsafe.Pointer
	if p, ok := x.(*Val); ok {
		return p
	}
	if _, ok := x.(*Term); ok && isUnsafePtr(tu) {
		m.unsupported("uintptr to unsafe.Pointer")
	}
	m.unsupported("convert %v -> %v", from, to)
	return nil
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (m *Machine) sliceOp(fr *frame, in *ssa.Slice, ci *cinstr) Val {
	x := fr.get(m, &ci.ops[0])
	arg := func(k int, t ssa.Value) *Term {
		if t == nil {
			return nil
		}
		return m.idx64(fr.get(m, &ci.ops[k]), t.Type())
	}
	lo, hi, mx := arg(1, in.Low), arg(2, in.High), arg(3, in.Max)
	var cells []Val
	isStr := false
	ln, cp := 0, 0
	switch c := x.(type) {
	case Str:
		cells, isStr = c, true
		ln, cp = len(c), len(c)
	case Slice:
		cells = c
		ln, cp = len(c), cap(c)
	case *Val:
		if c == nil {
			m.nilDeref()
		}
		cells = (*c).(Array)
		ln, cp = len(cells), len(cells)
		cells = cells[:ln:ln]
	default:
		m.unsupported("slice of %T", x)
	}
	bound := func(t *Term, limit int) int {
		if !m.branch(m.T.ULe(t, m.T.C(64, uint64(limit)))) {
			m.rtPanic("runtime error: slice bounds out of range")
		}
		return int(m.concretize(t))
	}
	l, h, k := 0, ln, cp
	if mx != nil {
		k = bound(mx, cp)
	}
	if hi != nil {
		h = bound(hi, k)
	}
	if lo != nil {
		l = bound(lo, h)
	} else if h < 0 {
		l = 0
	}
	if l > h || h > k {
		m.rtPanic("runtime error: slice bounds out of range")
	}
	if isStr {
		return Str(cells[l:h])
	}
	if cells == nil {
		return Slice(nil)
	}
	if mx != nil {
		return Slice(cells[l:h:k])
	}
	return Slice(cells[l:h])
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Iface) Val {
	ok := false
	var v Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.T != nil && m.implements(x.T, it) {
			ok = true
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.T != nil && types.Identical(x.T, in.AssertedType) {
			ok = true
			v = copyVal(x.V)
		} else if in.CommaOk {
			v = m.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, mkBool(ok)}
	}
	if !ok {
		d := "nil"
		if x.T != nil {
			d = x.T.String()
		}
		m.rtPanic("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
	}
	return v
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := [2]types.Type{t, it}
	m.eng.implMu.Lock()
	defer m.eng.implMu.Unlock()
	if r, ok := m.eng.implTab[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.eng.implTab[k] = r
	return r
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	key := meth.Name()
	if !meth.Exported() && meth.Pkg() != nil {
		key = meth.Pkg().Path() + "." + key
	}
	c := m.mcache[t]
	if c == nil {
		c = map[string]*ssa.Function{}
		m.mcache[t] = c
	}
	if f := c[key]; f != nil {
		return f
	}
	m.eng.buildMu.Lock()
	f := m.eng.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.eng.buildMu.Unlock()
	if f == nil {
		m.unsupported("no method %v on %v", meth, t)
	}
	c[key] = f
	return f
}

func (m *Machine) prepCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (Val, []Val) {
	v := fr.get(m, &ci.ops[0])
	if c.IsInvoke() {
		recv := v.(Iface)
		if recv.T == nil {
			m.nilDeref()
		}
		args := make([]Val, 0, len(c.Args)+1)
		args = append(args, recv.V)
		for i := range c.Args {
			args = append(args, copyVal(fr.get(m, &ci.ops[1+i])))
		}
		if n, ok := recv.V.(Native); ok {
			if nm, ok := n.v.(nativeMethods); ok {
				name := c.Method.Name()
				return &Func{native: func(m *Machine, a []Val) Val { return nm.callMethod(m, name, a[1:]) }}, args
			}
		}
		return &Func{fn: m.method(recv.T, c.Method)}, args
	}
	args := make([]Val, len(c.Args))
	for i := range c.Args {
		args[i] = copyVal(fr.get(m, &ci.ops[1+i]))
	}
	return v, args
}

type nativeMethods interface {
	callMethod(m *Machine, name string, args []Val) Val
}

func (m *Machine) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) Val {
	fn, args := m.prepCall(fr, c, ci)
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return m.builtin(fr, b, c, args)
	}
	return m.callVal(fr, fn, args)
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val) Val {
	switch b.Name() {
	case "Sizeof":
		return m.intConst(int(gcSizes.Sizeof(c.Args[0].Type())))
	case "len":
		switch x := args[0].(type) {
		case Str:
			return m.intConst(len(x))
		case Slice:
			return m.intConst(len(x))
		case Array:
			return m.intConst(len(x))
		case *Val:
			return m.intConst(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *Map:
			if x == nil {
				return m.intConst(0)
			}
			return m.intConst(x.n)
		case *Chan:
			return m.intConst(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.intConst(cap(x))
		case Array:
			return m.intConst(len(x))
		case *Val:
			return m.intConst(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *Chan:
			return m.intConst(0)
		}
	case "append":
		dst := args[0].(Slice)
		var src []Val
		switch s := args[1].(type) {
		case Slice:
			src = s
		case Str:
			src = s
		}
		if len(src) == 0 {
			return dst
		}
		// Go growth: reuse spare capacity in place, else reallocate (copy)
		if len(dst)+len(src) <= cap(dst) {
			r := dst[:len(dst)+len(src)]
			tmp := make([]Val, len(src))
			for i, v := range src {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				assign(&r[len(dst)+i], v)
			}
			return r
		}
		nc := growCap(cap(dst), len(dst)+len(src), elemSize(c.Args[0].Type()))
		r := make(Slice, len(dst)+len(src), nc)
		for i, v := range dst {
			r[i] = v
		}
		// note: moving structs by value requires fresh copies
		for i := range dst {
			r[i] = copyVal(dst[i])
		}
		for i, v := range src {
			r[len(dst)+i] = copyVal(v)
		}
		if nc > len(r) {
			z := m.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		dst := args[0].(Slice)
		var src []Val
		switch s := args[1].(type) {
		case Slice:
			src = s
		case Str:
			src = s
		}
		n := min(len(dst), len(src))
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i, v := range tmp {
			assign(&dst[i], v)
		}
		return m.intConst(n)
	case "delete":
		args[0].(*Map).del(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.entries, x.idx, x.symb, x.n = nil, nil, 0, 0
			}
		case Slice:
			z := m.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				assign(&x[i], z)
			}
		}
		return nil
	case "min", "max":
		w, signed, isF, ok := basicWidth(c.Args[0].Type())
		_ = w
		if ok && !isF {
			r := args[0].(*Term)
			for _, a := range args[1:] {
				t := a.(*Term)
				var lt *Term
				if signed {
					lt = m.T.SLt(t, r)
				} else {
					lt = m.T.ULt(t, r)
				}
				if b.Name() == "max" {
					if signed {
						lt = m.T.SLt(r, t)
					} else {
						lt = m.T.ULt(r, t)
					}
				}
				r = m.T.Ite(lt, t, r)
			}
			return r
		}
	case "recover":
		f := fr
		// recover is called in a deferred function: the panicking frame is its caller
		if f.caller != nil && f.caller.panicking {
			f.caller.panicking = false
			v := f.caller.panic.v
			f.caller.panic = nil
			return v
		}
		return Iface{}
	case "panic":
		v := args[0].(Iface)
		panic(&targetPanic{v: v, msg: m.show(v)})
	case "print", "println":
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Val); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := m.concInt(m.T.Resize(args[1].(*Term), 64, true))
		p := m.asPtr(args[0])
		if n == 0 {
			return Str(nil)
		}
		if p == nil {
			m.rtPanic("unsafe.String: ptr is nil and len is not zero")
		}
		return Str(unsafe.Slice(p, n))
	case "StringData":
		s := args[0].(Str)
		if len(s) == 0 {
			return (*Val)(nil)
		}
		return &s[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			if s == nil {
				return (*Val)(nil)
			}
			return new(Val)
		}
		return &s[:1][0]
	case "Slice":
		n := m.concInt(m.T.Resize(args[1].(*Term), 64, true))
		p := m.asPtr(args[0])
		if p == nil {
			if n != 0 {
				m.rtPanic("unsafe.Slice: ptr is nil and len is not zero")
			}
			return Slice(nil)
		}
		if n == 0 {
			return Slice{}
		}
		return Slice(unsafe.Slice(p, n))
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

func elemSize(t types.Type) int64 {
	s := types.SizesFor("gc", "amd64")
	return s.Sizeof(t.Underlying().(*types.Slice).Elem())
}

// growCap follows runtime.growslice (including size classes for small sizes), so
// that aliasing through spare capacity matches the real program.
func growCap(old, need int, es int64) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	sz := int64(nc) * es
	for _, c := range sizeClasses {
		if sz <= c {
			return int(c / es)
		}
	}
	pages := (sz + 8191) / 8192 * 8192
	return int(pages / es)
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")
