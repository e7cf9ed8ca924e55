package main

import (
	"regexp/syntax"
)

func reProg(s string) (*syntax.Prog, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

func (m *Machine) reOf(v Val) *syntax.Prog {
	pr, _ := m.side[[2]any{"re", m.asPtr(v)}].(*syntax.Prog)
	if pr == nil {
		m.unsupported("regexp value of unknown origin")
	}
	return pr
}

// reMatch decides an unanchored match by following the set of live states, one byte
// at a time; bytes above ASCII are not modelled.
func (m *Machine) reMatch(pr *syntax.Prog, s []Val) bool {
	T := m.T
	for _, c := range s {
		if m.branch(T.ULt(T.C(8, 0x7F), c.(*Term))) {
			m.unsupported("regexp on text that is not ASCII")
		}
	}
	n := len(s)
	byteAt := func(i int) rune {
		if i < 0 || i >= n {
			return -1
		}
		t := s[i].(*Term)
		if t.isConst() {
			return rune(t.val)
		}
		return 'x' // word boundaries on symbolic text are not used by the patterns
	}
	match := false
	add := func(set map[uint32]bool, pc uint32, i int) {
		flags := syntax.EmptyOpContext(byteAt(i-1), byteAt(i))
		var rec func(pc uint32)
		seen := map[uint32]bool{}
		rec = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := &pr.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				rec(in.Out)
				rec(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				rec(in.Out)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
					m.unsupported("regexp line or word assertion")
				}
				if e&^flags == 0 {
					rec(in.Out)
				}
			case syntax.InstMatch:
				match = true
			case syntax.InstFail:
			default:
				set[pc] = true
			}
		}
		rec(pc)
	}
	live := map[uint32]bool{}
	add(live, uint32(pr.Start), 0)
	for i := 0; i < n && !match; i++ {
		next := map[uint32]bool{}
		for pc := 0; pc < len(pr.Inst); pc++ {
			if !live[uint32(pc)] {
				continue
			}
			in := &pr.Inst[pc]
			if m.branch(m.reClass(in, s[i].(*Term))) {
				add(next, in.Out, i+1)
			}
		}
		add(next, uint32(pr.Start), i+1)
		live = next
	}
	return match
}

func (m *Machine) reClass(in *syntax.Inst, c *Term) *Term {
	T := m.T
	rs := in.Rune
	switch in.Op {
	case syntax.InstRuneAny:
		return tTrue
	case syntax.InstRuneAnyNotNL:
		return T.Not(T.Eq(c, T.C(8, '\n')))
	}
	if len(rs) == 1 {
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			r := rs[0] | 0x20
			if r >= 'a' && r <= 'z' {
				return T.Or(T.Eq(c, T.C(8, uint64(r))), T.Eq(c, T.C(8, uint64(r&^0x20))))
			}
		}
		return T.Eq(c, T.C(8, uint64(rs[0])&0xFF))
	}
	out := tFalse
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := rs[i], rs[i+1]
		if lo > 0x7F {
			break
		}
		if hi > 0x7F {
			hi = 0x7F
		}
		out = T.Or(out, T.And(T.ULe(T.C(8, uint64(lo)), c), T.ULe(c, T.C(8, uint64(hi)))))
	}
	return out
}
