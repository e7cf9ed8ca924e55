package main

import (
	"fmt"
	"go/types"
	"strings"
)

func (m *Machine) argName(v Val) string {
	s, ok := concrete(bs(v))
	if !ok {
		m.unsupported("symbolic input name")
	}
	return s
}

func (m *Machine) newInput(name, kind string) *input {
	in := &input{Name: name, Kind: kind}
	m.inputs = append(m.inputs, in)
	return in
}

func symInt(w uint8) intrinsic {
	return func(m *Machine, fr *frame, a []Val) Val {
		name := m.argName(a[0])
		in := m.newInput(name, "int")
		v := m.T.Var(name, w, 0, mask(w))
		in.vars = []*Term{v}
		return v
	}
}

func (m *Machine) symBytes(name string, n *Term, max int) []Val {
	in := m.newInput(name, "bytes")
	l := int(m.concretize(n))
	out := make([]Val, l)
	// inputs: first var is the length, then the bytes
	in.vars = append(in.vars, n)
	for i := range out {
		v := m.T.Var(fmt.Sprintf("%s_%d", name, i), 8, 0, 255)
		in.vars = append(in.vars, v)
		out[i] = v
	}
	return out
}

var symIntrinsics = map[string]intrinsic{
	"Bool":    symInt(0),
	"Int":     symInt(64),
	"Int8":    symInt(8),
	"Int16":   symInt(16),
	"Int32":   symInt(32),
	"Int64":   symInt(64),
	"Uint":    symInt(64),
	"Uint8":   symInt(8),
	"Uint16":  symInt(16),
	"Uint32":  symInt(32),
	"Uint64":  symInt(64),
	"Float64": symInt(64),
	"Float32": symInt(32),
	"Range": func(m *Machine, fr *frame, a []Val) Val {
		name := m.argName(a[0])
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		in := m.newInput(name, "int")
		v := m.T.Var(name, 64, uint64(lo), uint64(hi))
		in.vars = []*Term{v}
		return v
	},
	"Choose": func(m *Machine, fr *frame, a []Val) Val {
		name := m.argName(a[0])
		n := m.concInt(a[1])
		in := m.newInput(name, "int")
		v := m.T.Var(name, 64, 0, uint64(n-1))
		in.vars = []*Term{v}
		return m.intConst(int(m.concretize(v)))
	},
	"Fix": func(m *Machine, fr *frame, a []Val) Val {
		return m.intConst(m.concInt(a[0]))
	},
	"FixBool": func(m *Machine, fr *frame, a []Val) Val {
		return mkBool(m.branch(a[0].(*Term)))
	},
	"Bytes": func(m *Machine, fr *frame, a []Val) Val {
		name := m.argName(a[0])
		lo, mx := m.concInt(a[1]), m.concInt(a[2])
		n := m.T.Var(name+"_len", 64, uint64(lo), uint64(mx))
		return Slice(m.symBytes(name, n, mx))
	},
	"String": func(m *Machine, fr *frame, a []Val) Val {
		name := m.argName(a[0])
		lo, mx := m.concInt(a[1]), m.concInt(a[2])
		n := m.T.Var(name+"_len", 64, uint64(lo), uint64(mx))
		return Str(m.symBytes(name, n, mx))
	},
	"Assume": func(m *Machine, fr *frame, a []Val) Val { m.assume(a[0].(*Term)); return nil },
	"Assert": func(m *Machine, fr *frame, a []Val) Val {
		m.assert(a[0].(*Term), m.argName(a[1]), "assertion "+m.argName(a[1]))
		return nil
	},
	"Cover": func(m *Machine, fr *frame, a []Val) Val {
		m.covers = append(m.covers, m.argName(a[0]))
		return nil
	},
	"Symbolic": func(m *Machine, fr *frame, a []Val) Val { return tTrue },
	"Tier": func(m *Machine, fr *frame, a []Val) Val {
		if m.eng.thorough {
			return m.intConst(1)
		}
		return m.intConst(0)
	},
	"Observe": func(m *Machine, fr *frame, a []Val) Val {
		m.obsT = append(m.obsT, obsRec{name: m.argName(a[0]), v: append([]Val{}, a[1].(Slice)...)})
		return nil
	},
	"And": func(m *Machine, fr *frame, a []Val) Val { // non-forking conjunction
		r := tTrue
		for _, v := range a[0].(Slice) {
			r = m.T.And(r, v.(*Term))
		}
		return r
	},
	"Or": func(m *Machine, fr *frame, a []Val) Val {
		r := tFalse
		for _, v := range a[0].(Slice) {
			r = m.T.Or(r, v.(*Term))
		}
		return r
	},
	"Basic": func(m *Machine, fr *frame, a []Val) Val {
		v := a[0].(Iface)
		if v.T != nil {
			switch u := v.T.Underlying().(type) {
			case *types.Basic:
				if _, named := types.Unalias(v.T).(*types.Named); named {
					return Tuple{Iface{u, v.V}, tTrue}
				}
			case *types.Pointer:
				if p, ok := v.V.(*Val); ok && p == nil {
					return Tuple{Iface{}, tTrue}
				}
			case *types.Slice:
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return Tuple{Iface{types.NewSlice(types.Typ[types.Uint8]), v.V}, tTrue}
				}
			}
		}
		return Tuple{Iface{}, tFalse}
	},
	"EqStr":   func(m *Machine, fr *frame, a []Val) Val { return m.eqBytes(bs(a[0]), bs(a[1])) },
	"EqBytes": func(m *Machine, fr *frame, a []Val) Val { return m.eqBytes(bs(a[0]), bs(a[1])) },
	"IfInt": func(m *Machine, fr *frame, a []Val) Val {
		return m.T.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	},
}

// renderObs evaluates an observation under the current model.
func (m *Machine) renderObs(o obsRec) string {
	var parts []string
	for _, v := range o.v {
		parts = append(parts, m.renderVal(v.(Iface)))
	}
	return o.name + "=" + strings.Join(parts, ",")
}

func (m *Machine) renderVal(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	switch x := v.V.(type) {
	case *Term:
		w, signed, isF, _ := basicWidth(v.T)
		e := m.T.Eval(x)
		if w == 0 {
			return fmt.Sprint(e != 0)
		}
		if isF {
			return fmt.Sprintf("f%x", e)
		}
		if signed {
			return fmt.Sprint(sext(e, w))
		}
		return fmt.Sprint(e)
	case Str:
		return fmt.Sprintf("%q", m.showStr(x))
	case Slice:
		if st, ok := v.T.Underlying().(*types.Slice); ok {
			if w, _, _, ok := basicWidth(st.Elem()); ok && w == 8 {
				return fmt.Sprintf("%q", m.showStr(x))
			}
		}
	}
	return "?"
}
