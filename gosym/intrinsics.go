package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type notHandledT struct{}

var notHandled Val = notHandledT{}

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if in := intrinsics[name]; in != nil {
		return in
	}
	if r := redirects[name]; r != "" {
		return func(m *Machine, fr *frame, a []Val) Val {
			pkg, f := "github.com/si3nloong/sqlgen/zzverif/symsql", r
			if i := strings.LastIndex(r, "."); i >= 0 {
				pkg, f = r[:i], r[i+1:]
			}
			to := m.eng.funcOf(pkg, f)
			if to == nil {
				if strings.Contains(pkg, "/zzverif/src") || strings.HasSuffix(pkg, "/symjson") {
					return notHandled // of another group
				}
				m.unsupported("%s without a server", name)
			}
			return m.call(fr, to, a, nil)
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		op := strings.TrimPrefix(name, "sync/atomic.")
		for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			if strings.HasPrefix(op, p) && op != p {
				return atomicOp(p)
			}
		}
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") {
		op := strings.TrimPrefix(name, "internal/runtime/atomic.")
		for _, p := range []string{"Load", "Store"} {
			if strings.HasPrefix(op, p) {
				return atomicOp(p)
			}
		}
	}
	if strings.HasPrefix(name, "internal/race.") {
		return nop
	}
	if i := strings.Index(name, "/zzverif/sym."); i >= 0 {
		op := name[i+len("/zzverif/sym."):]
		if in := symIntrinsics[op]; in != nil {
			return in
		}
	}
	return nil
}

const jsonPkg = "github.com/si3nloong/sqlgen/zzverif/symjson."

const srcPkg = "github.com/si3nloong/sqlgen/cmd/sqlgen/internal/zzverif/src."

// redirects replaces functions of the standard library by harness functions written in Go.
var redirects = map[string]string{
	"encoding/json.NewDecoder":               jsonPkg + "NewDecoder",
	"(*encoding/json.Decoder).Decode":        jsonPkg + "Decode",
	"(*encoding/json.Decoder).More":          jsonPkg + "More",
	"(*encoding/json.Decoder).Buffered":      jsonPkg + "Buffered",
	"(*encoding/json.Decoder).Token":         jsonPkg + "Token",
	"encoding/json.Unmarshal":                jsonPkg + "Unmarshal",
	"encoding/json.Valid":                    jsonPkg + "Valid",
	"encoding/json.Marshal":                  jsonPkg + "Marshal",
	"encoding/json.NewEncoder":               jsonPkg + "NewEncoder",
	"(*encoding/json.Encoder).Encode":        jsonPkg + "Encode",
	"(*encoding/json.Encoder).SetEscapeHTML": jsonPkg + "SetEscapeHTML",
	"golang.org/x/tools/go/packages.Load":    "github.com/si3nloong/sqlgen/cmd/sqlgen/internal/zzverif/comp.Load",

	"(*github.com/go-playground/validator/v10.Validate).Struct": srcPkg + "Valid",
	"github.com/go-playground/validator/v10.New":                srcPkg + "Validator",
	"github.com/Masterminds/semver/v3.NewConstraint":            srcPkg + "NewConstraint",
	"os.IsNotExist": srcPkg + "IsNotExist",
	"os.Getwd":      srcPkg + "Getwd",
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil.GetFunctionName": srcPkg + "FuncName",
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil.GetTypeName":     srcPkg + "TypeName",
	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen.init#1":                  srcPkg + "NoInit",
	"os.Stat":                             srcPkg + "Stat",
	"os.Open":                             srcPkg + "Open",
	"(*os.File).Close":                    srcPkg + "CloseFile",
	"github.com/goccy/go-yaml.NewDecoder": srcPkg + "Decoder",
	"(*github.com/goccy/go-yaml.Decoder).Decode":                                 srcPkg + "Decode",
	"path/filepath.WalkDir":                                                      srcPkg + "WalkDir",
	"syscall.Unlink":                                                             srcPkg + "Unlink",
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler.Parse":             srcPkg + "Parse",
	"(*github.com/si3nloong/sqlgen/cmd/sqlgen/codegen.Generator).generateModels": srcPkg + "Write",
	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen.renderTemplate":              srcPkg + "Render",

	"(*database/sql.DB).ExecContext":     "DBExec",
	"(*database/sql.DB).QueryContext":    "DBQuery",
	"(*database/sql.DB).QueryRowContext": "DBQueryRow",
	"(*database/sql.Tx).ExecContext":     "TxExec",
	"(*database/sql.Tx).QueryContext":    "TxQuery",
	"(*database/sql.Tx).QueryRowContext": "TxQueryRow",
	"(*database/sql.Rows).Next":          "RowsNext",
	"(*database/sql.Rows).Scan":          "RowsScan",
	"(*database/sql.Rows).Err":           "RowsErr",
	"(*database/sql.Rows).Close":         "RowsClose",
	"(*database/sql.Row).Scan":           "RowScan",
	"(*database/sql.Row).Err":            "RowErr",
	"database/sql.convertAssign":         "Assign",
}

func nop(m *Machine, fr *frame, a []Val) Val { return nil }

func atomicOp(p string) intrinsic {
	return func(m *Machine, fr *frame, a []Val) Val {
		ptr := m.asPtr(a[0])
		if ptr == nil {
			m.nilDeref()
		}
		switch p {
		case "Load":
			return *ptr
		case "Store":
			*ptr = a[1]
			return nil
		case "Add":
			*ptr = m.T.Bin(OAdd, (*ptr).(*Term), a[1].(*Term))
			return *ptr
		case "And", "Or":
			old := *ptr
			op := OAnd
			if p == "Or" {
				op = OOr
			}
			*ptr = m.T.Bin(op, old.(*Term), a[1].(*Term))
			return old
		case "Swap":
			old := *ptr
			*ptr = a[1]
			return old
		case "CompareAndSwap":
			if m.branch(m.eq(*ptr, a[1])) {
				*ptr = a[2]
				return tTrue
			}
			return tFalse
		}
		return nil
	}
}

// globalOverride supplies values for std globals whose initialisers are not worth running.
func (m *Machine) globalOverride(g *ssa.Global) Val {
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return (*Val)(nil)
	}
	return nil
}

func (m *Machine) mkErr(msg Str) Iface {
	t := m.eng.errStrType
	p := new(Val)
	*p = Struct{msg}
	return Iface{T: t, V: p}
}

func (m *Machine) nilErr() Iface { return Iface{} }

func (m *Machine) callMethodByName(v Iface, name string, args ...Val) (Val, bool) {
	ms := m.eng.prog.MethodSets.MethodSet(v.T)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil, false
	}
	m.eng.buildMu.Lock()
	f := m.eng.prog.MethodValue(sel)
	m.eng.buildMu.Unlock()
	if f == nil {
		return nil, false
	}
	return m.call(m.curFrame, f, append([]Val{v.V}, args...), nil), true
}

func (m *Machine) hasMethod(t types.Type, name string) bool {
	m.eng.buildMu.Lock()
	defer m.eng.buildMu.Unlock()
	return m.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

func (m *Machine) methSig(t types.Type, name string) *types.Signature {
	m.eng.buildMu.Lock()
	defer m.eng.buildMu.Unlock()
	sel := m.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return sel.Type().(*types.Signature)
}

// concStr concretises a string value (forks per byte if symbolic).
func (m *Machine) concStr(s []Val) string {
	var sb strings.Builder
	for _, v := range s {
		sb.WriteByte(byte(m.concretize(v.(*Term))))
	}
	return sb.String()
}

// setFresh gives variable v the value x in the current model (it is new, so no
// constraint mentions it yet).
func (m *Machine) setFresh(v *Term, x uint64) {
	nm := make(map[int32]uint64, len(m.T.model)+1)
	for k, y := range m.T.model {
		nm[k] = y
	}
	nm[int32(v.val)] = x
	m.T.setModel(nm)
}

// decimal renders the unsigned 64-bit term u in base 10: the digit count is forked,
// digits are fresh variables tied to u by Σ d_i·10^i = u.
func (m *Machine) decimal(u *Term) []Val {
	T := m.T
	if u.isConst() {
		return m.str(strconv.FormatUint(u.val, 10))
	}
	n := 1
	p := uint64(10)
	for n < 20 {
		if m.branch(T.ULt(u, T.C(64, p))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	if n == 1 {
		return []Val{T.Bin(OAdd, T.Extract(u, 0, 8), T.C(8, '0'))}
	}
	// memo: the same number rendered twice gives the same digits
	key := [2]any{"dec", u}
	if r, ok := m.side[key]; ok {
		return r.([]Val)
	}
	val := T.Eval(u)
	ds := strconv.FormatUint(val, 10)
	if len(ds) != n {
		m.unsupported("decimal: model digit count %d vs %d", len(ds), n)
	}
	out := make([]Val, n)
	var h, p10 *Term
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for i := 0; i < n; i++ {
		lo := uint64(0)
		if i == 0 {
			lo = 1
		}
		d := T.Var(fmt.Sprintf("dig%d", i), 8, lo, 9)
		m.setFresh(d, uint64(ds[i]-'0'))
		z := T.ZExt(d, 64)
		if h == nil {
			h = z
		} else {
			p10 = T.Bin(OMul, h, T.C(64, 10))
			h = T.Bin(OAdd, p10, z)
		}
		// this prefix of the digits is u / div
		if l, r := u.lo/div, u.hi/div; h.op != OVar && l <= r {
			h.lo, h.hi = max(h.lo, l), min(h.hi, r)
		}
		div /= 10
		out[i] = T.Bin(OAdd, d, T.C(8, '0'))
	}
	if n == 20 {
		// the leading digit of a 20-digit uint64 is 1 and Σ must not wrap
		d0 := T.Bin(OSub, out[0].(*Term), T.C(8, '0'))
		m.addPC(T.Eq(d0, T.C(8, 1)))
		m.addPC(T.ULe(T.C(64, 10000000000000000000), h))
	}
	m.addPC(T.Eq(h, u))
	T.Alias(h, u)
	m.known[T.Not(T.ULt(u, p10))] = true
	m.side[key] = out
	return out
}

func (m *Machine) decimalSigned(v *Term) []Val {
	if v.isConst() {
		return m.str(strconv.FormatInt(int64(v.val), 10))
	}
	if m.branch(m.T.SLt(v, m.T.C(64, 0))) {
		return append([]Val{m.T.C(8, '-')}, m.decimal(m.T.Neg(v))...)
	}
	return m.decimal(v)
}

type floatTok struct {
	f    *Term
	bits uint64
}

// formatFloat: concrete floats are formatted natively; symbolic ones become an
// opaque numeral whose only known property is that parsing it returns the float.
func (m *Machine) formatFloat(f *Term, fmtc byte, prec, bitSize int) []Val {
	if f.isConst() {
		return m.str(strconv.FormatFloat(math.Float64frombits(f.val), fmtc, prec, bitSize))
	}
	T := m.T
	exp := T.Bin(OAnd, f, T.C(64, 0x7FF0000000000000))
	isSpec := T.Eq(exp, T.C(64, 0x7FF0000000000000))
	if f.op == OFConv && f.a.w == 32 {
		isSpec = T.Eq(T.Bin(OAnd, f.a, T.C(32, 0x7F800000)), T.C(32, 0x7F800000))
	}
	if m.branch(isSpec) {
		man := T.Bin(OAnd, f, T.C(64, 0x000FFFFFFFFFFFFF))
		if !m.branch(T.Eq(man, T.C(64, 0))) {
			return m.str("NaN")
		}
		if m.branch(T.Eq(T.Bin(OLShr, f, T.C(64, 63)), T.C(64, 1))) {
			return m.str("-Inf")
		}
		return m.str("+Inf")
	}
	key := [4]any{"ff", f, int(fmtc)<<8 | bitSize, prec}
	if r, ok := m.side[key]; ok {
		return r.([]Val)
	}
	// opaque numeral of 3 characters, first a digit
	out := make([]Val, 3)
	for i := range out {
		d := T.Var("num", 8, '1', '9')
		m.setFresh(d, '1')
		out[i] = d
	}
	m.side[key] = out
	g := f
	if prec != -1 {
		g = T.Var("rounded", 64, 0, ^uint64(0))
		m.setFresh(g, 0x3FF0000000000000)
	}
	toks, _ := m.side["floattoks"].(map[*Term]floatTok)
	if toks == nil {
		toks = map[*Term]floatTok{}
		m.side["floattoks"] = toks
	}
	if bitSize == 32 {
		g = T.FOp(OFConv, 64, T.FOp(OFConv, 32, g, nil), nil)
	}
	m.side["fmtopaque"] = true
	toks[out[0].(*Term)] = floatTok{f: g, bits: uint64(bitSize)}
	return out
}

func (m *Machine) parseFloat(s []Val, bitSize int) Val {
	T := m.T
	if cs, ok := concrete(s); ok {
		f, err := strconv.ParseFloat(cs, bitSize)
		r := freeConst(64, math.Float64bits(f))
		if err != nil {
			return Tuple{r, m.numError("ParseFloat", Str(s), err)}
		}
		return Tuple{r, Iface{}}
	}
	if toks, _ := m.side["floattoks"].(map[*Term]floatTok); toks != nil && len(s) == 3 {
		if t, ok := s[0].(*Term); ok {
			if tk, ok := toks[t]; ok && s[1].(*Term).op == OVar && s[2].(*Term).op == OVar {
				if int(tk.bits) == bitSize {
					return Tuple{tk.f, Iface{}}
				}
				if bitSize == 32 {
					return Tuple{T.FOp(OFConv, 64, T.FOp(OFConv, 32, tk.f, nil), nil), Iface{}}
				}
			}
		}
	}
	if len(s) == 0 {
		return Tuple{T.C(64, 0), m.mkErr(m.str("strconv.ParseFloat: invalid syntax"))}
	}
	// plain decimal integers of up to 15 digits are exact
	ds := s
	neg := false
	if m.branch(T.Eq(s[0].(*Term), T.C(8, '-'))) {
		neg = true
		ds = s[1:]
	}
	if len(ds) > 0 && len(ds) <= 15 {
		all := tTrue
		h := T.C(64, 0)
		for _, c := range ds {
			d := T.Bin(OSub, c.(*Term), T.C(8, '0'))
			all = T.And(all, T.ULt(d, T.C(8, 10)))
			h = T.Bin(OAdd, T.Bin(OMul, h, T.C(64, 10)), T.ZExt(d, 64))
		}
		if m.branch(all) {
			if neg {
				h = T.Neg(h)
			}
			f := T.FOp(OFOfS, 64, h, nil)
			if neg {
				if m.branch(T.Eq(h, T.C(64, 0))) {
					f = T.C(64, 1<<63)
				}
			}
			if bitSize == 32 {
				f = T.FOp(OFConv, 64, T.FOp(OFConv, 32, f, nil), nil)
			}
			return Tuple{f, Iface{}}
		}
	}
	// over-approximation: any outcome of the documented contract, the same for the
	// same text. A counterexample that depends on it must survive native replay.
	var kb strings.Builder
	fmt.Fprintf(&kb, "pf%d", bitSize)
	for _, c := range s {
		fmt.Fprintf(&kb, ",%p", c.(*Term))
	}
	key := kb.String()
	if r, ok := m.side[key]; ok {
		return r
	}
	r := m.parseFloatAny(s, bitSize)
	m.side[key] = r
	return r
}

func (m *Machine) parseFloatAny(s []Val, bitSize int) Val {
	T := m.T
	m.side["approx"] = true
	bad := T.Var("pf_err", 0, 0, 1)
	if m.branch(bad) {
		return Tuple{T.C(64, 0), m.mkErr(m.str("strconv.ParseFloat: invalid syntax"))}
	}
	f := T.Var("pf_val", 64, 0, ^uint64(0))
	if bitSize == 32 {
		g := T.Var("pf_val32", 32, 0, 0xFFFFFFFF)
		f = T.FOp(OFConv, 64, g, nil)
	}
	return Tuple{f, Iface{}}
}

func (m *Machine) numError(fn string, s Str, err error) Iface {
	if t := m.eng.typeOf("strconv", "NumError"); t != nil {
		p := new(Val)
		which := "ErrSyntax"
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			which = "ErrRange"
		}
		var e Val = m.mkErr(m.str(err.Error()))
		if g := m.eng.globalOf("strconv", which); g != nil {
			e = *m.global(g)
		}
		*p = Struct{m.str(fn), s, e}
		return Iface{T: types.NewPointer(t), V: p}
	}
	return m.mkErr(m.str(err.Error()))
}

func (m *Machine) indexByte(s []Val, c *Term) Val {
	for i, b := range s {
		if m.branch(m.T.Eq(b.(*Term), c)) {
			return m.intConst(i)
		}
	}
	return m.T.C(64, ^uint64(0))
}

func (m *Machine) lastIndexByte(s []Val, c *Term) Val {
	for i := len(s) - 1; i >= 0; i-- {
		if m.branch(m.T.Eq(s[i].(*Term), c)) {
			return m.intConst(i)
		}
	}
	return m.T.C(64, ^uint64(0))
}

func (m *Machine) index(s, sub []Val) Val {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.branch(m.eqBytes(s[i:i+len(sub)], sub)) {
			return m.intConst(i)
		}
	}
	return m.T.C(64, ^uint64(0))
}

func bs(v Val) []Val {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		return x
	}
	panic(fmt.Sprintf("bs %T", v))
}

func (m *Machine) compareBytes(x, y []Val) Val {
	if m.branch(m.eqBytes(x, y)) {
		return m.intConst(0)
	}
	if m.branch(m.ltBytes(x, y)) {
		return m.T.C(64, ^uint64(0))
	}
	return m.intConst(1)
}

func (m *Machine) poolNew(p *Val) Val {
	st := m.eng.typeOf("sync", "Pool").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			return (*p).(Struct)[i]
		}
	}
	return nil
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		// only asked for by package initialisers
		"reflect.TypeOf": func(m *Machine, fr *frame, a []Val) Val {
			rt := m.eng.byPath["reflect"].Pkg.Scope().Lookup("rtype").Type()
			var v Val = Native{a[0].(Iface).T}
			return Iface{types.NewPointer(rt), &v}
		},
		"(*reflect.rtype).PkgPath": func(m *Machine, fr *frame, a []Val) Val {
			if n, ok := (*a[0].(*Val)).(Native).v.(*types.Named); ok && n.Obj().Pkg() != nil {
				return m.str(n.Obj().Pkg().Path())
			}
			return m.str("")
		},
		"(*reflect.rtype).Name": func(m *Machine, fr *frame, a []Val) Val {
			switch t := (*a[0].(*Val)).(Native).v.(type) {
			case *types.Named:
				return m.str(t.Obj().Name())
			case *types.Basic:
				return m.str(t.Name())
			}
			return m.str("")
		},
		"internal/reflectlite.ValueOf": func(m *Machine, fr *frame, a []Val) Val {
			return Struct{Native{nil}, Native{a[0].(Iface).V}, Native{nil}}
		},
		"(internal/reflectlite.Value).Len": func(m *Machine, fr *frame, a []Val) Val {
			return m.intConst(len(a[0].(Struct)[1].(Native).v.(Slice)))
		},
		"internal/reflectlite.Swapper": func(m *Machine, fr *frame, a []Val) Val {
			s := a[0].(Iface).V.(Slice)
			return &Func{name: "swap", native: func(m *Machine, a []Val) Val {
				i, j := m.concInt(a[0]), m.concInt(a[1])
				x, y := copyVal(s[i]), copyVal(s[j])
				m.store(&s[i], y)
				m.store(&s[j], x)
				return nil
			}}
		},
		"reflect.TypeFor": func(m *Machine, fr *frame, a []Val) Val { return Iface{} },
		// ---- sync ----
		"(*sync.Pool).Get": func(m *Machine, fr *frame, a []Val) Val {
			p := m.asPtr(a[0])
			if l := m.pools[p]; len(l) > 0 {
				v := l[len(l)-1]
				m.pools[p] = l[:len(l)-1]
				return v
			}
			f, _ := m.poolNew(p).(*Func)
			if f == nil {
				return Iface{}
			}
			return m.callVal(fr, f, nil)
		},
		"(*sync.Pool).Put": func(m *Machine, fr *frame, a []Val) Val {
			p := m.asPtr(a[0])
			if a[1].(Iface).T == nil {
				return nil
			}
			m.pools[p] = append(m.pools[p], a[1])
			return nil
		},
		"(*sync.Mutex).Lock":      nop,
		"log/slog.Info":           nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  nop,
		"(*sync.Once).Do": func(m *Machine, fr *frame, a []Val) Val {
			k := [2]any{"once", m.asPtr(a[0])}
			if m.side[k] != nil {
				return nil
			}
			m.side[k] = true
			m.callVal(fr, a[1], nil)
			return nil
		},
		"(*sync.Map).Load": func(m *Machine, fr *frame, a []Val) Val {
			mp, _ := m.side[[2]any{"smap", m.asPtr(a[0])}].(*Map)
			if e := mp.find(m, a[1]); e != nil {
				return Tuple{e.v, tTrue}
			}
			return Tuple{Iface{}, tFalse}
		},
		"(*sync.Map).Store": func(m *Machine, fr *frame, a []Val) Val {
			k := [2]any{"smap", m.asPtr(a[0])}
			mp, _ := m.side[k].(*Map)
			if mp == nil {
				mp = &Map{}
				m.side[k] = mp
			}
			mp.set(m, a[1], a[2])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(m *Machine, fr *frame, a []Val) Val {
			k := [2]any{"smap", m.asPtr(a[0])}
			mp, _ := m.side[k].(*Map)
			if mp == nil {
				mp = &Map{}
				m.side[k] = mp
			}
			if e := mp.find(m, a[1]); e != nil {
				return Tuple{e.v, tTrue}
			}
			mp.set(m, a[1], a[2])
			return Tuple{a[2], tFalse}
		},
		"(*sync.Map).Range": func(m *Machine, fr *frame, a []Val) Val {
			mp, _ := m.side[[2]any{"smap", m.asPtr(a[0])}].(*Map)
			if mp == nil {
				return nil
			}
			for _, e := range mp.entries {
				if !e.deleted && !m.branch(m.callVal(fr, a[1], []Val{e.k, e.v}).(*Term)) {
					break
				}
			}
			return nil
		},
		// ---- strings / bytes ----
		"(*strings.Builder).copyCheck": nop,
		"strings.Index":                func(m *Machine, fr *frame, a []Val) Val { return m.index(bs(a[0]), bs(a[1])) },
		"bytes.Index":                  func(m *Machine, fr *frame, a []Val) Val { return m.index(bs(a[0]), bs(a[1])) },
		"strings.IndexByte":            func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(bs(a[0]), a[1].(*Term)) },
		"bytes.IndexByte":              func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(bs(a[0]), a[1].(*Term)) },
		"bytes.Equal":                  func(m *Machine, fr *frame, a []Val) Val { return m.eqBytes(bs(a[0]), bs(a[1])) },
		"bytes.Compare":                func(m *Machine, fr *frame, a []Val) Val { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"strings.Compare":              func(m *Machine, fr *frame, a []Val) Val { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"cmp.Compare": func(m *Machine, fr *frame, a []Val) Val {
			if _, ok := a[0].(Str); ok {
				return m.compareBytes(bs(a[0]), bs(a[1]))
			}
			return notHandled
		},
		"strings.EqualFold":                nil,
		"internal/bytealg.IndexByte":       func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(bs(a[0]), a[1].(*Term)) },
		"internal/bytealg.IndexByteString": func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(bs(a[0]), a[1].(*Term)) },
		"internal/bytealg.LastIndexByte":   func(m *Machine, fr *frame, a []Val) Val { return m.lastIndexByte(bs(a[0]), a[1].(*Term)) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, fr *frame, a []Val) Val {
			return m.lastIndexByte(bs(a[0]), a[1].(*Term))
		},
		"internal/stringslite.IndexByte": func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(bs(a[0]), a[1].(*Term)) },
		"internal/stringslite.Index":     func(m *Machine, fr *frame, a []Val) Val { return m.index(bs(a[0]), bs(a[1])) },
		"internal/bytealg.Equal":         func(m *Machine, fr *frame, a []Val) Val { return m.eqBytes(bs(a[0]), bs(a[1])) },
		"internal/bytealg.Compare":       func(m *Machine, fr *frame, a []Val) Val { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"internal/bytealg.CompareString": func(m *Machine, fr *frame, a []Val) Val { return m.compareBytes(bs(a[0]), bs(a[1])) },
		"internal/bytealg.Index":         func(m *Machine, fr *frame, a []Val) Val { return m.index(bs(a[0]), bs(a[1])) },
		"internal/bytealg.IndexString":   func(m *Machine, fr *frame, a []Val) Val { return m.index(bs(a[0]), bs(a[1])) },
		"internal/bytealg.Count":         countByte,
		"internal/bytealg.CountString":   countByte,
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *frame, a []Val) Val {
			n := m.concInt(a[0])
			if n < 0 || n > 1<<24 {
				m.rtPanic("runtime error: makeslice: len out of range")
			}
			c := growCap(0, n, 1)
			s := make(Slice, c)
			for i := range s {
				s[i] = constCache[8][0]
			}
			return s[:n]
		},
		"internal/abi.NoEscape": func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"internal/abi.Escape":   func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"runtime.KeepAlive":     nop,
		"runtime.SetFinalizer":  nop,
		"runtime.GC":            nop,
		"runtime.Gosched":       nop,
		// ---- utf8 ----
		"unicode/utf8.DecodeRune":         decRune,
		"unicode/utf8.DecodeRuneInString": decRune,
		"unicode/utf8.AppendRune": func(m *Machine, fr *frame, a []Val) Val {
			return append(a[0].(Slice), m.encodeRune(a[1].(*Term))...)
		},
		"unicode/utf8.EncodeRune": func(m *Machine, fr *frame, a []Val) Val {
			b := m.encodeRune(a[1].(*Term))
			d := a[0].(Slice)
			if len(d) < len(b) {
				m.rtPanic("runtime error: index out of range")
			}
			copy(d, b)
			return m.intConst(len(b))
		},
		"unicode/utf8.RuneCountInString": runeCount,
		"unicode/utf8.RuneCount":         runeCount,
		"unicode/utf8.ValidString":       validUTF8,
		"unicode/utf8.Valid":             validUTF8,
		// ---- math ----
		"math.Float64bits":     func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"math.Float64frombits": func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"math.Float32bits":     func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"math.Float32frombits": func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		// ---- time / regexp ----
		"time.runtimeNano": func(m *Machine, fr *frame, a []Val) Val { return m.T.C(64, 1) },
		"time.now": func(m *Machine, fr *frame, a []Val) Val {
			return Tuple{m.T.C(64, 1700000000), m.T.C(32, 0), m.T.C(64, 1)}
		},
		"time.initLocal": nop,
		"regexp.MustCompile": func(m *Machine, fr *frame, a []Val) Val {
			cs, ok := concrete(bs(a[0]))
			if !ok {
				m.unsupported("regexp of symbolic text")
			}
			pr, err := reProg(cs)
			if err != nil {
				m.rtPanic("regexp: " + err.Error())
			}
			p := new(Val)
			*p = m.zero(m.eng.typeOf("regexp", "Regexp"))
			m.side[[2]any{"re", p}] = pr
			m.side[[2]any{"resrc", p}] = cs
			return p
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, fr *frame, a []Val) Val {
			src, ok := m.side[[2]any{"resrc", m.asPtr(a[0])}].(string)
			cs, ok2 := concrete(bs(a[1]))
			if !ok || !ok2 {
				m.unsupported("submatches of symbolic text")
			}
			var out Slice
			for _, s := range regexp.MustCompile(src).FindStringSubmatch(cs) {
				out = append(out, m.str(s))
			}
			return out
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, fr *frame, a []Val) Val {
			return mkBool(m.reMatch(m.reOf(a[0]), bs(a[1])))
		},
		"(*regexp.Regexp).Match": func(m *Machine, fr *frame, a []Val) Val {
			return mkBool(m.reMatch(m.reOf(a[0]), bs(a[1])))
		},
		// ---- strconv ----
		"strconv.FormatInt": func(m *Machine, fr *frame, a []Val) Val {
			v := a[0].(*Term)
			base := m.concInt(a[1])
			if base != 10 && !v.isConst() {
				return notHandled
			}
			if v.isConst() {
				return m.str(strconv.FormatInt(int64(v.val), base))
			}
			return Str(m.decimalSigned(v))
		},
		"strconv.FormatUint": func(m *Machine, fr *frame, a []Val) Val {
			v := a[0].(*Term)
			base := m.concInt(a[1])
			if v.isConst() {
				return m.str(strconv.FormatUint(v.val, base))
			}
			if base != 10 {
				return notHandled
			}
			return Str(m.decimal(v))
		},
		"strconv.Itoa": func(m *Machine, fr *frame, a []Val) Val { return Str(m.decimalSigned(a[0].(*Term))) },
		"strconv.AppendInt": func(m *Machine, fr *frame, a []Val) Val {
			if m.concInt(a[2]) != 10 {
				return notHandled
			}
			return m.appendBytes(a[0].(Slice), m.decimalSigned(a[1].(*Term)))
		},
		"strconv.AppendUint": func(m *Machine, fr *frame, a []Val) Val {
			if m.concInt(a[2]) != 10 {
				return notHandled
			}
			return m.appendBytes(a[0].(Slice), m.decimal(a[1].(*Term)))
		},
		"strconv.FormatFloat": func(m *Machine, fr *frame, a []Val) Val {
			return Str(m.formatFloat(a[0].(*Term), byte(m.concInt(m.T.Resize(a[1].(*Term), 64, false))), m.concInt(a[2]), m.concInt(a[3])))
		},
		"strconv.AppendFloat": func(m *Machine, fr *frame, a []Val) Val {
			return m.appendBytes(a[0].(Slice), m.formatFloat(a[1].(*Term), byte(m.concInt(m.T.Resize(a[2].(*Term), 64, false))), m.concInt(a[3]), m.concInt(a[4])))
		},
		"strconv.ParseFloat": func(m *Machine, fr *frame, a []Val) Val {
			return m.parseFloat(bs(a[0]), m.concInt(a[1]))
		},
		// ---- errors / fmt ----
		"errors.Is": func(m *Machine, fr *frame, a []Val) Val {
			return mkBool(m.errorsIs(a[0].(Iface), a[1].(Iface)))
		},
		"errors.As": func(m *Machine, fr *frame, a []Val) Val {
			return mkBool(m.errorsAs(a[0].(Iface), a[1].(Iface)))
		},
		"fmt.Sprintf":               func(m *Machine, fr *frame, a []Val) Val { s, _ := m.sprintf(bs(a[0]), a[1].(Slice)); return Str(s) },
		"(*strconv.NumError).Error": func(m *Machine, fr *frame, a []Val) Val { return Str(m.str("strconv: invalid number")) },
		"(encoding/hex.InvalidByteError).Error": func(m *Machine, fr *frame, a []Val) Val {
			return Str(m.str("encoding/hex: invalid byte"))
		},
		"fmt.Errorf": func(m *Machine, fr *frame, a []Val) Val {
			// the text of an error built from symbolic values is not modelled, only
			// its presence and what it wraps
			var s []Val
			var w *Val
			if f, ok := concrete(bs(a[0])); ok && !allConcrete(a[1].(Slice)) {
				s = m.str(f)
				for i, k := 0, 0; i+1 < len(f); i++ {
					if f[i] != '%' {
						continue
					}
					i++
					if f[i] == '%' {
						continue
					}
					if f[i] == 'w' && k < len(a[1].(Slice)) && a[1].(Slice)[k].(Iface).T != nil {
						w = &a[1].(Slice)[k]
						break
					}
					k++
				}
			} else {
				s, w = m.sprintf(bs(a[0]), a[1].(Slice))
			}
			if w != nil {
				t := m.eng.typeOf("fmt", "wrapError")
				p := new(Val)
				*p = Struct{Str(s), *w}
				return Iface{T: types.NewPointer(t), V: p}
			}
			return m.mkErr(Str(s))
		},
		"fmt.Sprint": func(m *Machine, fr *frame, a []Val) Val {
			var out []Val
			prevStr := true
			for i, v := range a[0].(Slice) {
				_, isStr := v.(Iface).V.(Str)
				if i > 0 && !isStr && !prevStr {
					out = append(out, constCache[8][' '])
				}
				prevStr = isStr
				out = append(out, m.fmtVal('v', "", v.(Iface))...)
			}
			return Str(out)
		},
		"fmt.Sprintln": func(m *Machine, fr *frame, a []Val) Val {
			var out []Val
			for i, v := range a[0].(Slice) {
				if i > 0 {
					out = append(out, constCache[8][' '])
				}
				out = append(out, m.fmtVal('v', "", v.(Iface))...)
			}
			return Str(append(out, constCache[8]['\n']))
		},
		"fmt.Fprintf": func(m *Machine, fr *frame, a []Val) Val {
			s, _ := m.sprintf(bs(a[1]), a[2].(Slice))
			return m.writeTo(fr, a[0].(Iface), s)
		},
		"fmt.Fprint": func(m *Machine, fr *frame, a []Val) Val {
			var out []Val
			for _, v := range a[1].(Slice) {
				out = append(out, m.fmtVal('v', "", v.(Iface))...)
			}
			return m.writeTo(fr, a[0].(Iface), out)
		},
		"fmt.Println": func(m *Machine, fr *frame, a []Val) Val { return Tuple{m.intConst(0), Iface{}} },
		"fmt.Printf":  func(m *Machine, fr *frame, a []Val) Val { return Tuple{m.intConst(0), Iface{}} },
		"fmt.Print":   func(m *Machine, fr *frame, a []Val) Val { return Tuple{m.intConst(0), Iface{}} },
		"os.Exit":     func(m *Machine, fr *frame, a []Val) Val { m.end(endDone, "os.Exit"); return nil },
	}
	delete(intrinsics, "strings.EqualFold")
}

func (m *Machine) writeTo(fr *frame, w Iface, s []Val) Val {
	if w.T == nil {
		m.nilDeref()
	}
	r, ok := m.callMethodByName(w, "Write", Slice(append([]Val{}, s...)))
	if !ok {
		m.unsupported("Write on %v", w.T)
	}
	return r
}

func (m *Machine) appendBytes(dst Slice, src []Val) Val {
	if len(dst)+len(src) <= cap(dst) {
		r := dst[:len(dst)+len(src)]
		copy(r[len(dst):], src)
		return r
	}
	nc := growCap(cap(dst), len(dst)+len(src), 1)
	r := make(Slice, nc)
	copy(r, dst)
	copy(r[len(dst):], src)
	for i := len(dst) + len(src); i < nc; i++ {
		r[i] = constCache[8][0]
	}
	return r[:len(dst)+len(src)]
}

func countByte(m *Machine, fr *frame, a []Val) Val {
	n := m.intConst(0)
	for _, b := range bs(a[0]) {
		n = m.T.Bin(OAdd, n, m.T.Ite(m.T.Eq(b.(*Term), a[1].(*Term)), m.intConst(1), m.intConst(0)))
	}
	return m.intConst(int(m.concretize(n)))
}

func decRune(m *Machine, fr *frame, a []Val) Val {
	s := bs(a[0])
	if len(s) == 0 {
		return Tuple{m.T.C(32, 0xFFFD), m.intConst(0)}
	}
	r, n := m.decodeRune(s)
	return Tuple{r, m.intConst(n)}
}

func runeCount(m *Machine, fr *frame, a []Val) Val {
	s := bs(a[0])
	n := 0
	for len(s) > 0 {
		_, k := m.decodeRune(s)
		s = s[k:]
		n++
	}
	return m.intConst(n)
}

func validUTF8(m *Machine, fr *frame, a []Val) Val {
	s := bs(a[0])
	for len(s) > 0 {
		r, k := m.decodeRune(s)
		if k == 1 && r.isConst() && r.val == 0xFFFD {
			return tFalse
		}
		s = s[k:]
	}
	return tTrue
}

func (m *Machine) errorsIs(err, target Iface) bool {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	cmpb := types.Comparable(target.T)
	for {
		if cmpb && types.Identical(err.T, target.T) && m.branch(m.eq(err, target)) {
			return true
		}
		if sg := m.methSig(err.T, "Is"); sg != nil && sg.Params().Len() == 1 && sg.Results().Len() == 1 {
			r, _ := m.callMethodByName(err, "Is", target)
			if m.branch(r.(*Term)) {
				return true
			}
		}
		sg := m.methSig(err.T, "Unwrap")
		if sg == nil || sg.Results().Len() != 1 {
			return false
		}
		r, _ := m.callMethodByName(err, "Unwrap")
		switch x := r.(type) {
		case Iface:
			if x.T == nil {
				return false
			}
			err = x
		case Slice:
			for _, e := range x {
				if e.(Iface).T != nil && m.errorsIs(e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
}

func (m *Machine) errorsAs(err, target Iface) bool {
	pt, ok := target.T.(*types.Pointer)
	if !ok {
		m.rtPanic("errors: target must be a non-nil pointer")
	}
	for err.T != nil {
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if m.implements(err.T, it) {
				*m.asPtr(target.V) = err
				return true
			}
		} else if types.Identical(err.T, pt.Elem()) {
			assign(m.asPtr(target.V), err.V)
			return true
		}
		if m.methSig(err.T, "Unwrap") == nil {
			return false
		}
		r, _ := m.callMethodByName(err, "Unwrap")
		switch x := r.(type) {
		case Iface:
			err = x
		case Slice:
			for _, e := range x {
				if m.errorsAs(e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// ---- fmt ----

func (m *Machine) sprintf(format []Val, args []Val) (out []Val, wrapped *Val) {
	f, ok := concrete(format)
	if !ok {
		m.unsupported("symbolic format string")
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			out = append(out, constCache[8][c])
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = append(out, m.str("%!(NOVERB)")...)
			break
		}
		flags := f[st:i]
		if f[i] == '%' {
			out = append(out, constCache[8]['%'])
			continue
		}
		if ai >= len(args) {
			out = append(out, m.str("%!"+string(f[i])+"(MISSING)")...)
			continue
		}
		a := args[ai].(Iface)
		ai++
		verb := f[i]
		if verb == 'w' {
			if wrapped == nil && a.T != nil {
				var v Val = a
				wrapped = &v
			}
			verb = 'v'
		}
		out = append(out, m.fmtVal(verb, flags, a)...)
	}
	if ai < len(args) {
		out = append(out, m.str("%!(EXTRA)")...)
	}
	return
}

// allConcrete tells whether formatting the arguments involves no symbolic value.
func allConcrete(args Slice) bool {
	for _, v := range args {
		a := v.(Iface)
		switch x := a.V.(type) {
		case nil:
		case Str:
			if _, ok := concrete(x); !ok {
				return false
			}
		case *Term:
			if !x.isConst() {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *Machine) fmtVal(verb byte, flags string, a Iface) []Val {
	if verb == 'T' {
		if a.T == nil {
			return m.str("<nil>")
		}
		return m.str(types.TypeString(a.T, func(p *types.Package) string { return p.Name() }))
	}
	if a.T == nil {
		if verb == 'v' {
			return m.str("<nil>")
		}
		return m.str("%!" + string(verb) + "(<nil>)")
	}
	if (verb == 's' || verb == 'v' || verb == 'q') && !strings.Contains(flags, "#") {
		var r Val
		ok := false
		if sg := m.methSig(a.T, "Error"); sg != nil && sg.Params().Len() == 0 {
			r, ok = m.callMethodByName(a, "Error")
		} else if sg := m.methSig(a.T, "String"); sg != nil && sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type()) {
			if p, isP := a.V.(*Val); isP && p == nil {
				return m.str("<nil>")
			}
			r, ok = m.callMethodByName(a, "String")
		}
		if ok {
			if verb == 'q' {
				return m.quote(r.(Str))
			}
			return r.(Str)
		}
	}
	switch x := a.V.(type) {
	case Str:
		switch verb {
		case 's', 'v':
			if strings.Contains(flags, "#") {
				return m.quote(x)
			}
			return m.pad(flags, x)
		case 'q':
			return m.quote(x)
		case 'x':
			if s, ok := concrete(x); ok {
				return m.str(fmt.Sprintf("%x", s))
			}
		}
	case *Term:
		w, signed, isF, _ := basicWidth(a.T)
		switch {
		case w == 0 && (verb == 'v' || verb == 't'):
			if m.branch(x) {
				return m.str("true")
			}
			return m.str("false")
		case isF && (verb == 'v' || verb == 'f' || verb == 'g'):
			if x.isConst() {
				if w == 32 {
					return m.str(fmt.Sprintf("%"+flags+string(verb), math.Float32frombits(uint32(x.val))))
				}
				return m.str(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(x.val)))
			}
			fc := byte('g')
			prec := -1
			if verb == 'f' {
				fc, prec = 'f', 6
			}
			if w == 32 {
				return m.formatFloat(m.T.FOp(OFConv, 64, x, nil), fc, prec, 32)
			}
			return m.formatFloat(x, fc, prec, 64)
		case verb == 'd' || verb == 'v':
			if x.isConst() {
				if signed {
					return m.str(fmt.Sprintf("%"+flags+"d", sext(x.val, w)))
				}
				return m.str(fmt.Sprintf("%"+flags+"d", x.val))
			}
			if signed {
				return m.decimalSigned(m.T.SExt(x, 64))
			}
			return m.decimal(m.T.ZExt(x, 64))
		case verb == 'c':
			return m.encodeRune(m.T.Resize(x, 32, signed))
		case verb == 'x' || verb == 'X' || verb == 'q' || verb == 'U' || verb == 'o' || verb == 'b':
			if x.isConst() {
				if signed {
					return m.str(fmt.Sprintf("%"+flags+string(verb), sext(x.val, w)))
				}
				return m.str(fmt.Sprintf("%"+flags+string(verb), x.val))
			}
		}
	case Slice:
		if st, ok := a.T.Underlying().(*types.Slice); ok {
			if w, _, _, ok := basicWidth(st.Elem()); ok && w == 8 && (verb == 's') {
				return x
			}
			if verb == 'v' && !strings.Contains(flags, "#") || verb == 'd' || verb == 's' {
				out := m.str("[")
				for i, e := range x {
					if i > 0 {
						out = append(out, constCache[8][' '])
					}
					var ie Iface
					if ei, ok := e.(Iface); ok {
						ie = ei
					} else {
						ie = Iface{T: st.Elem(), V: e}
					}
					out = append(out, m.fmtVal(verb, flags, ie)...)
				}
				return append(out, constCache[8][']'])
			}
		}
	}
	m.side["fmtopaque"] = true
	return m.str("?")
}

func (m *Machine) pad(flags string, s []Val) []Val {
	if flags == "" {
		return s
	}
	if cs, ok := concrete(s); ok {
		return m.str(fmt.Sprintf("%"+flags+"s", cs))
	}
	return s
}

func (m *Machine) quote(s Str) []Val {
	if cs, ok := concrete(s); ok {
		return m.str(strconv.Quote(cs))
	}
	if f := m.eng.funcOf("strconv", "Quote"); f != nil {
		return m.call(m.curFrame, f, []Val{s}, nil).(Str)
	}
	return s
}
