package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// ---------- path control ----------

type Dec struct {
	taken   bool
	implied bool
	val     uint64 // candidate value of a concretisation
}

type workItem struct {
	prefix []Dec
	model  map[int32]uint64
}

type endKind int

const (
	endDone endKind = iota
	endAssume
	endUnsupported
	endBound
	endFail // assertion failed and nothing remains on the path
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

type targetPanic struct {
	v    Iface
	msg  string
	exit bool
}

// input is one nondeterministic harness input, in creation order.
type input struct {
	Name string
	Kind string // "int" | "bytes"
	vars []*Term
}

type Failure struct {
	Assert string
	Msg    string
	Inputs []InputVal
	Stack  []string
}

type InputVal struct {
	N string   `json:"n"`
	V []uint64 `json:"v"`
}

type Stats struct {
	Paths, Done, Assumed, Unsupported, Bound, Failed, Unknown int
	Instrs                                                    int64
	Branches                                                  int64
	Asserts                                                   int // distinct assertion checks discharged
	AssertQueries                                             int
	AssertUnknown                                             int
	BranchUnknown                                             int
	Merged                                                    int64
	Covers                                                    map[string]int
	UnsupMsgs                                                 map[string]int
	Funcs                                                     map[string]int64
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	slots    map[ssa.Value]int
	blocks   []*blockInfo
	hasDefer bool
	native   intrinsic
	user     bool
	std      bool
}

type opnd struct {
	slot int // >=0: register
	v    ssa.Value
	c    Val // cached constant (non-nil) when slot<0
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type blockInfo struct {
	b     *ssa.BasicBlock
	phis  []*ssa.Phi
	phiD  []int
	phiO  [][]opnd
	code  []cinstr
	npred int
}

type intrinsic func(m *Machine, fr *frame, args []Val) Val

type Machine struct {
	eng  *Engine
	wid  int
	T    *Terms
	sol  *Solver
	sent int // pc entries already asserted in the solver

	prefix []Dec
	pos    int
	trace  []Dec
	pc     []*Term

	userGlobals map[*ssa.Global]*Val
	stdGlobals  map[*ssa.Global]*Val
	userInit    map[*ssa.Package]bool
	stdInit     map[*ssa.Package]bool

	fns    map[*ssa.Function]*fnInfo
	mcache map[types.Type]map[string]*ssa.Function

	inputs   []*input
	steps    int64
	maxSteps int64
	depth    int
	forks    int

	push       func(w workItem)
	stats      *Stats
	fails      []Failure
	covers     []string
	obs        []string
	obsT       []obsRec
	pools      map[*Val][]Val
	side       map[any]any // per-path side tables of intrinsics
	known      map[*Term]bool
	inSpec     bool
	allowPanic bool
	curFrame   *frame
}

type obsRec struct {
	name string
	v    []Val
	kind string
}

type frame struct {
	fi        *fnInfo
	regs      []Val
	caller    *frame
	env       []Val
	defers    []func()
	block     *blockInfo
	prev      *ssa.BasicBlock
	result    Val
	panicking bool
	panic     *targetPanic
	recovered bool
	pos       token.Pos
}

func (m *Machine) end(k endKind, f string, a ...any) {
	panic(pathEnd{k, fmt.Sprintf(f, a...)})
}

func (m *Machine) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	where := ""
	fr := m.curFrame
	for i := 0; fr != nil && i < 6; i++ {
		where += " < " + fr.fi.name
		fr = fr.caller
	}
	panic(pathEnd{endUnsupported, msg + where})
}

func (m *Machine) rtPanic(msg string) {
	if os.Getenv("GOSYM_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "panic at", m.where())
	}
	panic(&targetPanic{v: Iface{T: m.eng.rtErrType, V: m.str(msg)}, msg: msg})
}

func (m *Machine) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if m.known[c] {
		return
	}
	m.pc = append(m.pc, c)
	m.learn(c)
}

// learn records c (and its conjuncts) as syntactically known facts.
func (m *Machine) learn(c *Term) {
	if m.known[c] {
		return
	}
	m.known[c] = true
	refine(c)
	if c.op == OLAnd {
		m.learn(c.a)
		m.learn(c.b)
	}
	if c.op == OLNot && c.a.op == OLOr {
		m.learn(m.T.Not(c.a.a))
		m.learn(m.T.Not(c.a.b))
	}
}

// refine narrows the recorded unsigned range of a term from a fact on the path.
func refine(c *Term) {
	up := func(t *Term, v uint64) {
		for t.op != OConst && v < t.hi && v >= t.lo {
			t.hi = v
			if t.op != OZExt {
				break
			}
			t = t.a
		}
	}
	lo := func(t *Term, v uint64) {
		for t.op != OConst && v > t.lo && v <= t.hi {
			t.lo = v
			if t.op != OZExt {
				break
			}
			t = t.a
		}
	}
	switch c.op {
	case OULe:
		up(c.a, c.b.hi)
		lo(c.b, c.a.lo)
	case OULt:
		if c.b.hi > 0 {
			up(c.a, c.b.hi-1)
		}
		if c.a.lo < mask(c.a.w) {
			lo(c.b, c.a.lo+1)
		}
	case OEq:
		if c.a.w > 0 {
			up(c.a, c.b.hi)
			lo(c.a, c.b.lo)
			up(c.b, c.a.hi)
			lo(c.b, c.a.lo)
		}
	case OSLe:
		// 0 <= x (signed)
		if c.a.isConst() && sext(c.a.val, c.a.w) >= 0 {
			up(c.b, mask(c.b.w)>>1)
			lo(c.b, c.a.val)
		}
		if nonneg(c.b) && nonneg(c.a) {
			up(c.a, c.b.hi)
		}
	case OSLt:
		if c.a.isConst() && sext(c.a.val, c.a.w) >= -1 {
			up(c.b, mask(c.b.w)>>1)
		}
		// x < 0
		if c.b.isConst() && sext(c.b.val, c.b.w) <= 0 {
			lo(c.a, uint64(1)<<(c.a.w-1))
		}
	}
}

// simp simplifies c by the facts already on the path.
func (m *Machine) simp(c *Term) *Term {
	if c.isConst() {
		return c
	}
	if m.known[c] {
		return tTrue
	}
	if m.known[m.T.Not(c)] {
		return tFalse
	}
	switch c.op {
	case OLAnd:
		a, b := m.simp(c.a), m.simp(c.b)
		if a != c.a || b != c.b {
			return m.T.And(a, b)
		}
	case OLOr:
		a, b := m.simp(c.a), m.simp(c.b)
		if a != c.a || b != c.b {
			return m.T.Or(a, b)
		}
	case OLNot:
		a := m.simp(c.a)
		if a != c.a {
			return m.T.Not(a)
		}
	}
	return c
}

func (m *Machine) flush() {
	for ; m.sent < len(m.pc); m.sent++ {
		m.sol.Assert(m.T, m.pc[m.sent])
	}
}

func (m *Machine) check(c *Term) (SatRes, map[int32]uint64) {
	m.flush()
	return m.sol.Check(m.T, c)
}

type specAbort struct{}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (m *Machine) branch(c *Term) bool { return m.branchV(c, 0) }

func (m *Machine) branchV(c *Term, cv uint64) bool {
	c = m.simp(c)
	if c.isConst() {
		return c.val != 0
	}
	if m.inSpec {
		panic(specAbort{})
	}
	m.stats.Branches++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if !d.implied {
			if d.taken {
				m.addPC(c)
			} else {
				m.addPC(m.T.Not(c))
			}
		}
		return d.taken
	}
	v := m.T.Eval(c) != 0
	other := c
	if v {
		other = m.T.Not(c)
	}
	res, model := m.check(other)
	d := Dec{taken: v, val: cv}
	switch res {
	case Unsat:
		d.implied = true
	case Sat:
		alt := make([]Dec, len(m.trace)+1)
		copy(alt, m.trace)
		alt[len(m.trace)] = Dec{taken: !v, val: cv}
		m.push(workItem{alt, model})
		m.forks++
	default:
		m.stats.BranchUnknown++
	}
	m.trace = append(m.trace, d)
	m.prefix = m.trace
	m.pos = len(m.trace)
	if !d.implied {
		if v {
			m.addPC(c)
		} else {
			m.addPC(m.T.Not(c))
		}
	}
	return v
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) assume(c *Term) {
	c = m.simp(c)
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		m.end(endAssume, "assume false")
	}
	if m.T.Eval(c) == 0 {
		res, model := m.check(c)
		if res == Unknown {
			m.end(endUnknown, "assume unknown")
		}
		if res != Sat {
			m.end(endAssume, "assume infeasible")
		}
		m.T.setModel(model)
	}
	m.addPC(c)
}

func (m *Machine) assert(c *Term, id, msg string) {
	c = m.simp(c)
	if m.replaying() {
		// an ancestor path already checked this instance
		if c.isFalse() {
			m.end(endFail, "assert %s", id)
		}
		m.addPC(c)
		return
	}
	m.stats.Asserts++
	if c.isTrue() {
		return
	}
	if !c.isFalse() && m.T.Eval(c) != 0 {
		m.stats.AssertQueries++
		res, model := m.check(m.T.Not(c))
		if res == Unsat {
			m.addPC(c) // lemma; harmless
			return
		}
		if res == Unknown {
			m.stats.AssertUnknown++
			m.addPC(c)
			return
		}
		old := m.T.model
		m.T.setModel(model)
		m.fail(id, msg)
		m.T.setModel(old)
		m.addPC(c)
		return
	}
	// the current model violates it: the model satisfies the path condition
	m.stats.AssertQueries++
	if c.isFalse() {
		// confirm feasibility of the path with the solver
		res, model := m.check(nil)
		if res == Sat {
			m.T.setModel(model)
		}
		m.fail(id, msg)
		m.end(endFail, "assert %s", id)
	}
	m.fail(id, msg)
	res, model := m.check(c)
	if res != Sat {
		m.end(endFail, "assert %s", id)
	}
	m.T.setModel(model)
	m.addPC(c)
}

func (m *Machine) inputVals() []InputVal {
	var r []InputVal
	for _, in := range m.inputs {
		iv := InputVal{N: in.Name, V: []uint64{}}
		for _, t := range in.vars {
			iv.V = append(iv.V, m.T.Eval(t))
		}
		r = append(r, iv)
	}
	return r
}

func (m *Machine) stack() []string {
	var st []string
	for fr := m.curFrame; fr != nil && len(st) < 12; fr = fr.caller {
		p := m.eng.fset.Position(fr.pos)
		st = append(st, fmt.Sprintf("%s (%s:%d)", fr.fi.name, p.Filename, p.Line))
	}
	return st
}

func (m *Machine) fail(id, msg string) {
	m.fails = append(m.fails, Failure{Assert: id, Msg: msg, Inputs: m.inputVals(), Stack: m.stack()})
	m.stats.Failed++
}

// concretize forks over the feasible values of t and returns the chosen one.
// The candidate value tried is recorded in the decision so replays retry it.
func (m *Machine) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if m.inSpec {
			panic(specAbort{})
		}
		if n > 4096 {
			m.end(endBound, "concretize: too many values")
		}
		if m.replaying() {
			// every decision made here is recorded with the value tried, also those that were clear
			d := m.prefix[m.pos]
			c := m.T.Eq(t, m.T.C(t.w, d.val))
			m.pos++
			m.trace = append(m.trace, d)
			if !d.implied {
				if d.taken {
					m.addPC(m.simp(c))
				} else {
					m.addPC(m.T.Not(m.simp(c)))
				}
			}
			if d.taken {
				return d.val
			}
			continue
		}
		v := m.T.Eval(t)
		c := m.simp(m.T.Eq(t, m.T.C(t.w, v)))
		switch {
		case c.isFalse():
			// the model in use does not meet the path condition
			r, mod := m.check(nil)
			if r != Sat {
				m.end(endUnknown, "concretize: no model")
			}
			m.T.setModel(mod)
		case c.isTrue():
			m.trace = append(m.trace, Dec{taken: true, implied: true, val: v})
			m.prefix = m.trace
			m.pos = len(m.trace)
			return v
		default:
			if m.branchV(c, v) {
				return v
			}
		}
	}
}

func (m *Machine) concInt(v Val) int {
	t := v.(*Term)
	return int(sext(m.concretize(t), t.w))
}

// concRange concretises t knowing it must be within [0,n]; out-of-range handled by caller.
func (m *Machine) inRange(idx *Term, n int) bool {
	// 0 <= idx < n (idx signed or unsigned 64): as unsigned compare
	return m.branch(m.T.ULt(idx, m.T.C(idx.w, uint64(n))))
}

// ---------- function preparation ----------

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi := m.fns[fn]; fi != nil {
		return fi
	}
	fi := m.eng.prepare(m, fn)
	m.fns[fn] = fi
	return fi
}

func isStd(path string) bool {
	return !strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
}

func (e *Engine) isUserPkg(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	for _, u := range e.userPrefixes {
		if path == u || strings.HasPrefix(path, u+"/") {
			return true
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (e *Engine) prepare(m *Machine, fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String()}
	p := fnPkg(fn)
	fi.user = e.isUserPkg(p)
	fi.native = lookupIntrinsic(fn)
	if fn.Blocks == nil && p != nil {
		e.buildMu.Lock()
		p.Build()
		e.buildMu.Unlock()
	}
	if fn.Blocks == nil {
		return fi
	}
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	fi.slots = map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		if s, ok := fi.slots[v]; ok {
			return s
		}
		s := fi.nregs
		fi.nregs++
		fi.slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{slot: -1}
		}
		if s, ok := fi.slots[v]; ok {
			return opnd{slot: s, v: v}
		}
		o := opnd{slot: -1, v: v}
		switch c := v.(type) {
		case *ssa.Const:
			o.c = m.constVal(c)
		case *ssa.Function:
			o.c = &Func{fn: c}
		}
		return o
	}
	for _, b := range fn.Blocks {
		bi := &blockInfo{b: b, npred: len(b.Preds)}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				bi.phis = append(bi.phis, ph)
				bi.phiD = append(bi.phiD, fi.slots[ph])
				var os []opnd
				for _, e := range ph.Edges {
					os = append(os, mkop(e))
				}
				bi.phiO = append(bi.phiO, os)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = fi.slots[v]
			}
			for _, op := range in.Operands(nil) {
				if op == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			bi.code = append(bi.code, ci)
		}
		fi.blocks = append(fi.blocks, bi)
	}
	return fi
}

// constVal: large constants must not be arena-bound, so they are created standalone.
func (m *Machine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		if w, _, _, ok := basicWidth(c.Type()); ok {
			return freeConst(w, 0)
		}
		return m.zeroFree(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		m.unsupported("const of type param %v", tp)
	}
	if w, signed, isF, ok := basicWidth(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		if isF {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return freeConst(w, fbits(w, f))
		}
		_ = signed
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return freeConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return freeConst(w, u)
	}
	if b, ok := t.(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return m.str(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return m.str(string(rune(i)))
		}
		if b.Info()&types.IsComplex != 0 {
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return Native{complex(re, im)}
		}
	}
	m.unsupported("constant %v of %v", c, c.Type())
	return nil
}

var freeMu sync.Mutex
var freeTab = map[[2]uint64]*Term{}
var freeID int32 = -100000

// freeConst returns a process-wide interned constant (usable on every path).
func freeConst(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		return mkBool(v != 0)
	}
	if v < 256 && constCache[w][v] != nil {
		return constCache[w][v]
	}
	freeMu.Lock()
	defer freeMu.Unlock()
	k := [2]uint64{uint64(w), v}
	if t := freeTab[k]; t != nil {
		return t
	}
	t := &Term{op: OConst, w: w, val: v, id: freeID, lo: v, hi: v}
	freeID--
	freeTab[k] = t
	return t
}

func (m *Machine) zeroFree(t types.Type) Val { return m.zero(t) }

func (fr *frame) get(m *Machine, o *opnd) Val {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.c != nil {
		return o.c
	}
	switch v := o.v.(type) {
	case *ssa.Global:
		return m.global(v)
	case *ssa.Builtin:
		return &Func{name: v.Name()}
	case nil:
		return nil
	}
	m.unsupported("operand %T", o.v)
	return nil
}

func (m *Machine) global(g *ssa.Global) *Val {
	user := m.eng.isUserPkg(g.Pkg)
	tab := m.stdGlobals
	if user {
		tab = m.userGlobals
	}
	if p := tab[g]; p != nil {
		return p
	}
	p := new(Val)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	tab[g] = p
	if !user {
		if v := m.globalOverride(g); v != nil {
			*p = v
			return p
		}
	}
	// lazily initialise the owning package (its own variables only)
	m.initPkg(g.Pkg)
	return p
}

// initPkg runs a package initialiser without initialising its imports (they are
// initialised on demand when one of their globals is first touched).
func (m *Machine) initPkg(p *ssa.Package) {
	user := m.eng.isUserPkg(p)
	tab := m.stdInit
	if user {
		tab = m.userInit
	}
	if tab[p] {
		return
	}
	tab[p] = true
	m.eng.buildMu.Lock()
	p.Build()
	m.eng.buildMu.Unlock()
	if f := p.Func("init"); f != nil {
		sp := m.inSpec
		m.inSpec = false
		m.call(nil, f, nil, nil)
		m.inSpec = sp
	}
}

// ---------- calls ----------

func (m *Machine) callVal(fr *frame, f Val, args []Val) Val {
	fn, ok := f.(*Func)
	if !ok {
		m.unsupported("call of %T", f)
	}
	if fn == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if fn.native != nil {
		return fn.native(m, args)
	}
	return m.call(fr, fn.fn, args, fn.env)
}

const maxDepth = 2000

func (m *Machine) call(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	fi := m.info(fn)
	if m.inSpec {
		panic(specAbort{})
	}
	if fi.native != nil {
		if r := fi.native(m, caller, args); r != notHandled {
			return r
		}
	}
	if fi.blocks == nil {
		m.unsupported("no body: %s", fi.name)
	}
	if m.depth > maxDepth {
		m.end(endBound, "call depth")
	}
	if fn.Synthetic == "package initializer" {
		// do not recurse into imported packages' init: handled lazily / eagerly elsewhere
		if caller != nil && caller.fi.fn.Synthetic == "package initializer" && fn.Pkg != caller.fi.fn.Pkg {
			return nil
		}
	}
	fr := &frame{fi: fi, caller: caller, env: env, regs: make([]Val, fi.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.block = fi.blocks[0]
	m.depth++
	old := m.curFrame
	m.curFrame = fr
	if fi.user {
		m.stats.Funcs[fi.name]++
	}
	if fi.hasDefer {
		for fr.block != nil {
			m.runDeferFrame(fr)
		}
	} else {
		m.run(fr)
	}
	m.depth--
	m.curFrame = old
	return fr.result
}

func (m *Machine) runDeferFrame(fr *frame) {
	depth := m.depth
	defer func() {
		if fr.block == nil {
			return
		}
		x := recover()
		if x == nil {
			return
		}
		tp, ok := x.(*targetPanic)
		if !ok || tp.exit {
			panic(x)
		}
		m.depth = depth
		m.curFrame = fr
		fr.panicking = true
		fr.panic = tp
		m.runDefers(fr)
		// recovered
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.blocks[fr.fi.fn.Recover.Index]
			fr.prev = nil
		} else {
			fr.block = nil
			fr.result = m.zeroResult(fr.fi.fn)
		}
	}()
	m.run(fr)
}

func (m *Machine) zeroResult(fn *ssa.Function) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (m *Machine) runDefer(fr *frame, d func()) {
	ok := false
	depth := m.depth
	defer func() {
		if ok {
			return
		}
		x := recover()
		tp, is := x.(*targetPanic)
		if !is {
			panic(x)
		}
		m.depth = depth
		m.curFrame = fr
		fr.panicking = true
		fr.panic = tp
	}()
	d()
	ok = true
}

// ---------- main loop ----------

func (m *Machine) run(fr *frame) {
	skip := false
	for {
		bi := fr.block
		if !skip && len(bi.phis) > 0 && fr.prev != nil {
			m.phis(fr, bi)
		}
		m.steps += int64(len(bi.code))
		if m.steps > m.maxSteps {
			m.end(endBound, "step bound %d reached in %s", m.maxSteps, fr.fi.name)
		}
		var next *ssa.BasicBlock
		next, skip = m.exec(fr, bi)
		if next == nil {
			fr.block = nil
			return
		}
		fr.prev = bi.b
		fr.block = fr.fi.blocks[next.Index]
	}
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (m *Machine) phis(fr *frame, bi *blockInfo) {
	k := predIndex(bi.b, fr.prev)
	if len(bi.phis) == 1 {
		fr.regs[bi.phiD[0]] = fr.get(m, &bi.phiO[0][k])
		return
	}
	var buf [8]Val
	vals := buf[:0]
	for i := range bi.phis {
		vals = append(vals, fr.get(m, &bi.phiO[i][k]))
	}
	for i, v := range vals {
		fr.regs[bi.phiD[i]] = v
	}
}

// exec runs the instructions of a block and returns the successor (nil on return).
func (m *Machine) exec(fr *frame, bi *blockInfo) (*ssa.BasicBlock, bool) {
	for i := range bi.code {
		ci := &bi.code[i]
		switch in := ci.in.(type) {
		case *ssa.Jump:
			return bi.b.Succs[0], false
		case *ssa.If:
			c := fr.get(m, &ci.ops[0]).(*Term)
			if !c.isConst() && !m.inSpec && !m.eng.noMerge {
				if nb := m.tryMerge(fr, bi, c); nb != nil {
					return nb, true
				}
			}
			if m.branch(c) {
				return bi.b.Succs[0], false
			}
			return bi.b.Succs[1], false
		case *ssa.Return:
			switch len(ci.ops) {
			case 0:
			case 1:
				fr.result = fr.get(m, &ci.ops[0])
			default:
				t := make(Tuple, len(ci.ops))
				for j := range ci.ops {
					t[j] = fr.get(m, &ci.ops[j])
				}
				fr.result = t
			}
			return nil, false
		case *ssa.Panic:
			fr.pos = in.Pos()
			v := fr.get(m, &ci.ops[0]).(Iface)
			panic(&targetPanic{v: v, msg: m.show(v)})
		default:
			m.instr(fr, ci)
		}
	}
	panic("block without terminator")
}

// pureBlock speculatively executes the non-terminator instructions of a block.
func (m *Machine) specBlock(fr *frame, bi *blockInfo) (ok bool) {
	n := len(bi.code) - 1
	if n > 12 {
		return false
	}
	for i := 0; i < n; i++ {
		switch in := bi.code[i].in.(type) {
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	m.inSpec = true
	pcn := len(m.pc)
	defer func() {
		m.inSpec = false
		if x := recover(); x != nil {
			switch x.(type) {
			case specAbort, *targetPanic:
				ok = false
				m.pc = m.pc[:pcn]
			case pathEnd:
				ok = false
			default:
				panic(x)
			}
		}
	}()
	for i := 0; i < n; i++ {
		m.instr(fr, &bi.code[i])
	}
	return true
}

func mergeable(a, b Val) bool {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 {
		return x.w == y.w
	}
	return false
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Val:
		y, ok := b.(*Val)
		return ok && x == y
	case *Func:
		y, ok := b.(*Func)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && len(x) == len(y) && (len(x) == 0 || unsafe.SliceData(x) == unsafe.SliceData(y))
	case Slice:
		y, ok := b.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || unsafe.SliceData(x) == unsafe.SliceData(y))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	}
	return false
}

// tryMerge performs if-conversion for short-circuit conditions and small pure
// diamonds: it explores the region speculatively and joins scalar phis with ite.
func (m *Machine) tryMerge(fr *frame, bi *blockInfo, c *Term) *ssa.BasicBlock {
	fi := fr.fi
	cur := bi
	cond := c
	S, F := bi.b.Succs[0], bi.b.Succs[1]
	if S == F {
		return nil
	}
	// phi environments for the two current targets: values of phis when arriving
	type env map[*ssa.Phi]Val
	edgeEnv := func(to *ssa.BasicBlock, from *ssa.BasicBlock) env {
		tb := fi.blocks[to.Index]
		e := env{}
		k := predIndex(to, from)
		for i, p := range tb.phis {
			e[p] = fr.get(m, &tb.phiO[i][k])
		}
		return e
	}
	mergeEnv := func(c *Term, a, b env) (env, bool) {
		r := env{}
		for p, va := range a {
			vb := b[p]
			if sameVal(va, vb) {
				r[p] = va
			} else if mergeable(va, vb) {
				r[p] = m.T.Ite(c, va.(*Term), vb.(*Term))
			} else {
				return nil, false
			}
		}
		return r, true
	}
	eS, eF := edgeEnv(S, bi.b), edgeEnv(F, bi.b)
	progress := false
	finish := func(b *ssa.BasicBlock, e env) *ssa.BasicBlock {
		tb := fi.blocks[b.Index]
		for i, p := range tb.phis {
			fr.regs[tb.phiD[i]] = e[p]
		}
		return b
	}
	for iter := 0; iter < 16; iter++ {
		sb, fb := fi.blocks[S.Index], fi.blocks[F.Index]
		// full diamond / triangle?
		sPure := sb.npred == 1 && len(sb.phis) == 0 && S != bi.b
		fPure := fb.npred == 1 && len(fb.phis) == 0 && F != bi.b
		// S -> jump J
		if sPure && isJump(sb) && sb.b.Succs[0] == F && m.specBlock(fr, sb) {
			if e, ok := mergeEnv(cond, edgeEnv(F, S), eF); ok {
				m.stats.Merged++
				return (finish(F, e))
			}
		}
		if fPure && isJump(fb) && fb.b.Succs[0] == S && m.specBlock(fr, fb) {
			if e, ok := mergeEnv(cond, eS, edgeEnv(S, F)); ok {
				m.stats.Merged++
				return (finish(S, e))
			}
		}
		if sPure && fPure && isJump(sb) && isJump(fb) && sb.b.Succs[0] == fb.b.Succs[0] && m.specBlock(fr, sb) && m.specBlock(fr, fb) {
			J := sb.b.Succs[0]
			if e, ok := mergeEnv(cond, edgeEnv(J, S), edgeEnv(J, F)); ok {
				m.stats.Merged++
				return (finish(J, e))
			}
		}
		// short-circuit: S pure ending in If with one target F  (a && b)
		if sPure && isIf(sb) && (sb.b.Succs[0] == F || sb.b.Succs[1] == F) && sb.b.Succs[0] != sb.b.Succs[1] && m.specBlock(fr, sb) {
			d := fr.get(m, &sb.code[len(sb.code)-1].ops[0]).(*Term)
			if sb.b.Succs[1] == F {
				// go X if cond&&d else F
				X := sb.b.Succs[0]
				if e, ok := mergeEnv(cond, edgeEnv(F, S), eF); ok {
					eS = edgeEnv(X, S)
					eF = e
					cond = m.T.And(cond, d)
					S = X
					progress = true
					goto next
				}
			} else {
				// S: if d goto F else X
				X := sb.b.Succs[1]
				if e, ok := mergeEnv(cond, edgeEnv(F, S), eF); ok {
					eS = edgeEnv(X, S)
					eF = e
					cond = m.T.And(cond, m.T.Not(d))
					S = X
					progress = true
					goto next
				}
			}
		}
		if fPure && isIf(fb) && (fb.b.Succs[0] == S || fb.b.Succs[1] == S) && fb.b.Succs[0] != fb.b.Succs[1] && m.specBlock(fr, fb) {
			d := fr.get(m, &fb.code[len(fb.code)-1].ops[0]).(*Term)
			if fb.b.Succs[0] == S {
				X := fb.b.Succs[1]
				if e, ok := mergeEnv(cond, eS, edgeEnv(S, F)); ok {
					eF = edgeEnv(X, F)
					eS = e
					cond = m.T.Or(cond, d)
					F = X
					progress = true
					goto next
				}
			} else {
				X := fb.b.Succs[0]
				if e, ok := mergeEnv(cond, eS, edgeEnv(S, F)); ok {
					eF = edgeEnv(X, F)
					eS = e
					cond = m.T.Or(cond, m.T.Not(d))
					F = X
					progress = true
					goto next
				}
			}
		}
		break
	next:
		m.stats.Merged++
		if cond.isConst() {
			break
		}
	}
	_ = cur
	if !progress {
		return nil
	}
	if m.branch(cond) {
		return (finish(S, eS))
	}
	return (finish(F, eF))
}

func isJump(b *blockInfo) bool { _, ok := b.code[len(b.code)-1].in.(*ssa.Jump); return ok }
func isIf(b *blockInfo) bool   { _, ok := b.code[len(b.code)-1].in.(*ssa.If); return ok }

var _ = sort.Strings
var _ = utf8.RuneError
