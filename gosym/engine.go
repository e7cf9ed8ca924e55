package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog         *ssa.Program
	fset         *token.FileSet
	pkgs         []*packages.Package
	ssaPkgs      []*ssa.Package
	userPrefixes []string
	errStrType   types.Type
	rtErrType    types.Type
	buildMu      sync.Mutex
	implMu       sync.Mutex
	implTab      map[[2]types.Type]bool
	noMerge      bool
	thorough     bool
	solverBin    string
	byPath       map[string]*ssa.Package
	initOrder    []*ssa.Package
}

type LoadConfig struct {
	Dir      string
	Env      []string
	Overlay  map[string][]byte
	Patterns []string
}

func Load(lc LoadConfig) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: lc.Dir, Overlay: lc.Overlay, Env: lc.Env, Fset: fset}
	pk, err := packages.Load(cfg, lc.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, fset: fset, pkgs: pk, ssaPkgs: sp, implTab: map[[2]types.Type]bool{}, solverBin: "z3-new", byPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		if _, ok := e.byPath[p.Pkg.Path()]; !ok {
			e.byPath[p.Pkg.Path()] = p
		}
	}
	prog.Build()
	if t := e.typeOf("errors", "errorString"); t != nil {
		e.errStrType = types.NewPointer(t)
	}
	e.rtErrType = types.Typ[types.String]
	return e, nil
}

func (e *Engine) typeOf(pkg, name string) types.Type {
	p := e.byPath[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (e *Engine) globalOf(pkg, name string) *ssa.Global {
	p := e.byPath[pkg]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (e *Engine) funcOf(pkg, name string) *ssa.Function {
	p := e.byPath[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// userInitOrder returns user packages reachable from p in dependency order.
func (e *Engine) userInitOrder(p *ssa.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			visit(i)
		}
		if sp := e.byPath[t.Path()]; sp != nil && e.isUserPkg(sp) && sp.Func("init#1") != nil {
			// only packages with explicit init functions are initialised eagerly
			out = append(out, sp)
		}
	}
	visit(p.Pkg)
	return out
}

type Options struct {
	Workers    int
	MaxPaths   int
	Deadline   time.Time
	MaxSteps   int64
	KeepPaths  int // number of path witnesses kept for native validation
	StopOnFail int
	Seed       uint64
}

type Witness struct {
	Inputs []InputVal `json:"inputs"`
	Covers []string   `json:"covers"`
	Obs    []string   `json:"obs"`
	End    string     `json:"end"`
	approx bool
}

type Result struct {
	Harness   string
	Stats     Stats
	Failures  []Failure
	Witnesses []Witness
	Queries   int
	SolverUnk int
	SolverDur time.Duration
	Wall      time.Duration
	Exhausted bool // the work list was emptied
	Internal  []string
}

// Explore runs every feasible path of fn within the budget.
func (e *Engine) Explore(fn *ssa.Function, opt Options) *Result {
	t0 := time.Now()
	res := &Result{Harness: fn.Name(), Stats: Stats{Covers: map[string]int{}, UnsupMsgs: map[string]int{}, Funcs: map[string]int64{}}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := []workItem{{}}
	active := 0
	stop := false
	done := 0
	if opt.Workers == 0 {
		opt.Workers = runtime.NumCPU()
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20_000_000
	}
	order := e.userInitOrder(fn.Pkg)
	var wg sync.WaitGroup
	for w := 0; w < opt.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var sol *Solver
			wk := &workerState{consts: map[[2]uint64]*Term{}, stdGlobals: map[*ssa.Global]*Val{}, stdInit: map[*ssa.Package]bool{}, fns: map[*ssa.Function]*fnInfo{}, mcache: map[types.Type]map[string]*ssa.Function{}}
			for {
				mu.Lock()
				for len(work) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(work) == 0 {
					mu.Unlock()
					cond.Broadcast()
					break
				}
				it := work[len(work)-1]
				work = work[:len(work)-1]
				active++
				mu.Unlock()
				if sol == nil {
					sol, _ = NewSolver(e.solverBin)
				}
				m := e.runPath(fn, it, sol, wk, opt, func(n workItem) {
					mu.Lock()
					work = append(work, n)
					mu.Unlock()
					cond.Signal()
				}, order)
				mu.Lock()
				active--
				done++
				res.absorb(m, opt)
				if (opt.MaxPaths > 0 && done >= opt.MaxPaths) || (!opt.Deadline.IsZero() && time.Now().After(opt.Deadline)) || (opt.StopOnFail > 0 && len(res.Failures) >= opt.StopOnFail) {
					stop = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
			if sol != nil {
				mu.Lock()
				res.Queries += sol.queries
				res.SolverUnk += sol.unknown
				res.SolverDur += sol.dur
				mu.Unlock()
				sol.Close()
			}
		}(w)
	}
	wg.Wait()
	res.Exhausted = len(work) == 0
	res.Wall = time.Since(t0)
	sort.Slice(res.Failures, func(i, j int) bool { return res.Failures[i].Assert < res.Failures[j].Assert })
	return res
}

type workerState struct {
	stdGlobals map[*ssa.Global]*Val
	stdInit    map[*ssa.Package]bool
	fns        map[*ssa.Function]*fnInfo
	mcache     map[types.Type]map[string]*ssa.Function
	consts     map[[2]uint64]*Term
}

type pathResult struct {
	m    *Machine
	end  pathEnd
	wit  *Witness
	ierr string
}

func (e *Engine) runPath(fn *ssa.Function, it workItem, sol *Solver, wk *workerState, opt Options, push func(workItem), order []*ssa.Package) (pr pathResult) {
	m := &Machine{eng: e, T: NewTerms(wk.consts), sol: sol, prefix: it.prefix, userGlobals: map[*ssa.Global]*Val{}, stdGlobals: wk.stdGlobals,
		userInit: map[*ssa.Package]bool{}, stdInit: wk.stdInit, fns: wk.fns, mcache: wk.mcache, maxSteps: opt.MaxSteps, push: push,
		stats: &Stats{Covers: map[string]int{}, UnsupMsgs: map[string]int{}, Funcs: map[string]int64{}}, pools: map[*Val][]Val{}, side: map[any]any{}, known: map[*Term]bool{}}
	if it.model != nil {
		m.T.setModel(it.model)
	}
	pr.m = m
	sol.Begin()
	func() {
		defer func() {
			x := recover()
			switch p := x.(type) {
			case nil:
				pr.end = pathEnd{endDone, ""}
			case pathEnd:
				pr.end = p
			case *targetPanic:
				pr.end = pathEnd{endFail, "panic: " + p.msg}
				// an uncaught panic is a violation: confirm the path is feasible
				m.stats.AssertQueries++
				m.stats.Asserts++
				if r, mod := m.safeCheck(); r == Sat {
					m.T.setModel(mod)
				}
				m.fail("no-panic", "uncaught panic: "+p.msg)
			default:
				pr.end = pathEnd{endUnsupported, fmt.Sprintf("internal: %v", p)}
				pr.ierr = fmt.Sprintf("%v in %v\n%s", p, m.where(), debug.Stack())
			}
		}()
		for _, p := range order {
			m.initPkg(p)
		}
		m.call(nil, fn, nil, nil)
	}()
	sol.End()
	m.T.gen++
	w := Witness{Inputs: m.inputVals(), Covers: m.covers, End: ""}
	for _, o := range m.obsT {
		w.Obs = append(w.Obs, m.renderObs(o))
	}
	w.approx = m.side["approx"] != nil || m.side["fmtopaque"] != nil
	switch pr.end.kind {
	case endDone:
		w.End = "done"
	case endUnsupported, endBound, endUnknown:
		w.End = "cut"
	case endFail:
		w.End = "fail"
	case endAssume:
		w.End = "assume"
	}
	pr.wit = &w
	return
}

func (m *Machine) safeCheck() (SatRes, map[int32]uint64) { return m.check(nil) }

func (m *Machine) where() string {
	var s []string
	for fr := m.curFrame; fr != nil && len(s) < 8; fr = fr.caller {
		s = append(s, fmt.Sprintf("%s@%s", fr.fi.name, m.eng.fset.Position(fr.pos)))
	}
	return strings.Join(s, " < ")
}

func (r *Result) absorb(pr pathResult, opt Options) {
	s := &r.Stats
	m := pr.m
	s.Paths++
	s.Instrs += m.steps
	s.Branches += m.stats.Branches
	s.Asserts += m.stats.Asserts
	s.AssertQueries += m.stats.AssertQueries
	s.AssertUnknown += m.stats.AssertUnknown
	s.BranchUnknown += m.stats.BranchUnknown
	s.Merged += m.stats.Merged
	for k, v := range m.stats.Funcs {
		s.Funcs[k] += v
	}
	switch pr.end.kind {
	case endDone:
		s.Done++
	case endAssume:
		s.Assumed++
	case endUnsupported:
		s.Unsupported++
		if len(s.UnsupMsgs) < 50 || s.UnsupMsgs[pr.end.msg] > 0 {
			s.UnsupMsgs[pr.end.msg]++
		}
	case endBound:
		s.Bound++
		if len(s.UnsupMsgs) < 50 || s.UnsupMsgs[pr.end.msg] > 0 {
			s.UnsupMsgs[pr.end.msg]++
		}
	case endUnknown:
		s.Unknown++
	}
	s.Failed += m.stats.Failed
	if pr.end.kind != endAssume {
		for _, c := range m.covers {
			s.Covers[c]++
		}
	}
	if pr.ierr != "" && len(r.Internal) < 5 {
		r.Internal = append(r.Internal, pr.ierr)
	}
	for _, f := range m.fails {
		n := 0
		for _, g := range r.Failures {
			if g.Assert == f.Assert {
				n++
			}
		}
		if n < 40 {
			r.Failures = append(r.Failures, f)
		}
	}
	if pr.end.kind == endDone || pr.end.kind == endUnsupported || pr.end.kind == endBound {
		keep := opt.KeepPaths
		if pr.wit != nil && keep > 0 {
			if len(r.Witnesses) < keep {
				r.Witnesses = append(r.Witnesses, *pr.wit)
			} else {
				// deterministic-ish thinning: replace by reservoir on count
				k := int(splitmix(uint64(s.Paths)+opt.Seed) % uint64(s.Paths))
				if k < keep {
					r.Witnesses[k] = *pr.wit
				}
			}
		}
	}
}

func debugf(f string, a ...any) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
