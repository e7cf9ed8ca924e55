package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	wd, _ := os.Getwd()
	return wd
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check PROP | explore GROUP HARNESS | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "explore":
		os.Exit(cmdExplore(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		for _, c := range checks {
			fmt.Println(c.Prop, c.Groups)
		}
	}
}

// ---------- workspace ----------

type Workspace struct {
	group   *Group
	tmp     string
	overlay map[string][]byte // virtual path -> content
	ovFile  string
	pattern string
	env     []string
	dir     string
	bin     string
	binErr  error
	binDone chan struct{}
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOSUMDB":
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0")
}

// makeWorkspace lays the harness group over /repo as virtual files.
func makeWorkspace(g *Group, tmp string) (*Workspace, error) {
	w := &Workspace{group: g, tmp: tmp, overlay: map[string][]byte{}, dir: repoDir(), binDone: make(chan struct{})}
	w.env = goEnv()
	repo := repoDir()
	addDir := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			w.overlay[filepath.Join(dst, e.Name())] = b
		}
		return nil
	}
	vd := verifDir()
	if err := addDir(filepath.Join(vd, "harness/sym"), filepath.Join(repo, "zzverif/sym")); err != nil {
		return nil, err
	}
	for _, d := range []string{"symsql", "symjson", "hlib"} {
		if _, err := os.Stat(filepath.Join(vd, "harness", d)); err == nil {
			addDir(filepath.Join(vd, "harness", d), filepath.Join(repo, "zzverif", d))
		}
	}
	dst := filepath.Join(repo, "zzverif", g.Name)
	w.pattern = "github.com/si3nloong/sqlgen/zzverif/" + g.Name
	if g.Cmd {
		dst = filepath.Join(repo, "cmd/sqlgen/internal/zzverif", g.Name)
		w.pattern = "github.com/si3nloong/sqlgen/cmd/sqlgen/internal/zzverif/" + g.Name
	}
	if err := addDir(filepath.Join(vd, "harness", g.Name), dst); err != nil {
		return nil, err
	}
	for _, d := range g.Dirs {
		if err := addDir(filepath.Join(vd, "harness", d), dst); err != nil {
			return nil, err
		}
	}
	for v, src := range g.Extra {
		b, err := os.ReadFile(filepath.Join(vd, "harness", src))
		if err != nil {
			return nil, err
		}
		w.overlay[filepath.Join(repo, v)] = b
	}
	if g.Prepare != nil {
		if err := g.Prepare(w, dst); err != nil {
			return nil, err
		}
	}
	// native entry point
	var names []string
	for p, b := range w.overlay {
		if filepath.Dir(p) != dst {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.TypeParams != nil || fd.Type.Params.NumFields() > 0 || fd.Type.Results.NumFields() > 0 {
				continue
			}
			if n := fd.Name.Name; strings.Index(n, "_") > 0 && n[0] >= 'A' && n[0] <= 'Z' {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"github.com/si3nloong/sqlgen/zzverif/sym\"\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	w.overlay[filepath.Join(dst, "zz_main.go")] = []byte(sb.String())
	// overlay file for the go command
	repl := map[string]string{}
	i := 0
	for p, b := range w.overlay {
		f := filepath.Join(tmp, fmt.Sprintf("ov%d_%s", i, filepath.Base(p)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		repl[p] = f
	}
	jb, _ := json.Marshal(map[string]any{"Replace": repl})
	w.ovFile = filepath.Join(tmp, "overlay.json")
	return w, os.WriteFile(w.ovFile, jb, 0o644)
}

func (w *Workspace) buildNative() {
	defer close(w.binDone)
	w.bin = filepath.Join(w.tmp, "native_"+w.group.Name)
	cmd := exec.Command("go", "build", "-overlay", w.ovFile, "-o", w.bin, w.pattern)
	cmd.Dir = w.dir
	cmd.Env = w.env
	out, err := cmd.CombinedOutput()
	if err != nil {
		w.binErr = fmt.Errorf("native build: %v\n%s", err, out)
	}
}

type nativeReport struct {
	End    string   `json:"end"`
	Failed []string `json:"failed"`
	Covers []string `json:"covers"`
	Obs    []string `json:"obs"`
	Msg    string   `json:"msg"`
}

type job struct {
	H      string     `json:"h"`
	Inputs []InputVal `json:"inputs"`
	Tier   int        `json:"tier"`
}

// runNative replays jobs against the real code; each element of the result may be
// nil when the process died before answering.
func (w *Workspace) runNative(jobs []job, each bool) []*nativeReport {
	<-w.binDone
	res := make([]*nativeReport, len(jobs))
	if w.binErr != nil {
		return res
	}
	i := 0
	for i < len(jobs) {
		n := len(jobs) - i
		if each {
			n = 1
		}
		var in bytes.Buffer
		for k := 0; k < n; k++ {
			b, _ := json.Marshal(jobs[i+k])
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command(w.bin)
		cmd.Dir = w.tmp
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "TZ=UTC")
		cmd.Stdin = &in
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return res
		}
		timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		rd := bufio.NewReaderSize(out, 1<<20)
		got := 0
		for got < n {
			l, err := rd.ReadBytes('\n')
			if len(l) > 1 {
				r := &nativeReport{}
				if json.Unmarshal(l, r) == nil {
					if r.End == "hang" {
						r.Failed = append(r.Failed, "no-hang")
					}
					res[i+got] = r
					got++
				}
			}
			if err != nil {
				break
			}
		}
		timer.Stop()
		cmd.Process.Kill()
		cmd.Wait()
		if got < n {
			// the process crashed on job i+got
			if res[i+got] == nil {
				res[i+got] = &nativeReport{End: "crash", Failed: []string{"no-panic"}, Msg: tail(eb.String(), 600)}
			}
			got++
		}
		i += got
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------- exploration of a group ----------

func (w *Workspace) load() (*Engine, error) {
	e, err := Load(LoadConfig{Dir: w.dir, Env: w.env, Overlay: w.overlay, Patterns: []string{w.pattern}})
	if err != nil {
		return nil, err
	}
	e.userPrefixes = []string{"github.com/si3nloong/sqlgen"}
	return e, nil
}

func (e *Engine) harnesses(pattern, prefix string) []*ssa.Function {
	p := e.byPath[pattern]
	if p == nil {
		return nil
	}
	var out []*ssa.Function
	for n, mem := range p.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func cmdExplore(args []string) int {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	workers := fs.Int("j", runtime.NumCPU(), "")
	secs := fs.Int("t", 60, "")
	prof := fs.String("prof", "", "")
	nomerge := fs.Bool("nomerge", false, "")
	thorough := fs.Bool("thorough", false, "")
	bin := fs.String("solver", "z3-new", "")
	nfail := fs.Int("nfail", 10, "")
	fs.Parse(args)
	g := groupByName(fs.Arg(0))
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	w, err := makeWorkspace(g, tmp)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	go w.buildNative()
	t0 := time.Now()
	e, err := w.load()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e.noMerge = *nomerge
	e.thorough = *thorough
	e.solverBin = *bin
	fmt.Println("loaded", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, h := range e.harnesses(w.pattern, fs.Arg(1)) {
		r := e.Explore(h, Options{Workers: *workers, Deadline: time.Now().Add(time.Duration(*secs) * time.Second), KeepPaths: 50, StopOnFail: 500})
		s := r.Stats
		fmt.Printf("%-34s paths=%d done=%d assume=%d unsup=%d bound=%d unk=%d/%d/%d asserts=%d q=%d fails=%d merged=%d instr=%d wall=%v solver=%v exhausted=%v covers=%v\n", h.Name(), s.Paths, s.Done, s.Assumed, s.Unsupported, s.Bound, s.Unknown, s.BranchUnknown, s.AssertUnknown, s.Asserts, r.Queries, len(r.Failures), s.Merged, s.Instrs, r.Wall.Round(time.Millisecond), r.SolverDur.Round(time.Millisecond), r.Exhausted, s.Covers)
		for k, v := range s.UnsupMsgs {
			fmt.Println("   UNSUP", v, k)
		}
		for _, ie := range r.Internal {
			fmt.Println("   INTERNAL", ie)
		}
		seen := map[string]int{}
		var jobs []job
		var fl []Failure
		for _, f := range r.Failures {
			seen[f.Assert]++
			if seen[f.Assert] > 3 {
				continue
			}
			jobs = append(jobs, job{h.Name(), f.Inputs, b2i(*thorough)})
			fl = append(fl, f)
		}
		reps := w.runNative(jobs, true)
		if w.binErr != nil {
			fmt.Println(w.binErr)
		}
		for i, f := range fl {
			if i >= *nfail {
				break
			}
			fmt.Println("   FAIL", f.Assert, f.Msg, fmtInputs(f.Inputs), "native:", reps[i])
		}
		v := validate(w, h.Name(), r, b2i(*thorough))
		fmt.Printf("   validated %d mismatches %d nativefail %d\n", v.ok, len(v.mismatch), len(v.natFail))
		for i, x := range v.mismatch {
			if i < 4 {
				fmt.Println("   MISMATCH", x)
			}
		}
		for i, x := range v.natFail {
			if i < 4 {
				fmt.Println("   NATFAIL", x.rep.Failed, x.rep.Msg, fmtInputs(x.inputs))
			}
		}
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func fmtInputs(in []InputVal) string {
	var p []string
	for _, i := range in {
		if len(i.V) > 1 || strings.HasSuffix(i.N, "]") {
			var b []byte
			for _, x := range i.V[1:] {
				b = append(b, byte(x))
			}
			p = append(p, fmt.Sprintf("%s=%q", i.N, b))
		} else if len(i.V) == 1 {
			p = append(p, fmt.Sprintf("%s=%d", i.N, int64(i.V[0])))
		}
	}
	return strings.Join(p, " ")
}

type natFail struct {
	inputs []InputVal
	rep    *nativeReport
}

type validation struct {
	ok       int
	mismatch []string
	natFail  []natFail
}

// validate replays path witnesses on the real code and compares what was observed.
func validate(w *Workspace, h string, r *Result, tier int) (v validation) {
	var jobs []job
	for _, x := range r.Witnesses {
		jobs = append(jobs, job{h, x.Inputs, tier})
	}
	if len(jobs) == 0 {
		return
	}
	reps := w.runNative(jobs, false)
	for i, rep := range reps {
		x := r.Witnesses[i]
		if rep == nil {
			continue
		}
		if len(rep.Failed) > 0 {
			v.natFail = append(v.natFail, natFail{x.Inputs, rep})
			continue
		}
		if x.End != "done" || x.approx {
			continue
		}
		if rep.End != "done" || strings.Join(rep.Covers, "|") != strings.Join(x.Covers, "|") || !sameObs(rep.Obs, x.Obs) {
			v.mismatch = append(v.mismatch, fmt.Sprintf("%s: native %s %v %v %s / symbolic %v %v", fmtInputs(x.Inputs), rep.End, rep.Covers, rep.Obs, rep.Msg, x.Covers, x.Obs))
			continue
		}
		v.ok++
	}
	return
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.Contains(b[i], "?") {
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
