package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Group is a harness package laid over the repository.
type Group struct {
	Name    string
	Cmd     bool              // lives under cmd/sqlgen/internal
	Dirs    []string          // further harness directories that belong to the package
	Extra   map[string]string // virtual path in the repo -> file under harness/
	Prepare func(w *Workspace, dst string) error
}

// Check binds a property to the harness groups that decide it; harness functions are
// those whose name starts with the property id followed by an underscore.
type Check struct {
	Prop    string
	Groups  []string
	Bounds  string
	Assumes []string
}

func groupByName(n string) *Group {
	for _, g := range groups {
		if g.Name == n {
			return g
		}
	}
	panic("unknown group " + n)
}

type known struct {
	prop, harness, assert, what string
}

// loadKnown reads the known-findings file: lines
//
//	known: property=<id> harness=<name|*> assert=<assert id> <what fails>
//	fixed: property=<id> <commit> <what failed>        (suppresses nothing)
func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(f) < 4 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "harness="), strings.TrimPrefix(f[2], "assert="), f[3]})
	}
	return out
}

type replayFile struct {
	Property string     `json:"property"`
	Group    string     `json:"group"`
	Harness  string     `json:"harness"`
	Assert   string     `json:"assert"`
	Tier     int        `json:"tier"`
	Inputs   []InputVal `json:"inputs"`
	Readable string     `json:"readable"`
	Message  string     `json:"message"`
}

type harnessReport struct {
	Name        string         `json:"harness"`
	Paths       int            `json:"paths"`
	Completed   int            `json:"completed"`
	Infeasible  int            `json:"outside_assumptions"`
	Unsupported int            `json:"unsupported"`
	Bound       int            `json:"bound_hit"`
	Unknown     int            `json:"solver_unknown"`
	Asserts     int            `json:"assertions"`
	Queries     int            `json:"queries"`
	Exhausted   bool           `json:"exhausted"`
	Covers      map[string]int `json:"covered"`
	Why         []string       `json:"not_encoded,omitempty"`
	Validated   int            `json:"witnesses_validated"`
	Mismatch    int            `json:"witness_mismatches"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
}

type violation struct {
	group, harness, assert, msg string
	inputs                      []InputVal
	rep                         *nativeReport
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tierF := fs.String("tier", "", "quick or thorough")
	secs := fs.Int("t", 0, "seconds of exploration")
	keep := fs.Int("keep", 60, "witnesses replayed per harness")
	fs.Parse(args)
	prop := fs.Arg(0)
	t0 := time.Now()
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tn := 0
	budget := 300 * time.Second
	if tier == "thorough" {
		tn = 1
		budget = 780 * time.Second
	}
	if *secs > 0 {
		budget = time.Duration(*secs) * time.Second
	}
	var chk *Check
	for _, c := range checks {
		if c.Prop == prop {
			chk = c
		}
	}
	if chk == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll(filepath.Join(verifDir(), "evidence", "replay"), 0o755)

	var viols []violation
	var hrs []harnessReport
	funcs := map[string]int64{}
	var samples []any
	var notes []string
	var states, trans, queries, validated, asserts int
	var solver time.Duration
	completed := 0

	type unit struct {
		w *Workspace
		e *Engine
		h string
	}
	var units []unit
	type loaded struct {
		w   *Workspace
		e   *Engine
		err error
	}
	ls := make([]loaded, len(chk.Groups))
	var wg sync.WaitGroup
	for i, gn := range chk.Groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			td := filepath.Join(tmp, gn)
			os.MkdirAll(td, 0o755)
			l := &ls[i]
			if l.w, l.err = makeWorkspace(groupByName(gn), td); l.err != nil {
				return
			}
			go l.w.buildNative()
			l.e, l.err = l.w.load()
			<-l.w.binDone
			if l.err == nil {
				l.err = l.w.binErr
			}
		}()
	}
	wg.Wait()
	for i, l := range ls {
		if l.err != nil {
			if groupByName(chk.Groups[i]).Prepare != nil && isGenFault(l.err) {
				// the generator refuses the models, or what it writes does not compile
				p := filepath.Join(verifDir(), "evidence", "replay", prop+"-0.json")
				jb, _ := json.MarshalIndent(replayFile{prop, chk.Groups[i], "generate", "generated-code-compiles", tn, nil, "", l.err.Error()}, "", " ")
				os.WriteFile(p, jb, 0o644)
				fmt.Printf("violated: generated-code-compiles in group %s: %s\nVIOLATION property=%s replay=%s\n", chk.Groups[i], tail(l.err.Error(), 1500), prop, p)
				return 1
			}
			fmt.Printf("group %s: %v\n", chk.Groups[i], l.err)
			return 2
		}
		l.e.thorough = tn == 1
		for _, h := range l.e.harnesses(l.w.pattern, prop+"_") {
			units = append(units, unit{l.w, l.e, h.Name()})
		}
	}
	if len(units) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	loadDone := time.Now()
	kn := loadKnown()
	isKnown := func(g, h, a string) *known {
		for i := range kn {
			if kn[i].prop == prop && (kn[i].harness == "*" || kn[i].harness == h || kn[i].harness == g+"."+h) && kn[i].assert == a {
				return &kn[i]
			}
		}
		return nil
	}
	knownHit := map[*known]bool{}
	end := loadDone.Add(budget)
	for i, u := range units {
		left := time.Until(end)
		share := left / time.Duration(len(units)-i) * 6
		if share > left {
			share = left
		}
		if share < 4*time.Second {
			share = 4 * time.Second
		}
		fn := u.e.funcOf(u.w.pattern, u.h)
		r := u.e.Explore(fn, Options{Workers: runtime.NumCPU(), Deadline: time.Now().Add(share), KeepPaths: *keep, StopOnFail: 200, Seed: uint64(seed)})
		s := r.Stats
		hr := harnessReport{Name: u.w.group.Name + "." + u.h, Paths: s.Paths, Completed: s.Done, Infeasible: s.Assumed, Unsupported: s.Unsupported, Bound: s.Bound, Unknown: s.Unknown + s.BranchUnknown + s.AssertUnknown, Asserts: s.Asserts, Queries: r.Queries, Exhausted: r.Exhausted, Covers: s.Covers, SolverS: round(r.SolverDur), WallS: round(r.Wall)}
		for k, v := range s.UnsupMsgs {
			hr.Why = append(hr.Why, fmt.Sprintf("%dx %s", v, k))
		}
		sort.Strings(hr.Why)
		for _, ie := range r.Internal {
			notes = append(notes, "internal error in "+u.h+": "+firstLine(ie))
		}
		for f, n := range s.Funcs {
			funcs[f] += n
		}
		states += s.Paths
		trans += int(s.Instrs)
		queries += r.Queries
		asserts += s.Asserts
		solver += r.SolverDur
		completed += s.Done

		// counterexamples of the solver, replayed on the real code
		per := map[string]int{}
		confirmed := map[string]bool{}
		for _, f := range r.Failures {
			if confirmed[f.Assert] || per[f.Assert] >= 6 {
				continue
			}
			per[f.Assert]++
			rep := u.w.runNative([]job{{u.h, f.Inputs, tn}}, true)[0]
			if rep == nil || len(rep.Failed) == 0 {
				continue
			}
			for _, a := range rep.Failed {
				if a == f.Assert {
					confirmed[f.Assert] = true
				}
				viols = append(viols, violation{u.w.group.Name, u.h, a, f.Msg + " " + rep.Msg, f.Inputs, rep})
			}
		}
		for a := range per {
			if !confirmed[a] {
				notes = append(notes, fmt.Sprintf("%s: %d solver counterexample(s) for %q did not reproduce on the real code and were discarded", u.h, per[a], a))
			}
		}
		v := validate(u.w, u.h, r, tn)
		validated += v.ok
		hr.Validated, hr.Mismatch = v.ok, len(v.mismatch)
		if len(v.mismatch) > 0 {
			notes = append(notes, fmt.Sprintf("%s: model/real mismatch: %s", u.h, v.mismatch[0]))
		}
		for _, nf := range v.natFail {
			for _, a := range nf.rep.Failed {
				viols = append(viols, violation{u.w.group.Name, u.h, a, "path witness: " + nf.rep.Msg, nf.inputs, nf.rep})
			}
		}
		for k, w := range r.Witnesses {
			if k < 2 && len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": u.h, "inputs": fmtInputs(w.Inputs), "covers": w.Covers, "observed": w.Obs})
			}
		}
		if s.Done == 0 && len(r.Failures) == 0 {
			notes = append(notes, u.h+": no path completed; nothing decided by this harness")
		}
		hrs = append(hrs, hr)
		fmt.Printf("%-40s paths=%d done=%d cut=%d unknown=%d asserts=%d queries=%d exhausted=%v validated=%d wall=%.1fs\n", u.w.group.Name+"."+u.h, hr.Paths, hr.Completed, hr.Unsupported+hr.Bound, hr.Unknown, hr.Asserts, hr.Queries, hr.Exhausted, hr.Validated, hr.WallS)
	}

	// verdict
	var newV []violation
	seen := map[string]bool{}
	for _, v := range viols {
		if k := isKnown(v.group, v.harness, v.assert); k != nil {
			knownHit[k] = true
			continue
		}
		key := v.group + v.harness + "/" + v.assert
		if seen[key] {
			continue
		}
		seen[key] = true
		newV = append(newV, v)
	}
	for i := range kn {
		if knownHit[&kn[i]] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn[i].what)
		}
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for i, v := range newV {
		if i >= 8 {
			break
		}
		p := filepath.Join(verifDir(), "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, i))
		rf := replayFile{prop, v.group, v.harness, v.assert, tn, v.inputs, fmtInputs(v.inputs), v.msg}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("violated: %s in %s with %s (%s)\n", v.assert, v.harness, tail(fmtInputs(v.inputs), 600), tail(strings.TrimSpace(v.msg), 300))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	var fl []string
	for f := range funcs {
		if strings.Contains(f, "si3nloong") && (!strings.Contains(f, "/zzverif/") || strings.Contains(f, "/zzverif/gen/")) {
			fl = append(fl, strings.ReplaceAll(f, "github.com/si3nloong/sqlgen/", ""))
		}
	}
	sort.Strings(fl)
	allEx := true
	cut := 0
	for _, h := range hrs {
		allEx = allEx && h.Exhausted
		cut += h.Unsupported + h.Bound + h.Unknown
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"functions_encoded": fl, "bounds": chk.Bounds, "assertions_discharged": asserts, "solver_queries": queries, "solver_s": round(solver),
		"solver": solverVersion(), "exhaustive": allEx && cut == 0, "harnesses": hrs, "notes": notes,
		"meaning": "states = feasible symbolic paths explored, transitions = SSA instructions executed symbolically, traces_validated = path witnesses whose observations were reproduced by the compiled code",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": append([]string{commonAssume}, chk.Assumes...), "wall_s": round(time.Since(t0)), "violations": len(newV)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(newV) > 0 {
		return 1
	}
	if completed == 0 {
		fmt.Println("nothing explored for", prop)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs\n", prop, tier, states, queries, validated, time.Since(t0).Seconds())
	return 0
}

const commonAssume = "the engine's models of the Go standard library's leaf functions (strconv number formatting, strings/bytes search, sync.Pool as LIFO, fmt verbs, unsafe string/slice views) match go1.24; every counterexample and a sample of path witnesses are replayed on the compiled code"

func solverVersion() string {
	out, err := exec.Command("z3-new", "--version").Output()
	if err != nil {
		return "?"
	}
	return strings.TrimSpace(string(out))
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

// cmdReplay runs a recorded counterexample on the real code again.
func cmdReplay(args []string) int {
	if len(args) == 0 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	w, err := makeWorkspace(groupByName(rf.Group), tmp)
	if err == nil {
		w.buildNative()
		err = w.binErr
	}
	if err != nil {
		fmt.Println(err)
		if rf.Harness == "generate" && isGenFault(err) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
			return 1
		}
		return 2
	}
	if rf.Harness == "generate" {
		return 0
	}
	rep := w.runNative([]job{{rf.Harness, rf.Inputs, rf.Tier}}, true)[0]
	fmt.Printf("%s %s\n%+v\n", rf.Harness, rf.Readable, rep)
	if rep != nil && len(rep.Failed) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
		return 1
	}
	return 0
}
