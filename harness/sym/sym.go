// Package sym is the interface between verification harnesses and the symbolic
// executor. Under the executor every function here is intercepted: inputs become
// SMT variables and assertions become solver queries. Compiled natively, inputs are
// read from a recorded model, which is how counterexamples are replayed.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
	"time"
)

type inputVal struct {
	N string   `json:"n"`
	V []uint64 `json:"v"`
}

type job struct {
	H      string     `json:"h"`
	Inputs []inputVal `json:"inputs"`
	Tier   int        `json:"tier"`
}

type report struct {
	End    string   `json:"end"` // done | assume | panic | diverged
	Failed []string `json:"failed"`
	Covers []string `json:"covers"`
	Obs    []string `json:"obs"`
	Msg    string   `json:"msg"`
}

var cur struct {
	in   []inputVal
	pos  int
	rep  report
	tier int
}

type stop struct{ kind, msg string }

func next(name string) []uint64 {
	if cur.pos >= len(cur.in) {
		panic(stop{"diverged", "no recorded value for " + name})
	}
	iv := cur.in[cur.pos]
	cur.pos++
	if iv.N != name {
		panic(stop{"diverged", "expected input " + iv.N + ", harness asked " + name})
	}
	return iv.V
}

func one(name string) uint64 {
	v := next(name)
	if len(v) == 0 {
		panic(stop{"diverged", "empty value for " + name})
	}
	return v[0]
}

func Bool(name string) bool       { return one(name) != 0 }
func Int(name string) int         { return int(one(name)) }
func Int8(name string) int8       { return int8(one(name)) }
func Int16(name string) int16     { return int16(one(name)) }
func Int32(name string) int32     { return int32(one(name)) }
func Int64(name string) int64     { return int64(one(name)) }
func Uint(name string) uint       { return uint(one(name)) }
func Uint8(name string) uint8     { return uint8(one(name)) }
func Uint16(name string) uint16   { return uint16(one(name)) }
func Uint32(name string) uint32   { return uint32(one(name)) }
func Uint64(name string) uint64   { return one(name) }
func Float64(name string) float64 { return math.Float64frombits(one(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(one(name))) }

// Range is a symbolic int in [lo,hi] (0 <= lo).
func Range(name string, lo, hi int) int { return int(one(name)) }

// Choose is an int in [0,n) whose value is concrete on each path.
func Choose(name string, n int) int { return int(one(name)) }

// Fix makes x concrete on each path (forking over its feasible values).
func Fix(x int) int       { return x }
func FixBool(b bool) bool { return b }

// Bytes is an arbitrary byte slice with lo <= len <= max.
func Bytes(name string, lo, max int) []byte {
	v := next(name)
	out := make([]byte, 0, len(v))
	for _, x := range v[1:] {
		out = append(out, byte(x))
	}
	return out
}

// String is an arbitrary string with lo <= len <= max.
func String(name string, lo, max int) string { return string(Bytes(name, lo, max)) }

func Assume(b bool) {
	if !b {
		panic(stop{"assume", ""})
	}
}

func Assert(b bool, id string) {
	if !b {
		cur.rep.Failed = append(cur.rep.Failed, id)
	}
}

func Cover(label string) { cur.rep.Covers = append(cur.rep.Covers, label) }

func Symbolic() bool { return false }

// Tier is 0 for quick bounds and 1 for thorough bounds.
func Tier() int { return cur.tier }

// B picks a bound by tier.
func B(quick, thorough int) int {
	if Tier() == 0 {
		return quick
	}
	return thorough
}

func Observe(name string, v ...any) {
	var p []string
	for _, x := range v {
		switch y := x.(type) {
		case nil:
			p = append(p, "nil")
		case float64:
			p = append(p, fmt.Sprintf("f%x", math.Float64bits(y)))
		case float32:
			p = append(p, fmt.Sprintf("f%x", math.Float32bits(y)))
		case string:
			p = append(p, fmt.Sprintf("%q", y))
		case []byte:
			p = append(p, fmt.Sprintf("%q", string(y)))
		default:
			p = append(p, fmt.Sprint(y))
		}
	}
	cur.rep.Obs = append(cur.rep.Obs, name+"="+strings.Join(p, ","))
}

// And / Or / EqStr / EqBytes / IfInt do not fork the path.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func EqStr(a, b string) bool   { return a == b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func IfInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Basic converts a value of a named basic kind (or a named byte slice) to the plain kind, and a nil pointer to nil.
func Basic(v any) (any, bool) { return nil, false }

// Main runs recorded jobs (JSON lines on stdin) natively.
func Main(h map[string]func()) {
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var j job
			if e := json.Unmarshal(line, &j); e != nil {
				fmt.Fprintln(os.Stderr, "bad job:", e)
				os.Exit(3)
			}
			done := make(chan report, 1)
			go func() { done <- run(h[j.H], j) }()
			var r report
			select {
			case r = <-done:
			case <-time.After(20 * time.Second):
				r = report{End: "hang"}
			}
			b, _ := json.Marshal(r)
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
			if r.End == "hang" {
				os.Exit(0)
			}
		}
		if err != nil {
			return
		}
	}
}

func run(f func(), j job) (r report) {
	cur.in, cur.pos, cur.rep, cur.tier = j.Inputs, 0, report{}, j.Tier
	defer func() {
		x := recover()
		r = cur.rep
		switch s := x.(type) {
		case nil:
			r.End = "done"
		case stop:
			r.End, r.Msg = s.kind, s.msg
		default:
			r.End, r.Msg = "panic", fmt.Sprint(x)
			r.Failed = append(r.Failed, "no-panic")
		}
	}()
	if f == nil {
		panic(stop{"diverged", "unknown harness " + j.H})
	}
	f()
	return
}
