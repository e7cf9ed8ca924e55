package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver is one long-lived SMT process spoken to over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	unknown int
	dur     time.Duration
	dump    io.Writer
	dead    bool
	bin     string
}

func NewSolver(bin string) (*Solver, error) {
	s := &Solver{bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"}
	}
	cmd := exec.Command(s.bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	if strings.Contains(s.bin, "cvc5") {
		s.send("(set-logic ALL)\n")
	} else {
		s.send("(set-option :produce-models true)\n(set-option :timeout 20000)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(t string) {
	if s.dump != nil {
		io.WriteString(s.dump, t)
	}
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "(error \"solver died\")"
	}
	return strings.TrimSpace(l)
}

// Begin starts a fresh scope for a path.
func (s *Solver) Begin() {
	if s.dead {
		s.Close()
		s.start()
	}
	s.send("(push 1)\n")
}
func (s *Solver) End() { s.send("(pop 1)\n") }

func (s *Solver) Assert(T *Terms, t *Term) {
	var sb strings.Builder
	T.Emit(&sb, t)
	fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	s.send(sb.String())
}

// Check decides (asserted constraints ∧ c); on sat the model of T.vars is returned.
func (s *Solver) Check(T *Terms, c *Term) (SatRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > 500*time.Millisecond && os.Getenv("GOSYM_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", d, termStr(c, 6))
		}
	}()
	s.queries++
	var sb strings.Builder
	// definitions must survive the inner pop, so emit them before pushing
	if c != nil {
		T.Emit(&sb, c)
	}
	for _, v := range T.vars {
		T.Emit(&sb, v)
	}
	sb.WriteString("(push 1)\n")
	if c != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	l := s.readLine()
	for strings.HasPrefix(l, "(error") || l == "" {
		if s.dead {
			s.unknown++
			return Unknown, nil
		}
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
		s.unknown++
		// an error anywhere makes the answer inconclusive: drain the sat answer
		l2 := s.readLine()
		_ = l2
		s.send("(pop 1)\n")
		return Unknown, nil
	}
	switch l {
	case "unsat":
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		m := map[int32]uint64{}
		if len(T.vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range T.vars {
				q.WriteString(v.name)
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			s.send(q.String())
			txt := s.readSexp()
			vals := parseValues(txt)
			for _, v := range T.vars {
				x, ok := vals[v.name]
				if !ok {
					fmt.Fprintln(os.Stderr, "SOLVER: missing value for", v.name, "in", txt)
				}
				m[int32(v.val)] = x
			}
		}
		s.send("(pop 1)\n")
		return Sat, m
	default:
		s.unknown++
		s.send("(pop 1)\n")
		return Unknown, nil
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	res := map[string]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i++ {
		name, v := f[i], f[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			res[name] = x
			i++
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			res[name] = x
			i++
		case v == "_" && i+3 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			x, _ := strconv.ParseUint(f[i+2][2:], 10, 64)
			res[name] = x
			i += 3
		case v == "true":
			res[name] = 1
			i++
		case v == "false":
			res[name] = 0
			i++
		}
	}
	return res
}

func termStr(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst || t.op == OVar {
		return ref(t)
	}
	if d == 0 {
		return "…"
	}
	n := opSMT[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d.%d", t.op, t.val)
	}
	r := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + termStr(x, d-1)
		}
	}
	return r + ")"
}
