package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Stats of the whole run.
var (
	nQueries   atomic.Int64
	nSat       atomic.Int64
	nUnsat     atomic.Int64
	nUnknown   atomic.Int64
	solverTime atomic.Int64
	nModelHits atomic.Int64
)

// Solver is one incremental SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	stack   [][]*Term
	timeout int
	dead    bool
	queries int
	spent   time.Duration
}

func NewSolver(timeoutMs int) (*Solver, error) {
	s := &Solver{timeout: timeoutMs}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inc = cmd, in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	return nil
}

func (s *Solver) Close() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Reset starts a new path.
func (s *Solver) Reset() {
	if s.dead {
		s.Close()
		s.start()
	}
	s.defined = map[*Term]bool{}
	s.stack = nil
	fmt.Fprintf(s.in, "(reset)\n(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || s.defined[t] {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.id, smtSort(t.w))
	} else {
		s.define(t.a)
		s.define(t.b)
		s.define(t.c)
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), smtBody(t))
	}
	s.defined[t] = true
	if n := len(s.stack); n > 0 {
		s.stack[n-1] = append(s.stack[n-1], t)
	}
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.define(t)
	fmt.Fprintf(s.in, "(assert %s)\n", smtRef(t))
}

func (s *Solver) Push() {
	s.stack = append(s.stack, nil)
	s.in.WriteString("(push 1)\n")
}

func (s *Solver) Pop() {
	n := len(s.stack) - 1
	for _, t := range s.stack[n] {
		delete(s.defined, t)
	}
	s.stack = s.stack[:n]
	s.in.WriteString("(pop 1)\n")
}

// Check returns "sat", "unsat" or "unknown", and on sat a model of vars.
func (s *Solver) Check(vars []*Term) (string, Model) {
	if s.dead {
		return "unknown", nil
	}
	t0 := time.Now()
	s.queries++
	defer func() { solverTime.Add(int64(time.Since(t0))); s.spent += time.Since(t0) }()
	nQueries.Add(1)
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		nUnknown.Add(1)
		return "unknown", nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		nUnsat.Add(1)
		return line, nil
	case "sat":
		nSat.Add(1)
	default:
		if strings.HasPrefix(line, "(error") {
			panic("solver error: " + line)
		}
		nUnknown.Add(1)
		return "unknown", nil
	}
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if s.defined[v] {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return "sat", m
	}
	s.in.WriteString("(get-value (")
	for _, v := range q {
		fmt.Fprintf(s.in, "v%d ", v.id)
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return "unknown", nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	byName := map[string]*Term{}
	for _, v := range q {
		byName[fmt.Sprintf("v%d", v.id)] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			m[v], _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			m[v], _ = strconv.ParseUint(x[2:], 2, 64)
		case x == "(" && i+4 < len(toks) && toks[i+2] == "_":
			m[v], _ = strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
		default:
			panic("solver value: " + txt)
		}
	}
	return "sat", m
}
