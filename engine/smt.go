package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over SMT-LIB2 text. Definitions are emitted at
// the current push level and forgotten on pop.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	levels  [][]*Term // emitted terms per level
	Queries int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	bin     string
	args    []string
	dead    bool
}

func newSolver() *Solver {
	s := &Solver{bin: "z3", args: []string{"-in", "-smt2"}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReader(out)
	s.levels = [][]*Term{nil}
	s.in.WriteString("(set-option :timeout 10000)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// reset forgets everything (terms of the previous worker state are unmarked).
func (s *Solver) reset() {
	for len(s.levels) > 1 {
		s.Pop()
	}
	for _, t := range s.levels[0] {
		t.emitted = false
	}
	s.levels = [][]*Term{nil}
	s.in.WriteString("(reset)\n(set-option :timeout 10000)\n")
}

func (s *Solver) Push() {
	s.in.WriteString("(push 1)\n")
	s.levels = append(s.levels, nil)
}

func (s *Solver) Pop() {
	s.in.WriteString("(pop 1)\n")
	n := len(s.levels) - 1
	for _, t := range s.levels[n] {
		t.emitted = false
	}
	s.levels = s.levels[:n]
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.emitted {
		return
	}
	if t.op != OVar {
		if t.a != nil {
			s.emit(t.a)
		}
		if t.b != nil {
			s.emit(t.b)
		}
		if t.c != nil {
			s.emit(t.c)
		}
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", t.ref(), t.sort())
	} else {
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", t.ref(), t.sort(), t.body())
	}
	t.emitted = true
	n := len(s.levels) - 1
	s.levels[n] = append(s.levels[n], t)
}

func (s *Solver) Assert(t *Term) {
	s.emit(t)
	s.in.WriteString("(assert ")
	s.in.WriteString(t.ref())
	s.in.WriteString(")\n")
}

type satResult int

const (
	rUnsat satResult = iota
	rSat
	rUnknown
)

func (s *Solver) Check() satResult {
	t0 := time.Now()
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	s.Time += time.Since(t0)
	s.Queries++
	if err != nil {
		panic("solver died: " + err.Error())
	}
	switch strings.TrimSpace(line) {
	case "sat":
		s.Sat++
		return rSat
	case "unsat":
		s.Unsat++
		return rUnsat
	case "unknown", "timeout":
		s.Unknown++
		return rUnknown
	}
	panic("solver said: " + line)
}

// GetModel returns values for the declared variables among vars.
func (s *Solver) GetModel(vars []*Term) Model {
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if v.emitted {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range q {
		s.in.WriteString(v.ref())
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic("solver: " + txt)
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i += 2 {
		id, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			panic("model parse: " + txt)
		}
		v := toks[i+1]
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			panic(err)
		}
		m[id] = u
	}
	return m
}
