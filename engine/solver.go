package main

// One incremental SMT solver process, fed terms by definition.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	tb      *Table
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	depth   int
	vars    []*Term // declared variables, in order
	bin     string
	timeout int // ms per query

	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	log                             io.Writer
}

func NewSolver(tb *Table, bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{tb: tb, bin: bin, timeout: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	bin, args := s.bin, []string{"-in", "-smt2"}
	switch s.bin {
	case "cvc5":
		args = []string{"--incremental", "--produce-models", "-q", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	case "z3-int": // bit vectors translated to integers
		bin = "z3-new"
		args = append(args, "sat.smt=true", "smt.bv.solver=2")
	}
	s.cmd = exec.Command(bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.vars = nil
	s.depth = 0
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if bin != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
	if s.bin != "z3-int" {
		s.send("(set-logic QF_BV)")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

func (s *Solver) define(t *Term) {
	if t == nil || t.op == OpConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var child *Term
		for f.i < 3 && child == nil {
			switch f.i {
			case 0:
				child = f.t.a
			case 1:
				child = f.t.b
			case 2:
				child = f.t.c
			}
			f.i++
			if child != nil && (child.op == OpConst || s.defined[child.id]) {
				child = nil
			}
		}
		if child != nil {
			st = append(st, fr{child, 0})
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x.id] {
			continue
		}
		s.defined[x.id] = true
		if x.op == OpVar {
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)", x.name, sortOf(x.w)))
			s.vars = append(s.vars, x)
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, sortOf(x.w), bodyStr(x)))
		}
	}
}

func (s *Solver) Push() { s.send("(push 1)"); s.depth++ }
func (s *Solver) Pop(n int) {
	if n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.depth -= n
	}
}

func (s *Solver) Assert(t *Term) {
	if t.isConst() && t.val == 1 {
		return
	}
	s.define(t)
	s.send("(assert " + refStr(t) + ")")
}

type solverError struct{ msg string }

func (e solverError) Error() string { return e.msg }

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(solverError{"solver died: " + err.Error()})
		}
		if l = strings.TrimSpace(l); l != "" {
			return l
		}
	}
}

// CheckSat with the current assertions.
func (s *Solver) CheckSat() SatRes {
	t0 := time.Now()
	s.send("(check-sat)")
	s.in.Flush()
	l := s.readLine()
	s.Time += time.Since(t0)
	s.Queries++
	switch l {
	case "sat":
		s.SatN++
		return Sat
	case "unsat":
		s.UnsatN++
		return Unsat
	case "unknown", "timeout":
		s.UnknownN++
		return Unknown
	}
	panic(solverError{"unexpected solver answer: " + l})
}

// GetModel reads the values of all declared variables.
func (s *Solver) GetModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(refStr(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// read balanced parens
	depth := 0
	var buf strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(solverError{"solver died: " + err.Error()})
		}
		buf.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.Time += time.Since(t0)
	txt := buf.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic(solverError{txt})
	}
	parseModel(txt, s.vars, m)
	return m
}

func parseModel(txt string, vars []*Term, m Model) {
	// ((|a| #x00) (|b| true) ...)  in request order
	i := 0
	next := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		if txt[i] == '(' || txt[i] == ')' {
			i++
			return txt[i-1 : i]
		}
		st := i
		if txt[i] == '|' {
			i++
			for txt[i] != '|' {
				i++
			}
			i++
			return txt[st:i]
		}
		for i < len(txt) && !strings.ContainsRune(" \n\r\t()", rune(txt[i])) {
			i++
		}
		return txt[st:i]
	}
	if next() != "(" {
		panic(solverError{"bad model: " + txt})
	}
	for range vars {
		if next() != "(" {
			panic(solverError{"bad model: " + txt})
		}
		name := strings.Trim(next(), "|")
		v := next()
		var x uint64
		var err error
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "(": // (_ bvN w)
			next()
			x, err = strconv.ParseUint(strings.TrimPrefix(next(), "bv"), 10, 64)
			next()
			next()
		default:
			err = fmt.Errorf("value %q", v)
		}
		if err != nil {
			panic(solverError{"bad model value: " + err.Error()})
		}
		m[name] = x
		if next() != ")" {
			panic(solverError{"bad model: " + txt})
		}
	}
}
