package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process over a pipe with push/pop.
type Solver struct {
	ts      *TermStore
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // currently asserted pc prefix
	gen     int32
	defs    int
	fp      bool // FP logic in use
	buf     bytes.Buffer
	timeout int // ms

	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	SolveTime time.Duration
	Restarts  int
	errs      []string
	declared  int
	log       io.Writer
}

var solverBin = "z3-new"

func newSolver(ts *TermStore, timeoutMS int) *Solver {
	return &Solver{ts: ts, bin: solverBin, args: []string{"-in", "-smt2"}, timeout: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.gen++
	s.stack = nil
	s.defs = 0
	s.declared = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :print-success false)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	if !s.fp {
		s.buf.WriteString("(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.Restarts++
	s.start()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t.w, t.k)
	case OpVar:
		return "v" + strconv.FormatUint(t.k, 10)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits definitions for all not yet defined subterms of t (iterative post-order).
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.solved == s.gen {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		x := f.t
		if x.op == OpConst || x.solved == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = x.a
			case 1:
				ch = x.b
			case 2:
				ch = x.c
			}
			f.i++
			if ch != nil && ch.op != OpConst && ch.solved != s.gen {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x.solved = s.gen
		s.defs++
		if x.op == OpVar {
			fmt.Fprintf(&s.buf, "(declare-const v%d %s)\n", x.k, sortStr(x.w))
		} else {
			fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, sortStr(x.w), x.body(s.ref))
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.buf.WriteString("(push 1)\n(assert ")
		s.buf.WriteString(s.ref(t))
		s.buf.WriteString(")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra. When sat and wantModel, returns values of all variables occurring in them.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	needFP := extra != nil && extra.isFP
	if !needFP && !s.fp {
		for _, t := range pc {
			if t.isFP {
				needFP = true
				break
			}
		}
	}
	if needFP && !s.fp {
		if os.Getenv("VFP") != "" {
			x := extra
			for _, t := range pc {
				if t.isFP {
					x = t
				}
			}
			fmt.Fprintln(os.Stderr, "FP:", dumpTerm(x, 8))
		}
		s.fp = true
		s.Close()
	}
	if s.cmd == nil || s.defs > 200000 {
		if s.cmd != nil {
			s.restart()
		} else if err := s.start(); err != nil {
			s.errs = append(s.errs, err.Error())
			return Unknown, nil
		}
	}
	t0 := time.Now()
	defer func() { s.SolveTime += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", s.ref(extra))
	}
	s.buf.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.errs = append(s.errs, err.Error())
		s.Close()
		s.UnknownN++
		return Unknown, nil
	}
	// the solver does not always keep to its own time limit
	proc := s.cmd.Process
	watch := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+3*time.Second, func() { proc.Kill() })
	line, err := s.readLine()
	watch.Stop()
	if err != nil {
		s.errs = append(s.errs, err.Error())
		s.Close()
		s.UnknownN++
		return Unknown, nil
	}
	var res Res
	var model *Model
	switch line {
	case "sat":
		res = Sat
		s.SatN++
		if wantModel {
			model = s.getModel(pc, extra)
			if model == nil {
				s.Close()
				s.UnknownN++
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	default:
		if line != "unknown" && line != "timeout" {
			s.errs = append(s.errs, line)
			s.Close()
			s.UnknownN++
			return Unknown, nil
		}
		res = Unknown
		s.UnknownN++
	}
	if extra != nil && s.cmd != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) flush() error {
	if s.log != nil {
		s.log.Write(s.buf.Bytes())
	}
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func collectVars(seen map[int32]bool, vars map[int]bool, t *Term) {
	if t == nil || t.uv == -1 || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OpVar {
		vars[int(t.k)] = true
		return
	}
	if t.uv >= 0 {
		vars[int(t.uv)] = true
		return
	}
	collectVars(seen, vars, t.a)
	collectVars(seen, vars, t.b)
	collectVars(seen, vars, t.c)
}

func (s *Solver) getModel(pc []*Term, extra *Term) *Model {
	seen := map[int32]bool{}
	vars := map[int]bool{}
	for _, t := range pc {
		collectVars(seen, vars, t)
	}
	collectVars(seen, vars, extra)
	m := &Model{vals: make([]uint64, len(s.ts.vars))}
	if len(vars) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (")
	for v := range vars {
		fmt.Fprintf(&s.buf, "v%d ", v)
	}
	s.buf.WriteString("))\n")
	if err := s.flush(); err != nil {
		return nil
	}
	// read balanced s-expression
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		s.errs = append(s.errs, txt)
		return nil
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i += 2 {
		n, err := strconv.Atoi(strings.TrimPrefix(toks[i], "v"))
		if err != nil {
			return nil
		}
		v := toks[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			return nil
		}
		m.vals[n] = x
	}
	return m
}
