package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Sat int

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

// SolverStats is shared by all workers.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Nanos                           int64
	Hard                            int64
}

// Solver drives one SMT solver process over pipes.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	ts    *Terms
	gen   uint32
	stack []*Term // asserted path condition, one push level each
	vars  []*Term
	defs  int
	stats *SolverStats
	bin   string
	tmo   int
	log   *strings.Builder

	deadline time.Time     // no query outlives it
	where    func() string // for diagnosis
}

var solverGen uint32

// slowQuery is set by VX_SLOW for diagnosis.
var slowQuery, _ = time.ParseDuration(os.Getenv("VX_SLOW"))

func NewSolver(ts *Terms, stats *SolverStats, bin string, timeoutMS int) *Solver {
	s := &Solver{ts: ts, stats: stats, bin: bin, tmo: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.stack = nil
	s.defs = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.tmo)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) over() bool { return !s.deadline.IsZero() && time.Now().After(s.deadline) }

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(sb *strings.Builder, pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(sb, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, c := range pc[k:] {
		ref := s.ts.emit(sb, c, s.gen, nil)
		fmt.Fprintf(sb, "(push 1)\n(assert %s)\n", ref)
		s.stack = append(s.stack, c)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimRight(l, "\r\n"), err
}

// Check decides pc ∧ extra; vars are read back when sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	if extra != nil && extra.IsFalse() {
		return Unsat, nil
	}
	for attempt := 0; attempt < 2; attempt++ {
		if s.over() {
			return Unknown, nil
		}
		if s.ts.nnodes > 0 && s.defs > 400000 {
			s.restart()
		}
		r, m, err := s.check(pc, extra, vars)
		if err == nil {
			if r == Unknown {
				return s.hard(pc, extra, vars)
			}
			return r, m
		}
		s.restart()
	}
	return Unknown, nil
}

func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (Sat, Model, error) {
	var sb strings.Builder
	s.sync(&sb, pc)
	pushed := false
	if extra != nil && !extra.IsTrue() {
		ref := s.ts.emit(&sb, extra, s.gen, nil)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", ref)
		pushed = true
	}
	sb.WriteString("(check-sat)\n")
	s.defs += sb.Len() / 40
	t0 := time.Now()
	// the solver's own timeout is not always honoured
	limit := time.Duration(s.tmo)*time.Millisecond*3/2 + time.Second
	if !s.deadline.IsZero() {
		if d := time.Until(s.deadline) + time.Second; d < limit {
			limit = d
		}
	}
	proc, fired := s.cmd.Process, int32(0)
	dog := time.AfterFunc(limit, func() {
		atomic.StoreInt32(&fired, 1)
		proc.Kill()
	})
	var l string
	_, err := io.WriteString(s.in, sb.String())
	if err == nil {
		l, err = s.readLine()
	}
	dog.Stop()
	took := time.Since(t0)
	atomic.AddInt64(&s.stats.Nanos, int64(took))
	atomic.AddInt64(&s.stats.Queries, 1)
	if slowQuery > 0 && took > slowQuery && s.where != nil {
		fmt.Fprintf(os.Stderr, "slow query %.1fs %q %d bytes at %s\n", took.Seconds(), l, sb.Len(), s.where())
	}
	if atomic.LoadInt32(&fired) == 1 {
		s.restart()
		atomic.AddInt64(&s.stats.UnknownN, 1)
		return Unknown, nil, nil
	}
	if err != nil {
		return Unknown, nil, err
	}
	var r Sat
	switch l {
	case "sat":
		r = IsSat
		atomic.AddInt64(&s.stats.SatN, 1)
	case "unsat":
		r = Unsat
		atomic.AddInt64(&s.stats.UnsatN, 1)
	case "unknown", "timeout":
		r = Unknown
		atomic.AddInt64(&s.stats.UnknownN, 1)
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", l)
	}
	var m Model
	if r == IsSat {
		m, err = s.model(vars)
		if err != nil {
			return Unknown, nil, err
		}
	}
	if pushed {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return r, m, nil
}

func (s *Solver) model(vars []*Term) (Model, error) {
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if v.sent == s.gen {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range q {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return nil, err
	}
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(l, "(error") {
			return nil, fmt.Errorf("%s", l)
		}
		inq := false
		for _, c := range l {
			if c == '|' {
				inq = !inq
			}
			if inq {
				continue
			}
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		txt.WriteString(l)
		txt.WriteByte(' ')
		if depth == 0 {
			break
		}
	}
	return m, parseModel(txt.String(), m)
}

func parseModel(t string, m Model) error {
	i := 0
	for {
		j := strings.IndexByte(t[i:], '|')
		k := -1
		var name string
		if j >= 0 {
			k = strings.IndexByte(t[i+j+1:], '|')
			if k < 0 {
				return fmt.Errorf("bad model")
			}
			name = t[i+j+1 : i+j+1+k]
			i = i + j + 1 + k + 1
		} else {
			return nil
		}
		rest := strings.TrimLeft(t[i:], " ")
		e := strings.IndexAny(rest, " )")
		if strings.HasPrefix(rest, "(_ bv") {
			f := strings.Fields(rest[5:])
			v, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return err
			}
			m[name] = v
			continue
		}
		lit := rest[:e]
		var v uint64
		var err error
		switch {
		case lit == "true":
			v = 1
		case lit == "false":
			v = 0
		case strings.HasPrefix(lit, "#x"):
			v, err = strconv.ParseUint(lit[2:], 16, 64)
		case strings.HasPrefix(lit, "#b"):
			v, err = strconv.ParseUint(lit[2:], 2, 64)
		default:
			err = fmt.Errorf("bad literal %q", lit)
		}
		if err != nil {
			return err
		}
		m[name] = v
	}
}

// hard retries an undecided query from scratch with a portfolio.
func (s *Solver) hard(pc []*Term, extra *Term, vars []*Term) (Sat, Model) {
	atomic.AddInt64(&s.stats.Hard, 1)
	defer s.restart()
	for _, bin := range []string{"z3", "z3-new"} {
		if s.over() {
			break
		}
		ns := &Solver{ts: s.ts, stats: s.stats, bin: bin, tmo: s.tmo * 6, deadline: s.deadline, where: s.where}
		if _, err := exec.LookPath(bin); err != nil {
			continue
		}
		ns.start()
		all := append([]*Term{}, pc...)
		if extra != nil {
			all = append(all, extra)
		}
		conj := s.ts.T
		for _, c := range all {
			conj = s.ts.BAnd(conj, c)
		}
		r, m, err := ns.check(nil, conj, vars)
		ns.Close()
		if err == nil && r != Unknown {
			return r, m
		}
	}
	return Unknown, nil
}
