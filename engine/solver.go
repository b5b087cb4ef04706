package main

// One z3 process per worker, one push level per path, one inner push level per query.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Portfolio                    int
	Time                         time.Duration
	Max                          time.Duration
	Domain                       int // branch decisions settled by exact byte-domain reasoning
	DomainChecked                int // ... of which cross-checked with the SMT solver
	DomainMismatch               int
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Portfolio += o.Portfolio
	s.Time += o.Time
	if o.Max > s.Max {
		s.Max = o.Max
	}
	s.Domain += o.Domain
	s.DomainChecked += o.DomainChecked
	s.DomainMismatch += o.DomainMismatch
}

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stats   SolverStats
	tb      *TB
	defined map[*Term]bool
	decl    map[*Term]bool
	nAssert int
	dead    bool
	timeout int // ms, all solvers
	first   int // ms, the incremental solver alone
}

func newSolver(bin string, timeoutMs int) *Solver {
	return &Solver{bin: bin, args: []string{"-in", "-smt2"}, timeout: timeoutMs, first: 2000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.first)
	s.dead = false
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inc.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

// beginPath forgets everything and prepares for terms of tb.
func (s *Solver) beginPath(tb *TB) {
	if s.cmd != nil && s.tb != nil && (len(s.decl) > 0 || s.nAssert > 0) {
		s.in.WriteString("(pop 1)\n")
		s.tb = nil
	}
	s.tb = tb
	s.defined = map[*Term]bool{}
	s.decl = map[*Term]bool{}
	s.nAssert = 0
}

func (s *Solver) ensure() {
	if s.cmd == nil || s.dead {
		s.close()
		if err := s.start(); err != nil {
			panic(fmt.Sprintf("cannot start solver: %v", err))
		}
		s.defined = map[*Term]bool{}
		s.decl = map[*Term]bool{}
		s.nAssert = 0
	}
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if !s.decl[t] {
			s.decl[t] = true
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, smtSort(t.w))
		}
		return
	}
	if s.defined[t] {
		return
	}
	for _, x := range t.a {
		if x != nil {
			s.define(x)
		}
	}
	s.defined[t] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), t.body())
}

type verdict int

const (
	vUnknown verdict = iota
	vSat
	vUnsat
)

// check decides pc ∧ goal. On sat it returns a model for the variables of tb.
func (s *Solver) check(pc []*Term, goal *Term) (verdict, Model) {
	start := time.Now()
	s.ensure()
	if s.nAssert == 0 && len(s.decl) == 0 {
		s.in.WriteString("(push 1)\n")
	}
	for _, c := range pc[s.nAssert:] {
		s.define(c)
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.nAssert = len(pc)
	s.define(goal)
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n", goal.ref())
	s.in.Flush()
	ans, err := s.readSexp()
	v := vUnknown
	var m Model
	if err == nil {
		switch ans {
		case "sat":
			v = vSat
			m = s.model()
			if m == nil {
				v = vUnknown
			}
		case "unsat":
			v = vUnsat
		}
		if strings.HasPrefix(ans, "(error") {
			s.dead = true
		}
	} else {
		s.dead = true
	}
	if !s.dead {
		s.in.WriteString("(pop 1)\n")
	}
	if v == vUnknown && s.timeout > s.first {
		v, m = s.portfolio(pc, goal)
	}
	d := time.Since(start)
	s.stats.Queries++
	s.stats.Time += d
	if d > s.stats.Max {
		s.stats.Max = d
	}
	switch v {
	case vSat:
		s.stats.Sat++
	case vUnsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return v, m
}

var fallbacks = [][]string{
	{"cvc5", "--solve-bv-as-int=sum", "--produce-models", "--lang=smt2"},
	{"cvc5", "--produce-models", "--lang=smt2"},
	{"z3-new", "-smt2"},
	{"z3", "-smt2"},
}

// portfolio asks several solvers the same question from scratch; the first definite answer counts.
func (s *Solver) portfolio(pc []*Term, goal *Term) (verdict, Model) {
	s.stats.Portfolio++
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	seen := map[*Term]bool{}
	var vars []*Term
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vars = append(vars, t)
			fmt.Fprintf(&b, "(declare-const |%s| %s)\n", t.name, smtSort(t.w))
			return
		}
		for _, x := range t.a {
			if x != nil {
				def(x)
			}
		}
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), t.body())
	}
	for _, c := range pc {
		def(c)
	}
	def(goal)
	for _, c := range pc {
		fmt.Fprintf(&b, "(assert %s)\n", c.ref())
	}
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", goal.ref())
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString("|" + v.name + "| ")
		}
		b.WriteString("))\n")
	}
	txt := b.String()
	if d := os.Getenv("VF_DUMP"); d != "" {
		f, err := os.CreateTemp(d, "q*.smt2")
		if err == nil {
			f.WriteString(txt)
			f.Close()
		}
	}
	type ans struct {
		v verdict
		m Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout)*time.Millisecond)
	defer cancel()
	ch := make(chan ans, len(fallbacks))
	for _, f := range fallbacks {
		f := f
		go func() {
			cmd := exec.CommandContext(ctx, f[0], f[1:]...)
			if f[0] == "cvc5" {
				cmd.Args = append(cmd.Args, "-")
			} else {
				cmd.Args = append(cmd.Args, "-in")
			}
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- ans{vUnsat, nil}
			case strings.HasPrefix(o, "sat"):
				if m := parseModel(o, vars); m != nil {
					ch <- ans{vSat, m}
					return
				}
				ch <- ans{}
			default:
				ch <- ans{}
			}
		}()
	}
	for range fallbacks {
		if a := <-ch; a.v != vUnknown {
			return a.v, a.m
		}
	}
	return vUnknown, nil
}

func (s *Solver) model() Model {
	m := Model{}
	var vars []*Term
	for _, v := range s.tb.vars {
		if s.decl[v] {
			vars = append(vars, v)
		}
	}
	if len(vars) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		s.in.WriteString("|" + v.name + "| ")
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil || strings.HasPrefix(txt, "(error") {
		s.dead = true
		return nil
	}
	m = parseModel(txt, vars)
	if m == nil {
		s.dead = true
	}
	return m
}

func parseModel(txt string, vars []*Term) Model {
	m := Model{}
	// ((|a| #x00) (|b| true) ...)
	i := 0
	for _, v := range vars {
		k := strings.Index(txt[i:], "|"+v.name+"|")
		if k < 0 {
			k = strings.Index(txt[i:], "("+v.name+" ")
			if k < 0 {
				return nil
			}
			i += k + len(v.name) + 2
		} else {
			i += k + len(v.name) + 2
		}
		j := strings.IndexByte(txt[i:], ')')
		if j < 0 {
			return nil
		}
		val := strings.TrimSpace(txt[i : i+j])
		i += j
		switch {
		case val == "true":
			m[v.name] = 1
		case val == "false":
			m[v.name] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v.name] = u
		default:
			return nil
		}
	}
	return m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(line)
		q := false
		for i := 0; i < len(line); i++ {
			switch line[i] {
			case '|', '"':
				q = !q
			case '(':
				if !q {
					depth++
				}
			case ')':
				if !q {
					depth--
				}
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}
