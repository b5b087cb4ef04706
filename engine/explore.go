package main

// Path exploration: every path is executed from the start under a decision prefix, with a model that
// satisfies the prefix; new decisions fork by asking the solver for the other side.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entry struct {
	prefix []int32
	model  Model
}

type dom [4]uint64

func (d dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dom) and(e dom) dom {
	return dom{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]}
}
func (d dom) first() uint64 {
	for i, x := range d {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}
func (d dom) has(v uint64) bool { return v < 256 && d[v>>6]>>(v&63)&1 == 1 }

type inputRec struct {
	Kind  string // bool, byte, int, str, choose
	Label string
	v     Value
}

type obsRec struct {
	Label string
	v     Value
}

// InVal is a concrete input value (or observed value).
type InVal struct {
	Kind  string `json:"k"`
	Label string `json:"l"`
	I     int64  `json:"i"`
	S     []byte `json:"s,omitempty"`
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, limit
	Known   string // id of the known finding whose condition holds
	MapOrd  bool
	Inputs  []InVal
	Where   string
}

type PathSample struct {
	Inputs []InVal
	Obs    []InVal
	Reach  []string
	Panic  string
	Part   bool // the encoding could not follow the path to its end
}

type Limits struct {
	MaxPaths   int64
	MaxSteps   int
	MaxDepth   int
	Deadline   time.Time
	SolverMs   int
	SampleN    int
	MapRange   int
	MaxViol    int
	CheckFirst int // cross-check that many byte-domain decisions with SMT
}

type Stats struct {
	Paths, Completed, AssumeEnds, Limits, Unsupported, Infeasible int64
	Branches, Forks                                               int64
	Steps                                                         int64
	AssertsConst, AssertsSMT, AssertsUnknown                      int64
	PcTermsMax                                                    int
	Solver                                                        SolverStats
	Funcs                                                         map[string]int64
	Reach                                                         map[string]int64
	UnsupMsgs                                                     map[string]int64
	LimitMsgs                                                     map[string]int64
	Inputs                                                        map[string]bool
	Bounds                                                        map[string]int64
	Parts                                                         []PathSample
	Samples                                                       []PathSample
	Violations                                                    []Violation
	UnknownDropped                                                int64
	Exhausted                                                     bool // the whole tree was explored
	SymPaths                                                      int64
	DistinctPC                                                    int64
}

type Explorer struct {
	prog      *Program
	fn        *ssa.Function
	name      string
	lim       Limits
	mu        sync.Mutex
	cond      *sync.Cond
	stack     []entry
	active    int
	stop      bool
	st        Stats
	started   int64
	wake      bool
	limitHits int
	vioSeen   map[string]bool
}

type Worker struct {
	prog     *Program
	ex       *Explorer
	globals  map[*ssa.Global]*Value
	pkgInit  map[*ssa.Package]bool
	initMode *ssa.Package
	solver   *Solver

	tb      *TB
	pc      []*Term
	pcSet   map[*Term]bool
	model   Model
	prefix  []int32
	dec     []int32
	doms    map[*Term]dom
	sats    map[*Term]dom
	linked  map[*Term]bool
	linkedT map[*Term]bool
	log     []undo
	logging bool

	inputs []inputRec
	obs    []obsRec
	reach  map[string]bool
	nvar   int
	nblob  int
	encLen int // bytes of strings in the value being encoded

	steps, maxSteps int
	depth, maxDepth int
	curFrame        *frame
	funcs           map[*fnCode]int64
	mapOrder        bool
	mapRanges       int
	mapRangeMax     int
	mapSticky       map[instrKey]int
	syncGo          bool
	clock           uint64
	env             map[string]Value
	fs              *vfs
	syncMaps        map[*Value]*Map
	nowMono         uint64
	out             []Value
	codecs          map[*Value]*codecState
	handles         map[*Value]*handleState
	prom            map[*Value]*promState
	expectPanic     bool
	prepared        bool
	knownID         string
	st              Stats
}

func newWorker(p *Program, ex *Explorer) *Worker {
	w := &Worker{prog: p, ex: ex, globals: map[*ssa.Global]*Value{}, pkgInit: map[*ssa.Package]bool{}}
	w.solver = newSolver(p.solverBin, ex.lim.SolverMs)
	w.syncMaps = map[*Value]*Map{}
	w.reuse(ex)
	return w
}

func (w *Worker) reuse(ex *Explorer) {
	w.ex = ex
	w.st = Stats{}
	w.solver.stats = SolverStats{}
	w.funcs = map[*fnCode]int64{}
	w.st.Funcs = map[string]int64{}
	w.st.Reach = map[string]int64{}
	w.st.UnsupMsgs = map[string]int64{}
	w.st.LimitMsgs = map[string]int64{}
	w.st.Inputs = map[string]bool{}
	w.st.Bounds = map[string]int64{}
	w.resetPath(entry{})
}

func (w *Worker) resetPath(e entry) {
	w.tb = newTB()
	w.pc = w.pc[:0]
	w.pcSet = map[*Term]bool{}
	w.model = e.model
	if w.model == nil {
		w.model = Model{}
	}
	w.prefix = e.prefix
	w.dec = nil
	w.doms = map[*Term]dom{}
	w.sats = map[*Term]dom{}
	w.linked = map[*Term]bool{}
	w.linkedT = map[*Term]bool{}
	w.inputs, w.obs = nil, nil
	w.reach = map[string]bool{}
	w.nvar, w.nblob = 0, 0
	w.steps, w.depth = 0, 0
	w.maxSteps, w.maxDepth = w.ex.lim.MaxSteps, w.ex.lim.MaxDepth
	w.curFrame = nil
	w.mapOrder, w.mapRanges, w.mapRangeMax = false, 0, w.ex.lim.MapRange
	w.mapSticky = map[instrKey]int{}
	w.syncGo = false
	w.clock = 0
	w.env = map[string]Value{"HOME": "/home/u", "GOPATH": "", "PATH": "/usr/bin"}
	w.fs = newVFS()
	w.nowMono = 0
	w.expectPanic = false
	w.knownID = ""
	w.out = nil
	w.codecs = map[*Value]*codecState{}
	if w.handles == nil {
		w.handles = map[*Value]*handleState{}
	}
	w.prom = map[*Value]*promState{}
	w.solver.beginPath(w.tb)
}

func (w *Worker) newVar(width uint8) *Term {
	w.nvar++
	return w.tb.Var(fmt.Sprintf("v%d", w.nvar), width)
}

// satSet is the set of values of the only (byte-sized) variable of c that satisfy c.
func (w *Worker) satSet(c *Term) dom {
	if d, ok := w.sats[c]; ok {
		return d
	}
	var d dom
	n := uint64(1) << c.uvar.w
	if c.uvar.w == 0 {
		n = 2
	}
	for v := uint64(0); v < n; v++ {
		if w.tb.EvalWith(c, c.uvar, v) == 1 {
			d[v>>6] |= 1 << (v & 63)
		}
	}
	w.sats[c] = d
	return d
}

func fullDom(v *Term) dom {
	n := 1
	if v.w > 0 {
		n = 1 << v.w
	} else {
		n = 2
	}
	var d dom
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

func unary(c *Term) bool { return c.nvars == 1 && c.uvar.w <= 8 }

func (w *Worker) domOf(v *Term) dom {
	if d, ok := w.doms[v]; ok {
		return d
	}
	d := fullDom(v)
	w.doms[v] = d
	return d
}

func (w *Worker) link(t *Term) {
	if w.linkedT[t] {
		return
	}
	w.linkedT[t] = true
	if t.op == OVar {
		w.linked[t] = true
		return
	}
	for _, a := range t.a {
		if a != nil && a.nvars > 0 {
			w.link(a)
		}
	}
}

func (w *Worker) addPC(c *Term) {
	if c == w.tb.T || w.pcSet[c] {
		return
	}
	w.pcSet[c] = true
	if c.op == OAnd {
		// keep conjuncts apart: unary ones go to the domains
		w.pcSet[c] = true
		w.addPC(c.a[0])
		w.addPC(c.a[1])
		return
	}
	w.pc = append(w.pc, c)
	if unary(c) {
		w.doms[c.uvar] = w.domOf(c.uvar).and(w.satSet(c))
	} else {
		w.link(c)
	}
}

// feasible decides pc ∧ c, returning a model on sat. The current model satisfies pc.
func (w *Worker) feasible(c *Term) (verdict, Model) {
	if c == w.tb.F {
		return vUnsat, nil
	}
	if w.tb.Eval(c, w.model) == 1 {
		return vSat, w.model
	}
	// conjunction of unary constraints over unlinked byte variables: exact by domains
	var parts []*Term
	parts = conj(c, parts)
	allUn := true
	for _, p := range parts {
		if !unary(p) {
			allUn = false
			continue
		}
		if w.domOf(p.uvar).and(w.satSet(p)).empty() {
			w.solver.stats.Domain++
			w.crossCheck(c, vUnsat)
			return vUnsat, nil
		}
	}
	if allUn {
		need := map[*Term]dom{}
		ok := true
		for _, p := range parts {
			d, have := need[p.uvar]
			if !have {
				d = w.domOf(p.uvar)
			}
			d = d.and(w.satSet(p))
			need[p.uvar] = d
			if d.empty() {
				w.solver.stats.Domain++
				w.crossCheck(c, vUnsat)
				return vUnsat, nil
			}
			if w.linked[p.uvar] {
				ok = false
			}
		}
		if ok {
			m := make(Model, len(w.model)+1)
			for k, v := range w.model {
				m[k] = v
			}
			for v, d := range need {
				if !d.has(m[v.name]) {
					m[v.name] = d.first()
				}
			}
			w.solver.stats.Domain++
			w.crossCheck(c, vSat)
			return vSat, m
		}
	}
	v, m := w.solver.check(w.pc, c)
	if v == vSat {
		full := make(Model, len(m))
		for k, x := range w.model {
			full[k] = x
		}
		for k, x := range m {
			full[k] = x
		}
		m = full
	}
	return v, m
}

func conj(c *Term, out []*Term) []*Term {
	if c.op == OAnd {
		return conj(c.a[1], conj(c.a[0], out))
	}
	// ¬(a ∨ b)
	if c.op == ONot && c.a[0].op == OOr {
		return append(out, c)
	}
	return append(out, c)
}

func (w *Worker) crossCheck(c *Term, want verdict) {
	if w.solver.stats.DomainChecked >= w.ex.lim.CheckFirst {
		return
	}
	w.solver.stats.DomainChecked++
	v, _ := w.solver.check(w.pc, c)
	if v != vUnknown && v != want {
		w.solver.stats.DomainMismatch++
		w.prog.note("byte-domain reasoning disagrees with the solver on " + c.body())
	}
}

func (w *Worker) pushEntry(alt int32, m Model) {
	p := make([]int32, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = alt
	w.st.Forks++
	w.ex.push(entry{p, m})
}

// Branch decides a symbolic condition, forking when both sides are possible.
func (w *Worker) Branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if w.initMode != nil {
		panic(unsupported("symbolic branch in a package initialiser"))
	}
	if w.pcSet[c] {
		return true
	}
	n := w.tb.Not(c)
	if w.pcSet[n] {
		return false
	}
	di := len(w.dec)
	if di < len(w.prefix) {
		side := w.prefix[di] == 1
		w.dec = append(w.dec, w.prefix[di])
		if side {
			w.addPC(c)
		} else {
			w.addPC(n)
		}
		return side
	}
	w.st.Branches++
	side := w.tb.Eval(c, w.model) == 1
	taken, other := c, n
	if !side {
		taken, other = n, c
	}
	v, m := w.feasible(other)
	switch v {
	case vSat:
		w.pushEntry(int32(b2u(!side)), m)
	case vUnknown:
		w.st.UnknownDropped++
	}
	w.dec = append(w.dec, int32(b2u(side)))
	w.addPC(taken)
	return side
}

// chooseN forks into n alternatives.
func (w *Worker) chooseN(n int) int {
	if n <= 1 {
		return 0
	}
	di := len(w.dec)
	if di < len(w.prefix) {
		w.dec = append(w.dec, w.prefix[di])
		return int(w.prefix[di])
	}
	w.st.Branches++
	for i := n - 1; i > 0; i-- {
		w.pushEntry(int32(i), w.model)
	}
	w.dec = append(w.dec, 0)
	return 0
}

// concretize forks over the values of t.
func (w *Worker) concretize(t *Term) uint64 {
	for {
		if t.op == OConst {
			return t.val
		}
		v := w.concVal(t)
		if w.Branch(w.tb.Eq(t, w.tb.C(v, t.w))) {
			return v
		}
	}
}

// concVal picks a value for t deterministically given the decisions (so that re-execution asks the same
// questions): the model may differ between the run that forked and the run that replays, so the candidate
// value itself is part of the decision record.
func (w *Worker) concVal(t *Term) uint64 {
	di := len(w.dec)
	if di < len(w.prefix) {
		lo, hi := uint32(w.prefix[di]), uint32(w.prefix[di+1])
		w.dec = append(w.dec, w.prefix[di], w.prefix[di+1])
		return uint64(lo) | uint64(hi)<<32
	}
	v := w.tb.Eval(t, w.model)
	w.dec = append(w.dec, int32(uint32(v)), int32(uint32(v>>32)))
	return v
}

func (w *Worker) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if w.tb.Eval(c, w.model) != 1 {
			vd, m := w.feasible(c)
			switch vd {
			case vUnsat:
				panic(pathEnd{"assume"})
			case vUnknown:
				w.st.UnknownDropped++
				panic(pathEnd{"solver unknown"})
			}
			w.model = m
		}
		w.addPC(c)
	default:
		panic(unsupported(fmt.Sprintf("assume of %T", v)))
	}
}

func (w *Worker) assert(v Value, msg string) {
	switch c := v.(type) {
	case bool:
		w.st.AssertsConst++
		if !c {
			w.violation("assert", msg, w.model)
			panic(pathEnd{"violated"})
		}
	case *Term:
		n := w.tb.Not(c)
		w.st.AssertsSMT++
		vd, m := w.solver.check(w.pc, n)
		switch vd {
		case vSat:
			full := Model{}
			for k, x := range w.model {
				full[k] = x
			}
			for k, x := range m {
				full[k] = x
			}
			w.violation("assert", msg, full)
		case vUnknown:
			w.st.AssertsUnknown++
		}
		if w.tb.Eval(c, w.model) != 1 {
			vd, m := w.feasible(c)
			if vd != vSat {
				panic(pathEnd{"violated"})
			}
			w.model = m
		}
		w.addPC(c)
	default:
		panic(unsupported(fmt.Sprintf("assert of %T", v)))
	}
}

func (w *Worker) evalByte(v Value, m Model) byte {
	switch x := v.(type) {
	case uint64:
		return byte(x)
	case *Term:
		return byte(w.tb.Eval(x, m))
	}
	return '?'
}

func (w *Worker) concreteVal(kind, label string, v Value, m Model) InVal {
	r := InVal{Kind: kind, Label: label}
	switch x := v.(type) {
	case bool:
		r.I = int64(b2u(x))
	case uint64:
		r.I = int64(x)
	case *Term:
		e := w.tb.Eval(x, m)
		if x.w > 0 && x.w < 64 {
			r.I = int64(e)
		} else {
			r.I = int64(e)
		}
	case string:
		r.S = []byte(x)
		if r.S == nil {
			r.S = []byte{}
		}
	case *SStr:
		r.S = make([]byte, len(x.b))
		for i, b := range x.b {
			r.S[i] = w.evalByte(b, m)
		}
	}
	return r
}

func (w *Worker) concreteInputs(m Model) []InVal {
	var out []InVal
	for _, in := range w.inputs {
		out = append(out, w.concreteVal(in.Kind, in.Label, in.v, m))
	}
	return out
}

func (w *Worker) violation(kind, msg string, m Model) {
	v := Violation{Harness: w.ex.name, Msg: msg, Kind: kind, Inputs: w.concreteInputs(m), Known: w.knownID, MapOrd: w.mapRanges > 0}
	if w.curFrame != nil {
		v.Where = w.where(w.curFrame)
	}
	w.ex.addViolation(v)
}

func (ex *Explorer) addViolation(v Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := 0
	for _, o := range ex.st.Violations {
		if o.Msg == v.Msg && o.Known == v.Known {
			n++
		}
	}
	if n < 6 && len(ex.st.Violations) < 60 {
		ex.st.Violations = append(ex.st.Violations, v)
	}
}

// limitHit ends the exploration when many paths do not end.
func (ex *Explorer) limitHit() {
	ex.mu.Lock()
	ex.limitHits++
	if ex.limitHits >= 24 {
		ex.stop = true
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) push(e entry) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, e)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (entry, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return entry{}, false
		}
		if n := len(ex.stack); n > 0 {
			if ex.started >= ex.lim.MaxPaths || time.Now().After(ex.lim.Deadline) {
				ex.stop = true
				ex.cond.Broadcast()
				return entry{}, false
			}
			// mostly depth first, every 16th from the bottom for breadth
			var e entry
			if ex.started%8 == 7 {
				e = ex.stack[0]
				ex.stack = ex.stack[1:]
			} else {
				e = ex.stack[n-1]
				ex.stack = ex.stack[:n-1]
			}
			ex.started++
			ex.active++
			return e, true
		}
		if ex.active == 0 {
			ex.stop = true
			ex.st.Exhausted = true
			ex.cond.Broadcast()
			return entry{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

// explore runs one harness on the workers of the pool (created on first use, kept between harnesses).
func explore(p *Program, fn *ssa.Function, name string, lim Limits, pool []*Worker) *Stats {
	ex := &Explorer{prog: p, fn: fn, name: name, lim: lim}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stack = []entry{{}}
	var wg sync.WaitGroup
	for i := range pool {
		if pool[i] == nil {
			pool[i] = newWorker(p, ex)
		} else {
			pool[i].reuse(ex)
		}
		w := pool[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				e, ok := ex.pop()
				if !ok {
					return
				}
				if !w.prepared {
					w.prepare()
					w.prepared = true
				}
				w.runPath(e)
				ex.done()
			}
		}()
	}
	wg.Wait()
	st := &ex.st
	st.Funcs = map[string]int64{}
	st.Reach = map[string]int64{}
	st.UnsupMsgs = map[string]int64{}
	st.LimitMsgs = map[string]int64{}
	st.Inputs = map[string]bool{}
	st.Bounds = map[string]int64{}
	for _, w := range pool {
		s := &w.st
		st.Paths += s.Paths
		st.Completed += s.Completed
		st.AssumeEnds += s.AssumeEnds
		st.Limits += s.Limits
		st.Unsupported += s.Unsupported
		st.Branches += s.Branches
		st.Forks += s.Forks
		st.Steps += s.Steps
		st.AssertsConst += s.AssertsConst
		st.AssertsSMT += s.AssertsSMT
		st.AssertsUnknown += s.AssertsUnknown
		st.UnknownDropped += s.UnknownDropped
		st.SymPaths += s.SymPaths
		if s.PcTermsMax > st.PcTermsMax {
			st.PcTermsMax = s.PcTermsMax
		}
		st.Solver.add(w.solver.stats)
		for k, v := range w.funcs {
			st.Funcs[k.name] += v
		}
		for k, v := range s.Reach {
			st.Reach[k] += v
		}
		for k, v := range s.UnsupMsgs {
			st.UnsupMsgs[k] += v
		}
		for k, v := range s.LimitMsgs {
			st.LimitMsgs[k] += v
		}
		for k, v := range s.Bounds {
			st.Bounds[k] = v
		}
		for k := range s.Inputs {
			st.Inputs[k] = true
		}
		st.Samples = append(st.Samples, s.Samples...)
		st.Parts = append(st.Parts, s.Parts...)
	}
	if len(ex.stack) > 0 {
		st.Exhausted = false
	}
	return st
}

// prepare initialises the packages under test once per worker.
func (w *Worker) prepare() {
	w.logging = false
	for _, pk := range w.prog.initPkgs {
		w.ensureInit(pk)
	}
}

func (w *Worker) runPath(e entry) {
	w.resetPath(e)
	w.log = w.log[:0]
	w.logging = true
	st := &w.st
	st.Paths++
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				switch {
				case r.why == "assume" || r.why == "violated":
					st.AssumeEnds++
				default:
					st.Limits++
					st.LimitMsgs[r.why]++
					if r.why != "solver unknown" {
						// a violation if the real code does not return either
						w.violation("limit", "does not terminate: "+r.why, w.model)
						w.ex.limitHit()
					}
				}
			case *unsupportedErr:
				st.Unsupported++
				w.partSample()
				msg := r.msg
				if w.curFrame != nil {
					msg += " in " + w.where(w.curFrame)
				}
				st.UnsupMsgs[msg]++
			case exitPanic:
				w.violation("panic", fmt.Sprintf("os.Exit(%d)", r.code), w.model)
				st.Completed++
			case *targetPanic:
				w.violation("panic", "panic: "+w.panicString(r), w.model)
				st.Completed++
			default:
				msg := fmt.Sprintf("engine: %v", r)
				if w.curFrame != nil {
					msg += " in " + w.where(w.curFrame)
				}
				if w.prog.debug {
					panic(r)
				}
				st.Unsupported++
				w.partSample()
				st.UnsupMsgs[msg]++
			}
		}()
		w.callCode(nil, w.prog.code(w.ex.fn), nil, nil)
		w.finishPath()
	}()
	st.Steps += int64(w.steps)
	if len(w.pc) > st.PcTermsMax {
		st.PcTermsMax = len(w.pc)
	}
	w.rollback()
	w.logging = false
}

// partSample keeps the inputs of a path the encoding cannot follow to its end, for the real code to run.
func (w *Worker) partSample() {
	if n := w.st.Unsupported; n <= 8 || n&(n-1) == 0 {
		w.st.Parts = append(w.st.Parts, PathSample{Inputs: w.concreteInputs(w.model), Part: true})
	}
}

func (w *Worker) panicString(tp *targetPanic) string {
	v := tp.v
	if iv, ok := v.(Iface); ok {
		if s, ok := iv.V.(string); ok {
			return s
		}
		return showVal(iv, 4)
	}
	return showVal(v, 4)
}

func (w *Worker) finishPath() {
	st := &w.st
	st.Completed++
	if len(w.pc) > 0 {
		st.SymPaths++
	}
	for r := range w.reach {
		st.Reach[r]++
	}
	for _, in := range w.inputs {
		st.Inputs[in.Kind+" "+in.Label] = true
	}
	if len(st.Samples) < w.ex.lim.SampleN || (st.Completed&(st.Completed-1) == 0) {
		s := PathSample{Inputs: w.concreteInputs(w.model)}
		for _, o := range w.obs {
			s.Obs = append(s.Obs, w.concreteVal("obs", o.Label, o.v, w.model))
		}
		for r := range w.reach {
			s.Reach = append(s.Reach, r)
		}
		sort.Strings(s.Reach)
		st.Samples = append(st.Samples, s)
	}
}

func (v InVal) String() string {
	switch v.Kind {
	case "str":
		return fmt.Sprintf("%s=%q", v.Label, string(v.S))
	}
	if v.S != nil {
		return fmt.Sprintf("%s=%q", v.Label, string(v.S))
	}
	return fmt.Sprintf("%s=%d", v.Label, v.I)
}

func inputsString(in []InVal) string {
	var p []string
	for _, v := range in {
		p = append(p, v.String())
	}
	return strings.Join(p, " ")
}
