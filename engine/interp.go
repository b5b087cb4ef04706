package main

// Symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals (Go panics)

type targetPanic struct {
	v  Value // Iface
	at string
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

type pathEnd struct{ why string } // assumption false, infeasible, budget, ...

// ---- compiled form

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
	okNone
)

type opnd struct {
	k opKind
	r int32
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int32
	// binop / conversion helpers
	ii    intInfo
	isInt bool
	site  *callSite
}

type callSite struct {
	fn     *ssa.Function
	code   *fnCode
	bi     *ssa.Builtin
	method *types.Func
}

type cblock struct {
	phis  []cinstr
	ins   []cinstr
	preds []*ssa.BasicBlock
	succs []int32
}

type fnCode struct {
	fn       *ssa.Function
	name     string
	nregs    int
	params   []int32
	free     []int32
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	redirect *ssa.Function
	repo     bool // belongs to the module under test (not a harness)
	maprange bool
	recover_ int
	nat      *nativeFn
	soft     func(w *Worker, fr *frame, args []Value) (Value, bool)
	built    sync.Once
	isInit   bool
	pkg      *ssa.Package
}

type intrinsic func(w *Worker, fr *frame, args []Value) Value

type deferred struct {
	fv   Value
	args []Value
	site *cinstr
}

type frame struct {
	w       *Worker
	code    *fnCode
	caller  *frame
	regs    []Value
	defers  []deferred
	panic   *targetPanic
	curBlk  int
	prevBlk int
	ip      int
	result  Value
	depth   int
}

func (p *Program) code(fn *ssa.Function) *fnCode {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*fnCode)
	}
	c := &fnCode{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c.name = name
	c.pkg = fn.Pkg
	if c.pkg == nil && fn.Origin() != nil {
		c.pkg = fn.Origin().Pkg
	}
	if c.pkg == nil {
		for q := fn.Parent(); q != nil; q = q.Parent() {
			if q.Pkg != nil {
				c.pkg = q.Pkg
			}
		}
	}
	c.intr = intrinsics[name]
	if c.intr == nil {
		if to, ok := p.redirects[name]; ok {
			c.redirect = to
		}
	}
	if c.intr == nil && c.redirect == nil {
		c.nat = natives[name]
		c.soft = softs[name]
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic == "package initializer" {
		c.isInit = true
	}
	c.repo = p.isRepo(fn)
	actual, _ := p.codes.LoadOrStore(fn, c)
	return actual.(*fnCode)
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Pkg
	var path string
	if pk != nil {
		path = pk.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	if path != p.module && !strings.HasPrefix(path, p.module+"/") {
		return false
	}
	if strings.HasPrefix(path, p.module+"/zzvf") {
		return false
	}
	pos := p.fset.Position(f.Pos())
	return !strings.Contains(pos.Filename, "/zz_vf_") && !strings.Contains(pos.Filename, "/zzvf")
}

func (c *fnCode) build(p *Program) {
	c.built.Do(func() { c.compile(p) })
}

func (c *fnCode) compile(p *Program) {
	fn := c.fn
	if c.pkg != nil {
		p.buildPkg(c.pkg)
	}
	if fn.Blocks == nil {
		return
	}
	c.recover_ = -1
	reg := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		reg[v] = n
		n++
		return n - 1
	}
	for _, x := range fn.Params {
		c.params = append(c.params, add(x))
	}
	for _, x := range fn.FreeVars {
		c.free = append(c.free, add(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		c.recover_ = fn.Recover.Index
	}
	c.nregs = int(n)
	var rands []*ssa.Value
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.preds = b.Preds
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, int32(s.Index))
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			var vals []ssa.Value
			switch in := in.(type) {
			case ssa.CallInstruction:
				cc := in.Common()
				ci.site = &callSite{}
				if cc.IsInvoke() {
					ci.site.method = cc.Method
					vals = append(vals, cc.Value)
				} else {
					switch f := cc.Value.(type) {
					case *ssa.Function:
						ci.site.fn = f
						vals = append(vals, nil)
					case *ssa.Builtin:
						ci.site.bi = f
						vals = append(vals, nil)
					default:
						vals = append(vals, cc.Value)
					}
				}
				vals = append(vals, cc.Args...)
			case *ssa.MakeClosure:
				vals = append(vals, in.Bindings...)
			case *ssa.BinOp:
				ci.ii, ci.isInt = basicInt(in.X.Type())
				vals = []ssa.Value{in.X, in.Y}
			case *ssa.UnOp:
				ci.ii, ci.isInt = basicInt(in.X.Type())
				vals = []ssa.Value{in.X}
			case *ssa.Slice:
				vals = []ssa.Value{in.X, in.Low, in.High, in.Max}
			default:
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					vals = append(vals, *r)
				}
			}
			for _, v := range vals {
				ci.ops = append(ci.ops, p.operand(v, reg))
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.ins = append(cb.ins, ci)
			}
		}
	}
}

func (p *Program) operand(v ssa.Value, reg map[ssa.Value]int32) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{k: okNone}
	case *ssa.Const:
		return opnd{k: okConst, v: constValue(v)}
	case *ssa.Global:
		return opnd{k: okGlobal, g: v}
	case *ssa.Function:
		return opnd{k: okConst, v: &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{k: okNone}
	}
	r, ok := reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s %T", v, v))
	}
	return opnd{k: okReg, r: r}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if ii, ok := basicInt(b); ok {
			iv := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(iv); ok {
				return u & mask(ii.w)
			}
			i, _ := constant.Int64Val(iv)
			return uint64(i) & mask(ii.w)
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	return Poison{"const " + c.String()}
}

// ---- worker memory

type undo struct {
	p   *Value
	old Value
	f   func()
}

func (w *Worker) store(p *Value, v Value) {
	if p == nil {
		w.nilDeref()
	}
	switch nv := v.(type) {
	case Struct:
		if ov, ok := (*p).(Struct); ok && len(ov) == len(nv) {
			for i := range nv {
				w.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	case Array:
		if ov, ok := (*p).(Array); ok && len(ov) == len(nv) {
			for i := range nv {
				w.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(nv)
	}
	if w.logging {
		w.log = append(w.log, undo{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) logf(f func()) {
	if w.logging {
		w.log = append(w.log, undo{f: f})
	}
}

func (w *Worker) rollback() {
	for i := len(w.log) - 1; i >= 0; i-- {
		u := w.log[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	w.log = w.log[:0]
}

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	w.ensureInit(g.Pkg)
	p, ok := w.globals[g]
	if !ok {
		p = new(Value)
		*p = zero(g.Type().(*types.Pointer).Elem())
		w.globals[g] = p
	}
	return p
}

// ensureInit runs the initialiser of pkg (and only of pkg), outside the undo log.
func (w *Worker) ensureInit(pkg *ssa.Package) {
	if pkg == nil || w.pkgInit[pkg] {
		return
	}
	w.pkgInit[pkg] = true
	w.prog.buildPkg(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				p := new(Value)
				*p = zero(g.Type().(*types.Pointer).Elem())
				w.globals[g] = p
			}
		}
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if w.prog.noInit[pkg.Pkg.Path()] {
		return
	}
	savedLog, savedSteps, savedMax := w.logging, w.steps, w.maxSteps
	savedInit, savedDepth := w.initMode, w.depth
	w.logging, w.initMode = false, pkg
	w.maxSteps = w.steps + 50_000_000
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.prog.note("init of " + pkg.Pkg.Path() + " stopped: " + panicText(r))
			}
		}()
		w.callCode(nil, w.prog.code(init), nil, nil)
	}()
	w.logging, w.steps, w.maxSteps, w.initMode, w.depth = savedLog, savedSteps, savedMax, savedInit, savedDepth
}

func panicText(r interface{}) string {
	switch r := r.(type) {
	case *unsupportedErr:
		return "unsupported: " + r.msg
	case *targetPanic:
		return "panic: " + showVal(r.v, 3) + " at " + r.at
	case pathEnd:
		return "path end: " + r.why
	}
	return fmt.Sprint(r)
}

// ---- running functions

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case okReg:
		return fr.regs[o.r]
	case okConst:
		return o.v
	case okGlobal:
		return fr.w.global(o.g)
	}
	return nil
}

func (w *Worker) where(fr *frame) string {
	var parts []string
	for f := fr; f != nil && len(parts) < 12; f = f.caller {
		pos := ""
		if f.curBlk < len(f.code.blocks) && f.ip < len(f.code.blocks[f.curBlk].ins) {
			in := f.code.blocks[f.curBlk].ins[f.ip].in
			if in.Pos().IsValid() {
				pp := w.prog.fset.Position(in.Pos())
				fn := pp.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				pos = fmt.Sprintf("@%s:%d", fn, pp.Line)
			}
		}
		parts = append(parts, f.code.name+pos)
	}
	return strings.Join(parts, " < ")
}

func (w *Worker) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	return w.callCode(caller, w.prog.code(fn), args, env)
}

func (w *Worker) callCode(caller *frame, c *fnCode, args []Value, env []Value) Value {
	if c.intr != nil {
		fr := &frame{w: w, code: c, caller: caller}
		if caller != nil {
			fr.depth = caller.depth + 1
		}
		return c.intr(w, fr, args)
	}
	if c.nat != nil {
		if r, ok := c.nat.call(args); ok {
			return r
		}
	}
	if c.soft != nil {
		if r, ok := c.soft(w, caller, args); ok {
			return r
		}
	}
	if c.redirect != nil {
		return w.callCode(caller, w.prog.code(c.redirect), args, env)
	}
	if c.isInit && w.initMode != nil && c.pkg != w.initMode {
		return nil // other packages are initialised on demand
	}
	c.build(w.prog)
	if c.blocks == nil {
		panic(unsupported("no body: " + c.name))
	}
	w.depth++
	if w.depth > w.maxDepth {
		w.depth = 0
		panic(pathEnd{"call depth exceeded in " + c.name})
	}
	if c.repo {
		w.funcs[c]++
	}
	fr := &frame{w: w, code: c, caller: caller, regs: make([]Value, c.nregs)}
	for i, p := range c.params {
		fr.regs[p] = args[i]
	}
	for i, p := range c.free {
		fr.regs[p] = env[i]
	}
	var ret Value
	if !c.hasDefer {
		ret = w.run(fr, 0)
	} else {
		ret = w.runWithDefers(fr)
	}
	w.depth--
	return ret
}

func (w *Worker) runWithDefers(fr *frame) (ret Value) {
	depth := w.depth
	ok := w.protect(fr, func() { ret = w.run(fr, 0) })
	if ok {
		return ret
	}
	w.depth = depth
	w.runDefers(fr)
	if fr.panic != nil {
		panic(fr.panic)
	}
	if fr.code.recover_ >= 0 {
		return w.run(fr, fr.code.recover_)
	}
	return zero(fr.code.fn.Signature.Results())
}

// protect runs f; a target panic is recorded in fr and false returned.
func (w *Worker) protect(fr *frame, f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(*targetPanic)
		if !is {
			panic(r)
		}
		fr.panic = tp
	}()
	f()
	return true
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := w.depth
		if !w.protect(fr, func() { w.callDeferred(fr, d) }) {
			w.depth = depth
		}
	}
}

func (w *Worker) callDeferred(fr *frame, d deferred) {
	if d.site.site.bi != nil {
		w.builtin(fr, d.site, d.site.site.bi, d.args)
		return
	}
	w.callValue(fr, d.fv, d.args)
}

func (w *Worker) callValue(fr *frame, fv Value, args []Value) Value {
	cl, ok := fv.(*Closure)
	if !ok {
		if p, ok := fv.(Poison); ok {
			panic(unsupported("call of poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	if cl == nil {
		w.nilDeref()
	}
	if cl.native != nil {
		return cl.native(w, fr, args)
	}
	return w.callFn(fr, cl.fn, args, cl.env)
}

func (w *Worker) rtPanic(msg string) {
	var iv Value = Iface{T: types.Typ[types.String], V: "runtime error: " + msg}
	if t := w.prog.rtErrType; t != nil {
		iv = Iface{T: t, V: "runtime error: " + msg}
	}
	panic(&targetPanic{v: iv, at: w.where(w.curFrame)})
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			w.nilDeref()
		}
		return copyVal(*p)
	case *SymPtr:
		return w.loadSym(p)
	case *DataPtr:
		if p.s != nil {
			return p.s[0]
		}
		return strByte(p.str, 0)
	case Poison:
		panic(unsupported("load through poison: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (w *Worker) loadSym(p *SymPtr) Value {
	// all elements scalar: ite chain grouped by value; otherwise concretise
	scal := true
	for _, x := range p.a {
		switch x.(type) {
		case uint64, bool, *Term:
		default:
			scal = false
		}
	}
	if !scal || p.a == nil {
		i := w.concretize(p.idx)
		return copyVal(p.a[i])
	}
	ew := w.elemWidth(p.a)
	tb := w.tb
	r := w.toTerm(p.a[0], ew)
	// group runs of equal concrete values
	for i := 1; i < len(p.a); {
		j := i
		for j+1 < len(p.a) && p.a[j+1] == p.a[i] {
			j++
		}
		v := w.toTerm(p.a[i], ew)
		if v != r || r.op != OConst {
			lo := tb.C(uint64(i), p.idx.w)
			hi := tb.C(uint64(j), p.idx.w)
			var in *Term
			if i == j {
				in = tb.Eq(p.idx, lo)
			} else {
				in = tb.And(tb.Bin(OULe, lo, p.idx), tb.Bin(OULe, p.idx, hi))
			}
			r = tb.Ite(in, v, r)
		}
		i = j + 1
	}
	return fromTerm(r)
}

func (w *Worker) elemWidth(a []Value) uint8 {
	for _, x := range a {
		switch x := x.(type) {
		case bool:
			return 0
		case *Term:
			return x.w
		}
	}
	return 64 // narrowed by caller context through symElemW
}

func (w *Worker) toTerm(v Value, wd uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.tb.C(v, wd)
	case bool:
		return w.tb.B(v)
	case float64:
		return w.tb.C(math.Float64bits(v), WF64)
	case *Opq:
		panic(unsupported("inspecting a byte of an encoded message"))
	case Poison:
		panic(unsupported("poison: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("scalar expected, got %T", v)))
}

// fromTerm unwraps constants.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		switch t.w {
		case 0:
			return t.val == 1
		case WF64:
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

func (w *Worker) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.Branch(v)
	case Poison:
		panic(unsupported("branch on poison: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("condition %T", v)))
}

// cint returns v as a concrete integer, forking over its values if symbolic.
func (w *Worker) cint(v Value) int {
	switch v := v.(type) {
	case uint64:
		return int(int64(v))
	case *Term:
		return int(sext(uint64(w.concretize(v)), v.w))
	}
	panic(unsupported(fmt.Sprintf("integer expected, got %T", v)))
}

func (w *Worker) run(fr *frame, block int) (result Value) {
	prog := w.prog
	code := fr.code
	fr.curBlk = block
	prev := -1
	saved := w.curFrame
	w.curFrame = fr
	for {
		cb := &code.blocks[fr.curBlk]
		if len(cb.phis) > 0 {
			pi := -1
			for i, p := range cb.preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			if pi < 0 {
				panic("phi without predecessor")
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(&cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		w.steps += len(cb.ins)
		if w.steps > w.maxSteps {
			panic(pathEnd{"step limit"})
		}
		next := -1
		for ip := range cb.ins {
			ci := &cb.ins[ip]
			fr.ip = ip
			switch in := ci.in.(type) {
			case *ssa.If:
				if w.truth(fr.get(&ci.ops[0])) {
					next = int(cb.succs[0])
				} else {
					next = int(cb.succs[1])
				}
			case *ssa.Jump:
				next = int(cb.succs[0])
			case *ssa.Return:
				w.curFrame = saved
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return fr.get(&ci.ops[0])
				}
				r := make(Tuple, len(ci.ops))
				for i := range ci.ops {
					r[i] = fr.get(&ci.ops[i])
				}
				return r
			case *ssa.RunDefers:
				w.runDefers(fr)
				w.curFrame = fr
				if fr.panic != nil {
					panic(fr.panic)
				}
			case *ssa.Panic:
				panic(&targetPanic{v: fr.get(&ci.ops[0]), at: w.where(fr)})
			case *ssa.Store:
				p := fr.get(&ci.ops[0])
				v := fr.get(&ci.ops[1])
				switch p := p.(type) {
				case *Value:
					w.store(p, v)
				case *SymPtr:
					i := w.concretize(p.idx)
					w.store(&p.a[i], v)
				default:
					panic(unsupported(fmt.Sprintf("store through %T", p)))
				}
			case *ssa.MapUpdate:
				m, _ := fr.get(&ci.ops[0]).(*Map)
				if m == nil {
					if _, ok := fr.get(&ci.ops[0]).(*Map); !ok {
						panic(unsupported("map update of non-map"))
					}
					w.rtPanicPlain("assignment to entry in nil map")
				}
				w.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
			case *ssa.Defer:
				fv, args := w.prepCall(fr, ci)
				fr.defers = append(fr.defers, deferred{fv, args, ci})
			case *ssa.Go:
				fv, args := w.prepCall(fr, ci)
				if w.initMode != nil {
					break
				}
				if w.syncGo {
					w.callValue(fr, fv, args)
				} else {
					panic(unsupported("goroutine"))
				}
			case *ssa.Send:
				w.chanSend(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			default:
				if w.initMode != nil && code.isInit {
					fr.regs[ci.dst] = w.tryEval(fr, ci, in)
				} else {
					fr.regs[ci.dst] = w.eval(fr, ci, in)
				}
			}
		}
		prev = fr.curBlk
		if next < 0 {
			panic("block without terminator in " + code.name)
		}
		fr.curBlk = next
		_ = prog
	}
}

func (w *Worker) rtPanicPlain(msg string) {
	var iv Value = Iface{T: types.Typ[types.String], V: msg}
	if t := w.prog.rtErrType; t != nil {
		iv = Iface{T: t, V: msg}
	}
	panic(&targetPanic{v: iv, at: w.where(w.curFrame)})
}

// tryEval evaluates an instruction of a package initialiser; what cannot be evaluated becomes Poison.
func (w *Worker) tryEval(fr *frame, ci *cinstr, in ssa.Instruction) (v Value) {
	depth := w.depth
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *unsupportedErr:
				v = Poison{r.msg}
				w.prog.note("init value poisoned: " + fr.code.name + ": " + r.msg)
			case *targetPanic:
				v = Poison{"panic in init: " + panicText(r)}
				w.prog.note("init value poisoned: " + fr.code.name + ": " + panicText(r))
			default:
				panic(r)
			}
			w.depth = depth
			w.curFrame = fr
			if val, ok := in.(ssa.Value); ok {
				if tu, ok := val.Type().(*types.Tuple); ok && tu.Len() > 1 {
					t := make(Tuple, tu.Len())
					for i := range t {
						t[i] = v
					}
					v = t
				}
			}
		}
	}()
	return w.eval(fr, ci, in)
}

func (w *Worker) prepCall(fr *frame, ci *cinstr) (Value, []Value) {
	args := make([]Value, 0, len(ci.ops))
	var fv Value
	switch {
	case ci.site.method != nil:
		recv := fr.get(&ci.ops[0])
		fn, r := w.lookupMethod(fr, recv, ci.site.method)
		fv = &Closure{fn: fn}
		args = append(args, r)
	case ci.site.fn != nil:
		fv = &Closure{fn: ci.site.fn}
	case ci.site.bi != nil:
	default:
		fv = fr.get(&ci.ops[0])
	}
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, fr.get(&ci.ops[i]))
	}
	return fv, args
}

func (w *Worker) lookupMethod(fr *frame, recv Value, m *types.Func) (*ssa.Function, Value) {
	iv, ok := recv.(Iface)
	if !ok {
		if p, ok := recv.(Poison); ok {
			panic(unsupported("method call on poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("invoke %s on %T", m.Name(), recv)))
	}
	if iv.T == nil {
		w.nilDeref()
	}
	fn := w.prog.method(iv.T, m)
	if fn == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %s", m.Name(), iv.T)))
	}
	return fn, iv.V
}

func (w *Worker) call(fr *frame, ci *cinstr) Value {
	s := ci.site
	switch {
	case s.fn != nil:
		if s.code == nil {
			s.code = w.prog.code(s.fn)
		}
		args := make([]Value, len(ci.ops)-1)
		for i := range args {
			args[i] = fr.get(&ci.ops[i+1])
		}
		r := w.callCode(fr, s.code, args, nil)
		w.curFrame = fr
		return r
	case s.bi != nil:
		args := make([]Value, len(ci.ops)-1)
		for i := range args {
			args[i] = fr.get(&ci.ops[i+1])
		}
		return w.builtin(fr, ci, s.bi, args)
	}
	fv, args := w.prepCall(fr, ci)
	r := w.callValue(fr, fv, args)
	w.curFrame = fr
	return r
}

func (w *Worker) eval(fr *frame, ci *cinstr, in ssa.Instruction) Value {
	switch in := in.(type) {
	case *ssa.Call:
		return w.call(fr, ci)
	case *ssa.BinOp:
		return w.binop(in.Op, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.X.Type(), in.Y.Type(), ci.ii, ci.isInt)
	case *ssa.UnOp:
		return w.unop(fr, ci, in)
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		pv, ok := p.(*Value)
		if !ok {
			if po, ok := p.(Poison); ok {
				panic(unsupported("field of poison: " + po.why))
			}
			if sp, ok := p.(*SymPtr); ok {
				i := w.concretize(sp.idx)
				pv = &sp.a[i]
			} else {
				panic(unsupported(fmt.Sprintf("field address through %T", p)))
			}
		}
		if pv == nil {
			w.nilDeref()
		}
		s, ok := (*pv).(Struct)
		if !ok {
			if po, ok := (*pv).(Poison); ok {
				panic(unsupported("field of poison: " + po.why))
			}
			panic(unsupported(fmt.Sprintf("field address of %T (%s)", *pv, in.X.Type())))
		}
		return &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", fr.get(&ci.ops[0]))))
		}
		return s[in.Field]
	case *ssa.IndexAddr:
		return w.indexAddr(fr, ci, in)
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		iv := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case Array:
			iv = w.boundIdx(iv, len(x), in.Index.Type())
			if t, ok := iv.(*Term); ok {
				ii, _ := basicInt(in.Type())
				return w.loadSym(&SymPtr{a: w.symElems(x, ii.w), idx: t})
			}
			return x[iv.(uint64)]
		case string, *SStr:
			iv = w.boundIdx(iv, strLen(x), in.Index.Type())
			if t, ok := iv.(*Term); ok {
				return w.loadSymByte(strBytes(x), t)
			}
			return strByte(x, int(iv.(uint64)))
		}
		panic(unsupported(fmt.Sprintf("index of %T", x)))
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch m := x.(type) {
		case *Map:
			var v Value
			e := w.mapGet(m, k)
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				return Tuple{v, e != nil}
			}
			return v
		case string, *SStr:
			iv := w.boundIdx(k, strLen(x), in.Index.Type())
			if t, ok := iv.(*Term); ok {
				return w.loadSymByte(strBytes(x), t)
			}
			return strByte(x, int(iv.(uint64)))
		}
		if p, ok := x.(Poison); ok {
			panic(unsupported("lookup in poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("lookup in %T", x)))
	case *ssa.Slice:
		return w.slice(fr, ci, in)
	case *ssa.MakeInterface:
		return Iface{T: in.X.Type(), V: fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		return fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		return fr.get(&ci.ops[0])
	case *ssa.Convert:
		return w.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return w.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		return w.typeAssert(fr, ci, in)
	case *ssa.Extract:
		t := fr.get(&ci.ops[0])
		if tu, ok := t.(Tuple); ok {
			return tu[in.Index]
		}
		if p, ok := t.(Poison); ok {
			return p
		}
		panic(unsupported(fmt.Sprintf("extract from %T", t)))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops))
		for i := range ci.ops {
			env[i] = fr.get(&ci.ops[i])
		}
		return &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		return &Map{idx: map[interface{}]*ment{}}
	case *ssa.MakeSlice:
		n := w.cint(fr.get(&ci.ops[0]))
		c := w.cint(fr.get(&ci.ops[1]))
		if n < 0 || n > 1<<24 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			w.rtPanic("makeslice: cap out of range")
		}
		s := make([]Value, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		fillZero(s, et)
		return s[:n]
	case *ssa.MakeChan:
		return &Chan{cap: w.cint(fr.get(&ci.ops[0]))}
	case *ssa.Range:
		return w.rangeIter(fr, fr.get(&ci.ops[0]))
	case *ssa.Next:
		return fr.get(&ci.ops[0]).(iter).next(w, fr)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).([]Value)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		p := new(Value)
		*p = Array(s[:at.Len():at.Len()])
		return p
	case *ssa.Select:
		return w.selectChan(fr, ci, in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T", in)))
}

func fillZero(s []Value, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (w *Worker) loadSymByte(b []Value, idx *Term) Value {
	tb := w.tb
	r := w.toTerm(b[0], 8)
	for i := 1; i < len(b); i++ {
		r = tb.Ite(tb.Eq(idx, tb.C(uint64(i), idx.w)), w.toTerm(b[i], 8), r)
	}
	return fromTerm(r)
}

// boundIdx checks 0 <= iv < n, panicking in the target otherwise.
func (w *Worker) boundIdx(iv Value, n int, t types.Type) Value {
	switch i := iv.(type) {
	case uint64:
		ii, _ := basicInt(t)
		if ii.signed {
			s := sext(i, ii.w)
			if s < 0 || s >= int64(n) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", s, n))
			}
		} else if i >= uint64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	case *Term:
		// negative values are huge unsigned ones
		if bitsLen(uint64(n)) <= int(i.w) && uint64(n) <= mask(i.w) {
			if !w.truth(fromTerm(w.tb.Bin(OULt, i, w.tb.C(uint64(n), i.w)))) {
				w.rtPanic("index out of range [symbolic]")
			}
		}
		return i
	}
	panic(unsupported(fmt.Sprintf("index %T", iv)))
}

func (w *Worker) indexAddr(fr *frame, ci *cinstr, in *ssa.IndexAddr) Value {
	x := fr.get(&ci.ops[0])
	iv := fr.get(&ci.ops[1])
	var a []Value
	switch x := x.(type) {
	case []Value:
		a = x
	case *Value:
		if x == nil {
			w.nilDeref()
		}
		arr, ok := (*x).(Array)
		if !ok {
			panic(unsupported(fmt.Sprintf("index address of %T", *x)))
		}
		a = arr
	case Poison:
		panic(unsupported("index of poison: " + x.why))
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	iv = w.boundIdx(iv, len(a), in.Index.Type())
	if t, ok := iv.(*Term); ok {
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if ii, ok := basicInt(et); ok || isBool(et) {
			return &SymPtr{a: w.symElems(a, ii.w), idx: t}
		}
		return &a[w.concretize(t)]
	}
	return &a[iv.(uint64)]
}

// symElems: a itself when widths are evident; constants are width-tagged so loads build right-sized terms.
func (w *Worker) symElems(a []Value, wd uint8) []Value {
	if wd == 0 || wd == 64 {
		return a
	}
	for _, x := range a {
		if _, ok := x.(*Term); ok {
			return a
		}
	}
	r := make([]Value, len(a))
	for i, x := range a {
		if c, ok := x.(uint64); ok {
			r[i] = w.tb.C(c, wd)
		} else {
			return a
		}
	}
	return r
}

func (w *Worker) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := fr.get(&ci.ops[0])
	get := func(i, def int) int {
		if ci.ops[i].k == okNone {
			return def
		}
		return w.cint(fr.get(&ci.ops[i]))
	}
	switch s := x.(type) {
	case string, *SStr:
		n := strLen(s)
		lo, hi := get(1, 0), get(2, n)
		if hi < 0 || hi > n {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(s, lo, hi)
	case []Value:
		lo, hi, mx := get(1, 0), get(2, len(s)), get(3, cap(s))
		if mx < 0 || mx > cap(s) || hi < 0 || hi > mx {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cap(s)))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *Value:
		if s == nil {
			w.nilDeref()
		}
		a, ok := (*s).(Array)
		if !ok {
			panic(unsupported(fmt.Sprintf("slice of %T", *s)))
		}
		lo, hi, mx := get(1, 0), get(2, len(a)), get(3, len(a))
		if mx < 0 || mx > len(a) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range")
		}
		return []Value(a)[lo:hi:mx]
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("slice of poison: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (w *Worker) typeAssert(fr *frame, ci *cinstr, in *ssa.TypeAssert) Value {
	x := fr.get(&ci.ops[0])
	iv, ok := x.(Iface)
	if !ok {
		if p, ok := x.(Poison); ok {
			panic(unsupported("type assertion on poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("type assertion on %T", x)))
	}
	good := false
	var v Value
	if iv.T != nil {
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			good = w.prog.implements(iv.T, it)
			v = iv
		} else {
			good = types.Identical(iv.T, in.AssertedType)
			v = iv.V
		}
	}
	if !good {
		if in.CommaOk {
			return Tuple{zero(in.AssertedType), false}
		}
		if iv.T == nil {
			w.rtPanicPlain(fmt.Sprintf("interface conversion: interface is nil, not %s", in.AssertedType))
		}
		w.rtPanicPlain(fmt.Sprintf("interface conversion: interface is %s, not %s", iv.T, in.AssertedType))
	}
	if in.CommaOk {
		return Tuple{v, true}
	}
	return v
}

func (w *Worker) unop(fr *frame, ci *cinstr, in *ssa.UnOp) Value {
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		return w.load(x)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return fromTerm(w.tb.Not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			return -v & mask(ci.ii.w)
		case float64:
			return -v
		case *Term:
			if v.w != WF64 {
				return fromTerm(w.tb.Un(ONeg, v))
			}
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			return ^v & mask(ci.ii.w)
		case *Term:
			return fromTerm(w.tb.Un(OBNot, v))
		}
	case token.ARROW:
		return w.chanRecv(x, in.CommaOk, in.X.Type())
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("operator on poison: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("unary %s on %T", in.Op, x)))
}
