package main

// Functions the interpreter does not enter: run-time support, the environment, and the harness primitives.

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"strings"
)

var intrinsics = map[string]intrinsic{}

func noop(w *Worker, fr *frame, a []Value) Value { return nil }
func constant_(v Value) intrinsic {
	return func(w *Worker, fr *frame, a []Value) Value { return v }
}

func (w *Worker) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer expected, got %T", v)))
	}
	if p == nil {
		w.nilDeref()
	}
	return p
}

func bytesOf(v Value) []Value {
	switch x := v.(type) {
	case []Value:
		return x
	case string, *SStr:
		return strBytes(x)
	}
	panic(unsupported(fmt.Sprintf("bytes expected, got %T", v)))
}

func (w *Worker) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if w.truth(byteEq(w, x, c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (w *Worker) seqEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, ok1 := a[i].(uint64)
		q, ok2 := b[i].(uint64)
		if ok1 && ok2 && p != q {
			return false
		}
	}
	var r Value = true
	for i := range a {
		r = w.and(r, byteEq(w, a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) index(a, b []Value) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if w.truth(w.seqEq(a[i:i+len(b)], b)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (w *Worker) compare(a, b []Value) Value {
	for i := 0; i < len(a) && i < len(b); i++ {
		if w.truth(byteEq(w, a[i], b[i])) {
			continue
		}
		p, q := w.toTerm(a[i], 8), w.toTerm(b[i], 8)
		if w.truth(fromTerm(w.tb.Bin(OULt, p, q))) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	switch {
	case len(a) < len(b):
		return ^uint64(0)
	case len(a) > len(b):
		return uint64(1)
	}
	return uint64(0)
}

// exitPanic ends the process: no deferred call runs.
type exitPanic struct{ code int }

func init() {
	// ---- internal/bytealg and friends
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString strings.IndexByte_ bytes.IndexByte", func(w *Worker, fr *frame, a []Value) Value {
		return w.indexByte(bytesOf(a[0]), a[1])
	})
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString", func(w *Worker, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.truth(byteEq(w, b[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.Count internal/bytealg.CountString", func(w *Worker, fr *frame, a []Value) Value {
		n := 0
		for _, x := range bytesOf(a[0]) {
			if w.truth(byteEq(w, x, a[1])) {
				n++
			}
		}
		return uint64(n)
	})
	reg("internal/bytealg.Equal bytes.Equal", func(w *Worker, fr *frame, a []Value) Value {
		return w.seqEq(bytesOf(a[0]), bytesOf(a[1]))
	})
	reg("strings.Index bytes.Index internal/bytealg.Index internal/bytealg.IndexString internal/stringslite.Index", func(w *Worker, fr *frame, a []Value) Value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return uint64(strings.Index(x, y))
			}
		}
		return w.index(bytesOf(a[0]), bytesOf(a[1]))
	})
	reg("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare_", func(w *Worker, fr *frame, a []Value) Value {
		return w.compare(bytesOf(a[0]), bytesOf(a[1]))
	})
	reg("internal/bytealg.MakeNoZero", func(w *Worker, fr *frame, a []Value) Value {
		s := make([]Value, w.cint(a[0]))
		fillZero(s, types.Typ[types.Uint8])
		return s
	})
	reg("internal/abi.NoEscape internal/abi.Escape strings.noescape", func(w *Worker, fr *frame, a []Value) Value { return a[0] })
	reg("(*strings.Builder).copyCheck", noop)
	reg("internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange", noop)
	reg("internal/race.Errors", constant_(uint64(0)))

	// ---- sync, atomic
	reg("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait (*sync.Cond).Broadcast (*sync.Cond).Signal (*sync.Cond).Wait", noop)
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock (*sync.RWMutex).TryRLock", constant_(true))
	reg("(*sync.Pool).Put", noop)
	reg("(*sync.Pool).Get", func(w *Worker, fr *frame, a []Value) Value {
		s := (*w.ptr(a[0])).(Struct)
		f := s[len(s)-1]
		if c, ok := f.(*Closure); ok && c != nil {
			return w.callValue(fr, c, nil)
		}
		return Iface{}
	})
	at := func(suffixes, kind string, f intrinsic) {
		for _, s := range strings.Fields(suffixes) {
			intrinsics["sync/atomic."+kind+s] = f
			intrinsics["internal/runtime/atomic."+kind+s] = f
		}
	}
	all := "Int32 Int64 Uint32 Uint64 Uintptr Pointer"
	at(all, "Load", func(w *Worker, fr *frame, a []Value) Value { return *w.ptr(a[0]) })
	at(all, "Store", func(w *Worker, fr *frame, a []Value) Value { w.store(w.ptr(a[0]), a[1]); return nil })
	at(all, "Swap", func(w *Worker, fr *frame, a []Value) Value {
		p := w.ptr(a[0])
		o := *p
		w.store(p, a[1])
		return o
	})
	at(all, "CompareAndSwap", func(w *Worker, fr *frame, a []Value) Value {
		p := w.ptr(a[0])
		if w.truth(w.equal(*p, a[1])) {
			w.store(p, a[2])
			return true
		}
		return false
	})
	for _, s := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		wd := s.w
		add := func(w *Worker, fr *frame, a []Value) Value {
			p := w.ptr(a[0])
			x, ok1 := (*p).(uint64)
			y, ok2 := a[1].(uint64)
			var r Value
			if ok1 && ok2 {
				r = (x + y) & mask(wd)
			} else {
				r = fromTerm(w.tb.Bin(OAdd, w.toTerm(*p, wd), w.toTerm(a[1], wd)))
			}
			w.store(p, r)
			return r
		}
		intrinsics["sync/atomic.Add"+s.n] = add
	}
	reg("(*sync/atomic.Value).Load", func(w *Worker, fr *frame, a []Value) Value { return (*w.ptr(a[0])).(Struct)[0] })
	reg("(*sync/atomic.Value).Store", func(w *Worker, fr *frame, a []Value) Value {
		w.store(&(*w.ptr(a[0])).(Struct)[0], a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(w *Worker, fr *frame, a []Value) Value {
		p := &(*w.ptr(a[0])).(Struct)[0]
		o := *p
		w.store(p, a[1])
		return o
	})
	// sync.Map
	smap := func(w *Worker, v Value) *Map {
		p := w.ptr(v)
		m := w.syncMaps[p]
		if m == nil {
			m = &Map{idx: map[interface{}]*ment{}}
			w.syncMaps[p] = m
			if w.logging {
				w.logf(func() { delete(w.syncMaps, p) })
			}
		}
		return m
	}
	reg("(*sync.Map).Load", func(w *Worker, fr *frame, a []Value) Value {
		if e := w.mapGet(smap(w, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(w *Worker, fr *frame, a []Value) Value { w.mapSet(smap(w, a[0]), a[1], a[2]); return nil })
	reg("(*sync.Map).LoadOrStore", func(w *Worker, fr *frame, a []Value) Value {
		m := smap(w, a[0])
		if e := w.mapGet(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		w.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(w *Worker, fr *frame, a []Value) Value { w.mapDelete(smap(w, a[0]), a[1]); return nil })
	reg("(*sync.Map).Range", func(w *Worker, fr *frame, a []Value) Value {
		for _, e := range append([]*ment(nil), smap(w, a[0]).ents...) {
			if !e.dead && !w.truth(w.callValue(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- runtime
	reg("runtime.Callers", constant_(uint64(0)))
	reg("runtime.Caller", constant_(Tuple{uint64(0), "", uint64(0), false}))
	reg("runtime.SetFinalizer runtime.KeepAlive runtime.GC runtime.Gosched", noop)
	reg("runtime.GOMAXPROCS runtime.NumCPU", constant_(uint64(1)))
	reg("runtime.GOROOT", constant_("/usr/local/go"))
	reg("internal/godebug.New", func(w *Worker, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(w.prog.typ("internal/godebug", "Setting"))
		return p
	})
	reg("(*internal/godebug.Setting).Value (*internal/godebug.Setting).Name", constant_(""))
	reg("(*internal/godebug.Setting).IncNonDefault", noop)
	reg("crypto/rand.Read", func(w *Worker, fr *frame, a []Value) Value { panic(unsupported("randomness")) })

	// ---- time
	reg("time.now", func(w *Worker, fr *frame, a []Value) Value {
		w.nowMono += 1_000_000
		return Tuple{uint64(1700000000), uint64(w.nowMono % 1_000_000_000), w.nowMono}
	})
	reg("time.runtimeNano time.runtimeNow", func(w *Worker, fr *frame, a []Value) Value { w.nowMono += 1_000_000; return w.nowMono })
	reg("time.initLocal time.Sleep", noop)

	// ---- process environment
	reg("os.Getenv", func(w *Worker, fr *frame, a []Value) Value {
		if k, ok := a[0].(string); ok {
			if v, ok := w.env[k]; ok {
				return v
			}
		}
		return ""
	})
	reg("os.LookupEnv", func(w *Worker, fr *frame, a []Value) Value {
		if v, ok := w.env[a[0].(string)]; ok {
			return Tuple{v, true}
		}
		return Tuple{"", false}
	})
	reg("os.Setenv", func(w *Worker, fr *frame, a []Value) Value { w.env[a[0].(string)] = a[1]; return Iface{} })
	reg("os.Unsetenv", func(w *Worker, fr *frame, a []Value) Value { delete(w.env, a[0].(string)); return Iface{} })
	reg("os.Environ", func(w *Worker, fr *frame, a []Value) Value {
		var out []Value
		for _, k := range sortedKeys(w.env) {
			out = append(out, strConcat(k+"=", w.env[k]))
		}
		return out
	})
	reg("(*os.File).Write", func(w *Worker, fr *frame, a []Value) Value {
		if f := w.fs.file(a[0]); f != nil {
			return w.fsWrite(f, a[1].([]Value))
		}
		return Tuple{uint64(len(a[1].([]Value))), Iface{}}
	})
	reg("(*os.File).WriteString", func(w *Worker, fr *frame, a []Value) Value {
		if f := w.fs.file(a[0]); f != nil {
			return w.fsWrite(f, strBytes(a[1]))
		}
		return Tuple{uint64(strLen(a[1])), Iface{}}
	})
	reg("os.Exit", func(w *Worker, fr *frame, a []Value) Value {
		panic(exitPanic{w.cint(a[0])})
	})
	reg("maps.clone", func(w *Worker, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.V.(*Map)
		if m == nil {
			return i
		}
		c := &Map{idx: map[interface{}]*ment{}}
		for _, e := range m.ents {
			if !e.dead {
				w.mapSet(c, e.k, e.v)
			}
		}
		i.V = c
		return i
	})
	// goimports of generated code: the harnesses look only at what it keeps
	reg("golang.org/x/tools/imports.Process", func(w *Worker, fr *frame, a []Value) Value {
		return Tuple{a[1], Iface{}}
	})

	// ---- quick formatted output of concrete values
	reg("encoding/gob.Register", func(w *Worker, fr *frame, a []Value) Value { return nil })
	reg("(*github.com/valyala/gorpc.Client).Call", func(w *Worker, fr *frame, a []Value) Value {
		return w.callFn(fr, w.prog.fn(w.prog.module+"/"+svcPkg, "VFGoRPC"), a, nil)
	})
	reg("fmt.Println fmt.Print fmt.Printf", func(w *Worker, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} })
	reg("log.Println log.Printf log.Print", noop)

	// ---- harness primitives (package zzvf)
	z := func(name string, f intrinsic) { intrinsics["github.com/foomo/gotsrpc/v2/zzvf."+name] = f }
	z("Bool", func(w *Worker, fr *frame, a []Value) Value {
		v := w.newVar(0)
		w.inputs = append(w.inputs, inputRec{"bool", a[0].(string), v})
		return v
	})
	z("Byte", func(w *Worker, fr *frame, a []Value) Value {
		v := w.newVar(8)
		w.inputs = append(w.inputs, inputRec{"byte", a[0].(string), v})
		return v
	})
	mkInt := func(wd uint8) intrinsic {
		return func(w *Worker, fr *frame, a []Value) Value {
			v := w.newVar(wd)
			w.inputs = append(w.inputs, inputRec{"int", a[0].(string), v})
			return v
		}
	}
	z("Int", mkInt(64))
	z("Int64", mkInt(64))
	z("Uint64", mkInt(64))
	z("Int32", mkInt(32))
	z("Uint32", mkInt(32))
	z("Int16", mkInt(16))
	z("Uint16", mkInt(16))
	z("Int8", mkInt(8))
	z("Uint8", mkInt(8))
	z("IntRange", func(w *Worker, fr *frame, a []Value) Value {
		lo, hi := a[1].(uint64), a[2].(uint64)
		if hi < 256 && lo <= hi {
			v := w.newVar(8)
			z := w.tb.ZExt(v, 64)
			w.inputs = append(w.inputs, inputRec{"int", a[0].(string), z})
			w.assume(fromTerm(w.tb.And(w.tb.Bin(OULe, w.tb.C(lo, 8), v), w.tb.Bin(OULe, v, w.tb.C(hi, 8)))))
			return fromTerm(z)
		}
		if hi < 65536 && lo <= hi {
			v := w.newVar(16)
			z := w.tb.ZExt(v, 64)
			w.inputs = append(w.inputs, inputRec{"int", a[0].(string), z})
			w.assume(fromTerm(w.tb.And(w.tb.Bin(OULe, w.tb.C(lo, 16), v), w.tb.Bin(OULe, v, w.tb.C(hi, 16)))))
			return fromTerm(z)
		}
		v := w.newVar(64)
		w.inputs = append(w.inputs, inputRec{"int", a[0].(string), v})
		w.assume(fromTerm(w.tb.And(w.tb.Bin(OSLe, w.tb.C(lo, 64), v), w.tb.Bin(OSLe, v, w.tb.C(hi, 64)))))
		return v
	})
	z("Choose", func(w *Worker, fr *frame, a []Value) Value {
		n := a[1].(uint64)
		if n <= 1 {
			w.inputs = append(w.inputs, inputRec{"int", a[0].(string), uint64(0)})
			return uint64(0)
		}
		if n > 256 {
			panic(unsupported("Choose of more than 256"))
		}
		v := w.newVar(8)
		w.inputs = append(w.inputs, inputRec{"int", a[0].(string), w.tb.ZExt(v, 64)})
		w.assume(fromTerm(w.tb.Bin(OULt, v, w.tb.C(n, 8))))
		if n == 256 {
			panic(unsupported("Choose of 256"))
		}
		return fromTerm(w.tb.ZExt(v, 64))
	})
	mkStrN := func(w *Worker, label string, n int, alpha string) Value {
		b := make([]Value, n)
		for i := range b {
			t := w.newVar(8)
			b[i] = t
			if alpha != "" {
				c := w.tb.F
				for j := 0; j < len(alpha); j++ {
					c = w.tb.Or(c, w.tb.Eq(t, w.tb.C(uint64(alpha[j]), 8)))
				}
				w.assume(fromTerm(c))
			}
		}
		var s Value = ""
		if n > 0 {
			s = &SStr{b: b}
		}
		w.inputs = append(w.inputs, inputRec{"str", label, s})
		return s
	}
	z("Str", func(w *Worker, fr *frame, a []Value) Value { return mkStrN(w, a[0].(string), w.cint(a[1]), "") })
	z("StrOf", func(w *Worker, fr *frame, a []Value) Value {
		return mkStrN(w, a[0].(string), w.cint(a[1]), a[2].(string))
	})
	z("Assume", func(w *Worker, fr *frame, a []Value) Value { w.assume(a[0]); return nil })
	z("Assert", func(w *Worker, fr *frame, a []Value) Value { w.assert(a[0], a[1].(string)); return nil })
	z("AssertKnown", func(w *Worker, fr *frame, a []Value) Value {
		// violations inside the region of a known finding are reported under its name
		msg := a[3].(string)
		if w.truth(a[1]) {
			w.knownID = a[2].(string)
			w.assert(a[0], msg)
			w.knownID = ""
		} else {
			w.assert(a[0], msg)
		}
		return nil
	})
	z("Fail", func(w *Worker, fr *frame, a []Value) Value { w.assert(false, a[0].(string)); return nil })
	z("Reach", func(w *Worker, fr *frame, a []Value) Value { w.reach[a[0].(string)] = true; return nil })
	z("Sym", constant_(true))
	z("MapOrder", func(w *Worker, fr *frame, a []Value) Value { w.mapOrder = a[0].(bool); return nil })
	z("MustTerminate", func(w *Worker, fr *frame, a []Value) Value { return nil })
	z("SyncGo", func(w *Worker, fr *frame, a []Value) Value { w.syncGo = a[0].(bool); return nil })
	z("Steps", func(w *Worker, fr *frame, a []Value) Value { w.maxSteps = int(a[0].(uint64)); return nil })
	z("ObsStr", func(w *Worker, fr *frame, a []Value) Value {
		w.obs = append(w.obs, obsRec{a[0].(string), a[1]})
		return nil
	})
	z("ObsInt", func(w *Worker, fr *frame, a []Value) Value {
		w.obs = append(w.obs, obsRec{a[0].(string), a[1]})
		return nil
	})
	z("ObsBool", func(w *Worker, fr *frame, a []Value) Value {
		w.obs = append(w.obs, obsRec{a[0].(string), a[1]})
		return nil
	})
	z("Bound", func(w *Worker, fr *frame, a []Value) Value {
		v := a[1].(uint64)
		if w.prog.tier == "thorough" {
			v = a[2].(uint64)
		}
		w.st.Bounds[a[0].(string)] = int64(v)
		return v
	})
	z("Implies", func(w *Worker, fr *frame, a []Value) Value { return w.or(w.not(a[0]), a[1]) })
	z("Touched", func(w *Worker, fr *frame, a []Value) Value {
		n := w.fs.get(w.pathArg(a[0]))
		return n != nil && n.ver > 0
	})
	z("Exits", func(w *Worker, fr *frame, a []Value) (code Value) {
		depth, cur := w.depth, w.curFrame
		defer func() {
			if r := recover(); r != nil {
				x, ok := r.(exitPanic)
				if !ok {
					panic(r)
				}
				w.depth, w.curFrame = depth, cur
				code = uint64(int64(x.code))
			}
		}()
		w.callValue(fr, a[0], nil)
		return uint64(math.MaxUint64)
	})
	z("TempDir", constant_("/vfs"))
	z("End", func(w *Worker, fr *frame, a []Value) Value { panic(pathEnd{"assume"}) })
	z("Concrete", func(w *Worker, fr *frame, a []Value) Value { return uint64(w.cint(a[0])) })
	// And/Or without forking
	z("And", func(w *Worker, fr *frame, a []Value) Value {
		var r Value = true
		for _, x := range a[0].([]Value) {
			r = w.and(r, x)
		}
		return r
	})
	z("Or", func(w *Worker, fr *frame, a []Value) Value {
		var r Value = false
		for _, x := range a[0].([]Value) {
			r = w.or(r, x)
		}
		return r
	})
	z("WriteFile", func(w *Worker, fr *frame, a []Value) Value { w.fs.put(w.pathArg(a[0]), strBytes(a[1])); return nil })
	z("MkdirAll", func(w *Worker, fr *frame, a []Value) Value { w.fs.mkdirAll(w.pathArg(a[0])); return nil })
	z("ReadFile", func(w *Worker, fr *frame, a []Value) Value {
		n := w.fs.get(w.pathArg(a[0]))
		if n == nil || n.dir {
			return Tuple{"", false}
		}
		return Tuple{mkStr(n.data), true}
	})
	z("FSFail", func(w *Worker, fr *frame, a []Value) Value {
		op, p := a[0].(string), w.fs.abs(w.pathArg(a[1]))
		if op == "mkdir" {
			op, p = "ro", path.Dir(p)
		}
		w.fs.fail[op+":"+p] = true
		return nil
	})
	z("Chdir", func(w *Worker, fr *frame, a []Value) Value { w.fs.cwd = w.fs.abs(w.pathArg(a[0])); return nil })
}
