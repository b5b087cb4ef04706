package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) binop(op token.Token, x, y Value, tx, ty types.Type, ii intInfo, isInt bool) Value {
	switch op {
	case token.EQL:
		return w.equal(x, y)
	case token.NEQ:
		return w.not(w.equal(x, y))
	}
	if isInt {
		if op == token.SHL || op == token.SHR {
			return w.shift(op, x, y, ty, ii)
		}
		return w.intop(op, x, y, ii)
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("operator on poison: " + p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsupported("operator on poison: " + p.why))
	}
	switch a := x.(type) {
	case string, *SStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	case float64:
		if b, ok := y.(float64); ok {
			r := Value(nil)
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
			if f, ok := r.(float64); ok {
				if bt, ok := tx.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			}
		}
		return w.floatop(op, x, y)
	case *Term:
		if a.w == WF64 {
			return w.floatop(op, x, y)
		}
	case bool:
		// && and || are control flow in SSA; & and | do not apply to bool
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T, %T", op, x, y)))
}

func (w *Worker) floatop(op token.Token, x, y Value) Value {
	a, b := w.toTerm(x, WF64), w.toTerm(y, WF64)
	tb := w.tb
	switch op {
	case token.LSS:
		return fromTerm(tb.FLt(a, b))
	case token.GTR:
		return fromTerm(tb.FLt(b, a))
	case token.LEQ:
		return fromTerm(tb.Or(tb.FLt(a, b), tb.Eq(a, b)))
	case token.GEQ:
		return fromTerm(tb.Or(tb.FLt(b, a), tb.Eq(a, b)))
	case token.ADD:
		return fromTerm(tb.F2(OFAdd, a, b))
	case token.SUB:
		return fromTerm(tb.F2(OFSub, a, b))
	case token.MUL:
		return fromTerm(tb.F2(OFMul, a, b))
	case token.QUO:
		return fromTerm(tb.F2(OFDiv, a, b))
	}
	panic(unsupported("float operator " + op.String()))
}

func (w *Worker) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return fromTerm(w.tb.Not(v))
	}
	panic(unsupported(fmt.Sprintf("not %T", v)))
}

func (w *Worker) and(a, b Value) Value {
	x, ok1 := a.(bool)
	y, ok2 := b.(bool)
	if ok1 && ok2 {
		return x && y
	}
	if ok1 && !x || ok2 && !y {
		return false
	}
	return fromTerm(w.tb.And(w.toTerm(a, 0), w.toTerm(b, 0)))
}

func (w *Worker) or(a, b Value) Value {
	return w.not(w.and(w.not(a), w.not(b)))
}

var intOps = map[token.Token][2]Op{ // unsigned, signed
	token.ADD: {OAdd, OAdd}, token.SUB: {OSub, OSub}, token.MUL: {OMul, OMul},
	token.QUO: {OUDiv, OSDiv}, token.REM: {OURem, OSRem},
	token.AND: {OBAnd, OBAnd}, token.OR: {OBOr, OBOr}, token.XOR: {OBXor, OBXor},
	token.LSS: {OULt, OSLt}, token.LEQ: {OULe, OSLe},
}

func (w *Worker) intop(op token.Token, x, y Value, ii intInfo) Value {
	switch op {
	case token.GTR:
		return w.intop(token.LSS, y, x, ii)
	case token.GEQ:
		return w.intop(token.LEQ, y, x, ii)
	case token.AND_NOT:
		switch v := y.(type) {
		case uint64:
			y = ^v & mask(ii.w)
		case *Term:
			y = fromTerm(w.tb.Un(OBNot, v))
		}
		op = token.AND
	}
	s := 0
	if ii.signed {
		s = 1
	}
	o, ok := intOps[op]
	if !ok {
		panic(unsupported("integer operator " + op.String()))
	}
	if op == token.QUO || op == token.REM {
		z := w.equal(y, uint64(0))
		if w.truth(z) {
			w.rtPanic("integer divide by zero")
		}
	}
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		r, _ := foldBin(o[s], ii.w, a, b)
		if op == token.LSS || op == token.LEQ {
			return r == 1
		}
		return r
	}
	return fromTerm(w.tb.Bin(o[s], w.toTerm(x, ii.w), w.toTerm(y, ii.w)))
}

func (w *Worker) shift(op token.Token, x, y Value, ty types.Type, ii intInfo) Value {
	yi, _ := basicInt(ty)
	o := OShl
	if op == token.SHR {
		o = OLShr
		if ii.signed {
			o = OAShr
		}
	}
	if b, ok := y.(uint64); ok {
		if yi.signed && sext(b, yi.w) < 0 {
			w.rtPanic("negative shift amount")
		}
		if b > 64 {
			b = 64
		}
		if a, ok := x.(uint64); ok {
			r, _ := foldBin(o, ii.w, a, b)
			return r
		}
		if b >= uint64(ii.w) {
			if o != OAShr {
				return uint64(0)
			}
			b = uint64(ii.w) - 1
		}
		return fromTerm(w.tb.Bin(o, w.toTerm(x, ii.w), w.tb.C(b, ii.w)))
	}
	t := y.(*Term)
	if yi.signed && w.truth(fromTerm(w.tb.Bin(OSLt, t, w.tb.C(0, t.w)))) {
		w.rtPanic("negative shift amount")
	}
	xt := w.toTerm(x, ii.w)
	if t.w < ii.w {
		return fromTerm(w.tb.Bin(o, xt, w.tb.ZExt(t, ii.w)))
	}
	if t.w == ii.w {
		return fromTerm(w.tb.Bin(o, xt, t))
	}
	big := w.tb.Bin(OULe, w.tb.C(uint64(ii.w), t.w), t)
	amt := w.tb.Ite(big, w.tb.C(uint64(ii.w), ii.w), w.tb.Trunc(t, ii.w))
	return fromTerm(w.tb.Bin(o, xt, amt))
}

func byteEq(w *Worker, a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	if a == b {
		return true
	}
	return fromTerm(w.tb.Eq(w.toTerm(a, 8), w.toTerm(b, 8)))
}

func (w *Worker) strEq(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	n := strLen(x)
	if n != strLen(y) {
		return false
	}
	if x == y {
		return true
	}
	// concrete mismatches first
	for i := 0; i < n; i++ {
		p, ok1 := strByte(x, i).(uint64)
		q, ok2 := strByte(y, i).(uint64)
		if ok1 && ok2 && p != q {
			return false
		}
	}
	var r Value = true
	for i := 0; i < n; i++ {
		r = w.and(r, byteEq(w, strByte(x, i), strByte(y, i)))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) strLess(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a < b
	}
	n, m := strLen(x), strLen(y)
	k := n
	if m < k {
		k = m
	}
	tb := w.tb
	r := tb.B(n < m)
	for i := k - 1; i >= 0; i-- {
		p, q := w.toTerm(strByte(x, i), 8), w.toTerm(strByte(y, i), 8)
		r = tb.Ite(tb.Eq(p, q), r, tb.Bin(OULt, p, q))
	}
	return fromTerm(r)
}

// equal is Go's ==, as bool or *Term.
func (w *Worker) equal(x, y Value) Value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return fromTerm(w.tb.Eq(b, w.tb.C(a, b.w)))
		case *Opq:
			panic(unsupported("inspecting a byte of an encoded message"))
		}
	case *Opq:
		if x == y {
			return true
		}
		panic(unsupported("inspecting a byte of an encoded message"))
	case *Term:
		switch b := y.(type) {
		case *Term:
			return fromTerm(w.tb.Eq(a, b))
		case uint64:
			return fromTerm(w.tb.Eq(a, w.tb.C(b, a.w)))
		case bool:
			return fromTerm(w.tb.Eq(a, w.tb.B(b)))
		case float64:
			return fromTerm(w.tb.Eq(a, w.toTerm(b, WF64)))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return fromTerm(w.tb.Eq(b, w.tb.B(a)))
		}
	case float64:
		switch b := y.(type) {
		case float64:
			return a == b
		case *Term:
			return fromTerm(w.tb.Eq(b, w.toTerm(a, WF64)))
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			return a == b
		}
	case string, *SStr:
		switch y.(type) {
		case string, *SStr:
			return w.strEq(x, y)
		}
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case *SymPtr, *DataPtr:
			if a == nil {
				return false
			}
		}
	case *SymPtr, *DataPtr:
		if b, ok := y.(*Value); ok && b == nil {
			return false
		}
	case *Map:
		if b, ok := y.(*Map); ok {
			return a == b
		}
	case *Chan:
		if b, ok := y.(*Chan); ok {
			return a == b
		}
	case *Closure:
		if b, ok := y.(*Closure); ok {
			return a == nil && b == nil || a == b
		}
	case []Value:
		if b, ok := y.([]Value); ok {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		}
	case Struct:
		if b, ok := y.(Struct); ok && len(a) == len(b) {
			return w.aggEq(a, b)
		}
	case Array:
		if b, ok := y.(Array); ok && len(a) == len(b) {
			return w.aggEq(a, b)
		}
	case RType:
		if b, ok := y.(RType); ok {
			return types.Identical(a.t, b.t)
		}
		return false
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			w.rtPanic("comparing uncomparable type " + a.T.String())
		}
		return w.equal(a.V, b.V)
	case Poison:
		panic(unsupported("comparison of poison: " + a.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsupported("comparison of poison: " + p.why))
	}
	if _, ok := y.(RType); ok {
		return false
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", x, y)))
}

func (w *Worker) aggEq(a, b []Value) Value {
	var r Value = true
	for i := range a {
		r = w.and(r, w.equal(a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

// ---- conversions

func (w *Worker) convert(v Value, from, to types.Type) Value {
	if p, ok := v.(Poison); ok {
		return p
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if tb.Info()&types.IsString != 0 {
			switch fu := fu.(type) {
			case *types.Basic:
				if fu.Info()&types.IsString != 0 {
					return v
				}
				fi, _ := basicInt(fu)
				return w.runeToString(v, fi)
			case *types.Slice:
				s, ok := v.([]Value)
				if !ok {
					break
				}
				if ei, _ := basicInt(fu.Elem()); ei.w == 8 {
					return mkStr(s)
				}
				var out Value = ""
				for _, r := range s {
					out = strConcat(out, w.runeToString(r, intInfo{32, true}))
				}
				return out
			}
		}
	}
	if fb, ok := fu.(*types.Basic); ok {
		if fb.Kind() == types.UnsafePointer {
			if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
				panic(unsupported("pointer to uintptr"))
			}
			return v
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if ei, _ := basicInt(ts.Elem()); ei.w == 8 {
				b := strBytes(v)
				r := make([]Value, len(b))
				copy(r, b)
				return r
			}
			var out []Value
			it := &strIter{s: v}
			for {
				t := it.next(w, nil).(Tuple)
				if t[0] == false {
					break
				}
				out = append(out, t[2])
			}
			if out == nil {
				out = []Value{}
			}
			return out
		}
		ti, tInt := basicInt(tu)
		fi, fInt := basicInt(fb)
		switch {
		case fInt && tInt:
			switch x := v.(type) {
			case uint64:
				if fi.signed {
					return uint64(sext(x, fi.w)) & mask(ti.w)
				}
				return x & mask(ti.w)
			case *Term:
				switch {
				case ti.w == fi.w:
					return x
				case ti.w < fi.w:
					return fromTerm(w.tb.Trunc(x, ti.w))
				case fi.signed:
					return fromTerm(w.tb.SExt(x, ti.w))
				default:
					return fromTerm(w.tb.ZExt(x, ti.w))
				}
			case *Opq:
				panic(unsupported("inspecting a byte of an encoded message"))
			}
		case fInt && isFloat(tu):
			switch x := v.(type) {
			case uint64:
				f := float64(x)
				if fi.signed {
					f = float64(sext(x, fi.w))
				}
				if tu.(*types.Basic).Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				return fromTerm(w.tb.ToF(x, fi.signed))
			}
		case isFloat(fu) && tInt:
			if f, ok := v.(float64); ok {
				if ti.signed {
					return uint64(int64(f)) & mask(ti.w)
				}
				return uint64(f) & mask(ti.w)
			}
		case isFloat(fu) && isFloat(tu):
			if f, ok := v.(float64); ok {
				if tu.(*types.Basic).Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			}
			return v
		case fb.Info()&types.IsComplex != 0:
			return v
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Struct, *types.Chan, *types.Interface, *types.Array:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s of %T", from, to, v)))
}

func (w *Worker) runeToString(v Value, fi intInfo) Value {
	switch x := v.(type) {
	case uint64:
		s := int64(x)
		if fi.signed {
			s = sext(x, fi.w)
		}
		if s < 0 || s > 0x10FFFF {
			return "\uFFFD"
		}
		return string(rune(s))
	case *Term:
		// one ASCII byte?
		if w.truth(fromTerm(w.tb.Bin(OULt, x, w.tb.C(0x80, x.w)))) {
			return mkStr([]Value{fromTerm(w.tb.Trunc(x, 8))})
		}
		r := Value(x)
		if x.w < 32 {
			r = fromTerm(w.tb.ZExt(x, 32))
		} else if x.w > 32 {
			if w.truth(fromTerm(w.tb.Bin(OULt, w.tb.C(0x10FFFF, x.w), x))) {
				return "\uFFFD"
			}
			r = fromTerm(w.tb.Trunc(x, 32))
		}
		fn := w.prog.fn("unicode/utf8", "AppendRune")
		b := w.callFn(w.curFrame, fn, []Value{[]Value(nil), r}, nil).([]Value)
		return mkStr(b)
	}
	panic(unsupported(fmt.Sprintf("rune %T", v)))
}

// ---- maps

func (w *Worker) mapGet(m *Map, k Value) *ment {
	if m == nil {
		return nil
	}
	if iv, ok := k.(Iface); ok && iv.T != nil && !types.Comparable(iv.T) {
		w.rtPanic("hash of unhashable type " + iv.T.String())
	}
	ck, conc := ckey(k)
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.truth(w.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	v = copyVal(v)
	if e := w.mapGet(m, k); e != nil {
		old := e.v
		w.logf(func() { e.v = old })
		e.v = v
		return
	}
	e := &ment{k: copyVal(k), v: v}
	ck, conc := ckey(k)
	ents := m.ents
	w.logf(func() {
		m.ents = ents
		m.live--
		if conc {
			delete(m.idx, ck)
		} else {
			m.nsym--
		}
	})
	m.ents = append(ents, e)
	m.live++
	if conc {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	e := w.mapGet(m, k)
	if e == nil {
		return
	}
	ck, conc := ckey(e.k)
	w.logf(func() {
		e.dead = false
		m.live++
		if conc {
			m.idx[ck] = e
		} else {
			m.nsym++
		}
	})
	e.dead = true
	m.live--
	if conc {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
}

// ---- range

type iter interface {
	next(w *Worker, fr *frame) Value
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(w *Worker, fr *frame) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	i := it.i
	r, size := w.decodeRune(it.s, i)
	it.i += size
	return Tuple{true, uint64(i), r}
}

func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if str, ok := s.(string); ok {
		r, sz := utf8.DecodeRuneInString(str[i:])
		return uint64(r), sz
	}
	n := strLen(s)
	b := strByte(s, i)
	switch c := b.(type) {
	case uint64:
		if c < 0x80 {
			return c, 1
		}
	case *Term:
		if w.truth(fromTerm(w.tb.Bin(OULt, c, w.tb.C(0x80, 8)))) {
			return fromTerm(w.tb.ZExt(c, 32)), 1
		}
	default:
		panic(unsupported("inspecting a byte of an encoded message"))
	}
	hi := i + 4
	if hi > n {
		hi = n
	}
	fn := w.prog.fn("unicode/utf8", "DecodeRuneInString")
	t := w.callFn(w.curFrame, fn, []Value{strSlice(s, i, hi)}, nil).(Tuple)
	return t[0], w.cint(t[1])
}

type mapIter struct {
	m    *Map
	ents []*ment
	i    int
}

func (it *mapIter) next(w *Worker, fr *frame) Value {
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return Tuple{false, nil, nil}
}

func (w *Worker) rangeIter(fr *frame, x Value) Value {
	switch v := x.(type) {
	case string, *SStr:
		return &strIter{s: v}
	case *Map:
		if v == nil {
			return &mapIter{}
		}
		var ents []*ment
		for _, e := range v.ents {
			if !e.dead {
				ents = append(ents, e)
			}
		}
		if w.mapOrder && fr != nil && len(ents) > 1 && (fr.code.repo || len(fr.code.name) > 5 && fr.code.name[:5] == "maps.") {
			ents = w.permute(fr, ents)
		}
		return &mapIter{m: v, ents: ents}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

// instrKey identifies an instruction of the program.
type instrKey struct {
	code    *fnCode
	blk, ip int
}

// permute picks an iteration order: insertion order, or one of its rotations, which are the orders the Go
// runtime has for small maps. At most mapRangeMax iterations deviate; one that does is repeated for
// all later iterations of the same instruction, or stands alone.
func (w *Worker) permute(fr *frame, e []*ment) []*ment {
	n := len(e)
	key := instrKey{fr.code, fr.curBlk, fr.ip}
	rot := 0
	if r, ok := w.mapSticky[key]; ok {
		rot = r % n
	} else if w.mapRanges < w.mapRangeMax {
		k := w.chooseN(2*n - 1)
		rot = k % n
		if k > 0 {
			w.mapRanges++
			if k >= n {
				rot = k - n + 1
				w.mapSticky[key] = rot
			}
		}
	}
	if rot == 0 {
		return e
	}
	return append(append(make([]*ment, 0, n), e[rot:]...), e[:rot]...)
}

// ---- channels (sequential programs only)

func (w *Worker) chanSend(c, v Value) {
	ch := c.(*Chan)
	if ch == nil {
		panic(unsupported("send on nil channel"))
	}
	if ch.closed {
		w.rtPanicPlain("send on closed channel")
	}
	if len(ch.buf) >= ch.cap {
		panic(unsupported("blocking send"))
	}
	old := ch.buf
	w.logf(func() { ch.buf = old })
	ch.buf = append(append([]Value(nil), ch.buf...), copyVal(v))
}

func (w *Worker) chanRecv(c Value, commaOk bool, t types.Type) Value {
	ch := c.(*Chan)
	if ch == nil {
		panic(unsupported("receive on nil channel"))
	}
	et := t.Underlying().(*types.Chan).Elem()
	var v Value
	ok := false
	if len(ch.buf) > 0 {
		v, ok = ch.buf[0], true
		old := ch.buf
		w.logf(func() { ch.buf = old })
		ch.buf = ch.buf[1:]
	} else if ch.closed {
		v = zero(et)
	} else {
		panic(unsupported("blocking receive"))
	}
	if commaOk {
		return Tuple{v, ok}
	}
	return v
}

func (w *Worker) selectChan(fr *frame, ci *cinstr, in *ssa.Select) Value {
	// first ready case, else default
	nrecv := 0
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	res := make(Tuple, 2+nrecv)
	ri := 2
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			res[ri] = zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
			ri++
		}
	}
	res[1] = false
	ri = 2
	for i, st := range in.States {
		ch := fr.get(&ci.ops[2*i]).(*Chan)
		if st.Dir == types.RecvOnly {
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				t := w.chanRecv(ch, true, st.Chan.Type()).(Tuple)
				res[0], res[1], res[ri] = uint64(i), t[1], t[0]
				return res
			}
			ri++
		} else if ch != nil && len(ch.buf) < ch.cap {
			w.chanSend(ch, fr.get(&ci.ops[2*i+1]))
			res[0] = uint64(i)
			return res
		}
	}
	if !in.Blocking {
		res[0] = ^uint64(0)
		return res
	}
	panic(unsupported("blocking select"))
}

// ---- builtins

func (w *Worker) builtin(fr *frame, ci *cinstr, b *ssa.Builtin, args []Value) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsupported("builtin on poison: " + p.why))
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return uint64(strLen(x))
		case []Value:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *Chan:
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		case string, *SStr:
			add = strBytes(y)
		}
		var et types.Type
		if c, ok := ci.in.(ssa.CallInstruction); ok {
			et = c.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return w.appendSlice(s, add, et)
	case "copy":
		d := args[0].([]Value)
		var s []Value
		switch y := args[1].(type) {
		case []Value:
			s = y
		case string, *SStr:
			s = strBytes(y)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n == 0 {
			return uint64(0)
		}
		if &d[0] != &s[0] {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				w.store(&d[i], tmp[i])
			}
		}
		return uint64(n)
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					if !e.dead {
						w.mapDelete(x, e.k)
					}
				}
			}
		case []Value:
			et := ci.in.(ssa.CallInstruction).Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := ci.in.(ssa.CallInstruction).Common().Args[0].Type()
		ii, isInt := basicInt(t)
		for _, a := range args[1:] {
			op := token.LSS
			x, y := a, r
			if b.Name() == "max" {
				x, y = r, a
			}
			if w.truth(w.binop(op, x, y, t, t, ii, isInt)) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			w.rtPanicPlain("close of nil channel")
		}
		if ch.closed {
			w.rtPanicPlain("close of closed channel")
		}
		w.logf(func() { ch.closed = false })
		ch.closed = true
		return nil
	case "recover":
		// fr is the deferred function; its caller is the frame that is panicking
		c := fr.caller
		if c != nil && c.panic != nil {
			v := c.panic.v
			c.panic = nil
			return v
		}
		return Iface{}
	case "panic":
		panic(&targetPanic{v: args[0], at: w.where(fr)})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.rtPanicPlain(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "String": // unsafe.String(ptr, n)
		n := w.cint(args[1])
		if n == 0 {
			return ""
		}
		if p, ok := args[0].(*Value); ok && p != nil {
			// elements of an array lie next to each other here as well
			return mkStr(append([]Value(nil), unsafe.Slice(p, n)...))
		}
		d, ok := args[0].(*DataPtr)
		if !ok {
			panic(unsupported("unsafe.String"))
		}
		if d.s != nil {
			return mkStr(d.s[:n])
		}
		return strSlice(d.str, 0, n)
	case "StringData":
		if strLen(args[0]) == 0 {
			return nilPtr
		}
		return &DataPtr{str: args[0]}
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return nilPtr
		}
		return &DataPtr{s: s[:cap(s)]}
	case "Slice":
		n := w.cint(args[1])
		if n == 0 {
			return []Value{}
		}
		d, ok := args[0].(*DataPtr)
		if !ok {
			panic(unsupported("unsafe.Slice"))
		}
		if d.s != nil {
			return d.s[:n:n]
		}
		return append([]Value(nil), strBytes(d.str)[:n]...)
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args)))
}

func (w *Worker) appendSlice(s, add []Value, et types.Type) []Value {
	n := len(s)
	if len(add) == 0 {
		return s
	}
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			w.store(&r[n+i], tmp[i])
		}
		return r
	}
	c := 2 * cap(s)
	if c < n+len(add) {
		c = n + len(add)
	}
	if c < 4 {
		c = 4
	}
	r := make([]Value, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[n+i] = copyVal(add[i])
	}
	if et != nil {
		fillZero(r[n+len(add):], et)
	}
	return r[:n+len(add)]
}

func f64(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case uint64:
		return math.Float64frombits(x)
	}
	return 0
}
