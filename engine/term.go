package main

// Terms: hash-consed QF_BV (+ a little FP) expressions, simplified on construction.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OSLt
	OULe
	OSLe
	OZExt
	OSExt
	OExtract // low bits only: val = hi<<8|lo
	OSToF
	OUToF
	OFLt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFBits // bit pattern of a float64
)

// width 0 = Bool, 1..64 = bit-vector, WF64 = float64
const WF64 = 100

type Term struct {
	id   int
	op   Op
	w    uint8
	val  uint64
	a    [3]*Term
	n    uint8
	name string
	// the only variable below this term, if there is exactly one and it is at most 8 bits wide
	uvar  *Term
	nvars int // 0, 1 or 2 (= many)
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	name    string
}

type TB struct {
	tab  map[tkey]*Term
	next int
	vars []*Term
	T, F *Term
	gen  []uint64
	memo []uint64
	cur  uint64
}

func newTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}}
	tb.T = tb.mk(OConst, 0, 1, nil, nil, nil)
	tb.F = tb.mk(OConst, 0, 0, nil, nil, nil)
	return tb
}

func (tb *TB) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op: op, w: w, val: val, a: a, b: b, c: c}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{id: tb.next, op: op, w: w, val: val, a: [3]*Term{a, b, c}}
	tb.next++
	for _, x := range t.a {
		if x == nil {
			continue
		}
		t.n++
		switch {
		case x.nvars == 0:
		case t.nvars == 0:
			t.nvars, t.uvar = x.nvars, x.uvar
		case t.nvars == 1 && x.nvars == 1 && t.uvar == x.uvar:
		default:
			t.nvars, t.uvar = 2, nil
		}
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) Var(name string, w uint8) *Term {
	t := &Term{id: tb.next, op: OVar, w: w, name: name, nvars: 1}
	tb.next++
	t.uvar = t
	tb.vars = append(tb.vars, t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (tb *TB) C(v uint64, w uint8) *Term {
	if w == WF64 {
		return tb.mk(OConst, w, v, nil, nil, nil)
	}
	return tb.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (tb *TB) B(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}

func (t *Term) isC() bool { return t.op == OConst }

func (tb *TB) Not(a *Term) *Term {
	switch {
	case a == tb.T:
		return tb.F
	case a == tb.F:
		return tb.T
	case a.op == ONot:
		return a.a[0]
	}
	return tb.mk(ONot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	switch {
	case a == tb.F || b == tb.F:
		return tb.F
	case a == tb.T:
		return b
	case b == tb.T:
		return a
	case a == b:
		return a
	case a.op == ONot && a.a[0] == b, b.op == ONot && b.a[0] == a:
		return tb.F
	}
	return tb.mk(OAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	switch {
	case a == tb.T || b == tb.T:
		return tb.T
	case a == tb.F:
		return b
	case b == tb.F:
		return a
	case a == b:
		return a
	case a.op == ONot && a.a[0] == b, b.op == ONot && b.a[0] == a:
		return tb.T
	}
	return tb.mk(OOr, 0, 0, a, b, nil)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b && a.w != WF64 {
		return tb.T
	}
	if a.isC() && b.isC() {
		if a.w == WF64 {
			return tb.B(math.Float64frombits(a.val) == math.Float64frombits(b.val))
		}
		return tb.B(a.val == b.val)
	}
	if a.w == WF64 {
		if x, y := tb.intOf(a), tb.intOf(b); x != nil && y != nil {
			return tb.Eq(x, y)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 && b.isC() {
		if b == tb.T {
			return a
		}
		return tb.Not(a)
	}
	if b.isC() {
		switch a.op {
		case OZExt:
			in := a.a[0]
			if b.val > mask(in.w) {
				return tb.F
			}
			return tb.Eq(in, tb.C(b.val, in.w))
		case OIte:
			if a.a[1].isC() && a.a[2].isC() {
				e1, e2 := a.a[1].val == b.val, a.a[2].val == b.val
				switch {
				case e1 && e2:
					return tb.T
				case e1:
					return a.a[0]
				case e2:
					return tb.Not(a.a[0])
				default:
					return tb.F
				}
			}
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return tb.Eq(a.a[0], b.a[0])
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	switch {
	case c == tb.T:
		return a
	case c == tb.F:
		return b
	case a == b:
		return a
	}
	if a.w == 0 {
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	return tb.mk(OIte, a.w, 0, c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	case OULt:
		return b2u(x < y), true
	case OULe:
		return b2u(x <= y), true
	case OSLt:
		return b2u(sext(x, w) < sext(y, w)), true
	case OSLe:
		return b2u(sext(x, w) <= sext(y, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a binary bit-vector operation or comparison.
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	switch op {
	case OULt, OULe, OSLt, OSLe:
		rw = 0
	}
	if a.isC() && b.isC() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return tb.mk(OConst, rw, v, nil, nil, nil)
		}
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.val == 0 {
			return a
		}
		if b.isC() && a.op == OAdd && a.a[1].isC() {
			return tb.Bin(OAdd, a.a[0], tb.C(a.a[1].val+b.val, w))
		}
	case OSub:
		if b.isC() {
			return tb.Bin(OAdd, a, tb.C(-b.val, w))
		}
		if a == b {
			return tb.C(0, w)
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.val == 0 {
			return b
		}
		if b.isC() && b.val == 1 {
			return a
		}
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.val == 0 {
			return b
		}
		if b.isC() && b.val == mask(w) {
			return a
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isC() && b.val == 0 {
			return a
		}
	case OUDiv, OURem, OSDiv, OSRem:
		if b.isC() && b.val != 0 && a.op == OMul && a.a[1] == b && maxBits(a, 20) < int(w) {
			if op == OUDiv || op == OSDiv {
				return a.a[0]
			}
			return tb.C(0, w)
		}
		// division of a zero-extended value by a constant is done on the narrow value
		if a.op == OZExt && b.isC() && b.val != 0 && (op == OUDiv || op == OURem || sext(b.val, w) > 0) {
			in := a.a[0]
			if b.val > mask(in.w) {
				if op == OUDiv || op == OSDiv {
					return tb.C(0, w)
				}
				return a
			}
			o := OUDiv
			if op == OURem || op == OSRem {
				o = OURem
			}
			return tb.ZExt(tb.Bin(o, in, tb.C(b.val, in.w)), w)
		}
	case OULt:
		if b.isC() && b.val == 0 || a == b {
			return tb.F
		}
		if a.op == OZExt && b.isC() {
			in := a.a[0]
			if b.val > mask(in.w) {
				return tb.T
			}
			return tb.Bin(OULt, in, tb.C(b.val, in.w))
		}
		if b.op == OZExt && a.isC() {
			in := b.a[0]
			if a.val >= mask(in.w) {
				return tb.F
			}
			return tb.Bin(OULt, tb.C(a.val, in.w), in)
		}
	case OULe:
		return tb.Not(tb.Bin(OULt, b, a))
	case OSLe:
		return tb.Not(tb.Bin(OSLt, b, a))
	case OSLt:
		if a == b {
			return tb.F
		}
		// zero-extended operands are non-negative
		if a.op == OZExt && b.isC() {
			if sext(b.val, w) <= 0 {
				return tb.F
			}
			return tb.Bin(OULt, a, b)
		}
		if b.op == OZExt && a.isC() {
			if sext(a.val, w) < 0 {
				return tb.T
			}
			return tb.Bin(OULt, a, b)
		}
		if a.op == OZExt && b.op == OZExt {
			return tb.Bin(OULt, a, b)
		}
	}
	return tb.mk(op, rw, 0, a, b, nil)
}

func (tb *TB) Un(op Op, a *Term) *Term {
	if a.isC() {
		switch op {
		case OBNot:
			return tb.C(^a.val, a.w)
		case ONeg:
			return tb.C(-a.val, a.w)
		}
	}
	return tb.mk(op, a.w, 0, a, nil, nil)
}

func (tb *TB) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.C(a.val, w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a[0], w)
	}
	return tb.mk(OZExt, w, 0, a, nil, nil)
}

func (tb *TB) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.C(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a[0], w)
	}
	return tb.mk(OSExt, w, 0, a, nil, nil)
}

func (tb *TB) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.C(a.val, w)
	}
	if a.op == OZExt || a.op == OSExt {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return tb.Trunc(in, w)
		}
		if a.op == OZExt {
			return tb.ZExt(in, w)
		}
		return tb.SExt(in, w)
	}
	switch a.op {
	case OAdd, OSub, OMul:
		if tb.narrow(a, w, 4) {
			return tb.Bin(a.op, tb.Trunc(a.a[0], w), tb.Trunc(a.a[1], w))
		}
	}
	return tb.mk(OExtract, w, 0, a, nil, nil)
}

// narrow: truncating a leaves arithmetic on narrower terms only.
func (tb *TB) narrow(a *Term, w uint8, depth int) bool {
	switch a.op {
	case OConst:
		return true
	case OZExt:
		return true
	case OAdd, OSub, OMul:
		return depth > 0 && tb.narrow(a.a[0], w, depth-1) && tb.narrow(a.a[1], w, depth-1)
	}
	return false
}

func (tb *TB) ToF(a *Term, signed bool) *Term {
	if a.isC() {
		if signed {
			return tb.C(math.Float64bits(float64(sext(a.val, a.w))), WF64)
		}
		return tb.C(math.Float64bits(float64(a.val)), WF64)
	}
	if signed && maxBits(a, 20) >= int(a.w) {
		return tb.mk(OSToF, WF64, 0, a, nil, nil)
	}
	return tb.mk(OUToF, WF64, 0, a, nil, nil)
}

func foldF(op Op, a, b uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFAdd:
		x += y
	case OFSub:
		x -= y
	case OFMul:
		x *= y
	default:
		x /= y
	}
	return math.Float64bits(x)
}

// F2 builds a float64 operation.
func (tb *TB) F2(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.C(foldF(op, a.val, b.val), WF64)
	}
	if x, y := tb.intOf(a), tb.intOf(b); x != nil && y != nil && (op == OFAdd || op == OFMul) {
		o := OAdd
		if op == OFMul {
			o = OMul
		}
		if r := tb.Bin(o, x, y); maxBits(r, 20) <= 50 {
			return tb.ToF(r, false)
		}
	}
	return tb.mk(op, WF64, 0, a, b, nil)
}

// maxBits bounds the number of significant bits of an unsigned term.
func maxBits(t *Term, depth int) int {
	if t.isC() {
		return bits.Len64(t.val)
	}
	if depth > 0 {
		switch t.op {
		case OZExt:
			return int(t.a[0].w)
		case OAdd:
			if n := max(maxBits(t.a[0], depth-1), maxBits(t.a[1], depth-1)) + 1; n < int(t.w) {
				return n
			}
		case OMul:
			if n := maxBits(t.a[0], depth-1) + maxBits(t.a[1], depth-1); n < int(t.w) {
				return n
			}
		}
	}
	return int(t.w)
}

// intOf is the integer of a float64 that is a conversion of a small non-negative one.
func (tb *TB) intOf(t *Term) *Term {
	if t.isC() {
		f := math.Float64frombits(t.val)
		if f == 0 && t.val != 0 || !(f >= 0 && f < 1<<50) || f != math.Trunc(f) {
			return nil
		}
		return tb.C(uint64(f), 64)
	}
	if (t.op == OSToF || t.op == OUToF) && maxBits(t.a[0], 20) <= 50 && t.a[0].w > 50 {
		return t.a[0]
	}
	return nil
}

// FLt is a < b on float64.
func (tb *TB) FLt(a, b *Term) *Term {
	if x, y := tb.intOf(a), tb.intOf(b); x != nil && y != nil {
		return tb.Bin(OULt, x, y)
	}
	return tb.mk(OFLt, 0, 0, a, b, nil)
}

// Model maps variables to values; missing variables are 0.
type Model map[string]uint64

func (tb *TB) newEval() {
	tb.cur++
	for len(tb.gen) < tb.next {
		tb.gen = append(tb.gen, 0)
		tb.memo = append(tb.memo, 0)
	}
}

func (tb *TB) Eval(t *Term, m Model) uint64 {
	tb.newEval()
	return tb.ev(t, m, nil, 0)
}

// EvalWith evaluates a term whose only variable is v.
func (tb *TB) EvalWith(t *Term, v *Term, x uint64) uint64 {
	tb.newEval()
	return tb.ev(t, nil, v, x)
}

func (tb *TB) ev(t *Term, m Model, v *Term, x uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if v != nil {
			return x & mask(t.w)
		}
		return m[t.name] & mask(t.w)
	}
	if tb.gen[t.id] == tb.cur {
		return tb.memo[t.id]
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - tb.ev(t.a[0], m, v, x)
	case OAnd:
		if tb.ev(t.a[0], m, v, x) == 0 {
			r = 0
		} else {
			r = tb.ev(t.a[1], m, v, x)
		}
	case OOr:
		if tb.ev(t.a[0], m, v, x) == 1 {
			r = 1
		} else {
			r = tb.ev(t.a[1], m, v, x)
		}
	case OEq:
		p, q := tb.ev(t.a[0], m, v, x), tb.ev(t.a[1], m, v, x)
		if t.a[0].w == WF64 {
			r = b2u(math.Float64frombits(p) == math.Float64frombits(q))
		} else {
			r = b2u(p == q)
		}
	case OFLt:
		p, q := tb.ev(t.a[0], m, v, x), tb.ev(t.a[1], m, v, x)
		r = b2u(math.Float64frombits(p) < math.Float64frombits(q))
	case OFAdd, OFSub, OFMul, OFDiv:
		r = foldF(t.op, tb.ev(t.a[0], m, v, x), tb.ev(t.a[1], m, v, x))
	case OIte:
		if tb.ev(t.a[0], m, v, x) == 1 {
			r = tb.ev(t.a[1], m, v, x)
		} else {
			r = tb.ev(t.a[2], m, v, x)
		}
	case OBNot:
		r = ^tb.ev(t.a[0], m, v, x) & mask(t.w)
	case ONeg:
		r = -tb.ev(t.a[0], m, v, x) & mask(t.w)
	case OZExt:
		r = tb.ev(t.a[0], m, v, x)
	case OSExt:
		r = uint64(sext(tb.ev(t.a[0], m, v, x), t.a[0].w)) & mask(t.w)
	case OExtract:
		r = tb.ev(t.a[0], m, v, x) & mask(t.w)
	case OFBits:
		r = tb.ev(t.a[0], m, v, x)
	case OSToF:
		r = math.Float64bits(float64(sext(tb.ev(t.a[0], m, v, x), t.a[0].w)))
	case OUToF:
		r = math.Float64bits(float64(tb.ev(t.a[0], m, v, x)))
	default:
		r, _ = foldBin(t.op, t.a[0].w, tb.ev(t.a[0], m, v, x), tb.ev(t.a[1], m, v, x))
	}
	tb.gen[t.id] = tb.cur
	tb.memo[t.id] = r
	return r
}

var smtOps = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OSLt: "bvslt", OULe: "bvule", OSLe: "bvsle",
}

func smtSort(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case WF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	switch t.w {
	case 0:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case WF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

// ref returns the SMT text naming t, given that compound terms have been defined.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a[0].ref())
	case OSToF:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", t.a[0].ref())
	case OUToF:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", t.a[0].ref())
	case OFBits:
		return fmt.Sprintf("(fp.to_ieee_bv %s)", t.a[0].ref())
	case OFLt:
		return fmt.Sprintf("(fp.lt %s %s)", t.a[0].ref(), t.a[1].ref())
	case OEq:
		if t.a[0].w == WF64 {
			return fmt.Sprintf("(fp.eq %s %s)", t.a[0].ref(), t.a[1].ref())
		}
	}
	if f, ok := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]; ok {
		return fmt.Sprintf("(%s RNE %s %s)", f, t.a[0].ref(), t.a[1].ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + smtOps[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func bitsLen(v uint64) int { return bits.Len64(v) }
