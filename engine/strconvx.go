package main

// Decimal formatting of symbolic integers: the digits as remainders (as fmt does it)
// rather than as look-ups in strconv's table of digit pairs.

import (
	"hash/fnv"
	"math"
	"strconv"
)

func (w *Worker) decimal(u *Term) []Value {
	var rev []Value
	for w.Branch(w.tb.Not(w.tb.Bin(OULt, u, w.tb.C(10, u.w)))) {
		next := w.tb.Bin(OUDiv, u, w.tb.C(10, u.w))
		d := w.tb.Bin(OSub, w.tb.Bin(OAdd, u, w.tb.C('0', u.w)), w.tb.Bin(OMul, next, w.tb.C(10, u.w)))
		rev = append(rev, fromTerm(w.tb.Trunc(d, 8)))
		u = next
	}
	rev = append(rev, fromTerm(w.tb.Trunc(w.tb.Bin(OAdd, u, w.tb.C('0', u.w)), 8)))
	out := make([]Value, len(rev))
	for i := range rev {
		out[len(rev)-1-i] = rev[i]
	}
	return out
}

func init() {
	intrinsics["strconv.small"] = func(w *Worker, fr *frame, a []Value) Value {
		if i, ok := a[0].(uint64); ok {
			return strconv.Itoa(int(i))
		}
		return mkStr(w.decimal(w.toTerm(a[0], 64)))
	}
	// formatBits(dst []byte, u uint64, base int, neg, append_ bool) (d []byte, s string)
	intrinsics["strconv.formatBits"] = func(w *Worker, fr *frame, a []Value) Value {
		base := w.cint(a[2])
		var digits []Value
		if u, ok := a[1].(uint64); ok {
			neg := w.truth(a[3])
			s := strconv.FormatUint(u, base)
			if neg {
				s = "-" + strconv.FormatUint(-u, base)
			}
			for i := 0; i < len(s); i++ {
				digits = append(digits, uint64(s[i]))
			}
		} else {
			if base != 10 {
				panic(unsupported("formatting a symbolic number in base " + strconv.Itoa(base)))
			}
			u := w.toTerm(a[1], 64)
			if w.truth(a[3]) {
				digits = append(digits, uint64('-'))
				u = w.tb.Bin(OSub, w.tb.C(0, 64), u)
			}
			digits = append(digits, w.decimal(u)...)
		}
		if w.truth(a[4]) {
			dst := a[0].([]Value)
			out := append(append(make([]Value, 0, len(dst)+len(digits)), dst...), digits...)
			return Tuple{out, ""}
		}
		return Tuple{[]Value(nil), mkStr(digits)}
	}
}

// xxhash is written in assembly; any hash of the bytes will do.
func init() {
	const xx = "github.com/cespare/xxhash/v2"
	conc := func(w *Worker, v []Value) []byte {
		var b []byte
		for _, x := range v {
			u, ok := x.(uint64)
			if !ok {
				panic(unsupported("hashing symbolic bytes"))
			}
			b = append(b, byte(u))
		}
		return b
	}
	st := func(w *Worker, v Value) *promState {
		p := v.(*Value)
		if w.prom[p] == nil {
			w.prom[p] = &promState{}
		}
		return w.prom[p]
	}
	sum := func(b []byte) Value {
		h := fnv.New64a()
		h.Write(b)
		return h.Sum64()
	}
	write := func(w *Worker, fr *frame, a []Value) Value {
		var b []Value
		if s, ok := a[1].([]Value); ok {
			b = s
		} else {
			b = strBytes(a[1])
		}
		s := st(w, a[0])
		s.buf = append(s.buf, conc(w, b)...)
		return Tuple{uint64(len(b)), Iface{}}
	}
	intrinsics["(*"+xx+".Digest).WriteString"] = write
	intrinsics["(*"+xx+".Digest).Write"] = write
	intrinsics["(*"+xx+".Digest).Reset"] = func(w *Worker, fr *frame, a []Value) Value {
		st(w, a[0]).buf = nil
		return nil
	}
	intrinsics["(*"+xx+".Digest).Sum64"] = func(w *Worker, fr *frame, a []Value) Value { return sum(st(w, a[0]).buf) }
	intrinsics[xx+".Sum64String"] = func(w *Worker, fr *frame, a []Value) Value { return sum(conc(w, strBytes(a[0]))) }
	intrinsics[xx+".Sum64"] = func(w *Worker, fr *frame, a []Value) Value { return sum(conc(w, a[0].([]Value))) }
}

func init() {
	intrinsics["math.Float64bits"] = func(w *Worker, fr *frame, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return w.tb.mk(OFBits, 64, 0, t, nil, nil)
		}
		return math.Float64bits(f64(a[0]))
	}
	intrinsics["math.Float64frombits"] = func(w *Worker, fr *frame, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			if t.op == OFBits {
				return t.a[0]
			}
			panic(unsupported("float64 from symbolic bits"))
		}
		return math.Float64frombits(a[0].(uint64))
	}
}

func init() {
	same := func(w *Worker, fr *frame, a []Value) Value { return a[0] }
	intrinsics["internal/stringslite.Clone"] = same
	intrinsics["strings.Clone"] = same
}
