package main

// Values of the symbolic interpreter.
//
//   bool            bool | *Term (w=0)
//   integers        uint64 (masked to width) | *Term (w=8..64)
//   float32/64      float64 | *Term (WF64)
//   string          string | *SStr
//   pointer         *Value | *SymPtr | *DataPtr        (nil: (*Value)(nil))
//   slice           []Value
//   array, struct   Array, Struct
//   map             *Map
//   interface       Iface
//   func            *Closure
//   tuple           Tuple
//   reflect         RType (inside *reflect.rtype pointers), RV

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type SStr struct{ b []Value }

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(w *Worker, fr *frame, args []Value) Value
	name   string
}

// SymPtr points at element i (symbolic) of a.
type SymPtr struct {
	a   []Value
	idx *Term
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	s   []Value
	str Value
}

// Opq is one byte of an encoded message whose bytes are not modelled.
type Opq struct {
	blob *Blob
	i    int
}

type Poison struct{ why string }

type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

type ment struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*ment
	idx  map[interface{}]*ment
	nsym int
	live int
}

type RType struct{ t types.Type }

// RV is a reflect.Value.
type RV struct {
	t    types.Type
	v    Value  // when addr == nil
	addr *Value // addressable location
	ro   bool
	id   *int // identity as a map key (results of MapKeys)
}

func (r RV) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

var nilPtr = (*Value)(nil)

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

type intInfo struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Named:
		if isNamed(t, "reflect", "Value") || isNamed(t, "internal/reflectlite", "Value") {
			return RV{}
		}
		return zero(u.Underlying())
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return a
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SStr:
		return s.b[i]
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

// mkStr makes a string of byte values, concrete if all are.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SStr{b: append([]Value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic(unsupported("slice of non-string"))
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return &SStr{b: r}
}

func bytesToStrings(b []byte) []Value {
	r := make([]Value, len(b))
	for i, c := range b {
		r[i] = uint64(c)
	}
	return r
}

// ---- map keys

type ckStruct string

// ckey gives a comparable Go value identifying a fully concrete map key, or false.
func ckey(v Value) (interface{}, bool) {
	switch k := v.(type) {
	case string:
		return k, true
	case uint64, bool, float64, *Value, *Closure, *Chan, *Map:
		return k, true
	case *Term, *SStr:
		return nil, false
	case Iface:
		if k.T == nil {
			return ckStruct("nil"), true
		}
		in, ok := ckey(k.V)
		if !ok {
			return nil, false
		}
		return ckStruct(fmt.Sprintf("I<%s>%T:%v", types.TypeString(k.T, nil), in, in)), true
	case RV:
		switch {
		case k.addr != nil:
			return k.addr, true
		case k.id != nil:
			return k.id, true
		}
	case RType:
		return ckStruct("T" + types.TypeString(k.t, nil)), true
	case Struct:
		return ckAgg([]Value(k))
	case Array:
		return ckAgg([]Value(k))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func ckAgg(k []Value) (interface{}, bool) {
	var sb strings.Builder
	sb.WriteString("{")
	for _, x := range k {
		in, ok := ckey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%d:%v;", in, len(fmt.Sprint(in)), in)
	}
	return ckStruct(sb.String()), true
}

// ---- debugging / sample output

func showVal(v Value, depth int) string {
	if depth < 0 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", v)
	case *SStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, b := range v.b {
			if c, ok := b.(uint64); ok {
				sb.WriteString(fmt.Sprintf("%c", rune(c)))
			} else {
				sb.WriteString("?")
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case uint64:
		return fmt.Sprint(int64(v))
	case *Term:
		return v.ref()
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + showVal(*v, depth-1)
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, showVal(x, depth-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return showVal(Struct(v), depth)
	case []Value:
		var p []string
		for _, x := range v {
			p = append(p, showVal(x, depth-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", v.T, showVal(v.V, depth-1))
	case *Map:
		if v == nil {
			return "map[]"
		}
		var p []string
		for _, e := range v.ents {
			if !e.dead {
				p = append(p, showVal(e.k, depth-1)+":"+showVal(e.v, depth-1))
			}
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case Tuple:
		return showVal(Struct(v), depth)
	}
	return fmt.Sprintf("%T", v)
}
