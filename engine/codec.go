package main

// Model of github.com/ugorji/go/codec as used by gotsrpc: encoding takes a deep snapshot of the value
// (the "wire value") and hands out opaque bytes that carry it; decoding those bytes with a handle of the
// same format assigns the wire value to the destination by the codec's structural rules. Anything else
// fails to decode. Concrete JSON text is parsed for real.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const codecPkg = "github.com/ugorji/go/codec"

type wk uint8

const (
	wNil wk = iota
	wBool
	wInt
	wFloat
	wStr
	wArr
	wMap
	wOpaque
)

type wv struct {
	k      wk
	v      Value
	signed bool
	arr    []*wv
	keys   []*wv
	t      types.Type
	quoted bool // an integer written as a JSON string
	bare   bool // a JSON object with keys that are not strings
}

type Blob struct {
	id     int
	format string
	root   *wv
	n      int
}

type handleState struct {
	format string
	exts   map[string]Value // type string -> InterfaceExt
	codecOpts
}

// codecOpts are the options of a codec handle that change what is sent or what is understood, read from
// the handle's memory each time it is used.
type codecOpts struct {
	structToArray, mapKeyAsString, rawToString, errorIfNoField bool
	timeNotBuiltin, signedInteger                              bool
	intAsString                                                byte
	mapType                                                    types.Type
	maxDepth                                                   int
}

// benign options change neither what a message means nor how it is understood
var benignOpts = map[string]bool{"Indent": true, "HTMLCharsAsIs": true, "TermWhitespace": true, "MaxInitLen": true,
	"ReaderBufferSize": true, "InternString": true, "WriterBufferSize": true, "ChanRecvTimeout": true, "Canonical": true,
	"CheckCircularRef": true, "OptimumSize": true, "NoAddressableReadonly": true, "ExplicitRelease": true, "NoFixedNum": true,
	"RPCNoBuffer": true}

func (w *Worker) readOpts(h *handleState, p *Value, t types.Type) {
	h.codecOpts = codecOpts{}
	var walk func(t *types.Struct, v Struct)
	walk = func(t *types.Struct, v Struct) {
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			if f.Embedded() {
				if st, ok := f.Type().Underlying().(*types.Struct); ok {
					walk(st, v[i].(Struct))
				}
				continue
			}
			if !f.Exported() || benignOpts[f.Name()] {
				continue
			}
			switch x := v[i].(type) {
			case bool:
				switch f.Name() {
				case "StructToArray":
					h.structToArray = x
				case "MapKeyAsString":
					h.mapKeyAsString = x
				case "RawToString":
					h.rawToString = x
				case "ErrorIfNoField":
					h.errorIfNoField = x
				case "TimeNotBuiltin":
					h.timeNotBuiltin = x
				case "SignedInteger":
					h.signedInteger = x
				default:
					if x {
						panic(unsupported("codec option " + f.Name()))
					}
				}
			case uint64:
				switch f.Name() {
				case "IntegerAsString":
					h.intAsString = byte(x)
				case "MaxDepth":
					h.maxDepth = int(x)
				default:
					if x != 0 {
						panic(unsupported("codec option " + f.Name()))
					}
				}
			case Iface:
				if x.T == nil {
					break
				}
				if f.Name() != "MapType" {
					panic(unsupported("codec option " + f.Name()))
				}
				h.mapType = typeOfArg(x)
			case *Value:
				if x != nil {
					panic(unsupported("codec option " + f.Name()))
				}
			default:
				panic(unsupported("codec option " + f.Name()))
			}
		}
	}
	if st, ok := (*p).(Struct); ok {
		walk(t.Underlying().(*types.Struct), st)
	} else {
		panic(unsupported("codec handle's memory"))
	}
	if h.intAsString != 0 && h.intAsString != 'A' && h.intAsString != 'L' {
		h.intAsString = 0
	}
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

type codecState struct {
	enc    bool
	rw     Value // io.Writer / io.Reader
	out    *Value
	in     []Value
	hasIn  bool
	handle Value
}

type codecErr struct{ msg string }

func (w *Worker) goError(msg Value) Value {
	p := new(Value)
	*p = Struct{msg}
	return Iface{T: types.NewPointer(w.prog.typ("errors", "errorString")), V: p}
}

func (w *Worker) handle(v Value) (*handleState, string) {
	iv, ok := v.(Iface)
	if !ok || iv.T == nil {
		panic(unsupported("codec handle"))
	}
	p := w.ptr(iv.V)
	format := "msgpack"
	if strings.HasSuffix(iv.T.String(), "JsonHandle") {
		format = "json"
	} else if !strings.HasSuffix(iv.T.String(), "MsgpackHandle") {
		panic(unsupported("codec handle " + iv.T.String()))
	}
	h := w.handles[p]
	if h == nil {
		h = &handleState{format: format, exts: map[string]Value{}}
		w.handles[p] = h
		if w.logging {
			w.logf(func() { delete(w.handles, p) })
		}
	}
	w.readOpts(h, p, iv.T.Underlying().(*types.Pointer).Elem())
	return h, format
}

func init() {
	setExt := func(w *Worker, handle string, a []Value) Value {
		h, _ := w.handle(Iface{T: types.NewPointer(w.prog.typ(codecPkg, handle)), V: a[0]})
		t := typeOfArg(a[1])
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if _, ok := t.(*types.Named); !ok {
			return w.goError("codec.Handle.SetExt: Takes named type, not a pointer or interface")
		}
		k := t.String()
		old, had := h.exts[k]
		w.logf(func() {
			if had {
				h.exts[k] = old
			} else {
				delete(h.exts, k)
			}
		})
		h.exts[k] = a[3]
		return Iface{}
	}
	reg("(*"+codecPkg+".JsonHandle).SetInterfaceExt", func(w *Worker, fr *frame, a []Value) Value { return setExt(w, "JsonHandle", a) })
	reg("(*"+codecPkg+".MsgpackHandle).SetBytesExt", func(w *Worker, fr *frame, a []Value) Value { return setExt(w, "MsgpackHandle", a) })
	mk := func(st *codecState, w *Worker, typ string) Value {
		p := new(Value)
		*p = Struct{}
		w.codecs[p] = st
		return p
	}
	reg(codecPkg+".NewEncoder", func(w *Worker, fr *frame, a []Value) Value {
		return mk(&codecState{enc: true, rw: a[0], handle: a[1]}, w, "Encoder")
	})
	reg(codecPkg+".NewEncoderBytes", func(w *Worker, fr *frame, a []Value) Value {
		return mk(&codecState{enc: true, out: w.ptr(a[0]), handle: a[1]}, w, "Encoder")
	})
	reg(codecPkg+".NewDecoder", func(w *Worker, fr *frame, a []Value) Value {
		return mk(&codecState{rw: a[0], handle: a[1]}, w, "Decoder")
	})
	reg(codecPkg+".NewDecoderBytes", func(w *Worker, fr *frame, a []Value) Value {
		return mk(&codecState{in: a[0].([]Value), hasIn: true, handle: a[1]}, w, "Decoder")
	})
	enc := func(w *Worker, fr *frame, a []Value) Value {
		st := w.codecs[w.ptr(a[0])]
		h, format := w.handle(st.handle)
		w.encLen = 0
		root, err := w.encodeTop(h, a[1])
		// the codec collects its output in a buffer of 1 KB, which it passes on when it is full
		flushed := w.encLen > 2048
		write := func(bs []Value) Iface {
			iv := st.rw.(Iface)
			if iv.T == nil {
				w.nilDeref()
			}
			fn := w.prog.methodByName(iv.T, "Write")
			return w.callFn(fr, fn, []Value{iv.V, bs}, nil).(Tuple)[1].(Iface)
		}
		if err != nil {
			if flushed && st.out == nil {
				w.nblob++
				b := &Blob{id: w.nblob, format: format, root: &wv{k: wNil}, n: 1024}
				bs := make([]Value, 7)
				for i := range bs {
					bs[i] = &Opq{b, i}
				}
				if e := write(bs); e.T != nil {
					return e
				}
			}
			return w.goError("codec encode error: " + err.msg)
		}
		w.nblob++
		b := &Blob{id: w.nblob, format: format, root: root, n: 5 + 2*w.nblob}
		bs := make([]Value, b.n)
		for i := range bs {
			bs[i] = &Opq{b, i}
		}
		if st.out != nil {
			w.store(st.out, bs)
			return Iface{}
		}
		if flushed {
			if e := write(bs[:2]); e.T != nil {
				return e
			}
			bs = bs[2:]
		}
		return write(bs)
	}
	reg("(*"+codecPkg+".Encoder).Encode", enc)
	reg("(*"+codecPkg+".Encoder).MustEncode", func(w *Worker, fr *frame, a []Value) Value {
		if e := enc(w, fr, a).(Iface); e.T != nil {
			panic(&targetPanic{v: e, at: w.where(fr)})
		}
		return nil
	})
	dec := func(w *Worker, fr *frame, a []Value) Value {
		st := w.codecs[w.ptr(a[0])]
		h, _ := w.handle(st.handle)
		return w.decodeTop(fr, st, h, a[1])
	}
	reg("(*"+codecPkg+".Decoder).Decode", dec)
	reg("(*"+codecPkg+".Decoder).MustDecode", func(w *Worker, fr *frame, a []Value) Value {
		if e := dec(w, fr, a).(Iface); e.T != nil {
			panic(&targetPanic{v: e, at: w.where(fr)})
		}
		return nil
	})
}

func (w *Worker) encodeTop(h *handleState, v Value) (r *wv, e *codecErr) {
	defer func() {
		if x := recover(); x != nil {
			if ce, ok := x.(*codecErr); ok {
				r, e = nil, ce
				return
			}
			panic(x)
		}
	}()
	iv := v.(Iface)
	if iv.T == nil {
		return &wv{k: wNil}, nil
	}
	if r := w.encHeldTime(h, v); r != nil {
		return r, nil
	}
	return w.enc(h, iv.T, iv.V, 0), nil
}

// encHeldTime: the codec writes a time.Time (or *time.Time) it finds as the value to encode, or as an
// element of a []interface{} or a map of interfaces, itself, whatever extension there is for the type.
func (w *Worker) encHeldTime(h *handleState, v Value) *wv {
	iv, ok := v.(Iface)
	if h.format != "json" || !ok || iv.T == nil {
		return nil
	}
	t := iv.T
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if !isTime(t) {
		return nil
	}
	x := iv.V
	if t != iv.T {
		p, ok := iv.V.(*Value)
		if !ok || p == nil {
			return nil
		}
		x = *p
	}
	if w.truth(w.callFn(w.curFrame, w.prog.methodByName(t, "IsZero"), []Value{copyVal(x)}, nil)) {
		return &wv{k: wNil}
	}
	return &wv{k: wOpaque, v: copyVal(x), t: t}
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

type sfield struct {
	name string
	path []int
	omit bool
	typ  types.Type
}

func structFields(st *types.Struct) []sfield {
	var out []sfield
	byName := map[string]int{}
	var walk func(st *types.Struct, path []int, depth int)
	walk = func(st *types.Struct, path []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag, ok := reflect.StructTag(st.Tag(i)).Lookup("codec")
			if !ok {
				tag, ok = reflect.StructTag(st.Tag(i)).Lookup("json")
			}
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := ""
			if ok {
				name = parts[0]
			}
			omit := false
			for _, o := range parts[1:] {
				if o == "omitempty" {
					omit = true
				}
			}
			p := append(append([]int(nil), path...), i)
			if f.Embedded() && name == "" {
				ft := f.Type()
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					ft = pt.Elem()
				}
				if es, ok := ft.Underlying().(*types.Struct); ok {
					walk(es, p, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			switch f.Type().Underlying().(type) {
			case *types.Signature:
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if j, dup := byName[name]; dup {
				if len(out[j].path) > len(p) {
					out[j] = sfield{name, p, omit, f.Type()}
				}
				continue
			}
			byName[name] = len(out)
			out = append(out, sfield{name, p, omit, f.Type()})
		}
	}
	walk(st, nil, 0)
	return out
}

func hasMethod(w *Worker, t types.Type, names ...string) string {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := w.prog.msc.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			for _, n := range names {
				if ms.At(i).Obj().Name() == n {
					return n
				}
			}
		}
	}
	return ""
}

// marshaler is the method the codec uses for a type that brings its own
// encoding; it uses one only if the type has both directions.
func (w *Worker) marshaler(h *handleState, t types.Type, dir int) string {
	pairs := [][2]string{{"CodecEncodeSelf", "CodecDecodeSelf"}}
	if h.format == "json" {
		pairs = append(pairs, [2]string{"MarshalJSON", "UnmarshalJSON"}, [2]string{"MarshalText", "UnmarshalText"})
	} else {
		pairs = append(pairs, [2]string{"MarshalBinary", "UnmarshalBinary"})
	}
	for _, p := range pairs {
		if hasMethod(w, t, p[0]) != "" && hasMethod(w, t, p[1]) != "" {
			return p[dir]
		}
	}
	return ""
}

func (w *Worker) isEmpty(t types.Type, v Value) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return len(v.([]Value)) == 0
	case *types.Map:
		m := v.(*Map)
		return m == nil || m.live == 0
	case *types.Struct:
		return w.truth(w.isZeroVal(t, v))
	case *types.Array:
		return false
	}
	return w.truth(w.isZeroVal(t, v))
}

func (w *Worker) enc(h *handleState, t types.Type, v Value, depth int) *wv {
	if depth > 60 {
		panic(unsupported("encoding too deep"))
	}
	t = types.Unalias(t)
	switch t.Underlying().(type) {
	case *types.Interface:
		iv := v.(Iface)
		if iv.T == nil {
			return &wv{k: wNil}
		}
		return w.enc(h, iv.T, iv.V, depth+1)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("encoding a %T", v)))
		}
		if p == nil {
			return &wv{k: wNil}
		}
		return w.enc(h, t.Underlying().(*types.Pointer).Elem(), copyVal(*p), depth+1)
	}
	if n, ok := t.(*types.Named); ok {
		builtin := isTime(t) && !h.timeNotBuiltin
		if ext, ok := h.exts[n.String()]; ok && !builtin {
			arg := Iface{T: t, V: v}
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				p := new(Value)
				*p = copyVal(v)
				arg = Iface{T: types.NewPointer(t), V: p}
			}
			iv := ext.(Iface)
			if h.format == "msgpack" { // a codec.BytesExt
				bs := w.callFn(w.curFrame, w.prog.methodByName(iv.T, "WriteExt"), []Value{iv.V, arg}, nil).([]Value)
				if bs == nil {
					return &wv{k: wNil}
				}
				return &wv{k: wStr, v: mkStr(bs)}
			}
			r := w.callFn(w.curFrame, w.prog.methodByName(iv.T, "ConvertExt"), []Value{iv.V, arg}, nil).(Iface)
			if r.T == nil {
				return &wv{k: wNil}
			}
			return w.enc(h, r.T, r.V, depth+1)
		}
		if isTime(t) {
			return &wv{k: wOpaque, v: copyVal(v), t: t}
		}
		m := w.marshaler(h, t, 0)
		if m != "" {
			return w.encMarshaler(n, v, m)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return &wv{k: wNil}
	case *types.Chan:
		panic(unsupported("encoding a channel"))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &wv{k: wBool, v: v}
		case u.Info()&types.IsInteger != 0:
			ii, _ := basicInt(u)
			to := types.Typ[types.Uint64]
			if ii.signed {
				to = types.Typ[types.Int64]
			}
			r := &wv{k: wInt, v: w.convert(v, u, to), signed: ii.signed}
			if h.format == "json" && h.intAsString != 0 {
				r.quoted = h.intAsString == 'A' || !w.truth(w.safeInt(r))
			}
			return r
		case u.Info()&types.IsFloat != 0:
			return &wv{k: wFloat, v: v}
		case u.Info()&types.IsString != 0:
			w.encLen += strLen(v)
			return &wv{k: wStr, v: v}
		}
		panic(&codecErr{"unsupported kind " + rkind(t).String()})
	case *types.Slice:
		s := v.([]Value)
		if s == nil {
			return &wv{k: wNil}
		}
		if ii, ok := basicInt(u.Elem()); ok && ii.w == 8 && !ii.signed {
			return &wv{k: wStr, v: mkStr(s), t: t}
		}
		r := &wv{k: wArr}
		for _, x := range s {
			if isAny(u.Elem()) {
				if y := w.encHeldTime(h, x); y != nil {
					r.arr = append(r.arr, y)
					continue
				}
			}
			r.arr = append(r.arr, w.enc(h, u.Elem(), x, depth+1))
		}
		return r
	case *types.Array:
		r := &wv{k: wArr}
		for _, x := range v.(Array) {
			r.arr = append(r.arr, w.enc(h, u.Elem(), x, depth+1))
		}
		return r
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &wv{k: wNil}
		}
		r := &wv{k: wMap}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			k := w.enc(h, u.Key(), e.k, depth+1)
			r.keys = append(r.keys, k)
			r.bare = r.bare || h.format == "json" && !h.mapKeyAsString && k.k != wStr && !k.quoted
			if isAny(u.Elem()) {
				if y := w.encHeldTime(h, e.v); y != nil {
					r.arr = append(r.arr, y)
					continue
				}
			}
			r.arr = append(r.arr, w.enc(h, u.Elem(), e.v, depth+1))
		}
		return r
	case *types.Struct:
		r := &wv{k: wMap}
		if h.structToArray {
			r.k = wArr
		}
	fields:
		for _, f := range structFields(u) {
			var cur Value = v
			ct := t
			for _, i := range f.path {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					p := cur.(*Value)
					if p == nil {
						if h.structToArray {
							r.arr = append(r.arr, &wv{k: wNil})
						}
						continue fields
					}
					cur, ct = *p, pt.Elem()
				}
				ct = ct.Underlying().(*types.Struct).Field(i).Type()
				cur = cur.(Struct)[i]
			}
			if h.structToArray {
				r.arr = append(r.arr, w.enc(h, f.typ, cur, depth+1))
				continue
			}
			if f.omit && w.isEmpty(f.typ, cur) {
				continue
			}
			r.keys = append(r.keys, &wv{k: wStr, v: f.name})
			r.arr = append(r.arr, w.enc(h, f.typ, cur, depth+1))
		}
		return r
	}
	panic(&codecErr{"unsupported kind " + rkind(t).String()})
}

// encMarshaler encodes a value through its MarshalText or MarshalBinary; an
// error of theirs is an error of the encoder.
func (w *Worker) encMarshaler(t types.Type, v Value, m string) *wv {
	if m != "MarshalText" && m != "MarshalBinary" {
		panic(unsupported("encoding through " + m + " of " + t.String()))
	}
	rt, rv := t, v
	if _, ok := t.Underlying().(*types.Interface); !ok {
		found := false
		ms := w.prog.msc.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			found = found || ms.At(i).Obj().Name() == m
		}
		if !found {
			p := new(Value)
			*p = copyVal(v)
			rt, rv = types.NewPointer(t), p
		}
	}
	r := w.callFn(w.curFrame, w.prog.methodByName(rt, m), []Value{rv}, nil).(Tuple)
	if r[1].(Iface).T != nil {
		panic(&codecErr{"marshaling error"})
	}
	bs := r[0].([]Value)
	if bs == nil {
		return &wv{k: wNil}
	}
	return &wv{k: wStr, v: mkStr(bs)}
}

// ---- decoding

func (w *Worker) decodeTop(fr *frame, st *codecState, h *handleState, dst Value) (ret Value) {
	var bs []Value
	if st.hasIn {
		bs = st.in
	} else {
		iv := st.rw.(Iface)
		if iv.T == nil {
			w.nilDeref()
		}
		fn := w.prog.methodByName(iv.T, "Read")
		zeros := 0
		for {
			if b := completeBlob(bs); b != nil {
				break
			}
			buf := make([]Value, 64)
			fillZero(buf, types.Typ[types.Uint8])
			t := w.callFn(fr, fn, []Value{iv.V, buf}, nil).(Tuple)
			n := w.cint(t[0])
			bs = append(bs, buf[:n]...)
			if e := t[1].(Iface); e.T != nil {
				eof := *w.global(w.prog.byPath["io"].Var("EOF"))
				if w.truth(w.equal(e, eof)) {
					break
				}
				if b := completeBlob(bs); b != nil {
					break
				}
				return e
			}
			if n == 0 {
				zeros++
				if zeros > 100 {
					return w.goError("multiple Read calls return no data or error")
				}
			}
			if len(bs) > 1<<16 {
				panic(unsupported("decoding a large body"))
			}
		}
	}
	root, err := w.wire(h, bs)
	if d := wireDepth(root); err == "" && h.maxDepth > 0 && d >= h.maxDepth {
		err = "max depth exceeded"
	} else if h.maxDepth == 0 && d > 1000 {
		panic(unsupported("a deep message"))
	}
	if err != "" {
		if err == "EOF" {
			return *w.global(w.prog.byPath["io"].Var("EOF"))
		}
		return w.goError("codec decode error: " + err)
	}
	defer func() {
		if x := recover(); x != nil {
			if ce, ok := x.(*codecErr); ok {
				ret = w.goError("codec decode error: " + ce.msg)
				return
			}
			panic(x)
		}
	}()
	iv := dst.(Iface)
	if iv.T == nil {
		return w.goError("codec: cannot decode into a nil value")
	}
	switch u := iv.T.Underlying().(type) {
	case *types.Pointer:
		p := iv.V.(*Value)
		if p == nil {
			return w.goError("codec: cannot decode into a nil pointer")
		}
		w.decVal(h, u.Elem(), p, root, 0)
	case *types.Slice:
		w.decIntoSlice(h, u, iv.V.([]Value), root, 0)
	case *types.Map:
		p := new(Value)
		*p = iv.V
		w.decVal(h, iv.T, p, root, 0)
	default:
		return w.goError("codec: can only decode into pointer, slice or map")
	}
	return Iface{}
}

func wireDepth(x *wv) int {
	if x == nil || x.k != wArr && x.k != wMap {
		return 0
	}
	n := 0
	for _, e := range x.arr {
		n = max(n, wireDepth(e))
	}
	return n + 1
}

// safeInt tells whether an integer is one that a JSON number carries exactly
func (w *Worker) safeInt(x *wv) Value {
	i64 := intInfo{64, x.signed}
	t := types.Typ[types.Uint64]
	if x.signed {
		t = types.Typ[types.Int64]
	}
	r := w.binop(token.LEQ, x.v, uint64(1)<<53, t, t, i64, true)
	if x.signed {
		r = w.and(r, w.binop(token.GEQ, x.v, ^(uint64(1)<<53)+1, t, t, i64, true))
	}
	return r
}

func completeBlob(bs []Value) *Blob {
	if len(bs) == 0 {
		return nil
	}
	o, ok := bs[0].(*Opq)
	if !ok || o.i != 0 || len(bs) < o.blob.n {
		return nil
	}
	for i := 0; i < o.blob.n; i++ {
		x, ok := bs[i].(*Opq)
		if !ok || x.blob != o.blob || x.i != i {
			return nil
		}
	}
	return o.blob
}

// wire finds the value carried by bs.
func (w *Worker) wire(h *handleState, bs []Value) (*wv, string) {
	if len(bs) == 0 {
		return nil, "EOF"
	}
	if b := completeBlob(bs); b != nil {
		if b.format != h.format {
			return nil, "wrong format"
		}
		return b.root, ""
	}
	raw := make([]byte, 0, len(bs))
	for _, x := range bs {
		c, ok := x.(uint64)
		if !ok {
			if _, opq := x.(*Opq); opq {
				return nil, "unexpected EOF" // truncated or corrupted message
			}
			panic(unsupported("decoding symbolic bytes"))
		}
		raw = append(raw, byte(c))
	}
	if h.format == "json" {
		var x interface{}
		d := json.NewDecoder(strings.NewReader(string(raw)))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			return nil, err.Error()
		}
		return jsonWire(x), ""
	}
	if len(raw) == 1 && raw[0] == 0xc0 {
		return &wv{k: wNil}, ""
	}
	if raw[0] <= 0x7f {
		return &wv{k: wInt, v: uint64(raw[0]), signed: true}, ""
	}
	return nil, "malformed msgpack"
}

func jsonWire(x interface{}) *wv {
	switch x := x.(type) {
	case nil:
		return &wv{k: wNil}
	case bool:
		return &wv{k: wBool, v: x}
	case string:
		return &wv{k: wStr, v: x}
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return &wv{k: wInt, v: uint64(i), signed: true}
		}
		f, _ := x.Float64()
		return &wv{k: wFloat, v: f}
	case []interface{}:
		r := &wv{k: wArr}
		for _, y := range x {
			r.arr = append(r.arr, jsonWire(y))
		}
		return r
	case map[string]interface{}:
		r := &wv{k: wMap}
		for _, k := range sortedKeys(x) {
			r.keys = append(r.keys, &wv{k: wStr, v: k})
			r.arr = append(r.arr, jsonWire(x[k]))
		}
		return r
	}
	return &wv{k: wNil}
}

func (w *Worker) decFail(what string, t types.Type) {
	panic(&codecErr{fmt.Sprintf("cannot decode %s into %s", what, rstring(t))})
}

var wkNames = []string{"nil", "bool", "integer", "float", "string", "array", "map", "time"}

// fieldPlace is where the field at path of the struct at p is; embedded pointers on the way are allocated.
func fieldPlace(w *Worker, t types.Type, p *Value, path []int) *Value {
	cur, ct := p, t
	for _, j := range path {
		if pt, ok := ct.Underlying().(*types.Pointer); ok {
			q := (*cur).(*Value)
			if q == nil {
				q = new(Value)
				*q = zero(pt.Elem())
				w.store(cur, q)
			}
			cur, ct = q, pt.Elem()
		}
		ct = ct.Underlying().(*types.Struct).Field(j).Type()
		cur = &(*cur).(Struct)[j]
	}
	return cur
}

func (w *Worker) decIntoSlice(h *handleState, u *types.Slice, s []Value, x *wv, depth int) {
	switch x.k {
	case wNil:
		return
	case wArr:
		for i, e := range x.arr {
			if i >= len(s) {
				if i >= cap(s) {
					w.decFail("more elements than fit", u)
				}
				s = s[:i+1]
			}
			w.decVal(h, u.Elem(), &s[i], e, depth+1)
		}
		return
	case wMap:
		panic(unsupported("decoding a map into a slice"))
	}
	w.decFail(wkNames[x.k], u)
}

func (w *Worker) decVal(h *handleState, t types.Type, p *Value, x *wv, depth int) {
	if depth > 60 {
		panic(unsupported("decoding too deep"))
	}
	t = types.Unalias(t)
	if x.k == wNil {
		switch t.Underlying().(type) {
		case *types.Slice:
			if s := (*p).([]Value); s != nil {
				w.store(p, s[:0])
			}
		case *types.Map:
			if m := (*p).(*Map); m != nil {
				for _, e := range m.ents {
					if !e.dead {
						w.mapDelete(m, e.k)
					}
				}
			}
		default:
			w.store(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		cur, ok := (*p).(*Value)
		if !ok {
			panic(unsupported("decoding through an odd pointer"))
		}
		if cur == nil {
			cur = new(Value)
			*cur = zero(u.Elem())
			w.store(p, cur)
		}
		w.decVal(h, u.Elem(), cur, x, depth+1)
		return
	case *types.Interface:
		iv := (*p).(Iface)
		if iv.T == nil {
			if u.NumMethods() > 0 {
				w.decFail("non-nil value", t)
			}
			w.store(p, w.natural(h, x, depth+1))
			return
		}
		if pt, ok := iv.T.Underlying().(*types.Pointer); ok {
			if q, ok := iv.V.(*Value); ok && q != nil {
				w.decVal(h, pt.Elem(), q, x, depth+1)
				return
			}
		}
		q := new(Value)
		*q = copyVal(iv.V)
		w.decVal(h, iv.T, q, x, depth+1)
		w.store(p, Iface{T: iv.T, V: copyVal(*q)})
		return
	}
	if n, ok := t.(*types.Named); ok {
		builtin := isTime(t) && !h.timeNotBuiltin
		if ext, ok := h.exts[n.String()]; ok && !builtin {
			if x.k == wOpaque {
				w.decFail("a time as text", t)
			}
			iv := ext.(Iface)
			dst := Iface{T: types.NewPointer(t), V: p}
			if h.format == "msgpack" { // a codec.BytesExt
				if x.k == wArr {
					panic(unsupported("decoding a list into an extension's bytes"))
				} else if x.k != wStr {
					w.decFail("something else than bytes", t)
				}
				bs := w.convert(x.v, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
				w.callFn(w.curFrame, w.prog.methodByName(iv.T, "ReadExt"), []Value{iv.V, dst, bs}, nil)
				return
			}
			c := w.callFn(w.curFrame, w.prog.methodByName(iv.T, "ConvertExt"), []Value{iv.V, dst}, nil).(Iface)
			var src Value
			if c.T == nil {
				src = w.natural(h, x, depth+1)
			} else {
				q := new(Value)
				*q = zero(c.T)
				w.decVal(h, c.T, q, x, depth+1)
				src = Iface{T: c.T, V: *q}
			}
			w.callFn(w.curFrame, w.prog.methodByName(iv.T, "UpdateExt"), []Value{iv.V, dst, src}, nil)
			return
		}
		if m := w.marshaler(h, t, 1); m != "" && x.k != wOpaque {
			panic(unsupported("decoding through " + m + " of " + t.String()))
		}
	}
	if x.k == wOpaque {
		if !types.Identical(t, x.t) {
			panic(unsupported("decoding a time into " + t.String()))
		}
		w.store(p, copyVal(x.v))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0 && x.k == wBool:
			w.store(p, x.v)
			return
		case u.Info()&types.IsInteger != 0 && x.k == wInt:
			w.store(p, w.decInt(u, x))
			return
		case u.Info()&types.IsFloat != 0 && (x.k == wFloat || x.k == wInt):
			if x.k == wFloat {
				w.store(p, w.convert(x.v, types.Typ[types.Float64], u))
			} else {
				from := types.Typ[types.Uint64]
				if x.signed {
					from = types.Typ[types.Int64]
				}
				w.store(p, w.convert(x.v, from, u))
			}
			return
		case u.Info()&types.IsString != 0 && x.k == wStr:
			if x.t != nil && h.format == "json" {
				panic(unsupported("decoding bytes into a string"))
			}
			w.store(p, x.v)
			return
		}
		if h.format == "json" && u.Info()&types.IsString != 0 {
			// the text of the scalar
			switch v := x.v.(type) {
			case uint64:
				if x.k == wInt && x.signed {
					w.store(p, strconv.FormatInt(int64(v), 10))
					return
				} else if x.k == wInt {
					w.store(p, strconv.FormatUint(v, 10))
					return
				}
			case bool:
				w.store(p, strconv.FormatBool(v))
				return
			}
		}
		if txt, ok := x.v.(string); ok && h.format == "json" && x.k == wStr && x.t == nil && u.Info()&types.IsInteger != 0 {
			if i, err := strconv.ParseInt(txt, 10, 64); err == nil { // as keys of maps, for example
				w.store(p, w.decInt(u, &wv{k: wInt, v: uint64(i), signed: true}))
				return
			}
		}
		if h.format == "json" && x.k != wArr && x.k != wMap {
			panic(unsupported("lenient JSON conversion of " + wkNames[x.k] + " to " + rstring(t)))
		}
		w.decFail(wkNames[x.k], t)
	case *types.Slice:
		if ii, ok := basicInt(u.Elem()); ok && ii.w == 8 && !ii.signed && x.k == wStr {
			if x.t == nil && h.format == "json" {
				txt, ok := x.v.(string)
				if !ok {
					panic(unsupported("decoding a symbolic string into bytes"))
				}
				b, err := base64.StdEncoding.DecodeString(txt)
				if err != nil {
					w.decFail("a string that is not base64", t)
				}
				w.store(p, append([]Value{}, strBytes(string(b))...))
				return
			}
			w.store(p, append([]Value{}, strBytes(x.v)...))
			return
		}
		if x.k != wArr {
			if x.k == wMap {
				panic(unsupported("decoding a map into a slice"))
			}
			w.decFail(wkNames[x.k], t)
		}
		s := (*p).([]Value)
		if len(x.arr) == 0 {
			if s == nil {
				w.store(p, []Value{})
			} else {
				w.store(p, s[:0])
			}
			return
		}
		n := make([]Value, len(x.arr))
		fillZero(n, u.Elem())
		if len(x.arr) <= cap(s) {
			n = s[:len(x.arr)]
		} else {
			for i := range s {
				n[i] = copyVal(s[i])
			}
		}
		for i, e := range x.arr {
			w.decVal(h, u.Elem(), &n[i], e, depth+1)
		}
		w.store(p, n)
	case *types.Array:
		if x.k != wArr {
			w.decFail(wkNames[x.k], t)
		}
		a := (*p).(Array)
		for i, e := range x.arr {
			if i >= len(a) {
				panic(unsupported("array overflow in decoding"))
			}
			w.decVal(h, u.Elem(), &a[i], e, depth+1)
		}
	case *types.Map:
		if x.k != wMap {
			w.decFail(wkNames[x.k], t)
		}
		m := (*p).(*Map)
		if m == nil {
			m = &Map{idx: map[interface{}]*ment{}}
			w.store(p, m)
		}
		for i, k := range x.keys {
			kp, vp := new(Value), new(Value)
			*kp, *vp = zero(u.Key()), zero(u.Elem())
			w.decVal(h, u.Key(), kp, k, depth+1)
			w.decVal(h, u.Elem(), vp, x.arr[i], depth+1)
			w.mapSet(m, *kp, *vp)
		}
	case *types.Struct:
		fs := structFields(u)
		if x.k == wArr {
			for i, y := range x.arr {
				if i < len(fs) {
					w.decVal(h, fs[i].typ, fieldPlace(w, t, p, fs[i].path), y, depth+1)
				} else if h.errorIfNoField {
					w.decFail("an element without a field", t)
				}
			}
			return
		}
		if x.k != wMap {
			w.decFail(wkNames[x.k], t)
		}
		for i, k := range x.keys {
			if k.k != wStr {
				panic(unsupported("struct key"))
			}
			found := false
			for _, f := range fs {
				if w.truth(w.strEq(k.v, f.name)) {
					w.decVal(h, f.typ, fieldPlace(w, t, p, f.path), x.arr[i], depth+1)
					found = true
					break
				}
			}
			if !found && h.errorIfNoField {
				w.decFail("a member without a field", t)
			}
		}
	default:
		w.decFail(wkNames[x.k], t)
	}
}

func (w *Worker) decInt(u *types.Basic, x *wv) Value {
	ii, _ := basicInt(u)
	from := types.Typ[types.Uint64]
	if x.signed {
		from = types.Typ[types.Int64]
	}
	v := w.convert(x.v, from, u)
	back := w.convert(v, u, from)
	ok := w.equal(back, x.v)
	if x.signed != ii.signed {
		// sign must be preserved
		i64 := intInfo{64, true}
		neg := w.binop(token.LSS, x.v, uint64(0), types.Typ[types.Int64], types.Typ[types.Int64], i64, true)
		ok = w.and(ok, w.not(neg))
	}
	if !w.truth(ok) {
		w.decFail("an integer that overflows", u)
	}
	return v
}

// natural is what the codec puts into a nil interface{}.
func (w *Worker) natural(h *handleState, x *wv, depth int) Value {
	anyT := types.NewInterfaceType(nil, nil)
	switch x.k {
	case wNil:
		return Iface{}
	case wBool:
		return Iface{T: types.Typ[types.Bool], V: x.v}
	case wFloat:
		return Iface{T: types.Typ[types.Float64], V: x.v}
	case wStr:
		if x.t != nil && h.format == "json" {
			panic(unsupported("bytes in an interface"))
		}
		if h.format == "msgpack" && !h.rawToString {
			return Iface{T: types.NewSlice(types.Typ[types.Byte]), V: append([]Value{}, strBytes(x.v)...)}
		}
		return Iface{T: types.Typ[types.String], V: x.v}
	case wInt:
		if x.quoted {
			panic(unsupported("an integer as text in an interface"))
		}
		signed := h.signedInteger
		i64 := intInfo{64, true}
		lt := func(c uint64) bool {
			return w.truth(w.binop(token.LSS, x.v, c, types.Typ[types.Int64], types.Typ[types.Int64], i64, true))
		}
		if signed {
		} else if h.format == "json" {
			signed = x.signed && lt(0)
		} else {
			signed = x.signed || w.truth(w.binop(token.LEQ, x.v, uint64(127), types.Typ[types.Uint64], types.Typ[types.Uint64], intInfo{64, false}, true))
		}
		if signed {
			return Iface{T: types.Typ[types.Int64], V: x.v}
		}
		return Iface{T: types.Typ[types.Uint64], V: x.v}
	case wArr:
		s := make([]Value, len(x.arr))
		for i, e := range x.arr {
			s[i] = w.natural(h, e, depth+1)
		}
		return Iface{T: types.NewSlice(anyT), V: s}
	case wMap:
		mt := h.mapType
		if mt == nil && h.format == "json" && h.mapKeyAsString {
			mt = types.NewMap(types.Typ[types.String], anyT)
		} else if mt == nil {
			mt = types.NewMap(anyT, anyT)
		}
		m := &Map{idx: map[interface{}]*ment{}}
		switch key := mt.Underlying().(*types.Map).Key().Underlying().(type) {
		case *types.Basic:
			if key.Kind() != types.String || !isAny(mt.Underlying().(*types.Map).Elem()) {
				panic(unsupported("codec option MapType " + mt.String()))
			}
		}
		for i, k := range x.keys {
			if k.k != wStr {
				panic(unsupported("map with non-string keys in an interface"))
			}
			key := k.v
			if isAny(mt.Underlying().(*types.Map).Key()) {
				key = Iface{T: types.Typ[types.String], V: k.v}
			}
			w.mapSet(m, key, w.natural(h, x.arr[i], depth+1))
		}
		return Iface{T: mt, V: m}
	}
	panic(unsupported("time in an interface"))
}

// promState is the input of a hash so far.
type promState struct{ buf []byte }

// jsonTree is what a reader of JSON who knows nothing of Go makes of a message.
func (w *Worker) jsonTree(x *wv) (Value, bool) {
	anyT := types.NewInterfaceType(nil, nil)
	switch x.k {
	case wNil:
		return Iface{}, true
	case wBool:
		return Iface{T: types.Typ[types.Bool], V: x.v}, true
	case wFloat:
		return Iface{T: types.Typ[types.Float64], V: x.v}, true
	case wInt:
		if x.quoted {
			return Iface{T: types.Typ[types.String], V: "an integer"}, true
		} else if x.signed {
			return Iface{T: types.Typ[types.Int64], V: x.v}, true
		}
		return Iface{T: types.Typ[types.Uint64], V: x.v}, true
	case wStr:
		if x.t == nil {
			return Iface{T: types.Typ[types.String], V: x.v}, true
		}
		txt, ok := x.v.(string)
		if !ok {
			panic(unsupported("base64 of symbolic bytes"))
		}
		return Iface{T: types.Typ[types.String], V: base64.StdEncoding.EncodeToString([]byte(txt))}, true
	case wArr:
		s := make([]Value, len(x.arr))
		for i, e := range x.arr {
			v, ok := w.jsonTree(e)
			if !ok {
				return nil, false
			}
			s[i] = v
		}
		return Iface{T: types.NewSlice(anyT), V: s}, true
	case wMap:
		m := &Map{idx: map[interface{}]*ment{}}
		if x.bare {
			return nil, false
		}
		for i, k := range x.keys {
			key := k.v
			switch k.k {
			case wStr:
			case wInt:
				n, ok := key.(uint64)
				if !ok {
					panic(unsupported("a symbolic number as key"))
				}
				key = strconv.FormatUint(n, 10)
				if k.signed {
					key = strconv.FormatInt(int64(n), 10)
				}
			case wBool:
				b, ok := key.(bool)
				if !ok {
					panic(unsupported("a symbolic bool as key"))
				}
				key = strconv.FormatBool(b)
			default:
				panic(unsupported("a " + wkNames[k.k] + " as key"))
			}
			v, ok := w.jsonTree(x.arr[i])
			if !ok {
				return nil, false
			}
			w.mapSet(m, key, v)
		}
		return Iface{T: types.NewMap(types.Typ[types.String], anyT), V: m}, true
	}
	return Iface{T: types.Typ[types.String], V: "a time"}, true
}

func init() {
	z := func(name string, f intrinsic) { intrinsics["github.com/foomo/gotsrpc/v2/zzvf."+name] = f }
	z("JSONValue", func(w *Worker, fr *frame, a []Value) Value {
		root, err := w.wire(&handleState{format: "json"}, a[0].([]Value))
		if err != "" {
			return Tuple{Iface{}, false}
		}
		v, ok := w.jsonTree(root)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	})
	z("JSON", func(w *Worker, fr *frame, a []Value) Value {
		h := &handleState{format: "json", exts: map[string]Value{}}
		h.mapKeyAsString = true
		root, err := w.encodeTop(h, a[0])
		if err != nil {
			panic(unsupported("zzvf.JSON: " + err.msg))
		}
		w.nblob++
		b := &Blob{id: w.nblob, format: "json", root: root, n: 5 + 2*w.nblob}
		bs := make([]Value, b.n)
		for i := range bs {
			bs[i] = &Opq{b, i}
		}
		return bs
	})
}
