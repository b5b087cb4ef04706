package main

// Model of package reflect (and internal/reflectlite) on top of go/types.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

var kindOf = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32,
	types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32,
	types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
	types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

// rstring is reflect.Type.String.
func rstring(t types.Type) string {
	switch u := t.(type) {
	case *types.Alias:
		return rstring(types.Unalias(t))
	case *types.Named:
		o := u.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = o.Pkg().Name() + "." + s
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var p []string
			for i := 0; i < ta.Len(); i++ {
				p = append(p, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(p, ",") + "]"
		}
		return s
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return types.Typ[u.Kind()].Name()
	case *types.Pointer:
		return "*" + rstring(u.Elem())
	case *types.Slice:
		return "[]" + rstring(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rstring(u.Elem()))
	case *types.Map:
		return "map[" + rstring(u.Key()) + "]" + rstring(u.Elem())
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + rstring(u.Elem())
		case types.RecvOnly:
			return "<-chan " + rstring(u.Elem())
		}
		return "chan " + rstring(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var p []string
		for i := 0; i < u.NumMethods(); i++ {
			p = append(p, u.Method(i).Name()+strings.TrimPrefix(rstring(u.Method(i).Type()), "func"))
		}
		return "interface { " + strings.Join(p, "; ") + " }"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var p []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := ""
			if !f.Embedded() {
				s = f.Name() + " "
			}
			s += rstring(f.Type())
			if u.Tag(i) != "" {
				s += fmt.Sprintf(" %q", u.Tag(i))
			}
			p = append(p, s)
		}
		return "struct { " + strings.Join(p, "; ") + " }"
	case *types.Signature:
		var in, out []string
		for i := 0; i < u.Params().Len(); i++ {
			pt := u.Params().At(i).Type()
			if u.Variadic() && i == u.Params().Len()-1 {
				in = append(in, "..."+rstring(pt.(*types.Slice).Elem()))
			} else {
				in = append(in, rstring(pt))
			}
		}
		for i := 0; i < u.Results().Len(); i++ {
			out = append(out, rstring(u.Results().At(i).Type()))
		}
		s := "func(" + strings.Join(in, ", ") + ")"
		if len(out) == 1 {
			s += " " + out[0]
		} else if len(out) > 1 {
			s += " (" + strings.Join(out, ", ") + ")"
		}
		return s
	}
	return t.String()
}

func (p *Program) rtypeIface(t types.Type, lite bool) Value {
	if t == nil {
		return Iface{}
	}
	t = types.Unalias(t)
	if lite {
		return Iface{T: p.typ("internal/reflectlite", "rtype"), V: RType{t}}
	}
	p.mu.Lock()
	if p.rtypeT == nil {
		p.rtypeT = types.NewPointer(p.typ("reflect", "rtype"))
	}
	rt := p.rtypeT
	p.mu.Unlock()
	return Iface{T: rt, V: RType{t}}
}

func typeOfArg(v Value) types.Type {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return nil
		}
		if r, ok := x.V.(RType); ok {
			return r.t
		}
	case RType:
		return x.t
	}
	panic(unsupported(fmt.Sprintf("reflect type %T", v)))
}

func (w *Worker) valueErr(method string, rv RV) {
	k := "zero"
	if rv.t != nil {
		k = rkind(rv.t).String()
	}
	w.rtPanicPlain("reflect: call of reflect.Value." + method + " on " + k + " Value")
}

func (w *Worker) rvElem(rv RV) RV {
	switch rkind(rv.t) {
	case reflect.Ptr:
		switch p := rv.get().(type) {
		case *Value:
			if p == nil {
				return RV{}
			}
			return RV{t: rv.t.Underlying().(*types.Pointer).Elem(), addr: p, ro: rv.ro}
		case RType:
			panic(unsupported("reflection on a reflect.Type"))
		}
	case reflect.Interface:
		iv := rv.get().(Iface)
		if iv.T == nil {
			return RV{}
		}
		return RV{t: iv.T, v: iv.V, ro: rv.ro}
	}
	w.valueErr("Elem", rv)
	return RV{}
}

func (w *Worker) rvField(rv RV, i int) RV {
	st, ok := rv.t.Underlying().(*types.Struct)
	if !ok {
		w.valueErr("Field", rv)
	}
	if i < 0 || i >= st.NumFields() {
		w.rtPanicPlain("reflect: Field index out of range")
	}
	f := st.Field(i)
	r := RV{t: f.Type(), ro: rv.ro || !f.Exported()}
	if rv.addr != nil {
		s, ok := (*rv.addr).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("reflect field of %T", *rv.addr)))
		}
		r.addr = &s[i]
	} else {
		s, ok := rv.v.(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("reflect field of %T", rv.v)))
		}
		r.v = s[i]
	}
	return r
}

// isZero is reflect.Value.IsZero as a value.
func (w *Worker) isZeroVal(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r Value = true
		s := v.(Struct)
		for i := range s {
			r = w.and(r, w.isZeroVal(u.Field(i).Type(), s[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		var r Value = true
		for _, x := range v.(Array) {
			r = w.and(r, w.isZeroVal(u.Elem(), x))
			if r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		return v.(Iface).T == nil
	case *types.Slice:
		return v.([]Value) == nil
	case *types.Map:
		return v.(*Map) == nil
	case *types.Signature:
		return v.(*Closure) == nil
	case *types.Chan:
		return v.(*Chan) == nil
	case *types.Pointer:
		if p, ok := v.(*Value); ok {
			return p == nil
		}
		return false
	}
	return w.equal(v, zero(t))
}

func (w *Worker) rvIsNil(rv RV) Value {
	switch v := rv.get().(type) {
	case *Value:
		return v == nil
	case Iface:
		return v.T == nil
	case []Value:
		return v == nil
	case *Map:
		return v == nil
	case *Closure:
		return v == nil
	case *Chan:
		return v == nil
	case RType:
		return false
	}
	w.valueErr("IsNil", rv)
	return nil
}

func (w *Worker) rvInterface(rv RV) Value {
	if rv.t == nil {
		w.valueErr("Interface", rv)
	}
	v := rv.get()
	if rkind(rv.t) == reflect.Interface {
		return v
	}
	return Iface{T: rv.t, V: v}
}

func (w *Worker) rvLen(rv RV) Value {
	switch v := rv.get().(type) {
	case string, *SStr:
		return uint64(strLen(v))
	case []Value:
		return uint64(len(v))
	case Array:
		return uint64(len(v))
	case *Map:
		if v == nil {
			return uint64(0)
		}
		return uint64(v.live)
	case *Chan:
		return uint64(len(v.buf))
	}
	w.valueErr("Len", rv)
	return nil
}

func (w *Worker) rvIndex(rv RV, i int) RV {
	switch rkind(rv.t) {
	case reflect.Slice:
		s := rv.get().([]Value)
		if i < 0 || i >= len(s) {
			w.rtPanicPlain("reflect: slice index out of range")
		}
		return RV{t: rv.t.Underlying().(*types.Slice).Elem(), addr: &s[i], ro: rv.ro}
	case reflect.Array:
		et := rv.t.Underlying().(*types.Array).Elem()
		if rv.addr != nil {
			a := (*rv.addr).(Array)
			if i < 0 || i >= len(a) {
				w.rtPanicPlain("reflect: array index out of range")
			}
			return RV{t: et, addr: &a[i], ro: rv.ro}
		}
		a := rv.v.(Array)
		if i < 0 || i >= len(a) {
			w.rtPanicPlain("reflect: array index out of range")
		}
		return RV{t: et, v: a[i], ro: rv.ro}
	case reflect.String:
		return RV{t: types.Typ[types.Uint8], v: strByte(rv.get(), i), ro: rv.ro}
	}
	w.valueErr("Index", rv)
	return RV{}
}

// assignTo converts v of type from for storage in a location of type to.
func (w *Worker) assignTo(rv RV, to types.Type) Value {
	v := rv.get()
	if rkind(to) == reflect.Interface {
		if rkind(rv.t) == reflect.Interface {
			return v
		}
		return Iface{T: rv.t, V: v}
	}
	if !types.AssignableTo(rv.t, to) {
		w.rtPanicPlain("reflect.Set: value of type " + rstring(rv.t) + " is not assignable to type " + rstring(to))
	}
	return v
}

func (w *Worker) rvSet(rv RV, v Value, m string) {
	if rv.addr == nil || rv.ro {
		w.rtPanicPlain("reflect: reflect.Value." + m + " using unaddressable value")
	}
	w.store(rv.addr, v)
}

// structField builds a reflect.StructField value.
func (w *Worker) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return Struct{f.Name(), pkg, w.prog.rtypeIface(f.Type(), false), st.Tag(i), uint64(0), []Value{uint64(i)}, f.Embedded()}
}

func (w *Worker) fieldByName(t types.Type, name string) (path []int, ok bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, false, nil, name)
	if v, is := obj.(*types.Var); is && v.IsField() {
		return idx, true
	}
	return nil, false
}

func exportedMethods(w *Worker, t types.Type) []*types.Selection {
	ms := w.prog.msc.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func init() {
	type rtf func(w *Worker, t types.Type, args []Value, lite bool) Value
	meth := func(name string, f rtf) {
		intrinsics["(*reflect.rtype)."+name] = func(w *Worker, fr *frame, a []Value) Value { return f(w, typeOfArg(a[0]), a[1:], false) }
		intrinsics["(internal/reflectlite.rtype)."+name] = func(w *Worker, fr *frame, a []Value) Value { return f(w, typeOfArg(a[0]), a[1:], true) }
	}
	meth("Kind", func(w *Worker, t types.Type, a []Value, l bool) Value { return uint64(rkind(t)) })
	meth("String", func(w *Worker, t types.Type, a []Value, l bool) Value { return rstring(t) })
	meth("Name", func(w *Worker, t types.Type, a []Value, l bool) Value {
		switch u := t.(type) {
		case *types.Named:
			s := rstring(u)
			if u.Obj().Pkg() != nil {
				s = strings.TrimPrefix(s, u.Obj().Pkg().Name()+".")
			}
			return s
		case *types.Basic:
			return rstring(u)
		}
		return ""
	})
	meth("PkgPath", func(w *Worker, t types.Type, a []Value, l bool) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	meth("Elem", func(w *Worker, t types.Type, a []Value, l bool) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.prog.rtypeIface(u.Elem(), l)
		case *types.Slice:
			return w.prog.rtypeIface(u.Elem(), l)
		case *types.Array:
			return w.prog.rtypeIface(u.Elem(), l)
		case *types.Map:
			return w.prog.rtypeIface(u.Elem(), l)
		case *types.Chan:
			return w.prog.rtypeIface(u.Elem(), l)
		}
		w.rtPanicPlain("reflect: Elem of invalid type " + rstring(t))
		return nil
	})
	meth("Key", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return w.prog.rtypeIface(t.Underlying().(*types.Map).Key(), l)
	})
	meth("Len", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return uint64(t.Underlying().(*types.Array).Len())
	})
	meth("Comparable", func(w *Worker, t types.Type, a []Value, l bool) Value { return types.Comparable(t) })
	meth("Implements", func(w *Worker, t types.Type, a []Value, l bool) Value {
		it, ok := typeOfArg(a[0]).Underlying().(*types.Interface)
		if !ok {
			w.rtPanicPlain("reflect: non-interface type passed to Type.Implements")
		}
		return w.prog.implements(t, it)
	})
	meth("AssignableTo", func(w *Worker, t types.Type, a []Value, l bool) Value { return types.AssignableTo(t, typeOfArg(a[0])) })
	meth("ConvertibleTo", func(w *Worker, t types.Type, a []Value, l bool) Value { return types.ConvertibleTo(t, typeOfArg(a[0])) })
	meth("NumField", func(w *Worker, t types.Type, a []Value, l bool) Value {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.rtPanicPlain("reflect: NumField of non-struct type " + rstring(t))
		}
		return uint64(st.NumFields())
	})
	meth("Field", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return w.structField(t.Underlying().(*types.Struct), w.cint(a[0]))
	})
	meth("FieldByName", func(w *Worker, t types.Type, a []Value, l bool) Value {
		idx, ok := w.fieldByName(t, a[0].(string))
		if !ok {
			return Tuple{zero(w.prog.typ("reflect", "StructField")), false}
		}
		cur := t
		var f Value
		for _, i := range idx {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
			st := cur.Underlying().(*types.Struct)
			f = w.structField(st, i)
			cur = st.Field(i).Type()
		}
		var ix []Value
		for _, i := range idx {
			ix = append(ix, uint64(i))
		}
		f.(Struct)[5] = ix
		return Tuple{f, true}
	})
	meth("NumMethod", func(w *Worker, t types.Type, a []Value, l bool) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(exportedMethods(w, t)))
	})
	meth("Bits", func(w *Worker, t types.Type, a []Value, l bool) Value {
		if ii, ok := basicInt(t); ok {
			return uint64(ii.w)
		}
		if rkind(t) == reflect.Float32 {
			return uint64(32)
		}
		return uint64(64)
	})
	meth("Size", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	})
	meth("NumIn", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	})
	meth("NumOut", func(w *Worker, t types.Type, a []Value, l bool) Value {
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	})
	meth("common", func(w *Worker, t types.Type, a []Value, l bool) Value { panic(unsupported("reflect.Type.common")) })

	typeOf := func(lite bool) intrinsic {
		return func(w *Worker, fr *frame, a []Value) Value {
			iv, ok := a[0].(Iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("TypeOf(%T)", a[0])))
			}
			return w.prog.rtypeIface(iv.T, lite)
		}
	}
	reg("reflect.TypeOf", typeOf(false))
	reg("internal/reflectlite.TypeOf", typeOf(true))
	reg("reflect.ValueOf internal/reflectlite.ValueOf", func(w *Worker, fr *frame, a []Value) Value {
		iv, ok := a[0].(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("ValueOf(%T)", a[0])))
		}
		if iv.T == nil {
			return RV{}
		}
		return RV{t: types.Unalias(iv.T), v: iv.V}
	})
	reg("reflect.PointerTo reflect.PtrTo", func(w *Worker, fr *frame, a []Value) Value {
		return w.prog.rtypeIface(types.NewPointer(typeOfArg(a[0])), false)
	})
	reg("reflect.SliceOf", func(w *Worker, fr *frame, a []Value) Value {
		return w.prog.rtypeIface(types.NewSlice(typeOfArg(a[0])), false)
	})
	reg("reflect.MapOf", func(w *Worker, fr *frame, a []Value) Value {
		return w.prog.rtypeIface(types.NewMap(typeOfArg(a[0]), typeOfArg(a[1])), false)
	})
	reg("reflect.New", func(w *Worker, fr *frame, a []Value) Value {
		t := typeOfArg(a[0])
		p := new(Value)
		*p = zero(t)
		return RV{t: types.NewPointer(t), v: p}
	})
	reg("reflect.Zero", func(w *Worker, fr *frame, a []Value) Value {
		t := typeOfArg(a[0])
		return RV{t: t, v: zero(t)}
	})
	reg("reflect.Indirect", func(w *Worker, fr *frame, a []Value) Value {
		rv := a[0].(RV)
		if rv.t == nil || rkind(rv.t) != reflect.Ptr {
			return rv
		}
		return w.rvElem(rv)
	})
	reg("reflect.MakeSlice", func(w *Worker, fr *frame, a []Value) Value {
		t := typeOfArg(a[0])
		s := make([]Value, w.cint(a[2]))
		fillZero(s, t.Underlying().(*types.Slice).Elem())
		return RV{t: t, v: s[:w.cint(a[1])]}
	})
	reg("reflect.MakeMap", func(w *Worker, fr *frame, a []Value) Value {
		return RV{t: typeOfArg(a[0]), v: &Map{idx: map[interface{}]*ment{}}}
	})
	reg("reflect.MakeMapWithSize", func(w *Worker, fr *frame, a []Value) Value {
		return RV{t: typeOfArg(a[0]), v: &Map{idx: map[interface{}]*ment{}}}
	})
	reg("reflect.Append", func(w *Worker, fr *frame, a []Value) Value {
		rv := a[0].(RV)
		et := rv.t.Underlying().(*types.Slice).Elem()
		s := rv.get().([]Value)
		for _, x := range a[1].([]Value) {
			s = w.appendSlice(s, []Value{w.assignTo(x.(RV), et)}, et)
		}
		return RV{t: rv.t, v: s}
	})
	reg("reflect.DeepEqual", func(w *Worker, fr *frame, a []Value) Value { return w.deepEqual(a[0], a[1], 0) })
	swapper := func(w *Worker, fr *frame, a []Value) Value {
		s := a[0].(Iface).V.([]Value)
		return &Closure{name: "swapper", native: func(w *Worker, fr *frame, b []Value) Value {
			i, j := w.cint(b[0]), w.cint(b[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			w.store(&s[i], y)
			w.store(&s[j], x)
			return nil
		}}
	}
	reg("reflect.Swapper internal/reflectlite.Swapper", swapper)

	type rvf func(w *Worker, rv RV, a []Value) Value
	vm := func(names string, f rvf) {
		for _, name := range strings.Fields(names) {
			g := func(w *Worker, fr *frame, a []Value) Value {
				rv, ok := a[0].(RV)
				if !ok {
					panic(unsupported(fmt.Sprintf("reflect.Value is %T", a[0])))
				}
				return f(w, rv, a[1:])
			}
			intrinsics["(reflect.Value)."+name] = g
			intrinsics["(internal/reflectlite.Value)."+name] = g
		}
	}
	vm("IsValid", func(w *Worker, rv RV, a []Value) Value { return rv.t != nil })
	vm("Kind kind", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			return uint64(0)
		}
		return uint64(rkind(rv.t))
	})
	intrinsics["(reflect.Value).Type"] = func(w *Worker, fr *frame, a []Value) Value {
		rv := a[0].(RV)
		if rv.t == nil {
			w.valueErr("Type", rv)
		}
		return w.prog.rtypeIface(rv.t, false)
	}
	intrinsics["(internal/reflectlite.Value).Type"] = func(w *Worker, fr *frame, a []Value) Value {
		return w.prog.rtypeIface(a[0].(RV).t, true)
	}
	vm("Elem", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			w.valueErr("Elem", rv)
		}
		return w.rvElem(rv)
	})
	vm("IsNil", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			w.valueErr("IsNil", rv)
		}
		return w.rvIsNil(rv)
	})
	vm("IsZero", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			w.valueErr("IsZero", rv)
		}
		return w.isZeroVal(rv.t, rv.get())
	})
	vm("Interface", func(w *Worker, rv RV, a []Value) Value {
		if rv.ro {
			w.rtPanicPlain("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.rvInterface(rv)
	})
	vm("CanInterface", func(w *Worker, rv RV, a []Value) Value { return rv.t != nil && !rv.ro })
	vm("CanAddr", func(w *Worker, rv RV, a []Value) Value { return rv.addr != nil })
	vm("CanSet", func(w *Worker, rv RV, a []Value) Value { return rv.addr != nil && !rv.ro })
	vm("Addr", func(w *Worker, rv RV, a []Value) Value {
		if rv.addr == nil {
			w.rtPanicPlain("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: types.NewPointer(rv.t), v: rv.addr, ro: rv.ro}
	})
	vm("Set", func(w *Worker, rv RV, a []Value) Value {
		x := a[0].(RV)
		if x.t == nil {
			w.rtPanicPlain("reflect: call of reflect.Value.Set on zero Value")
		}
		w.rvSet(rv, w.assignTo(x, rv.t), "Set")
		return nil
	})
	vm("SetString", func(w *Worker, rv RV, a []Value) Value { w.rvSet(rv, a[0], "SetString"); return nil })
	vm("SetBool", func(w *Worker, rv RV, a []Value) Value { w.rvSet(rv, a[0], "SetBool"); return nil })
	vm("SetFloat", func(w *Worker, rv RV, a []Value) Value {
		w.rvSet(rv, w.convert(a[0], types.Typ[types.Float64], rv.t), "SetFloat")
		return nil
	})
	vm("SetInt", func(w *Worker, rv RV, a []Value) Value {
		w.rvSet(rv, w.convert(a[0], types.Typ[types.Int64], rv.t), "SetInt")
		return nil
	})
	vm("SetUint", func(w *Worker, rv RV, a []Value) Value {
		w.rvSet(rv, w.convert(a[0], types.Typ[types.Uint64], rv.t), "SetUint")
		return nil
	})
	vm("SetBytes", func(w *Worker, rv RV, a []Value) Value { w.rvSet(rv, a[0], "SetBytes"); return nil })
	vm("SetLen", func(w *Worker, rv RV, a []Value) Value {
		w.rvSet(rv, rv.get().([]Value)[:w.cint(a[0])], "SetLen")
		return nil
	})
	vm("SetZero", func(w *Worker, rv RV, a []Value) Value { w.rvSet(rv, zero(rv.t), "SetZero"); return nil })
	vm("SetMapIndex", func(w *Worker, rv RV, a []Value) Value {
		m := rv.get().(*Map)
		mt := rv.t.Underlying().(*types.Map)
		k := w.assignTo(a[0].(RV), mt.Key())
		x := a[1].(RV)
		if x.t == nil {
			w.mapDelete(m, k)
		} else {
			if m == nil {
				w.rtPanicPlain("assignment to entry in nil map")
			}
			w.mapSet(m, k, w.assignTo(x, mt.Elem()))
		}
		return nil
	})
	vm("Int", func(w *Worker, rv RV, a []Value) Value {
		ii, ok := basicInt(rv.t)
		if !ok || !ii.signed {
			w.valueErr("Int", rv)
		}
		return w.convert(rv.get(), rv.t, types.Typ[types.Int64])
	})
	vm("Uint", func(w *Worker, rv RV, a []Value) Value {
		ii, ok := basicInt(rv.t)
		if !ok || ii.signed {
			w.valueErr("Uint", rv)
		}
		return w.convert(rv.get(), rv.t, types.Typ[types.Uint64])
	})
	vm("CanInt", func(w *Worker, rv RV, a []Value) Value { ii, ok := basicInt(rv.t); return ok && ii.signed })
	vm("CanUint", func(w *Worker, rv RV, a []Value) Value { ii, ok := basicInt(rv.t); return ok && !ii.signed })
	vm("Bool", func(w *Worker, rv RV, a []Value) Value {
		if !isBool(rv.t) {
			w.valueErr("Bool", rv)
		}
		return rv.get()
	})
	vm("Float", func(w *Worker, rv RV, a []Value) Value {
		if !isFloat(rv.t) {
			w.valueErr("Float", rv)
		}
		return rv.get()
	})
	vm("Complex", func(w *Worker, rv RV, a []Value) Value { return rv.get() })
	vm("String", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			return "<invalid Value>"
		}
		if isString(rv.t) {
			return rv.get()
		}
		return "<" + rstring(rv.t) + " Value>"
	})
	vm("Bytes", func(w *Worker, rv RV, a []Value) Value { return rv.get() })
	vm("Len", func(w *Worker, rv RV, a []Value) Value { return w.rvLen(rv) })
	vm("Cap", func(w *Worker, rv RV, a []Value) Value { return uint64(cap(rv.get().([]Value))) })
	vm("Index", func(w *Worker, rv RV, a []Value) Value { return w.rvIndex(rv, w.cint(a[0])) })
	vm("NumField", func(w *Worker, rv RV, a []Value) Value {
		st, ok := rv.t.Underlying().(*types.Struct)
		if !ok {
			w.valueErr("NumField", rv)
		}
		return uint64(st.NumFields())
	})
	vm("Field", func(w *Worker, rv RV, a []Value) Value {
		if rv.t == nil {
			w.valueErr("Field", rv)
		}
		return w.rvField(rv, w.cint(a[0]))
	})
	vm("FieldByIndex", func(w *Worker, rv RV, a []Value) Value {
		for _, i := range a[0].([]Value) {
			if rkind(rv.t) == reflect.Ptr {
				rv = w.rvElem(rv)
			}
			rv = w.rvField(rv, w.cint(i))
		}
		return rv
	})
	vm("FieldByName", func(w *Worker, rv RV, a []Value) Value {
		idx, ok := w.fieldByName(rv.t, a[0].(string))
		if !ok {
			return RV{}
		}
		for _, i := range idx {
			if rkind(rv.t) == reflect.Ptr {
				rv = w.rvElem(rv)
			}
			rv = w.rvField(rv, i)
		}
		return rv
	})
	vm("MapKeys", func(w *Worker, rv RV, a []Value) Value {
		m := rv.get().(*Map)
		kt := rv.t.Underlying().(*types.Map).Key()
		out := []Value{}
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, RV{t: kt, v: copyVal(e.k), id: new(int)})
				}
			}
		}
		return out
	})
	vm("MapIndex", func(w *Worker, rv RV, a []Value) Value {
		mt := rv.t.Underlying().(*types.Map)
		e := w.mapGet(rv.get().(*Map), w.assignTo(a[0].(RV), mt.Key()))
		if e == nil {
			return RV{}
		}
		return RV{t: mt.Elem(), v: copyVal(e.v)}
	})
	vm("MapRange", func(w *Worker, rv RV, a []Value) Value {
		p := new(Value)
		var it Value = &rvMapIter{t: rv.t.Underlying().(*types.Map), it: w.rangeIter(nil, rv.get()).(*mapIter)}
		*p = it
		return p
	})
	reg("(*reflect.MapIter).Next", func(w *Worker, fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		it.cur = it.it.next(w, fr).(Tuple)
		return it.cur[0]
	})
	reg("(*reflect.MapIter).Key", func(w *Worker, fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		return RV{t: it.t.Key(), v: it.cur[1]}
	})
	reg("(*reflect.MapIter).Value", func(w *Worker, fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(*rvMapIter)
		return RV{t: it.t.Elem(), v: it.cur[2]}
	})
	vm("NumMethod", func(w *Worker, rv RV, a []Value) Value { return uint64(len(exportedMethods(w, rv.t))) })
	vm("Method", func(w *Worker, rv RV, a []Value) Value {
		ms := exportedMethods(w, rv.t)
		sel := ms[w.cint(a[0])]
		return w.boundMethod(rv, sel.Obj().Name())
	})
	vm("MethodByName", func(w *Worker, rv RV, a []Value) Value {
		for _, m := range exportedMethods(w, rv.t) {
			if m.Obj().Name() == a[0] {
				return w.boundMethod(rv, m.Obj().Name())
			}
		}
		return RV{}
	})
	vm("Call", func(w *Worker, rv RV, a []Value) Value {
		sig := rv.t.Underlying().(*types.Signature)
		var args []Value
		for i, x := range a[0].([]Value) {
			args = append(args, w.assignTo(x.(RV), sig.Params().At(i).Type()))
		}
		r := w.callValue(w.curFrame, rv.get(), args)
		out := []Value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, RV{t: sig.Results().At(0).Type(), v: r})
		default:
			for i, x := range r.(Tuple) {
				out = append(out, RV{t: sig.Results().At(i).Type(), v: x})
			}
		}
		return out
	})
	vm("Slice", func(w *Worker, rv RV, a []Value) Value {
		i, j := w.cint(a[0]), w.cint(a[1])
		switch v := rv.get().(type) {
		case []Value:
			return RV{t: rv.t, v: v[i:j]}
		case string, *SStr:
			return RV{t: rv.t, v: strSlice(v, i, j)}
		}
		panic(unsupported("reflect Slice"))
	})
	vm("Convert", func(w *Worker, rv RV, a []Value) Value {
		t := typeOfArg(a[0])
		if rkind(t) == reflect.Interface {
			return RV{t: t, v: w.rvInterface(rv)}
		}
		return RV{t: t, v: w.convert(rv.get(), rv.t, t)}
	})
	vm("CanConvert", func(w *Worker, rv RV, a []Value) Value { return types.ConvertibleTo(rv.t, typeOfArg(a[0])) })
	vm("Comparable", func(w *Worker, rv RV, a []Value) Value { return rv.t == nil || types.Comparable(rv.t) })
	vm("Pointer UnsafePointer", func(w *Worker, rv RV, a []Value) Value {
		if w.rvIsNil(rv) == true {
			return uint64(0)
		}
		return uint64(0xc000000000)
	})
	vm("OverflowInt OverflowUint OverflowFloat", func(w *Worker, rv RV, a []Value) Value { return false })
	reg("reflect.Copy", func(w *Worker, fr *frame, a []Value) Value {
		d, s := a[0].(RV).get().([]Value), a[1].(RV).get().([]Value)
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			w.store(&d[i], copyVal(s[i]))
		}
		return uint64(n)
	})
}

type rvMapIter struct {
	t   *types.Map
	it  *mapIter
	cur Tuple
}

func (w *Worker) boundMethod(rv RV, name string) Value {
	fn := w.prog.methodByName(rv.t, name)
	recv := rv.get()
	if iv, ok := recv.(Iface); ok && rkind(rv.t) == reflect.Interface {
		fn = w.prog.methodByName(iv.T, name)
		recv = iv.V
	}
	sig := fn.Signature
	var ps []*types.Var
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
	return RV{t: ft, v: &Closure{name: name, native: func(w *Worker, fr *frame, a []Value) Value {
		return w.callFn(fr, fn, append([]Value{recv}, a...), nil)
	}}}
}

// deepEqual is reflect.DeepEqual on interface operands (symbolic leaves allowed).
func (w *Worker) deepEqual(x, y Value, d int) Value {
	if d > 200 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		return w.deepEqual(a.V, b.V, d+1)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return w.deepEqual(*a, *b, d+1)
	case Struct:
		return w.deepAgg(a, y.(Struct), d)
	case Array:
		return w.deepAgg(a, y.(Array), d)
	case []Value:
		b := y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		return w.deepAgg(a, b, d)
	case *Map:
		b := y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.live != b.live {
			return false
		}
		var r Value = true
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := w.mapGet(b, e.k)
			if o == nil {
				return false
			}
			r = w.and(r, w.deepEqual(e.v, o.v, d+1))
		}
		return r
	case *Closure:
		b := y.(*Closure)
		return a == nil && b == nil
	}
	return w.equal(x, y)
}

func (w *Worker) deepAgg(a, b []Value, d int) Value {
	var r Value = true
	for i := range a {
		r = w.and(r, w.deepEqual(a[i], b[i], d+1))
		if r == false {
			return false
		}
	}
	return r
}
