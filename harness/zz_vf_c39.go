package gotsrpc

//vf:bound struct types registered for JSON with an extension that sends them as a text or a number, or for msgpack with one that sends bytes, with any int64 and any string of up to 2 bytes; as argument, result, element, value of a map, field, behind a pointer, nil; both encodings
//vf:outside extensions that send lists or maps (the codec itself cannot read those); extensions for types the codec knows itself
//vf:stub codec: structural model; transport: in memory

import (
	"github.com/ugorji/go/codec"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfPlain39 struct {
	N int64
	S string
}

type vfExt39 struct {
	N int64
	S string
}

type vfExt39N vfExt39

type vfExt39Ext struct{ form int }

func vfOf39(v interface{}) *vfExt39 {
	switch e := v.(type) {
	case *vfExt39N:
		return (*vfExt39)(e)
	}
	return v.(*vfExt39)
}

// the extensions are registered before anything is encoded, as the codec demands
func init() {
	vfErr39 = [3]error{
		SetJSONExt(vfExt39{}, 7, vfExt39Ext{0}),
		SetJSONExt(vfExt39N{}, 8, vfExt39Ext{1}),
		SetMSGPackExt(vfExt39B{}, 9, vfExt39Bytes{}),
	}
}

var vfErr39 [3]error

func (x vfExt39Ext) ConvertExt(v interface{}) interface{} {
	e := vfOf39(v)
	switch x.form {
	case 0:
		return "s:" + e.S
	}
	return e.N
}

func (x vfExt39Ext) UpdateExt(dst interface{}, src interface{}) {
	e := vfOf39(dst)
	switch x.form {
	case 0:
		e.S = src.(string)[2:]
	default:
		switch n := src.(type) {
		case int64:
			e.N = n
		case uint64:
			e.N = int64(n)
		}
	}
}

// vfExt39B is the other kind of extension, for msgpack.
type vfExt39B struct {
	N int64
	S string
}

type vfExt39Bytes struct{}

var _ codec.BytesExt = vfExt39Bytes{}

func (x vfExt39Bytes) WriteExt(v interface{}) []byte {
	e := v.(*vfExt39B)
	return append([]byte("b:"), e.S...)
}

func (x vfExt39Bytes) ReadExt(dst interface{}, src []byte) {
	dst.(*vfExt39B).S = string(src[2:])
}

type vfHolder39[E any] struct {
	E    E
	P    *E
	Same vfPlain39
}

// VF_C39_Text, VF_C39_Number, VF_C39_Bytes: a registered type is sent as its
// extension says.
func VF_C39_Text() { vfC39[vfExt39](0) }

func VF_C39_Number() { vfC39[vfExt39N](1) }

func VF_C39_Bytes() { vfC39[vfExt39B](2) }

func vfC39[E vfExt39 | vfExt39N | vfExt39B](form int) {
	zzvf.Assert(vfErr39[form] == nil, "an extension is registered")
	enc := vfEncoding("json")
	e := E{zzvf.Int64("n"), zzvf.Str("s", zzvf.Choose("slen", 3))}
	p := vfPlain39(e)
	want := e
	if form == 2 {
		if enc == EncodingMsgpack {
			want = E{S: vfExt39(e).S}
		}
	} else if enc == EncodingJson {
		if form == 0 {
			want = E{S: vfExt39(e).S}
		} else if form == 1 {
			want = E{N: vfExt39(e).N}
		}
	}
	var ptr *E
	if zzvf.Bool("pointer") {
		ptr = &e
	}
	vals := []interface{}{e, ptr, []E{e, e}, map[string]E{"k": e}, vfHolder39[E]{e, ptr, p}, p}
	check := func(e1 E, e2 *E, l []E, m map[string]E, h vfHolder39[E], p1 vfPlain39) {
		zzvf.Assert(e1 == want, "a registered type passes as its extension says")
		zzvf.Assert((e2 == nil) == (ptr == nil) && (e2 == nil || *e2 == want), "a registered type passes behind a pointer")
		zzvf.Assert(len(l) == 2 && l[0] == want && l[1] == want, "a registered type passes in a list")
		zzvf.Assert(len(m) == 1 && m["k"] == want, "a registered type passes in a map")
		zzvf.Assert(h.E == want && (h.P == nil) == (ptr == nil) && (h.P == nil || *h.P == want), "a registered type passes in a field")
		zzvf.Assert(h.Same == p && p1 == p, "other types pass as they are")
	}
	ct := vfTypeOf(enc)
	if enc == EncodingJson {
		ct = []string{ct, "application/json", ""}[zzvf.Choose("content type", 3)]
	}
	r := vfPost("POST", "/e/m", ct, vfArgsBody(enc, vals))
	{
		var e1 E
		var e2 *E
		var l []E
		var m map[string]E
		var h vfHolder39[E]
		var p1 vfPlain39
		zzvf.Assert(LoadArgs(&[]interface{}{&e1, &e2, &l, &m, &h, &p1}, &CallStats{}, r) == nil, "arguments of a registered type are read")
		check(e1, e2, l, m, h, p1)
	}
	{
		var e1 E
		var e2 *E
		var l []E
		var m map[string]E
		var h vfHolder39[E]
		var p1 vfPlain39
		rw := newVFRW()
		zzvf.Assert(Reply(vals, nil, r, rw) == nil, "results of a registered type are sent")
		zzvf.Assert(vfReceive(rw, []interface{}{&e1, &e2, &l, &m, &h, &p1}) == nil, "results of a registered type are received")
		check(e1, e2, l, m, h, p1)
	}
	zzvf.Reach("end")
}
