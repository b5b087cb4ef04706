package gotsrpc

//vf:bound unions of 0..4 variants whose types are pointers to structs, pointers to scalars, slices, maps, strings, interfaces and nested structs, all of which set or unset in any combination, values of up to 2 bytes and any int64; by pointer and by value; through ConvertExt and through a JSON reply
//vf:outside reading a union (UpdateExt does nothing and is documented nowhere); unions sent as msgpack, which are sent as structs
//vf:stub codec: structural model

import (
	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfVarA struct {
	A string `json:"a"`
}

type vfVarB struct {
	B int64 `json:"b"`
}

type vfUnion0 struct{}

type vfUnionP struct {
	A *vfVarA
	B *vfVarB
	C *vfVarA
}

type vfUnionMix struct {
	S *string
	L []string
	M map[string]int64
	I interface{}
}

type vfUnionVal struct {
	S string
	A vfVarA
	N int64
	B bool
}

func init() {
	MustRegisterUnionExt(vfUnion0{}, vfUnionP{}, vfUnionMix{}, vfUnionVal{})
}

func vfConvert(v, p interface{}) interface{} {
	x := unionExt.ConvertExt(v)
	y := unionExt.ConvertExt(p)
	zzvf.Assert((x == nil) == (y == nil), "a union by pointer and by value converts alike")
	return y
}

// VF_C17_Pointers: the first pointer set is what is sent.
func VF_C17_Pointers() {
	var u vfUnionP
	var want interface{}
	if zzvf.Bool("a") {
		u.A = &vfVarA{vfText("av", 3)}
	}
	if zzvf.Bool("b") {
		u.B = &vfVarB{zzvf.Int64("bv")}
	}
	if zzvf.Bool("c") {
		u.C = &vfVarA{vfText("cv", 3)}
	}
	switch {
	case u.A != nil:
		want = u.A
	case u.B != nil:
		want = u.B
	case u.C != nil:
		want = u.C
	}
	got := vfConvert(u, &u)
	zzvf.Assert(got == want, "the first variant that is set is sent, unchanged")
	zzvf.Assert(unionExt.ConvertExt(u) == want, "a union by pointer and by value converts alike")
	if want == nil {
		zzvf.Reach("unset")
	} else {
		zzvf.Reach("set")
	}
}

// VF_C17_Values: the same for variants that are not pointers.
func VF_C17_Values() {
	u := vfUnionVal{S: vfText("s", 3), A: vfVarA{vfText("a", 3)}, N: zzvf.Int64("n"), B: zzvf.Bool("b")}
	var want interface{}
	switch {
	case u.S != "":
		want = u.S
	case u.A != vfVarA{}:
		want = u.A
	case u.N != 0:
		want = u.N
	case u.B:
		want = u.B
	}
	zzvf.Assert(vfConvert(u, &u) == want, "the first variant that is set is sent, unchanged")
	zzvf.Assert(unionExt.ConvertExt(u) == want, "a union by pointer and by value converts alike")
	zzvf.Reach("end")
}

// VF_C17_Mixed: variants that cannot be compared.
func VF_C17_Mixed() {
	var u vfUnionMix
	s := "x"
	if zzvf.Bool("s") {
		u.S = &s
	}
	if zzvf.Bool("l") {
		u.L = []string{}
	}
	if zzvf.Bool("m") {
		u.M = map[string]int64{}
	}
	if zzvf.Bool("i") {
		u.I = int64(7)
	}
	for _, v := range []interface{}{u, &u} {
		got := unionExt.ConvertExt(v)
		switch {
		case u.S != nil:
			zzvf.Assert(got == interface{}(u.S), "the first variant that is set is sent")
		case u.L != nil:
			l, ok := got.([]string)
			zzvf.Assert(ok && len(l) == 0 && l != nil, "the first variant that is set is sent")
		case u.M != nil:
			m, ok := got.(map[string]int64)
			zzvf.Assert(ok && m != nil, "the first variant that is set is sent")
		case u.I != nil:
			zzvf.Assert(got == u.I, "the first variant that is set is sent")
		default:
			zzvf.Assert(got == nil, "a union without a variant is null")
			zzvf.Reach("unset")
		}
	}
	zzvf.Assert(unionExt.ConvertExt(vfUnion0{}) == nil && unionExt.ConvertExt(&vfUnion0{}) == nil, "a union without variants is null")
	zzvf.Reach("end")
}

// VF_C17_Reply: what a client makes of unions in a JSON reply.
func VF_C17_Reply() {
	var u vfUnionP
	if zzvf.Bool("a") {
		u.A = &vfVarA{vfText("av", 3)}
	}
	if zzvf.Bool("b") {
		u.B = &vfVarB{zzvf.Int64("bv")}
	}
	var ret interface{} = u
	if zzvf.Bool("pointer") {
		ret = &u
	}
	// a client that knows the variants
	type either struct {
		A *string `json:"a"`
		B *int64  `json:"b"`
	}
	for i, r := range []interface{}{ret, []interface{}{ret}, struct{ F interface{} }{ret}} {
		rw := newVFRW()
		zzvf.Assert(Reply([]interface{}{r}, nil, vfPost("POST", "/e/m", vfJSONType, nil), rw) == nil, "a union is sent")
		var got *either
		var dst interface{} = &got
		var list []*either
		var str struct{ F *either }
		switch i {
		case 1:
			dst = &list
		case 2:
			dst = &str
		}
		zzvf.Assert(vfReceive(rw, []interface{}{dst}) == nil, "a union arrives")
		switch i {
		case 1:
			zzvf.Assert(len(list) == 1, "a union in a list is one element")
			got = list[0]
		case 2:
			got = str.F
		}
		switch {
		case u.A != nil:
			zzvf.Assert(got != nil && got.A != nil && *got.A == u.A.A && got.B == nil, "the first variant arrives")
			zzvf.Reach("a")
		case u.B != nil:
			zzvf.Assert(got != nil && got.B != nil && *got.B == u.B.B && got.A == nil, "the only variant arrives")
			zzvf.Reach("b")
		default:
			zzvf.Assert(got == nil, "a union without a variant arrives as null")
			zzvf.Reach("null")
		}
	}
}
