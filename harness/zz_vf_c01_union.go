package gotsrpc

import (
	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfVarA01 struct{ A string }

type vfVarB01 struct{ B int64 }

type vfUnion01 struct {
	A *vfVarA01 `json:"a,omitempty" gotsrpc:"union"`
	B *vfVarB01 `json:"b,omitempty" gotsrpc:"union"`
}

// registered before anything is encoded, as the codec demands
func init() { vfUnionErr01 = RegisterUnionExt(vfUnion01{}) }

var vfUnionErr01 error

// VF_C01_Union: unions as arguments and results.
func VF_C01_Union() {
	zzvf.Assert(vfUnionErr01 == nil, "a union is registered")
	var u vfUnion01
	switch zzvf.Choose("variant", 3) {
	case 1:
		u.A = &vfVarA01{zzvf.Str("a", 1)}
	case 2:
		u.B = &vfVarB01{zzvf.Int64("b")}
	}
	enc := vfEncoding("json")
	same := func(g vfUnion01) bool {
		return (g.A == nil) == (u.A == nil) && (g.A == nil || *g.A == *u.A) && (g.B == nil) == (u.B == nil) && (g.B == nil || *g.B == *u.B)
	}
	known := enc == EncodingJson && (u.A != nil || u.B != nil)
	r := vfPost("POST", "/e/m", vfTypeOf(enc), vfArgsBody(enc, []interface{}{u}))
	var got vfUnion01
	if err := LoadArgs(&[]interface{}{&got}, &CallStats{}, r); err == nil {
		zzvf.AssertKnown(same(got), known, "C01-json-union", "the service receives the arguments")
	} else {
		zzvf.Fail("a union is received")
	}
	rw := newVFRW()
	zzvf.Assert(Reply([]interface{}{u}, nil, r, rw) == nil, "a union is sent")
	var ret vfUnion01
	zzvf.Assert(vfReceive(rw, []interface{}{&ret}) == nil, "a union is received")
	zzvf.AssertKnown(same(ret), known, "C01-json-union", "the client returns the results")
	zzvf.Reach("end")
}
