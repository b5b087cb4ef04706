package gotsrpc

import (
	"go/ast"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C31_Types: a request has the types of the arguments, a response those of the results.
func VF_C31_Types() {
	g := vfNewGen()
	g.typeFiles()
	var in, out vfType
	if zzvf.Bool("argument") {
		in, out = vfAnyType("argument", 1), vfLeaves[1]
	} else {
		in, out = vfLeaves[1], vfAnyType("result", 1)
	}
	foreign := ""
	if zzvf.Bool("used by no service") {
		foreign = "\n\ntype Q interface {\n\tBar(x other.Time, y t.T)\n}\n"
	}
	g.file("s", "s.go", "package s\n\n"+vfTypesHere+"type S interface {\n\tFoo(p string, v "+in.src+") (r "+out.src+", b bool)\n}\n"+foreign)
	g.target("s", "s", "", map[string]string{"/s": "S"}).GoRPC = []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	check := func(f *vfGo, l *ast.FieldList, want ...string) {
		_, types := vfFields(l)
		zzvf.Assert(len(types) == len(want), "all arguments and results are carried")
		for i, w := range want {
			zzvf.Assert(f.typeName(types[i], "m.x/s") == w, "arguments and results are carried as what they are")
		}
	}
	f := vfParse(g.out("s/gorpc_gen.go"))
	check(f, f.typ("SFooRequest").(*ast.StructType).Fields, "string", in.name)
	check(f, f.typ("SFooResponse").(*ast.StructType).Fields, out.name, "bool")
	f = vfParse(g.out("s/gorpcclient_gen.go"))
	m := f.method("SGoRPCClient", "Foo")
	check(f, m.Type.Params, "string", in.name)
	check(f, m.Type.Results, out.name, "bool", "error")
	zzvf.Reach("end")
}
