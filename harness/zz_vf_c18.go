package gotsrpc

//vf:bound one parameter and one result of any type built from a scalar, a named type of the same file, of another file or of one of three other packages (one renamed on import, one with the name of a standard package, one standard) by up to n pointers, slices and maps (bound "constructors"); service given by an interface or a type, next to a method with types of its own; package named like a standard package or not
//vf:outside arrays, functions, channels, anonymous structs, generic types, pointers to unnamed slices, maps and pointers, dot imports, imports whose name is not the last element of their path
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"go/ast"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C18_Types: the generated code uses the types of the declaration.
func VF_C18_Types() {
	g := vfNewGen()
	g.typeFiles()
	var in, out vfType
	shape := zzvf.Choose("shape", 3)
	if shape < 2 {
		in, out = vfAnyType("parameter", zzvf.Bound("constructors", 2, 3)), vfLeaves[zzvf.Choose("simple", 2)*29]
	} else {
		// whose packages occur nowhere else
		in, out = vfLeaves[1], vfAnyType("result", zzvf.Bound("constructors", 2, 3))
	}
	bar := "Bar(x other.Time)"
	if shape == 2 {
		bar = "Bar(x int)"
	}
	decl := "Foo(p string, " + "v " + in.src + ") (r " + out.src + ", b bool)"
	if shape > 0 {
		g.file("s", "s.go", "package s\n\n"+vfTypesHere+"type S interface {\n\t"+decl+"\n\t"+bar+"\n}\n")
	} else {
		g.file("s", "s.go", "package s\n\n"+vfTypesHere+"type S struct{}\n\nfunc (s *S) "+decl+" { panic(0) }\n\nfunc (s *S) "+bar+" {}\n")
	}
	tg := g.target("s", "s", "", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	vfCheckTypes(g, "s", "m.x/s", in, out)
	zzvf.Reach("end")
}

// VF_C18_Std: a package with the name of a standard package does not take its types for its own.
func VF_C18_Std() {
	g := vfNewGen()
	zzvf.WriteFile(g.root+"/gopath/src/time/time.go", "package time\n\ntype Time struct{}\n\ntype Duration int64\n")
	zzvf.WriteFile(g.root+"/gopath/src/net/http/http.go", "package http\n\ntype Header map[string][]string\n\ntype Request struct{}\n")
	name := []string{"time", "http", "io", "context"}[zzvf.Choose("package", 4)]
	dir := []string{"", "net/", "m.x/"}[zzvf.Choose("directory", 3)]
	dir = strings.TrimPrefix(dir, "m.x/")
	in := vfType{src: "time.Time", name: "time.Time"}
	imp := "time"
	switch zzvf.Choose("type", 3) {
	case 1:
		in = vfType{src: "[]*http.Request", name: "[]*net/http.Request"}
		imp = "net/http"
	case 2:
		in = vfType{src: "map[time.Duration]Own", name: "map[time.Duration]m.x/" + dir + name + ".Own"}
	}
	g.file(dir+name, "s.go", "package "+name+"\n\nimport \""+imp+"\"\n\ntype Own struct{}\n\ntype Time struct{}\n\ntype S interface {\n\tFoo(p string, v "+in.src+") (r Own, b bool)\n}\n")
	tg := g.target("s", dir+name, "", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	vfCheckTypes(g, dir+name, "m.x/"+dir+name, in, vfType{name: "m.x/" + dir + name + ".Own"})
	zzvf.Reach("end")
}

// vfCheckTypes looks for the types of Foo(p string, v in) (r out, b bool) in the generated code.
func vfCheckTypes(g *vfGen, dir, pkg string, in, out vfType) {
	check := func(f *vfGo, what string, l *ast.FieldList, from int, want ...string) {
		_, types := vfFields(l)
		zzvf.Assert(len(types) >= from+len(want), what+" has all parameters")
		for i, w := range want {
			zzvf.Assert(f.typeName(types[from+i], pkg) == w, what+" has the type of the service")
		}
	}
	f := vfParse(g.out(dir + "/gotsrpc_gen.go"))
	found := 0
	_, cases := f.cases(f.method("SGoTSRPCProxy", "ServeHTTP"))
	ast.Inspect(cases["Foo"], func(n ast.Node) bool {
		if vs, ok := n.(*ast.ValueSpec); ok && vs.Type != nil {
			switch vs.Names[0].Name {
			case "arg_v":
				found++
				zzvf.Assert(f.typeName(vs.Type, pkg) == in.name, "an argument is decoded into the type of the service")
			case "arg_p":
				found++
				zzvf.Assert(f.typeName(vs.Type, pkg) == "string", "an argument is decoded into the type of the service")
			}
		}
		return true
	})
	zzvf.Assert(found == 2, "every argument is decoded")
	f = vfParse(g.out(dir + "/gotsrpcclient_gen.go"))
	m := f.method("HTTPSGoTSRPCClient", "Foo")
	check(f, "the HTTP client method", m.Type.Params, 0, "context.Context", "string", in.name)
	check(f, "the HTTP client result", m.Type.Results, 0, out.name, "bool", "error")
	im := f.typ("SGoTSRPCClient").(*ast.InterfaceType)
	for _, field := range im.Methods.List {
		if field.Names[0].Name == "Foo" {
			ft := field.Type.(*ast.FuncType)
			check(f, "the client interface", ft.Params, 0, "context.Context", "string", in.name)
			check(f, "the client interface result", ft.Results, 0, out.name, "bool", "error")
			zzvf.Reach("interface")
		}
	}
	f = vfParse(g.out(dir + "/gorpc_gen.go"))
	check(f, "the RPC request", f.typ("SFooRequest").(*ast.StructType).Fields, 0, "string", in.name)
	check(f, "the RPC response", f.typ("SFooResponse").(*ast.StructType).Fields, 0, out.name, "bool")
	f = vfParse(g.out(dir + "/gorpcclient_gen.go"))
	m = f.method("SGoRPCClient", "Foo")
	check(f, "the RPC client method", m.Type.Params, 0, "string", in.name)
	check(f, "the RPC client result", m.Type.Results, 0, out.name, "bool", "error")
}
