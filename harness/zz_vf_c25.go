package gotsrpc

//vf:bound services given by an interface or a pointer receiver type (with a name, without or blank) with up to n methods (bound "methods") in up to two files, first letter of a name any ASCII letter, underscore or one of Ä ä 世, between a type with methods of its own, functions, value receiver methods, other type's methods and a test file; in one of seven files next to a type of any other name of one letter, or of one of six names like the service's, with methods of its own
//vf:bound two services, each an interface or a struct, next to two other types in 5 orders, declared in one group, in two declarations, on their own or in another file than their methods, which come before or after
//vf:outside embedded interfaces and structs, generic types, service types declared through an alias
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"go/ast"
	"sort"
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfMethod struct {
	name         string
	params, rets int
}

// VF_C25_Methods: exactly the exported methods of the service are generated, sorted.
func VF_C25_Methods() {
	g := vfNewGen()
	iface := zzvf.Bool("interface")
	n := zzvf.Choose("methods", zzvf.Bound("methods", 3, 4))
	var want []vfMethod
	receiver := "s *S"
	if !iface {
		receiver = []string{"s *S", "*S", "_ *S"}[zzvf.Choose("receiver", 3)]
	}
	var decls, other []string
	for i := 0; i < n; i++ {
		m := vfMethod{"m" + strconv.Itoa(i), zzvf.Choose("params", 2), i}
		exported := false
		switch zzvf.Choose("letter", 4) {
		case 0:
			b := zzvf.Byte("letter")
			zzvf.Assume(b == '_' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z')
			if i == 0 && zzvf.Bool("one letter") {
				zzvf.Assume(b != '_')
				m.name = ""
			}
			m.name = string([]byte{b}) + m.name
			exported = b >= 'A' && b <= 'Z'
		case 1:
			m.name, exported = "Ä"+m.name, true
		case 2:
			m.name = "ä" + m.name
		default:
			m.name = "世" + m.name
		}
		if exported {
			want = append(want, m)
		}
		sig := m.name + "(" + strings.TrimPrefix(strings.Repeat(", p string", m.params), ", ") + ") (" + strings.TrimPrefix(strings.Repeat(", int", m.rets), ", ") + ")"
		if iface {
			decls = append(decls, "\t"+sig)
		} else {
			decl := "func (" + receiver + ") " + sig + " { panic(0) }"
			if zzvf.Bool("other file") {
				other = append(other, decl)
			} else {
				decls = append(decls, decl)
			}
		}
	}
	text := "package s\n\ntype R struct{}\n\nfunc (r *R) Foreign() {}\n\nfunc Function(s *S) {}\n\nfunc (r R) Value(s S) {}\n\n"
	if iface {
		text += "type S interface {\n" + strings.Join(decls, "\n") + "\n}\n"
	} else {
		text += "type S struct{}\n\nfunc (s S) Value2() {}\n\n" + strings.Join(decls, "\n")
		g.file("s", "s_test.go", "package s\n\nfunc (s *S) Test() {}\n")
	}
	text += "\n\ntype Q interface {\n\tForeign2()\n}\n"
	g.file("s", "s.go", text)
	g.file("s", "a.go", "package s\n\n"+strings.Join(other, "\n"))
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	sort.Slice(want, func(i, j int) bool { return want[i].name < want[j].name })

	proxy := vfParse(g.out("s/gotsrpc_gen.go"))
	names, _ := proxy.cases(proxy.method("SGoTSRPCProxy", "ServeHTTP"))
	vfSameNames(want, names, "")
	rpc := vfParse(g.out("s/gorpc_gen.go"))
	names, _ = rpc.cases(rpc.method("SGoRPCProxy", "handler"))
	var stripped []string
	for _, n := range names {
		stripped = append(stripped, strings.TrimSuffix(strings.TrimPrefix(n, "S"), "Request"))
	}
	vfSameNames(want, stripped, "")
	client := vfParse(g.out("s/gotsrpcclient_gen.go"))
	vfSameMethods(want, client.methods("HTTPSGoTSRPCClient"), 1)
	names = nil
	for _, f := range client.typ("SGoTSRPCClient").(*ast.InterfaceType).Methods.List {
		names = append(names, f.Names[0].Name)
	}
	vfSameNames(want, names, "")
	rpcClient := vfParse(g.out("s/gorpcclient_gen.go"))
	var calls []*ast.FuncDecl
	for _, m := range rpcClient.methods("SGoRPCClient") {
		if m.Name.Name != "Start" && m.Name.Name != "Stop" {
			calls = append(calls, m)
		}
	}
	vfSameMethods(want, calls, 0)
	names = nil
	for i, part := range strings.Split(g.out("out.ts"), "async ") {
		if i > 0 {
			names = append(names, part[:strings.IndexByte(part, '(')])
		}
	}
	vfSameNames(want, names, "lower")
	zzvf.Reach("end")
}

// VF_C25_Groups: however their declarations are grouped, services have their own methods.
func VF_C25_Groups() {
	g := vfNewGen()
	var types, methods []string
	for i, name := range []string{"S", "Z"} {
		if zzvf.Bool(name + " interface") {
			types = append(types, name+" interface {\n\tOf"+name+"(a, b string) (n, m int)\n\tCommon(p"+strconv.Itoa(i)+" int)\n\t_hidden()\n}")
		} else {
			types = append(types, name+" struct{}")
			methods = append(methods, "func (r *"+name+") Of"+name+"(a, b string) (n, m int) { return }", "func (*"+name+") Common(p"+strconv.Itoa(i)+" int) {}", "func ("+name+") hidden() {}")
		}
	}
	types = append(types, "O interface {\n\tForeign(a string)\n}", "I = int")
	order := [][]int{{0, 1, 2, 3}, {1, 0, 2, 3}, {2, 0, 3, 1}, {3, 2, 1, 0}, {2, 3, 0, 1}}[zzvf.Choose("order", 5)]
	var decls []string
	group := zzvf.Choose("grouped", 4) // one group, two, none, one in another file
	for i, o := range order {
		switch {
		case group == 2 || group == 1 && i%2 == 1:
			decls = append(decls, "type "+types[o])
		case group == 1 && i == 0 || i == 0:
			decls = append(decls, "type (\n"+types[o])
		case group == 1:
			decls[0] += "\n\n" + types[o]
		default:
			decls[0] += "\n\n" + types[o]
		}
	}
	if group != 2 {
		decls[0] += "\n)"
	}
	text := "\n\n" + strings.Join(decls, "\n\n")
	body := strings.Join(methods, "\n\n")
	switch {
	case group == 3:
		g.file("s", "a.go", "package s"+text+"\n")
		text = "\n\n" + body
	case zzvf.Bool("methods first"):
		text = "\n\n" + body + text
	default:
		text += "\n\n" + body
	}
	g.file("s", "s.go", "package s"+text+"\n")
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S", "/z": "Z"})
	tg.GoRPC, tg.TSRPC = []string{"S", "Z"}, []string{"S", "Z"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	proxy, client, rpc := vfParse(g.out("s/gotsrpc_gen.go")), vfParse(g.out("s/gotsrpcclient_gen.go")), vfParse(g.out("s/gorpc_gen.go"))
	classes := strings.Split(g.out("out.ts"), "export class ")
	zzvf.Assert(len(classes) == 3, "every service has a TypeScript client")
	for _, name := range []string{"S", "Z"} {
		want := []vfMethod{{"Common", 1, 0}, {"Of" + name, 2, 2}}
		names, _ := proxy.cases(proxy.method(name+"GoTSRPCProxy", "ServeHTTP"))
		vfSameNames(want, names, "")
		vfSameMethods(want, client.methods("HTTP"+name+"GoTSRPCClient"), 1)
		names, _ = rpc.cases(rpc.method(name+"GoRPCProxy", "handler"))
		zzvf.Assert(len(names) == 2, "exactly the exported methods are generated")
		names = nil
		class := classes[1]
		if !strings.HasPrefix(class, name+"Client ") {
			class = classes[2]
		}
		zzvf.Assert(strings.HasPrefix(class, name+"Client "), "every service has a TypeScript client")
		for k, part := range strings.Split(class, "async ") {
			if k > 0 {
				names = append(names, part[:strings.IndexByte(part, '(')])
			}
		}
		vfSameNames(want, names, "lower")
	}
	zzvf.Reach("end")
}

// VF_C25_Others: methods of other types, and files of any name.
func VF_C25_Others() {
	g := vfNewGen()
	other := ""
	switch zzvf.Choose("other type", 2) {
	case 0:
		b := zzvf.Byte("other type")
		zzvf.Assume(b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z')
		zzvf.Assume(b != 'S')
		other = string([]byte{b})
	case 1:
		other = []string{"SS", "Ss", "XS", "S2", "SGoTSRPCProxy_", "Ś"}[zzvf.Choose("other type", 6)]
	}
	file := "z.go"
	if other == "SS" {
		file = []string{"z.go", "a_test_b.go", "test.go", "z_testing.go", "S_TEST.go", "a.b.go", "gotsrpc.go"}[zzvf.Choose("file name", 7)]
	}
	first, second := "type S struct{}\n\nfunc (s *S) M1() {}\n", "type "+other+" struct{}\n\nfunc (r *"+other+") Foreign() {}\n\nfunc (r "+other+") Value(s S) {}\n"
	if zzvf.Bool("other type first") {
		first, second = second, first
	}
	g.file("s", "s.go", "package s\n\n"+first+"\nfunc (s *S) M0(a string) {}\n")
	g.file("s", file, "package s\n\n"+second+"\nfunc (s *S) M2() int { return 0 }\n\nfunc (r *"+other+") Foreign2() {}\n")
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	want := []vfMethod{{"M0", 1, 0}, {"M1", 0, 0}, {"M2", 0, 1}}
	proxy := vfParse(g.out("s/gotsrpc_gen.go"))
	names, _ := proxy.cases(proxy.method("SGoTSRPCProxy", "ServeHTTP"))
	vfSameNames(want, names, "")
	client := vfParse(g.out("s/gotsrpcclient_gen.go"))
	vfSameMethods(want, client.methods("HTTPSGoTSRPCClient"), 1)
	rpc := vfParse(g.out("s/gorpc_gen.go"))
	names, _ = rpc.cases(rpc.method("SGoRPCProxy", "handler"))
	zzvf.Assert(len(names) == len(want), "exactly the exported methods are generated")
	names = nil
	for i, part := range strings.Split(g.out("out.ts"), "async ") {
		if i > 0 {
			names = append(names, part[:strings.IndexByte(part, '(')])
		}
	}
	vfSameNames(want, names, "lower")
	zzvf.Reach("end")
}

func vfSameNames(want []vfMethod, got []string, form string) {
	zzvf.Assert(len(got) == len(want), "exactly the exported methods are generated")
	for i, w := range want {
		if form == "lower" {
			zzvf.Assert(got[i][1:] == w.name[1:] || w.name[0] >= 0x80, "exactly the exported methods are generated, sorted by name")
		} else {
			zzvf.Assert(got[i] == w.name, "exactly the exported methods are generated, sorted by name")
		}
	}
}

func vfSameMethods(want []vfMethod, got []*ast.FuncDecl, ctx int) {
	zzvf.Assert(len(got) == len(want), "exactly the exported methods are generated")
	for i, w := range want {
		params, _ := vfFields(got[i].Type.Params)
		rets, _ := vfFields(got[i].Type.Results)
		zzvf.Assert(got[i].Name.Name == w.name, "exactly the exported methods are generated, sorted by name")
		zzvf.Assert(len(params) == w.params+ctx && len(rets) == w.rets+1, "a method has the parameters and results of its declaration")
	}
}
