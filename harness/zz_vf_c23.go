package gotsrpc

//vf:bound graphs of three types, in the service's file, another file or another package, exported or not: each a struct with a field of (a pointer, slice, map, nested slice and map, anonymous struct of) another, an inlined other, a slice, map or union of it, or declared by it; every target of a reference, cycles and references to undeclared types and unmapped packages included; used as parameter, result, element, value or key of a map, or included by a mapping
//vf:outside generic types, arrays, functions, imports whose name is not the last element of their path
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfNode is a type of the graph.
type vfNode struct {
	pkg, file, name string
	form            string
	to              int
}

// vfForms are types made of a reference.
var vfForms = []string{
	"struct {\n\tF $\n}", "struct {\n\tA int\n\tF *$ `json:\"f,omitempty\"`\n}", "[]$", "map[string]$", "$",
	"struct {\n\tF [][]map[string]*$\n}", "struct {\n\tF struct{ G []struct{ H $ } }\n}", "struct {\n\t$ `json:\",inline\"`\n}",
	"struct {\n\tU *$ `json:\"u,omitempty\" gotsrpc:\"union\"`\n}", "struct {\n\tF map[$]string\n}", "struct {\n\tA, F map[string][]$\n}",
	"struct {\n\tF struct { $ `json:\",inline\"` }\n}", "map[$]bool", "map[$]struct { A $ }",
}

const vfUndeclared, vfUnmapped = 3, 4

// ref is how a node refers to type to.
func vfRef(nodes []vfNode, pkg string, to int) (ref string, missing bool) {
	switch to {
	case vfUndeclared:
		return "Undeclared", true
	case vfUnmapped:
		if pkg == "s" {
			return "unmapped.T", true
		}
		return "Undeclared", true
	}
	n := nodes[to]
	if n.pkg != pkg {
		return n.pkg + "." + n.name, false
	}
	return n.name, false
}

// VF_C23_Graph: every type that is needed is described once, or generation fails.
func VF_C23_Graph() {
	thorough := zzvf.Bound("forms of the second type", 5, 13)
	nodes := []vfNode{{pkg: "s", file: "s.go", name: "A"}, {name: "B"}, {name: "C"}}
	nodes[0].form = vfForms[zzvf.Choose("form of A", len(vfForms))]
	nodes[0].to = zzvf.Concrete([]int{1, 0, vfUndeclared, vfUnmapped}[zzvf.Choose("reference of A", 4)])
	if nodes[0].to == 1 {
		nodes[1].form = vfForms[zzvf.Choose("form of B", thorough)]
		nodes[1].to = zzvf.Concrete([]int{2, 0, 1, vfUndeclared, vfUnmapped, -1}[zzvf.Choose("reference of B", 6)])
		if nodes[1].to < 0 {
			zzvf.Assume(nodes[1].form == vfForms[0])
			nodes[1].form = "string"
		}
	} else {
		nodes[1].form, nodes[1].to = "string", -1
	}
	nodes[2].form, nodes[2].to = "int64", -1
	if nodes[1].to == 2 {
		nodes[2].form = []string{"int64", "struct{}", "interface{ Foo() }", "[]byte"}[zzvf.Choose("form of C", 4)]
	}
	for i := 1; i < 3; i++ {
		place := 0
		if i == 1 && nodes[0].to == 1 || i == 2 && nodes[1].to == 2 {
			place = zzvf.Choose("place of "+nodes[i].name, 4)
		}
		switch place {
		case 0:
			nodes[i].pkg, nodes[i].file = "t", "t.go"
		case 1:
			nodes[i].pkg, nodes[i].file = "s", "s.go"
		case 2:
			nodes[i].pkg, nodes[i].file = "s", "other.go"
		case 3:
			nodes[i].pkg, nodes[i].file, nodes[i].name = "s", "other.go", strings.ToLower(nodes[i].name)
		}
	}
	// an unexported type of s cannot be named in t, nor can s be imported by t in its turn
	files := map[string]string{"s/s.go": "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/unmapped\"\n)\n\nvar _ t.T\n\nvar _ unmapped.T\n\n", "s/other.go": "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/unmapped\"\n)\n\n", "t/t.go": "package t\n\ntype T struct{}\n\n"}
	for i, n := range nodes {
		r := ""
		if n.to >= 0 {
			zzvf.Assume(n.pkg == "s" || n.to > 2 || nodes[n.to].pkg == "t")
			r, _ = vfRef(nodes, n.pkg, n.to)
			zzvf.Assume(n.form != "$" || !strings.Contains(r, ".")) // see VF_C23_Selector
		}
		files[n.pkg+"/"+n.file] += "type " + nodes[i].name + " " + strings.ReplaceAll(n.form, "$", r) + "\n\n"
	}
	// a package need not have a last path element of its own
	dir := "t"
	if nodes[1].pkg == "t" && nodes[0].to == 1 && zzvf.Bool("same last element") {
		dir = "u/s"
		for name := range files {
			files[name] = strings.ReplaceAll(files[name], "\"m.x/t\"", "t \"m.x/u/s\"")
		}
	}
	module := "m_x_" + strings.ReplaceAll(dir, "/", "_")
	// what the service needs
	need := map[int]bool{}
	missing := false
	var visit func(i int)
	visit = func(i int) {
		if need[i] {
			return
		}
		need[i] = true
		if to := nodes[i].to; to > 2 {
			missing = true
		} else if to >= 0 {
			visit(to)
		}
	}
	visit(0)
	use := zzvf.Choose("use", 8)
	if use == 3 || use > 5 {
		// only scalars are keys
		zzvf.Assume(nodes[0].form == "$" && (nodes[0].to > 2 || nodes[0].to == 1 && nodes[1].to == -1))
		zzvf.Assume(nodes[0].to != 1 || nodes[1].form == "string")
	}
	sig := []string{"a A", "a []*A", "a map[string][]A", "a map[A]int", "", "", "a map[A]Named, b map[string]map[A]bool", "a map[A]Rec"}[use]
	ret := []string{"", "", "", "", "map[string]A", "", "", "[]map[A]Named"}[use]
	g := vfNewGen()
	g.mapping("s", g.root+"/m/s.ts")
	g.mapping(dir, g.root+"/m/t.ts")
	if use == 5 {
		g.conf.Mappings["m.x/s"].Structs = []string{"m.x/s.A"}
		if zzvf.Bool("target without TypeScript") {
			g.file("r", "r.go", "package r\n\ntype R interface {\n\tM()\n}\n")
			g.target("a", "r", "", map[string]string{"/r": "R"})
		}
	}
	files["s/s.go"] += "type Named string\n\ntype Rec struct{}\n\ntype S interface {\n\tFoo(" + sig + ") " + ret + "\n}\n"
	g.file("s", "s.go", files["s/s.go"])
	g.file("s", "other.go", files["s/other.go"])
	g.file(dir, "t.go", files["t/t.go"])
	g.file("unmapped", "u.go", "package unmapped\n\ntype T struct{}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	code := g.build()
	if missing {
		zzvf.Assert(code > 0, "a type that cannot be found or has no mapping is an error")
		zzvf.Reach("missing")
		return
	}
	zzvf.Assert(code == -1, "the code is generated")
	texts := map[string]string{"s": g.out("s.ts"), "t": g.out("t.ts"), "": g.out("out.ts")}
	for i := range nodes {
		if need[i] {
			zzvf.Assert(vfExports(texts[nodes[i].pkg], nodes[i].name) == 1, "a type that is needed is described once")
		}
	}
	if a := nodes[0]; strings.Contains(a.form, "union") && a.to == 1 && strings.HasPrefix(nodes[1].form, "struct") {
		zzvf.Assert(strings.Contains(vfFlat(texts["s"]), "export type A="+map[string]string{"s": "m_x_s", "t": module}[nodes[1].pkg]+"."+nodes[1].name+"|undefined"), "a union of structs is described as the union of their types")
		zzvf.Reach("union")
	}
	for _, text := range texts {
		vfNoneDangling(text, map[string]string{"m_x_s": texts["s"], module: texts["t"]})
	}
	zzvf.Reach("end")
}

// VF_C23_Selector: a type declared by a type of another package.
func VF_C23_Selector() {
	of := []string{"t.T", "T"}[zzvf.Choose("type", 2)]
	g := vfNewGen()
	g.mapping("s", g.root+"/m/s.ts")
	g.mapping("t", g.root+"/m/t.ts")
	g.file("t", "t.go", "package t\n\ntype T struct {\n\tX int\n}\n")
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\nvar _ t.T\n\ntype T struct{ X int }\n\ntype A "+of+"\n\ntype S interface {\n\tFoo(a A)\n}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	if g.build() == -1 {
		text := g.out("s.ts")
		i := strings.Index(text, "export interface A {")
		empty := i >= 0 && vfFlat(text[i:i+len("export interface A {")+3]) == "export interface A{}"
		if of == "T" {
			zzvf.Assert(strings.Contains(vfFlat(text), "export type A=m_x_s.T"), "a type declared by another one is described like it")
			zzvf.Reach("end")
			return
		}
		zzvf.AssertKnown(!empty, empty, "C23-selector", "a type declared by a type of another package is described like it")
	}
}
