package gotsrpc

import (
	"go/ast"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfType is a Go type as service and struct declarations write it in file s/s.go.
type vfType struct {
	src  string // as written
	name string // with package paths for qualifiers
	ts   string // its JSON shape, null left out
	null bool   // the JSON value can be null
	key  bool   // can be the key of a JSON object and is described as a string or number
}

// vfTypeFiles adds the packages that vfLeaf takes types from.
func (g *vfGen) typeFiles() {
	g.file("s", "more.go", "package s\n\ntype OtherStruct struct {\n\tX int\n}\n\ntype OtherInt int64\n\ntype OtherAny interface{}\n\ntype OtherSlice []string\n\ntype OtherMap map[string]int\n")
	g.file("t", "t.go", "package t\n\ntype T struct {\n\tX int\n}\n\ntype Int uint8\n\ntype Any interface{ Foo() }\n\ntype Slice []T\n\ntype Map map[Int]T\n\ntype Str string\n")
	g.file("u/time", "t.go", "package time\n\ntype Time struct {\n\tX int\n}\n")
	zzvf.WriteFile(g.root+"/gopath/src/time/time.go", "package time\n\ntype Time struct{}\n\ntype Duration int64\n")
	g.mapping("s", g.root+"/m/s.ts")
	g.mapping("t", g.root+"/m/t.ts")
	g.mapping("u/time", g.root+"/m/u.ts")
	m := *g.conf.Mappings["m.x/s"]
	m.GoPackage, m.Out = "time", g.root+"/m/time.ts"
	g.conf.Mappings["time"] = &m
}

// vfTypesHere declares the types of file s/s.go that vfLeaf takes.
const vfTypesHere = "import (\n\t\"time\"\n\n\t\"m.x/t\"\n\tother \"m.x/u/time\"\n)\n\nvar _ t.T\nvar _ time.Time\nvar _ other.Time\n\ntype Struct struct {\n\tX int\n}\n\ntype Int int\n\ntype Any interface {\n\tFoo()\n}\n\ntype Slice []int\n\ntype Map map[string]bool\n\ntype Str string\n\ntype hidden struct {\n\tX int\n}\n\n"

var vfLeaves = []vfType{
	{"bool", "bool", "boolean", false, false},
	{"string", "string", "string", false, true},
	{"int", "int", "number", false, true},
	{"uint16", "uint16", "number", false, true},
	{"float32", "float32", "number", false, false},
	{"byte", "byte", "number", false, false},
	{"uint8", "byte", "number", false, false},
	{"rune", "rune", "number", false, false},
	{"interface{}", "any", "any", true, false},
	{"any", "any", "any", true, false},
	{"error", "error", "any", true, false},
	{"Struct", "m.x/s.Struct", "m_x_s.Struct", false, false},
	{"Int", "m.x/s.Int", "m_x_s.Int", false, true},
	{"Any", "m.x/s.Any", "m_x_s.Any", false, false},
	{"Slice", "m.x/s.Slice", "m_x_s.Slice", true, false},
	{"Map", "m.x/s.Map", "m_x_s.Map", true, false},
	{"Str", "m.x/s.Str", "m_x_s.Str", false, true},
	{"OtherStruct", "m.x/s.OtherStruct", "m_x_s.OtherStruct", false, false},
	{"OtherInt", "m.x/s.OtherInt", "m_x_s.OtherInt", false, true},
	{"OtherAny", "m.x/s.OtherAny", "m_x_s.OtherAny", false, false},
	{"OtherSlice", "m.x/s.OtherSlice", "m_x_s.OtherSlice", true, false},
	{"OtherMap", "m.x/s.OtherMap", "m_x_s.OtherMap", true, false},
	{"t.T", "m.x/t.T", "m_x_t.T", false, false},
	{"t.Int", "m.x/t.Int", "m_x_t.Int", false, true},
	{"t.Any", "m.x/t.Any", "m_x_t.Any", false, false},
	{"t.Slice", "m.x/t.Slice", "m_x_t.Slice", true, false},
	{"t.Map", "m.x/t.Map", "m_x_t.Map", true, false},
	{"t.Str", "m.x/t.Str", "m_x_t.Str", false, true},
	{"time.Time", "time.Time", "number", false, false},
	{"other.Time", "m.x/u/time.Time", "m_x_u_time.Time", false, false},
}

// vfAnyType is a type of up to depth constructors.
func vfAnyType(label string, depth int) vfType {
	kind := 0
	if depth > 0 {
		kind = zzvf.Choose(label+" constructor", 4)
	}
	switch kind {
	case 1:
		// of scalars, structs and interfaces: pointers to the others cannot be told
		e := vfAnyType(label, 0)
		zzvf.Assume(e.src != "interface{}")
		return vfType{"*" + e.src, "*" + e.name, e.ts, true, false}
	case 2:
		e := vfAnyType(label, depth-1)
		t := vfType{"[]" + e.src, "[]" + e.name, "Array<" + e.shape() + ">", true, false}
		if e.name == "byte" {
			t.ts = "string"
		}
		return t
	case 3:
		keys := []int{1, 23, 2, 12, 16, 18, 27}
		if depth > 1 {
			keys = keys[:2]
		}
		k := vfLeaves[keys[zzvf.Choose(label+" key", len(keys))]]
		e := vfAnyType(label, depth-1)
		return vfType{"map[" + k.src + "]" + e.src, "map[" + k.name + "]" + e.name, "Record<" + k.ts + "," + e.shape() + ">", true, false}
	}
	return vfLeaves[zzvf.Choose(label+" type", len(vfLeaves))]
}

// vfNulls is a TypeScript type in which types that admit null anyway do not say so.
func vfNulls(ts string) string {
	return strings.ReplaceAll(strings.ReplaceAll(ts, "any|null", "any"), "Any|null", "Any")
}

// shape is the TypeScript type of a value that is not left out.
func (t vfType) shape() string {
	if t.null && t.ts != "any" {
		return t.ts + "|null"
	}
	return t.ts
}

// typeName is a type expression with package paths for qualifiers.
func (g *vfGo) typeName(e ast.Expr, pkg string) string {
	switch e := e.(type) {
	case *ast.Ident:
		switch e.Name {
		case "uint8":
			return "byte"
		}
		if ast.IsExported(e.Name) || e.Name == "hidden" {
			return pkg + "." + e.Name
		}
		return e.Name
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && g.imports()[x.Name] != "" {
			return g.imports()[x.Name] + "." + e.Sel.Name
		}
	case *ast.StarExpr:
		return "*" + g.typeName(e.X, pkg)
	case *ast.ArrayType:
		if e.Len == nil {
			return "[]" + g.typeName(e.Elt, pkg)
		}
	case *ast.MapType:
		return "map[" + g.typeName(e.Key, pkg) + "]" + g.typeName(e.Value, pkg)
	case *ast.InterfaceType:
		if e.Methods.NumFields() == 0 {
			return "any"
		}
	}
	return "? " + g.src(e)
}
