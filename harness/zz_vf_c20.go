package gotsrpc

//vf:bound one field (with or without omitempty, of a struct or of an anonymous struct), parameter, result or type definition of any type built from a scalar, a named type of the same file, of another file or of one of three other packages (one renamed on import, one with the name of a standard package, time.Time) by up to n pointers, slices and maps (bound "constructors")
//vf:assume the JSON shape of a type (bytes as base64 text, times as numbers, errors as any) is that of github.com/ugorji/go/codec with the handle the package configures
//vf:outside arrays, functions, channels, generic types, pointers to unnamed slices, maps, interfaces and pointers, boolean map keys, imports whose name is not the last element of their path
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C20_Shape: a type is described by its JSON shape.
func VF_C20_Shape() {
	g := vfNewGen()
	g.typeFiles()
	t := vfAnyType("type", zzvf.Bound("constructors", 2, 3))
	place := zzvf.Choose("place", 5)
	want := t.shape()
	first := "export interface T "
	decl := "type T struct {\n\tA string\n\tV " + t.src + "\n\tB bool\n}\n\n"
	switch place {
	case 1:
		decl = strings.Replace(decl, "\n\tB", " `json:\",omitempty\"`\n\tB", 1)
		want = t.ts
	case 2:
		decl = "type T struct {\n\tN struct {\n\t\tA string\n\t\tV " + t.src + "\n\t\tB bool\n\t}\n}\n\n"
		first = "N:"
	case 3:
		zzvf.Assume(t.src[0] == '[' || strings.HasPrefix(t.src, "map"))
		decl = "type T " + t.src + "\n\n"
		want = t.ts
	case 4:
		decl = "type T struct{}\n\n"
	}
	g.file("s", "s.go", "package s\n\n"+vfTypesHere+decl+"type S interface {\n\tFoo(p string, v "+t.src+") (r "+t.src+", b bool)\n\tBar(t T)\n}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	want = vfNulls(want)
	text := g.out("s.ts")
	switch place {
	case 0, 1, 2:
		_, inside, ok := vfTSBlock(text, first)
		zzvf.Assert(ok, "the struct is described by a TypeScript interface")
		f := vfTSSplit(inside)
		zzvf.Assert(len(f) == 3 && f[1].name == "V", "the field is described")
		zzvf.Assert(f[1].optional == (place == 1), "a field is optional exactly when it is tagged omitempty")
		zzvf.Assert(vfNulls(f[1].typ) == want, "a field has the JSON shape of its type")
		zzvf.Reach("field")
	case 3:
		i := strings.Index(text, "export type T = ")
		zzvf.Assert(i >= 0, "the type is described")
		line := text[i+len("export type T = "):]
		zzvf.Assert(vfNulls(vfFlat(line[:strings.IndexByte(line, '\n')])) == want, "a type has the JSON shape of its definition")
		zzvf.Reach("definition")
	case 4:
		client := g.out("out.ts")
		flat := vfNulls(vfFlat(client))
		zzvf.Assert(strings.Contains(flat, "async foo(p:string,v:"+want+"):Promise<{r:"+want+";b:boolean}>"), "parameters and results have the JSON shape of their types")
		zzvf.Assert(strings.Contains(flat, "transport<{0:"+want+";1:boolean}>"), "parameters and results have the JSON shape of their types")
		zzvf.Reach("signature")
	}
	zzvf.Reach("end")
}

// VF_C20_Named: scalar, interface, slice and map types are described by the shape of their definition.
func VF_C20_Named() {
	g := vfNewGen()
	g.typeFiles()
	type def struct{ src, ts string }
	d := []def{
		{"bool", "boolean"}, {"string", "string"}, {"int", "number"}, {"int8", "number"}, {"int16", "number"}, {"int32", "number"}, {"int64", "number"},
		{"uint", "number"}, {"uint8", "number"}, {"uint16", "number"}, {"uint32", "number"}, {"uint64", "number"}, {"float32", "number"}, {"float64", "number"},
		{"byte", "number"}, {"rune", "number"}, {"any", "any"}, {"interface{}", "any"}, {"error", "any"}, {"interface{ Foo() string }", "any"},
		{"[]byte", "string"}, {"[]uint8", "string"}, {"[][]byte", "Array<string|null>"}, {"[]*uint8", "Array<number|null>"},
	}[zzvf.Choose("definition", 24)]
	pkg, ref := "s", "N"
	if zzvf.Bool("other package") {
		pkg, ref = "n", "n.N"
	}
	uses := zzvf.Choose("use", 5)
	use := []string{ref, "[]" + ref, "map[string]" + ref, "*" + ref, "struct{ X " + ref + " }"}[uses]
	null := d.src[0] == '['
	mod := "m_x_" + pkg + ".N"
	el := mod
	if null {
		el += "|null"
	}
	want := []string{el, "Array<" + el + ">|null", "Record<string," + el + ">|null", mod + "|null", "{X:" + el + ";}"}[uses]
	def0 := "type N " + d.src + "\n"
	imp := ""
	if pkg == "n" {
		g.file("n", "n.go", "package n\n\n"+def0)
		g.mapping("n", g.root+"/m/n.ts")
		imp, def0 = "import \"m.x/n\"\n\n", ""
	} else if zzvf.Bool("other file") {
		g.file("s", "n.go", "package s\n\n"+def0)
		def0 = ""
	}
	g.file("s", "s.go", "package s\n\n"+imp+def0+"\ntype T struct {\n\tV "+use+"\n}\n\ntype S interface {\n\tBar(t T) "+ref+"\n}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	text := g.out(pkg + ".ts")
	i := strings.Index(text, "export type N = ")
	zzvf.Assert(i >= 0, "the type is described")
	line := text[i+len("export type N = "):]
	zzvf.Assert(vfFlat(line[:strings.IndexByte(line, '\n')]) == d.ts, "a type has the JSON shape of its definition")
	f := g.tsFields("s.ts", "T")
	zzvf.Assert(len(f) == 1 && f[0].name == "V" && f[0].typ == want, "a use of the type admits null where the value can be nil")
	zzvf.Reach("end")
}

// VF_C20_Anonymous: structs without a name are described where they are used.
func VF_C20_Anonymous() {
	g := vfNewGen()
	g.typeFiles()
	x := []struct{ src, ts string }{
		{"struct{}", "{}"},
		{"struct{ X int }", "{X:number;}"},
		{"struct{ X *int; Y *t.T }", "{X:number|null;Y:m_x_t.T|null;}"},
		{"struct{ X []string `json:\"x,omitempty\"`; Z struct{ y, Y bool } }", "{x?:Array<string>;Z:{Y:boolean;};}"},
		{"struct{ X int `json:\"-\"` }", "{}"},
	}[zzvf.Choose("struct", 5)]
	src, want := x.src, x.ts
	null := false
	switch zzvf.Choose("constructor", 6) {
	case 1:
		src, null = "*"+src, true
	case 2:
		src, want, null = "[]"+src, "Array<"+want+">", true
	case 3:
		src, want, null = "[]*"+src, "Array<"+want+"|null>", true
	case 4:
		src, want, null = "map[string]"+src, "Record<string,"+want+">", true
	case 5:
		src, want, null = "map[t.Str]*"+src, "Record<m_x_t.Str,"+want+"|null>", true
	}
	tag := ""
	omit := zzvf.Bool("omitempty")
	if omit {
		tag = " `json:\",omitempty\"`"
	} else if null {
		want += "|null"
	}
	g.file("s", "s.go", "package s\n\n"+vfTypesHere+"type T struct {\n\tA string\n\tV "+src+tag+"\n\tB bool\n}\n\ntype S interface {\n\tBar(t T)\n}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	_, inside, ok := vfTSBlock(g.out("s.ts"), "export interface T ")
	zzvf.Assert(ok, "the struct is described by a TypeScript interface")
	f := vfTSSplit(inside)
	zzvf.Assert(len(f) == 3 && f[1].name == "V", "the field is described")
	zzvf.Assert(f[1].optional == omit, "a field is optional exactly when it is tagged omitempty")
	zzvf.Assert(strings.ReplaceAll(vfFlat(f[1].typ), ";}", "}") == strings.ReplaceAll(want, ";}", "}"), "a field has the JSON shape of its type")
	zzvf.Reach("end")
}
