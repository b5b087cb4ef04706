package gotsrpc

//vf:bound a module with a service package and a package of types; one of: the service's name any of several that are declared or not, a package that is missing or empty, a Go file of either package, or of one outside the module (GOPATH, vendored), cut at any position, or with any ASCII byte at any position, types and constants named by a mapping that are declared or not, an output file or directory that cannot be written
//vf:outside failures of the file system in the middle of writing a file, tsrpc and gorpc lists with names of no service
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"go/parser"
	"go/token"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

const (
	vfService37 = "package s\n\nimport \"m.x/t\"\n\ntype S interface {\n\tGet(a t.T) string\n}\n\ntype s struct{}\n\nfunc SS() {}\n\nvar X int\n"
	vfTypes37   = "package t\n\ntype T struct {\n\tA Kind `json:\"a\"`\n}\n\ntype Kind string\n"
)

func vfModule37(service, types string) *vfGen {
	g := vfNewGen()
	if service != "" {
		g.file("s", "s.go", service)
	} else {
		zzvf.MkdirAll(g.root + "/m/s")
	}
	if types != "" {
		g.file("t", "t.go", types)
	} else {
		zzvf.MkdirAll(g.root + "/m/t")
	}
	g.mapping("t", g.root+"/m/x/t.ts")
	tg := g.target("s", "s", g.root+"/m/y/out.ts", map[string]string{"/s": "S"})
	tg.TSRPC, tg.GoRPC = []string{"S"}, []string{"S"}
	return g
}

var vfOutputs37 = []string{"s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go", "s/gorpc_gen.go", "s/gorpcclient_gen.go", "y/out.ts", "x/t.ts"}

// complete checks that everything the configuration asks for is there.
func (g *vfGen) complete37(name, service string) {
	whole := strings.Contains(service, "type S interface {\n\tGet(a t.T) string\n}")
	for _, f := range vfOutputs37 {
		text := g.out(f)
		zzvf.Assert(text != "" || !whole && f == "x/t.ts", "a generation that succeeds has written every file")
		if strings.HasSuffix(f, ".go") {
			vfParse(text)
			zzvf.Assert(strings.Contains(text, name), "a generation that succeeds has written the code of the service")
		}
		if whole && f != "x/t.ts" {
			zzvf.Assert(strings.Contains(text, "Get") || strings.Contains(text, "get"), "a generation that succeeds has written the code of the service")
		}
	}
	zzvf.Assert(!whole || vfExports(g.out("x/t.ts"), "T") == 1, "a generation that succeeds has described the types")
}

// VF_C37_Names: services, packages and types that are not there.
func VF_C37_Names() {
	service, types := vfService37, vfTypes37
	kind := zzvf.Choose("missing", 9)
	switch kind {
	case 1:
		service = ""
	case 2:
		types = ""
	case 3:
		types = strings.Replace(types, "type T", "type U", 1)
	case 4:
		types = strings.Replace(types, "Kind string", "Kinds string", 1)
	}
	g := vfModule37(service, types)
	tg := g.conf.Targets["s"]
	switch kind {
	case 5:
		// a name that is not that of a type
		name := zzvf.Str("service", zzvf.Choose("service length", 3))
		for i := 0; i < len(name); i++ {
			zzvf.Assume(zzvf.Or(zzvf.And(name[i] >= 'A', name[i] <= 'Z'), zzvf.And(name[i] >= 'a', name[i] <= 'z')))
		}
		zzvf.Assume(name != "S" && name != "s")
		tg.Services["/s"], tg.TSRPC, tg.GoRPC = name, []string{name}, []string{name}
	case 6:
		tg.Package = "m.x/none"
	case 7:
		g.conf.Mappings["m.x/t"].Structs = []string{"m.x/t." + []string{"None", "t", "", "T.A"}[zzvf.Choose("struct", 4)]}
	case 8:
		tg.Services = nil
	}
	code := g.build()
	if kind > 0 {
		zzvf.Assert(code > 0, "what is missing fails the generation")
		zzvf.Reach("missing")
		return
	}
	zzvf.Assert(code == -1, "nothing missing, the code is generated")
	g.complete37("S", service)
	zzvf.Reach("built")
}

func vfBroken37(service, types string) {
	_, e1 := parser.ParseFile(token.NewFileSet(), "s.go", service, parser.SkipObjectResolution)
	_, e2 := parser.ParseFile(token.NewFileSet(), "t.go", types, parser.SkipObjectResolution)
	g := vfModule37(service, types)
	code := g.build()
	if e1 != nil || e2 != nil {
		zzvf.Assert(code > 0, "a file that is not Go fails the generation")
		zzvf.Reach("broken")
		return
	}
	if code == -1 {
		g.complete37("S", service)
		zzvf.Reach("built")
	}
}

// VF_C37_Cut: files that are cut.
func VF_C37_Cut() {
	service, types := vfService37, vfTypes37
	if zzvf.Bool("service") {
		service = service[:zzvf.Choose("cut", len(service))]
	} else {
		types = types[:zzvf.Choose("cut", len(types))]
	}
	vfBroken37(service, types)
}

// VF_C37_Byte: files with a wrong byte.
func VF_C37_Byte() {
	service, types := vfService37, vfTypes37
	b := zzvf.Byte("byte")
	zzvf.Assume(b < 0x80)
	text := &types
	if zzvf.Bool("service") {
		text = &service
	}
	n := zzvf.Choose("position", len(*text))
	*text = (*text)[:n] + string([]byte{b}) + (*text)[n+1:]
	vfBroken37(service, types)
}

// VF_C37_Write: files that cannot be written.
func VF_C37_Write() {
	g := vfModule37(vfService37, vfTypes37)
	fails := zzvf.Choose("fails", len(vfOutputs37)+2)
	switch {
	case fails < len(vfOutputs37):
		zzvf.FSFail("write", g.root+"/m/"+vfOutputs37[fails])
	case fails == len(vfOutputs37):
		zzvf.FSFail("mkdir", g.root+"/m/x")
	default:
		zzvf.FSFail("mkdir", g.root+"/m/y")
	}
	zzvf.Assert(g.build() > 0, "what cannot be written fails the generation")
	zzvf.Reach("end")
}

// VF_C37_Included: types and constants a mapping names, of a package that is used or not.
func VF_C37_Included() {
	g := vfModule37(vfService37, vfTypes37)
	g.file("t", "more.go", "package t\n\ntype More struct {\n\tA string\n}\n\ntype Color string\n\nconst ColorRed Color = \"red\"\n")
	g.file("u", "u.go", "package u\n\ntype More struct {\n\tA string\n}\n\ntype Color string\n\nconst ColorRed Color = \"red\"\n")
	g.file("v", "v.go", "package v\n\ntype V struct {\n\tA string\n}\n")
	p := []string{"t", "u", "w"}[zzvf.Choose("package", 3)]
	name := []string{"More", "Color", "None", "More.A", "ColorRed", ""}[zzvf.Choose("name", 6)]
	if p != "t" {
		g.mapping(p, g.root+"/m/x/"+p+".ts")
	}
	m := g.conf.Mappings["m.x/"+p]
	if zzvf.Bool("other included") {
		// so that the package is loaded anyway
		m.Structs = []string{"m.x/" + p + ".More"}
	}
	if zzvf.Bool("as constant") {
		m.Scalars = []string{"m.x/" + p + "." + name}
	} else {
		m.Structs = append(m.Structs, "m.x/"+p+"."+name)
	}
	code := g.build()
	if p == "w" || name != "More" && name != "Color" {
		zzvf.Assert(code > 0, "what is missing fails the generation")
		zzvf.Reach("missing")
		return
	}
	if code == -1 {
		g.complete37("S", vfService37)
		zzvf.Assert(vfExports(g.out("x/"+p+".ts"), name) == 1, "a generation that succeeds has described the types")
		zzvf.Reach("built")
	}
}

// VF_C37_External: packages of several files, outside the module, of which one is cut.
func VF_C37_External() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport \"o.x/o\"\n\ntype S interface {\n\tGet(a o.T) string\n}\n")
	files := []string{"package o\n\ntype T struct {\n\tA Kind `json:\"a\"`\n}\n", "package o\n\ntype Kind string\n\nconst KindA Kind = \"a\"\n", "package o\n\nconst KindB Kind = \"b\"\n"}
	i := zzvf.Choose("file", 3)
	files[i] = files[i][:zzvf.Choose("cut", len(files[i])+1)]
	dir := g.root + "/gopath/src/o.x/o"
	if zzvf.Bool("vendored") {
		zzvf.Chdir(g.root + "/m")
		dir = g.root + "/m/vendor/o.x/o"
	}
	zzvf.MkdirAll(dir)
	broken := false
	for i, f := range files {
		zzvf.WriteFile(dir+"/"+string(rune('a'+i))+".go", f)
		_, err := parser.ParseFile(token.NewFileSet(), "o.go", f, parser.SkipObjectResolution)
		broken = broken || err != nil
	}
	g.mapping("t", g.root+"/m/x/t.ts")
	m := g.conf.Mappings["m.x/t"]
	m.GoPackage = "o.x/o"
	delete(g.conf.Mappings, "m.x/t")
	g.conf.Mappings["o.x/o"] = m
	tg := g.target("s", "s", g.root+"/m/y/out.ts", map[string]string{"/s": "S"})
	tg.TSRPC, tg.GoRPC = []string{"S"}, []string{"S"}
	code := g.build()
	if broken {
		zzvf.Assert(code > 0, "a file that is not Go fails the generation")
		zzvf.Reach("broken")
		return
	}
	if code == -1 {
		for _, f := range vfOutputs37 {
			zzvf.Assert(g.out(f) != "", "a generation that succeeds has written every file")
		}
		zzvf.Assert(vfExports(g.out("x/t.ts"), "T") == 1, "a generation that succeeds has described the types")
		zzvf.Reach("built")
	}
}
