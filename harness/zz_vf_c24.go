package gotsrpc

//vf:bound six modules: two targets with services and types of four packages; enums and included types; unions and error types of two packages; types declared once per build constraint; packages whose names differ in punctuation; faulty configurations; one letter of a constant's and of a method's name any capital
//vf:bound iteration orders: at most n map iterations (1 in quick, 2 in thorough) of any of the loops executed take another order than insertion, any rotation of it, alone or at every execution of that loop
//vf:outside one service name on two endpoints of a target, two packages mapped to the same file
//vf:stub goimports leaves the code as it is; it runs in the native replays, which generate up to 100 times
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/config"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfTwice generates code once with maps iterated in insertion order and once with other orders, and compares.
func vfTwice(g *vfGen, setup func(), files ...string) {
	run := func() (int, []string) {
		g.conf = &config.Config{Module: g.conf.Module, Targets: map[string]*config.Target{}, Mappings: config.TypeScriptMappings{}}
		setup()
		code := g.build()
		var texts []string
		for _, f := range files {
			t := g.out(f)
			if zzvf.Sym() && strings.HasSuffix(f, ".go") {
				t = vfImportsSorted(t)
			}
			texts = append(texts, t)
		}
		return code, texts
	}
	code, texts := run()
	zzvf.MapOrder(true)
	c, t := run()
	zzvf.Assert(c == code, "generating twice ends the same way")
	for i := range texts {
		zzvf.Assert(t[i] == texts[i], "generating twice gives the same code")
	}
	zzvf.MapOrder(false)
	if code == -1 {
		for i := range texts {
			zzvf.Assert(texts[i] != "", "the code is generated")
		}
		zzvf.Reach("generated")
	} else {
		zzvf.Reach("failed")
	}
}

// vfImportsSorted is the text with the imports in the order goimports gives them.
func vfImportsSorted(text string) string {
	i := strings.Index(text, "import (")
	if i < 0 {
		return text
	}
	j := i + strings.Index(text[i:], ")")
	return text[:i] + strings.Join(vfSorted(strings.Split(text[i:j], "\n")), "\n") + text[j:]
}

var vfGoFiles = []string{"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"}

func vfFilesOf(pkgs ...string) (l []string) {
	for _, p := range pkgs {
		for _, f := range vfGoFiles {
			l = append(l, p+"/"+f)
		}
	}
	return
}

// VF_C24_Targets: two targets, services over several files, types of several packages.
func VF_C24_Targets() {
	g := vfNewGen()
	b := zzvf.Byte("letter")
	zzvf.Assume(b >= 'A' && b <= 'Z')
	g.file("s", "a.go", "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/u\"\n)\n\ntype A interface {\n\t"+string([]byte{b})+"oo(x t.T, y map[u.K]*u.U) (string, error)\n\tAbc() []t.T\n}\n\ntype B struct{}\n\ntype Local struct {\n\tT map[string]t.T\n}\n")
	g.file("s", "b.go", "package s\n\nimport \"m.x/v\"\n\nfunc (b *B) Bar(l Local) (n v.N) { panic(0) }\n\nfunc (b *B) Aaa(n int) {}\n")
	g.file("r", "r.go", "package r\n\nimport \"m.x/t\"\n\ntype R interface {\n\tGet() *t.T\n}\n")
	g.file("t", "t.go", "package t\n\nimport \"m.x/u\"\n\ntype T struct {\n\tX int\n\tW *W\n\tU u.U\n}\n\ntype W struct {\n\tT *T\n}\n")
	g.file("u", "u.go", "package u\n\ntype K string\n\ntype U struct {\n\tA, B string\n}\n")
	g.file("v", "v.go", "package v\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/u\"\n)\n\ntype N struct {\n\tT t.T\n\tUs []u.U\n}\n")
	vfTwice(g, func() {
		for _, p := range []string{"s", "t", "u", "v"} {
			g.mapping(p, g.root+"/m/"+p+".ts")
		}
		s := g.target("s", "s", g.root+"/m/so.ts", map[string]string{"/a": "A", "/b": "B"})
		s.GoRPC, s.TSRPC = []string{"A", "B"}, []string{"A", "B"}
		r := g.target("r", "r", g.root+"/m/ro.ts", map[string]string{"/r": "R"})
		r.GoRPC, r.TSRPC = []string{"R"}, []string{"R"}
	}, append(vfFilesOf("s", "r"), "s.ts", "t.ts", "u.ts", "v.ts", "so.ts", "ro.ts")...)
}

// VF_C24_Enums: constants, included types and constants.
func VF_C24_Enums() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\ntype S interface {\n\tGet(k t.Kind, l t.Level) t.T\n}\n")
	b := zzvf.Byte("letter")
	zzvf.Assume(b == 'B' || b == 'E' || b > 'F' && b <= 'Z')
	g.file("t", "a.go", "package t\n\ntype Kind string\n\nconst (\n\tKind"+string([]byte{b})+" Kind = \"b\"\n\tKindA Kind = \"a\"\n\tKindC Kind = \"c\"\n)\n\ntype T struct {\n\tK Kind\n\tM map[Kind]Level\n}\n")
	g.file("t", "b.go", "package t\n\nconst LevelTwo Level = 2\n\nconst LevelOne Level = 1\n\nconst KindD Kind = \"d\"\n")
	g.file("t", "c.go", "package t\n\ntype Level int\n\ntype Extra struct {\n\tA string\n}\n\ntype More struct {\n\tE Extra\n}\n\ntype Color string\n\nconst ColorRed Color = \"red\"\n\nconst ColorBlue Color = \"blue\"\n\ntype Any interface{}\n")
	vfTwice(g, func() {
		g.mapping("t", g.root+"/m/t.ts")
		g.conf.Mappings["m.x/t"].Structs = []string{"m.x/t.More", "m.x/t.Extra"}
		g.conf.Mappings["m.x/t"].Scalars = []string{"m.x/t.Color", "m.x/t.Any"}
		tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
		tg.TSRPC = []string{"S"}
	}, "t.ts", "out.ts", "s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go")
}

// VF_C24_Unions: unions and error types of two packages.
func VF_C24_Unions() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/u\"\n)\n\ntype S interface {\n\tGet(a t.UA, b t.UB) (u.UC, *t.Err)\n\tOther() *u.Err\n}\n")
	g.file("t", "t.go", "package t\n\ntype X struct {\n\tA string\n}\n\ntype Y struct {\n\tB int\n}\n\ntype UA struct {\n\tX *X `json:\"x\" gotsrpc:\"union\"`\n\tY *Y `json:\"y\" gotsrpc:\"union\"`\n}\n\ntype UB struct {\n\tY *Y `json:\"y\" gotsrpc:\"union\"`\n}\n")
	g.file("t", "e.go", "package t\n\nfunc (e *Err) Error() string { return e.M }\n\ntype Err struct {\n\tM string\n}\n")
	g.file("u", "u.go", "package u\n\nimport \"m.x/t\"\n\ntype UC struct {\n\tX *t.X `json:\"x\" gotsrpc:\"union\"`\n\tY *t.Y `json:\"y\" gotsrpc:\"union\"`\n}\n\ntype Err struct {\n\tt.X `json:\",inline\"`\n}\n")
	g.file("u", "e.go", "package u\n\nfunc (e *Err) Error() string { return \"\" }\n")
	vfTwice(g, func() {
		g.mapping("t", g.root+"/m/t.ts")
		g.mapping("u", g.root+"/m/u.ts")
		tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
		tg.TSRPC = []string{"S"}
	}, "t.ts", "u.ts", "out.ts", "s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go")
}

// VF_C24_Constraints: types and constants that are declared once per build constraint.
func VF_C24_Constraints() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\ntype S interface {\n\tGet(t t.T) t.K\n}\n")
	g.file("t", "a_one.go", "//go:build one\n\npackage t\n\ntype T struct {\n\tA string\n}\n\ntype K string\n\nconst KA K = \"one\"\n")
	g.file("t", "b_two.go", "//go:build !one\n\npackage t\n\ntype T struct {\n\tB int\n}\n\ntype K string\n\nconst KA K = \"two\"\n")
	g.file("t", "c.go", "package t\n\ntype L int\n")
	vfTwice(g, func() {
		g.mapping("t", g.root+"/m/t.ts")
		tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
		tg.TSRPC = []string{"S"}
	}, "t.ts", "out.ts", "s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go")
}

// VF_C24_Names: packages and modules whose names differ in punctuation only.
func VF_C24_Names() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport (\n\tone \"m.x/a-b\"\n\ttwo \"m.x/a/b\"\n)\n\ntype S interface {\n\tGet(x one.T, y two.T) (one.R, two.R)\n}\n")
	g.file("a-b", "t.go", "package one\n\ntype T struct {\n\tA string\n}\n\ntype R struct {\n\tT T\n}\n")
	g.file("a/b", "t.go", "package two\n\ntype T struct {\n\tA string\n}\n\ntype R struct {\n\tT T\n}\n")
	vfTwice(g, func() {
		g.mapping("a-b", g.root+"/m/t.ts")
		g.mapping("a/b", g.root+"/m/u.ts")
		tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
		tg.TSRPC, tg.GoRPC = []string{"S"}, []string{"S"}
	}, append(vfFilesOf("s"), "t.ts", "u.ts", "out.ts")...)
}

// VF_C24_Faults: configurations that do not work fail alike.
func VF_C24_Faults() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/u\"\n)\n\ntype S interface {\n\tGet(x t.T, y t.W) u.U\n}\n")
	g.file("t", "t.go", "package t\n\ntype T struct {\n\tA string\n}\n\ntype W struct {\n\tT T\n}\n")
	g.file("u", "u.go", "package u\n\ntype U struct {\n\tA string\n}\n")
	fault := zzvf.Choose("fault", 4)
	vfTwice(g, func() {
		g.mapping("t", g.root+"/m/t.ts")
		services := map[string]string{"/s": "S"}
		switch fault {
		case 0: // u is not mapped
		case 1:
			g.mapping("u", g.root+"/m/u.ts")
			g.conf.Mappings["m.x/t"].Structs = []string{"m.x/t.None", "m.x/v.Nope"}
		case 2:
			g.mapping("u", g.root+"/m/u.ts")
			g.conf.Mappings["m.x/t"].Scalars = []string{"m.x/t.None", "m.x/t.Nope"}
		default:
			g.mapping("u", g.root+"/m/u.ts")
			services["/r"] = "R"
		}
		tg := g.target("s", "s", g.root+"/m/out.ts", services)
		tg.TSRPC = []string{"S"}
	}, "t.ts", "u.ts", "out.ts", "s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go")
}
