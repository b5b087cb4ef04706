package gotsrpc

//vf:bound three output files in any of nine kinds of places (absolute, relative to the working directory, above it, below the home directory, nested, with .ts inside), directories named by any letter
//vf:bound up to four packages of paths that differ in punctuation only, contain one another, are TypeScript keywords or start with digits, and types of each in arguments, results and fields
//vf:outside two packages mapped to the same file, output paths with quotes, packages whose path is a first element of others', which are mapped but not used
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"os"
	"path"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfTSFile is a generated TypeScript file: its path, text and the paths of the modules it imports.
type vfTSFile struct {
	path, text string
	modules    map[string]string
}

// vfTSImports reads a TypeScript file.
func vfTSImports(file string) *vfTSFile {
	f := &vfTSFile{path: file, modules: map[string]string{}}
	text, ok := zzvf.ReadFile(file)
	zzvf.Assert(ok, "the file is written")
	for _, line := range strings.Split(text, "\n") {
		trimmed := strings.TrimSpace(line)
		if strings.HasPrefix(trimmed, "//") || strings.HasPrefix(trimmed, "/*") {
			continue
		}
		if strings.HasPrefix(trimmed, "import ") {
			words := strings.Fields(trimmed)
			zzvf.Assert(len(words) > 5 && words[1] == "*" && words[2] == "as" && words[4] == "from", "an import is well formed")
			spec := strings.TrimSuffix(words[5], ";")
			zzvf.Assert(len(spec) > 2 && spec[0] == '\'' && spec[len(spec)-1] == '\'' && strings.HasPrefix(spec, "'."), "an import names a file relative to its own")
			_, twice := f.modules[words[3]]
			zzvf.Assert(!twice && vfIdentifier(words[3]), "modules have distinct names, that are identifiers")
			for _, reserved := range []string{"class", "function", "delete", "in", "with", "new", "this", "void", "enum", "static"} {
				zzvf.Assert(words[3] != reserved, "modules have names that are not reserved")
			}
			f.modules[words[3]] = path.Join(path.Dir(file), spec[1:len(spec)-1]) + ".ts"
			continue
		}
		f.text += line + "\n"
	}
	return f
}

// resolves looks up where a type is referred to; declared tells the file that has it.
func (f *vfTSFile) resolves(name, declared string) (refs int) {
	for i := 0; i+len(name) <= len(f.text); i++ {
		if f.text[i:i+len(name)] != name || i+len(name) < len(f.text) && vfWord(f.text[i+len(name)]) || i == 0 || vfWord(f.text[i-1]) {
			continue
		}
		if f.text[i-1] != '.' {
			zzvf.Assert(f.path == declared, "a type of another file is qualified with its module")
			continue
		}
		k := i - 1
		for k > 0 && vfWord(f.text[k-1]) {
			k--
		}
		module, ok := f.modules[f.text[k:i-1]]
		zzvf.Assert(ok, "a module that is used is imported")
		zzvf.Assert(module == declared, "a module is imported from the file that declares its types")
		refs++
	}
	return
}

func vfPlace(g *vfGen, label, name string) (file, abs string) {
	letter := "x"
	kind := zzvf.Choose(label, 9)
	if kind < 4 {
		b := zzvf.Byte(label)
		zzvf.Assume(b >= 'a' && b <= 'z')
		letter = string([]byte{b})
	}
	switch kind {
	case 0:
		file = g.root + "/m/" + letter + "/" + name
		abs = file
	case 1:
		file, abs = letter+"/"+name, g.root+"/m/"+letter+"/"+name
	case 2:
		file, abs = "../"+letter+"/"+name, g.root+"/"+letter+"/"+name
	case 3:
		file, abs = "~/"+letter+"/"+name, g.root+"/home/"+letter+"/"+name
	case 4:
		file, abs = name, g.root+"/m/"+name
	case 5:
		file, abs = "./y//z/"+name, g.root+"/m/y/z/"+name
	case 6:
		file, abs = g.root+"/home/"+name, g.root+"/home/"+name
	case 7:
		file, abs = "gen.ts.d/"+name, g.root+"/m/gen.ts.d/"+name
	default:
		file, abs = ".ts/d.ts."+name, g.root+"/m/.ts/d.ts."+name
	}
	return
}

// VF_C28_Places: imports lead from any place to any other.
func VF_C28_Places() {
	g := vfNewGen()
	os.Setenv("HOME", g.root+"/home")
	g.file("s", "s.go", "package s\n\nimport (\n\t\"m.x/t\"\n\t\"m.x/u\"\n)\n\ntype S interface {\n\tGet(a t.T0) (u.T1, *t.T2)\n}\n")
	g.file("t", "t.go", "package t\n\nimport \"m.x/u\"\n\ntype T0 struct {\n\tF map[string]u.T1\n\tP *T0\n}\n\ntype T2 struct {\n\tA T3 `json:\"a\" gotsrpc:\"union\"`\n\tB u.T4 `json:\"b\" gotsrpc:\"union\"`\n}\n\ntype T3 string\n\nconst T3A T3 = \"a\"\n")
	g.file("u", "u.go", "package u\n\ntype T1 struct {\n\tA string\n}\n\ntype T4 string\n\nconst T4B T4 = \"b\"\n")
	out, outAbs := vfPlace(g, "client", "out.ts")
	t, tAbs := vfPlace(g, "first", "t.ts")
	g.mapping("t", t)
	u, uAbs := g.root+"/m/u.ts", g.root+"/m/u.ts"
	if zzvf.Bound("places", 2, 3) == 3 {
		u, uAbs = vfPlace(g, "second", "u.ts")
	}
	g.mapping("u", u)
	g.target("s", "s", out, map[string]string{"/s": "S"}).TSRPC = []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	client, first, second := vfTSImports(outAbs), vfTSImports(tAbs), vfTSImports(uAbs)
	zzvf.Assert(client.resolves("T0", tAbs) > 0 && client.resolves("T1", uAbs) > 0 && client.resolves("T2", tAbs) > 0, "the client refers to the types of its service")
	first.resolves("T0", tAbs)
	first.resolves("T3", tAbs)
	zzvf.Assert(first.resolves("T1", uAbs) > 0 && first.resolves("T4", uAbs) > 0, "a file refers to the types of its fields")
	second.resolves("T1", uAbs)
	for _, f := range []*vfTSFile{client, first, second} {
		for _, m := range f.modules {
			zzvf.Assert(m == tAbs || m == uAbs, "an import leads to a file that is written")
		}
	}
	zzvf.Reach("end")
}

// VF_C28_Modules: every package has a module of its own.
func VF_C28_Modules() {
	g := vfNewGen()
	pool := []string{"m.x/a-b", "m.x/a/b", "m.x/a.b", "m.x/a_b", "x/a/b", "class", "4d63.com/x", "string", "m.x/a", "x", "m.x/a~b"}
	n := zzvf.Bound("packages", 3, 4)
	var pkgs []string
	for i := 0; i < n; i++ {
		p := pool[zzvf.Choose("package", len(pool))]
		for _, o := range pkgs {
			zzvf.Assume(o != p)
		}
		pkgs = append(pkgs, p)
	}
	// every second type refers to the first one, the service to all but one that is mapped only
	imports, args := "", ""
	used := n
	if zzvf.Bool("unused") {
		used--
	}
	for i, p := range pkgs {
		name := "T" + string(rune('0'+i))
		text := "package p\n\ntype " + name + " struct {\n\tSelf []" + name + "\n}\n"
		if i == 1 {
			text = "package p\n\nimport first \"" + pkgs[0] + "\"\n\ntype " + name + " struct {\n\tF first.T0\n}\n"
		}
		if strings.HasPrefix(p, "m.x/") {
			g.file(strings.TrimPrefix(p, "m.x/"), "p.go", text)
		} else {
			zzvf.WriteFile(g.root+"/gopath/src/"+p+"/p.go", text)
		}
		g.mapping(strings.TrimPrefix(p, "m.x/"), g.root+"/m/t"+string(rune('0'+i))+".ts")
		mapping := g.conf.Mappings["m.x/"+strings.TrimPrefix(p, "m.x/")]
		delete(g.conf.Mappings, "m.x/"+strings.TrimPrefix(p, "m.x/"))
		mapping.GoPackage = p
		g.conf.Mappings[p] = mapping
		if i < used {
			imports += "\tp" + string(rune('0'+i)) + " \"" + p + "\"\n"
			args += ", a" + string(rune('0'+i)) + " p" + string(rune('0'+i)) + "." + name
		}
	}
	g.file("s", "s.go", "package s\n\nimport (\n"+imports+")\n\ntype S interface {\n\tGet("+strings.TrimPrefix(args, ", ")+")\n\tIn(class, string int)\n}\n")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"}).TSRPC = []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	files := []*vfTSFile{vfTSImports(g.root + "/m/out.ts")}
	written := map[string]bool{}
	for i := 0; i < used; i++ {
		f := vfTSImports(g.root + "/m/t" + string(rune('0'+i)) + ".ts")
		zzvf.Assert(vfExports(f.text, "T"+string(rune('0'+i))) == 1, "a file has the types of its package")
		files = append(files, f)
		written[f.path] = true
	}
	for _, f := range files {
		for i := 0; i < used; i++ {
			refs := f.resolves("T"+string(rune('0'+i)), g.root+"/m/t"+string(rune('0'+i))+".ts")
			zzvf.Assert(refs > 0 || f != files[0], "the client refers to the types of its service")
		}
		for _, m := range f.modules {
			zzvf.Assert(written[m], "an import leads to a file that is written")
		}
	}
	zzvf.Reach("end")
}
