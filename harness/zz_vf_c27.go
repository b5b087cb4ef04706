package gotsrpc

//vf:bound package paths: every valid import path of up to n bytes (bound "package length") over 'a', 'b', 'A', '/'; 5 module names; 8 go.mod files (none, requirements, nested requirements, local, absolute, versioned and unmatched replacements, upper case module paths); two GOPATH entries and a vendor directory; package directories up to 2 levels below each root
//vf:outside a go.mod replacing both a module and one version of it; a GOMODCACHE other than GOPATH/pkg/mod; nested modules below the main module
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"fmt"
	"strings"

	"golang.org/x/mod/modfile"

	"github.com/foomo/gotsrpc/v2/config"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfPkgPath is an arbitrary valid import path of n bytes.
func vfPkgPath(label string, n int) string {
	p := zzvf.StrOf(label, n, "abA/")
	zzvf.Assume(p[0] != '/' && p[n-1] != '/' && !strings.Contains(p, "//"))
	return p
}

type vfModule struct {
	path string // module path
	root string // directory below each of the go paths (from "pkg/"), or absolute
}

var vfGoMods = []struct {
	text string
	mods []vfModule // most specific first; ROOT stands for the scratch directory
}{
	{"", nil},
	{"require a v1.2.0\n", []vfModule{{"a", "pkg/mod/a@v1.2.0"}}},
	{"require (\n\ta v1.2.0\n\ta/b v1.0.0\n)\n", []vfModule{{"a/b", "pkg/mod/a/b@v1.0.0"}, {"a", "pkg/mod/a@v1.2.0"}}},
	{"require a v1.2.0\n\nreplace a => ../rep\n", []vfModule{{"a", "ROOT/rep"}}},
	{"require (\n\ta v1.2.0\n\ta/b v1.0.0\n)\n\nreplace a => ROOT/rep\n", []vfModule{{"a/b", "pkg/mod/a/b@v1.0.0"}, {"a", "ROOT/rep"}}},
	{"require a v1.2.0\n\nreplace a v1.2.0 => b v1.3.0\n", []vfModule{{"a", "pkg/mod/b@v1.3.0"}}},
	{"require a v1.2.0\n\nreplace a v1.1.0 => ./rep\n", []vfModule{{"a", "pkg/mod/a@v1.2.0"}}},
	{"require (\n\tb.b/A v1.0.0\n\tb.b/b v1.0.0\n)\n\nreplace (\n\tb.b/b => b.b/B v1.5.0\n\tb.b/b/a => ./in/ba\n)\n", []vfModule{{"b.b/A", "pkg/mod/b.b/!a@v1.0.0"}, {"b.b/b/a", "ROOT/m/in/ba"}, {"b.b/b", "pkg/mod/b.b/!b@v1.5.0"}}},
}

func vfBelow(pkg, mod string) bool {
	return pkg == mod || strings.HasPrefix(pkg, mod+"/")
}

// VF_C27_Read: a package is read from the directory the go command finds it in.
func VF_C27_Read() {
	root := zzvf.TempDir()
	subs := []string{"", "/a", "/b", "/A", "/ab", "/ba", "/a/a", "/a/b", "/b/a", "/b/b", "/A/b"}
	roots := []string{root + "/m", root + "/g/src", root + "/r/src", root + "/w/vendor"}
	gmi := zzvf.Choose("go.mod", len(vfGoMods))
	gm := vfGoMods[gmi]
	expand := func(s string) string { return strings.ReplaceAll(s, "ROOT", root) }
	for _, m := range gm.mods {
		if strings.HasPrefix(m.root, "pkg") {
			roots = append(roots, root+"/g/"+m.root, root+"/r/"+m.root)
		} else {
			roots = append(roots, expand(m.root))
		}
	}
	var dirs []string
	for i, r := range roots {
		if i == 0 && zzvf.Bool("module root empty") {
			continue
		}
		if r == root+"/g/src" && zzvf.Bool("src empty") {
			continue
		}
		for _, s := range subs {
			zzvf.WriteFile(r+s+"/x.go", fmt.Sprintf("package x\n\ntype S interface {\n\tD%d()\n}\n", len(dirs)))
			dirs = append(dirs, r+s)
		}
	}
	ns := config.Namespace{Name: []string{"", "a", "a/b", "ab", "b"}[zzvf.Choose("module", 5)], Path: root + "/m"}
	if gm.text != "" {
		f, err := modfile.Parse("go.mod", []byte("module zz\n\ngo 1.20\n\n"+expand(gm.text)), nil)
		zzvf.Assert(err == nil, "the go.mod of the harness is fine")
		ns.ModFile = f
	}
	pkg := vfPkgPath("package", 1+zzvf.Choose("len", zzvf.Bound("package length", 4, 6)))
	if gmi == 7 {
		pkg = "b.b/" + pkg
	}

	// where the go command would look
	var want []string
	goPaths := []string{root + "/g", root + "/r", root + "/w/vendor"}
	if ns.Name != "" && vfBelow(pkg, ns.Name) {
		want = []string{ns.Path + strings.TrimPrefix(pkg, ns.Name)}
		zzvf.Reach("module")
	} else {
		in := false
		for _, m := range gm.mods {
			if !vfBelow(pkg, m.path) {
				continue
			}
			in = true
			rel := strings.TrimPrefix(pkg, m.path)
			if strings.HasPrefix(m.root, "pkg") {
				want = []string{root + "/g/" + m.root + rel, root + "/r/" + m.root + rel}
				zzvf.Reach("requirement")
			} else {
				want = []string{expand(m.root) + rel}
				zzvf.Reach("replacement")
			}
			break
		}
		if !in {
			want = []string{root + "/g/src/" + pkg, root + "/r/src/" + pkg, root + "/w/vendor/" + pkg}
			zzvf.Reach("go path")
		}
	}
	found := -1
search:
	for _, w := range want {
		for i, d := range dirs {
			if w == d {
				found = i
				break search
			}
		}
	}
	name, services, _, _, _, err := Read(goPaths, ns, pkg, map[string]string{"/s": "S"}, map[string]bool{}, map[string]bool{})
	if found < 0 {
		zzvf.Assert(err != nil, "a package that is not there is an error")
		zzvf.Reach("missing")
		return
	}
	zzvf.Assert(err == nil && name == "x", "a package that is there is read")
	zzvf.Assert(len(services) == 1 && len(services[0].Methods) == 1, "the service is read once")
	zzvf.Assert(services[0].Methods[0].Name == fmt.Sprintf("D%d", found), "the package is read from the directory the go command finds it in")
	zzvf.Reach("found")
}

// VF_C27_Output: the code generated for a package of the module goes to the directory the package is read from.
func VF_C27_Output() {
	root := zzvf.TempDir()
	mod := []string{"", "a", "a/b", "ab", "b"}[zzvf.Choose("module", 5)]
	pkg := vfPkgPath("package", 1+zzvf.Choose("len", zzvf.Bound("package length", 4, 6)))
	got := getPathForTarget(config.Namespace{Name: mod, Path: root + "/m"}, root+"/g", &config.Target{Package: pkg})
	if mod != "" && vfBelow(pkg, mod) {
		zzvf.Assert(got == root+"/m"+strings.TrimPrefix(pkg, mod), "code of the module goes below the module root")
		zzvf.Reach("module")
	} else {
		zzvf.Assert(got == root+"/g/src/"+pkg, "code of other packages goes below the GOPATH")
		zzvf.Reach("go path")
	}
}
