package gotsrpc

//vf:bound two packages a?b?c with any separators (bound "separators") of - . / _ ~ + and digits, and a third one of 32 paths (keywords, predeclared and local names, paths of the fixed imports, leading digits, other letters, the package itself)
//vf:bound all four generated Go files, types as parameters and results, bare, in slices, maps and behind pointers, as unions
//vf:outside names declared by the package itself that equal an alias, dot imports
//vf:stub file system: not used, the renderers are called with the services that reading a package gives

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"github.com/foomo/gotsrpc/v2/config"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

func vfSeparator(label string) string {
	b := zzvf.Byte(label)
	zzvf.Assume(b == '-' || b == '.' || b == '/' || b == '_' || b == '~' || b == '+' || b >= '0' && b <= '1')
	return string([]byte{b})
}

// VF_C32_Aliases: every package is imported once, under an alias of its own.
func VF_C32_Aliases() {
	self := "m.x/s"
	special := []string{
		"", self, "go", "type", "string", "nil", "error", "len", "init", "args", "rets", "r", "p", "callStats",
		"net/http", "http", "io", "time", "context", "gotsrpc", "4d63.com/x", "4d63_com/x", "pkg/errors", "é/世",
		"w", "rw", "executionStart", "funcName", "0pointer.de/x", "true", "fmt", "encoding/gob",
	}[zzvf.Choose("third", 32)]
	sep := []string{"/", "-", "_", "."}
	for i := range sep {
		if (special == "" || i == 0) && i < zzvf.Bound("separators", 3, 4) {
			sep[i] = vfSeparator("separator")
		}
	}
	pkgs := []string{"a" + sep[0] + "b" + sep[1] + "c", "a" + sep[2] + "b" + sep[3] + "c"}
	if special != "" {
		pkgs = append(pkgs, special)
		if special == "http" || special == "io" || special == "time" {
			pkgs = append(pkgs, "net/http")
		}
	}
	zzvf.Assume(pkgs[0] != pkgs[1])
	kind := zzvf.Choose("file", 4)
	shape, results := 0, true
	if special == "" {
		if shape = zzvf.Choose("shape", 4); shape == 0 {
			results = zzvf.Bool("results")
		}
	}
	service := &Service{Name: "S", Endpoint: "/s", IsInterface: true}
	unions := map[string][]string{}
	names := map[string]string{}
	for i, pkg := range pkgs {
		name := "T" + string(rune('0'+i))
		names[name] = pkg
		v := vfNamed(pkg, name)
		switch shape {
		case 1:
			v = &Value{Array: &Array{Value: v}}
		case 2:
			v = &Value{Map: &Map{Key: &Value{ScalarType: ScalarTypeString, GoScalarType: "string"}, Value: v}}
		case 3:
			v.IsPtr = true
			if kind == 0 {
				unions[pkg] = []string{"U" + string(rune('0'+i))}
				names["U"+string(rune('0'+i))] = pkg
			}
		}
		// packages appear in two methods, in different order
		m := &Method{Name: "M" + string(rune('0'+i)), Args: []*Field{{Name: "a", Value: v}}}
		if results {
			m.Return = []*Field{{Value: v}}
		}
		service.Methods = append(service.Methods, m)
	}
	final := service.Methods[len(pkgs)-1]
	final.Args = append(final.Args, &Field{Name: "b", Value: service.Methods[0].Args[0].Value})

	target := &config.Target{GoRPC: []string{"S"}, TSRPC: []string{"S"}}
	var text string
	var err error
	switch kind {
	case 0:
		text, err = RenderGoTSRPCProxies(ServiceList{service}, self, "s", target, unions)
	case 1:
		text, err = RenderGoTSRPCClients(ServiceList{service}, self, "s", target)
	case 2:
		text, err = RenderGoRPCProxies(ServiceList{service}, self, "s", target)
	default:
		text, err = RenderGoRPCClients(ServiceList{service}, self, "s", target)
	}
	zzvf.Assert(err == nil, "the code is generated")
	f := vfParse(text)
	alias := map[string]string{} // by path
	for _, s := range f.f.Imports {
		path := s.Path.Value[1 : len(s.Path.Value)-1]
		name := path[strings.LastIndexByte(path, '/')+1:]
		if s.Name != nil {
			name = s.Name.Name
		}
		_, twice := alias[path]
		zzvf.Assert(!twice, "a package is imported once")
		for _, other := range alias {
			zzvf.Assert(other != name, "two packages have different aliases")
		}
		alias[path] = name
		zzvf.Assert(token.IsIdentifier(name) && name != "_" && name != "init" && types.Universe.Lookup(name) == nil, "an alias is an identifier, that means nothing else")
	}
	_, imported := alias[self]
	zzvf.Assert(!imported, "the package itself is not imported")
	// every type is named with the alias of its package
	seen := map[string]bool{}
	qualifier := map[*ast.Ident]string{}
	ast.Inspect(f.f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				qualifier[s.Sel] = x.Name
			}
		}
		return true
	})
	ast.Inspect(f.f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		pkg, ok := names[id.Name]
		if !ok {
			return true
		}
		seen[id.Name] = true
		if pkg == self {
			zzvf.Assert(qualifier[id] == "", "types of the package itself are not qualified")
		} else {
			zzvf.Assert(qualifier[id] != "" && qualifier[id] == alias[pkg], "a type is qualified with the alias of its package")
		}
		return true
	})
	zzvf.Assert(len(seen) == len(names), "every type appears")
	if kind == 0 {
		serve := f.method("SGoTSRPCProxy", "ServeHTTP")
		ast.Inspect(serve, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok == token.DEFINE {
					for _, e := range n.Lhs {
						vfNoAlias(alias, e.(*ast.Ident).Name)
					}
				}
			case *ast.ValueSpec:
				for _, id := range n.Names {
					vfNoAlias(alias, id.Name)
				}
			}
			return true
		})
		for _, n := range []string{"p", "w", "r"} {
			vfNoAlias(alias, n)
		}
	}
	zzvf.Reach("end")
}

func vfNoAlias(alias map[string]string, name string) {
	for _, a := range alias {
		zzvf.Assert(a != name, "an alias is not hidden by a variable")
	}
}
