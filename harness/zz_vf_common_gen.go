package gotsrpc

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"

	"github.com/foomo/gotsrpc/v2/config"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfGen is a module with packages the generator is run on.
type vfGen struct {
	root string
	conf *config.Config
}

// vfModule is an empty module m.x in a scratch directory, which is also the working directory.
func vfNewGen() *vfGen {
	g := &vfGen{root: zzvf.TempDir()}
	g.conf = &config.Config{Module: config.Namespace{Name: "m.x", Path: g.root + "/m"}, Targets: map[string]*config.Target{}, Mappings: config.TypeScriptMappings{}}
	zzvf.MkdirAll(g.root + "/m")
	zzvf.Chdir(g.root + "/m")
	return g
}

// file adds a Go file to package m.x/pkg.
func (g *vfGen) file(pkg, name, text string) { zzvf.WriteFile(g.root+"/m/"+pkg+"/"+name, text) }

func (g *vfGen) mapping(pkg, out string) {
	g.conf.Mappings["m.x/"+pkg] = &config.Mapping{GoPackage: "m.x/" + pkg, Out: out}
}

func (g *vfGen) target(name, pkg, out string, services map[string]string) *config.Target {
	t := &config.Target{Package: "m.x/" + pkg, Services: services, Out: out}
	g.conf.Targets[name] = t
	return t
}

// build runs the generator and tells its exit code, -1 if it returns.
func (g *vfGen) build() int {
	return zzvf.Exits(func() { Build(g.conf, g.root+"/gopath") })
}

// out is the text of a generated file, empty if there is none.
func (g *vfGen) out(name string) string {
	s, _ := zzvf.ReadFile(g.root + "/m/" + name)
	return s
}

func (g *vfGen) has(name string) bool {
	_, ok := zzvf.ReadFile(g.root + "/m/" + name)
	return ok
}

// vfFlat is text in which white space stands only between words.
func vfFlat(s string) string {
	var out []byte
	for _, w := range strings.Fields(s) {
		if len(out) > 0 && vfWord(out[len(out)-1]) && vfWord(w[0]) {
			out = append(out, ' ')
		}
		out = append(out, w...)
	}
	return string(out)
}

func vfWord(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func vfSorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// vfGo is a generated Go file.
type vfGo struct {
	f      *ast.File
	text   string
	consts map[string]string
	own    string // package of the file, if types are to be written with the paths of their packages
}

func vfParse(text string) *vfGo {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", text, parser.SkipObjectResolution)
	zzvf.Assert(err == nil, "generated Go code is well formed")
	g := &vfGo{f: f, text: text, consts: map[string]string{}}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST {
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if i < len(vs.Values) {
						if bl, ok := vs.Values[i].(*ast.BasicLit); ok && bl.Kind == token.STRING {
							g.consts[n.Name] = bl.Value[1 : len(bl.Value)-1]
						}
					}
				}
			}
		}
	}
	return g
}

func (g *vfGo) src(n ast.Node) string {
	base := int(g.f.FileStart)
	return vfFlat(g.text[int(n.Pos())-base : int(n.End())-base])
}

// methods are the methods of a type, in order.
func (g *vfGo) methods(typ string) (l []*ast.FuncDecl) {
	for _, d := range g.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok && id.Name == typ {
				l = append(l, fd)
			}
		}
	}
	return
}

func (g *vfGo) method(typ, name string) *ast.FuncDecl {
	for _, m := range g.methods(typ) {
		if m.Name.Name == name {
			return m
		}
	}
	return nil
}

// typ is the type expression of a type declared in the file.
func (g *vfGo) typ(name string) ast.Expr {
	for _, d := range g.f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
			for _, s := range gd.Specs {
				if ts := s.(*ast.TypeSpec); ts.Name.Name == name {
					return ts.Type
				}
			}
		}
	}
	return nil
}

// imports are the import paths by alias.
func (g *vfGo) imports() map[string]string {
	m := map[string]string{}
	for _, s := range g.f.Imports {
		p := s.Path.Value[1 : len(s.Path.Value)-1]
		n := p[strings.LastIndexByte(p, '/')+1:]
		if s.Name != nil {
			n = s.Name.Name
		}
		m[n] = p
	}
	return m
}

// cases are the strings the first switch of a function distinguishes, with the code for them.
func (g *vfGo) cases(fd *ast.FuncDecl) (names []string, code map[string]*ast.CaseClause) {
	code = map[string]*ast.CaseClause{}
	for _, s := range fd.Body.List {
		sw, ok := s.(*ast.SwitchStmt)
		if !ok {
			continue
		}
		for _, c := range sw.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				name := ""
				switch e := e.(type) {
				case *ast.BasicLit:
					name = e.Value[1 : len(e.Value)-1]
				case *ast.Ident:
					name = g.consts[e.Name]
				}
				names = append(names, name)
				code[name] = cc
			}
		}
		return
	}
	return
}

// vfFields are the single fields of a field list.
func vfFields(l *ast.FieldList) (names []string, types []ast.Expr) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			names, types = append(names, ""), append(types, f.Type)
		}
		for _, n := range f.Names {
			names, types = append(names, n.Name), append(types, f.Type)
		}
	}
	return
}

// vfTSField is a field of a generated TypeScript interface.
type vfTSField struct {
	name     string
	optional bool
	typ      string
}

// vfTSBlock is what stands between the braces after head, and what stands between head and them.
func vfTSBlock(text, head string) (before, inside string, ok bool) {
	i := strings.Index(text, head)
	if i < 0 {
		return "", "", false
	}
	rest := text[i+len(head):]
	j := strings.IndexByte(rest, '{')
	if j < 0 {
		return "", "", false
	}
	depth := 0
	for k := j; k < len(rest); k++ {
		switch rest[k] {
		case '"':
			for k++; k < len(rest) && rest[k] != '"'; k++ {
				if rest[k] == '\\' {
					k++
				}
			}
		case '{':
			depth++
		case '}':
			depth--
			if depth == 0 {
				return rest[:j], rest[j+1 : k], true
			}
		}
	}
	return "", "", false
}

// vfTSSplit splits the members between the braces of a TypeScript type.
func vfTSSplit(inside string) (fields []vfTSField) {
	depth, start, colon := 0, 0, -1
	for k := 0; k <= len(inside); k++ {
		c := byte(';')
		if k < len(inside) {
			c = inside[k]
		}
		switch {
		case c == '"' && k < len(inside):
			for k++; k < len(inside) && inside[k] != '"'; k++ {
			}
		case c == '{' || c == '<' || c == '(':
			depth++
		case c == '}' || c == '>' || c == ')':
			depth--
		case c == ':' && depth == 0 && colon < 0:
			colon = k
		case c == ';' && depth == 0:
			if colon >= 0 {
				f := vfTSField{name: strings.TrimSpace(inside[start:colon]), typ: vfFlat(inside[colon+1 : k])}
				if strings.HasSuffix(f.name, "?") {
					f.name, f.optional = strings.TrimSpace(f.name[:len(f.name)-1]), true
				}
				fields = append(fields, f)
			}
			start, colon = k+1, -1
		}
	}
	return
}

// interfaceFields are the fields of a TypeScript interface.
func (g *vfGen) tsFields(file, name string) []vfTSField {
	_, inside, ok := vfTSBlock(g.out(file), "export interface "+name+" ")
	zzvf.Assert(ok, "the struct is described by a TypeScript interface")
	return vfTSSplit(inside)
}

func vfIdentifier(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

func vfNamed(pkg, name string) *Value {
	return &Value{StructType: &StructType{Package: pkg, Name: name}}
}

// vfExports counts the descriptions of a type.
func vfExports(text, name string) (n int) {
	for _, line := range strings.Split(text, "\n") {
		f := strings.Fields(line)
		if len(f) > 2 && f[0] == "export" && f[2] == name && f[1] != "class" && f[1] != "const" {
			n++
		}
	}
	return
}

// vfNoneDangling looks the references to types of modules up.
func vfNoneDangling(text string, modules map[string]string) {
	for m, def := range modules {
		rest := text
		for {
			i := strings.Index(rest, m+".")
			if i < 0 {
				break
			}
			inWord := i > 0 && vfWord(rest[i-1])
			rest = rest[i+len(m)+1:]
			if inWord {
				continue
			}
			k := 0
			for k < len(rest) && vfWord(rest[k]) {
				k++
			}
			zzvf.Assert(k > 0 && vfExports(def, rest[:k]) == 1, "a type that is referred to is described")
		}
	}
}
