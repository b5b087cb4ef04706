package gotsrpc

//vf:bound one method of a service given by an interface with up to n parameters and m results (bounds "parameters", "results") of different types next to another method, with or without HTTP session parameters; names of up to k bytes (bound "name length") of any ASCII identifier but those of basic types, blank, absent, or one of the names the generated code and TypeScript reserve
//vf:bound one method with up to 2 parameters and 3 results, each of one of n types (bound "types": error, int, *A, string, any), named or not
//vf:outside names of other scripts, only one of the two session parameters, variadic parameters, methods named constructor or transport, blank results next to one named ret
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"go/ast"
	"go/token"
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

var vfGoWords = []string{"int", "any", "nil", "map", "var", "for", "if", "go", "func", "bool", "error", "type", "case", "chan", "else", "goto", "true", "iota", "len", "cap", "new", "byte", "rune", "uint", "copy", "make", "real", "imag", "max", "min"}

// vfTSWords cannot name TypeScript variables.
var vfTSWords = []string{"class", "delete", "do", "enum", "export", "extends", "false", "finally", "function", "implements", "in", "instanceof", "let", "new", "null", "private", "protected", "public", "static", "super", "this", "throw", "true", "try", "typeof", "void", "while", "with", "yield", "await", "eval", "arguments", "catch", "debugger"}

var vfParamNames = []string{"args", "reply", "ctx", "tsc", "clientErr", "req", "response", "rpcCallRes", "rpcCallErr", "request", "p", "rets", "callStats", "r", "w", "rw", "arg_0", "arg_1", "class", "function", "this", "pkg_errors", "retFoo_0"}

// vfIdent is a name of a parameter or result.
func vfIdent(label string, max int, listed bool) string {
	if listed {
		return vfParamNames[zzvf.Choose(label+" listed", len(vfParamNames))]
	}
	n := 1 + zzvf.Choose(label+" length", max)
	s := zzvf.Str(label, n)
	for i := 0; i < n; i++ {
		c := s[i]
		zzvf.Assume(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9')
	}
	for _, w := range vfGoWords {
		if len(w) == n {
			zzvf.Assume(s != w)
		}
	}
	return s
}

// VF_C19_Signature: clients and proxy agree on names, arguments and results.
func VF_C19_Signature() {
	g := vfNewGen()
	g.file("s", "t.go", "package s\n\ntype A struct{}\n")
	g.mapping("s", g.root+"/m/s.ts")
	params := zzvf.Concrete(zzvf.Choose("parameters", zzvf.Bound("parameters", 2, 3)+1))
	results := zzvf.Concrete(zzvf.Choose("results", zzvf.Bound("results", 2, 3)+1))
	max := zzvf.Bound("name length", 2, 3)
	session := zzvf.Bool("session")
	style := zzvf.Choose("names", 4) // of parameters and results: none, blank, one listed, one arbitrary
	zzvf.Assume(params+results > 0 || style == 0)
	subject := 0
	if style >= 2 {
		subject = zzvf.Choose("subject", params+results)
	}
	types := []string{"string", "[]int", "bool", "map[string]A", "float64", "*A"}
	tsTypes := []string{"string", "Array<number>|null", "boolean", "Record<string,m_x_s.A>|null", "number", "m_x_s.A|null"}
	var names, decls []string
	for i := 0; i < params+results; i++ {
		name := []string{"", "_", "plain" + strconv.Itoa(i), "plain" + strconv.Itoa(i)}[style]
		if style >= 2 && i == subject {
			name = vfIdent("name", max, style == 2)
		}
		names = append(names, name)
		decls = append(decls, strings.TrimSpace(name+" "+types[(i+i/params0(params)*3)%6]))
	}
	pdecl := decls[:params]
	if session {
		w, r := "w", "r"
		if style == 0 {
			w, r = "", ""
		} else if style == 1 {
			w, r = "_", "_"
		}
		zzvf.Assume(style < 2 || names[subject] != "w" && names[subject] != "r")
		pdecl = append([]string{strings.TrimSpace(w + " http.ResponseWriter"), strings.TrimSpace(r + " *http.Request")}, pdecl...)
	}
	g.file("s", "s.go", "package s\n\nimport \"net/http\"\n\ntype S interface {\n\tBar(x string) int\n\tFoo("+strings.Join(pdecl, ", ")+") ("+strings.Join(decls[params:], ", ")+")\n}\n\nvar _ http.Request\n")
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	var want, wantTS []string
	for i := 0; i < params+results; i++ {
		want = append(want, types[(i+i/params0(params)*3)%6])
		wantTS = append(wantTS, tsTypes[(i+i/params0(params)*3)%6])
	}
	vfTSSignature(g.out("out.ts"), names, wantTS, params)
	vfHTTPClientSignature(vfParse(g.out("s/gotsrpcclient_gen.go")), want, params)
	vfProxySignature(vfParse(g.out("s/gotsrpc_gen.go")), want, params, session)
	vfRPCSignature(vfParse(g.out("s/gorpc_gen.go")), vfParse(g.out("s/gorpcclient_gen.go")), want, params, session)
	zzvf.Reach("end")
}

// VF_C19_Positions: whatever their types, parameters and results keep their positions.
func VF_C19_Positions() {
	g := vfNewGen()
	g.file("s", "t.go", "package s\n\ntype A struct{}\n")
	g.mapping("s", g.root+"/m/s.ts")
	types := []string{"error", "int", "*A", "string", "any"}
	tsTypes := []string{"any", "number", "m_x_s.A|null", "string", "any"}
	params := zzvf.Concrete(zzvf.Choose("parameters", 3))
	results := zzvf.Concrete(zzvf.Choose("results", 4))
	named := zzvf.Bool("named results")
	var names, decls, want, wantTS []string
	kinds := zzvf.Bound("types", 3, 5)
	for i := 0; i < params+results; i++ {
		name, k := "", 0
		if i < params {
			name, k = "p"+strconv.Itoa(i), zzvf.Choose("parameter "+strconv.Itoa(i), 2)
		} else {
			k = zzvf.Choose("result "+strconv.Itoa(i-params), kinds)
			if named {
				name = "r" + strconv.Itoa(i-params)
			}
		}
		names, decls = append(names, name), append(decls, strings.TrimSpace(name+" "+types[k]))
		want, wantTS = append(want, types[k]), append(wantTS, tsTypes[k])
	}
	g.file("s", "s.go", "package s\n\ntype S interface {\n\tFoo("+strings.Join(decls[:params], ", ")+") ("+strings.Join(decls[params:], ", ")+")\n}\n")
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	vfTSSignature(g.out("out.ts"), names, wantTS, params)
	vfHTTPClientSignature(vfParse(g.out("s/gotsrpcclient_gen.go")), want, params)
	vfProxySignature(vfParse(g.out("s/gotsrpc_gen.go")), want, params, false)
	vfRPCSignature(vfParse(g.out("s/gorpc_gen.go")), vfParse(g.out("s/gorpcclient_gen.go")), want, params, false)
	zzvf.Reach("end")
}

func params0(n int) int {
	if n == 0 {
		return 100
	}
	return n
}

// vfTSSignature checks the TypeScript client.
func vfTSSignature(text string, names, types []string, params int) {
	i := strings.Index(text, "async foo(")
	zzvf.Assert(i >= 0, "the TypeScript client has the method")
	text = text[i+len("async foo("):]
	j := strings.Index(text, "):Promise<")
	zzvf.Assert(j >= 0, "the TypeScript method has parameters and a result")
	var args []string
	if j > 0 {
		for k, p := range strings.Split(strings.ReplaceAll(text[:j], "Record<string,", "Record<string;"), ",") {
			name, typ, ok := strings.Cut(strings.TrimSpace(p), ":")
			zzvf.Assert(ok && k < params && vfFlat(strings.ReplaceAll(typ, ";", ",")) == types[k], "a TypeScript parameter has its type")
			zzvf.Assert(vfIdentifier(name), "TypeScript parameters have names")
			for _, w := range vfTSWords {
				zzvf.Assert(len(w) != len(name) || name != w, "TypeScript parameters are not named by reserved words")
			}
			for _, a := range args {
				zzvf.Assert(a != name, "TypeScript parameters have different names")
			}
			args = append(args, name)
		}
	}
	zzvf.Assert(len(args) == params, "the TypeScript method has the parameters of the service")
	text = text[j+len("):"):]
	end := strings.Index(text, "async ")
	if end < 0 {
		end = len(text)
	}
	body := text[:end]
	call := "(\"Foo\", [" + strings.Join(args, ", ") + "])"
	zzvf.Assert(strings.Contains(body, call), "the TypeScript client sends the arguments in order under the name of the method")
	rets := types[params:]
	var keyed, indexed, picked []string
	for k, t := range rets {
		name := names[params+k]
		if name == "" || name == "_" {
			name = "ret"
			if k > 0 {
				name += "_" + strconv.Itoa(k)
			}
		}
		keyed = append(keyed, name+":"+t)
		indexed = append(indexed, strconv.Itoa(k)+":"+t)
		picked = append(picked, name+" : response["+strconv.Itoa(k)+"]")
	}
	flat := vfFlat(body)
	switch len(rets) {
	case 0:
		zzvf.Assert(strings.HasPrefix(flat, "Promise<void>"), "a method without results promises none")
	case 1:
		zzvf.Assert(strings.HasPrefix(flat, "Promise<"+rets[0]+">{"), "a method with one result promises it")
		zzvf.Assert(strings.Contains(flat, "return(await this.transport<{"+indexed[0]+"}>"+vfFlat(call)+")[0]"), "the only result is the first of the answer")
	default:
		zzvf.Assert(strings.HasPrefix(flat, "Promise<{"+strings.Join(keyed, ";")+"}>{"), "results have their names and types")
		zzvf.Assert(strings.Contains(flat, "const response=await this.transport<{"+strings.Join(indexed, ";")+"}>"+vfFlat(call)), "the answer has the results in order")
		zzvf.Assert(strings.Contains(flat, vfFlat("return {"+strings.Join(picked, ", ")+"}")), "every result comes from its own position")
		for _, a := range args {
			zzvf.Assert(a != "response", "the answer hides no parameter")
		}
	}
}

// vfDistinct tells that names are declared once.
func vfDistinct(names []string, what string) {
	for i, n := range names {
		zzvf.Assert(n != "" && n != "_", what+" have names")
		for _, o := range names[:i] {
			zzvf.Assert(n != o, what+" have different names")
		}
	}
}

// elements are the elements of the composite literal assigned to a variable.
func (g *vfGo) elements(n ast.Node, variable string) (l []string) {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && g.src(as.Lhs[0]) == variable {
			if cl, ok := as.Rhs[0].(*ast.CompositeLit); ok {
				found = true
				for _, e := range cl.Elts {
					l = append(l, g.src(e))
				}
			}
		}
		return true
	})
	zzvf.Assert(found, "the code sets "+variable)
	return
}

// vfLocals are the names a function declares in its own block.
func vfLocals(m *ast.FuncDecl) (l []string) {
	for _, fl := range []*ast.FieldList{m.Recv, m.Type.Params, m.Type.Results} {
		names, _ := vfFields(fl)
		l = append(l, names...)
	}
	for _, s := range m.Body.List {
		if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
			for _, e := range as.Lhs {
				if id := e.(*ast.Ident); id.Name != "_" {
					l = append(l, id.Name)
				}
			}
		}
	}
	return
}

func vfSame(got, want []string, msg string) {
	zzvf.Assert(len(got) == len(want), msg)
	for i := range want {
		zzvf.Assert(got[i] == want[i], msg)
	}
}

func (g *vfGo) types(l *ast.FieldList) (names, types []string) {
	names, exprs := vfFields(l)
	for _, e := range exprs {
		types = append(types, g.typ1(e))
	}
	return
}

func (g *vfGo) typ1(e ast.Expr) string {
	if g.own != "" {
		return g.typeName(e, g.own)
	}
	return g.src(e)
}

// vfHTTPClientSignature checks the Go HTTP client.
func vfHTTPClientSignature(f *vfGo, types []string, params int) {
	m := f.method("HTTPSGoTSRPCClient", "Foo")
	zzvf.Assert(m != nil, "the HTTP client has the method")
	vfDistinct(vfLocals(m), "the variables of a client method")
	names, got := f.types(m.Type.Params)
	vfSame(got[1:], types[:params], "the HTTP client method has the parameters of the service")
	vfSame(f.elements(m, "args"), names[1:], "the HTTP client sends its parameters in order")
	names, got = f.types(m.Type.Results)
	n := len(got) - 1
	vfSame(got, append(append([]string{}, types[params:]...), "error"), "the HTTP client method has the results of the service")
	var refs []string
	for _, r := range names[:n] {
		refs = append(refs, "&"+r)
	}
	vfSame(f.elements(m, "reply"), refs, "the HTTP client reads the results in order")
	zzvf.Assert(strings.Contains(f.src(m), names[n]+"=tsc.Client.Call("), "the HTTP client returns the error of the call")
	zzvf.Assert(strings.Contains(f.src(m), ",\"Foo\",args,reply)"), "the HTTP client calls the method by its name")
}

// vfProxySignature checks the HTTP proxy.
func vfProxySignature(f *vfGo, types []string, params int, session bool) {
	_, cases := f.cases(f.method("SGoTSRPCProxy", "ServeHTTP"))
	cc := cases["Foo"]
	zzvf.Assert(cc != nil, "the proxy has the method")
	var declared, typs []string
	var call *ast.CallExpr
	var locals, lhs []string
	for _, s := range cc.Body {
		ds, ok := s.(*ast.DeclStmt)
		if ok {
			for _, sp := range ds.Decl.(*ast.GenDecl).Specs {
				vs := sp.(*ast.ValueSpec)
				locals = append(locals, vs.Names[0].Name)
				if n := vs.Names[0].Name; n != "args" && n != "rets" {
					declared, typs = append(declared, n), append(typs, f.typ1(vs.Type))
				}
			}
		}
		if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
			for _, e := range as.Lhs {
				locals = append(locals, f.src(e))
			}
			if c, ok := as.Rhs[0].(*ast.CallExpr); ok && f.src(c.Fun) == "p.service.Foo" {
				call = c
				for _, e := range as.Lhs {
					lhs = append(lhs, f.src(e))
				}
			}
		}
		if es, ok := s.(*ast.ExprStmt); ok {
			if c, ok := es.X.(*ast.CallExpr); ok && f.src(c.Fun) == "p.service.Foo" {
				call = c
			}
		}
	}
	vfDistinct(locals, "the variables of the proxy")
	vfSame(typs, types[:params], "the proxy decodes the parameters of the service")
	zzvf.Assert(call != nil, "the proxy calls the method")
	var want, got []string
	if session {
		want = []string{"&rw", "r"}
	}
	want = append(want, declared...)
	for _, e := range call.Args {
		got = append(got, f.src(e))
	}
	vfSame(got, want, "the proxy passes the arguments in order, after writer and request")
	if params > 0 {
		var refs []string
		for _, d := range declared {
			refs = append(refs, "&"+d)
		}
		vfSame(f.elements(cc, "args"), refs, "the proxy decodes the arguments in order")
	}
	zzvf.Assert(len(lhs) == len(types)-params, "the proxy takes every result")
	vfSame(f.elements(cc, "rets"), lhs, "the proxy replies with the results in order")
}

// vfRPCSignature checks the RPC proxy and client.
func vfRPCSignature(f, c *vfGo, types []string, params int, session bool) {
	args, got := f.types(f.typ("SFooRequest").(*ast.StructType).Fields)
	vfSame(got, types[:params], "an RPC request carries the parameters of the service")
	rets, got := f.types(f.typ("SFooResponse").(*ast.StructType).Fields)
	vfSame(got, types[params:], "an RPC response carries the results of the service")
	vfDistinct(args, "the fields of the RPC request")
	vfDistinct(rets, "the fields of the RPC response")
	for _, n := range append(append([]string{}, args...), rets...) {
		zzvf.Assert(n[0] >= 'A' && n[0] <= 'Z', "what an RPC request and response carry is sent")
	}
	_, cases := f.cases(f.method("SGoRPCProxy", "handler"))
	cc := cases["SFooRequest"]
	zzvf.Assert(cc != nil, "the RPC proxy has the method")
	var call *ast.CallExpr
	var locals, lhs []string
	ast.Inspect(cc, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
			for _, e := range as.Lhs {
				locals = append(locals, f.src(e))
			}
			if x, ok := as.Rhs[0].(*ast.CallExpr); ok && f.src(x.Fun) == "p.service.Foo" {
				for _, e := range as.Lhs {
					lhs = append(lhs, f.src(e))
				}
			}
		}
		if x, ok := n.(*ast.CallExpr); ok && f.src(x.Fun) == "p.service.Foo" {
			call = x
		}
		return true
	})
	zzvf.Assert(call != nil, "the RPC proxy calls the method")
	vfDistinct(append(locals, "response"), "the variables of the RPC proxy")
	var want []string
	if session {
		want = []string{"nil", "nil"}
	}
	for _, a := range args {
		want = append(want, "req."+a)
	}
	got = nil
	for _, e := range call.Args {
		got = append(got, f.src(e))
	}
	vfSame(got, want, "the RPC proxy passes the arguments in order")
	want = nil
	for i := range lhs {
		want = append(want, rets[i]+":"+lhs[i])
	}
	zzvf.Assert(len(lhs) == len(rets), "the RPC proxy takes every result")
	vfSame(f.elements(cc, "response"), want, "an RPC response carries the results in order")

	m := c.method("SGoRPCClient", "Foo")
	zzvf.Assert(m != nil, "the RPC client has the method")
	vfDistinct(vfLocals(m), "the variables of an RPC client method")
	names, got := c.types(m.Type.Params)
	vfSame(got, types[:params], "the RPC client method has the parameters of the service")
	want = nil
	for i := range names {
		want = append(want, args[i]+":"+names[i])
	}
	vfSame(c.elements(m, "req"), want, "the RPC client sends its parameters in order")
	_, got = c.types(m.Type.Results)
	vfSame(got, append(append([]string{}, types[params:]...), "error"), "the RPC client method has the results of the service")
	ret := m.Body.List[len(m.Body.List)-1].(*ast.ReturnStmt)
	want = nil
	for _, r := range rets {
		want = append(want, "response."+r)
	}
	want = append(want, "nil")
	got = nil
	for _, e := range ret.Results {
		got = append(got, c.src(e))
	}
	vfSame(got, want, "the RPC client returns the results in order")
}

// VF_C19_Lookalikes: only *http.Request and http.ResponseWriter are session parameters, not types with the same names.
func VF_C19_Lookalikes() {
	g := vfNewGen()
	const types = "type Request struct {\n\tX int\n}\n\ntype ResponseWriter interface {\n\tFoo()\n}\n"
	g.file("s", "t.go", "package s\n\n"+types)
	g.file("http", "t.go", "package http\n\n"+types)
	g.mapping("s", g.root+"/m/s.ts")
	g.mapping("http", g.root+"/m/http.ts")
	q, pkg, module := "", "m.x/s", "m_x_s"
	if zzvf.Bool("other package") {
		q, pkg, module = "http.", "m.x/http", "m_x_http"
	}
	var decls, names, want, wantTS []string
	params := zzvf.Concrete(1 + zzvf.Choose("parameters", 3))
	for i := 0; i < params; i++ {
		name := "v" + strconv.Itoa(i)
		src, typ, ts := "string", "string", "string"
		switch zzvf.Choose("type "+strconv.Itoa(i), 3) {
		case 1:
			src, typ, ts = "*"+q+"Request", "*"+pkg+".Request", module+".Request|null"
		case 2:
			src, typ, ts = q+"ResponseWriter", pkg+".ResponseWriter", module+".ResponseWriter"
		}
		decls, names, want, wantTS = append(decls, name+" "+src), append(names, name), append(want, typ), append(wantTS, ts)
	}
	g.file("s", "s.go", "package s\n\nimport \"m.x/http\"\n\nvar _ http.Request\n\ntype S interface {\n\tFoo("+strings.Join(decls, ", ")+")\n}\n")
	tg := g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	tg.GoRPC, tg.TSRPC = []string{"S"}, []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")
	vfTSSignature(g.out("out.ts"), names, wantTS, params)
	parse := func(name string) *vfGo {
		f := vfParse(g.out(name))
		f.own = "m.x/s"
		return f
	}
	vfHTTPClientSignature(parse("s/gotsrpcclient_gen.go"), want, params)
	vfProxySignature(parse("s/gotsrpc_gen.go"), want, params, false)
	vfRPCSignature(parse("s/gorpc_gen.go"), parse("s/gorpcclient_gen.go"), want, params, false)
	zzvf.Reach("end")
}
