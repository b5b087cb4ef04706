package gotsrpc

//vf:bound targets with two services (methods with and without arguments and types of other packages), every selection of both for Go RPC and HTTP, TypeScript clients, skipped clients, files of an earlier run present
//vf:stub goimports (golang.org/x/tools/imports.Process) leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/config"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C30_Build: the files and the services in them.
func VF_C30_Build() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\ntype A interface {\n\tFoo(x t.T) (string, error)\n}\n\ntype AB struct{}\n\nfunc (b *AB) Bar(n int) {}\n")
	g.file("t", "t.go", "package t\n\ntype T struct {\n\tX int\n}\n")
	g.mapping("t", g.root+"/m/t.ts")
	tg := g.target("s", "s", "", map[string]string{"/a": "A", "/ab": "AB"})
	if zzvf.Bool("ts") {
		tg.Out = g.root + "/m/out.ts"
	}
	pick := func(l string) (list []string, a, ab bool) {
		if a = zzvf.Bool(l + " A"); a {
			list = append(list, "A")
		}
		if ab = zzvf.Bool(l + " AB"); ab {
			list = append(list, "AB")
		}
		return
	}
	var ra, rab, ha, hab bool
	tg.GoRPC, ra, rab = pick("gorpc")
	tg.TSRPC, ha, hab = pick("tsrpc")
	tg.SkipTSRPCClient = zzvf.Bool("skip client")
	files := []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"}
	if zzvf.Bool("old files") {
		for _, f := range files {
			g.file("s", f, "package s\n\ntype Old"+strings.TrimSuffix(f, "_gen.go")+" int\n")
		}
	}
	zzvf.Assert(g.build() == -1, "the code is generated")
	check := func(file, marker string, a, ab bool) {
		text := g.out(file)
		zzvf.Assert(g.has(file) == (a || ab), "a file is written exactly when a service is selected for it")
		zzvf.Assert(strings.Contains(text, "type A"+marker) == a, "a service has code exactly when it is selected")
		zzvf.Assert(strings.Contains(text, "type AB"+marker) == ab, "a service has code exactly when it is selected")
		zzvf.Assert(!strings.Contains(text, "Old"), "no code of an earlier run is left")
	}
	check("s/gotsrpc_gen.go", "GoTSRPCProxy ", ha, hab)
	check("s/gotsrpcclient_gen.go", "GoTSRPCClient ", ha && !tg.SkipTSRPCClient, hab && !tg.SkipTSRPCClient)
	text := g.out("s/gorpc_gen.go")
	zzvf.Assert(g.has("s/gorpc_gen.go") == (ra || rab), "a file is written exactly when a service is selected for it")
	zzvf.Assert(strings.Contains(text, "func NewAGoRPCProxy(") == ra, "a service has code exactly when it is selected")
	zzvf.Assert(strings.Contains(text, "func NewABGoRPCProxy(") == rab, "a service has code exactly when it is selected")
	check("s/gorpcclient_gen.go", "GoRPCClient ", ra, rab)
	if tg.Out != "" {
		all := !ha && !hab
		text := g.out("out.ts")
		zzvf.Assert(strings.Contains(text, "class AClient ") == (ha || all), "a service has a TypeScript client exactly when it is selected or none is")
		zzvf.Assert(strings.Contains(text, "class ABClient ") == (hab || all), "a service has a TypeScript client exactly when it is selected or none is")
		zzvf.Reach("ts")
	} else {
		zzvf.Assert(!g.has("out.ts"), "no TypeScript is written unless asked for")
	}
	zzvf.Reach("end")
}

// VF_C30_Independent: the code of a service does not depend on the selection of another.
func VF_C30_Independent() {
	str := &Value{ScalarType: ScalarTypeString, GoScalarType: "string"}
	services := ServiceList{
		{Name: "S", Endpoint: "/s", IsInterface: zzvf.Bool("interface"), Methods: ServiceMethods{{Name: "One", Args: []*Field{{Name: "a", Value: vfNamed("m.x/t", "T")}}, Return: []*Field{{Value: str}}}}},
		{Name: "R", Endpoint: "/r", Methods: ServiceMethods{{Name: "Two", Args: []*Field{{Name: "b", Value: vfNamed("m.x/u", "U")}}, Return: []*Field{{Name: "c", Value: vfNamed("m.x/t", "T")}}}}},
	}
	kind := zzvf.Choose("kind", 5)
	render := func(names ...string) (string, error) {
		t := &config.Target{GoRPC: append([]string{"none"}, names...), TSRPC: append([]string{"none"}, names...)}
		if zzvf.Bool("reverse") && len(names) == 2 {
			t.GoRPC[1], t.GoRPC[2] = t.GoRPC[2], t.GoRPC[1]
			t.TSRPC[1], t.TSRPC[2] = t.TSRPC[2], t.TSRPC[1]
		}
		switch kind {
		case 0:
			return RenderGoTSRPCProxies(services, "m.x/s", "s", t, nil)
		case 1:
			return RenderGoTSRPCClients(services, "m.x/s", "s", t)
		case 2:
			return RenderGoRPCProxies(services, "m.x/s", "s", t)
		case 3:
			return RenderGoRPCClients(services, "m.x/s", "s", t)
		default:
			return RenderTypeScriptServices(services, config.TypeScriptMappings{"m.x/t": {TypeScriptModule: "t"}, "m.x/u": {TypeScriptModule: "u"}}, nil, nil, t)
		}
	}
	body := func(s string, err error) (string, string) {
		zzvf.Assert(err == nil, "the code is generated")
		if kind == 4 {
			return "", vfFlat(s)
		}
		s = vfFlat(s)
		i := strings.Index(s, "import(")
		j := i + strings.Index(s[i:], ")") + 1
		return s[i:j], s[j:]
	}
	both, none := [2]string{}, [2]string{}
	s, r := [2]string{}, [2]string{}
	both[0], both[1] = body(render("S", "R"))
	none[0], none[1] = body(render())
	s[0], s[1] = body(render("S"))
	r[0], r[1] = body(render("R"))
	zzvf.Assert(none[1] == "", "without a selected service there is no code")
	zzvf.Assert(s[1] != "" && r[1] != "" && both[1] == s[1]+r[1], "the code of a service is the same whatever else is selected")
	if kind != 4 {
		for _, one := range [][2]string{s, r} {
			for _, l := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(one[0], "import("), ")"), "\"") {
				zzvf.Assert(strings.Contains(both[0], l), "what one service imports is imported when others are selected, too")
			}
		}
		zzvf.Reach("go")
	} else {
		zzvf.Reach("ts")
	}
}
