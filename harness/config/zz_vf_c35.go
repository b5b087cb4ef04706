package config

//vf:bound module paths: every text of up to n bytes (bound "path length") over 'a', 'b', '.', '/', whose target lies in the scratch directory; configuration files 0..2 levels deep, named by absolute or working-directory relative path, three working directories; go.mod present, absent, malformed or unreadable; 16 malformed configurations; target and mapping names of up to 2 letters
//vf:outside yaml features beyond plain and quoted scalars, lists and maps (yaml.v2 itself is executed, not verified)

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfResolve is the clean absolute path of rel below dir.
func vfResolve(dir, rel string) string {
	var out []string
	for _, s := range strings.Split(dir+"/"+rel, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

const (
	vfModNone = iota
	vfModFine
	vfModBad
	vfModUnreadable
	vfModKinds
)

// VF_C35_Path: where the module is.
func VF_C35_Path() {
	root := zzvf.TempDir()
	dir := root + []string{"/p", "/p/q", "/p/q/r"}[zzvf.Choose("config dir", 3)]
	zzvf.MkdirAll(root + "/wd/x")
	zzvf.MkdirAll(root + "/p/q/r")
	var rel, want string
	if zzvf.Bool("absolute") {
		rel = root + "/" + []string{"m", "m/n", "p"}[zzvf.Choose("abs", 3)]
		want = rel
		zzvf.Reach("absolute")
	} else {
		rel = zzvf.StrOf("rel", 1+zzvf.Choose("rellen", zzvf.Bound("path length", 4, 6)), "ab./")
		zzvf.Assume(rel[0] != '/')
		want = vfResolve(dir, rel)
		zzvf.Assume(strings.HasPrefix(want, root+"/"))
		zzvf.Reach("relative")
	}
	kind := zzvf.Choose("go.mod", vfModKinds)
	if kind != vfModNone {
		zzvf.MkdirAll(want)
		text := "module m.x/y\n\ngo 1.20\n\nrequire a.b/c v1.2.3\n\nreplace d.e/f => ../f\n"
		if kind == vfModBad {
			text = "modul m.x/y\n"
		}
		zzvf.WriteFile(want+"/go.mod", text)
		if kind == vfModUnreadable {
			zzvf.FSFail("read", want+"/go.mod")
		}
	}
	zzvf.WriteFile(dir+"/c.yml", "module:\n  name: m.x/y\n  path: \""+rel+"\"\ntargets:\n  t:\n    package: m.x/y/z\n")
	file := dir + "/c.yml"
	switch zzvf.Choose("cwd", 3) {
	case 0:
		zzvf.Chdir(root + "/wd")
		file = ".." + strings.TrimPrefix(file, root)
	case 1:
		zzvf.Chdir(dir)
		file = "c.yml"
	default:
		zzvf.Chdir(root + "/wd/x")
	}
	c, err := LoadConfigFile(file)
	if kind == vfModBad || kind == vfModUnreadable {
		zzvf.Assert(err != nil, "a go.mod that cannot be used is an error")
		zzvf.Reach("bad go.mod")
		return
	}
	zzvf.Assert(err == nil && c != nil, "a configuration is loaded")
	zzvf.Assert(c.Module.Path == want, "the module path is resolved against the configuration file, an absolute one is kept")
	zzvf.Assert(c.Module.Name == "m.x/y" && c.Targets["t"] != nil && c.Targets["t"].Package == "m.x/y/z", "the configuration is complete")
	if kind == vfModNone {
		zzvf.Assert(c.Module.ModFile == nil, "without a go.mod none is used")
		zzvf.Reach("no go.mod")
		return
	}
	m := c.Module.ModFile
	zzvf.Assert(m != nil && m.Module != nil && m.Module.Mod.Path == "m.x/y", "the go.mod found there is used")
	zzvf.Assert(len(m.Require) == 1 && m.Require[0].Mod.Path == "a.b/c" && m.Require[0].Mod.Version == "v1.2.3", "the requirements are those of the go.mod")
	zzvf.Assert(len(m.Replace) == 1 && m.Replace[0].Old.Path == "d.e/f" && m.Replace[0].New.Path == "../f", "the replacements are those of the go.mod")
	zzvf.Reach("go.mod")
}

// VF_C35_NoPath: a configuration without a module path.
func VF_C35_NoPath() {
	root := zzvf.TempDir()
	zzvf.WriteFile(root+"/go.mod", "module m\n")
	zzvf.Chdir(root)
	zzvf.WriteFile(root+"/c.yml", []string{"module:\n  name: m\n", "targets: {}\n", "mappings:\n  a/b:\n    out: x\n"}[zzvf.Choose("text", 3)])
	c, err := LoadConfigFile([]string{"c.yml", root + "/c.yml"}[zzvf.Choose("file", 2)])
	zzvf.Assert(err == nil && c.Module.Path == "" && c.Module.ModFile == nil, "without a module path there is no module")
	zzvf.Reach("end")
}

// VF_C35_Malformed: what cannot be read or understood is an error.
func VF_C35_Malformed() {
	root := zzvf.TempDir()
	bad := []string{
		"targets:\n\tt:\n",
		"targets: [1, 2]\n",
		"targets: 3\n",
		"targets:\n  t: x\n",
		"targets:\n  t:\n    services: x\n",
		"targets:\n  t:\n    gorpc:\n      a: b\n",
		"targets:\n  t:\n    skipTSRPCClient: maybe\n",
		"mappings:\n  a: 1\n",
		"mappings: x\n",
		"mappings:\n  a:\n    structs: {b: c}\n",
		"module: 1\n",
		"module:\n  name: [a]\n",
		"a: b: c\n",
		"module:\n  name: \"x\n",
		"targets:\n  t:\n",
		"mappings:\n  a/b:\n",
	}
	i := zzvf.Choose("text", len(bad)+1)
	if i < len(bad) {
		zzvf.WriteFile(root+"/c.yml", "mappings:\n  x/y:\n    out: o\n"[:0]+bad[i])
	} else if zzvf.Bool("exists") {
		zzvf.WriteFile(root+"/c.yml", "targets: {}\n")
		zzvf.FSFail("read", root+"/c.yml")
	}
	c, err := LoadConfigFile(root + "/c.yml")
	zzvf.Assert(err != nil, "a configuration that cannot be used is an error")
	zzvf.Assert(c == nil, "there is no partial configuration")
	zzvf.Reach("end")
}

// VF_C35_Content: what is configured is what is loaded.
func VF_C35_Content() {
	root := zzvf.TempDir()
	name := func(l string) string { return "n" + zzvf.StrOf(l, 1+zzvf.Choose(l+"len", 2), "ab") }
	t1, t2, m1, m2 := name("t1"), "x"+name("t2"), name("m1"), "x"+name("m2")
	skip := zzvf.Bool("skip")
	text := "targets:\n"
	for _, t := range []string{t1, t2} {
		text += "  " + t + ":\n    package: p/" + t + "\n    out: ./o/" + t + "\n    module: M." + t + "\n    services:\n      /s/" + t + ": S" + t + "\n      /s2: T\n    gorpc:\n      - S" + t + "\n    tsrpc:\n      - T\n      - S" + t + "\n"
		if skip && t == t2 {
			text += "    skipTSRPCClient: true\n"
		}
	}
	text += "mappings:\n"
	for _, m := range []string{m1, m2} {
		text += "  p/" + m + ":\n    out: o/" + m + ".ts\n    module: M." + m + "\n"
	}
	zzvf.WriteFile(root+"/c.yml", text)
	c, err := LoadConfigFile(root + "/c.yml")
	zzvf.Assert(err == nil, "a configuration is loaded")
	zzvf.Assert(len(c.Targets) == 2 && len(c.Mappings) == 2, "nothing is dropped or invented")
	for _, n := range []string{t1, t2} {
		t := c.Targets[n]
		zzvf.Assert(t != nil && t.Package == "p/"+n && t.Out == "./o/"+n && t.TypeScriptModule == "M."+n, "a target is as configured")
		zzvf.Assert(len(t.Services) == 2 && t.Services["/s/"+n] == "S"+n && t.Services["/s2"] == "T", "the services of a target are as configured")
		zzvf.Assert(len(t.GoRPC) == 1 && t.GoRPC[0] == "S"+n && len(t.TSRPC) == 2 && t.TSRPC[0] == "T" && t.TSRPC[1] == "S"+n, "the selections of a target are as configured")
		zzvf.Assert(t.SkipTSRPCClient == (skip && n == t2), "the options of a target are as configured")
	}
	for _, n := range []string{m1, m2} {
		m := c.Mappings["p/"+n]
		zzvf.Assert(m != nil && m.GoPackage == "p/"+n && m.Out == "o/"+n+".ts" && m.TypeScriptModule == "M."+n, "a mapping is as configured")
	}
	zzvf.Reach("end")
}
