package gotsrpc

//vf:bound files 0..3 missing directories deep, given absolute, relative to the working directory or below ~; old content absent, equal, any other text of up to n bytes (bound "old length"), or the new text with one byte changed, added or removed; new text of 1..n bytes (bound "new length"); failures of creating the directory, reading and writing; two updates in a row
//vf:outside empty text (the generator always writes a header)
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"os"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C29_Update: a file is written exactly when its content changes.
func VF_C29_Update() {
	root := zzvf.TempDir()
	depth := zzvf.Choose("depth", 4)
	rel := strings.Join([]string{"d1", "d2", "d3"}[:depth], "/") + "/f.ts"
	rel = strings.TrimPrefix(rel, "/")
	home := root + "/home/u"
	abs := root + "/" + rel
	file := abs
	switch zzvf.Choose("name", 4) {
	case 0:
		file, abs = "~/"+rel, home+"/"+rel
		zzvf.Reach("home")
	case 1:
		zzvf.MkdirAll(root + "/wd")
		zzvf.Chdir(root + "/wd")
		file = "../" + rel
		zzvf.Reach("relative")
	case 2:
		zzvf.MkdirAll(root + "/wd")
		zzvf.Chdir(root + "/wd")
		file, abs = rel, root+"/wd/"+rel
	default:
		zzvf.Reach("absolute")
	}
	os.Setenv("HOME", home)
	text := zzvf.Str("new", 1+zzvf.Choose("newlen", zzvf.Bound("new length", 3, 5)))
	same := false
	switch zzvf.Choose("old", 6) {
	case 0:
	case 1:
		zzvf.WriteFile(abs, text)
		same = true
	case 2:
		old := zzvf.Str("oldtext", zzvf.Choose("oldlen", zzvf.Bound("old length", 4, 6)))
		zzvf.WriteFile(abs, old)
		same = old == text
	case 3:
		zzvf.WriteFile(abs, text+"\n")
	case 4:
		zzvf.WriteFile(abs, text[1:])
	default:
		zzvf.WriteFile(abs, "\n"+text)
	}
	err := updateCode(file, text)
	zzvf.Assert(err == nil, "an update succeeds")
	got, ok := zzvf.ReadFile(abs)
	zzvf.Assert(ok && got == text, "the file holds exactly the generated text")
	if same {
		zzvf.Assert(!zzvf.Touched(abs), "a file that holds the text is not written")
		zzvf.Reach("same")
	} else {
		zzvf.Reach("changed")
	}
	zzvf.WriteFile(abs, got)
	zzvf.Assert(updateCode(file, text) == nil, "an update succeeds")
	zzvf.Assert(!zzvf.Touched(abs), "an unchanged file is not written again")
	text += zzvf.Str("more", zzvf.Choose("morelen", 2))
	zzvf.Assert(updateCode(file, text) == nil, "an update succeeds")
	got, ok = zzvf.ReadFile(abs)
	zzvf.Assert(ok && got == text, "the file holds exactly the new text")
}

// VF_C29_Fails: failures are reported.
func VF_C29_Fails() {
	root := zzvf.TempDir()
	file := root + "/d/f.ts"
	text := zzvf.Str("new", 1+zzvf.Choose("newlen", 2))
	switch zzvf.Choose("failure", 3) {
	case 0:
		zzvf.FSFail("mkdir", root+"/d")
	case 1:
		zzvf.WriteFile(file, text+"old")
		zzvf.FSFail("write", file)
	default:
		os.Setenv("HOME", "")
		file = "~/f.ts"
	}
	zzvf.Assert(updateCode(file, text) != nil, "a failing update is reported")
	zzvf.Reach("failure")
}

// VF_C29_Unreadable: a file that cannot be read is written.
func VF_C29_Unreadable() {
	root := zzvf.TempDir()
	file := root + "/f.ts"
	text := zzvf.Str("new", 1+zzvf.Choose("newlen", 2))
	zzvf.WriteFile(file, "old")
	zzvf.FSFail("read", file)
	if err := updateCode(file, text); err == nil {
		zzvf.Assert(zzvf.Touched(file), "an update that succeeds has written the file")
	}
	zzvf.Reach("unreadable")
}

// VF_C29_Build: a file that could not be written fails the generation, whatever file that is.
func VF_C29_Build() {
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\ntype S interface {\n\tGet(a t.T)\n}\n")
	g.file("t", "t.go", "package t\n\ntype T struct {\n\tA string\n}\n")
	g.mapping("t", g.root+"/m/x/t.ts")
	tg := g.target("s", "s", g.root+"/m/y/out.ts", map[string]string{"/s": "S"})
	tg.TSRPC, tg.GoRPC = []string{"S"}, []string{"S"}
	files := []string{"x/t.ts", "y/out.ts", "s/gotsrpc_gen.go", "s/gotsrpcclient_gen.go", "s/gorpc_gen.go", "s/gorpcclient_gen.go"}
	fails := zzvf.Choose("fails", len(files)+3)
	switch {
	case fails < len(files):
		zzvf.FSFail("write", g.root+"/m/"+files[fails])
	case fails == len(files):
		zzvf.FSFail("mkdir", g.root+"/m/x")
	case fails == len(files)+1:
		zzvf.FSFail("mkdir", g.root+"/m/y")
	}
	code := g.build()
	if fails == len(files)+2 {
		zzvf.Assert(code == -1, "without a failure the generation succeeds")
		for _, f := range files {
			zzvf.Assert(g.has(f), "without a failure all files are written")
		}
		zzvf.Reach("built")
		return
	}
	zzvf.Assert(code > 0, "a file that could not be written fails the generation")
	zzvf.Reach("build failed")
}
