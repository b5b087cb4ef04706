package gotsrpc

//vf:bound structs of up to n field declarations (bound "fields") of one or two names, first letter of a name any ASCII letter, underscore or one of Ä ä 世, of a scalar, pointer, slice or anonymous struct type, untagged, named, tagged out or with another tag
//vf:bound up to two embedded structs, of the package or another one, unexported ones and pointers, inlined, named or tagged out, in a struct or the type of a field
//vf:outside embedded fields without a tag, union structs
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfExportable is a name that is exported or not.
func vfExportable(suffix string) (name string, exported bool) {
	switch zzvf.Choose("letter", 4) {
	case 0:
		b := zzvf.Byte("letter")
		zzvf.Assume(b == '_' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z')
		return string([]byte{b}) + suffix, b >= 'A' && b <= 'Z'
	case 1:
		return "Ä" + suffix, true
	case 2:
		return "ä" + suffix, false
	default:
		return "世" + suffix, false
	}
}

// VF_C22_Fields: the fields of an interface are the exported ones in their order.
func VF_C22_Fields() {
	g := vfNewGen()
	var want []string
	text := ""
	n := zzvf.Choose("fields", zzvf.Bound("fields", 3, 4)+1)
	nested := zzvf.Bool("nested")
	if nested {
		text = "\tIn struct {\n"
	}
	subject := zzvf.Choose("subject", 4)
	zzvf.Assume(subject < n || subject == 3 && n == 0)
	for i := 0; i < n; i++ {
		name, exported := "Of"+strconv.Itoa(i), true
		if i == subject {
			name, exported = vfExportable("f" + strconv.Itoa(i))
		} else if zzvf.Bool("unexported") {
			name, exported = "of"+strconv.Itoa(i), false
		}
		names, all := []string{name}, []string{name}
		if !exported {
			names = nil
		}
		if i == subject && zzvf.Bool("two names") {
			second, exported := "A"+strconv.Itoa(i), true
			if zzvf.Bool("second unexported") {
				second, exported = "a"+strconv.Itoa(i), false
			}
			all = append(all, second)
			if exported {
				names = append(names, second)
			}
		}
		typ := []string{"int", "*string", "[]bool", "struct{ X int }"}[(i+subject)%4]
		tag, tags := "", 2
		if i == subject {
			tags = 4
		}
		switch zzvf.Choose("tag", tags) {
		case 1:
			tag, names = " `json:\"-\"`", nil
		case 2:
			tag = " `json:\"n" + strconv.Itoa(i) + "\"`"
			for j := range names {
				names[j] = "n" + strconv.Itoa(i)
			}
		case 3:
			tag = " `xml:\"-\"`"
		}
		text += "\t" + strings.Join(all, ", ") + " " + typ + tag + "\n"
		want = append(want, names...)
	}
	if nested {
		text += "\t}\n"
	}
	g.file("s", "s.go", "package s\n\ntype T struct {\n"+text+"}\n\ntype S struct{}\n\nfunc (s *S) M(t T) {}\n")
	g.mapping("s", g.root+"/m/s.ts")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	got := g.tsFields("s.ts", "T")
	if nested {
		zzvf.Assert(len(got) == 1 && got[0].name == "In", "a field of a struct type is described")
		got = vfTSSplit(strings.Trim(strings.TrimSuffix(got[0].typ, "|null"), "{}"))
	}
	zzvf.Assert(len(got) == len(want), "exactly the exported fields that are not tagged out are described")
	for i := range want {
		zzvf.Assert(got[i].name == want[i], "exactly the exported fields that are not tagged out are described, in their order")
	}
	zzvf.Reach("end")
}

// VF_C22_Embedded: what is embedded is extended if it is inlined, a field if it has a name, or nothing.
func VF_C22_Embedded() {
	g := vfNewGen()
	g.file("t", "t.go", "package t\n\ntype Base struct {\n\tT int\n}\n\ntype More struct {\n\tM int\n}\n")
	g.file("s", "other.go", "package s\n\ntype Base struct {\n\tO int\n}\n\ntype More struct {\n\tM int\n}\n\ntype base struct {\n\tP int\n}\n")
	nested := zzvf.Bool("nested")
	text := "\tFirst int\n"
	if nested {
		text = "\tIn struct {\n" + text
	}
	want, bases := []string{"First"}, ""
	n := zzvf.Concrete(1 + zzvf.Choose("embedded", 2))
	for i := 0; i < n; i++ {
		pkg, name := "s", []string{"Base", "More"}[i]
		if zzvf.Bool("other package") {
			pkg = "t"
		} else if i == 0 && zzvf.Bool("unexported") {
			name = "base"
		}
		src, base := name, "m_x_"+pkg+"."+name
		if pkg == "t" {
			src = "t." + name
		}
		if zzvf.Bool("pointer") {
			src, base = "*"+src, "Partial<"+base+">"
		}
		switch zzvf.Choose("tag", 4) {
		case 0:
			text += "\t" + src + " `json:\"-\"`\n"
		case 1:
			text += "\t" + src + " `json:\",inline\"`\n"
			if bases != "" {
				bases += ","
			}
			bases += base
		case 2:
			text += "\t" + src + " `json:\"n" + strconv.Itoa(i) + "\"`\n"
			if name != "base" {
				want = append(want, "n"+strconv.Itoa(i))
			}
		case 3:
			text += "\t" + src + " `json:\"n" + strconv.Itoa(i) + ",omitempty\" codec:\"c\"`\n"
			if name != "base" {
				want = append(want, "c")
			}
		}
	}
	text += "\tLast string\n"
	want = append(want, "Last")
	if nested {
		text += "\t}\n"
	}
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\nvar _ t.Base\n\ntype T struct {\n"+text+"}\n\ntype S struct{}\n\nfunc (s *S) M(t T) {}\n")
	g.mapping("s", g.root+"/m/s.ts")
	g.mapping("t", g.root+"/m/t.ts")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	before, inside, ok := vfTSBlock(g.out("s.ts"), "export interface T ")
	zzvf.Assert(ok, "the struct is described by a TypeScript interface")
	got := strings.TrimPrefix(vfFlat(before), "extends ")
	if nested {
		zzvf.Assert(got == "", "what is embedded in the type of a field is not inlined into the struct")
		in := vfTSSplit(inside)
		zzvf.Assert(len(in) == 1 && in[0].name == "In", "a field of a struct type is described")
		i := strings.IndexByte(in[0].typ, '{')
		zzvf.Assert(i >= 0, "the type of a field is described")
		got = strings.TrimSuffix(strings.ReplaceAll(in[0].typ[:i], "&", ","), ",")
		inside = strings.Trim(in[0].typ[i:], "{}")
	}
	zzvf.Assert(got == bases, "a struct has the fields of what is inlined into it")
	fields := vfTSSplit(inside)
	zzvf.Assert(len(fields) == len(want), "exactly the exported fields that are not tagged out are described")
	for i := range want {
		zzvf.Assert(fields[i].name == want[i], "exactly the exported fields that are not tagged out are described, in their order")
	}
	zzvf.Reach("end")
}
