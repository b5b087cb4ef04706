package gotsrpc

//vf:bound one field of a struct with a json tag of up to n arbitrary printable ASCII bytes but quotes and backslashes (bound "tag length"), optionally followed by ",omitempty", ",string" or an option of 4, 8, 9 or 10 letters, after or before other tags, a codec tag of up to 2 bytes, raw and interpreted tag literals, named and embedded fields with a name, gotsrpc type overrides
//vf:assume which name the wire has is taken from the rules of github.com/ugorji/go/codec (codec tag before json tag); native replays compare it with what that package encodes
//vf:outside embedded fields without a name (inlined on the wire), type overrides with a comma in them, tag names of other characters
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/ugorji/go/codec"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfTagText is text that can stand in a tag.
func vfTagText(label string, max int) string {
	n := zzvf.Choose(label+" length", max+1)
	s := zzvf.Str(label, n)
	for i := 0; i < n; i++ {
		zzvf.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\' && s[i] != '`')
	}
	return s
}

// vfWireName is how the codec names a field.
func vfWireName(field, codecTag, jsonTag string) (name string, optional, out bool) {
	tag := codecTag
	if tag == "" {
		tag = jsonTag
	}
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = field
	if parts[0] != "" {
		name = parts[0]
	}
	for _, p := range parts[1:] {
		if p == "omitempty" {
			optional = true
		}
	}
	return name, optional, false
}

// VF_C21_Names: name, presence and optionality of a field are those of the wire.
func VF_C21_Names() {
	jsonTag, codecTag := vfTagText("json", zzvf.Bound("tag length", 2, 3)), ""
	switch zzvf.Choose("option", 4) {
	case 1:
		jsonTag += ",omitempty"
	case 2:
		jsonTag += ",string"
	case 3:
		// any other option
		zzvf.Assume(len(jsonTag) < 2)
		opt := zzvf.Str("other option", []int{9, 8, 10, 4}[zzvf.Choose("option length", 4)])
		for i := 0; i < len(opt); i++ {
			zzvf.Assume(zzvf.Or(zzvf.And(opt[i] >= 'a', opt[i] <= 'z'), zzvf.And(opt[i] >= 'A', opt[i] <= 'Z')))
		}
		jsonTag += "," + opt
	}
	variant := zzvf.Choose("variant", 7)
	if variant == 6 {
		zzvf.Assume(len(jsonTag) < 3 || jsonTag[1] == ',')
		codecTag = vfTagText("codec", 2)
	}
	tag := ""
	add := func(key, value string) {
		if tag != "" {
			tag += " "
		}
		tag += key + `:"` + value + `"`
	}
	if variant == 1 {
		add("xml", "-,omitempty")
	}
	if jsonTag != "" {
		add("json", jsonTag)
	}
	if codecTag != "" {
		add("codec", codecTag)
	}
	typ := "*int"
	over := variant == 2 || variant == 3
	if over {
		add("gotsrpc", "type:Override")
	}
	if variant == 3 {
		add("bson", "other")
	}
	field := "Field"
	decl := field + " " + typ
	name, optional, out := vfWireName(field, codecTag, jsonTag)
	if variant == 4 && !out && name != field {
		field, decl = "E", "E"
		typ = "m_x_s.E"
	} else {
		typ = "number"
	}
	if tag != "" {
		lit := "`" + tag + "`"
		if variant == 5 {
			lit = `"` + strings.ReplaceAll(tag, `"`, `\"`) + `"`
		}
		decl += " " + lit
	}
	if !zzvf.Sym() {
		// what the codec does
		t := reflect.StructOf([]reflect.StructField{{Name: "Field", Type: reflect.TypeOf(1), Tag: reflect.StructTag(tag)}})
		v := reflect.New(t).Elem()
		v.Field(0).SetInt(1)
		var b []byte
		zzvf.Assert(codec.NewEncoderBytes(&b, jsonClientHandle.handle).Encode(v.Interface()) == nil, "the codec encodes the struct")
		zzvf.Assert(out == (string(b) == "{}") && (out || string(b) == "{"+strconv.Quote(name)+":1}"), "the codec names fields as assumed")
	}
	g := vfNewGen()
	g.file("s", "s.go", "package s\n\ntype E struct{}\n\ntype T struct {\n\tFirst string\n\t"+decl+"\n\tLast string\n}\n\ntype S struct{}\n\nfunc (s *S) M(t T) {}\n")
	g.mapping("s", g.root+"/m/s.ts")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"})
	zzvf.Assert(g.build() == -1, "the code is generated")
	got := g.tsFields("s.ts", "T")
	zzvf.Assert(len(got) >= 2 && got[0].name == "First" && got[len(got)-1].name == "Last", "the other fields are described")
	if out {
		zzvf.Assert(len(got) == 2, "a field that is not sent is not described")
		zzvf.Reach("out")
		return
	}
	zzvf.Assert(len(got) == 3, "a field that is sent is described")
	f := got[1]
	if vfIdentifier(name) {
		zzvf.Assert(f.name == name || f.name == `"`+name+`"`, "a field has the name it has on the wire")
		zzvf.Reach("name")
	} else {
		zzvf.Assert(f.name == `"`+name+`"`, "a field has the name it has on the wire, quoted if need be")
		zzvf.Reach("quoted")
	}
	zzvf.Assert(f.optional == optional, "a field is optional exactly when it is tagged omitempty")
	if over {
		zzvf.Assert(f.typ == "Override", "a type override replaces the type")
	} else {
		zzvf.Assert(strings.HasPrefix(f.typ, typ), "a field has its type")
	}
	zzvf.Reach("end")
}
