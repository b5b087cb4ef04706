package gotsrpc

//vf:bound types with up to n constants (bound "constants"), each declared on its own, in a group, with others in one specification or by repetition; strings with any ASCII letter or any of nine escapes, raw strings, signed decimal, hexadecimal, octal, binary, character and floating point literals
//vf:bound names with and without the name of their type, letters in any case, digits, underscores, any ASCII letter
//vf:bound constants of another type, without a type, of types of other packages and in functions between them
//vf:outside constants declared by expressions that are not literals (iota, conversions, other constants), strings that are not UTF-8, what JavaScript rounds in integers beyond 2^53
//vf:stub goimports leaves the code as it is; it runs in the native replays
//vf:stub file system: in memory, replays use a scratch directory as an unprivileged user

import (
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfConst is a constant: its name and the literal that declares it, with the value of that.
type vfConst struct {
	name, lit string
	str       string
	num       float64
}

func vfLetter(label string) string {
	b := zzvf.Byte(label)
	zzvf.Assume(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z')
	return string([]byte{b})
}

// vfConstString is a string literal.
func (c *vfConst) text() {
	switch zzvf.Choose("string", 12) {
	case 0:
		b := zzvf.Byte("char")
		zzvf.Assume(b >= ' ' && b < 0x7f && b != '"' && b != '\\')
		c.str = "v" + string([]byte{b})
		c.lit = "\"" + c.str + "\""
	case 1:
		c.lit, c.str = `"a\\nb"`, `a\nb`
	case 2:
		c.lit, c.str = `"a\nb"`, "a\nb"
	case 3:
		c.lit, c.str = `"\a"`, "\a"
	case 4:
		c.lit, c.str = `"\x41\""`, "A\""
	case 5:
		c.lit, c.str = `"\101"`, "A"
	case 6:
		c.lit, c.str = `"\u00e9"`, "é"
	case 7:
		c.lit, c.str = `"\U0001F600"`, "\U0001F600"
	case 8:
		c.lit, c.str = "`r\\n\"`", "r\\n\""
	case 9:
		c.lit, c.str = "`${x}\n`", "${x}\n"
	case 10:
		c.lit, c.str = `""`, ""
	default:
		c.lit, c.str = `"é</script>//"`, "é</script>//"
	}
}

func (c *vfConst) number() {
	switch zzvf.Choose("number", 15) {
	case 0:
		b := zzvf.Byte("digit")
		zzvf.Assume(b >= '1' && b <= '9')
		c.lit, c.num = string([]byte{b})+"2", float64(10*int(b-'0')+2)
	case 1:
		c.lit, c.num = "-3", -3
	case 2:
		c.lit, c.num = "0x1F", 31
	case 3:
		c.lit, c.num = "017", 15
	case 4:
		c.lit, c.num = "0b11", 3
	case 5:
		c.lit, c.num = "'a'", 97
	case 6:
		c.lit, c.num = "1_000", 1000
	case 7:
		c.lit, c.num = "- (4)", -4
	case 8:
		c.lit, c.num = "0o17", 15
	case 9:
		c.lit, c.num = "9007199254740991", 9007199254740991
	case 10:
		c.lit, c.num = "-(-5)", 5
	case 11:
		c.lit, c.num = "+7", 7
	case 12:
		c.lit, c.num = "18446744073709551615", 18446744073709551615
	case 13:
		c.lit, c.num = "-9_223_372_036_854_775_808", -9223372036854775808
	default:
		c.lit, c.num = "'\\n'", 10
	}
}

func (c *vfConst) float() {
	switch zzvf.Choose("float", 10) {
	case 0:
		b := zzvf.Byte("digit")
		zzvf.Assume(b >= '0' && b <= '9')
		digit := zzvf.Concrete(int(b - '0'))
		c.lit, c.num = "1."+strconv.Itoa(digit), 1+float64(digit)/10
	case 1:
		c.lit, c.num = ".5", .5
	case 2:
		c.lit, c.num = "01.5", 1.5
	case 3:
		c.lit, c.num = "-1e3", -1000
	case 4:
		c.lit, c.num = "0x1p-2", 0.25
	case 5:
		c.lit, c.num = "3.141592653589793", 3.141592653589793
	case 6:
		c.lit, c.num = "1e100", 1e100
	case 7:
		c.lit, c.num = "-0.000_000_1", -0.0000001
	case 8:
		c.lit, c.num = "16777217.0", 16777217
	default:
		c.lit, c.num = "7", 7
	}
}

// VF_C26_Literals: a member has the value of its constant, whatever literal that is.
func VF_C26_Literals() {
	base := []string{"string", "int", "float64", "rune", "uint64"}[zzvf.Choose("base", 5)]
	c := &vfConst{name: "KindOf"}
	switch base {
	case "string":
		c.text()
	case "float64":
		c.float()
	default:
		c.number()
	}
	vfEnumOf(base, []*vfConst{c}, zzvf.Choose("layout", 2))
}

// VF_C26_Names: there is one member per constant, however they are named and declared.
func VF_C26_Names() {
	n := zzvf.Choose("constants", zzvf.Bound("constants", 2, 3)+1)
	consts := make([]*vfConst, n)
	for i := range consts {
		c := &vfConst{}
		switch zzvf.Choose("name", 8) {
		case 0:
			c.name = "Kind" + vfLetter("letter")
		case 1:
			c.name = vfLetter("letter") + "nd"
		case 2:
			c.name = "Kind" + strconv.Itoa(i)
		case 3:
			c.name = "Foo_Bar"
		case 4:
			c.name = "FooBar"
		case 5:
			c.name = "KIND_OF"
		case 6:
			c.name = "_1"
		default:
			c.name = "kind"
		}
		for j := 0; j < i; j++ {
			zzvf.Assume(consts[j].name != c.name)
		}
		c.str = "v" + strconv.Itoa(i)
		c.lit = strconv.Quote(c.str)
		consts[i] = c
	}
	vfEnumOf("string", consts, zzvf.Choose("layout", 4))
}

func vfEnumOf(base string, consts []*vfConst, layout int) {
	g := vfNewGen()
	n := len(consts)
	var names, lits []string
	for _, c := range consts {
		names, lits = append(names, c.name), append(lits, c.lit)
	}
	text := ""
	switch layout {
	case 0: // on their own
		for _, c := range consts {
			text += "const " + c.name + " Kind = " + c.lit + "\n\n"
		}
	case 1: // in a group, between others
		text = "const (\n\tFree = \"free\"\n"
		for _, c := range consts {
			text += "\t" + c.name + " Kind = " + c.lit + "\n\tx" + c.name + " Other = \"x\"\n"
		}
		text += "\t_ Kind = " + map[bool]string{true: "\"blank\"", false: "0"}[base == "string"] + "\n)\n"
	case 2: // in one specification
		if n > 0 {
			text = "const " + strings.Join(names, ", ") + " Kind = " + strings.Join(lits, ", ") + "\n"
		}
	default: // by repetition
		if n > 0 {
			text = "const (\n\t" + names[0] + " Kind = " + lits[0] + "\n"
			for i, c := range consts {
				if i > 0 {
					text += "\t" + c.name + "\n"
					c.str, c.num = consts[0].str, consts[0].num
				}
			}
			text += "\n\tUntyped = 5\n\tRepeated\n)\n"
		}
	}
	typ := "type Kind " + base + "\n\ntype Other string\n\n"
	more := "func f() {\n\tconst Inner Kind = " + map[bool]string{true: "\"inner\"", false: "5"}[base == "string"] + "\n}\n\nconst One Other = \"one\"\n"
	switch zzvf.Choose("file", 3) {
	case 0:
		g.file("t", "t.go", "package t\n\n"+typ+text+more)
	case 1:
		g.file("t", "t.go", "package t\n\n"+text+more+typ)
	default:
		g.file("t", "a.go", "package t\n\n"+text)
		g.file("t", "t.go", "package t\n\n"+typ+more)
	}
	g.file("s", "s.go", "package s\n\nimport \"m.x/t\"\n\ntype S interface {\n\tGet(k t.Kind)\n}\n")
	g.mapping("t", g.root+"/m/t.ts")
	g.target("s", "s", g.root+"/m/out.ts", map[string]string{"/s": "S"}).TSRPC = []string{"S"}
	zzvf.Assert(g.build() == -1, "the code is generated")

	ts := g.out("t.ts")
	zzvf.ObsStr("enum", ts)
	if n == 0 {
		alias := map[string]string{"string": "string", "int": "number", "float64": "number", "rune": "number", "uint64": "number"}[base]
		zzvf.Assert(strings.Contains(vfFlat(ts), "export type Kind="+alias+" ") || strings.Contains(vfFlat(ts), "export type Kind="+alias+"/"), "a type without constants is an alias of its TypeScript type")
		zzvf.Assert(!strings.Contains(ts, "enum"), "a type without constants is an alias of its TypeScript type")
		zzvf.Reach("alias")
		return
	}
	members := vfEnum(ts, "Kind")
	zzvf.Assert(len(members) == n, "an enum has a member for every constant of its type and no other")
	for i, m := range members {
		zzvf.Assert(vfIdentifier(m.name), "the name of a member is valid")
		for j := 0; j < i; j++ {
			zzvf.Assert(members[j].name != m.name, "the names of members differ")
		}
	}
	for _, c := range consts {
		found := false
		for _, m := range members {
			same := m.isStr == (base == "string") && m.str == c.str && (base == "string" || m.num == c.num)
			full := strings.ToLower(strings.ReplaceAll(c.name, "_", ""))
			short := strings.ToLower(strings.ReplaceAll(m.name, "_", ""))
			if same && (short == full || "kind"+short == full) {
				found = true
			}
		}
		zzvf.Assert(found, "a constant has a member with its value")
	}
	zzvf.Reach("enum")
}

type vfMember struct {
	name  string
	isStr bool
	str   string
	num   float64
}

// vfEnum reads the members of a TypeScript enum as TypeScript does.
func vfEnum(ts, name string) (members []vfMember) {
	_, inside, ok := vfTSBlock(ts, "export enum "+name+" ")
	zzvf.Assert(ok, "a type with constants is an enum")
	for pos := 0; ; {
		for pos < len(inside) && strings.IndexByte(" \t\n,", inside[pos]) >= 0 {
			pos++
		}
		if pos == len(inside) {
			return
		}
		eq := pos + strings.IndexByte(inside[pos:], '=')
		zzvf.Assert(eq >= pos, "a member has a value")
		m := vfMember{name: strings.TrimSpace(inside[pos:eq])}
		pos = eq + 1
		for inside[pos] == ' ' {
			pos++
		}
		if q := inside[pos]; q == '"' || q == '\'' || q == '`' {
			m.isStr = true
			m.str, pos = vfJSString(inside, pos)
		} else {
			end := pos
			for end < len(inside) && inside[end] != ',' && inside[end] != '\n' {
				end++
			}
			m.num = vfJSNumber(strings.TrimSpace(inside[pos:end]))
			pos = end
		}
		members = append(members, m)
	}
}

// vfJSString is the value of a string literal in TypeScript.
func vfJSString(s string, pos int) (string, int) {
	quote := s[pos]
	var out []byte
	for pos++; pos < len(s) && s[pos] != quote; pos++ {
		if s[pos] == '$' && quote == '`' {
			zzvf.Assert(pos+1 == len(s) || s[pos+1] != '{', "a literal has no substitutions")
		}
		zzvf.Assert(quote == '`' || s[pos] != '\n', "a literal ends on its line")
		if s[pos] != '\\' {
			out = append(out, s[pos])
			continue
		}
		pos++
		switch s[pos] {
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'v':
			out = append(out, '\v')
		case 'x':
			n, err := strconv.ParseUint(s[pos+1:pos+3], 16, 8)
			zzvf.Assert(err == nil, "a literal is valid")
			out = append(out, string(rune(n))...)
			pos += 2
		case 'u':
			if s[pos+1] == '{' {
				end := pos + strings.IndexByte(s[pos:], '}')
				n, err := strconv.ParseUint(s[pos+2:end], 16, 32)
				zzvf.Assert(err == nil, "a literal is valid")
				out = append(out, string(rune(n))...)
				pos = end
				break
			}
			n, err := strconv.ParseUint(s[pos+1:pos+5], 16, 32)
			zzvf.Assert(err == nil, "a literal is valid")
			pos += 4
			if n >= 0xd800 && n < 0xdc00 && pos+6 < len(s) && s[pos+1] == '\\' && s[pos+2] == 'u' {
				low, err := strconv.ParseUint(s[pos+3:pos+7], 16, 32)
				zzvf.Assert(err == nil, "a literal is valid")
				n = 0x10000 + (n-0xd800)<<10 + (low - 0xdc00)
				pos += 6
			}
			out = append(out, string(rune(n))...)
		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
			zzvf.Fail("a literal has no octal escapes")
		default:
			out = append(out, s[pos])
		}
	}
	return string(out), pos + 1
}

// vfJSNumber is the value of a number literal in TypeScript, with a sign.
func vfJSNumber(s string) float64 {
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = strings.TrimSpace(s[1:])
	}
	if len(s) > 1 && s[0] == '0' {
		zzvf.Assert(s[1] < '0' || s[1] > '9', "a number is valid")
	}
	var f float64
	if len(s) > 2 && s[0] == '0' && strings.IndexByte("xXoObB", s[1]) >= 0 {
		n, err := strconv.ParseUint(s, 0, 64)
		zzvf.Assert(err == nil, "a number is valid")
		f = float64(n)
	} else {
		digits := true
		for i := 0; i < len(s); i++ {
			digits = digits && (s[i] >= '0' && s[i] <= '9' || s[i] == '_')
		}
		if digits && len(s) < 16 {
			n := 0
			for i := 0; i < len(s); i++ {
				if s[i] != '_' {
					n = 10*n + int(s[i]-'0')
				}
			}
			f = float64(n)
		} else {
			var err error
			f, err = strconv.ParseFloat(s, 64)
			zzvf.Assert(err == nil, "a number is valid")
		}
	}
	if neg {
		f = -f
	}
	return f
}
