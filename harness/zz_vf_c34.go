package gotsrpc

//vf:bound every sequence of up to n builder operations (n: bound "ops"), each with any text of up to 2 bytes (no line feed, no leading tab) and any indent change from -2 to 2
//vf:outside longer sequences and texts; texts that contain line feeds themselves

import (
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C34_Builder: any sequence of operations.
func VF_C34_Builder() {
	n := zzvf.Choose("n", zzvf.Bound("ops", 4, 5)) + 1
	c := newCode("\t")
	var lines []string
	var tabs []int
	line, ind := "", 0
	text := func() string {
		s := zzvf.Str("text", zzvf.Choose("len", 3))
		for i := 0; i < len(s); i++ {
			zzvf.Assume(zzvf.And(s[i] != '\n', s[i] != '\t'))
		}
		return s
	}
	for i := 0; i < n; i++ {
		switch zzvf.Choose("op", 4) {
		case 0:
			d := zzvf.Choose("inc", 5) - 2
			c.ind(d)
			ind += d
			if ind < 0 {
				ind = 0
			}
		case 1:
			c.nl()
			lines, tabs, line = append(lines, line), append(tabs, ind), ""
		case 2:
			s := text()
			c.l(s)
			lines, tabs, line = append(lines, line+s), append(tabs, ind), ""
		default:
			s := text()
			c.app(s)
			line += s
		}
	}
	got := c.string()
	zzvf.Assert(got == c.string(), "rendering twice gives the same text")
	parts := strings.Split(got, "\n")
	want := len(lines)
	if line != "" {
		want++
	} else if want == 0 {
		zzvf.Assert(got == "", "nothing in, nothing out")
		zzvf.Reach("empty")
		return
	}
	zzvf.Assert(len(parts) == want, "a line ends exactly where a line end was asked for")
	for i, l := range lines {
		zzvf.Assert(parts[i] == strings.Repeat("\t", tabs[i])+l, "a finished line is its indent and its text")
	}
	if line != "" {
		zzvf.Assert(strings.TrimLeft(parts[want-1], "\t") == line, "the pending line is rendered with its text")
		zzvf.Reach("pending")
	}
	zzvf.ObsStr("out", got)
	zzvf.Reach("end")
}
