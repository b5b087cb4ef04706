package config

//vf:bound target lists of 0..3 names; names of 1..2 arbitrary bytes, service name likewise

import "github.com/foomo/gotsrpc/v2/zzvf"

// VF_C30_Selects: a service is selected when it is listed, for HTTP also when no list is given.
func VF_C30_Selects() {
	name := func(l string) string { return zzvf.Str(l, 1+zzvf.Choose(l+" len", 2)) }
	list := func(l string) []string {
		var out []string
		for i := 0; i < zzvf.Bound("list length", 3, 4); i++ {
			if !zzvf.Bool("more " + l) {
				break
			}
			out = append(out, name(l))
		}
		return out
	}
	t := &Target{GoRPC: list("gorpc"), TSRPC: list("tsrpc")}
	s := name("service")
	in := func(l []string) bool {
		for _, n := range l {
			if n == s {
				return true
			}
		}
		return false
	}
	zzvf.Assert(t.IsGoRPC(s) == in(t.GoRPC), "Go RPC is generated for the services listed")
	zzvf.Assert(t.IsTSRPC(s) == (in(t.TSRPC) || len(t.TSRPC) == 0), "HTTP code is generated for the services listed, or all")
	if in(t.GoRPC) {
		zzvf.Reach("listed")
	}
}
