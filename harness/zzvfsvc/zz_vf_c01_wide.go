package zzvfsvc

import (
	"context"
	"errors"
	"net/http"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
	"github.com/foomo/gotsrpc/v2/zzvfsvc/sub"
)

// vfWide records its arguments and returns what it is told to.
type vfWide struct {
	vfLog
	i8  int8
	i16 int16
	i32 int32
	i   int
	u   uint
	u16 uint16
	u32 uint32
	u64 uint64
	i64 int64
	f32 float32
	f64 float64
	mm  map[string]map[string]int64
	ss  [][]string
	b   *bool
	s   *string
	mi  map[sub.Kind]sub.Item
	it  *sub.Item
	e   Embedding
	err error
	str [4]string
	any interface{}
}

func (x *vfWide) Untyped(v interface{}) interface{} {
	x.call("Untyped", v)
	return x.any
}

func (x *vfWide) Ints(a int8, b int16, c int32, d int, e uint, f uint16, g uint32, h uint64) (int8, int16, int32, int, uint, uint16, uint32, uint64) {
	x.call("Ints", a, b, c, d, e, f, g, h)
	return x.i8, x.i16, x.i32, x.i, x.u, x.u16, x.u32, x.u64
}
func (x *vfWide) Floats(a float32, b float64) (float64, float32) {
	x.call("Floats", a, b)
	return x.f64, x.f32
}
func (x *vfWide) Nested(l [][]int64, m map[string][]string, n map[int]Point) (map[string]map[string]int64, [][]string) {
	x.call("Nested", l, m, n)
	return x.mm, x.ss
}
func (x *vfWide) Pointers(a *int64, b *string, c *bool) (*bool, *string) {
	x.call("Pointers", a, b, c)
	return x.b, x.s
}
func (x *vfWide) Foreign(p sub.Item, l []sub.Item, k sub.Kind) (map[sub.Kind]sub.Item, *sub.Item) {
	x.call("Foreign", p, l, k)
	return x.mi, x.it
}
func (x *vfWide) Structs(e Embedding) Embedding {
	x.call("Structs", e)
	return x.e
}
func (x *vfWide) OnlyError() error {
	x.call("OnlyError")
	return x.err
}
func (x *vfWide) Middle() (int64, error, string) {
	x.call("Middle")
	return x.i64, x.err, x.str[0]
}
func (x *vfWide) SessionError(w http.ResponseWriter, r *http.Request, n int64) (int64, error) {
	x.call("SessionError", n)
	return x.i64, x.err
}
func (x *vfWide) Same(s string, t string, u string, v string) (string, string, string, string) {
	x.call("Same", s, t, u, v)
	return x.str[0], x.str[1], x.str[2], x.str[3]
}
func (x *vfWide) GoTSRPC(n int64) (y int64) {
	x.call("GoTSRPC", n)
	return x.i64
}

type vfWidePair struct {
	s        *vfWide
	c        *HTTPWideGoTSRPCClient
	enc      gotsrpc.ClientEncoding
	requests int
}

func vfWideConnect() *vfWidePair {
	p := &vfWidePair{s: &vfWide{}, enc: vfEncoding("json")}
	p.c = NewDefaultWideGoTSRPCClient("http://h")
	p.c.Client.SetTransportHttpClient(vfWire(NewDefaultWideGoTSRPCProxy(p.s), &p.requests))
	p.c.Client.SetClientEncoding(p.enc)
	return p
}

func (p *vfWidePair) check(method string, err error) {
	zzvf.Assert(err == nil, "the call succeeds")
	zzvf.Assert(p.requests == 1 && len(p.s.calls) == 1 && p.s.calls[0] == method, "the method runs, once, and no other")
}

func (p *vfWidePair) args(ok ...bool) {
	zzvf.Assert(zzvf.And(ok...), "the service receives the arguments")
}

func (p *vfWidePair) rets(ok ...bool) {
	zzvf.Assert(zzvf.And(ok...), "the client returns the results")
}

// VF_C01_Kinds: every kind of number, in order.
func VF_C01_Kinds() {
	p := vfWideConnect()
	ctx := context.Background()
	s := p.s
	switch zzvf.Choose("method", 4) {
	case 0:
		s.i8, s.i16, s.i32, s.i = zzvf.Int8("r1"), zzvf.Int16("r2"), zzvf.Int32("r3"), zzvf.Int("r4")
		s.u, s.u16, s.u32, s.u64 = uint(zzvf.Uint64("r5")), zzvf.Uint16("r6"), zzvf.Uint32("r7"), zzvf.Uint64("r8")
		a, b, c, d := zzvf.Int8("a"), zzvf.Int16("b"), zzvf.Int32("c"), zzvf.Int("d")
		e, f, g, h := uint(zzvf.Uint64("e")), zzvf.Uint16("f"), zzvf.Uint32("g"), zzvf.Uint64("h")
		r1, r2, r3, r4, r5, r6, r7, r8, err := p.c.Ints(ctx, a, b, c, d, e, f, g, h)
		p.check("Ints", err)
		x := s.vfLog.args
		p.args(x[0].(int8) == a, x[1].(int16) == b, x[2].(int32) == c, x[3].(int) == d, x[4].(uint) == e, x[5].(uint16) == f, x[6].(uint32) == g, x[7].(uint64) == h)
		p.rets(r1 == s.i8, r2 == s.i16, r3 == s.i32, r4 == s.i, r5 == s.u, r6 == s.u16, r7 == s.u32, r8 == s.u64)
	case 1:
		fs := []float64{0, 0.5, -1e30, 3, 1.0 / 3}
		a, b := float32(fs[zzvf.Choose("a", 4)]), fs[zzvf.Choose("b", 5)]
		s.f64, s.f32 = fs[zzvf.Choose("c", 5)], float32(fs[zzvf.Choose("d", 4)])
		c, d, err := p.c.Floats(ctx, a, b)
		p.check("Floats", err)
		p.args(s.vfLog.args[0].(float32) == a, s.vfLog.args[1].(float64) == b)
		p.rets(c == s.f64, d == s.f32)
	case 2:
		var v [4]string
		for i := range v {
			v[i], s.str[i] = zzvf.Str("arg", 1), zzvf.Str("ret", 1)
		}
		r0, r1, r2, r3, err := p.c.Same(ctx, v[0], v[1], v[2], v[3])
		p.check("Same", err)
		x := s.vfLog.args
		p.args(x[0].(string) == v[0], x[1].(string) == v[1], x[2].(string) == v[2], x[3].(string) == v[3])
		p.rets(r0 == s.str[0], r1 == s.str[1], r2 == s.str[2], r3 == s.str[3])
	case 3:
		n := zzvf.Int64("n")
		s.i64 = zzvf.Int64("i")
		y, err := p.c.GoTSRPC(ctx, n)
		p.check("GoTSRPC", err)
		p.args(s.vfLog.args[0].(int64) == n)
		p.rets(y == s.i64)
	}
	zzvf.Reach("end")
}

// vfUntyped is a value for an interface, which arrives in its natural form.
func vfUntyped(l string) interface{} {
	switch zzvf.Choose(l, 6) {
	case 1:
		return zzvf.Int64(l + ".int")
	case 2:
		return zzvf.Str(l+".str", zzvf.Choose(l+".strlen", 2))
	case 3:
		return zzvf.Bool(l + ".bool")
	case 4:
		return []interface{}{nil, zzvf.Bool(l + ".bool")}
	case 5:
		return map[string]interface{}{"k": zzvf.Str(l+".str", 1)}
	}
	return nil
}

func vfSameUntyped(got, want interface{}) bool {
	switch w := want.(type) {
	case int64:
		switch g := got.(type) {
		case int64:
			return g == w
		case uint64:
			return w >= 0 && g == uint64(w)
		}
		return false
	case []interface{}:
		g, ok := got.([]interface{})
		return ok && len(g) == len(w) && vfSameUntyped(g[0], w[0]) && vfSameUntyped(g[1], w[1])
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		return ok && len(g) == len(w) && vfSameUntyped(g["k"], w["k"])
	}
	return got == want
}

// VF_C01_Untyped: what goes through interfaces, nil among it.
func VF_C01_Untyped() {
	p := vfWideConnect()
	v := vfUntyped("arg")
	p.s.any = vfUntyped("ret")
	r, err := p.c.Untyped(context.Background(), v)
	p.check("Untyped", err)
	p.args(vfSameUntyped(p.s.vfLog.args[0], v))
	p.rets(vfSameUntyped(r, p.s.any))
	zzvf.Reach("end")
}

func vfBase(l string) *Base {
	if !zzvf.Bool(l + " set") {
		return nil
	}
	return &Base{ID: zzvf.Int64(l)}
}

func vfItem(l string) sub.Item {
	return sub.Item{Name: zzvf.Str(l+".name", zzvf.Choose(l+".namelen", 2)), Count: zzvf.Uint32(l + ".count"), Kind: sub.Kind(zzvf.Str(l+".kind", 1))}
}

func vfEmbedding(l string) (e Embedding) {
	e.ID, e.Named.ID = zzvf.Int64(l+".id"), zzvf.Int64(l+".named")
	e.Omit = zzvf.Str(l+".omit", zzvf.Choose(l+".omitlen", 2))
	e.Ptr, e.Plain, e.Inner.N = vfBase(l+".ptr"), zzvf.Bool(l+".plain"), zzvf.Int8(l+".inner")
	if zzvf.Bool(l + " more") {
		e.Items = []sub.Item{vfItem(l + ".item")}
		e.ByName = map[string]*Base{"x": vfBase(l + ".byname"), "": {ID: 3}}
	}
	return
}

func vfSameBase(a, b *Base) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.ID == b.ID
}

func vfSameEmbedding(a, b Embedding) bool {
	ok := zzvf.And(a.ID == b.ID, a.Named == b.Named, a.Omit == b.Omit, vfSameBase(a.Ptr, b.Ptr), a.Plain == b.Plain, a.Inner.N == b.Inner.N) &&
		len(a.Items) == len(b.Items) && (a.Items == nil) == (b.Items == nil) && len(a.ByName) == len(b.ByName) && (a.ByName == nil) == (b.ByName == nil)
	if !ok {
		return false
	}
	for i := range a.Items {
		ok = zzvf.And(ok, a.Items[i] == b.Items[i])
	}
	for k, v := range a.ByName {
		w, has := b.ByName[k]
		ok = ok && has && vfSameBase(v, w)
	}
	return ok
}

// VF_C01_Nested: nested lists, maps and structs, types of another package.
func VF_C01_Nested() {
	p := vfWideConnect()
	ctx := context.Background()
	s := p.s
	switch zzvf.Choose("method", 4) {
	case 0:
		l := [][]int64{{zzvf.Int64("l00"), zzvf.Int64("l01")}, nil, {}}
		m := map[string][]string{"a": {zzvf.Str("m", 1), ""}, "b": nil}
		n := map[int]Point{-1: {X: zzvf.Int64("x")}, 7: {Label: "l", Next: &Point{X: 1}}}
		if zzvf.Bool("results") {
			s.mm = map[string]map[string]int64{"o": {"i": zzvf.Int64("mm")}, "n": nil, "e": {}}
			s.ss = [][]string{{}, {zzvf.Str("ss", 1)}}
		}
		mm, ss, err := p.c.Nested(ctx, l, m, n)
		p.check("Nested", err)
		gl, gm, gn := s.vfLog.args[0].([][]int64), s.vfLog.args[1].(map[string][]string), s.vfLog.args[2].(map[int]Point)
		p.args(len(gl) == 3 && len(gl[0]) == 2 && gl[1] == nil && gl[2] != nil && len(gl[2]) == 0)
		p.args(gl[0][0] == l[0][0], gl[0][1] == l[0][1])
		p.args(len(gm) == 2 && len(gm["a"]) == 2 && gm["b"] == nil)
		p.args(gm["a"][0] == m["a"][0], gm["a"][1] == "")
		p.args(len(gn) == 2, gn[-1].X == n[-1].X, gn[7].Label == "l", gn[7].Next != nil && gn[7].Next.X == 1)
		if s.mm == nil {
			p.rets(mm == nil && ss == nil)
		} else {
			p.rets(len(mm) == 3 && mm["n"] == nil && mm["e"] != nil && len(ss) == 2 && len(ss[1]) == 1)
			p.rets(mm["o"]["i"] == s.mm["o"]["i"], ss[1][0] == s.ss[1][0])
		}
	case 1:
		var a *int64
		var b *string
		var c *bool
		if zzvf.Bool("a set") {
			x := zzvf.Int64("a")
			a = &x
		}
		if zzvf.Bool("b set") {
			x := zzvf.Str("b", zzvf.Choose("blen", 2))
			b = &x
		}
		if zzvf.Bool("c set") {
			x := zzvf.Bool("c")
			c = &x
		}
		if zzvf.Bool("results") {
			x, y := zzvf.Bool("rb"), zzvf.Str("rs", 1)
			s.b, s.s = &x, &y
		}
		rb, rs, err := p.c.Pointers(ctx, a, b, c)
		p.check("Pointers", err)
		ga, gb, gc := s.vfLog.args[0].(*int64), s.vfLog.args[1].(*string), s.vfLog.args[2].(*bool)
		p.args((ga == nil) == (a == nil) && (gb == nil) == (b == nil) && (gc == nil) == (c == nil))
		p.args(a == nil || *a == *ga, b == nil || *b == *gb, c == nil || *c == *gc)
		p.rets((rb == nil) == (s.b == nil) && (rs == nil) == (s.s == nil) && (rb == nil || zzvf.And(*rb == *s.b, *rs == *s.s)))
	case 2:
		it, k := vfItem("it"), sub.Kind(zzvf.Str("k", 1))
		l := []sub.Item{vfItem("l")}
		if zzvf.Bool("results") {
			x := vfItem("r")
			s.it = &x
			s.mi = map[sub.Kind]sub.Item{"k": {Name: "n", Count: 0}}
		}
		mi, rit, err := p.c.Foreign(ctx, it, l, k)
		p.check("Foreign", err)
		gl := s.vfLog.args[1].([]sub.Item)
		p.args(len(gl) == 1 && s.vfLog.args[0].(sub.Item) == it && gl[0] == l[0] && s.vfLog.args[2].(sub.Kind) == k)
		p.rets((rit == nil) == (s.it == nil) && len(mi) == len(s.mi) && mi["k"] == s.mi["k"] && (rit == nil || *rit == *s.it))
	case 3:
		e := vfEmbedding("e")
		s.e = vfEmbedding("r")
		r, err := p.c.Structs(ctx, e)
		p.check("Structs", err)
		p.args(vfSameEmbedding(s.vfLog.args[0].(Embedding), e))
		p.rets(vfSameEmbedding(r, s.e))
	}
	zzvf.Reach("end")
}

// VF_C01_ErrorPlaces: an error wherever it is among the results.
func VF_C01_ErrorPlaces() {
	p := vfWideConnect()
	ctx := context.Background()
	s := p.s
	s.i64, s.str[0] = zzvf.Int64("i"), zzvf.Str("s", zzvf.Choose("slen", 2))
	switch zzvf.Choose("error", 3) {
	case 1:
		s.err = errors.New(zzvf.Str("msg", zzvf.Choose("msglen", 3)))
	case 2:
		s.err = Reason(zzvf.Str("reason", zzvf.Choose("reasonlen", 2)))
	}
	json := p.enc == gotsrpc.EncodingJson && s.err != nil
	var got, err error
	switch zzvf.Choose("method", 3) {
	case 0:
		got, err = p.c.OnlyError(ctx)
		zzvf.AssertKnown(err == nil, json, "C01-json-error", "the call succeeds")
		zzvf.Assert(p.requests == 1 && len(s.calls) == 1 && s.calls[0] == "OnlyError", "the method runs, once, and no other")
	case 1:
		var i int64
		var t string
		i, got, t, err = p.c.Middle(ctx)
		zzvf.AssertKnown(err == nil, json, "C01-json-error", "the call succeeds")
		zzvf.Assert(p.requests == 1 && len(s.calls) == 1 && s.calls[0] == "Middle", "the method runs, once, and no other")
		if !json {
			p.rets(i == s.i64, t == s.str[0])
		}
	case 2:
		n := zzvf.Int64("n")
		var i int64
		i, got, err = p.c.SessionError(ctx, n)
		zzvf.AssertKnown(err == nil, json, "C01-json-error", "the call succeeds")
		zzvf.Assert(p.requests == 1 && len(s.calls) == 1 && s.calls[0] == "SessionError", "the method runs, once, and no other")
		p.args(s.vfLog.args[0].(int64) == n)
		if !json {
			p.rets(i == s.i64)
		}
	}
	if !json {
		zzvf.Assert((got == nil) == (s.err == nil), "the client returns the error")
		if got != nil {
			zzvf.Assert(got.Error() == s.err.Error(), "the client returns the error")
		}
	}
	zzvf.Reach("end")
}
