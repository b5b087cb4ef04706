package zzvfsvc

//vf:bound one generated service of 15 methods, one of 11 (all kinds of integers, floats, nested lists and maps, types of another package, embedded and unnamed structs, errors in any position) and one of a struct, both encodings; 64 bit integers, booleans and uint8 of every value, strings of up to 2 bytes, lists and maps of up to 2 entries, pointers chained up to 2 deep, nil and not; errors: error, pointer to a struct, string type
//vf:outside results of session methods that send a status themselves to msgpack clients, values of interface types (what arrives follows the encoding), unexported struct fields, time zones and monotonic clock readings, NaN
//vf:stub transport: an http.RoundTripper that hands the request to the proxy; codec: structural model

import (
	"context"
	"errors"
	"net/http"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfPair struct {
	s        *vfService
	c        *HTTPServiceGoTSRPCClient
	enc      gotsrpc.ClientEncoding
	requests int
}

func vfConnect() *vfPair {
	p := &vfPair{s: &vfService{}, enc: vfEncoding("json")}
	if zzvf.Bool("own endpoint") {
		proxy := NewServiceGoTSRPCProxy(p.s, "/own/endpoint")
		p.c = NewServiceGoTSRPCClientWithClient("http://h", "/own/endpoint", vfWire(proxy, &p.requests))
	} else {
		p.c = NewDefaultServiceGoTSRPCClient("http://h")
		p.c.Client.SetTransportHttpClient(vfWire(NewDefaultServiceGoTSRPCProxy(p.s), &p.requests))
	}
	if p.enc == gotsrpc.EncodingJson || zzvf.Bool("set encoding") {
		p.c.Client.SetClientEncoding(p.enc)
	}
	return p
}

func (p *vfPair) check(method string, err error) {
	zzvf.Assert(err == nil, "the call succeeds")
	zzvf.Assert(p.requests == 1 && len(p.s.calls) == 1 && p.s.calls[0] == method, "the method runs, once, and no other")
}

// VF_C01_Scalars: numbers, strings and booleans.
func VF_C01_Scalars() {
	p := vfConnect()
	ctx := context.Background()
	switch zzvf.Choose("method", 6) {
	case 0:
		p.check("Nothing", p.c.Nothing(ctx))
	case 1:
		id := zzvf.Int64("id")
		p.s.ret.s = zzvf.Str("s", zzvf.Choose("slen", 3))
		got, err := p.c.Get(ctx, id)
		p.check("Get", err)
		zzvf.Assert(p.s.args[0].(int64) == id, "the service receives the arguments")
		zzvf.Assert(got == p.s.ret.s, "the client returns the results")
	case 2:
		from, to := zzvf.Int64("from"), zzvf.Int64("to")
		p.s.ret.n = zzvf.Int("total")
		switch n := zzvf.Choose("n", 4); {
		case n > 0:
			p.s.ret.list = []int64{}
			for i := 1; i < n; i++ {
				p.s.ret.list = append(p.s.ret.list, zzvf.Int64("entry"))
			}
		}
		list, total, err := p.c.GetAll(ctx, from, to)
		p.check("GetAll", err)
		zzvf.Assert(zzvf.And(p.s.args[0].(int64) == from, p.s.args[1].(int64) == to), "the service receives the arguments")
		zzvf.Assert(total == p.s.ret.n && len(list) == len(p.s.ret.list) && (list == nil) == (p.s.ret.list == nil), "the client returns the results")
		for i, x := range list {
			zzvf.Assert(x == p.s.ret.list[i], "the client returns the results")
		}
	case 3:
		a, b := zzvf.Str("a", zzvf.Choose("alen", 3)), zzvf.Str("b", zzvf.Choose("blen", 3))
		p.s.ret.s, p.s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
		x, y, err := p.c.Swap(ctx, a, b)
		p.check("Swap", err)
		zzvf.Assert(zzvf.And(p.s.args[0].(string) == a, p.s.args[1].(string) == b), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == p.s.ret.s, y == p.s.ret.t), "the client returns the results")
	case 4:
		a, b, c := zzvf.Bool("a"), zzvf.Bool("b"), zzvf.Uint8("c")
		p.s.ret.a, p.s.ret.b, p.s.ret.c = zzvf.Bool("x"), zzvf.Bool("y"), zzvf.Uint8("z")
		x, y, z, err := p.c.Flags(ctx, a, b, c)
		p.check("Flags", err)
		zzvf.Assert(zzvf.And(p.s.args[0].(bool) == a, p.s.args[1].(bool) == b, p.s.args[2].(uint8) == c), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == p.s.ret.a, y == p.s.ret.b, z == p.s.ret.c), "the client returns the results")
	case 5:
		a, b, c := zzvf.Str("a", 1), zzvf.Str("b", 1), zzvf.Str("c", 1)
		p.s.ret.s, p.s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
		x, y, err := p.c.Names(ctx, a, b, c)
		p.check("Names", err)
		zzvf.Assert(zzvf.And(p.s.args[0].(string) == a, p.s.args[1].(string) == b, p.s.args[2].(string) == c), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == p.s.ret.s, y == p.s.ret.t), "the client returns the results")
	}
	zzvf.Reach("end")
}

// VF_C01_Structs: structs, pointers, lists, maps, bytes, times.
func VF_C01_Structs() {
	p := vfConnect()
	ctx := context.Background()
	switch zzvf.Choose("method", 3) {
	case 0:
		a := Point{X: zzvf.Int64("a.x"), Label: zzvf.Str("a.label", zzvf.Choose("a.labellen", 3)), Next: vfPoint("a.next", 1)}
		d := vfPoint("d", 0)
		p.s.ret.q = vfPoint("q", 1)
		p.s.ret.p = Point{X: zzvf.Int64("p.x")}
		q, n, err := p.c.Move(ctx, a, d)
		p.check("Move", err)
		ga, gd := p.s.args[0].(Point), p.s.args[1].(*Point)
		zzvf.Assert(vfSamePoint(&ga, &a) && vfSamePoint(gd, d), "the service receives the arguments")
		zzvf.Assert(vfSamePoint(q, p.s.ret.q) && vfSamePoint(&n, &p.s.ret.p), "the client returns the results")
	case 1:
		var m map[string]int64
		nm := zzvf.Choose("entries", 4)
		if nm > 0 {
			m = map[string]int64{}
		}
		keys := []string{"k", ""}
		for i := 1; i < nm; i++ {
			m[keys[i-1]] = zzvf.Int64("value")
		}
		var kinds []Kind
		nk := zzvf.Choose("kinds", 4)
		if nk > 0 {
			kinds = []Kind{}
		}
		for i := 1; i < nk; i++ {
			kinds = append(kinds, Kind(zzvf.Str("kind", 1)))
		}
		if zzvf.Bool("results") {
			p.s.ret.m = map[Kind]Level{"a": Level(zzvf.Int("level")), "b": 0}
			p.s.ret.points = []*Point{vfPoint("first", 0), {X: 1}}
		}
		rm, points, err := p.c.Index(ctx, m, kinds)
		p.check("Index", err)
		gm, gk := p.s.args[0].(map[string]int64), p.s.args[1].([]Kind)
		zzvf.Assert(len(gm) == len(m) && (gm == nil) == (m == nil) && len(gk) == len(kinds) && (gk == nil) == (kinds == nil), "the service receives the arguments")
		for k, v := range m {
			w, ok := gm[k]
			zzvf.Assert(ok && w == v, "the service receives the arguments")
		}
		for i, k := range kinds {
			zzvf.Assert(gk[i] == k, "the service receives the arguments")
		}
		zzvf.Assert(len(rm) == len(p.s.ret.m) && (rm == nil) == (p.s.ret.m == nil) && rm["a"] == p.s.ret.m["a"] && len(points) == len(p.s.ret.points), "the client returns the results")
		for i, q := range points {
			zzvf.Assert(vfSamePoint(q, p.s.ret.points[i]), "the client returns the results")
		}
	case 2:
		var data []byte
		if n := zzvf.Choose("datalen", 4); n > 0 {
			data = []byte(zzvf.Str("data", n-1))
		}
		fs := []float64{0, 1.5, -2e300, 1.0 / 3}
		f := fs[zzvf.Choose("f", 4)]
		p.s.ret.f = fs[zzvf.Choose("g", 4)]
		p.s.ret.data = []byte(zzvf.Str("result", zzvf.Choose("resultlen", 3)))
		got, g, err := p.c.Blob(ctx, data, f)
		p.check("Blob", err)
		zzvf.Assert(string(p.s.args[0].([]byte)) == string(data) && p.s.args[1].(float64) == f, "the service receives the arguments")
		zzvf.Assert(string(got) == string(p.s.ret.data) && g == p.s.ret.f, "the client returns the results")
	}
	zzvf.Reach("end")
}

// VF_C01_Times: which of its argument and its result a time is (instants in general: C16).
func VF_C01_Times() {
	p := vfConnect()
	times := []time.Time{{}, time.UnixMilli(0), time.UnixMilli(1700000000123), time.UnixMilli(-1)}
	t := times[zzvf.Choose("t", 4)]
	p.s.ret.when = times[zzvf.Choose("u", 4)]
	u, err := p.c.When(context.Background(), t)
	p.check("When", err)
	zzvf.Assert(p.s.args[0].(time.Time).Equal(t), "the service receives the arguments")
	zzvf.Assert(u.Equal(p.s.ret.when), "the client returns the results")
	zzvf.Reach("end")
}

// VF_C01_Errors: a returned error is a result, not a failure of the call.
func VF_C01_Errors() {
	p := vfConnect()
	ctx := context.Background()
	n := zzvf.Int64("n")
	switch zzvf.Choose("method", 3) {
	case 0:
		p.s.ret.i = zzvf.Int64("i")
		switch zzvf.Choose("error", 3) {
		case 1:
			p.s.ret.err = errors.New(zzvf.Str("msg", zzvf.Choose("msglen", 3)))
		case 2:
			p.s.ret.err = &Failure{Code: zzvf.Int("code"), Why: zzvf.Str("why", 1)}
		}
		i, ret, err := p.c.Try(ctx, n)
		json := p.enc == gotsrpc.EncodingJson && p.s.ret.err != nil
		zzvf.AssertKnown(err == nil, json, "C01-json-error", "the call succeeds")
		zzvf.Assert(p.requests == 1 && len(p.s.calls) == 1 && p.s.calls[0] == "Try" && p.s.args[0].(int64) == n, "the method runs once with the arguments")
		if json {
			zzvf.Reach("error by JSON")
			zzvf.End()
		}
		zzvf.Assert(i == p.s.ret.i, "the client returns the results")
		zzvf.Assert((ret == nil) == (p.s.ret.err == nil), "the client returns the error")
		if ret != nil {
			zzvf.Assert(ret.Error() == p.s.ret.err.Error(), "the client returns the error")
		}
	case 1:
		p.s.ret.s = zzvf.Str("s", 1)
		if zzvf.Bool("failure") {
			p.s.ret.failure = &Failure{Code: zzvf.Int("code"), Why: zzvf.Str("why", zzvf.Choose("whylen", 3))}
		}
		s, f, err := p.c.TryFailure(ctx, n)
		p.check("TryFailure", err)
		zzvf.Assert(p.s.args[0].(int64) == n, "the service receives the arguments")
		zzvf.Assert(s == p.s.ret.s && (f == nil) == (p.s.ret.failure == nil), "the client returns the results")
		if f != nil {
			zzvf.Assert(zzvf.And(f.Code == p.s.ret.failure.Code, f.Why == p.s.ret.failure.Why), "the client returns the error")
		}
	case 2:
		p.s.ret.reason = Reason(zzvf.Str("reason", zzvf.Choose("reasonlen", 3)))
		r, err := p.c.TryReason(ctx, n)
		p.check("TryReason", err)
		zzvf.Assert(p.s.args[0].(int64) == n, "the service receives the arguments")
		zzvf.Assert(r == p.s.ret.reason, "the client returns the error")
	}
	zzvf.Reach("end")
}

// VF_C01_Sessions: methods that see the request and may answer it themselves.
func VF_C01_Sessions() {
	p := vfConnect()
	ctx := context.Background()
	if zzvf.Bool("status") {
		p.s.ret.session = http.StatusOK
	}
	// a status sent early carries no content type, so only JSON replies can be read
	readable := p.s.ret.session == 0 || p.enc == gotsrpc.EncodingJson
	if zzvf.Bool("only") {
		if err := p.c.SessionOnly(ctx); readable {
			p.check("SessionOnly", err)
		}
		zzvf.Assert(len(p.s.calls) == 1 && p.s.calls[0] == "SessionOnly", "the method runs, once, and no other")
	} else {
		name := zzvf.Str("name", zzvf.Choose("namelen", 3))
		p.s.ret.s, p.s.ret.a = zzvf.Str("s", 1), zzvf.Bool("a")
		s, a, err := p.c.Session(ctx, name)
		if readable {
			p.check("Session", err)
			zzvf.Assert(zzvf.And(s == p.s.ret.s, a == p.s.ret.a), "the client returns the results")
		}
		zzvf.Assert(p.s.args[0].(string) == name, "the service receives the arguments")
	}
	zzvf.Assert(p.s.ret.sawReq != nil && p.s.ret.sawReq.Method == http.MethodPost && p.s.ret.sawWriter != nil, "the method sees request and writer")
	zzvf.Reach("end")
}

// VF_C01_Struct: a service that is a struct.
func VF_C01_Struct() {
	o := &Other{log: &vfLog{n: zzvf.Int64("n")}}
	n := 0
	c := NewDefaultOtherGoTSRPCClient("http://h")
	c.Client.SetTransportHttpClient(vfWire(NewDefaultOtherGoTSRPCProxy(o), &n))
	c.Client.SetClientEncoding(vfEncoding("json"))
	id := zzvf.Str("id", zzvf.Choose("idlen", 3))
	if zzvf.Bool("nothing") {
		zzvf.Assert(c.Nothing(context.Background()) == nil && n == 1 && len(o.log.calls) == 1 && o.log.calls[0] == "Other.Nothing", "the method runs, once, and no other")
	} else {
		got, err := c.Get(context.Background(), id)
		zzvf.Assert(err == nil && n == 1 && len(o.log.calls) == 1 && o.log.calls[0] == "Other.Get", "the method runs, once, and no other")
		zzvf.Assert(o.log.args[0].(string) == id && got == o.log.n, "arguments and results pass")
	}
	zzvf.Reach("end")
}
