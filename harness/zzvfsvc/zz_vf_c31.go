package zzvfsvc

//vf:bound the Go RPC proxies and clients of a generated service of 15 methods and of a struct; integers of full width, strings of up to 2 bytes, lists and maps of up to 2 entries, pointers chained up to 2 deep; unknown requests: of the other service, of no service, values of other types; up to 3 requests to one proxy
//vf:outside nil requests (no client sends them), what gob does to values on the wire (empty lists become nil, errors of unregistered types cannot be sent)
//vf:stub gorpc: a client hands the request to the handler of the server and the response back; native replays use gorpc over a pipe

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/valyala/gorpc"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

var vfHandler gorpc.HandlerFunc

var vfSent int

// VFGoRPC is what (*gorpc.Client).Call does.
func VFGoRPC(c *gorpc.Client, request interface{}) (interface{}, error) {
	vfSent++
	return vfHandler("client", request), nil
}

type vfListener struct {
	conns chan io.ReadWriteCloser
	done  chan bool
}

func (l *vfListener) Init(addr string) error { return nil }
func (l *vfListener) Accept() (io.ReadWriteCloser, string, error) {
	select {
	case c := <-l.conns:
		return c, "client", nil
	case <-l.done:
		return nil, "", errors.New("closed")
	}
}
func (l *vfListener) Close() error         { close(l.done); return nil }
func (l *vfListener) ListenAddr() net.Addr { return &net.TCPAddr{} }

// vfLink connects a client with a server.
func vfLink(c *gorpc.Client, s *gorpc.Server) (done func()) {
	zzvf.Assert(s != nil && s.Handler != nil && c != nil, "proxy and client are made")
	if zzvf.Sym() {
		vfHandler, vfSent = s.Handler, 0
		return func() {}
	}
	l := &vfListener{make(chan io.ReadWriteCloser), make(chan bool)}
	s.Listener = l
	quiet := func(string, ...interface{}) {}
	s.LogError, c.LogError = quiet, quiet
	s.FlushDelay, c.FlushDelay = -1, -1
	c.Dial = func(string) (io.ReadWriteCloser, error) {
		a, b := net.Pipe()
		l.conns <- b
		return a, nil
	}
	if err := s.Start(); err != nil {
		panic(err)
	}
	c.Start()
	return func() { c.Stop(); s.Stop() }
}

type vfStats struct{ seen []gotsrpc.CallStats }

func (s *vfStats) handle(c *gotsrpc.CallStats) { s.seen = append(s.seen, *c) }

type vfGoPair struct {
	s     *vfService
	c     *ServiceGoRPCClient
	p     *ServiceGoRPCProxy
	stats *vfStats
	done  func()
}

func vfGoConnect() *vfGoPair {
	g := &vfGoPair{s: &vfService{}}
	g.p = NewServiceGoRPCProxy("addr", g.s, nil)
	g.c = NewServiceGoRPCClient("addr", nil)
	if zzvf.Bool("stats") {
		g.stats = &vfStats{}
		g.p.SetCallStatsHandler(g.stats.handle)
	}
	g.done = vfLink(g.c.Client, g.p.server)
	return g
}

func (g *vfGoPair) check(method string, err error) {
	zzvf.Assert(err == nil, "the call succeeds")
	zzvf.Assert(len(g.s.calls) == 1 && g.s.calls[0] == method, "the method the request names runs, once, and no other")
	if g.stats != nil {
		zzvf.Assert(len(g.stats.seen) == 1 && g.stats.seen[0].Service == "Service", "a request is reported once")
		zzvf.Assert(g.stats.seen[0].Func == "Service"+method+"Request", "a request is reported as what it was")
	}
}

// VF_C31_Scalars: numbers, strings and booleans.
func VF_C31_Scalars() {
	g := vfGoConnect()
	defer g.done()
	s := g.s
	switch zzvf.Choose("method", 6) {
	case 0:
		g.check("Nothing", g.c.Nothing())
	case 1:
		id := zzvf.Int64("id")
		s.ret.s = zzvf.Str("s", zzvf.Choose("slen", 3))
		got, err := g.c.Get(id)
		g.check("Get", err)
		zzvf.Assert(s.args[0].(int64) == id, "the service receives the arguments")
		zzvf.Assert(got == s.ret.s, "the client returns the results")
	case 2:
		from, to := zzvf.Int64("from"), zzvf.Int64("to")
		s.ret.n = zzvf.Int("total")
		for i := zzvf.Choose("n", 3); i > 0; i-- {
			s.ret.list = append(s.ret.list, zzvf.Int64("entry"))
		}
		list, total, err := g.c.GetAll(from, to)
		g.check("GetAll", err)
		zzvf.Assert(zzvf.And(s.args[0].(int64) == from, s.args[1].(int64) == to), "the service receives the arguments")
		zzvf.Assert(total == s.ret.n && len(list) == len(s.ret.list), "the client returns the results")
		for i, x := range list {
			zzvf.Assert(x == s.ret.list[i], "the client returns the results")
		}
	case 3:
		a, b := zzvf.Str("a", zzvf.Choose("alen", 3)), zzvf.Str("b", zzvf.Choose("blen", 3))
		s.ret.s, s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
		x, y, err := g.c.Swap(a, b)
		g.check("Swap", err)
		zzvf.Assert(zzvf.And(s.args[0].(string) == a, s.args[1].(string) == b), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == s.ret.s, y == s.ret.t), "the client returns the results")
	case 4:
		a, b, c := zzvf.Bool("a"), zzvf.Bool("b"), zzvf.Uint8("c")
		s.ret.a, s.ret.b, s.ret.c = zzvf.Bool("x"), zzvf.Bool("y"), zzvf.Uint8("z")
		x, y, z, err := g.c.Flags(a, b, c)
		g.check("Flags", err)
		zzvf.Assert(zzvf.And(s.args[0].(bool) == a, s.args[1].(bool) == b, s.args[2].(uint8) == c), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == s.ret.a, y == s.ret.b, z == s.ret.c), "the client returns the results")
	case 5:
		a, b, c := zzvf.Str("a", 1), zzvf.Str("b", 1), zzvf.Str("c", 1)
		s.ret.s, s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
		x, y, err := g.c.Names(a, b, c)
		g.check("Names", err)
		zzvf.Assert(zzvf.And(s.args[0].(string) == a, s.args[1].(string) == b, s.args[2].(string) == c), "the service receives the arguments")
		zzvf.Assert(zzvf.And(x == s.ret.s, y == s.ret.t), "the client returns the results")
	}
	zzvf.Reach("end")
}

// VF_C31_Structs: structs, pointers, lists, maps, bytes, times, errors, session methods.
func VF_C31_Structs() {
	g := vfGoConnect()
	defer g.done()
	s := g.s
	switch zzvf.Choose("method", 8) {
	case 0:
		a := Point{X: zzvf.Int64("a.x"), Label: zzvf.Str("a.label", 1), Next: vfFull(zzvf.Bool("a.next"))}
		d := vfFull(zzvf.Bool("d"))
		s.ret.q, s.ret.p = vfFull(zzvf.Bool("q")), Point{X: zzvf.Int64("p.x")}
		q, n, err := g.c.Move(a, d)
		g.check("Move", err)
		ga := s.args[0].(Point)
		zzvf.Assert(vfSamePoint(&ga, &a) && vfSamePoint(s.args[1].(*Point), d), "the service receives the arguments")
		zzvf.Assert(vfSamePoint(q, s.ret.q) && vfSamePoint(&n, &s.ret.p), "the client returns the results")
	case 1:
		m := map[string]int64{"k": zzvf.Int64("value")}
		kinds := []Kind{Kind(zzvf.Str("kind", 1)), "b"}
		s.ret.m = map[Kind]Level{"a": Level(zzvf.Int("level"))}
		s.ret.points = []*Point{vfFull(true)}
		rm, points, err := g.c.Index(m, kinds)
		g.check("Index", err)
		gm, gk := s.args[0].(map[string]int64), s.args[1].([]Kind)
		zzvf.Assert(len(gm) == 1 && gm["k"] == m["k"] && len(gk) == 2 && gk[0] == kinds[0] && gk[1] == "b", "the service receives the arguments")
		zzvf.Assert(len(rm) == 1 && rm["a"] == s.ret.m["a"] && len(points) == 1 && vfSamePoint(points[0], s.ret.points[0]), "the client returns the results")
	case 2:
		data := []byte(zzvf.Str("data", zzvf.Choose("datalen", 3)))
		s.ret.data, s.ret.f = []byte(zzvf.Str("result", 1)), 1.5
		got, f, err := g.c.Blob(data, -2.25)
		g.check("Blob", err)
		zzvf.Assert(string(s.args[0].([]byte)) == string(data) && s.args[1].(float64) == -2.25, "the service receives the arguments")
		zzvf.Assert(string(got) == string(s.ret.data) && f == 1.5, "the client returns the results")
	case 3:
		times := []time.Time{{}, time.UnixMilli(0), time.UnixMilli(1700000000123).Add(456789)}
		t := times[zzvf.Choose("t", 3)]
		s.ret.when = times[zzvf.Choose("u", 3)]
		u, err := g.c.When(t)
		g.check("When", err)
		zzvf.Assert(s.args[0].(time.Time).Equal(t) && u.Equal(s.ret.when), "arguments and results pass")
	case 4:
		n := zzvf.Int64("n")
		s.ret.i = zzvf.Int64("i")
		i, e, err := g.c.Try(n)
		g.check("Try", err)
		zzvf.Assert(s.args[0].(int64) == n && i == s.ret.i && e == nil, "arguments and results pass")
	case 5:
		n := zzvf.Int64("n")
		s.ret.s = zzvf.Str("s", 1)
		if zzvf.Bool("failure") {
			s.ret.failure = &Failure{Code: zzvf.Int("code"), Why: "why"}
		}
		t, f, err := g.c.TryFailure(n)
		g.check("TryFailure", err)
		zzvf.Assert(s.args[0].(int64) == n && t == s.ret.s && (f == nil) == (s.ret.failure == nil), "arguments and results pass")
		if f != nil {
			zzvf.Assert(f.Code == s.ret.failure.Code && f.Why == "why", "the client returns the results")
		}
	case 6:
		name := zzvf.Str("name", zzvf.Choose("namelen", 3))
		s.ret.s, s.ret.a = zzvf.Str("s", 1), zzvf.Bool("a")
		t, a, err := g.c.Session(name)
		g.check("Session", err)
		zzvf.Assert(zzvf.And(s.args[0].(string) == name, t == s.ret.s, a == s.ret.a), "arguments and results pass")
	case 7:
		s.ret.reason = Reason(zzvf.Str("reason", 1))
		r, err := g.c.TryReason(zzvf.Int64("n"))
		g.check("TryReason", err)
		zzvf.Assert(r == s.ret.reason, "the client returns the results")
	}
	zzvf.Reach("end")
}

func vfFull(set bool) *Point {
	if !set {
		return nil
	}
	return &Point{X: zzvf.Int64("x"), Label: "l"}
}

type vfUnknown struct{ ID int64 }

// VF_C31_Unknown: requests that name no method of the service.
func VF_C31_Unknown() {
	s := &vfService{}
	p := NewServiceGoRPCProxy("addr", s, nil)
	stats := &vfStats{}
	set := zzvf.Bool("stats")
	if set {
		p.SetCallStatsHandler(stats.handle)
	}
	var req interface{}
	same := false
	switch zzvf.Choose("request", 8) {
	case 0:
		req = OtherGetRequest{Id: "x"}
	case 1:
		req = OtherNothingRequest{}
	case 2:
		req = vfUnknown{ID: zzvf.Int64("id")}
	case 3:
		req = "ServiceGetRequest"
	case 4:
		req = zzvf.Int64("n")
	case 5:
		req = ServiceGetResponse{}
	case 6:
		type ServiceNothingRequests struct{}
		req = ServiceNothingRequests{}
	case 7:
		// as of another package
		type ServiceNothingRequest struct{}
		req, same = ServiceNothingRequest{}, true
	}
	res := p.server.Handler("client", req)
	zzvf.AssertKnown(len(s.calls) == 0, same, "C31-same-name", "an unknown request calls nothing")
	if !same {
		zzvf.Assert(res == nil, "an unknown request has no response")
	}
	if set {
		zzvf.Assert(len(stats.seen) == 1, "a request is reported once")
	}
	zzvf.Reach("end")
}

// VF_C31_Sequence: several requests to one proxy.
func VF_C31_Sequence() {
	g := vfGoConnect()
	defer g.done()
	n := 1 + zzvf.Choose("requests", 3)
	var want []string
	for i := 0; i < n; i++ {
		g.s.ret.s = zzvf.Str("s", 1)
		switch zzvf.Choose("method", 3) {
		case 0:
			id := zzvf.Int64("id")
			got, err := g.c.Get(id)
			want = append(want, "Get")
			zzvf.Assert(err == nil && got == g.s.ret.s && g.s.args[0].(int64) == id, "arguments and results pass")
		case 1:
			want = append(want, "Nothing")
			zzvf.Assert(g.c.Nothing() == nil, "the call succeeds")
		case 2:
			want = append(want, "Swap")
			x, _, err := g.c.Swap("a", "b")
			zzvf.Assert(err == nil && x == g.s.ret.s, "arguments and results pass")
		}
	}
	zzvf.Assert(len(g.s.calls) == n && (g.stats == nil || len(g.stats.seen) == n), "every request runs its method once and is reported once")
	for i, m := range want {
		zzvf.Assert(g.s.calls[i] == m, "every request runs its method")
		if g.stats != nil {
			zzvf.Assert(g.stats.seen[i].Func == "Service"+m+"Request", "a request is reported as what it was")
		}
	}
	zzvf.Reach("end")
}

// VF_C31_Struct: a service that is a struct.
func VF_C31_Struct() {
	o := &Other{log: &vfLog{n: zzvf.Int64("n")}}
	p := NewOtherGoRPCProxy("addr", o, nil)
	c := NewOtherGoRPCClient("addr", nil)
	defer vfLink(c.Client, p.server)()
	id := zzvf.Str("id", zzvf.Choose("idlen", 3))
	if zzvf.Bool("nothing") {
		zzvf.Assert(c.Nothing() == nil && len(o.log.calls) == 1 && o.log.calls[0] == "Other.Nothing", "the method the request names runs, once, and no other")
	} else {
		got, err := c.Get(id)
		zzvf.Assert(err == nil && len(o.log.calls) == 1 && o.log.calls[0] == "Other.Get", "the method the request names runs, once, and no other")
		zzvf.Assert(o.log.args[0].(string) == id && got == o.log.n, "arguments and results pass")
	}
	zzvf.Reach("end")
}
