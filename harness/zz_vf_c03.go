package gotsrpc

//vf:bound base url out of 3, endpoint and method of up to 2 and 1..2 bytes over letters, digits, '-', '_', '/' ; up to 2 default header entries whose name is any of 8 spellings (among them those the client sets itself) and whose value is up to 1 byte; up to 3 arguments (any int64, any string of up to 3 bytes, any bool); both encodings; the three dimensions url, headers and arguments are varied one at a time; clients from both constructors, with an http client given, replaced, or made by the default factory, encodings and default headers set up to twice, up to 2 calls; every final status but redirections, 5 kinds of failures to send, failures to read the response; contexts that are cancelled meanwhile
//vf:outside urls that need escaping, redirects
//vf:stub transport: an http.RoundTripper that records the request; codec: structural model

import (
	"context"
	"io"
	"net"
	"net/http"
	"syscall"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfCtxKey struct{}

var vfURLs = []string{"http://h", "https://a.b:81", "http://h/base"}

var vfHeaderNames = []string{"X-A", "X-B", "Content-Type", "Accept", HeaderServiceToService, "Authorization", "x-a", "accept"}

type vfCall03 struct {
	url, endpoint, method string
	enc                   ClientEncoding
	defaults              http.Header
	args                  []interface{}
}

// vfCall03Do makes the call and checks what holds for all of them.
func (x vfCall03) do() *http.Request {
	var seen []*http.Request
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		seen = append(seen, r)
		return &http.Response{StatusCode: 204, Header: http.Header{}, Body: newVFBody(nil)}, nil
	})})
	c.SetClientEncoding(x.enc)
	c.SetDefaultHeaders(x.defaults)
	ctx := context.WithValue(context.Background(), vfCtxKey{}, 7)
	_ = c.Call(ctx, x.url, x.endpoint, x.method, x.args, nil)

	zzvf.Assert(len(seen) == 1, "a call sends exactly one request")
	r := seen[0]
	zzvf.Assert(r.Method == "POST", "a call is a POST")
	zzvf.Assert(r.URL.String() == x.url+x.endpoint+"/"+x.method, "a call goes to <url><endpoint>/<method>")
	zzvf.Assert(r.Context().Value(vfCtxKey{}) == 7, "a call runs in the caller's context")
	want := vfTypeOf(x.enc)
	for _, k := range []string{"Content-Type", "Accept"} {
		v := r.Header[k]
		zzvf.Assert(len(v) == 1 && v[0] == want, k+" names the configured encoding")
	}
	v := r.Header[HeaderServiceToService]
	zzvf.Assert(len(v) == 1 && v[0] == "true", "the service to service marker is sent")
	zzvf.Assert(r.Header.Get("Content-Encoding") == "", "the body is not compressed")
	return r
}

// VF_C03_URL: where a call goes.
func VF_C03_URL() {
	const alpha = "aZ09-_/"
	x := vfCall03{url: vfURLs[zzvf.Choose("url", len(vfURLs))], enc: vfEncoding("json")}
	x.endpoint = "/" + zzvf.StrOf("endpoint", zzvf.Choose("endpointlen", zzvf.Bound("endpoint length", 3, 5)), alpha)
	x.method = zzvf.StrOf("method", 1+zzvf.Choose("methodlen", zzvf.Bound("method length", 2, 4)), "aZ09_")
	r := x.do()
	b, err := io.ReadAll(r.Body)
	zzvf.Assert(err == nil && len(b) == 0, "without arguments the body is empty")
	zzvf.Reach("url")
}

// VF_C03_Headers: what a call says about itself.
func VF_C03_Headers() {
	x := vfCall03{url: "http://h", endpoint: "/e", method: "m", enc: vfEncoding("json"), defaults: http.Header{}}
	n := zzvf.Choose("headers", 3)
	for i := 0; i < n; i++ {
		k := vfHeaderNames[zzvf.Choose("name", len(vfHeaderNames))]
		// values the transport accepts
		x.defaults[k] = append(x.defaults[k], zzvf.StrOf("value", zzvf.Choose("valuelen", 2), "v ;=1"))
	}
	before := x.defaults.Clone()
	r := x.do()
	for k, vs := range before {
		switch k {
		case "Content-Type", "Accept", HeaderServiceToService:
			continue
		}
		got := r.Header[k]
		zzvf.Assert(len(got) == len(vs), "every default header is sent")
		for i := range vs {
			zzvf.Assert(got[i] == vs[i], "every default header is sent with its value")
		}
		zzvf.Reach("default header")
	}
}

// VF_C03_Args: what a call carries.
func VF_C03_Args() {
	x := vfCall03{url: "http://h", endpoint: "/e", method: "m", enc: vfEncoding("json")}
	if zzvf.Bool("default headers") {
		x.defaults = http.Header{"Accept": {"x"}, "Content-Length": {"1"}}
	}
	if zzvf.Bool("nil") {
		// nil is an argument, too
		x.args = []interface{}{nil, nil}[:1+zzvf.Choose("args", 2)]
		r := x.do()
		var g0 *int64
		var g1 []string
		g1 = nil
		dst := []interface{}{&g0, &g1}[:len(x.args)]
		zzvf.Assert(LoadArgs(&dst, nil, r) == nil && g0 == nil && len(g1) == 0, "the body is the arguments in the configured encoding")
		zzvf.Reach("nil")
		return
	}
	n := 1 + zzvf.Choose("args", 3)
	a0, a1, a2 := zzvf.Int64("a0"), "", false
	x.args = append(x.args, a0)
	if n > 1 {
		a1 = vfText("a1", 4)
		x.args = append(x.args, a1)
	}
	if n > 2 {
		a2 = zzvf.Bool("a2")
		x.args = append(x.args, a2)
	}
	r := x.do()
	var g0 int64
	var g1 string
	var g2 bool
	dst := []interface{}{&g0, &g1, &g2}[:n]
	var stats CallStats
	size := r.ContentLength
	zzvf.Assert(LoadArgs(&dst, &stats, r) == nil, "the body is the arguments in the configured encoding")
	zzvf.Assert(g0 == a0 && g1 == a1 && g2 == a2, "the body carries the arguments")
	zzvf.Assert(int64(stats.RequestSize) == size && size > 0, "the content length is announced")
	zzvf.Reach("args")
}

type vfNetErr struct{ timeout bool }

func (e vfNetErr) Error() string   { return "vf: net" }
func (e vfNetErr) Timeout() bool   { return e.timeout }
func (e vfNetErr) Temporary() bool { return true }

// VF_C03_Once: whatever comes back, a call is one request, which ends with the caller's context.
func VF_C03_Once() {
	status := zzvf.IntRange("status", 200, 599)
	zzvf.Assume(zzvf.And(status != 301, status != 302, status != 303, status != 307, status != 308))
	var fail error
	body := newVFBody([]byte("x"))
	h := http.Header{}
	switch zzvf.Choose("fails", 9) {
	case 0:
		fail = io.EOF
	case 1:
		fail = io.ErrUnexpectedEOF
	case 2:
		fail = vfNetErr{zzvf.Bool("timeout")}
	case 3:
		fail = &net.OpError{Op: "read", Err: syscall.ECONNRESET}
	case 4:
		fail = http.ErrServerClosed
	case 5:
		body.err = io.ErrUnexpectedEOF
	case 6:
		body.err = vfNetErr{true}
	case 7:
		h.Set("Retry-After", "0")
	}
	sent := 0
	ctx := context.WithValue(context.Background(), vfCtxKey{}, 7)
	cancel := func() {}
	if zzvf.Bool("cancelable") {
		ctx, cancel = context.WithCancel(ctx)
	}
	ends := zzvf.Bool("canceled")
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		sent++
		zzvf.Assert(r.Context().Value(vfCtxKey{}) == 7 && r.Context().Err() == nil, "a call runs in the caller's context")
		if ends {
			cancel()
			zzvf.Assert(r.Context().Err() == ctx.Err(), "a call ends with the caller's context")
		}
		if fail != nil {
			return nil, fail
		}
		return &http.Response{StatusCode: status, Header: h, Body: body}, nil
	})})
	c.SetClientEncoding(vfEncoding("json"))
	var args []interface{}
	if zzvf.Bool("args") {
		args = []interface{}{int64(1)}
	}
	_ = c.Call(ctx, "http://h", "/e", "m", args, nil)
	cancel()
	zzvf.Assert(sent == 1, "a call sends exactly one request")
	zzvf.Reach("once")
}

// VF_C03_Clients: a call goes through the http client, in the encoding and with the default headers the client has at
// the time, however it came by them.
func VF_C03_Clients() {
	type sent struct {
		by int
		r  *http.Request
	}
	var seen []sent
	hc := func(by int) *http.Client {
		return &http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
			seen = append(seen, sent{by, r})
			return &http.Response{StatusCode: 204, Header: http.Header{}, Body: newVFBody(nil)}, nil
		})}
	}
	SetDefaultHttpClientFactory(func() *http.Client { return hc(0) })
	defer SetDefaultHttpClientFactory(func() *http.Client { return &http.Client{} })
	var c Client
	by := 0
	switch zzvf.Choose("constructor", 3) {
	case 0:
		c = NewClient()
	case 1:
		c = NewClientWithHttpClient(nil)
	case 2:
		c = NewClientWithHttpClient(hc(1))
		by = 1
	}
	enc := EncodingMsgpack
	value := ""
	for i := 0; i < 2; i++ {
		if zzvf.Bool("set http client") {
			by = 2 + i
			c.SetTransportHttpClient(hc(by))
		}
		if zzvf.Bool("set encoding") {
			enc = vfEncoding("json")
			c.SetClientEncoding(enc)
		}
		if zzvf.Bool("set headers") {
			value = zzvf.StrOf("value", 1, "ab")
			c.SetDefaultHeaders(http.Header{"X-A": {value}})
		}
		a := zzvf.Int64("a")
		_ = c.Call(context.Background(), "http://h", "/e", "m", []interface{}{a}, nil)
		zzvf.Assert(len(seen) == i+1, "a call sends exactly one request")
		s := seen[i]
		zzvf.Assert(s.by == by, "a call goes through the http client of the client")
		zzvf.Assert(s.r.Header.Get("Content-Type") == vfTypeOf(enc) && s.r.Header.Get("Accept") == vfTypeOf(enc), "a call names the encoding of the client")
		zzvf.Assert(s.r.Header.Get("X-A") == value, "a call has the default headers of the client")
		zzvf.Assert(s.r.Header.Get(HeaderServiceToService) == "true", "the service to service marker is sent")
		var got int64
		zzvf.Assert(LoadArgs(&[]interface{}{&got}, nil, s.r) == nil && got == a, "the body carries the arguments")
	}
	zzvf.Reach("clients")
}
