package zzvfsvc

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfLog records the calls of service methods.
type vfLog struct {
	calls []string
	args  []interface{}
	n     int64
}

func (l *vfLog) call(name string, args ...interface{}) {
	l.calls = append(l.calls, name)
	l.args = args
}

// vfRets are the values service methods return.
type vfRets struct {
	i, j      int64
	n         int
	s, t      string
	a, b      bool
	c         uint8
	list      []int64
	p         Point
	q         *Point
	m         map[Kind]Level
	points    []*Point
	data      []byte
	f         float64
	when      time.Time
	err       error
	failure   *Failure
	reason    Reason
	session   int  // status a session method sends, 0 for none
	body      bool // whether a session method answers itself
	sawReq    *http.Request
	sawWriter http.ResponseWriter
}

type vfService struct {
	vfLog
	ret vfRets
}

func (s *vfService) Nothing() { s.call("Nothing") }
func (s *vfService) Get(id int64) string {
	s.call("Get", id)
	return s.ret.s
}
func (s *vfService) GetAll(from int64, to int64) (list []int64, total int) {
	s.call("GetAll", from, to)
	return s.ret.list, s.ret.n
}
func (s *vfService) Swap(a string, b string) (string, string) {
	s.call("Swap", a, b)
	return s.ret.s, s.ret.t
}
func (s *vfService) Flags(a, b bool, c uint8) (x, y bool, z uint8) {
	s.call("Flags", a, b, c)
	return s.ret.a, s.ret.b, s.ret.c
}
func (s *vfService) Move(p Point, d *Point) (moved *Point, n Point) {
	s.call("Move", p, d)
	return s.ret.q, s.ret.p
}
func (s *vfService) Index(m map[string]int64, kinds []Kind) (map[Kind]Level, []*Point) {
	s.call("Index", m, kinds)
	return s.ret.m, s.ret.points
}
func (s *vfService) Blob(data []byte, f float64) ([]byte, float64) {
	s.call("Blob", data, f)
	return s.ret.data, s.ret.f
}
func (s *vfService) When(t time.Time) time.Time {
	s.call("When", t)
	return s.ret.when
}
func (s *vfService) Try(n int64) (int64, error) {
	s.call("Try", n)
	return s.ret.i, s.ret.err
}
func (s *vfService) TryFailure(n int64) (t string, failure *Failure) {
	s.call("TryFailure", n)
	return s.ret.s, s.ret.failure
}
func (s *vfService) TryReason(n int64) (reason Reason) {
	s.call("TryReason", n)
	return s.ret.reason
}
func (s *vfService) Session(w http.ResponseWriter, r *http.Request, name string) (string, bool) {
	s.call("Session", name)
	s.session(w, r)
	return s.ret.s, s.ret.a
}
func (s *vfService) SessionOnly(w http.ResponseWriter, r *http.Request) {
	s.call("SessionOnly")
	s.session(w, r)
}
func (s *vfService) session(w http.ResponseWriter, r *http.Request) {
	s.ret.sawReq, s.ret.sawWriter = r, w
	if s.ret.session != 0 {
		w.WriteHeader(s.ret.session)
	}
}
func (s *vfService) Names(args string, rets string, ctx string) (reply string, response string) {
	s.call("Names", args, rets, ctx)
	return s.ret.s, s.ret.t
}

// vfRW records what a client would receive.
type vfRW struct {
	h      http.Header
	sent   http.Header
	status int
	body   []byte
}

func newVFRW() *vfRW { return &vfRW{h: http.Header{}} }

func (w *vfRW) Header() http.Header { return w.h }
func (w *vfRW) WriteHeader(code int) {
	if w.status == 0 {
		w.status = code
		w.sent = w.h.Clone()
	}
}
func (w *vfRW) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// done is what net/http does when the handler returns.
func (w *vfRW) done() {
	if w.status == 0 {
		w.WriteHeader(200)
	}
}

type vfRT func(r *http.Request) (*http.Response, error)

func (f vfRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// vfServe hands a request to a handler as a server would.
func vfServe(h http.Handler, method, path, contentType string, body []byte) *vfRW {
	hd := http.Header{}
	if contentType != "" {
		hd["Content-Type"] = []string{contentType}
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: hd, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
	w := newVFRW()
	h.ServeHTTP(w, r.WithContext(context.Background()))
	w.done()
	return w
}

// vfWire is a transport that serves every request with a handler and counts.
func vfWire(h http.Handler, n *int) *http.Client {
	return &http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		*n++
		var body []byte
		if r.Body != nil {
			body, _ = io.ReadAll(r.Body)
		}
		s := &http.Request{Method: r.Method, URL: &url.URL{Path: r.URL.Path}, Header: r.Header.Clone(), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: r.ContentLength}
		w := newVFRW()
		h.ServeHTTP(w, s.WithContext(context.Background()))
		w.done()
		return &http.Response{StatusCode: w.status, Header: w.sent, Body: io.NopCloser(bytes.NewReader(w.body))}, nil
	})}
}

func vfEncoding(l string) gotsrpc.ClientEncoding {
	if zzvf.Bool(l) {
		return gotsrpc.EncodingJson
	}
	return gotsrpc.EncodingMsgpack
}

const (
	vfMsgpackType = "application/msgpack; charset=utf-8"
	vfJSONType    = "application/json; charset=utf-8"
)

func vfPoint(l string, depth int) *Point {
	if !zzvf.Bool(l + " set") {
		return nil
	}
	p := &Point{X: zzvf.Int64(l + ".x"), Label: zzvf.Str(l+".label", zzvf.Choose(l+".labellen", 2))}
	if depth > 0 {
		p.Next = vfPoint(l+".next", depth-1)
	}
	return p
}

func vfSamePoint(a, b *Point) bool {
	for a != nil && b != nil {
		if !zzvf.And(a.X == b.X, a.Label == b.Label) {
			return false
		}
		a, b = a.Next, b.Next
	}
	return a == nil && b == nil
}

// vfArgs are the arguments a client sends, encoded by the client.
func vfArgs(enc gotsrpc.ClientEncoding, args ...interface{}) (body []byte) {
	c := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		body, _ = io.ReadAll(r.Body)
		return nil, errors.New("vf: sent")
	})})
	c.SetClientEncoding(enc)
	_ = c.Call(context.Background(), "http://h", "/e", "m", args, nil)
	return
}
