package gotsrpc

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// vfRW records what a client would receive.
type vfRW struct {
	h       http.Header
	sent    http.Header // headers when the status went out
	status  int
	body    []byte
	writes  int
	heads   int
	failing bool
}

var errVFWrite = errors.New("vf: write failed")

func newVFRW() *vfRW { return &vfRW{h: http.Header{}} }

func (w *vfRW) Header() http.Header { return w.h }

func (w *vfRW) WriteHeader(code int) {
	w.heads++
	if w.status != 0 {
		return
	}
	if code >= 100 && code < 200 && code != 101 {
		return
	}
	w.status = code
	w.sent = w.h.Clone()
}

func (w *vfRW) Write(b []byte) (int, error) {
	w.writes++
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if w.failing {
		return 0, errVFWrite
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// final is the status the client sees.
func (w *vfRW) final() int {
	if w.status == 0 {
		return 200
	}
	return w.status
}

// vfBody is a response or request body.
type vfBody struct {
	r      *bytes.Reader
	err    error // returned instead of EOF
	closed int
	eof    bool
}

func newVFBody(b []byte) *vfBody { return &vfBody{r: bytes.NewReader(b)} }

func (b *vfBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		return n, b.err
	}
	return n, err
}

func (b *vfBody) Close() error { b.closed++; return nil }

// vfRT is a transport made of a function.
type vfRT func(r *http.Request) (*http.Response, error)

func (f vfRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// vfPost builds the request a server would see.
func vfPost(method, path, contentType string, body []byte) *http.Request {
	h := http.Header{}
	if contentType != "" {
		h["Content-Type"] = []string{contentType}
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: h, Body: newVFBody(body), ContentLength: int64(len(body))}
	return r.WithContext(context.Background())
}

func vfEncoding(l string) ClientEncoding {
	if zzvf.Bool(l) {
		return EncodingJson
	}
	return EncodingMsgpack
}

const (
	vfMsgpackType = "application/msgpack; charset=utf-8"
	vfJSONType    = "application/json; charset=utf-8"
)

func vfTypeOf(e ClientEncoding) string {
	if e == EncodingJson {
		return vfJSONType
	}
	return vfMsgpackType
}

// vfSquash drops white space.
func vfSquash(s string) string {
	return strings.Join(strings.Fields(s), "")
}

// vfReceiveAs is vfReceive with an encoding.
func vfReceiveAs(enc ClientEncoding, rw *vfRW, reply []interface{}) error {
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: rw.final(), Header: rw.sent, Body: newVFBody(rw.body)}, nil
	})})
	c.SetClientEncoding(enc)
	return c.Call(context.Background(), "http://h", "/e", "m", nil, reply)
}

// vfReceive is what a client makes of a reply.
func vfReceive(rw *vfRW, reply []interface{}) error {
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: rw.final(), Header: rw.sent, Body: newVFBody(rw.body)}, nil
	})})
	return c.Call(context.Background(), "http://h", "/e", "m", nil, reply)
}

// vfText is any text of fewer than n bytes, or one of size bytes with any first and last two.
func vfTextOf(label string, n, size int) string {
	l := zzvf.Choose(label+" len", n+1)
	if l < n {
		return zzvf.Str(label, l)
	}
	return zzvf.Str(label+" head", 2) + strings.Repeat("x", size-4) + zzvf.Str(label+" tail", 2)
}

func vfText(label string, n int) string { return vfTextOf(label, n, 4200) }

// vfArgsBody is the body a client sends for the arguments.
func vfArgsBody(enc ClientEncoding, args []interface{}) []byte {
	var body []byte
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		buf := new(bytes.Buffer)
		_, _ = io.Copy(buf, r.Body)
		body = buf.Bytes()
		return nil, errVFWrite
	})})
	c.SetClientEncoding(enc)
	_ = c.Call(context.Background(), "http://h", "/e", "m", args, nil)
	return body
}
