package gotsrpc

//vf:bound every status code 100..999, content types msgpack, JSON, none and any other of up to 2 bytes, bodies: valid, garbage, empty, cut by a read failure; one or no reply variable; a reply variable that cannot take the reply; both encodings
//vf:stub transport: an http.RoundTripper; codec: structural model

import (
	"context"
	"net/http"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C05_Closed: whatever happens after the response arrived, its body is closed on return.
func VF_C05_Closed() {
	enc := vfEncoding("json")
	status := zzvf.IntRange("status", 100, 999)
	ct := ""
	switch zzvf.Choose("content type", 4) {
	case 0:
		ct = vfMsgpackType
	case 1:
		ct = vfJSONType
	case 2:
		ct = zzvf.Str("type", zzvf.Choose("typelen", 3))
	}
	var body []byte
	switch zzvf.Choose("body", 4) {
	case 0:
		rw := newVFRW()
		_ = Reply([]interface{}{int64(1)}, nil, vfPost("POST", "/e/m", vfTypeOf(vfEncoding("body json")), nil), rw)
		body = rw.body
	case 1:
		body = []byte{0xc1, 0x01}
	case 2:
		rw := newVFRW()
		_ = Reply([]interface{}{errVFWrite}, nil, vfPost("POST", "/e/m", vfTypeOf(vfEncoding("body json")), nil), rw)
		body = rw.body
	}
	b := newVFBody(body)
	if zzvf.Bool("read failure") {
		b.err = errVFWrite
	}
	var handed bool
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		handed = true
		h := http.Header{}
		if ct != "" {
			h["Content-Type"] = []string{ct}
		}
		return &http.Response{StatusCode: status, Header: h, Body: b}, nil
	})})
	c.SetClientEncoding(enc)
	var reply []interface{}
	var n int64
	var e error
	var s string
	switch zzvf.Choose("reply", 4) {
	case 0:
		reply = []interface{}{&n}
	case 1:
		reply = []interface{}{&e}
	case 2:
		reply = []interface{}{&s}
	}
	func() {
		defer func() {
			if recover() != nil {
				zzvf.Reach("panic")
			}
		}()
		_ = c.Call(context.Background(), "http://h", "/e", "m", nil, reply)
	}()
	zzvf.Assert(handed, "the call reaches the transport")
	zzvf.Assert(b.closed > 0, "the response body is closed when the call returns")
	zzvf.Reach("end")
}
