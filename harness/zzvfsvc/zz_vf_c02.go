package zzvfsvc

//vf:bound the proxies of a generated service of 15 methods and of a struct; verbs: every string of up to 7 bytes, or one of nine; paths: a slash and every string of up to 10 bytes (thorough 16), and for each method its path, with up to 2 bytes more in front, between, behind or instead; bodies: arguments, none, garbage, arguments of other types, cut off, reading fails; content types msgpack, JSON, none
//vf:outside paths that do not start with a slash (no HTTP request has one)
//vf:stub codec: structural model; http: requests and writers are plain values

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

var vfMethods = []string{"Nothing", "Get", "GetAll", "Swap", "Flags", "Move", "Index", "Blob", "When", "Try", "TryFailure", "TryReason", "Session", "SessionOnly", "Names"}

func vfMethodOf(path, endpoint string) string {
	for _, m := range vfMethods {
		if path == endpoint+"/"+m {
			return m
		}
	}
	return ""
}

func vfEndpoint() string {
	return []string{"/svc", "", "/a/svc", "/svc/svc"}[zzvf.Choose("endpoint", 4)]
}

// VF_C02_Verbs: only POST requests run methods.
func VF_C02_Verbs() {
	s := &vfService{}
	p := NewDefaultServiceGoTSRPCProxy(s)
	verb := ""
	if zzvf.Bool("known verb") {
		verb = []string{"GET", "POST", "OPTIONS", "HEAD", "PUT", "DELETE", "PATCH", "TRACE", "CONNECT"}[zzvf.Choose("verb", 9)]
	} else {
		verb = zzvf.Str("verb", zzvf.Choose("verblen", 8))
	}
	path := []string{"/svc/Nothing", "/svc/Get", "/svc/SessionOnly", "/svc", "/other"}[zzvf.Choose("path", 5)]
	w := vfServe(p, verb, path, vfJSONType, []byte(`[1]`))
	switch {
	case verb == "OPTIONS":
		zzvf.Assert(len(s.calls) == 0, "only POST requests run methods")
		zzvf.Assert(w.status == 200 && len(w.body) == 0, "OPTIONS is answered with an empty 200")
	case verb != "POST":
		zzvf.Assert(len(s.calls) == 0, "only POST requests run methods")
		zzvf.Assert(w.status == http.StatusMethodNotAllowed, "other verbs are answered with 405")
	default:
		m := vfMethodOf(path, "/svc")
		zzvf.Assert(len(s.calls) <= 1 && (m == "") == (len(s.calls) == 0), "a POST of a method runs it")
	}
	zzvf.Reach("end")
}

// VF_C02_Paths: a method runs only if the path names it exactly.
func VF_C02_Paths() {
	s := &vfService{}
	endpoint := vfEndpoint()
	p := NewServiceGoTSRPCProxy(s, endpoint)
	path := "/" + zzvf.Str("path", zzvf.Choose("pathlen", zzvf.Bound("path", 11, 17)))
	w := vfServe(p, "POST", path, vfJSONType, []byte(`[]`))
	vfPathOutcome(s, w, path, endpoint)
}

// VF_C02_NearPaths: paths that are nearly those of methods.
func VF_C02_NearPaths() {
	s := &vfService{}
	endpoint := vfEndpoint()
	p := NewServiceGoTSRPCProxy(s, endpoint)
	m := vfMethods[zzvf.Choose("method", len(vfMethods))]
	x := zzvf.Str("x", zzvf.Choose("xlen", 3))
	path := ""
	switch zzvf.Choose("where", 6) {
	case 0:
		path = "/" + x + endpoint + "/" + m
	case 1:
		path = endpoint + "/" + x + m
	case 2:
		path = endpoint + "/" + m + x
	case 3:
		path = endpoint + "/" + x + "/" + m
	case 4:
		path = endpoint + "/" + m[:len(m)-1] + x
	case 5:
		path = endpoint + "/" + x + m[1:]
	}
	w := vfServe(p, "POST", path, vfJSONType, []byte(`[]`))
	vfPathOutcome(s, w, path, endpoint)
}

func vfPathOutcome(s *vfService, w *vfRW, path, endpoint string) {
	if m := vfMethodOf(path, endpoint); m != "" {
		zzvf.Assert(len(s.calls) == 1 && s.calls[0] == m, "the method of the path runs, once, and no other")
		zzvf.Assert(w.status == 200, "the call is answered")
		zzvf.Reach("method")
	} else {
		zzvf.Assert(len(s.calls) == 0, "no method runs for another path")
		zzvf.Assert(w.status == http.StatusNotFound, "unknown names are answered with 404")
		zzvf.Reach("none")
	}
}

type vfFailingBody struct{ r io.Reader }

func (b vfFailingBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("vf: read failed")
	}
	return n, err
}

func (b vfFailingBody) Close() error { return nil }

// VF_C02_Arguments: undecodable arguments leave the service alone.
func VF_C02_Arguments() {
	s := &vfService{}
	p := NewDefaultServiceGoTSRPCProxy(s)
	enc := vfEncoding("json body")
	ct := []string{vfMsgpackType, vfJSONType, ""}[zzvf.Choose("type", 3)]
	same := (enc == gotsrpc.EncodingMsgpack) == (ct == vfMsgpackType)
	m := []string{"Get", "Swap", "Flags", "Move", "Index", "Session", "Try"}[zzvf.Choose("method", 7)]
	var args []interface{}
	kind := zzvf.Choose("body", 5)
	switch m {
	case "Get", "Try":
		args = []interface{}{int64(7)}
		if kind == 1 {
			args = []interface{}{map[string]interface{}{"a": true}}
		}
	case "Swap":
		args = []interface{}{"a", "b"}
		if kind == 1 {
			args = []interface{}{"a", []string{"b"}}
		}
	case "Flags":
		args = []interface{}{true, false, uint8(3)}
		if kind == 1 {
			args = []interface{}{true, false, int64(256)}
		}
	case "Move":
		args = []interface{}{Point{X: 1}, &Point{X: 2}}
		if kind == 1 {
			args = []interface{}{Point{X: 1}, true}
		}
	case "Index":
		args = []interface{}{map[string]int64{"a": 1}, []Kind{"k"}}
		if kind == 1 {
			args = []interface{}{map[string]interface{}{"a": []string{"b"}}, []Kind{"k"}}
		}
	case "Session":
		args = []interface{}{"name"}
		if kind == 1 {
			args = []interface{}{[]string{"name"}}
		}
	}
	body := vfArgs(enc, args...)
	good := same
	var rd io.ReadCloser
	switch kind {
	case 0:
	case 1:
		good = false
	case 2:
		body, good = nil, false
	case 3:
		body, good = body[:len(body)-1], false
	case 4:
		body, good = []byte{0xc1, '{', 1}, false
	}
	rd = io.NopCloser(bytes.NewReader(body))
	if kind == 3 && zzvf.Bool("read fails") {
		rd = vfFailingBody{bytes.NewReader(body)}
	}
	// garbage that happens to be arguments in the other encoding is not looked for
	hd := http.Header{}
	if ct != "" {
		hd["Content-Type"] = []string{ct}
	}
	r := &http.Request{Method: "POST", URL: &url.URL{Path: "/svc/" + m}, Header: hd, Body: rd, ContentLength: int64(len(body))}
	w := newVFRW()
	p.ServeHTTP(w, r.WithContext(context.Background()))
	w.done()
	if good {
		zzvf.Assert(len(s.calls) == 1 && s.calls[0] == m && w.status == 200, "a well-formed call runs its method")
		zzvf.Reach("good")
	} else {
		zzvf.Assert(len(s.calls) == 0, "undecodable arguments leave the service alone")
		zzvf.Assert(w.status == http.StatusBadRequest, "undecodable arguments are answered with 400")
		zzvf.Reach("bad")
	}
}

// VF_C02_Struct: the proxy of a struct.
func VF_C02_Struct() {
	o := &Other{log: &vfLog{}}
	p := NewDefaultOtherGoTSRPCProxy(o)
	verb := []string{"POST", "GET", "OPTIONS"}[zzvf.Choose("verb", 3)]
	path := "/other/" + zzvf.Str("name", zzvf.Choose("namelen", 8))
	body := []string{`["id"]`, `[`, ``, `[{}]`}[zzvf.Choose("body", 4)]
	w := vfServe(p, verb, path, "", []byte(body))
	switch {
	case verb == "OPTIONS":
		zzvf.Assert(len(o.log.calls) == 0 && w.status == 200 && len(w.body) == 0, "OPTIONS is answered with an empty 200")
	case verb != "POST":
		zzvf.Assert(len(o.log.calls) == 0 && w.status == 405, "other verbs are answered with 405")
	case path == "/other/Nothing":
		zzvf.Assert(len(o.log.calls) == 1 && o.log.calls[0] == "Other.Nothing", "the method of the path runs, once, and no other")
	case path == "/other/Get" && body == `["id"]`:
		zzvf.Assert(len(o.log.calls) == 1 && o.log.calls[0] == "Other.Get" && o.log.args[0].(string) == "id", "the method of the path runs, once, and no other")
	case path == "/other/Get":
		zzvf.Assert(len(o.log.calls) == 0 && w.status == 400, "undecodable arguments leave the service alone")
	default:
		zzvf.Assert(len(o.log.calls) == 0 && w.status == 404, "unknown names are answered with 404")
	}
	zzvf.Reach("end")
}
