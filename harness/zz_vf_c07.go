package gotsrpc

//vf:bound request Content-Type: both exact names, none, any text of up to 2 bytes, and either name with any one byte replaced, appended or removed; other headers a client may send (Accept, Accept-Encoding, User-Agent, the service to service marker); arguments and replies of up to 3 values (any int64, any string of up to 3 bytes, any bool, nil, a slice of two strings)
//vf:outside media types with other parameters than the client sends are only checked for consistency of reading, writing and labelling
//vf:stub codec: structural model; the bytes of the body are opaque, their number is compared with the announced one

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

func vfContentType() (ct string, enc ClientEncoding, known bool) {
	switch zzvf.Choose("content type", 6) {
	case 0:
		return vfMsgpackType, EncodingMsgpack, true
	case 1:
		return vfJSONType, EncodingJson, true
	case 2:
		return "", EncodingJson, true
	case 3:
		return zzvf.Str("type", 1+zzvf.Choose("typelen", 2)), EncodingJson, true
	case 4:
		ct = []string{"application/json", "text/plain", "text/html; charset=utf-8", "application/msgpac", "msg", "*/*", "application/octet-stream"}[zzvf.Choose("other", 7)]
		return ct, EncodingJson, true
	default:
		// close to the msgpack name: reading and writing have to agree
		ct = []string{"application/msgpack", "application/msgpack; charset=UTF-8", "Application/Msgpack; charset=utf-8", "application/msgpack;charset=utf-8", vfMsgpackType + " "}[zzvf.Choose("near", 5)]
		return ct, EncodingJson, false
	}
}

// vfOthers07 adds headers that do not say what the encoding of the request is.
func vfOthers07(r *http.Request) {
	switch zzvf.Choose("other headers", 6) {
	case 1:
		r.Header["Accept"] = []string{vfMsgpackType}
	case 2:
		r.Header["Accept"] = []string{vfJSONType}
	case 3:
		r.Header["Accept"] = []string{"application/json, text/plain, */*"}
		r.Header["Accept-Encoding"] = []string{"gzip, deflate, br"}
	case 4:
		r.Header[HeaderServiceToService] = []string{"true"}
	case 5:
		r.Header["User-Agent"] = []string{"Mozilla/5.0"}
		r.Header["Accept-Charset"] = []string{"iso-8859-1"}
	}
}

// VF_C07_Encoding: arguments are read and the reply is written in the encoding of the request.
func VF_C07_Encoding() {
	ct, enc, known := vfContentType()
	if !known {
		// whichever it is taken for, it is taken for one thing
		enc = vfEncoding("taken for json")
	}
	a, b, s := zzvf.Int64("a"), zzvf.Bool("b"), vfText("s", zzvf.Bound("length", 3, 5))
	body := vfArgsBody(enc, []interface{}{a, s, b})
	r := vfPost("POST", "/e/m", ct, body)
	vfOthers07(r)
	var ga int64
	var gs string
	var gb bool
	stats := &CallStats{}
	loaded := false
	func() {
		defer func() { _ = recover() }()
		loaded = LoadArgs(&[]interface{}{&ga, &gs, &gb}, stats, r) == nil
	}()
	if known {
		zzvf.Assert(loaded, "the arguments are read in the encoding of the request")
	}
	if loaded {
		zzvf.Assert(ga == a && gs == s && gb == b, "the arguments are the ones that were sent")
		zzvf.Reach("loaded")
	} else {
		zzvf.Reach("not loaded")
	}
	rw := newVFRW()
	var e1 error
	rets := []interface{}{a, s, b, []string{s, "x"}, e1}
	zzvf.Assert(Reply(rets, stats, r, rw) == nil, "the reply is sent")
	label := rw.sent["Content-Type"]
	zzvf.Assert(len(label) == 1, "the reply is labelled")
	if known || loaded {
		zzvf.Assert(label[0] == vfTypeOf(enc), "the label is the encoding of the request")
	} else {
		zzvf.Assert(label[0] != vfTypeOf(enc), "the arguments are read in the encoding the reply is written in")
	}
	cl := rw.sent["Content-Length"]
	zzvf.Assert(len(cl) == 1 && cl[0] == strconv.Itoa(len(rw.body)), "the content length is the length of the body")
	zzvf.Assert(rw.final() == 200, "a reply is a 200")
	zzvf.Assert(strings.Join(rw.sent["Content-Encoding"], "") == "", "the body is not compressed")
	var rs string
	var rb bool
	var ra int64
	var rl []string
	var re error
	zzvf.Assert(vfReceive(rw, []interface{}{&ra, &rs, &rb, &rl, &re}) == nil, "the reply decodes in the encoding of its label")
	zzvf.Assert(ra == a && rs == s && rb == b && len(rl) == 2 && rl[0] == s && re == nil, "the reply is the returned values")
	zzvf.Reach("replied")
}

// VF_C07_None: replies without values.
func VF_C07_None() {
	ct, enc, known := vfContentType()
	rw := newVFRW()
	var rets []interface{}
	if zzvf.Bool("empty") {
		rets = []interface{}{}
	}
	r := vfPost("POST", "/e/m", ct, nil)
	vfOthers07(r)
	zzvf.Assert(Reply(rets, nil, r, rw) == nil, "the reply is sent")
	if known {
		label := rw.sent["Content-Type"]
		zzvf.Assert(len(label) == 1 && label[0] == vfTypeOf(enc), "the label is the encoding of the request")
	}
	cl := rw.sent["Content-Length"]
	zzvf.Assert(len(cl) == 1 && cl[0] == strconv.Itoa(len(rw.body)), "the content length is the length of the body")
	zzvf.Assert(vfReceive(rw, []interface{}{}) == nil, "the reply decodes")
	zzvf.Reach("none")
}
