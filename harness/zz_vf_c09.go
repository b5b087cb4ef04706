package gotsrpc

//vf:bound replies of up to 2 values before the last one, the last one any of: no value, nil error, nil pointer of an error type, zero value of an error type, non-error value, errors.New, pointer and value errors with and without an error code of their own (any int), an error converted before, wrapped errors, all messages of up to 2 bytes; both encodings; any announced request size
//vf:outside the durations, which are measured
//vf:stub codec: structural model, the size of the reply is compared with the number of bytes written

import (
	stderrors "errors"
	"fmt"
	"net/http"

	"github.com/pkg/errors"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfCoded struct {
	Code int
	Text string
}

func (e *vfCoded) Error() string  { return e.Text }
func (e *vfCoded) ErrorCode() int { return e.Code }

type vfCodedVal struct{ Code int }

func (e vfCodedVal) Error() string  { return "coded" }
func (e vfCodedVal) ErrorCode() int { return e.Code }

type vfStringErr string

func (e vfStringErr) Error() string { return "s:" + string(e) }

type vfBad09 struct{}

func (vfBad09) MarshalText() ([]byte, error)   { return nil, errVFWrite }
func (vfBad09) MarshalBinary() ([]byte, error) { return nil, errVFWrite }
func (*vfBad09) UnmarshalText([]byte) error    { return nil }
func (*vfBad09) UnmarshalBinary([]byte) error  { return nil }

// vfLast is the last value of a reply and what the statistics have to say about it.
func vfLast() (v interface{}, code int, typ, msg string) {
	text := func() string { return vfText("text", 3) }
	switch zzvf.Choose("last", 13) {
	case 0:
		return nil, 0, "", ""
	case 1:
		return (*vfLeaf)(nil), 0, "", ""
	case 2:
		return vfValLeaf{}, 0, "", ""
	case 3:
		return text(), 0, "", ""
	case 4:
		t := text()
		return stderrors.New(t), 1, "*errors.errorString", t
	case 5:
		t := text()
		return &vfLeaf{t}, 1, "*gotsrpc.vfLeaf", t
	case 6:
		t := zzvf.Str("text", 1+zzvf.Choose("textlen", 2))
		return vfValLeaf{t}, 1, "gotsrpc.vfValLeaf", "val " + t
	case 7:
		t, c := text(), zzvf.Int("code")
		return &vfCoded{c, t}, c, "*gotsrpc.vfCoded", t
	case 8:
		c := zzvf.Int("code")
		if c == 0 {
			return vfCodedVal{c}, 0, "", ""
		}
		return vfCodedVal{c}, c, "gotsrpc.vfCodedVal", "coded"
	case 9:
		t := zzvf.Str("text", 1+zzvf.Choose("textlen", 2))
		return vfStringErr(t), 1, "gotsrpc.vfStringErr", "s:" + t
	case 10:
		t := text()
		return errors.Wrap(&vfCoded{7, t}, "op"), 1, "*errors.withStack", "op: " + t
	case 11:
		t := text()
		return NewError(&vfLeaf{t}), 1, "*gotsrpc.Error", t
	default:
		t := text()
		return fmt.Errorf("op: %w", &vfLeaf{t}), 1, "*fmt.wrapError", "op: " + t
	}
}

// VF_C09_Reply: what a reply records.
func VF_C09_Reply() {
	enc := vfEncoding("json")
	var rets []interface{}
	n := zzvf.Choose("others", 3)
	for i := 0; i < n; i++ {
		switch zzvf.Choose("other", 3) {
		case 0:
			rets = append(rets, zzvf.Int64("int"))
		case 1:
			rets = append(rets, &vfLeaf{"not last"})
		default:
			rets = append(rets, &vfCoded{9, "not last"})
		}
	}
	code, typ, msg := 0, "", ""
	if zzvf.Bool("values") {
		var v interface{}
		v, code, typ, msg = vfLast()
		rets = append(rets, v)
	} else if n > 0 {
		rets = append(rets, int64(1))
	}
	keep := append([]interface{}(nil), rets...)
	stats := &CallStats{Package: "p", Service: "s", Func: "f", RequestSize: 11, Execution: 5}
	rw := newVFRW()
	zzvf.Assert(Reply(rets, stats, vfPost("POST", "/e/m", vfTypeOf(enc), nil), rw) == nil, "the reply is sent")
	zzvf.Assert(stats.Package == "p" && stats.Service == "s" && stats.Func == "f", "a reply keeps the identity of the call")
	zzvf.Assert(stats.RequestSize == 11 && stats.Execution == 5, "a reply keeps what was recorded before")
	zzvf.Assert(stats.ResponseSize == len(rw.body), "the response size is the size of the reply")
	zzvf.Assert(stats.ErrorCode == code, "the error code is the one of the returned error")
	zzvf.Assert(stats.ErrorType == typ, "the error type is the one of the returned error")
	zzvf.Assert(stats.ErrorMessage == msg, "the error message is the one of the returned error")
	for i := range keep {
		zzvf.Assert(rets[i] == keep[i], "the returned values are left alone")
	}
	zzvf.Reach("replied")
	if typ != "" {
		zzvf.Reach("error")
	} else {
		zzvf.Reach("no error")
	}
}

// VF_C09_Failed: a reply that is not sent is not recorded as one.
func VF_C09_Failed() {
	enc := vfEncoding("json")
	stats := &CallStats{}
	rw := newVFRW()
	rets := []interface{}{int64(1)}
	if zzvf.Bool("encode") {
		rets = append(rets, vfBad09{})
	} else {
		rw.failing = true
	}
	zzvf.Assert(Reply(rets, stats, vfPost("POST", "/e/m", vfTypeOf(enc), nil), rw) != nil, "a failed reply is reported")
	zzvf.Assert(stats.ResponseSize == 0 && stats.ErrorType == "", "a failed reply is not recorded")
	zzvf.Reach("failed")
}

// VF_C09_Request: what loading the arguments records.
func VF_C09_Request() {
	enc := vfEncoding("json")
	a := zzvf.Int64("a")
	var body []byte
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		buf := make([]byte, r.ContentLength)
		_, _ = r.Body.Read(buf)
		body = buf
		return nil, errVFWrite
	})})
	c.SetClientEncoding(enc)
	_ = c.Call(vfPost("POST", "/", "", nil).Context(), "http://h", "/e", "m", []interface{}{a}, nil)
	r := vfPost("POST", "/e/m", vfTypeOf(enc), body)
	r.ContentLength = int64(zzvf.Int("size"))
	zzvf.Assume(r.ContentLength >= -1)
	stats := &CallStats{Package: "p", Service: "s", Func: "f"}
	var g int64
	zzvf.Assert(LoadArgs(&[]interface{}{&g}, stats, r) == nil, "the arguments are read")
	zzvf.Assert(g == a, "the arguments are the ones that were sent")
	zzvf.Assert(stats.Package == "p" && stats.Service == "s" && stats.Func == "f", "loading keeps the identity of the call")
	zzvf.Assert(int64(stats.RequestSize) == r.ContentLength, "the request size is the announced one")
	zzvf.Reach("loaded")
	zzvf.Assert(LoadArgs(&[]interface{}{&g}, nil, vfPost("POST", "/e/m", vfTypeOf(enc), body)) == nil, "arguments are read without statistics")
	zzvf.Reach("no stats")
}
