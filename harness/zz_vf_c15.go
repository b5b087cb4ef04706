package gotsrpc

//vf:bound every status code 0..1999, every body of up to 4 bytes, and of 70000 bytes with any two first and last bytes; client errors around chains of up to n wrap layers (bound "layers") over any leaf, around transport and http errors, and around none; all candidate targets of errors.Is in and outside the chain
//vf:stub transport: an http.RoundTripper

import (
	"context"
	stderrors "errors"
	"net/http"
	"strconv"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C15_HTTP: an HTTPError is the status and body it is made from.
func VF_C15_HTTP() {
	code := zzvf.IntRange("code", 0, 1999)
	body := vfTextOf("body", zzvf.Bound("body length", 5, 9), 70000)
	e := NewHTTPError(body, code)
	zzvf.Assert(e.StatusCode == code, "the field has the status code")
	zzvf.Assert(e.Body == body, "the field has the body")
	zzvf.Assert(strings.Contains(e.Error(), body), "the message has the body")
	zzvf.Assert(strings.Contains(e.Error(), strconv.Itoa(code)), "the message has the status code")
	var err error = NewClientError(e)
	var he *HTTPError
	zzvf.Assert(stderrors.As(err, &he) && he == e, "a client error around it is transparent")
	zzvf.Assert(err.Error() == e.Error(), "a client error says what the http error says")
	zzvf.Reach("end")
}

// VF_C15_Answer: the same for an answer of a server.
func VF_C15_Answer() {
	code := zzvf.IntRange("code", 100, 999)
	zzvf.Assume(code != 200)
	body := vfTextOf("body", zzvf.Bound("body length", 4, 6), 70000)
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: code, Header: http.Header{}, Body: newVFBody([]byte(body))}, nil
	})})
	err := c.Call(context.Background(), "http://h", "/e", "m", nil, nil)
	var he *HTTPError
	var ce *ClientError
	zzvf.Assert(stderrors.As(err, &ce), "the error is a client error")
	zzvf.Assert(stderrors.As(err, &he), "the error is an http error")
	zzvf.Assert(he.StatusCode == code && he.Body == body, "the http error has status and body of the answer")
	zzvf.Reach("end")
}

// VF_C15_Client: a client error is transparent.
func VF_C15_Client() {
	inner := vfChain(zzvf.Bound("layers", 2, 3))
	var err error = NewClientError(inner)
	zzvf.Assert(err.Error() == inner.Error(), "a client error says what the wrapped error says")
	zzvf.Assert(stderrors.Unwrap(err) == inner, "a client error unwraps to the wrapped error")
	for e := inner; e != nil; e = stderrors.Unwrap(e) {
		if _, cmp := e.(vfValLeaf); cmp {
			zzvf.Reach("comparable")
		}
		zzvf.Assert(stderrors.Is(err, e), "a client error is every error it wraps")
	}
	other := &vfLeaf{"other"}
	zzvf.Assert(!stderrors.Is(err, other), "a client error is not another error")
	var l1, l2 *vfLeaf
	ok1, ok2 := stderrors.As(err, &l1), stderrors.As(inner, &l2)
	zzvf.Assert(ok1 == ok2 && (l1 == l2 || l1 != nil && l2 != nil && *l1 == *l2), "errors.As of a client error is errors.As of the wrapped error")
	var w1, w2 *vfWrapper
	ok1, ok2 = stderrors.As(err, &w1), stderrors.As(inner, &w2)
	zzvf.Assert(ok1 == ok2 && (w1 == w2 || w1 != nil && w2 != nil && w1.Op == w2.Op), "errors.As of a client error is errors.As of the wrapped error")
	var v1, v2 vfValLeaf
	ok1, ok2 = stderrors.As(err, &v1), stderrors.As(inner, &v2)
	zzvf.Assert(ok1 == ok2 && v1 == v2, "errors.As of a client error is errors.As of the wrapped error")
	var ce *ClientError
	zzvf.Assert(stderrors.As(err, &ce) && error(ce) == err, "a client error is found as such")
	zzvf.Reach("end")
}

// VF_C15_Empty: client errors without a cause.
func VF_C15_Empty() {
	var none *ClientError
	zzvf.Assert(none.Unwrap() == nil, "no client error wraps nothing")
	zzvf.Assert(NewClientError(nil).Unwrap() == nil, "a client error around nothing wraps nothing")
	zzvf.Assert((&ClientError{}).Unwrap() == nil, "an empty client error wraps nothing")
	zzvf.Reach("end")
}
