package gotsrpc

//vf:bound every status code 100..999, every body of up to 3 bytes for failing answers, every failure: arguments that cannot be encoded, unusable url, transport failure and body read failure after any number of bytes (with an error of the harness or one of 12 of package io, net/http, net, os, context and syscall), body that does not decode, body of the other encoding; one reply variable of each of int64 and string; both encodings of request and answer
//vf:outside redirects (a 3xx with a Location header), bodies of failing answers beyond 3 bytes
//vf:stub transport: an http.RoundTripper; codec: structural model

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

var errVFTransport = errors.New("vf: transport failure")
var errVFRead = errors.New("vf: read failure")

// vfFailures are ways in which sending and reading fail.
var vfFailures = []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, context.DeadlineExceeded, context.Canceled, net.ErrClosed, http.ErrServerClosed, http.ErrBodyReadAfterClose, syscall.ECONNRESET, os.ErrDeadlineExceeded, http.ErrHandlerTimeout, http.ErrAbortHandler}

type vfNoText struct{}

func (vfNoText) MarshalText() ([]byte, error)   { return nil, errVFRead }
func (vfNoText) MarshalBinary() ([]byte, error) { return nil, errVFRead }
func (*vfNoText) UnmarshalText([]byte) error    { return nil }
func (*vfNoText) UnmarshalBinary([]byte) error  { return nil }

// VF_C04_Outcome: success exactly on a decodable 200, anything else a ClientError with its cause.
func VF_C04_Outcome() {
	enc := vfEncoding("json")
	const (
		fine = iota
		badArgs
		badURL
		transport
		readFail
		garbage
		wrongFormat
		emptyBody
		shortReply
		badStatus
		cases
	)
	kind := zzvf.Choose("case", cases)
	status := 200
	answer := enc
	if zzvf.Bool("other answer encoding") {
		answer = vfEncoding("answer json")
	}
	var body []byte
	a, s := zzvf.Int64("a"), vfText("s", 3)
	good := func() []byte {
		rw := newVFRW()
		if err := Reply([]interface{}{a, s}, nil, vfPost("POST", "/e/m", vfTypeOf(answer), nil), rw); err != nil {
			zzvf.Fail("a reply of scalars is sent")
		}
		return rw.body
	}
	body = good()
	text := ""
	switch kind {
	case garbage:
		// 0xc1 is never used in msgpack, and no JSON value starts with it
		body = []byte{0xc1}
	case emptyBody:
		body = nil
	case wrongFormat:
		body = []byte(`{"a":`)
		zzvf.Assume(answer == EncodingJson)
	case badStatus:
		status = zzvf.IntRange("status", 100, 999)
		zzvf.Assume(status != 200)
		// the client follows redirects only with a location
		text = vfText("text", 4)
		body = []byte(text)
	case readFail:
		if n := zzvf.Choose("read", 4); n < 3 {
			body = body[:n]
		}
		if zzvf.Bool("failing answer") {
			status = 500
		}
	}
	failure := errVFRead
	if kind == transport {
		failure = errVFTransport
	}
	if kind == transport || kind == readFail {
		if i := zzvf.Choose("failure", len(vfFailures)+1); i < len(vfFailures) {
			failure = vfFailures[i]
		}
	}
	b := newVFBody(body)
	if kind == readFail {
		b.err = failure
	}
	calls := 0
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		calls++
		if kind == transport {
			return nil, failure
		}
		return &http.Response{StatusCode: status, Header: http.Header{"Content-Type": {vfTypeOf(answer)}}, Body: b}, nil
	})})
	c.SetClientEncoding(enc)
	url := "http://h"
	if kind == badURL {
		url = ":bad"
	}
	args := []interface{}{int64(1)}
	if kind == badArgs {
		args = []interface{}{vfNoText{}}
	}
	ga, gs := int64(7), "old"
	err := c.Call(context.Background(), url, "/e", "m", args, []interface{}{&ga, &gs})
	if kind == fine || kind == shortReply {
		zzvf.Assert(err == nil, "a 200 answer that decodes is a success")
		zzvf.Assert(ga == a && gs == s, "the reply variables hold the reply")
		zzvf.Reach("fine")
		return
	}
	zzvf.Assert(err != nil, "everything but a decodable 200 answer is an error")
	var ce *ClientError
	zzvf.Assert(errors.As(err, &ce), "a failed call returns a ClientError")
	zzvf.Assert(errors.Unwrap(ce) != nil, "a client error exposes its cause")
	switch kind {
	case badArgs, badURL:
		zzvf.Assert(calls == 0, "nothing is sent when there is nothing to send")
		zzvf.Reach("before")
	case transport:
		zzvf.Assert(errors.Is(err, failure), "a client error exposes the transport failure")
		zzvf.Reach("transport")
	case readFail:
		zzvf.Assert(errors.Is(err, failure), "a client error exposes the read failure")
		zzvf.Reach("read")
	case badStatus:
		var he *HTTPError
		zzvf.Assert(errors.As(err, &he), "another status is an HTTPError")
		zzvf.Assert(he.StatusCode == status, "an HTTPError has the status code")
		zzvf.Assert(strings.Contains(err.Error(), text), "an HTTPError shows the body")
		zzvf.Assert(he.Body == text, "an HTTPError has the body")
		zzvf.Reach("status")
	default:
		zzvf.Reach("decode")
		return
	}
	zzvf.Assert(ga == 7 && gs == "old", "a failure before decoding leaves the reply variables alone")
	zzvf.Reach("untouched")
}
