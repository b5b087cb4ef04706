package gotsrpc

//vf:bound every sequence of up to n calls (bound "calls") of WriteHeader with any status 100..999 or Write with up to 2 bytes, Status asked after every one of them
//vf:stub net/http's response writer: first final status wins, 1xx but 101 are informational, the first byte of a body sends 200; panics of net/http for impossible codes are outside

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C11_Status: Status is what the client gets.
func VF_C11_Status() {
	under := newVFRW()
	rw := ResponseWriter{ResponseWriter: under}
	var w http.ResponseWriter = &rw
	n := zzvf.Choose("calls", zzvf.Bound("calls", 4, 6)+1)
	var body []byte
	heads := 0
	for i := 0; i < n; i++ {
		if zzvf.Bool("write") {
			b := []byte(zzvf.Str("bytes", zzvf.Choose("len", 3)))
			k, err := w.Write(b)
			zzvf.Assert(k == len(b) && err == nil, "a write reports what the underlying writer reports")
			body = append(body, b...)
		} else {
			w.WriteHeader(zzvf.IntRange("status", 100, 999))
			heads++
		}
		zzvf.Assert(rw.Status() == under.final(), "the status is the one that went out")
	}
	zzvf.Assert(string(under.body) == string(body), "writes go through")
	zzvf.Assert(rw.Status() == under.final(), "the status is the one that went out")
	w.Header().Set("X-A", "b")
	zzvf.Assert(under.h.Get("X-A") == "b", "headers go through")
	zzvf.Reach("end")
	if heads == 0 && len(body) == 0 {
		zzvf.Assert(rw.Status() == 200, "nothing written is a 200")
		zzvf.Reach("nothing")
	}
}

// VF_C11_Fails: a failing write started the body all the same.
func VF_C11_Fails() {
	under := newVFRW()
	under.failing = true
	rw := ResponseWriter{ResponseWriter: under}
	first := zzvf.Bool("status first")
	s := zzvf.IntRange("status", 200, 999)
	if first {
		rw.WriteHeader(s)
	}
	_, err := rw.Write([]byte("x"))
	zzvf.Assert(err == errVFWrite, "a failing write is reported")
	rw.WriteHeader(zzvf.IntRange("late", 100, 999))
	zzvf.Assert(rw.Status() == under.final(), "the status is the one that went out")
	zzvf.Reach("end")
}
