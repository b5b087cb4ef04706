package gotsrpc

//vf:bound every Unix millisecond count that is an int64 (full width), every nanosecond remainder, through the extension directly; six instants as argument and result of a JSON call: alone, by pointer, in a struct, a list, a map
//vf:outside instants beyond int64 milliseconds; times held by interface values inside arguments and results (they arrive as text); locations other than UTC/local (an instant is compared, not a location)
//vf:stub ugorji codec: structural model (engine/codec.go), validated by native replay

import (
	"context"
	"net/http"
	"time"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C16_Ext: the time extension alone.
func VF_C16_Ext() {
	ms := zzvf.Int64("ms")
	ns := zzvf.IntRange("ns", 0, 999_999)
	// built without multiplication overflow
	t := time.UnixMilli(ms).Add(time.Duration(ns))
	zzvf.Assume(t.UnixMilli() == ms) // Add saturates nowhere near here, but the far end of the range could wrap
	x := &TimeExt{}
	wire := x.ConvertExt(&t)
	n, ok := wire.(int64)
	zzvf.Assert(ok, "a time is sent as an int64")
	var got time.Time
	x.UpdateExt(&got, n)
	zzvf.Assert(got.UnixMilli() == ms, "a time arrives as the instant it was, truncated to the millisecond")
	zzvf.Assert(got.Nanosecond()%1_000_000 == 0, "a time arrives truncated to the millisecond")
	zzvf.ObsInt("ms", got.UnixMilli())
	zzvf.Reach("end")
}

// VF_C16_Wire: through a call with JSON encoding and its reply, wherever in arguments and results the time is.
func VF_C16_Wire() {
	times := []time.Time{{}, time.UnixMilli(0), time.UnixMilli(1700000000123).Add(456789), time.UnixMilli(-1), time.UnixMilli(99999999999999), time.UnixMilli(-99999999999999).UTC()}
	t := times[zzvf.Choose("t", len(times))]
	type holder struct {
		T time.Time  `json:"t"`
		P *time.Time `json:"p"`
		O *time.Time `json:"o,omitempty"`
	}
	var arg interface{}
	set := func() (dst interface{}, get func() *time.Time) {
		switch arg.(type) {
		case time.Time:
			var x time.Time
			return &x, func() *time.Time { return &x }
		case *time.Time:
			var x *time.Time
			return &x, func() *time.Time { return x }
		case holder:
			var x holder
			return &x, func() *time.Time {
				if x.P == nil || x.O == nil || !x.P.Equal(x.T) || !x.O.Equal(x.T) {
					return nil
				}
				return &x.T
			}
		case []time.Time:
			var x []time.Time
			return &x, func() *time.Time {
				if len(x) != 2 || !x[0].Equal(x[1]) {
					return nil
				}
				return &x[0]
			}
		case map[string]*time.Time:
			var x map[string]*time.Time
			return &x, func() *time.Time { return x["t"] }
		}
		return nil, nil
	}
	switch zzvf.Choose("place", 5) {
	case 0:
		arg = t
	case 1:
		arg = &t
	case 2:
		arg = holder{t, &t, &t}
	case 3:
		arg = []time.Time{t, t}
	case 4:
		arg = map[string]*time.Time{"t": &t}
	}
	serverDst, serverGet := set()
	args := []interface{}{int64(1), arg}
	rw := newVFRW()
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		var n int64
		into := []interface{}{&n, serverDst}
		zzvf.Assert(LoadArgs(&into, nil, r) == nil, "the arguments can be decoded")
		zzvf.Assert(n == 1, "the arguments are the arguments")
		zzvf.Assert(Reply([]interface{}{arg, int64(2)}, nil, r, rw) == nil, "the results can be encoded")
		return &http.Response{StatusCode: rw.final(), Header: rw.sent, Body: newVFBody(rw.body)}, nil
	})})
	c.SetClientEncoding(EncodingJson)
	clientDst, clientGet := set()
	var n int64
	zzvf.Assert(c.Call(context.Background(), "http://h", "/e", "m", args, []interface{}{clientDst, &n}) == nil && n == 2, "the results can be decoded")
	ms := t.UnixMilli()
	for _, get := range []func() *time.Time{serverGet, clientGet} {
		x := get()
		zzvf.Assert(x != nil && x.UnixMilli() == ms && x.Nanosecond()%1_000_000 == 0, "a time arrives as the instant it was, truncated to the millisecond")
	}
	if p, ok := args[1].(*time.Time); ok {
		zzvf.Assert(p == &t, "the caller keeps its arguments")
	}
	zzvf.Reach("end")
}
