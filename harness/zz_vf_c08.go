package gotsrpc

//vf:bound replies of up to 3 values, every one of: any int64, any string of up to 2 bytes, a string of 5000 bytes (any first and last one), nil, an error, a value whose encoding fails; both encodings; a response writer that works or fails at the first write; statistics present or not
//vf:stub codec: structural model, encoders write what they have before they fail; transport: an in-memory http.ResponseWriter

import (
	"errors"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

var errVFText = errors.New("vf: no text")

type vfNoReply struct{ A string }

func (vfNoReply) MarshalText() ([]byte, error)   { return nil, errVFText }
func (vfNoReply) MarshalBinary() ([]byte, error) { return nil, errVFText }
func (*vfNoReply) UnmarshalText([]byte) error    { return nil }
func (*vfNoReply) UnmarshalBinary([]byte) error  { return nil }

type vfDeep struct {
	Text string
	Bad  *vfNoReply
}

// VF_C08_Reply: a reply is all or nothing.
func VF_C08_Reply() {
	enc := vfEncoding("json")
	n := zzvf.Choose("values", zzvf.Bound("values", 3, 4)+1)
	rets := make([]interface{}, n)
	bad, long := false, false
	for i := range rets {
		switch zzvf.Choose("value", 7) {
		case 0:
			rets[i] = zzvf.Int64("int")
		case 1:
			rets[i] = zzvf.Str("str", zzvf.Choose("len", 3))
		case 2:
			rets[i] = nil
		case 3:
			rets[i] = &vfLeaf{"x"}
		case 4:
			rets[i] = vfNoReply{}
			bad = true
		case 5:
			rets[i] = zzvf.Str("first", 1) + strings.Repeat("x", 4998) + zzvf.Str("last", 1)
			long = true
		default:
			rets[i] = []vfDeep{{"a", nil}, {"b", &vfNoReply{}}}
			bad = true
		}
	}
	rw := newVFRW()
	rw.failing = zzvf.Bool("write fails")
	r := vfPost("POST", "/e/m", vfTypeOf(enc), nil)
	var stats *CallStats
	if zzvf.Bool("stats") {
		stats = &CallStats{Package: "p", Service: "s", Func: "f", RequestSize: 3}
	}
	err := Reply(rets, stats, r, rw)
	switch {
	case bad:
		zzvf.Assert(err != nil, "a reply that cannot be encoded is an error")
		zzvf.Assert(rw.writes == 0 && rw.heads == 0, "nothing of a reply that cannot be encoded is sent")
		// what a proxy does next
		ErrorCouldNotReply(rw)
		zzvf.Assert(rw.final() == 500, "a reply that cannot be encoded is a 500")
		zzvf.Reach("not encoded")
	case rw.failing:
		zzvf.Assert(err != nil, "a failing write is reported")
		zzvf.Assert(rw.writes == 1, "a failing write is not repeated")
		zzvf.Reach("not written")
	default:
		zzvf.Assert(err == nil, "a reply that can be encoded is sent")
		zzvf.Assert(rw.writes == 1, "a reply is sent with a single write")
		zzvf.Assert(rw.final() == 200, "a reply is a 200")
		if long {
			zzvf.Reach("long")
		}
		zzvf.Reach("sent")
	}
	if stats != nil {
		zzvf.Assert((stats.ResponseSize > 0) == (err == nil), "the size of a reply is recorded for replies that were sent")
		zzvf.Assert(stats.Package == "p" && stats.Service == "s" && stats.Func == "f" && stats.RequestSize == 3, "a reply leaves the identity of the call alone")
	}
}

// VF_C08_Errors: the failure answers of a proxy.
func VF_C08_Errors() {
	rw := newVFRW()
	want := 0
	switch zzvf.Choose("failure", 4) {
	case 0:
		ErrorCouldNotReply(rw)
		want = 500
	case 1:
		ErrorCouldNotLoadArgs(rw)
		want = 400
	case 2:
		ErrorFuncNotFound(rw)
		want = 404
	default:
		ErrorMethodNotAllowed(rw)
		want = 405
	}
	zzvf.Assert(rw.final() == want, "a failure has its own status")
	zzvf.Reach("failure")
}
