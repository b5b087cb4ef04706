package zzvfsvc

//vf:bound 1 or 2 (thorough 3) requests to the proxies of a generated service of 15 methods: calls of eleven of its methods with any 64 bit integer and strings of 1 byte, errors returned, session methods that send a status or not, other verbs, unknown methods, arguments of other types, replies that cannot be written; statistics in the context or not; both encodings
//vf:outside what the monitor does with what it is told
//vf:stub codec: structural model; http: requests and writers are plain values

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfSeen struct {
	w     http.ResponseWriter
	r     *http.Request
	args  []interface{}
	rets  []interface{}
	stats *gotsrpc.CallStats
	calls int // of the service, until then
	sent  int // bytes answered until then
}

type vfFailingRW struct{ *vfRW }

func (w vfFailingRW) Write(b []byte) (int, error) { return 0, errors.New("vf: write failed") }

// VF_C38_Calls: the monitor is told of each call that is served.
func VF_C38_Calls() {
	s := &vfService{}
	var seen []vfSeen
	var cur *vfRW
	old := gotsrpc.Monitor
	gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
		seen = append(seen, vfSeen{w, r, args, rets, stats, len(s.calls), len(cur.body)})
	}
	defer func() { gotsrpc.Monitor = old }()
	proxy := NewDefaultServiceGoTSRPCProxy(s)
	enc := vfEncoding("json")
	n := 1 + zzvf.Choose("more", zzvf.Bound("more", 2, 3))
	for i := 0; i < n; i++ {
		seen, s.calls, s.args, s.ret = nil, nil, nil, vfRets{}
		method, verb, status := "", "POST", 200
		var args, want, rets []interface{}
		kind := zzvf.Choose("request", 15)
		switch kind {
		case 0:
			method = "Nothing"
		case 1:
			method = "Get"
			id := zzvf.Int64("id")
			s.ret.s = zzvf.Str("s", 1)
			args, rets = []interface{}{id}, []interface{}{s.ret.s}
		case 2:
			method = "Swap"
			a, b := zzvf.Str("a", 1), zzvf.Str("b", 1)
			s.ret.s, s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
			args, rets = []interface{}{a, b}, []interface{}{s.ret.s, s.ret.t}
		case 3:
			method = "Names"
			a, b, c := zzvf.Str("a", 1), zzvf.Str("b", 1), zzvf.Str("c", 1)
			s.ret.s, s.ret.t = zzvf.Str("s", 1), zzvf.Str("t", 1)
			args, rets = []interface{}{a, b, c}, []interface{}{s.ret.s, s.ret.t}
		case 4:
			method = "Try"
			x := zzvf.Int64("x")
			s.ret.i = zzvf.Int64("i")
			if zzvf.Bool("error") {
				s.ret.err = errors.New("vf: failed")
			}
			args, rets = []interface{}{x}, []interface{}{s.ret.i, s.ret.err}
		case 5:
			method = "TryReason"
			x := zzvf.Int64("x")
			s.ret.reason = Reason(zzvf.Str("reason", zzvf.Choose("reasonlen", 2)))
			args, rets = []interface{}{x}, []interface{}{s.ret.reason}
		case 6:
			method = "Session"
			name := zzvf.Str("name", 1)
			s.ret.s, s.ret.a = zzvf.Str("s", 1), zzvf.Bool("b")
			args, rets = []interface{}{name}, []interface{}{s.ret.s, s.ret.a}
			if zzvf.Bool("own status") {
				s.ret.session, status = 403, 403
				rets = nil // not answered
			}
		case 7:
			method = "SessionOnly"
			if zzvf.Bool("own status") {
				s.ret.session, status = 302, 302
			}
		case 8:
			verb = []string{"GET", "OPTIONS", "PUT"}[zzvf.Choose("verb", 3)]
			method = "Nothing"
		case 9:
			method = []string{"Nope", "", "get", "GetAl"}[zzvf.Choose("unknown", 4)]
		case 10:
			method = []string{"Get", "Swap", "Session"}[zzvf.Choose("refused", 3)]
			args = []interface{}{map[string]interface{}{"a": true}}
		case 11:
			method = []string{"Get", "Nothing", "Session"}[zzvf.Choose("cut", 3)]
			args = []interface{}{"a"}
			if method == "Get" {
				args = []interface{}{int64(1)}
			}
		case 12:
			method = "GetAll"
			from, to := zzvf.Int64("from"), zzvf.Int64("to")
			s.ret.n = 3
			s.ret.list = []int64{zzvf.Int64("l")}
			args, rets = []interface{}{from, to}, []interface{}{s.ret.list, s.ret.n}
		case 13:
			method = "Flags"
			a, b, c := zzvf.Bool("a"), zzvf.Bool("b"), zzvf.Uint8("c")
			s.ret.a, s.ret.b, s.ret.c = zzvf.Bool("x"), zzvf.Bool("y"), zzvf.Uint8("z")
			args, rets = []interface{}{a, b, c}, []interface{}{s.ret.a, s.ret.b, s.ret.c}
		case 14:
			method = "When"
			s.ret.when = time.UnixMilli(1700000000123)
			args, rets = []interface{}{time.UnixMilli(5)}, []interface{}{s.ret.when}
		}
		want = args
		var body []byte
		if args != nil {
			body = vfArgs(enc, args...)
		}
		hd := http.Header{"Content-Type": {vfMsgpackType}}
		if enc == gotsrpc.EncodingJson {
			hd = http.Header{"Content-Type": {vfJSONType}}
		}
		r := (&http.Request{Method: verb, URL: &url.URL{Path: "/svc/" + method}, Header: hd, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}).WithContext(context.Background())
		withStats := zzvf.Bool("statistics")
		var ours *gotsrpc.CallStats
		if withStats {
			r = gotsrpc.RequestWithStatsContext(r)
			ours, _ = gotsrpc.GetStatsForRequest(r)
		}
		cur = newVFRW()
		var w http.ResponseWriter = cur
		fails := kind == 11 // the answer cannot be sent
		if fails {
			w = vfFailingRW{cur}
		}
		proxy.ServeHTTP(w, r)
		if fails || kind == 8 || kind == 9 || kind == 10 {
			zzvf.Assert(len(seen) == 0, "the monitor is not told of requests that are not served")
			zzvf.Reach("not served")
			continue
		}
		zzvf.Assert(len(s.calls) == 1 && s.calls[0] == method, "the method runs")
		zzvf.Assert(len(seen) == 1, "the monitor is told of a call, once")
		m := seen[0]
		zzvf.Assert(m.calls == 1, "the monitor is told when the method has run")
		zzvf.Assert(m.sent == len(cur.body) && (status != 200 || m.sent > 0) && (status == 200 || m.sent == 0), "the monitor is told when the answer is sent")
		zzvf.Assert(m.w == w && m.r == r, "the monitor is told the request and the writer")
		zzvf.Assert(len(m.args) == len(want), "the monitor is told the arguments")
		for j, a := range m.args {
			if t, ok := a.(*time.Time); ok {
				zzvf.Assert(t.Equal(want[j].(time.Time)), "the monitor is told the arguments")
			} else {
				zzvf.Assert(vfPointed(a) == want[j], "the monitor is told the arguments")
			}
		}
		zzvf.Assert(len(m.rets) == len(rets), "the monitor is told the results")
		for j, x := range m.rets {
			if l, ok := x.([]int64); ok {
				zzvf.Assert(len(l) == 1 && l[0] == s.ret.list[0], "the monitor is told the results")
			} else {
				zzvf.Assert(x == rets[j], "the monitor is told the results")
			}
		}
		zzvf.Assert(m.stats != nil && (!withStats || m.stats == ours), "the monitor is told the statistics")
		zzvf.Assert(m.stats.Func == method && m.stats.Service == "Service", "the statistics name the call")
		zzvf.Assert(m.stats.ResponseSize == len(cur.body), "the statistics are complete")
		zzvf.Assert((m.stats.ErrorCode != 0) == (s.ret.err != nil || s.ret.reason != ""), "the statistics are complete")
		zzvf.Reach("served")
	}
	zzvf.Reach("end")
}

func vfPointed(a interface{}) interface{} {
	switch p := a.(type) {
	case *int64:
		return *p
	case *string:
		return *p
	case *bool:
		return *p
	case *uint8:
		return *p
	}
	return nil
}
