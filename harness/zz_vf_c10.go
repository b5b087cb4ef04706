package gotsrpc

//vf:bound sequences of up to n requests (bound "requests") through handlers instrumented 1..3 times deep, every request one of: a known method, an unknown method, a request whose arguments or reply fail, any request size and error code; requests of one handler that run nested in each other (a handler that serves another request while serving one)
//vf:outside requests handled by several goroutines at once: the handler keeps no state of its own, statistics live in the request

import (
	"net/http"
	"strconv"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfServed struct {
	stats *CallStats
	want  CallStats
	calls int
}

// VF_C10_Instrumented: statistics are reported once for each dispatched request.
func VF_C10_Instrumented() {
	depth := 1 + zzvf.Choose("depth", zzvf.Bound("depth", 3, 4))
	reported := make([][]*CallStats, depth)
	values := make([][]CallStats, depth)
	var cur *vfServed
	var h http.HandlerFunc = func(w http.ResponseWriter, r *http.Request) {
		cur.calls++
		// what a generated proxy does
		stats, _ := GetStatsForRequest(r)
		stats.Func = cur.want.Func
		stats.Package = "pkg"
		stats.Service = "svc"
		cur.stats = stats
		switch cur.want.Func {
		case "unknown":
			ClearStats(r)
			ErrorFuncNotFound(w)
		default:
			zzvf.Assert(stats.RequestSize == 0 && stats.ErrorCode == 0 && stats.ErrorType == "", "a request starts with statistics of its own")
			stats.RequestSize = cur.want.RequestSize
			stats.ErrorCode = cur.want.ErrorCode
			again, ok := GetStatsForRequest(r)
			zzvf.Assert(ok && again == stats, "the statistics of a request stay the same")
		}
	}
	for i := 0; i < depth; i++ {
		i := i
		h = InstrumentedService(h, func(s *CallStats) {
			reported[i] = append(reported[i], s)
			values[i] = append(values[i], *s)
		})
	}
	n := 1 + zzvf.Choose("requests", zzvf.Bound("requests", 3, 5))
	var all []*vfServed
	dispatched := 0
	for q := 0; q < n; q++ {
		s := &vfServed{want: CallStats{Func: "m" + strconv.Itoa(q), Package: "pkg", Service: "svc", RequestSize: zzvf.Int("size"), ErrorCode: zzvf.Int("code")}}
		if zzvf.Bool("unknown") {
			s.want.Func = "unknown"
		}
		cur = s
		rw := newVFRW()
		h(rw, vfPost("POST", "/e/"+s.want.Func, vfJSONType, nil))
		zzvf.Assert(s.calls == 1, "a request is passed through once")
		known := s.want.Func != "unknown"
		if known {
			dispatched++
		} else {
			zzvf.Assert(rw.final() == 404, "the answer is the one of the handler")
			zzvf.Reach("unknown")
		}
		for i := range reported {
			zzvf.Assert(len(reported[i]) == dispatched, "statistics are reported exactly once for a dispatched request and never for an unknown method")
			if known {
				zzvf.Assert(values[i][dispatched-1] == s.want, "the reported statistics are the ones of the request")
				for _, o := range all {
					zzvf.Assert(o.stats != reported[i][dispatched-1], "statistics are not shared between requests")
				}
				zzvf.Reach("reported")
			}
		}
		for _, o := range all {
			if o.want.Func != "unknown" {
				zzvf.Assert(*o.stats == o.want, "the statistics of a request are not touched by later requests")
			}
		}
		all = append(all, s)
	}
}

// VF_C10_Nested: a handler that serves a second request while it serves the first.
func VF_C10_Nested() {
	var reported []CallStats
	a, b := zzvf.Int("outer size"), zzvf.Int("inner size")
	innerUnknown, outerUnknown := zzvf.Bool("inner unknown"), zzvf.Bool("outer unknown")
	before := zzvf.Bool("before")
	var h http.HandlerFunc
	h = InstrumentedService(func(w http.ResponseWriter, r *http.Request) {
		stats, ok := GetStatsForRequest(r)
		zzvf.Assert(ok, "an instrumented request has statistics")
		if r.URL.Path == "/inner" {
			stats.Func, stats.RequestSize = "inner", b
			if innerUnknown {
				ClearStats(r)
			}
			return
		}
		inner := func() { h(newVFRW(), vfPost("POST", "/inner", vfJSONType, nil).WithContext(r.Context())) }
		if before {
			inner()
		}
		stats.Func, stats.RequestSize = "outer", a
		if !before {
			inner()
		}
		if outerUnknown {
			ClearStats(r)
		}
	}, func(s *CallStats) { reported = append(reported, *s) })
	h(newVFRW(), vfPost("POST", "/outer", vfJSONType, nil))
	var want []CallStats
	if !innerUnknown {
		want = append(want, CallStats{Func: "inner", RequestSize: b})
	}
	if !outerUnknown {
		want = append(want, CallStats{Func: "outer", RequestSize: a})
	}
	zzvf.Assert(len(reported) == len(want), "every dispatched request is reported once")
	for i := range want {
		zzvf.Assert(reported[i] == want[i], "every request is reported with its own statistics")
	}
	zzvf.Reach("nested")
}

// VF_C10_Plain: without instrumentation statistics go nowhere.
func VF_C10_Plain() {
	r := vfPost("POST", "/e/m", vfJSONType, nil)
	s1, ok1 := GetStatsForRequest(r)
	s2, ok2 := GetStatsForRequest(r)
	zzvf.Assert(!ok1 && !ok2 && s1 != nil && s2 != nil && s1 != s2, "a request without instrumentation has no shared statistics")
	r2 := RequestWithStatsContext(r)
	s3, ok3 := GetStatsForRequest(r2)
	zzvf.Assert(ok3 && s3 != nil && *s3 == CallStats{}, "a request prepared for statistics has empty ones")
	_, ok1 = GetStatsForRequest(r)
	zzvf.Assert(!ok1, "preparing a copy leaves the request alone")
	r3 := RequestWithStatsContext(r)
	s4, _ := GetStatsForRequest(r3)
	zzvf.Assert(s3 != s4, "every request has statistics of its own")
	ClearStats(r2)
	_, ok3 = GetStatsForRequest(r2)
	zzvf.Assert(!ok3, "cleared statistics are gone")
	_, ok3 = GetStatsForRequest(r3)
	zzvf.Assert(ok3, "clearing touches one request only")
	zzvf.Reach("plain")
}
