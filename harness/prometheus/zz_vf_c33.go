package prometheus

//vf:bound up to n requests (bound "requests") in a row of up to 2 services with up to 2 methods, known or unknown, sizes 0..65535, durations 0..65535 ns, with and without an error of any code; Go RPC calls likewise
//vf:outside what the client library does with an observation afterwards (quantiles, ageing); calls by several goroutines at once
//vf:stub client_golang: its own code is executed, with a registerer that keeps the collectors

import (
	"context"
	"net/http"
	"net/url"
	"time"

	p "github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfReg struct{ cs []p.Collector }

func (r *vfReg) Register(c p.Collector) error {
	r.cs = append(r.cs, c)
	return nil
}
func (r *vfReg) MustRegister(c ...p.Collector) { r.cs = append(r.cs, c...) }
func (r *vfReg) Unregister(c p.Collector) bool { return false }

type vfSeries struct {
	pkg, service, fn, typ string
	count                 uint64
	sum                   float64
}

func (r *vfReg) series(want string) []vfSeries {
	var out []vfSeries
	for _, c := range r.cs {
		ds := make(chan *p.Desc, 4)
		c.Describe(ds)
		if d := <-ds; !vfHas(d.String(), "fqName: \""+want+"\"") {
			continue
		}
		ch := make(chan p.Metric, 64)
		c.Collect(ch)
		close(ch)
		for m := range ch {
			var d dto.Metric
			if err := m.Write(&d); err != nil {
				zzvf.Fail("a metric can be read")
			}
			var s vfSeries
			for _, l := range d.Label {
				switch l.GetName() {
				case "package":
					s.pkg = l.GetValue()
				case "service":
					s.service = l.GetValue()
				case "func":
					s.fn = l.GetValue()
				case "type":
					s.typ = l.GetValue()
				}
			}
			s.count = d.Summary.GetSampleCount()
			s.sum = d.Summary.GetSampleSum()
			out = append(out, s)
		}
	}
	return out
}

func vfHas(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

type vfRW struct{ h http.Header }

func (w *vfRW) Header() http.Header         { return w.h }
func (w *vfRW) WriteHeader(int)             {}
func (w *vfRW) Write(b []byte) (int, error) { return len(b), nil }

// VF_C33_HTTP: an instrumented handler.
func VF_C33_HTTP() {
	reg := &vfReg{}
	old := p.DefaultRegisterer
	p.DefaultRegisterer = reg
	defer func() { p.DefaultRegisterer = old }()
	var cur gotsrpc.CallStats
	h := InstrumentService(func(w http.ResponseWriter, r *http.Request) {
		stats, _ := gotsrpc.GetStatsForRequest(r)
		*stats = cur
		if cur.Func == "unknown" {
			gotsrpc.ClearStats(r)
		}
	})
	type key struct{ service, fn string }
	served := map[key][]gotsrpc.CallStats{}
	n := 1 + zzvf.Choose("requests", zzvf.Bound("requests", 2, 3))
	for i := 0; i < n; i++ {
		cur = gotsrpc.CallStats{Package: "pkg", Service: []string{"A", "B"}[zzvf.Choose("service", 2)], Func: []string{"M", "N", "unknown"}[zzvf.Choose("func", 3)]}
		v := func(l string) int { return zzvf.IntRange(l, 0, 65535) }
		cur.RequestSize, cur.ResponseSize = v("request"), v("response")
		cur.Unmarshalling, cur.Execution, cur.Marshalling = time.Duration(v("unmarshalling")), time.Duration(v("execution")), time.Duration(v("marshalling"))
		if zzvf.Bool("error") {
			cur.ErrorCode, cur.ErrorType, cur.ErrorMessage = zzvf.Int("error code"), "*pkg.Err", zzvf.Str("message", 1)
		}
		k := key{cur.Service, cur.Func}
		r := (&http.Request{Method: "POST", URL: &url.URL{Path: "/e/m"}, Header: http.Header{}}).WithContext(context.Background())
		h(&vfRW{http.Header{}}, r)
		if cur.Func != "unknown" {
			served[k] = append(served[k], cur)
			zzvf.Reach("known")
		} else {
			zzvf.Reach("unknown")
		}
	}
	check := func(name string, types []string, value func(gotsrpc.CallStats, string) float64) {
		got := reg.series(name)
		zzvf.Assert(len(got) == len(served)*len(types), "there is one series per called method and type")
		for _, s := range got {
			calls := served[key{s.service, s.fn}]
			zzvf.Assert(s.pkg == "pkg" && len(calls) > 0, "a series is labelled with a call that was made")
			zzvf.Assert(s.count == uint64(len(calls)), "every call adds one observation to its series")
			known, sum := false, float64(0)
			for _, t := range types {
				if t != s.typ {
					continue
				}
				known = true
				for _, c := range calls {
					sum += value(c, t)
				}
			}
			zzvf.Assert(known, "a series has a known type")
			zzvf.Assert(s.sum == sum, "an observation is the value of the statistics")
		}
	}
	check("gotsrpc_service_size_bytes", []string{"request", "response"}, func(c gotsrpc.CallStats, t string) float64 {
		if t == "request" {
			return float64(c.RequestSize)
		}
		return float64(c.ResponseSize)
	})
	check("gotsrpc_service_time_nanoseconds", []string{"unmarshalling", "execution", "marshalling"}, func(c gotsrpc.CallStats, t string) float64 {
		switch t {
		case "unmarshalling":
			return float64(c.Unmarshalling)
		case "execution":
			return float64(c.Execution)
		}
		return float64(c.Marshalling)
	})
	zzvf.Reach("end")
}

// VF_C33_GoRPC: the handler for Go RPC calls.
func VF_C33_GoRPC() {
	reg := &vfReg{}
	old := p.DefaultRegisterer
	p.DefaultRegisterer = reg
	defer func() { p.DefaultRegisterer = old }()
	h := InstrumentGoRPCService()
	type key struct{ service, fn string }
	served := map[key][]int{}
	n := 1 + zzvf.Choose("calls", zzvf.Bound("calls", 2, 3))
	for i := 0; i < n; i++ {
		cur := gotsrpc.CallStats{Package: "pkg", Service: []string{"A", "B"}[zzvf.Choose("service", 2)], Func: []string{"M", "N"}[zzvf.Choose("func", 2)]}
		// whole seconds: exact in the unit of the metric
		s := zzvf.IntRange("seconds", 0, 65535)
		cur.Execution = time.Duration(s) * time.Second
		if zzvf.Bool("error") {
			cur.ErrorCode, cur.ErrorType, cur.ErrorMessage = zzvf.Int("error code"), "*pkg.Err", zzvf.Str("message", 1)
		}
		cur.RequestSize, cur.ResponseSize = zzvf.IntRange("request", 0, 65535), zzvf.IntRange("response", 0, 65535)
		k := key{cur.Service, cur.Func}
		served[k] = append(served[k], s)
		h(&cur)
	}
	got := reg.series("gorpc_service_time_seconds")
	zzvf.Assert(len(got) == len(served), "there is one series per called method")
	for _, s := range got {
		calls := served[key{s.service, s.fn}]
		zzvf.Assert(s.pkg == "pkg" && len(calls) > 0 && s.typ == "execution", "a series is labelled with a call that was made")
		zzvf.Assert(s.count == uint64(len(calls)), "every call adds one observation to its series")
		sum := 0
		for _, c := range calls {
			sum += c
		}
		zzvf.Assert(s.sum == float64(sum), "an observation is the execution time in seconds")
	}
	zzvf.Reach("end")
}
