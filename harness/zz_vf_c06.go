package gotsrpc

//vf:bound up to n calls on one client (bound "calls"), each after an optional change of encoding, default headers with up to 2 names (any of 6) of one or two values of up to 1 byte, a transport that may add, replace and delete headers and write into value slices of the request it is given
//vf:outside concurrent calls (the absence of shared writes is shown instead: no call writes the map it was given)

import (
	"context"
	"net/http"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

func vfSameHeader(a, b http.Header, msg string) {
	zzvf.Assert(len(a) == len(b), msg)
	for k, v := range b {
		w, ok := a[k]
		zzvf.Assert(ok && len(w) == len(v), msg)
		for i := range v {
			zzvf.Assert(w[i] == v[i], msg)
		}
	}
}

// VF_C06_Isolation: calls leave the default headers alone and each other's requests, too.
func VF_C06_Isolation() {
	names := []string{"X-A", "Content-Type", "Accept", HeaderServiceToService, "Cookie", "x-low"}
	defaults := http.Header{}
	n := zzvf.Choose("names", 3)
	for i := 0; i < n; i++ {
		k := names[zzvf.Choose("name", len(names))]
		defaults[k] = append(defaults[k], zzvf.StrOf("value", zzvf.Choose("valuelen", 2), "vw"))
		if zzvf.Bool("two values") {
			defaults[k] = append(defaults[k], "second")
		}
	}
	before := defaults.Clone()
	type sent struct {
		r    *http.Request
		snap http.Header
	}
	var all []sent
	var mess int
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		snap := r.Header.Clone()
		switch mess {
		case 1:
			r.Header.Set("X-A", "messed")
			r.Header.Add("X-New", "messed")
		case 2:
			for k, v := range r.Header {
				for i := range v {
					v[i] = "messed"
				}
				r.Header[k] = append(v, "more")
			}
		case 3:
			for k := range r.Header {
				delete(r.Header, k)
			}
		}
		all = append(all, sent{r, snap})
		return &http.Response{StatusCode: 204, Header: http.Header{}, Body: newVFBody(nil)}, nil
	})})
	c.SetDefaultHeaders(defaults)
	calls := 1 + zzvf.Choose("calls", zzvf.Bound("calls", 2, 3))
	for i := 0; i < calls; i++ {
		enc := vfEncoding("json")
		c.SetClientEncoding(enc)
		mess = zzvf.Choose("mess", 4)
		_ = c.Call(context.Background(), "http://h", "/e", "m", nil, nil)
		zzvf.Assert(len(all) == i+1, "a call sends one request")
		vfSameHeader(defaults, before, "calls do not modify the default headers")
		want := before.Clone()
		want["Content-Type"] = []string{vfTypeOf(enc)}
		want["Accept"] = []string{vfTypeOf(enc)}
		want[HeaderServiceToService] = []string{"true"}
		vfSameHeader(all[i].snap, want, "a request has the default headers and its own, nothing of other requests")
	}
	zzvf.Reach("end")
}
