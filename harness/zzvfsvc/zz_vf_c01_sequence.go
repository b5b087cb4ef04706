package zzvfsvc

//vf:bound sequences of 2 (thorough 3) calls on one client and one proxy: nine kinds of calls, three of them failing (transport, answer, cancelled), the encoding changed after the first or not; what earlier calls passed and returned is looked at again after the later ones

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/foomo/gotsrpc/v2"
	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C01_Sequence: calls do not show in one another.
func VF_C01_Sequence() {
	s := &vfService{}
	requests, fail := 0, 0
	good := vfWire(NewDefaultServiceGoTSRPCProxy(s), &requests).Transport
	c := NewDefaultServiceGoTSRPCClient("http://h")
	c.Client.SetTransportHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		switch fail {
		case 1:
			return nil, errors.New("vf: no answer")
		case 2:
			return &http.Response{StatusCode: 503, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("[1,\"a\"]"))}, nil
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		return good.RoundTrip(r)
	})})
	c.Client.SetClientEncoding(vfEncoding("json"))
	var later []func() bool
	n := zzvf.Bound("calls", 2, 3)
	for i := 0; i < n; i++ {
		if i == 1 && zzvf.Bool("change") {
			c.Client.SetClientEncoding(vfEncoding("json"))
		}
		s.calls, s.args, s.ret, requests, fail = nil, nil, vfRets{}, 0, 0
		ctx := context.Background()
		method := ""
		var err error
		switch zzvf.Choose("call", 9) {
		case 0:
			method, fail = "", 1
			_, err = c.Get(ctx, 1)
		case 1:
			method, fail = "", 2
			_, _, err = c.Swap(ctx, "a", "b")
		case 2:
			cancelled, cancel := context.WithCancel(ctx)
			cancel()
			_, _, err = c.GetAll(cancelled, 1, 2)
		case 3:
			method = "Nothing"
			err = c.Nothing(ctx)
			zzvf.Assert(len(s.args) == 0, "the service receives the arguments")
		case 4:
			method = "Get"
			id, ret := zzvf.Int64("id"), zzvf.Str("s", zzvf.Choose("slen", 2))
			s.ret.s = ret
			var got string
			got, err = c.Get(ctx, id)
			args := s.args
			later = append(later, func() bool {
				return len(args) == 1 && args[0].(int64) == id && got == ret
			})
		case 5:
			method = "Move"
			a := Point{X: zzvf.Int64("a.x"), Next: vfPoint("a.next", 0)}
			d := vfPoint("d", 0)
			q, p := vfPoint("q", 0), Point{X: zzvf.Int64("p.x")}
			s.ret.q, s.ret.p = q, p
			gq, gp, e := c.Move(ctx, a, d)
			err = e
			args := s.args
			later = append(later, func() bool {
				ga, gd := args[0].(Point), args[1].(*Point)
				return vfSamePoint(&ga, &a) && vfSamePoint(gd, d) && vfSamePoint(gq, q) && vfSamePoint(&gp, &p)
			})
		case 6:
			method = "GetAll"
			from, to, l := zzvf.Int64("from"), zzvf.Int64("to"), zzvf.Int64("l")
			s.ret.list, s.ret.n = []int64{l}, 1
			if zzvf.Bool("none") {
				s.ret.list = nil
			}
			none := s.ret.list == nil
			list, total, e := c.GetAll(ctx, from, to)
			err = e
			args := s.args
			later = append(later, func() bool {
				return args[0].(int64) == from && args[1].(int64) == to && total == 1 && (list == nil) == none && (none || len(list) == 1 && list[0] == l)
			})
		case 7:
			method = "Index"
			v, level := zzvf.Int64("v"), zzvf.Int("level")
			key := []string{"k", "l"}[i%2]
			s.ret.m = map[Kind]Level{Kind(key): Level(level)}
			m, points, e := c.Index(ctx, map[string]int64{key: v}, []Kind{Kind(key)})
			err = e
			args := s.args
			later = append(later, func() bool {
				gm, gk := args[0].(map[string]int64), args[1].([]Kind)
				return len(gm) == 1 && gm[key] == v && len(gk) == 1 && gk[0] == Kind(key) && points == nil && len(m) == 1 && m[Kind(key)] == Level(level)
			})
		case 8:
			method = "Blob"
			data, ret := zzvf.Str("data", zzvf.Choose("datalen", 3)), zzvf.Str("result", zzvf.Choose("resultlen", 3))
			s.ret.data = []byte(ret)
			got, _, e := c.Blob(ctx, []byte(data), 1)
			err = e
			args := s.args
			later = append(later, func() bool {
				return string(args[0].([]byte)) == data && string(got) == ret
			})
		}
		if method == "" {
			var ce *gotsrpc.ClientError
			zzvf.Assert(err != nil && errors.As(err, &ce) && len(s.calls) == 0, "a call that fails is an error")
			zzvf.Reach("failed")
		} else {
			zzvf.Assert(err == nil, "the call succeeds")
			zzvf.Assert(requests == 1 && len(s.calls) == 1 && s.calls[0] == method, "the method runs, once, and no other")
			zzvf.Reach("succeeded")
		}
		for _, f := range later {
			zzvf.Assert(f(), "arguments and results are those of their own call")
		}
	}
	zzvf.Reach("end")
}
