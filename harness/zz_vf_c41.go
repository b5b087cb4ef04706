package gotsrpc

//vf:bound a sender's struct with 9 fields and a receiver's with other fields, another order, other Go types of the same shape and one level of embedding less or more; as argument and as result, on its own, in a list, in a map, behind a pointer; arguments and results received in interfaces: scalars, lists, maps and structs, nested to depth n (bound "depth"); any integers and bools, strings of up to 2 bytes; both encodings
//vf:outside types of different shape (a number where a list is expected); bytes and times received in interfaces; map keys that are not strings received in interfaces
//vf:stub codec: structural model; transport: in memory

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfBase41 struct {
	ID int64 `json:"id"`
}

type vfNew41 struct {
	Added  map[string][]int64 `json:"added"`
	Name   string             `json:"name"`
	Count  int64              `json:"count,omitempty"`
	Inner  vfInner41          `json:"inner"`
	Extra  *vfInner41         `json:"extra"`
	List   []vfInner41        `json:"list"`
	Flag   bool               `json:"flag"`
	Labels map[string]string  `json:"labels"`
	vfBase41
}

type vfInner41 struct {
	More interface{} `json:"more"`
	N    int32       `json:"n"`
	S    string      `json:"s"`
}

type vfText41 string

type vfOldInner41 struct {
	N int64 `json:"n"`
	Z uint8 `json:"z"`
}

type vfOld41 struct {
	ID     uint64              `json:"id"`
	Flag   *bool               `json:"flag"`
	Title  vfText41            `codec:"name"`
	Count  int64               `json:"count"`
	Gone   string              `json:"gone"`
	Inner  *vfOldInner41       `json:"inner"`
	List   []*vfOldInner41     `json:"list"`
	Labels map[vfText41]string `json:"labels"`
}

// vfSend41 passes a value through a call, as argument or as result; dst points to where it goes.
func vfSend41(v, dst interface{}) error {
	enc := vfEncoding("json")
	if zzvf.Bool("result") {
		rw := newVFRW()
		if err := Reply([]interface{}{v}, nil, vfPost(http.MethodPost, "/e/m", vfTypeOf(enc), nil), rw); err != nil {
			return err
		}
		reply := []interface{}{dst}
		return vfReceiveAs(enc, rw, reply)
	}
	args := []interface{}{dst}
	return LoadArgs(&args, nil, vfPost(http.MethodPost, "/e/m", vfTypeOf(enc), vfArgsBody(enc, []interface{}{v})))
}

// VF_C41_Versions: fields meet by their names; what the other side does not know does not matter.
func VF_C41_Versions() {
	n, m := zzvf.Int32("n"), zzvf.Int64("m")
	zzvf.Assume(m >= 0)
	name := vfText("name", 3)
	flag := zzvf.Bool("flag")
	src := vfNew41{Name: name, Flag: flag, Inner: vfInner41{N: n, S: "s", More: []interface{}{"x", map[string]interface{}{"y": nil}}}}
	src.ID = m
	src.Added = map[string][]int64{"a": {1, m}}
	src.Count = zzvf.Int64("count")
	full := zzvf.Bool("full")
	if full {
		src.Extra = &vfInner41{N: 3}
		src.List = []vfInner41{{N: 1}, {N: n, More: 7}}
		src.Labels = map[string]string{"k": name}
	}
	check := func(d *vfOld41) {
		zzvf.Assert(d != nil && d.ID == uint64(m) && d.Flag != nil && *d.Flag == flag && string(d.Title) == name && d.Count == src.Count, "fields both know arrive")
		zzvf.Assert(d.Gone == "", "fields the sender does not know stay zero")
		zzvf.Assert(d.Inner != nil && d.Inner.N == int64(n) && d.Inner.Z == 0, "fields of inner structs arrive")
		if full {
			zzvf.Assert(len(d.List) == 2 && d.List[0].N == 1 && d.List[1].N == int64(n), "elements arrive")
			zzvf.Assert(len(d.Labels) == 1 && d.Labels["k"] == name, "maps arrive")
		} else {
			zzvf.Assert(d.List == nil && d.Labels == nil, "what is nil stays nil")
		}
		zzvf.Reach("arrived")
	}
	const ok = "the value can be sent and received"
	switch zzvf.Choose("place", 4) {
	case 0:
		var d vfOld41
		zzvf.Assert(vfSend41(src, &d) == nil, ok)
		check(&d)
	case 1:
		var d *vfOld41
		zzvf.Assert(vfSend41(&src, &d) == nil, ok)
		check(d)
	case 2:
		var d []vfOld41
		zzvf.Assert(vfSend41([2]*vfNew41{&src, nil}, &d) == nil, ok)
		zzvf.Assert(len(d) == 2, "all elements arrive")
		check(&d[0])
		zzvf.Assert(d[1].Title == "" && d[1].Inner == nil, "nil arrives as zero value")
	case 3:
		var d map[string]*vfOld41
		zzvf.Assert(vfSend41(map[vfText41]vfNew41{"k": src}, &d) == nil, ok)
		zzvf.Assert(len(d) == 1, "all elements arrive")
		check(d["k"])
	}
}

// VF_C41_Back: the old side's value on the new side.
func VF_C41_Back() {
	id, n := zzvf.Uint64("id"), zzvf.Int32("n")
	zzvf.Assume(id < 1<<63)
	name := vfText("name", 3)
	src := vfOld41{ID: id, Title: vfText41(name), Gone: "g", Inner: &vfOldInner41{N: int64(n), Z: 9}}
	var flag bool
	if zzvf.Bool("flag set") {
		flag = zzvf.Bool("flag")
		src.Flag = &flag
	}
	list := zzvf.Bool("list")
	if list {
		src.List = []*vfOldInner41{nil, {N: int64(n)}}
	}
	var d vfNew41
	zzvf.Assert(vfSend41(src, &d) == nil, "the value can be sent and received")
	zzvf.Assert(d.ID == int64(id) && d.Name == name && d.Flag == flag && d.Count == 0, "fields both know arrive")
	zzvf.Assert(d.Inner.N == n && d.Inner.S == "" && d.Inner.More == nil, "fields of inner structs arrive")
	zzvf.Assert(d.Added == nil && d.Extra == nil && d.Labels == nil, "fields the sender does not know stay zero")
	if list {
		zzvf.Assert(len(d.List) == 2 && d.List[0].N == 0 && d.List[1].N == n, "elements arrive")
	} else {
		zzvf.Assert(d.List == nil, "what is nil stays nil")
	}
	zzvf.Reach("arrived")
}

// vfAny41 is a value and what it has to be in an interface.
func vfAny41(depth int) (interface{}, func(x interface{})) {
	is := func(c bool) { zzvf.Assert(c, "a value arrives in an interface in its natural form") }
	kinds := 9
	if depth <= 0 {
		kinds = 5
	}
	switch zzvf.Choose("any", kinds) {
	case 0:
		return nil, func(x interface{}) { is(x == nil) }
	case 1:
		b := zzvf.Bool("b")
		return b, func(x interface{}) { v, ok := x.(bool); is(ok && v == b) }
	case 2:
		n := zzvf.Int64("n")
		return n, func(x interface{}) { is(vfNum41(x, n)) }
	case 3:
		f := []float64{0.5, -2.25}[zzvf.Choose("f", 2)]
		return f, func(x interface{}) { v, ok := x.(float64); is(ok && v == f) }
	case 4:
		s := vfText("s", 3)
		return s, func(x interface{}) { v, ok := x.(string); is(ok && v == s) }
	case 5:
		v, check := vfAny41(depth - 1)
		return []interface{}{v, "e"}, func(x interface{}) {
			l, ok := x.([]interface{})
			is(ok && len(l) == 2 && l[1] == "e")
			check(l[0])
		}
	case 6:
		v, check := vfAny41(depth - 1)
		return map[string]interface{}{"k": v, "l": true}, func(x interface{}) {
			m, ok := x.(map[string]interface{})
			is(ok && len(m) == 2 && m["l"] == true)
			check(m["k"])
		}
	case 7:
		v, check := vfAny41(depth - 1)
		return &vfInner41{N: 5, S: "s", More: v}, func(x interface{}) {
			m, ok := x.(map[string]interface{})
			is(ok && len(m) == 3 && m["s"] == "s" && vfNum41(m["n"], 5))
			check(m["more"])
		}
	}
	s := vfText("s", 3)
	return []map[string]string{nil, {"a": s}}, func(x interface{}) {
		l, ok := x.([]interface{})
		is(ok && len(l) == 2 && l[0] == nil)
		m, ok := l[1].(map[string]interface{})
		is(ok && len(m) == 1 && m["a"] == s)
	}
}

func vfNum41(x interface{}, want int64) bool {
	switch n := x.(type) {
	case int64:
		return n == want
	case uint64:
		return want >= 0 && n == uint64(want)
	}
	return false
}

// VF_C41_Any: what is received in an interface.
func VF_C41_Any() {
	v, check := vfAny41(zzvf.Bound("depth", 1, 2))
	var d interface{}
	zzvf.Assert(vfSend41(v, &d) == nil, "the value can be sent and received")
	check(d)
	zzvf.Reach("arrived")
}
