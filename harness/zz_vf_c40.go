package gotsrpc

//vf:bound results and arguments of n values (bound "values") of 17 shapes: integers of every width, floats, bools, strings of up to 2 ASCII bytes and of 300, bytes, times, pointers, lists, arrays, maps with string and integer keys, structs with tags, omitempty, "-", unexported, embedded and nested fields, interfaces; any integer, any bool, set and unset; content types JSON, none, any of 2 bytes
//vf:outside what reaches the browser of float values that JSON cannot express; strings that are not ASCII; what a browser does with integers beyond 2^53, which it rounds; text of the JSON (white space, order of members)
//vf:stub codec: structural model, which the replays of sampled cases compare with the codec itself
//vf:stub a browser: a reader and writer of JSON that knows nothing of Go (encoding/json in replays)

import (
	"bytes"
	"net/http"
	"strings"
	"time"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfEmb40 struct {
	Base string `json:"base"`
}

type vfInner40 struct {
	N int32 `json:"n"`
}

type vfRec40 struct {
	Name    string            `json:"name"`
	Count   int64             `json:"count,omitempty"`
	Secret  string            `json:"-"`
	Flag    bool              `json:"flag"`
	Plain   uint16            // no tag
	Renamed string            `codec:"other" json:"unused"`
	Inner   vfInner40         `json:"inner"`
	Ptr     *vfInner40        `json:"ptr"`
	Opt     *vfInner40        `json:"opt,omitempty"`
	List    []vfInner40       `json:"list"`
	Map     map[string]int64  `json:"map,omitempty"`
	ByID    map[int32]bool    `json:"byId"`
	At      time.Time         `json:"at"`
	Data    []byte            `json:"data"`
	Any     interface{}       `json:"any"`
	Texts   map[string]string `json:"texts"`
	hidden  int
	vfEmb40
}

func vfASCII(label string) string {
	switch zzvf.Choose(label+" len", 4) {
	case 0:
		return ""
	case 1:
		s := zzvf.Str(label, 1)
		zzvf.Assume(s[0] < 0x80)
		return s
	case 2:
		s := zzvf.Str(label, 2)
		zzvf.Assume(zzvf.And(s[0] < 0x80, s[1] < 0x80))
		return s
	}
	return strings.Repeat("x\"\\<é", 60)
}

func vfIsInt(x interface{}, want int64) bool {
	switch n := x.(type) {
	case int64:
		return n == want
	case uint64:
		return want >= 0 && n == uint64(want)
	}
	return false
}

func vfIsUint(x interface{}, want uint64) bool {
	switch n := x.(type) {
	case int64:
		return n >= 0 && uint64(n) == want
	case uint64:
		return n == want
	}
	return false
}

func vfIsFloat(x interface{}, want float64) bool {
	switch n := x.(type) {
	case float64:
		return n == want
	case int64:
		return float64(n) == want
	case uint64:
		return float64(n) == want
	}
	return false
}

// vfMembers asserts that x is an object with exactly these members.
func vfMembers(x interface{}, what string, names ...string) map[string]interface{} {
	m, ok := x.(map[string]interface{})
	zzvf.Assert(ok, what+" is an object")
	zzvf.Assert(len(m) == len(names), what+" has the members it should have")
	for _, n := range names {
		_, ok := m[n]
		zzvf.Assert(ok, what+" has its member "+n)
	}
	return m
}

func vfList(x interface{}, what string, n int) []interface{} {
	l, ok := x.([]interface{})
	zzvf.Assert(ok, what+" is a list")
	zzvf.Assert(len(l) == n, what+" has its elements")
	return l
}

var vfTimes40 = []time.Time{{}, time.UnixMilli(0), time.UnixMilli(1700000000123), time.UnixMilli(-1)}

func vfContentType40() string {
	switch zzvf.Choose("content type", 4) {
	case 0:
		return vfJSONType
	case 1:
		return ""
	case 2:
		return "application/json"
	}
	return zzvf.Str("type", 2)
}

// vfValue40 is a value and what a browser has to see for it.
func vfValue40() (interface{}, func(x interface{})) {
	is := func(c bool, what string) { zzvf.Assert(c, what) }
	switch zzvf.Choose("value", 19) {
	case 0:
		return nil, func(x interface{}) { is(x == nil, "nil is null") }
	case 1:
		b := zzvf.Bool("b")
		return b, func(x interface{}) { v, ok := x.(bool); is(ok && v == b, "a bool is a bool") }
	case 2:
		n := zzvf.Int64("n")
		return n, func(x interface{}) { is(vfIsInt(x, n), "an integer is a number") }
	case 3:
		n := zzvf.Int8("n8")
		return n, func(x interface{}) { is(vfIsInt(x, int64(n)), "an int8 is a number") }
	case 4:
		n := zzvf.Uint8("u8")
		return n, func(x interface{}) { is(vfIsUint(x, uint64(n)), "a uint8 is a number") }
	case 5:
		n := zzvf.Uint64("u64")
		return n, func(x interface{}) { is(vfIsUint(x, n), "a uint64 is a number") }
	case 6:
		f := []float64{0, 1.5, -2.25, 3, 1e10}[zzvf.Choose("f", 5)]
		return f, func(x interface{}) { is(vfIsFloat(x, f), "a float is a number") }
	case 7:
		s := vfASCII("s")
		return s, func(x interface{}) { v, ok := x.(string); is(ok && v == s, "a string is a string") }
	case 8:
		d := []string{"", "\x00", "ab", "\xff\xfe\xfd"}[zzvf.Choose("d", 4)]
		w := []string{"", "AA==", "YWI=", "//79"}[zzvf.Concrete(strings.Index("\x00a\xff", (d + "-")[:1])+1)]
		if d == "" {
			w = ""
		}
		return []byte(d), func(x interface{}) { v, ok := x.(string); is(ok && v == w, "bytes are base64 text") }
	case 9:
		t := vfTimes40[zzvf.Choose("t", 4)]
		return t, func(x interface{}) { is(vfIsInt(x, t.UnixMilli()), "a time is its milliseconds") }
	case 10:
		t := vfTimes40[zzvf.Choose("t", 4)]
		return &t, func(x interface{}) { is(vfIsInt(x, t.UnixMilli()), "a pointer to a time is its milliseconds") }
	case 11:
		n := zzvf.Int64("n")
		p := &n
		return &p, func(x interface{}) { is(vfIsInt(x, n), "a pointer is what it points to") }
	case 12:
		l := make([]int64, zzvf.Choose("len", 3))
		for i := range l {
			l[i] = zzvf.Int64("e")
		}
		return l, func(x interface{}) {
			for i, e := range vfList(x, "a slice", len(l)) {
				is(vfIsInt(e, l[i]), "elements are numbers")
			}
		}
	case 13:
		a := [2]string{vfASCII("a"), "z"}
		return a, func(x interface{}) {
			for i, e := range vfList(x, "an array", 2) {
				v, ok := e.(string)
				is(ok && v == a[i], "elements are strings")
			}
		}
	case 14:
		m := map[int32]string{-1: "a", 7: vfASCII("m")}
		return m, func(x interface{}) {
			o := vfMembers(x, "a map with integer keys", "-1", "7")
			v, ok := o["7"].(string)
			is(ok && v == m[7], "elements of maps are strings")
		}
	case 15:
		m := map[string]interface{}{"k": zzvf.Int64("n"), "l": []interface{}{nil, true}}
		return m, func(x interface{}) {
			o := vfMembers(x, "a map", "k", "l")
			is(vfIsInt(o["k"], m["k"].(int64)), "elements of maps are numbers")
			l := vfList(o["l"], "a list in a map", 2)
			is(l[0] == nil && l[1] == true, "elements of lists in maps")
		}
	case 16:
		m := map[bool]uint8{true: 1, false: zzvf.Uint8("u")}
		return m, func(x interface{}) {
			o := vfMembers(x, "a map with bool keys", "true", "false")
			is(vfIsUint(o["false"], uint64(m[false])), "elements of maps are numbers")
		}
	case 17:
		s := []vfInner40{{1}, {zzvf.Int32("n")}}
		return s, func(x interface{}) {
			for i, e := range vfList(x, "a list of structs", 2) {
				is(vfIsInt(vfMembers(e, "a struct", "n")["n"], int64(s[i].N)), "fields are numbers")
			}
		}
	}
	r := vfRec40{Name: "n", Secret: "s", Count: zzvf.Int64("count"), Flag: zzvf.Bool("flag"), Plain: zzvf.Uint16("plain"), Renamed: "r", hidden: 1}
	r.Inner.N = zzvf.Int32("inner")
	r.Base = vfASCII("base")
	r.At = vfTimes40[zzvf.Choose("at", 4)]
	names := []string{"name", "flag", "Plain", "other", "inner", "ptr", "list", "byId", "at", "data", "any", "texts", "base"}
	set := zzvf.Bool("set")
	if set {
		r.Ptr, r.Opt = &vfInner40{1}, &vfInner40{2}
		r.List = []vfInner40{{zzvf.Int32("elem")}}
		r.Map = map[string]int64{"a b": zzvf.Int64("m")}
		r.ByID = map[int32]bool{12: true}
		r.Data = []byte("ab")
		r.Any = vfInner40{5}
		r.Texts = map[string]string{}
		names = append(names, "opt", "map")
	}
	if r.Count != 0 {
		names = append(names, "count")
	}
	var v interface{} = r
	if zzvf.Bool("pointer") {
		v = &r
	}
	return v, func(x interface{}) {
		o := vfMembers(x, "a struct", names...)
		is(o["name"] == "n" && o["other"] == "r" && o["flag"] == r.Flag && o["base"] == r.Base, "fields carry their values")
		is(vfIsUint(o["Plain"], uint64(r.Plain)) && vfIsInt(o["at"], r.At.UnixMilli()), "fields carry their values")
		if r.Count != 0 {
			is(vfIsInt(o["count"], r.Count), "fields carry their values")
		}
		is(vfIsInt(vfMembers(o["inner"], "a struct in a struct", "n")["n"], int64(r.Inner.N)), "fields carry their values")
		if !set {
			is(o["ptr"] == nil && o["list"] == nil && o["byId"] == nil && o["data"] == nil && o["any"] == nil && o["texts"] == nil, "what is nil is null")
			return
		}
		is(vfIsInt(vfMembers(o["ptr"], "a pointer's struct", "n")["n"], 1) && vfIsInt(vfMembers(o["opt"], "a pointer's struct", "n")["n"], 2), "fields carry their values")
		is(vfIsInt(vfMembers(vfList(o["list"], "a list", 1)[0], "a struct in a list", "n")["n"], int64(r.List[0].N)), "fields carry their values")
		is(vfIsInt(vfMembers(o["map"], "a map", "a b")["a b"], r.Map["a b"]), "fields carry their values")
		is(vfMembers(o["byId"], "a map", "12")["12"] == true, "fields carry their values")
		is(o["data"] == "YWI=", "fields carry their values")
		is(vfIsInt(vfMembers(o["any"], "a struct in an interface", "n")["n"], 5), "fields carry their values")
		vfMembers(o["texts"], "an empty map")
	}
}

// VF_C40_Reply: a reply is a JSON list with one element per result, each in the form a browser expects.
func VF_C40_Reply() {
	n := zzvf.Choose("values", zzvf.Bound("values", 1, 2)+1)
	rw := newVFRW()
	resp := []interface{}{}
	var checks []func(interface{})
	for i := 0; i < n; i++ {
		v, check := vfValue40()
		resp, checks = append(resp, v), append(checks, check)
	}
	ct := vfContentType40()
	err := Reply(resp, nil, vfPost(http.MethodPost, "/e/m", ct, nil), rw)
	zzvf.Assert(err == nil, "the results can be sent")
	x, ok := zzvf.JSONValue(rw.body)
	zzvf.Assert(ok, "the reply is one JSON value")
	l := vfList(x, "the reply", n)
	for i, check := range checks {
		check(l[i])
	}
	zzvf.Assert(rw.sent.Get("Content-Type") == vfJSONType, "the reply says that it is JSON")
	zzvf.Reach("sent")
}

// vfArg40 is an argument as a browser sends it, where it goes to, and what has to be there then.
func vfArg40() (sent interface{}, dst interface{}, check func()) {
	is := func(c bool, what string) { zzvf.Assert(c, what) }
	type obj = map[string]interface{}
	type list = []interface{}
	null := zzvf.Bool("null")
	or := func(v interface{}) interface{} {
		if null {
			return nil
		}
		return v
	}
	switch zzvf.Choose("arg", 16) {
	case 0:
		var d bool
		b := zzvf.Bool("b")
		return or(b), &d, func() { is(d == (b && !null), "a bool arrives") }
	case 1:
		var d int64
		n := zzvf.Int64("n")
		return or(n), &d, func() { is(d == n && !null || null && d == 0, "a number arrives") }
	case 2:
		var d uint8
		n := zzvf.Uint8("n")
		return or(int64(n)), &d, func() { is(d == n && !null || null && d == 0, "a number arrives") }
	case 3:
		var d float64
		f := []interface{}{int64(3), 1.5, -2.25}[zzvf.Choose("f", 3)]
		return or(f), &d, func() { is(vfIsFloat(f, d) && !null || null && d == 0, "a number arrives in a float") }
	case 4:
		var d string
		s := vfASCII("s")
		return or(s), &d, func() { is(d == s && !null || null && d == "", "a string arrives") }
	case 5:
		var d []byte
		return or("//79"), &d, func() { is(null && d == nil || string(d) == "\xff\xfe\xfd", "base64 text arrives as bytes") }
	case 6:
		var d time.Time
		t := vfTimes40[1+zzvf.Choose("t", 3)]
		return t.UnixMilli(), &d, func() { is(d.Equal(t), "milliseconds arrive as a time") }
	case 7:
		var d *int64
		n := zzvf.Int64("n")
		return or(n), &d, func() { is(null == (d == nil) && (null || *d == n), "a pointer is nil for null") }
	case 8:
		var d []string
		s := vfASCII("s")
		return or(list{s, "z"}), &d, func() {
			is(null && d == nil || !null && len(d) == 2 && d[0] == s && d[1] == "z", "a list arrives")
		}
	case 9:
		var d map[int32]vfInner40
		n := zzvf.Int32("n")
		return or(obj{"-7": obj{"n": int64(n)}}), &d, func() {
			is(null && d == nil || !null && len(d) == 1 && d[-7].N == n, "an object arrives in a map with integer keys")
		}
	case 10:
		var d map[string]interface{}
		n := zzvf.Int32("n")
		return or(obj{"a": list{int64(n), "s", nil}, "b": obj{"c": true}}), &d, func() {
			if null {
				is(d == nil, "a map is nil for null")
				return
			}
			is(len(d) == 2, "an object arrives in a map")
			l, ok := d["a"].([]interface{})
			is(ok && len(l) == 3 && vfIsInt(l[0], int64(n)) && l[1] == "s" && l[2] == nil, "a list arrives in an interface")
			o, ok := d["b"].(map[string]interface{})
			is(ok && len(o) == 1 && o["c"] == true, "an object arrives in an interface")
		}
	case 11:
		var d interface{}
		s := vfASCII("s")
		return or(s), &d, func() { is(null && d == nil || d == s, "a string arrives in an interface") }
	case 12:
		var d [2]int32
		n := zzvf.Int32("n")
		return list{int64(n), int64(2)}, &d, func() { is(d[0] == n && d[1] == 2, "a list arrives in an array") }
	case 13:
		var d map[string]string
		s := vfASCII("s")
		return or(obj{"k": s}), &d, func() { is(null && d == nil || !null && len(d) == 1 && d["k"] == s, "an object arrives in a map") }
	case 14:
		var d []*vfInner40
		n := zzvf.Int32("n")
		return or(list{nil, obj{"n": int64(n)}}), &d, func() {
			is(null && d == nil || !null && len(d) == 2 && d[0] == nil && d[1] != nil && d[1].N == n, "null in a list arrives as nil")
		}
	}
	o := obj{"name": "n", "Secret": "s", "-": "s", "hidden": int64(1), "nothing": obj{"x": list{int64(1)}}}
	var want vfRec40
	want.Name = "n"
	if zzvf.Bool("scalars") {
		want.Count, want.Flag, want.Plain, want.Renamed = zzvf.Int64("count"), zzvf.Bool("flag"), zzvf.Uint16("plain"), "r"
		want.Base, want.At = "b", vfTimes40[2]
		o["count"], o["flag"], o["Plain"], o["other"], o["base"], o["at"] = want.Count, want.Flag, int64(want.Plain), "r", "b", want.At.UnixMilli()
	}
	deep := zzvf.Choose("deep", 3)
	n := zzvf.Int32("n")
	switch deep {
	case 1:
		o["inner"], o["ptr"], o["opt"], o["list"], o["map"], o["byId"], o["data"], o["any"] = nil, nil, nil, nil, nil, nil, nil, nil
	case 2:
		o["inner"], o["ptr"], o["list"] = obj{"n": int64(n)}, obj{"n": int64(n)}, list{obj{"n": int64(n)}, obj{}}
		o["map"], o["byId"], o["data"], o["any"] = obj{"x y": int64(n)}, obj{"12": true}, "YWI=", "t"
	}
	var d vfRec40
	return o, &d, func() {
		is(d.Name == "n" && d.Secret == "" && d.hidden == 0, "fields arrive, and only those that are sent")
		is(d.Count == want.Count && d.Flag == want.Flag && d.Plain == want.Plain && d.Renamed == want.Renamed && d.Base == want.Base && d.At.Equal(want.At), "scalar fields arrive, missing ones are zero")
		if deep != 2 {
			is(d.Inner.N == 0 && d.Ptr == nil && d.Opt == nil && d.List == nil && d.Map == nil && d.ByID == nil && d.Data == nil && d.Any == nil, "fields are zero for null and when missing")
			return
		}
		is(d.Inner.N == n && d.Ptr != nil && d.Ptr.N == n && d.Opt == nil && len(d.List) == 2 && d.List[0].N == n && d.List[1].N == 0, "objects in objects arrive")
		is(len(d.Map) == 1 && d.Map["x y"] == int64(n) && len(d.ByID) == 1 && d.ByID[12] && string(d.Data) == "ab" && d.Any == "t", "members arrive")
	}
}

// VF_C40_Args: arguments in the form a browser sends them arrive with their meaning.
func VF_C40_Args() {
	n := 1 + zzvf.Choose("values", zzvf.Bound("values", 1, 2))
	var sent, dst []interface{}
	var checks []func()
	for i := 0; i < n; i++ {
		s, d, check := vfArg40()
		sent, dst, checks = append(sent, s), append(dst, d), append(checks, check)
	}
	body := zzvf.JSON(sent)
	r := vfPost(http.MethodPost, "/e/m", vfContentType40(), body)
	r.Body = newVFBody(bytes.Clone(body))
	err := LoadArgs(&dst, nil, r)
	zzvf.Assert(err == nil, "the arguments can be loaded")
	for _, check := range checks {
		check()
	}
	zzvf.Reach("loaded")
}
