// Package zzvf holds the harness primitives. The symbolic interpreter replaces every function here; this
// native implementation replays one concrete case against the real code.
package zzvf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type Val struct {
	K string `json:"k"`
	L string `json:"l"`
	I int64  `json:"i"`
	S []byte `json:"s,omitempty"`
}

type Case struct {
	ID      int    `json:"id"`
	Harness string `json:"harness"`
	Tier    string `json:"tier"`
	Inputs  []Val  `json:"inputs"`
	Repeat  int    `json:"repeat"`
	Fill    bool   `json:"fill"` // inputs beyond those given are zero
}

type Result struct {
	ID       int      `json:"id"`
	Failed   []string `json:"failed,omitempty"`
	Panic    string   `json:"panic,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Diverged string   `json:"diverged,omitempty"`
	Assumed  bool     `json:"assumed,omitempty"`
	Timeout  bool     `json:"timeout,omitempty"`
	Obs      []Val    `json:"obs,omitempty"`
	Reach    []string `json:"reach,omitempty"`
	Runs     int      `json:"runs"`
}

type stop struct{ why string }

var (
	cur    Case
	pos    int
	res    *Result
	tmp    string
	expect []string
)

// Run replays one case.
func Run(c Case, f func()) Result {
	n := c.Repeat
	if n < 1 {
		n = 1
	}
	var r Result
	for i := 0; i < n; i++ {
		r = run1(c, f)
		r.Runs = i + 1
		if len(r.Failed) > 0 || r.Panic != "" || r.Timeout || r.Diverged != "" {
			break
		}
	}
	return r
}

func run1(c Case, f func()) (r Result) {
	r.ID = c.ID
	cur, pos, res, tmp = c, 0, &r, ""
	wd, _ := os.Getwd()
	env := os.Environ()
	wd0, env0 = wd, env
	nexits, exits = 0, []string{""}
	if e := os.Getenv("ZZVF_EXITS"); e != "" {
		exits = strings.Split(e, ",")
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(stop); ok {
					switch {
					case s.why == "assume":
						r.Assumed = true
					case s.why == "failed":
					default:
						r.Diverged = s.why
					}
					return
				}
				r.Panic = fmt.Sprint(x)
				r.Stack = string(debug.Stack())
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return Result{ID: c.ID, Timeout: true}
	}
	os.Chdir(wd)
	os.Clearenv()
	for _, kv := range env {
		if i := strings.IndexByte(kv, '='); i > 0 {
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
	if tmp != "" && os.Getenv("ZZVF_TMP") == "" {
		filepath.Walk(tmp, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(tmp)
	}
	return r
}

func next(kind, label string) Val {
	if pos >= len(cur.Inputs) && cur.Fill {
		return Val{K: "fill"}
	}
	if pos >= len(cur.Inputs) {
		panic(stop{"ran out of inputs at " + kind + " " + label})
	}
	v := cur.Inputs[pos]
	pos++
	if v.K != kind || v.L != label {
		panic(stop{fmt.Sprintf("wanted %s %s, have %s %s", kind, label, v.K, v.L)})
	}
	return v
}

// Sym is true under symbolic execution.
func Sym() bool { return false }

func Bool(l string) bool                { return next("bool", l).I != 0 }
func Byte(l string) byte                { return byte(next("byte", l).I) }
func Int(l string) int                  { return int(next("int", l).I) }
func Int64(l string) int64              { return next("int", l).I }
func Uint64(l string) uint64            { return uint64(next("int", l).I) }
func Int32(l string) int32              { return int32(next("int", l).I) }
func Uint32(l string) uint32            { return uint32(next("int", l).I) }
func Int16(l string) int16              { return int16(next("int", l).I) }
func Uint16(l string) uint16            { return uint16(next("int", l).I) }
func Int8(l string) int8                { return int8(next("int", l).I) }
func Uint8(l string) uint8              { return uint8(next("int", l).I) }
func IntRange(l string, lo, hi int) int { return min(hi, max(lo, int(next("int", l).I))) }

// Choose picks one of n alternatives.
func Choose(l string, n int) int { return int(next("int", l).I) }

// Str is an arbitrary string of n bytes.
func Str(l string, n int) string {
	v := next("str", l)
	if v.K == "fill" {
		return strings.Repeat("a", n)
	}
	if len(v.S) != n {
		panic(stop{fmt.Sprintf("string %s has length %d, want %d", l, len(v.S), n)})
	}
	return string(v.S)
}

// StrOf is an arbitrary string of n bytes out of alphabet.
func StrOf(l string, n int, alphabet string) string { return Str(l, n) }

// Bound is a bound of the exploration: quick or thorough.
func Bound(l string, quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

func Assume(b bool) {
	if !b {
		panic(stop{"assume"})
	}
}

func Assert(b bool, msg string) {
	if !b {
		res.Failed = append(res.Failed, msg)
		panic(stop{"failed"})
	}
}

// AssertKnown is Assert; where known holds a failure is the known finding id.
func AssertKnown(b, known bool, id, msg string) {
	if known {
		msg += " [known]"
	}
	Assert(b, msg)
}

func Fail(msg string) { Assert(false, msg) }

func Reach(l string) {
	for _, r := range res.Reach {
		if r == l {
			return
		}
	}
	res.Reach = append(res.Reach, l)
}

func MapOrder(on bool) {}
func MustTerminate()   {}
func SyncGo(on bool)   {}
func Steps(n int)      {}

func ObsStr(l, s string)       { res.Obs = append(res.Obs, Val{K: "obs", L: l, S: append([]byte{}, s...)}) }
func ObsInt(l string, v int64) { res.Obs = append(res.Obs, Val{K: "obs", L: l, I: v}) }
func ObsBool(l string, v bool) {
	i := int64(0)
	if v {
		i = 1
	}
	ObsInt(l, i)
}
func End()               { panic(stop{"assume"}) }
func Concrete(i int) int { return i }
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }

// TempDir is a scratch directory of this case.
func TempDir() string {
	if tmp == "" {
		if tmp = os.Getenv("ZZVF_TMP"); tmp != "" {
			return tmp
		}
		d, err := os.MkdirTemp("", "zzvf")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

// Exits runs f and tells the code it exits the process with, -1 if it returns. Natively f runs in a process of
// its own, which gets here the same way.
func Exits(f func()) int {
	nexits++ // exits[0] is not used
	if os.Getenv("ZZVF_TMP") != "" {
		if nexits < len(exits) {
			if exits[nexits] == "-1" {
				f()
			}
			return atoi(exits[nexits])
		}
		f()
		os.Exit(99)
	}
	c := cur
	c.Repeat = 1
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe)
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	cmd.ExtraFiles = []*os.File{null}
	cmd.Dir = wd0
	cmd.Env = append([]string{}, env0...)
	cmd.Env = append(cmd.Env, "ZZVF_TMP="+TempDir(), "ZZVF_EXITS="+strings.Join(exits, ","))
	code := 0
	if err := cmd.Run(); err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = x.ExitCode()
	}
	if code == 99 {
		code = -1
	}
	exits = append(exits, fmt.Sprint(code))
	return code
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

var (
	nexits int
	exits  []string
	wd0    string
	env0   []string
)

var mark = time.Unix(1000000000, 0)

func WriteFile(p, content string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(err)
	}
	if err := os.Chtimes(p, mark, mark); err != nil {
		panic(err)
	}
}

// Touched tells whether p was written since WriteFile(p).
func Touched(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && !fi.ModTime().Equal(mark)
}

func MkdirAll(p string) {
	if err := os.MkdirAll(p, 0o755); err != nil {
		panic(err)
	}
}

func ReadFile(p string) (string, bool) {
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

func Chdir(p string) {
	if err := os.Chdir(p); err != nil {
		panic(err)
	}
}

// FSFail makes an operation on p fail: read (file), write (file), mkdir (below the directory of p).
func FSFail(op, p string) {
	if os.Geteuid() == 0 {
		panic(stop{"cannot simulate file system failures as root"})
	}
	var err error
	switch op {
	case "read":
		err = os.Chmod(p, 0o200)
	case "write":
		if err = os.Chmod(p, 0o444); os.IsNotExist(err) {
			// a directory in its place cannot be written nor removed
			if err = os.MkdirAll(p, 0o755); err == nil {
				err = os.WriteFile(filepath.Join(p, "x"), nil, 0o644)
			}
		}
	case "mkdir":
		err = os.Chmod(filepath.Dir(p), 0o555)
	}
	if err != nil {
		panic(err)
	}
}

// JSONValue is what a reader of JSON who knows nothing of Go makes of the message: nil, bool, string,
// int64, uint64, float64, []interface{} and map[string]interface{}.
func JSONValue(body []byte) (interface{}, bool) {
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil || d.More() {
		return nil, false
	}
	return number(v), true
}

func number(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return i
		} else if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return u
		}
		f, _ := x.Float64()
		return f
	case []interface{}:
		for i := range x {
			x[i] = number(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = number(x[k])
		}
	}
	return v
}

// JSON is the message a browser sends for the value, which is made of what JSONValue returns.
func JSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
