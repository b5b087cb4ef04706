package main

// Pure standard-library functions that are run natively when every argument is concrete.
// With a symbolic argument the library source itself is interpreted.

import (
	"go/format"
	"go/token"
	"html"
	"math"
	"net/textproto"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type nativeFn struct {
	fv reflect.Value
	ft reflect.Type
}

var natives = map[string]*nativeFn{}

func nat(name string, f interface{}) {
	v := reflect.ValueOf(f)
	natives[name] = &nativeFn{v, v.Type()}
}

func init() {
	nat("strings.Contains", strings.Contains)
	nat("strings.ContainsAny", strings.ContainsAny)
	nat("strings.ContainsRune", strings.ContainsRune)
	nat("strings.Count", strings.Count)
	nat("strings.Cut", strings.Cut)
	nat("strings.EqualFold", strings.EqualFold)
	nat("strings.Fields", strings.Fields)
	nat("strings.HasPrefix", strings.HasPrefix)
	nat("strings.HasSuffix", strings.HasSuffix)
	nat("strings.IndexByte", strings.IndexByte)
	nat("strings.IndexRune", strings.IndexRune)
	nat("strings.IndexAny", strings.IndexAny)
	nat("strings.Join", strings.Join)
	nat("strings.LastIndex", strings.LastIndex)
	nat("strings.LastIndexByte", strings.LastIndexByte)
	nat("strings.Repeat", strings.Repeat)
	nat("strings.Replace", strings.Replace)
	nat("strings.ReplaceAll", strings.ReplaceAll)
	nat("strings.Split", strings.Split)
	nat("strings.SplitN", strings.SplitN)
	nat("strings.SplitAfter", strings.SplitAfter)
	nat("strings.Title", strings.Title) //nolint:staticcheck
	nat("strings.ToLower", strings.ToLower)
	nat("strings.ToUpper", strings.ToUpper)
	nat("strings.Trim", strings.Trim)
	nat("strings.TrimLeft", strings.TrimLeft)
	nat("strings.TrimRight", strings.TrimRight)
	nat("strings.TrimPrefix", strings.TrimPrefix)
	nat("strings.TrimSuffix", strings.TrimSuffix)
	nat("strings.TrimSpace", strings.TrimSpace)
	nat("strings.Compare", strings.Compare)
	nat("strconv.Itoa", strconv.Itoa)
	nat("strconv.FormatInt", strconv.FormatInt)
	nat("strconv.FormatUint", strconv.FormatUint)
	nat("strconv.FormatFloat", strconv.FormatFloat)
	nat("strconv.FormatBool", strconv.FormatBool)
	nat("strconv.Quote", strconv.Quote)
	nat("strconv.Unquote", strconv.Unquote)
	nat("strconv.Atoi", strconv.Atoi)
	nat("strconv.ParseInt", strconv.ParseInt)
	nat("strconv.ParseUint", strconv.ParseUint)
	nat("strconv.ParseFloat", strconv.ParseFloat)
	nat("strconv.ParseBool", strconv.ParseBool)
	nat("strconv.CanBackquote", strconv.CanBackquote)
	nat("path.Join", path.Join)
	nat("path.Clean", path.Clean)
	nat("path.Base", path.Base)
	nat("path.Dir", path.Dir)
	nat("path.Ext", path.Ext)
	nat("path.IsAbs", path.IsAbs)
	nat("path.Split", path.Split)
	nat("path/filepath.Join", filepath.Join)
	nat("path/filepath.Clean", filepath.Clean)
	nat("path/filepath.Base", filepath.Base)
	nat("path/filepath.Dir", filepath.Dir)
	nat("path/filepath.Ext", filepath.Ext)
	nat("path/filepath.IsAbs", filepath.IsAbs)
	nat("path/filepath.Split", filepath.Split)
	nat("path/filepath.Rel", filepath.Rel)
	nat("path/filepath.ToSlash", filepath.ToSlash)
	nat("unicode.IsLetter", unicode.IsLetter)
	nat("unicode.IsDigit", unicode.IsDigit)
	nat("unicode.IsUpper", unicode.IsUpper)
	nat("unicode.IsLower", unicode.IsLower)
	nat("unicode.IsSpace", unicode.IsSpace)
	nat("unicode.IsPrint", unicode.IsPrint)
	nat("unicode.ToUpper", unicode.ToUpper)
	nat("unicode.ToLower", unicode.ToLower)
	nat("unicode.ToTitle", unicode.ToTitle)
	nat("unicode.SimpleFold", unicode.SimpleFold)
	nat("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	nat("unicode/utf8.ValidString", utf8.ValidString)
	nat("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)
	nat("unicode/utf8.DecodeLastRuneInString", utf8.DecodeLastRuneInString)
	nat("unicode/utf8.RuneLen", utf8.RuneLen)
	nat("unicode/utf8.ValidRune", utf8.ValidRune)
	nat("net/textproto.CanonicalMIMEHeaderKey", textproto.CanonicalMIMEHeaderKey)
	nat("go/token.IsExported", token.IsExported)
	nat("go/token.IsIdentifier", token.IsIdentifier)
	nat("go/token.IsKeyword", token.IsKeyword)
	nat("math.Log", math.Log)
	nat("math.Exp", math.Exp)
	nat("math.Pow", math.Pow)
	nat("math.Sqrt", math.Sqrt)
	nat("math.Ceil", math.Ceil)
	nat("math.Floor", math.Floor)
	nat("math.Trunc", math.Trunc)
	nat("html.EscapeString", html.EscapeString)
	nat("net/url.PathEscape", url.PathEscape)
	nat("net/url.QueryEscape", url.QueryEscape)
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func (n *nativeFn) call(args []Value) (Value, bool) {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := n.ft.In(i)
		switch x := a.(type) {
		case string:
			if t.Kind() != reflect.String {
				return nil, false
			}
			in[i] = reflect.ValueOf(x).Convert(t)
		case bool:
			in[i] = reflect.ValueOf(x)
		case float64:
			in[i] = reflect.ValueOf(x).Convert(t)
		case uint64:
			in[i] = reflect.ValueOf(x).Convert(t)
			switch t.Kind() {
			case reflect.Int32:
				in[i] = reflect.ValueOf(int32(uint32(x))).Convert(t)
			}
		case []Value:
			if t.Kind() != reflect.Slice || t.Elem().Kind() != reflect.String {
				return nil, false
			}
			var ss []string
			if x != nil {
				ss = make([]string, len(x))
			}
			for j, y := range x {
				s, ok := y.(string)
				if !ok {
					return nil, false
				}
				ss[j] = s
			}
			in[i] = reflect.ValueOf(ss)
		default:
			return nil, false
		}
	}
	var out []reflect.Value
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false // e.g. negative Repeat count: let the interpreter produce the panic
			}
		}()
		if n.ft.IsVariadic() {
			out = n.fv.CallSlice(in)
		} else {
			out = n.fv.Call(in)
		}
	}()
	if !ok {
		return nil, false
	}
	res := make(Tuple, len(out))
	for i, o := range out {
		switch o.Kind() {
		case reflect.String:
			res[i] = o.String()
		case reflect.Bool:
			res[i] = o.Bool()
		case reflect.Int, reflect.Int64:
			res[i] = uint64(o.Int())
		case reflect.Int32:
			res[i] = uint64(uint32(o.Int()))
		case reflect.Uint64, reflect.Uint:
			res[i] = o.Uint()
		case reflect.Float64:
			res[i] = o.Float()
		case reflect.Slice:
			if o.IsNil() {
				res[i] = []Value(nil)
				break
			}
			s := make([]Value, o.Len())
			for j := range s {
				s[j] = o.Index(j).String()
			}
			res[i] = s
		case reflect.Interface:
			if !o.IsNil() {
				return nil, false
			}
			res[i] = Iface{}
		default:
			return nil, false
		}
	}
	if len(res) == 1 {
		return res[0], true
	}
	return res, true
}

// softs run natively what has only concrete arguments; otherwise the function is interpreted.
var softs = map[string]func(w *Worker, fr *frame, args []Value) (Value, bool){
	"go/format.Source": func(w *Worker, fr *frame, a []Value) (Value, bool) {
		b, ok := concreteBytes(a[0].([]Value))
		if !ok {
			return nil, false
		}
		out, err := format.Source(b)
		if err != nil {
			return nil, false
		}
		l := make([]Value, len(out))
		for i, c := range out {
			l[i] = uint64(c)
		}
		return Tuple{l, Iface{}}, true
	},
}

func concreteBytes(in []Value) ([]byte, bool) {
	b := make([]byte, len(in))
	for i, x := range in {
		c, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(c)
	}
	return b, true
}
