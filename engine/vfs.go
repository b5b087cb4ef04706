package main

// Virtual file system standing in for the os package.

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
)

type vnode struct {
	dir  bool
	data []Value
	mode uint64
	ver  int // writes since zzvf.WriteFile
}

type vfile struct {
	name  string
	node  *vnode
	off   int
	write bool
}

type vfs struct {
	nodes  map[string]*vnode
	files  map[*Value]*vfile
	fail   map[string]bool // operations that fail, "op:path"
	cwd    string
	writes int
}

func newVFS() *vfs {
	f := &vfs{nodes: map[string]*vnode{}, files: map[*Value]*vfile{}, fail: map[string]bool{}, cwd: "/vfs"}
	f.nodes["/"] = &vnode{dir: true}
	f.mkdirAll("/vfs")
	f.mkdirAll("/home/u")
	f.mkdirAll("/tmp")
	return f
}

func (f *vfs) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *vfs) get(p string) *vnode { return f.nodes[f.abs(p)] }

// mkdirAll reports the path element that is a file, if any.
func (f *vfs) mkdirAll(p string) string {
	p = f.abs(p)
	cur := ""
	for _, e := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		cur += "/" + e
		n := f.nodes[cur]
		if n == nil {
			f.nodes[cur] = &vnode{dir: true}
		} else if !n.dir {
			return cur
		}
	}
	return ""
}

func (f *vfs) put(p string, data []Value) {
	p = f.abs(p)
	f.mkdirAll(path.Dir(p))
	f.nodes[p] = &vnode{data: append([]Value(nil), data...), mode: 0o644}
}

// readOnly tells whether creating p fails because the first missing element would be created in a directory
// that was made read-only.
func (f *vfs) readOnly(p string) bool {
	p = f.abs(p)
	for p != "/" && f.nodes[p] == nil {
		d := path.Dir(p)
		if f.nodes[d] != nil {
			return f.fail["ro:"+d]
		}
		p = d
	}
	return false
}

func (f *vfs) file(v Value) *vfile {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	return f.files[p]
}

func (f *vfs) list(p string) []string {
	p = f.abs(p)
	if p != "/" {
		p += "/"
	}
	var out []string
	for k := range f.nodes {
		if strings.HasPrefix(k, p) && k != p && !strings.Contains(k[len(p):], "/") && k[len(p):] != "" {
			out = append(out, k[len(p):])
		}
	}
	sort.Strings(out)
	return out
}

func (w *Worker) fsWrite(f *vfile, b []Value) Value {
	if w.fs.fail["write:"+f.name] {
		return Tuple{uint64(0), w.pathError("write", f.name, "EIO")}
	}
	w.fs.writes++
	f.node.ver++
	f.node.data = append(append([]Value(nil), f.node.data...), b...)
	return Tuple{uint64(len(b)), Iface{}}
}

var errno = map[string]uint64{"ENOENT": 2, "EIO": 5, "EACCES": 13, "EEXIST": 17, "ENOTDIR": 20, "EISDIR": 21, "ENOSPC": 28}

// pathError builds a *fs.PathError with a syscall.Errno.
func (w *Worker) pathError(op string, name Value, e string) Value {
	t := w.prog.typ("io/fs", "PathError")
	p := new(Value)
	*p = Struct{op, name, Iface{T: w.prog.typ("syscall", "Errno"), V: errno[e]}}
	return Iface{T: types.NewPointer(t), V: p}
}

// pathArg is the path v; a path that does not exist is made concrete only if it is going to be created.
func (w *Worker) pathArg(v Value) string { return w.pathFor(v, true) }

func (w *Worker) pathRead(v Value) string { return w.pathFor(v, false) }

func (w *Worker) pathFor(v Value, create bool) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		// clean it, below the working directory
		clean := w.prog.byPath["path"].Func("Clean")
		var v Value = s
		if !w.truth(w.eq8(s.b[0], '/')) {
			v = strConcat(w.fs.cwd+"/", v)
		}
		v = w.callFn(w.curFrame, clean, []Value{v}, nil)
		s, ok := v.(*SStr)
		if !ok {
			return v.(string)
		}
		// a path that depends on symbolic bytes: fork over the paths that exist, plus "none of them"
		for _, k := range sortedKeys(w.fs.nodes) {
			if len(k) == len(s.b) && w.truth(w.strEq(s, k)) {
				return k
			}
		}
		if !create {
			return "/zz/does not exist"
		}
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch c := x.(type) {
			case uint64:
				b[i] = byte(c)
			case *Term:
				b[i] = byte(w.concretize(c))
			}
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("path %T", v)))
}

func (w *Worker) eq8(x Value, c byte) Value {
	if t, ok := x.(*Term); ok {
		return fromTerm(w.tb.Eq(t, w.tb.C(uint64(c), 8)))
	}
	return x.(uint64) == uint64(c)
}

func (w *Worker) newFile(f *vfile) Value {
	p := new(Value)
	*p = zero(w.prog.typ("os", "File"))
	w.fs.files[p] = f
	return p
}

func (w *Worker) modelType(name string) types.Type { return w.prog.typ(modelPkg, name) }

const modelPkg = "github.com/foomo/gotsrpc/v2/zzvf/model"

func (w *Worker) fileInfo(name string, n *vnode) Value {
	return Struct{name, uint64(len(n.data)), n.dir}
}

func init() {
	nilErr := Iface{}
	reg("os.ReadFile io/ioutil.ReadFile", func(w *Worker, fr *frame, a []Value) Value {
		p := w.pathRead(a[0])
		n := w.fs.get(p)
		switch {
		case w.fs.fail["read:"+w.fs.abs(p)]:
			return Tuple{[]Value(nil), w.pathError("open", a[0], "EACCES")}
		case n == nil:
			return Tuple{[]Value(nil), w.pathError("open", a[0], "ENOENT")}
		case n.dir:
			return Tuple{[]Value(nil), w.pathError("read", a[0], "EISDIR")}
		}
		return Tuple{append([]Value{}, n.data...), nilErr}
	})
	open := func(w *Worker, v Value, flag int) Value {
		p := w.pathFor(v, flag&0x40 != 0)
		ap := w.fs.abs(p)
		n := w.fs.get(p)
		const (
			oWRONLY = 1
			oRDWR   = 2
			oCREATE = 0x40
			oEXCL   = 0x80
			oTRUNC  = 0x200
			oAPPEND = 0x400
		)
		wr := flag&(oWRONLY|oRDWR) != 0
		if w.fs.fail["open:"+ap] || !wr && w.fs.fail["read:"+ap] || wr && w.fs.fail["write:"+ap] {
			return Tuple{nilPtr, w.pathError("open", v, "EACCES")}
		}
		if n == nil {
			if flag&oCREATE == 0 {
				return Tuple{nilPtr, w.pathError("open", v, "ENOENT")}
			}
			d := w.fs.get(path.Dir(ap))
			if d == nil {
				return Tuple{nilPtr, w.pathError("open", v, "ENOENT")}
			}
			if !d.dir {
				return Tuple{nilPtr, w.pathError("open", v, "ENOTDIR")}
			}
			if w.fs.readOnly(ap) {
				return Tuple{nilPtr, w.pathError("open", v, "EACCES")}
			}
			n = &vnode{mode: 0o644, ver: 1}
			w.fs.nodes[ap] = n
			w.fs.writes++
		} else if n.dir && wr {
			return Tuple{nilPtr, w.pathError("open", v, "EISDIR")}
		} else if flag&oEXCL != 0 {
			return Tuple{nilPtr, w.pathError("open", v, "EEXIST")}
		}
		if flag&oTRUNC != 0 {
			n.data = nil
			n.ver++
			w.fs.writes++
		}
		return Tuple{w.newFile(&vfile{name: ap, node: n, write: wr}), nilErr}
	}
	reg("os.Open", func(w *Worker, fr *frame, a []Value) Value { return open(w, a[0], 0) })
	reg("os.Create", func(w *Worker, fr *frame, a []Value) Value { return open(w, a[0], 2|0x40|0x200) })
	reg("os.OpenFile", func(w *Worker, fr *frame, a []Value) Value { return open(w, a[0], w.cint(a[1])) })
	reg("(*os.File).Close", func(w *Worker, fr *frame, a []Value) Value { return nilErr })
	reg("(*os.File).Sync", func(w *Worker, fr *frame, a []Value) Value { return nilErr })
	reg("(*os.File).Read", func(w *Worker, fr *frame, a []Value) Value {
		f := w.fs.file(a[0])
		if f == nil {
			panic(unsupported("read of unknown file"))
		}
		b := a[1].([]Value)
		if f.off >= len(f.node.data) {
			if len(b) == 0 {
				return Tuple{uint64(0), nilErr}
			}
			return Tuple{uint64(0), *w.global(w.prog.byPath["io"].Var("EOF"))}
		}
		n := 0
		for n < len(b) && f.off < len(f.node.data) {
			w.store(&b[n], f.node.data[f.off])
			n++
			f.off++
		}
		return Tuple{uint64(n), nilErr}
	})
	reg("(*os.File).Name", func(w *Worker, fr *frame, a []Value) Value {
		if f := w.fs.file(a[0]); f != nil {
			return f.name
		}
		return "/dev/stderr"
	})
	reg("os.WriteFile io/ioutil.WriteFile", func(w *Worker, fr *frame, a []Value) Value {
		t := open(w, a[0], 1|0x40|0x200).(Tuple)
		if t[1].(Iface).T != nil {
			return t[1]
		}
		return w.fsWrite(w.fs.file(t[0]), a[1].([]Value)).(Tuple)[1]
	})
	reg("os.MkdirAll", func(w *Worker, fr *frame, a []Value) Value {
		p := w.pathArg(a[0])
		if w.fs.readOnly(p) {
			return w.pathError("mkdir", a[0], "EACCES")
		}
		if f := w.fs.mkdirAll(p); f != "" {
			return w.pathError("mkdir", f, "ENOTDIR")
		}
		return nilErr
	})
	reg("os.Mkdir", func(w *Worker, fr *frame, a []Value) Value {
		p := w.pathArg(a[0])
		if w.fs.get(p) != nil {
			return w.pathError("mkdir", a[0], "EEXIST")
		}
		if d := w.fs.get(path.Dir(w.fs.abs(p))); d == nil {
			return w.pathError("mkdir", a[0], "ENOENT")
		}
		w.fs.mkdirAll(p)
		return nilErr
	})
	reg("os.Remove", func(w *Worker, fr *frame, a []Value) Value {
		p := w.fs.abs(w.pathRead(a[0]))
		if w.fs.nodes[p] == nil {
			return w.pathError("remove", a[0], "ENOENT")
		}
		delete(w.fs.nodes, p)
		w.fs.writes++
		return nilErr
	})
	reg("os.Rename", func(w *Worker, fr *frame, a []Value) Value {
		p, q := w.fs.abs(w.pathArg(a[0])), w.fs.abs(w.pathArg(a[1]))
		n := w.fs.nodes[p]
		if n == nil || n.dir {
			return w.pathError("rename", a[0], "ENOENT")
		}
		if d := w.fs.nodes[path.Dir(q)]; d == nil || !d.dir {
			return w.pathError("rename", a[1], "ENOENT")
		}
		delete(w.fs.nodes, p)
		w.fs.nodes[q] = n
		w.fs.writes++
		return nilErr
	})
	stat := func(w *Worker, fr *frame, a []Value) Value {
		p := w.pathRead(a[0])
		n := w.fs.get(p)
		if n == nil {
			return Tuple{Iface{}, w.pathError("stat", a[0], "ENOENT")}
		}
		return Tuple{Iface{T: w.modelType("FileInfo"), V: w.fileInfo(path.Base(w.fs.abs(p)), n)}, nilErr}
	}
	reg("os.Stat os.Lstat", stat)
	reg("os.ReadDir", func(w *Worker, fr *frame, a []Value) Value {
		p := w.pathRead(a[0])
		n := w.fs.get(p)
		if n == nil {
			return Tuple{[]Value(nil), w.pathError("open", a[0], "ENOENT")}
		}
		if !n.dir {
			return Tuple{[]Value(nil), w.pathError("readdirent", a[0], "ENOTDIR")}
		}
		out := []Value{}
		for _, name := range w.fs.list(p) {
			out = append(out, Iface{T: w.modelType("DirEntry"), V: w.fileInfo(name, w.fs.nodes[path.Join(w.fs.abs(p), name)])})
		}
		return Tuple{out, nilErr}
	})
	reg("os.Getwd", func(w *Worker, fr *frame, a []Value) Value { return Tuple{w.fs.cwd, nilErr} })
	reg("os.MkdirTemp io/ioutil.TempDir", func(w *Worker, fr *frame, a []Value) Value {
		w.fs.mkdirAll("/tmp/x")
		return Tuple{"/tmp/x", nilErr}
	})
	reg("os.TempDir", constant_("/tmp"))
}
