package main

// Loading /repo's current source (plus harness files through an overlay) into SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Program struct {
	module    string
	dir       string
	fset      *token.FileSet
	ssa       *ssa.Program
	byPath    map[string]*ssa.Package
	pkgs      []*packages.Package
	codes     sync.Map
	redirects map[string]*ssa.Function
	rtErrType types.Type
	noInit    map[string]bool
	initPkgs  []*ssa.Package
	solverBin string
	debug     bool
	tier      string
	overlay   map[string][]byte

	mu      sync.Mutex
	notes   map[string]int
	methods sync.Map
	impl    sync.Map
	msc     typeutil.MethodSetCache
	built   map[*ssa.Package]bool
	fnCache sync.Map
	rtypeT  types.Type
	typesM  sync.Map
}

func goEnv() []string {
	root := "/opt/veriftools/go1.23.12"
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE", "PATH", "HOME", "CGO_ENABLED", "GO111MODULE":
		default:
			env = append(env, e)
		}
	}
	path := os.Getenv("PATH")
	if path == "" {
		path = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	}
	return append(env, "HOME=/root", "GOROOT="+root, "PATH="+root+"/bin:"+path, "GOTOOLCHAIN=local", "GOSUMDB=off",
		"GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE="+goCache(), "CGO_ENABLED=0")
}

func goCache() string {
	if d := os.Getenv("VF_GOCACHE"); d != "" {
		return d
	}
	return "/root/.cache/go-build"
}

// loadProgram type-checks patterns with the overlay. Harness files that do not compile are reported in bad.
func loadProgram(dir string, overlay map[string][]byte, patterns []string, modfile string) (*Program, map[string]string, error) {
	fset := token.NewFileSet()
	flags := []string{"-tags=math_big_pure_go"} // Go instead of assembly
	if modfile != "" {
		flags = append(flags, "-modfile="+modfile)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Fset: fset, Env: goEnv(), Overlay: overlay, BuildFlags: flags,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	bad := map[string]string{}
	var hard []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if os.Getenv("VF_LOADERR") != "" {
				fmt.Fprintln(os.Stderr, p.PkgPath, e)
			}
			file := e.Pos
			if i := strings.Index(file, ".go:"); i >= 0 {
				file = file[:i+3]
			}
			if _, ok := overlay[file]; ok {
				if _, dup := bad[file]; !dup {
					bad[file] = e.Msg
				}
			} else if p.Module != nil && p.Module.Main {
				hard = append(hard, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		return nil, bad, nil
	}
	if len(hard) > 0 {
		return nil, nil, fmt.Errorf("the code under test does not type-check: %s", strings.Join(hard, "; "))
	}
	p := &Program{dir: dir, fset: fset, pkgs: pkgs, byPath: map[string]*ssa.Package{}, notes: map[string]int{},
		noInit: map[string]bool{}, redirects: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}, overlay: overlay, solverBin: solverBin()}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	p.ssa = prog
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Types != nil && !pk.IllTyped {
			var files []*ast.File
			files = append(files, pk.Syntax...)
			sp := prog.CreatePackage(pk.Types, files, pk.TypesInfo, true)
			p.byPath[pk.PkgPath] = sp
		} else if pk.Types != nil {
			sp := prog.CreatePackage(pk.Types, nil, nil, true)
			p.byPath[pk.PkgPath] = sp
			p.note("ill-typed dependency: " + pk.PkgPath)
		}
		if pk.Module != nil && pk.Module.Main {
			p.module = pk.Module.Path
		}
	})
	for _, pk := range pkgs {
		if sp := p.byPath[pk.PkgPath]; sp != nil {
			p.initPkgs = append(p.initPkgs, sp)
		}
	}
	// packages of the module under test are initialised first, dependencies before dependents
	seen := map[string]bool{}
	var order []*ssa.Package
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Module != nil && pk.Module.Main && !seen[pk.PkgPath] {
			seen[pk.PkgPath] = true
			order = append(order, p.byPath[pk.PkgPath])
		}
	})
	p.initPkgs = order
	if rt := p.byPath["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			p.rtErrType = o.Type()
		}
	}
	return p, nil, nil
}

func (p *Program) note(s string) {
	p.mu.Lock()
	p.notes[s]++
	p.mu.Unlock()
}

func (p *Program) buildPkg(sp *ssa.Package) {
	p.mu.Lock()
	done := p.built[sp]
	p.mu.Unlock()
	if done {
		return
	}
	sp.Build() // guarded by its own Once
	p.mu.Lock()
	p.built[sp] = true
	p.mu.Unlock()
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	key := pkg + "." + name
	if f, ok := p.fnCache.Load(key); ok {
		return f.(*ssa.Function)
	}
	sp := p.byPath[pkg]
	if sp == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	p.buildPkg(sp)
	f := sp.Func(name)
	if f == nil {
		panic(unsupported("no function " + key))
	}
	p.fnCache.Store(key, f)
	return f
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.byPath[pkg]
	if sp == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return o.Type()
}

type methKey struct {
	t types.Type
	m string
	p *types.Package
}

// method finds the implementation of m for dynamic type t.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.p = m.Pkg()
	}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := p.msc.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.methodValue(sel)
	p.methods.Store(k, f)
	return f
}

func (p *Program) methodValue(sel *types.Selection) *ssa.Function {
	if o, ok := sel.Obj().(*types.Func); ok && o.Pkg() != nil {
		if sp := p.ssa.Package(o.Pkg()); sp != nil {
			p.buildPkg(sp)
		}
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	ms := p.msc.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return p.methodValue(s)
		}
	}
	return nil
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := p.impl.Load(k); ok {
		return v.(bool)
	}
	ok := types.Implements(t, it)
	p.impl.Store(k, ok)
	return ok
}

// readHarness collects overlay entries: files below src go to the same relative path below dst.
func readTree(src, dst string, into map[string][]byte) error {
	return filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		into[filepath.Join(dst, rel)] = b
		return nil
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// solverBin is the SMT solver asked first.
func solverBin() string {
	if b := os.Getenv("VF_SOLVER"); b != "" {
		return b
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}
