package main

// vf check <ID>: decide one property.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	id, tier, repo, verif string
	only                  string
	debug                 bool
	workers               int
	budget                time.Duration
	verbose               bool
	noNative              bool
}

type check struct {
	options
	seed     int
	start    time.Time
	overlay  map[string][]byte // path in /repo -> content
	onDisk   map[string]string // path in /repo -> file that holds the content
	dropped  map[string]string
	tmp      string
	modfile  string
	prog     *Program
	bin      string
	binErr   string
	genErr   string // the generator fails, or what it writes does not compile
	binDone  chan bool
	notes    []string
	harness  []harnessFn
	native   *nativeRunner
	comments map[string][]string
}

type harnessFn struct {
	name, pkg, pkgName string
	fn                 *ssa.Function
	file               string
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vf check ID [-tier quick|thorough] | vf replay FILE")
		os.Exit(2)
	}
	// go list is looked up in this process's PATH
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	o := options{tier: os.Getenv("VERIF_TIER"), repo: "/repo", verif: "/verif", workers: runtime.NumCPU()}
	cmd, arg := os.Args[1], os.Args[2]
	rest := os.Args[3:]
	for i := 0; i < len(rest); i++ {
		val := func() string {
			i++
			if i < len(rest) {
				return rest[i]
			}
			return ""
		}
		switch rest[i] {
		case "-tier":
			o.tier = val()
		case "-repo":
			o.repo = val()
		case "-verif":
			o.verif = val()
		case "-only":
			o.only = val()
		case "-debug":
			o.debug = true
		case "-v":
			o.verbose = true
		case "-nonative":
			o.noNative = true
		case "-j":
			o.workers, _ = strconv.Atoi(val())
		case "-budget":
			d, _ := strconv.Atoi(val())
			o.budget = time.Duration(d) * time.Second
		}
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	if o.workers > 8 {
		o.workers = 8
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(4 << 30)
	switch cmd {
	case "check":
		o.id = arg
		os.Exit(runCheck(o))
	case "replay":
		os.Exit(runReplay(o, arg))
	}
	os.Exit(2)
}

func (c *check) note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.notes = append(c.notes, s)
	fmt.Println("note: " + s)
}

func newCheck(o options) *check {
	c := &check{options: o, start: time.Now(), overlay: map[string][]byte{}, onDisk: map[string]string{}, dropped: map[string]string{}, comments: map[string][]string{}}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if c.budget == 0 {
		c.budget = 420 * time.Second
		if c.tier == "thorough" {
			c.budget = 780 * time.Second
		}
	}
	return c
}

func (c *check) add(path string, content []byte) { c.overlay[path] = content }

// collect puts the harness files of this property (and the shared ones) into the overlay.
func (c *check) collect() error {
	root := filepath.Join(c.verif, "harness")
	id := strings.ToLower(c.id)
	return filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		base := filepath.Base(rel)
		if strings.HasPrefix(base, "zz_vf_") && !strings.HasPrefix(base, "zz_vf_common") && !strings.HasPrefix(base, "zz_vf_"+id+"_") && base != "zz_vf_"+id+".go" {
			return nil
		}
		if strings.HasPrefix(rel, "svc/") || strings.HasPrefix(rel, svcPkg+"/") && !c.needsServices() {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		c.add(filepath.Join(c.repo, rel), b)
		if strings.HasPrefix(base, "zz_vf_") {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//vf:") {
					k, v, _ := strings.Cut(strings.TrimPrefix(l, "//vf:"), " ")
					c.comments[k] = append(c.comments[k], v)
				}
			}
		}
		return nil
	})
}

func (c *check) prepare() error {
	var err error
	if c.tmp, err = os.MkdirTemp("", "vf-"+c.id+"-"); err != nil {
		return err
	}
	os.Chmod(c.tmp, 0o755)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(c.repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(c.tmp, f), b, 0o644); err != nil {
			return err
		}
	}
	c.modfile = filepath.Join(c.tmp, "go.mod")
	if err := c.collect(); err != nil {
		return err
	}
	return c.generate()
}

func (c *check) cleanup() {
	if c.native != nil {
		c.native.close()
	}
	if c.tmp != "" && strings.HasPrefix(c.tmp, os.TempDir()+"/vf-") {
		os.RemoveAll(c.tmp)
	}
}

// patterns: the packages harness files are in.
func (c *check) patterns() []string {
	set := map[string]bool{"./zzvf": true, "./zzvf/model": true}
	for p := range c.overlay {
		rel, _ := filepath.Rel(c.repo, filepath.Dir(p))
		if strings.HasPrefix(filepath.Base(p), "zz_vf_") {
			if rel == "." {
				set["."] = true
			} else {
				set["./"+rel] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *check) load() error {
	for try := 0; try < 6; try++ {
		p, bad, err := loadProgram(c.repo, c.overlay, c.patterns(), c.modfile)
		if err != nil {
			return err
		}
		if p != nil {
			c.prog = p
			p.tier = c.tier
			p.debug = c.debug
			return nil
		}
		n := 0
		for f, msg := range bad {
			if strings.HasSuffix(f, "_gen.go") {
				c.genErr = "the generated code does not compile: " + filepath.Base(f) + ": " + msg
				return nil
			}
			if strings.HasPrefix(filepath.Base(f), "zz_vf_") {
				c.dropped[filepath.Base(f)] = msg
				c.note("REDUCED: harness file %s does not compile against the current code and is left out: %s", filepath.Base(f), msg)
				delete(c.overlay, f)
				n++
			}
		}
		if n == 0 {
			return fmt.Errorf("overlay does not compile: %v", bad)
		}
	}
	return fmt.Errorf("harness files keep failing to compile")
}

func (c *check) find() {
	want := "VF_" + c.id + "_"
	var re *regexp.Regexp
	if c.only != "" {
		re = regexp.MustCompile(c.only)
	}
	for _, pk := range c.prog.pkgs {
		sp := c.prog.byPath[pk.PkgPath]
		if sp == nil {
			continue
		}
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, want) || len(f.Params) > 0 {
				continue
			}
			if re != nil && !re.MatchString(name) {
				continue
			}
			c.harness = append(c.harness, harnessFn{name: name, pkg: pk.PkgPath, pkgName: pk.Name, fn: f,
				file: filepath.Base(c.prog.fset.Position(f.Pos()).Filename)})
		}
	}
	sort.Slice(c.harness, func(i, j int) bool { return c.harness[i].name < c.harness[j].name })
}

// ---- native replay

func (c *check) buildNative() {
	defer close(c.binDone)
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"os\"\n\n\t\"" + c.prog.module + "/zzvf\"\n")
	al := map[string]string{}
	for _, h := range c.harness {
		if _, ok := al[h.pkg]; !ok {
			al[h.pkg] = fmt.Sprintf("p%d", len(al))
			fmt.Fprintf(&b, "\t%s %q\n", al[h.pkg], h.pkg)
		}
	}
	b.WriteString(")\n\nvar fns = map[string]func(){\n")
	for _, h := range c.harness {
		fmt.Fprintf(&b, "\t%q: %s.%s,\n", h.name, al[h.pkg], h.name)
	}
	b.WriteString(`}

func main() {
	out := os.NewFile(3, "results")
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := r.ReadBytes('\n')
		if err != nil {
			return
		}
		var c zzvf.Case
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		res := zzvf.Result{ID: c.ID, Diverged: "no such harness"}
		if f := fns[c.Harness]; f != nil {
			res = zzvf.Run(c, f)
		}
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		if res.Timeout {
			os.Exit(7)
		}
	}
}
`)
	rep := map[string]string{}
	n := 0
	put := func(path string, content []byte) error {
		n++
		f := filepath.Join(c.tmp, fmt.Sprintf("ov%d_%s", n, filepath.Base(path)))
		rep[path] = f
		return os.WriteFile(f, content, 0o644)
	}
	for p, content := range c.overlay {
		if err := put(p, content); err != nil {
			c.binErr = err.Error()
			return
		}
	}
	if err := put(filepath.Join(c.repo, "zzvfmain", "main.go"), []byte(b.String())); err != nil {
		c.binErr = err.Error()
		return
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(c.tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	c.bin = filepath.Join(c.tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", ov, "-modfile", c.modfile, "-o", c.bin, "./zzvfmain")
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	cmd.Path = lookGo()
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.binErr = fmt.Sprintf("%v: %s", err, tail(string(out), 1500))
		c.bin = ""
	}
}

func lookGo() string {
	p := "/opt/veriftools/go1.23.12/bin/go"
	if _, err := os.Stat(p); err == nil {
		return p
	}
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "go"
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type natVal struct {
	K string `json:"k"`
	L string `json:"l"`
	I int64  `json:"i"`
	S []byte `json:"s,omitempty"`
}

type natCase struct {
	ID      int      `json:"id"`
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Inputs  []natVal `json:"inputs"`
	Repeat  int      `json:"repeat"`
	Fill    bool     `json:"fill"`
}

type natResult struct {
	ID       int      `json:"id"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
	Diverged string   `json:"diverged"`
	Assumed  bool     `json:"assumed"`
	Timeout  bool     `json:"timeout"`
	Crash    string   `json:"crash"`
	Obs      []natVal `json:"obs"`
	Reach    []string `json:"reach"`
	Runs     int      `json:"runs"`
}

type nativeRunner struct {
	c      *check
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errBuf *tailBuf
	home   string
	n      int
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		t.b = t.b[:10000] // the head of a crash report matters
	}
	return len(p), nil
}

func (r *nativeRunner) start() error {
	if r.home == "" {
		r.home = filepath.Join(r.c.tmp, "home")
		os.MkdirAll(r.home, 0o777)
		os.Chmod(r.home, 0o777)
	}
	try := func(drop bool) error {
		cmd := exec.Command(r.c.bin)
		cmd.Dir = r.home
		cmd.Env = []string{"HOME=" + r.home, "TMPDIR=" + r.home, "PATH=" + filepath.Dir(lookGo()) + ":/usr/bin:/bin",
			"GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOCACHE=" + r.home + "/gocache", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB"}
		if drop {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
		in, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			return err
		}
		cmd.ExtraFiles = []*os.File{pw}
		r.errBuf = &tailBuf{}
		cmd.Stderr = r.errBuf
		if err := cmd.Start(); err != nil {
			pr.Close()
			pw.Close()
			return err
		}
		pw.Close()
		r.cmd, r.in, r.out = cmd, in, bufio.NewReaderSize(pr, 1<<20)
		return nil
	}
	if os.Geteuid() == 0 {
		if err := try(true); err == nil {
			return nil
		}
	}
	return try(false)
}

func (r *nativeRunner) close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *nativeRunner) run(cs natCase) natResult {
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return natResult{Diverged: "cannot start replay: " + err.Error()}
		}
	}
	r.n++
	cs.ID = r.n
	b, _ := json.Marshal(cs)
	r.in.Write(append(b, '\n'))
	type lr struct {
		l   []byte
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		l, err := r.out.ReadBytes('\n')
		ch <- lr{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.cmd.Wait()
			msg := string(r.errBuf.b)
			r.cmd = nil
			if i := strings.IndexByte(msg, '\n'); i > 0 && len(msg) > 3000 {
				msg = msg[:3000]
			}
			return natResult{Crash: "process died: " + msg}
		}
		var res natResult
		if err := json.Unmarshal(x.l, &res); err != nil {
			return natResult{Diverged: "bad result: " + err.Error()}
		}
		if res.Timeout {
			r.close()
		}
		return res
	case <-time.After(time.Duration(60+3*cs.Repeat) * time.Second):
		r.close()
		return natResult{Timeout: true}
	}
}

func toNat(in []InVal) []natVal {
	out := make([]natVal, len(in))
	for i, v := range in {
		out[i] = natVal{v.Kind, v.Label, v.I, v.S}
	}
	return out
}

// reproduced tells whether the native run shows the violation.
func reproduced(v Violation, r natResult) (bool, string) {
	switch {
	case r.Diverged != "":
		return false, "diverged: " + r.Diverged
	case len(r.Failed) > 0:
		return true, "assertion fails: " + strings.Join(r.Failed, "; ")
	case r.Panic != "":
		return true, "panics: " + r.Panic
	case r.Crash != "":
		return v.Kind != "assert" || strings.Contains(r.Crash, "fatal error"), r.Crash
	case r.Timeout:
		return v.Kind == "limit", "does not return within 20 s"
	case r.Assumed:
		return false, "an assumption fails natively"
	}
	return false, "passes natively"
}

// ---- the check

type hReport struct {
	Name        string           `json:"harness"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"completed"`
	Pruned      int64            `json:"ended_by_assumption"`
	Branches    int64            `json:"branch_decisions"`
	Forks       int64            `json:"forks"`
	Symbolic    int64            `json:"paths_with_symbolic_condition"`
	Steps       int64            `json:"instructions"`
	Exhausted   bool             `json:"all_paths_within_bounds_explored"`
	Asserts     int64            `json:"assertions_decided_by_smt"`
	AssertConst int64            `json:"assertions_decided_on_path"`
	Bounds      map[string]int64 `json:"bounds,omitempty"`
	Reach       map[string]int64 `json:"reach,omitempty"`
	Limits      map[string]int64 `json:"limits_hit,omitempty"`
	Unsup       map[string]int64 `json:"unsupported,omitempty"`
	Unknown     int64            `json:"solver_unknown"`
	Validated   int              `json:"paths_replayed_natively"`
	Mismatch    []string         `json:"replay_mismatches,omitempty"`
	Spurious    []string         `json:"counterexamples_not_reproduced,omitempty"`
	Queries     int              `json:"smt_queries"`
	SolverS     float64          `json:"solver_s"`
	DomDec      int              `json:"byte_domain_decisions"`
	DomCheck    int              `json:"byte_domain_decisions_cross_checked"`
	DomBad      int              `json:"byte_domain_cross_check_mismatches"`
	WallS       float64          `json:"wall_s"`
}

func runCheck(o options) (rc int) {
	c := newCheck(o)
	defer c.cleanup()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "vf: internal error: %v\n%s\n", r, debug.Stack())
			rc = 2
		}
	}()
	if err := c.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, "vf:", err)
		return 2
	}
	if c.genErr == "" {
		if err := c.load(); err != nil {
			fmt.Fprintln(os.Stderr, "vf:", err)
			return 2
		}
	}
	if c.genErr != "" {
		path := filepath.Join(c.verif, "replays", c.id, "generated.txt")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, []byte("services: harness/svc\n"+c.genErr+"\n"), 0o644)
		fmt.Printf("violation: %s\n", c.genErr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		c.writeEvidence(nil, nil, nil, 0, 0, 0, 1, nil)
		return 1
	}
	c.find()
	if o.verbose {
		fmt.Printf("loaded in %.1fs, %d harness functions\n", time.Since(c.start).Seconds(), len(c.harness))
	}
	c.binDone = make(chan bool)
	if o.noNative {
		c.binErr = "off"
		close(c.binDone)
	} else {
		go c.buildNative()
	}
	known := c.knownFindings()
	pool := make([]*Worker, o.workers)
	c.native = &nativeRunner{c: c}
	var reports []hReport
	violations, knownSeen := 0, map[string]bool{}
	var samples []interface{}
	funcs := map[string]int64{}
	totalPaths, totalBranches, validated := int64(0), int64(0), 0
	deadline := c.start.Add(c.budget)
	rng := rand.New(rand.NewSource(int64(c.seed)))
	os.RemoveAll(filepath.Join(c.verif, "replays", c.id))
	for hi, h := range c.harness {
		hs := time.Now()
		remain := time.Until(deadline)
		share := remain / time.Duration(len(c.harness)-hi)
		if n := len(c.harness) - hi; n > 1 && share < remain/2 {
			share = remain / 2 // most harnesses end early
			if max := c.budget / 3; share > max {
				share = max
			}
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		lim := Limits{MaxPaths: 300000, MaxSteps: 40_000_000, MaxDepth: 4000, Deadline: time.Now().Add(share), SolverMs: 20000, SampleN: 3, MapRange: 1, CheckFirst: 25}
		if c.tier == "thorough" {
			lim.MaxPaths, lim.SolverMs, lim.SampleN, lim.MapRange = 5_000_000, 60000, 10, 2
		}
		st := explore(c.prog, h.fn, h.name, lim, pool)
		r := hReport{Name: h.name, Paths: st.Paths, Completed: st.Completed, Pruned: st.AssumeEnds, Branches: st.Branches, Forks: st.Forks,
			Symbolic: st.SymPaths, Steps: st.Steps, Exhausted: st.Exhausted, Asserts: st.AssertsSMT, AssertConst: st.AssertsConst,
			Bounds: st.Bounds, Reach: st.Reach, Limits: st.LimitMsgs, Unsup: st.UnsupMsgs, Unknown: st.AssertsUnknown + st.UnknownDropped,
			Queries: st.Solver.Queries, SolverS: st.Solver.Time.Seconds(), DomDec: st.Solver.Domain, DomCheck: st.Solver.DomainChecked, DomBad: st.Solver.DomainMismatch}
		totalPaths += st.Paths
		totalBranches += st.Branches
		for k, v := range st.Funcs {
			funcs[k] += v
		}
		<-c.binDone
		if c.binErr != "" && !o.noNative && hi == 0 {
			c.note("native replay could not be built: %s", c.binErr)
		}
		// counterexamples
		sort.SliceStable(st.Violations, func(i, j int) bool { return len(st.Violations[i].Inputs) < len(st.Violations[j].Inputs) })
		done, tried := map[string]int{}, map[string]int{}
		for _, v := range st.Violations {
			key := v.Known + "|" + v.Msg
			if done[key] >= 1 || v.Kind == "limit" && tried[key] >= 2 {
				continue
			}
			tried[key]++
			if c.bin == "" {
				if o.noNative {
					fmt.Printf("candidate: %s: %s [%s] known=%s %s\n   at %s\n", v.Harness, v.Msg, v.Kind, v.Known, inputsString(v.Inputs), v.Where)
				}
				r.Spurious = append(r.Spurious, "not replayed: "+v.Msg)
				continue
			}
			rep := 1
			if v.MapOrd {
				rep = 100
			}
			res := c.native.run(natCase{Harness: v.Harness, Tier: c.tier, Inputs: toNat(v.Inputs), Repeat: rep})
			ok, how := reproduced(v, res)
			if o.verbose {
				fmt.Printf("candidate: %s: %s [%s] known=%s %s\n   at %s\n   native: %v %s\n", v.Harness, v.Msg, v.Kind, v.Known, inputsString(v.Inputs), v.Where, ok, how)
			}
			if !ok {
				r.Spurious = append(r.Spurious, v.Msg+" ["+how+"] "+tail(inputsString(v.Inputs), 400))
				continue
			}
			done[key]++
			if v.Known != "" {
				if text, ok := known[v.Known]; ok {
					if !knownSeen[v.Known] {
						knownSeen[v.Known] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, text, v.Known)
					}
					continue
				}
			}
			violations++
			path := c.writeReplay(v, how, rep)
			fmt.Printf("violation: %s: %s\n  inputs: %s\n  at: %s\n  real code: %s\n", v.Harness, v.Msg, inputsString(v.Inputs), v.Where, tail(how, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		}
		// path samples replayed against the real code
		before := violations
		if c.bin != "" {
			max := 60
			if c.tier == "thorough" {
				max = 200
			}
			rng.Shuffle(len(st.Samples), func(i, j int) { st.Samples[i], st.Samples[j] = st.Samples[j], st.Samples[i] })
			rng.Shuffle(len(st.Parts), func(i, j int) { st.Parts[i], st.Parts[j] = st.Parts[j], st.Parts[i] })
			parts := st.Parts[:min(len(st.Parts), max/3)]
			for i, s := range append(parts[:len(parts):len(parts)], st.Samples...) {
				if i >= max+len(parts) {
					break
				}
				res := c.native.run(natCase{Harness: h.name, Tier: c.tier, Inputs: toNat(s.Inputs), Repeat: 1, Fill: s.Part})
				if how := fails(res); how != "" && s.Panic == "" && violations == before {
					// the engine's model holds on this path, the real code does not
					again := c.native.run(natCase{Harness: h.name, Tier: c.tier, Inputs: toNat(s.Inputs), Repeat: 1, Fill: s.Part})
					if fails(again) != "" {
						violations++
						v := Violation{Harness: h.name, Msg: how, Kind: "replay", Inputs: s.Inputs, Where: "real code on a path the encoding passes"}
						if s.Part {
							v.Kind, v.Where = "fill", "real code on a path the encoding cannot follow to its end"
						}
						path := c.writeReplay(v, how, 1)
						fmt.Printf("violation: %s: %s\n  inputs: %s\n  at: %s\n", v.Harness, v.Msg, inputsString(v.Inputs), v.Where)
						fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
						continue
					}
				}
				if s.Part {
					continue
				}
				if d := diffSample(s, res); d != "" {
					r.Mismatch = append(r.Mismatch, d+" :: "+tail(inputsString(s.Inputs), 500))
				} else {
					r.Validated++
				}
			}
			validated += r.Validated
		}
		for i, s := range st.Samples {
			if i < 3 {
				samples = append(samples, map[string]interface{}{"harness": h.name, "path_inputs": tail(inputsString(s.Inputs), 1500), "observed": tail(inputsString(s.Obs), 1500)})
			}
		}
		r.WallS = time.Since(hs).Seconds()
		reports = append(reports, r)
		c.printHarness(r)
	}
	for _, w := range pool {
		if w != nil {
			w.solver.close()
		}
	}
	c.writeEvidence(reports, funcs, samples, totalPaths, totalBranches, validated, violations, knownSeen)
	if violations > 0 {
		return 1
	}
	fmt.Printf("ok: property %s held on everything explored (%s, %.1fs)\n", c.id, c.tier, time.Since(c.start).Seconds())
	return 0
}

func (c *check) printHarness(r hReport) {
	x := "all paths within the bounds"
	if !r.Exhausted {
		x = "REDUCED: budget ran out"
	}
	fmt.Printf("%s: %d paths (%d complete), %d branch decisions, %d SMT queries %.1fs, asserts %d smt + %d on path, %d replayed natively, %s, %.1fs\n",
		r.Name, r.Paths, r.Completed, r.Branches, r.Queries, r.SolverS, r.Asserts, r.AssertConst, r.Validated, x, r.WallS)
	for k, v := range r.Unsup {
		fmt.Printf("  REDUCED: %d paths not encoded: %s\n", v, headTail(k))
	}
	for k, v := range r.Limits {
		fmt.Printf("  REDUCED: %d paths cut: %s\n", v, k)
	}
	for i, m := range r.Mismatch {
		if i < 5 {
			fmt.Printf("  MISMATCH: %s\n", m)
		}
	}
	for i, m := range r.Spurious {
		if i < 5 {
			fmt.Printf("  NOT REPRODUCED: %s\n", m)
		}
	}
	if r.Unknown > 0 {
		fmt.Printf("  REDUCED: %d solver answers unknown\n", r.Unknown)
	}
	if r.DomBad > 0 {
		fmt.Printf("  ENCODING: byte-domain reasoning and solver disagree %d times\n", r.DomBad)
	}
	if r.Completed == 0 {
		fmt.Printf("  VACUOUS: no path reached the end of the harness\n")
	}
	if c.verbose {
		fmt.Printf("  reach %v bounds %v\n", r.Reach, r.Bounds)
	}
}

// fails is how a native run of a sampled path breaks the property.
func fails(r natResult) string {
	if r.Diverged != "" || r.Assumed || r.Crash != "" || r.Timeout {
		return ""
	}
	for _, f := range r.Failed {
		if !strings.HasSuffix(f, "[known]") {
			return "assertion fails: " + f
		}
	}
	if len(r.Failed) == 0 && r.Panic != "" {
		return "panics: " + r.Panic
	}
	return ""
}

func diffSample(s PathSample, r natResult) string {
	switch {
	case r.Diverged != "":
		return "diverged: " + r.Diverged
	case len(r.Failed) > 0:
		return "native run fails: " + strings.Join(r.Failed, "; ")
	case r.Panic != "":
		return "native run panics: " + r.Panic + " " + tail(r.Stack, 1200)
	case r.Crash != "":
		return r.Crash
	case r.Timeout:
		return "native run times out"
	case r.Assumed:
		return "an assumption fails natively"
	}
	if len(s.Obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations, natively %d", len(s.Obs), len(r.Obs))
	}
	for i, o := range s.Obs {
		n := r.Obs[i]
		if o.Label != n.L || o.I != n.I || string(o.S) != string(n.S) {
			return fmt.Sprintf("observation %s: %v %q, natively %s %v %q", o.Label, o.I, o.S, n.L, n.I, n.S)
		}
	}
	a := append([]string(nil), r.Reach...)
	sort.Strings(a)
	if strings.Join(a, ",") != strings.Join(s.Reach, ",") {
		return fmt.Sprintf("reach %v, natively %v", s.Reach, a)
	}
	return ""
}

func (c *check) writeReplay(v Violation, how string, rep int) string {
	dir := filepath.Join(c.verif, "replays", c.id)
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, v.Harness+".json")
	for i := 2; ; i++ {
		if _, err := os.Stat(path); err != nil {
			break
		}
		path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Harness, i))
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.id, "harness": v.Harness, "tier": c.tier, "message": v.Msg, "kind": v.Kind,
		"where": v.Where, "inputs": toNat(v.Inputs), "inputs_text": inputsString(v.Inputs), "real_code": how, "repeat": rep,
		"how": "vf replay " + path}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// knownFindings: lines "known: property=C12 id=C12-x text".
func (c *check) knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+c.id && strings.HasPrefix(f[2], "id=") {
			out[strings.TrimPrefix(f[2], "id=")] = f[3]
		}
	}
	return out
}

func (c *check) writeEvidence(reports []hReport, funcs map[string]int64, samples []interface{}, paths, branches int64, validated, violations int, known map[string]bool) {
	var fl []string
	for k := range funcs {
		fl = append(fl, strings.ReplaceAll(k, c.prog.module, "gotsrpc"))
	}
	sort.Strings(fl)
	q, qt, mism := 0, 0.0, 0
	reduced := []string{}
	exhaustive := true
	for _, r := range reports {
		q += r.Queries
		qt += r.SolverS
		mism += len(r.Mismatch)
		if !r.Exhausted || len(r.Unsup) > 0 || len(r.Limits) > 0 || r.Unknown > 0 {
			exhaustive = false
			reduced = append(reduced, r.Name)
		}
	}
	for f, m := range c.dropped {
		reduced = append(reduced, f+" left out: "+m)
		exhaustive = false
	}
	if len(reports) == 0 {
		exhaustive = false
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var envNotes []string
	if c.prog != nil {
		for k := range c.prog.notes {
			envNotes = append(envNotes, k)
		}
	}
	sort.Strings(envNotes)
	cov := map[string]interface{}{
		"states": paths, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
		"states_are": "symbolic paths executed (each stands for every input satisfying its path condition)", "transitions_are": "symbolic branch decisions",
		"exhaustive": exhaustive, "functions_encoded": fl, "functions_encoded_count": len(fl), "smt_queries": q, "solver_s": qt, "solver": solverBin() + " (QF_BV), one incremental process per worker",
		"harnesses": reports, "reduced": reduced, "replay_mismatches": mism, "known_findings_seen": sortedKeys(known), "notes": append(c.notes, envNotes...),
		"bounds": c.comments["bound"], "outside_the_bounds": c.comments["outside"], "stubs": c.comments["stub"],
	}
	ass := append([]string{"go/ssa of the Go 1.23 toolchain, the interpreter in /verif/engine and z3 are trusted; sampled paths are replayed natively"}, c.comments["assume"]...)
	ev := map[string]interface{}{"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "assumptions": ass,
		"wall_s": time.Since(c.start).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0o644)
}

// ---- replay of a saved counterexample

func runReplay(o options, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness, Tier, Kind, Message string
		Inputs                                 []natVal
		Repeat                                 int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.id, o.tier = r.Property, r.Tier
	c := newCheck(o)
	defer c.cleanup()
	if err := c.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := c.load(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.find()
	c.binDone = make(chan bool)
	c.buildNative()
	if c.bin == "" {
		fmt.Fprintln(os.Stderr, c.binErr)
		return 2
	}
	c.native = &nativeRunner{c: c}
	res := c.native.run(natCase{Harness: r.Harness, Tier: r.Tier, Inputs: r.Inputs, Repeat: r.Repeat, Fill: r.Kind == "fill"})
	ok, how := reproduced(Violation{Kind: r.Kind}, res)
	fmt.Printf("%s: reproduced=%v %s\n%s\n", r.Message, ok, how, res.Stack)
	if ok {
		return 1
	}
	return 0
}

func headTail(s string) string {
	if len(s) > 700 {
		return s[:450] + " ... " + s[len(s)-250:]
	}
	return s
}
