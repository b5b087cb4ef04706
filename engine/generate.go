package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// svcPkg is the package of the services the current generator is run on, relative to the module.
const svcPkg = "zzvfsvc"

// needsServices tells whether harness functions of this property call generated code.
func (c *check) needsServices() bool {
	_, err := os.Stat(filepath.Join(c.verif, "harness", svcPkg, "zz_vf_"+strings.ToLower(c.id)+".go"))
	return err == nil
}

// generate builds the generator from the current tree, runs it on the services in harness/svc and puts
// services and generated code into the overlay.
func (c *check) generate() error {
	if !c.needsServices() {
		return nil
	}
	gen := filepath.Join(c.tmp, "gen")
	dir := filepath.Join(gen, svcPkg)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	src := filepath.Join(c.verif, "harness", "svc")
	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, rel)), 0o755); err != nil {
			return err
		}
		c.add(filepath.Join(c.repo, svcPkg, rel), b)
		return os.WriteFile(filepath.Join(dir, rel), b, 0o644)
	}); err != nil {
		return err
	}
	mod := ""
	b, _ := os.ReadFile(c.modfile)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = f[1]
		}
	}
	conf := filepath.Join(gen, "gotsrpc.yml")
	if err := os.WriteFile(conf, []byte(fmt.Sprintf(`module:
  name: %[1]s
  path: %[2]s
targets:
  svc:
    package: %[1]s/%[3]s
    services:
      /svc: Service
      /other: Other
      /deep/er/wide: Wide
    tsrpc: [Service, Other, Wide]
    gorpc: [Service, Other, Wide]
    out: %[2]s/ts/client.ts
mappings:
  %[1]s/%[3]s:
    out: %[2]s/ts/vo.ts
  %[1]s/%[3]s/sub:
    out: %[2]s/ts/sub.ts
  time:
    out: %[2]s/ts/time.ts
`, mod, gen, svcPkg)), 0o644); err != nil {
		return err
	}
	bin := filepath.Join(c.tmp, "gotsrpc")
	cmd := exec.Command("go", "build", "-modfile", c.modfile, "-o", bin, "./cmd/gotsrpc")
	cmd.Dir, cmd.Env, cmd.Path = c.repo, goEnv(), lookGo()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("the generator does not build: %v: %s", err, tail(string(out), 1500))
	}
	cmd = exec.Command(bin, conf)
	cmd.Dir, cmd.Env = gen, goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.genErr = fmt.Sprintf("the generator fails for the services: %v: %s", err, tail(string(out), 1500))
		return nil
	}
	for _, name := range []string{"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"} {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			c.genErr = "the generator writes no " + name
			return nil
		}
		c.add(filepath.Join(c.repo, svcPkg, name), b)
	}
	return nil
}
