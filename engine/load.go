package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/veriftools/go1.25.14"

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "PATH", "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goRoot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOROOT="+goRoot, "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
}

// overlayFiles maps harness sources into the repository's module.
func overlayFiles(repo, harness string) map[string]string {
	m := map[string]string{}
	for _, d := range []string{"nd", "h", "drv"} {
		fs, _ := filepath.Glob(filepath.Join(harness, d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repo, "internal", "zzverif", d, filepath.Base(f))] = f
		}
	}
	return m
}

func load(repo, harness string) (*engine, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repo, harness) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	ps, err := packages.Load(cfg, "./internal/zzverif/h", "./cmd/...", "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not compile: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &engine{prog: prog, pkgs: map[string]*ssa.Package{}, z3: "z3"}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if strings.HasSuffix(p.Pkg.Path(), "/internal/zzverif/nd") {
			e.base = strings.TrimSuffix(p.Pkg.Path(), "/nd")
			e.module = strings.TrimSuffix(e.base, "/internal/zzverif")
		}
	}
	if e.base == "" {
		return nil, fmt.Errorf("harness package not found")
	}
	if _, err := os.Stat("/usr/local/bin/z3-new"); err == nil {
		e.z3 = "z3-new"
	}
	return e, nil
}

// initPackages runs the package initialisers the harnesses depend on.
func (w *W) initPackages(roots ...string) {
	w.setupOS()
	for _, r := range roots {
		p := w.eng.pkgs[r]
		if p == nil {
			continue
		}
		w.callFn(nil, p.Func("init"), nil, nil, false)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
