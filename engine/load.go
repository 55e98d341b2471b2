package main

// Loads /repo's current source together with the harness overlay and builds SSA for the whole
// program (standard library and dependencies included, from source).

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	main *ssa.Package // package kafkamock with the harness overlay
	path string

	methMu sync.Mutex
	meth   map[methKey]*Fn
}

// overlayFiles maps the virtual path of each harness file inside repo to its content.
func overlayFiles(repo, dir, suffix string) (map[string]string, error) {
	m := map[string]string{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_native.go") != (suffix == "native") && (strings.HasSuffix(base, "_native.go") || strings.HasSuffix(base, "_sym.go")) {
			continue
		}
		m[filepath.Join(repo, "zz_verif_"+base)] = f
	}
	return m, nil
}

func load(repo, harnessDir string) (*Program, error) {
	fs, err := overlayFiles(repo, harnessDir, "sym")
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off"),
	}
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package errors: %v", pkgs[0].Errors)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	sp[0].Build()
	return &Program{prog: prog, main: sp[0], path: sp[0].Pkg.Path(), meth: map[methKey]*Fn{}}, nil
}
