package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mottla/go-AlgebraicProgram-SNARK"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type Program struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   map[string]*ssa.Package
	models map[string]*ssa.Function // full name -> harness replacement
	mu     sync.Mutex
	codes  map[*ssa.Function]*fnCode
	msets  map[methKey]*ssa.Function
	dropped []string // harness files that did not compile
}

type methKey struct {
	t types.Type
	f *types.Func
}

// harnessFiles returns the harness files for package directory pkg
// ("utils", ...): /verif/harness/<pkg>/*.go plus the generated API.
func harnessFiles(pkg string, only map[string]bool) (map[string][]byte, []string) {
	res := map[string][]byte{}
	var names []string
	dir := filepath.Join(verifDir, "harness", pkg)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		if only != nil && !only[strings.TrimSuffix(e.Name(), ".go")] {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		p := filepath.Join(repoDir, pkg, "zz_symgo_"+e.Name())
		res[p] = b
		names = append(names, p)
	}
	api, err := os.ReadFile(filepath.Join(verifDir, "harness", "api.go.txt"))
	if err != nil {
		panic(err)
	}
	res[filepath.Join(repoDir, pkg, "zz_symgo_api.go")] = []byte(strings.Replace(string(api), "package PKG", "package "+pkgName(pkg), 1))
	sort.Strings(names)
	return res, names
}

// pkgName is the package name used by the harness files of a directory.
func pkgName(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.TrimSpace(l[8:])
			}
		}
	}
	return dir
}

func modOverlay() map[string][]byte {
	res := map[string][]byte{}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(verifDir, "gomod", f))
		if err == nil {
			if _, err := os.Stat(filepath.Join(repoDir, f)); err != nil {
				res[filepath.Join(repoDir, f)] = b
			}
		}
	}
	return res
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GO111MODULE", "GOWORK", "GOTOOLCHAIN", "GOMODCACHE", "GOCACHE", "PATH", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	env = append(env, "GOFLAGS=", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local",
		"PATH="+goRootBin+":"+os.Getenv("PATH"))
	if v := os.Getenv("GOMODCACHE"); v != "" {
		env = append(env, "GOMODCACHE="+v)
	} else {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	if v := os.Getenv("GOCACHE"); v != "" {
		env = append(env, "GOCACHE="+v)
	} else {
		env = append(env, "GOCACHE="+filepath.Join(home, ".cache/go-build"))
	}
	return env
}

var goRootBin = "/opt/veriftools/go1.27.3/bin"

// load type checks and builds SSA for the packages (directories under /repo)
// with the harness files laid over.
func load(pkgDirs []string, only map[string]bool) (*Program, error) {
	overlay := modOverlay()
	owner := map[string]string{}
	for _, d := range pkgDirs {
		fs, names := harnessFiles(d, only)
		for k, v := range fs {
			overlay[k] = v
		}
		for _, n := range names {
			owner[n] = d
		}
	}
	var dropped []string
	for round := 0; ; round++ {
		cfg := &packages.Config{
			Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     repoDir,
			Overlay: overlay,
			Env:     goEnv(),
		}
		var pats []string
		for _, d := range pkgDirs {
			pats = append(pats, "./"+d)
		}
		initial, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string]bool{}
		packages.Visit(initial, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Pos+": "+e.Msg)
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := owner[f]; ok {
					bad[f] = true
				}
			}
		})
		if len(errs) > 0 {
			if len(bad) == 0 || round > 8 {
				return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
			}
			for f := range bad {
				delete(overlay, f)
				delete(owner, f)
				dropped = append(dropped, filepath.Base(f)+": "+strings.Join(errs, "; "))
			}
			continue
		}
		prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
		P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, codes: map[*ssa.Function]*fnCode{}, msets: map[methKey]*ssa.Function{}, models: map[string]*ssa.Function{}, dropped: dropped}
		for i, p := range spkgs {
			if p == nil {
				return nil, fmt.Errorf("no ssa for %v", initial[i])
			}
			P.pkgs[pkgDirs0(p.Pkg.Path())] = p
		}
		for _, p := range prog.AllPackages() {
			if strings.HasPrefix(p.Pkg.Path(), modPath) {
				p.Build()
			}
		}
		// model directives in the harness files
		re := regexp.MustCompile(`(?m)^//symgo:model (\S+) (\S+)\s*$`)
		for f, src := range overlay {
			d := filepath.Base(filepath.Dir(f))
			for _, m := range re.FindAllStringSubmatch(string(src), -1) {
				name := strings.ReplaceAll(m[1], "@", modPath)
				fn := P.pkgs[d].Func(m[2])
				if fn == nil {
					return nil, fmt.Errorf("model function %s not found", m[2])
				}
				P.models[name] = fn
			}
		}
		return P, nil
	}
}

func pkgDirs0(path string) string { return strings.TrimPrefix(path, modPath+"/") }

// overlayJSON writes an overlay file for the go command (native replay).
func overlayJSON(dir string, files map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for k, v := range files {
		i++
		p := filepath.Join(dir, fmt.Sprintf("o%d_%s", i, filepath.Base(k)))
		if err := os.WriteFile(p, v, 0644); err != nil {
			return "", err
		}
		rep[k] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0644)
}
