package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog     *ssa.Program
	pkg      *ssa.Package // notify
	pkgs     map[string]*ssa.Package
	goos     string
	replace  map[string]*ssa.Function // function full name -> harness model
	funcs    sync.Map                 // *ssa.Function -> *Func
	mu       sync.Mutex
	globals  map[*ssa.Global]int
	glist    []*ssa.Global
	sizes    types.Sizes
	initDone map[string]bool
	files    []string
}

// LoadSpec describes what to load: the repository, harness files overlaid into
// the package directory, and further overlay replacements.
type LoadSpec struct {
	Repo    string
	GOOS    string
	Harness map[string]string // file name in package dir -> source path
	Overlay map[string][]byte // absolute path -> content
	Env     []string
	Tags    string
	Stubs   bool
}

func load(sp LoadSpec) (*Program, error) {
	ov := map[string][]byte{}
	for k, v := range sp.Overlay {
		ov[k] = v
	}
	for name, src := range sp.Harness {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(sp.Repo, name)] = b
	}
	env := append(os.Environ(), "GOOS="+sp.GOOS, "GOARCH=amd64", "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	env = append(env, sp.Env...)
	mod, err := modfileCopy(sp.Repo)
	if err != nil {
		return nil, err
	}
	if err := decgo(sp, ov); err != nil {
		return nil, err
	}
	if sp.GOOS == "darwin" && sp.Tags == "" {
		sp.Tags = "cgo" // selects the FSEvents sources
	}
	flags := []string{"-modfile=" + mod}
	if sp.Tags != "" {
		flags = append(flags, "-tags="+sp.Tags)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        sp.Repo,
		Env:        env,
		Overlay:    ov,
		BuildFlags: flags,
	}
	initial, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(initial) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(initial))
	}
	var errs []string
	for _, e := range initial[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkg: pkgs[0], goos: sp.GOOS, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{},
		globals: map[*ssa.Global]int{}, sizes: types.SizesFor("gc", "amd64"), initDone: map[string]bool{}}
	for _, q := range prog.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
	}
	p.pkg.Build()
	// //verif:replace directives
	for _, f := range initial[0].Syntax {
		p.files = append(p.files, prog.Fset.Position(f.Pos()).Filename)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if rest, ok := strings.CutPrefix(c.Text, "//verif:replace "); ok {
					fn := p.pkg.Func(fd.Name.Name)
					for _, n := range strings.Fields(rest) {
						p.replace[n] = fn
					}
				}
			}
		}
	}
	return p, nil
}

var (
	importC = regexp.MustCompile(`(?ms)^(//[^\n]*\n|/\*.*?\*/\s*)*import "C"$`)
	refC    = regexp.MustCompile(`\bC\.([A-Za-z_])`)
)

// decgo rewrites the cgo files of the repository: C.x becomes c_x, to be
// defined by the harness as a model of the C function.
func decgo(sp LoadSpec, ov map[string][]byte) error {
	if sp.GOOS != "darwin" && sp.GOOS != "solaris" {
		return nil
	}
	fs, err := filepath.Glob(filepath.Join(sp.Repo, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if !importC.Match(b) {
			continue
		}
		// the build constraint is part of the comments before the package clause
		i := strings.Index(string(b), "\npackage ")
		head, body := string(b[:i+1]), b[i+1:]
		body = importC.ReplaceAll(body, nil)
		body = refC.ReplaceAll(body, []byte("c_$1"))
		ov[f] = append([]byte(head), body...)
	}
	return nil
}

// modfileCopy copies go.mod/go.sum so that loading never rewrites the repository's files.
func modfileCopy(repo string) (string, error) {
	dir := scratch("mod")
	dst := filepath.Join(dir, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return "", err
		}
	}
	return dst, nil
}

var scratchDirs []string
var scratchMu sync.Mutex

func scratch(tag string) string {
	d, err := os.MkdirTemp("", "verif-"+tag+"-")
	if err != nil {
		panic(err)
	}
	scratchMu.Lock()
	scratchDirs = append(scratchDirs, d)
	scratchMu.Unlock()
	return d
}

func cleanScratch() {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	for _, d := range scratchDirs {
		os.RemoveAll(d)
	}
	scratchDirs = nil
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.glist)
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

func (p *Program) globalAt(i int) *ssa.Global {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.glist[i]
}
