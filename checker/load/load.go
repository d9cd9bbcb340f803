// Package load parses and type-checks the packages of /repo (with bodies) and
// everything they import from the standard library (declarations only), and
// builds SSA for the former. It needs neither network, build cache, go.mod nor
// the go command: file selection is done with go/build's own constraint
// matcher for a chosen GOOS/GOARCH/release-tag configuration.
package load

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const ModPath = "github.com/zenazn/goji"

// Config selects the build configuration to analyse.
type Config struct {
	Repo   string
	GOOS   string
	GOARCH string
	Tags   []string
	// MaxRelease limits the go1.N release tags (0: current toolchain).
	MaxRelease int
	// Packages (import paths) to load; empty means DefaultPackages.
	Packages []string
}

var DefaultPackages = []string{
	ModPath,
	ModPath + "/bind",
	ModPath + "/graceful",
	ModPath + "/graceful/listener",
	ModPath + "/web",
	ModPath + "/web/middleware",
	ModPath + "/web/mutil",
}

// Pkg is one in-module package.
type Pkg struct {
	Path  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
	Names []string // file names
}

// Program is the loaded program.
type Program struct {
	Cfg       Config
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      map[string]*Pkg
	Order     []string // in-module packages in dependency order
	Sizes     types.Sizes
	GoVersion string
	Errors    []error
	std       map[string]*types.Package
}

type loader struct {
	p     *Program
	ctx   build.Context
	std   map[string]*types.Package
	busy  map[string]bool
	sizes types.Sizes
}

var goDirective = regexp.MustCompile(`(?m)^go\s+(\d+\.\d+)`)

// Load loads the program. An error is returned only if the packages cannot be
// loaded at all; type errors are collected in Program.Errors.
func Load(cfg Config) (*Program, error) {
	if cfg.GOOS == "" {
		cfg.GOOS = "linux"
	}
	if cfg.GOARCH == "" {
		cfg.GOARCH = "amd64"
	}
	if len(cfg.Packages) == 0 {
		cfg.Packages = DefaultPackages
	}
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH = cfg.GOOS, cfg.GOARCH
	ctx.CgoEnabled = false
	ctx.BuildTags = cfg.Tags
	ctx.UseAllFiles = false
	if cfg.MaxRelease > 0 {
		ctx.ReleaseTags = nil
		for i := 1; i <= cfg.MaxRelease; i++ {
			ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprintf("go1.%d", i))
		}
	}
	if g := os.Getenv("GOJICHECK_GOROOT"); g != "" {
		ctx.GOROOT = g
	}
	if ctx.GOROOT == "" {
		ctx.GOROOT = runtime.GOROOT()
	}
	goVersion := "go1.20"
	if b, err := os.ReadFile(filepath.Join(cfg.Repo, "go.mod")); err == nil {
		if m := goDirective.FindStringSubmatch(string(b)); m != nil {
			goVersion = "go" + m[1]
		}
	}
	p := &Program{
		Cfg:       cfg,
		Fset:      token.NewFileSet(),
		Pkgs:      map[string]*Pkg{},
		Sizes:     types.SizesFor("gc", cfg.GOARCH),
		GoVersion: goVersion,
	}
	l := &loader{p: p, ctx: ctx, std: map[string]*types.Package{"unsafe": types.Unsafe}, busy: map[string]bool{}, sizes: p.Sizes}
	for _, path := range cfg.Packages {
		if _, err := l.module(path); err != nil {
			return nil, err
		}
	}
	p.std = l.std
	if len(p.Errors) > 0 {
		return p, fmt.Errorf("type checking failed: %v", p.Errors[0])
	}

	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	done := map[*types.Package]bool{}
	var mk func(tp *types.Package)
	mk = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, i := range tp.Imports() {
			mk(i)
		}
		if mp := p.Pkgs[tp.Path()]; mp != nil && mp.Types == tp {
			mp.SSA = prog.CreatePackage(tp, mp.Files, mp.Info, true)
			return
		}
		prog.CreatePackage(tp, nil, nil, true)
	}
	for _, path := range p.Order {
		mk(p.Pkgs[path].Types)
	}
	prog.Build()
	p.Prog = prog
	return p, nil
}

// Std returns a loaded standard-library package.
func (p *Program) Std(path string) *types.Package { return p.std[path] }

func (l *loader) files(dir string, withBodies bool) ([]*ast.File, []string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := l.ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	mode := parser.SkipObjectResolution | parser.ParseComments
	if !withBodies {
		mode = parser.SkipObjectResolution
	}
	out := make([]*ast.File, len(names))
	errs := make([]error, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			out[i], errs[i] = parser.ParseFile(l.p.Fset, filepath.Join(dir, n), nil, mode)
		}(i, n)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil && withBodies {
			return nil, nil, err
		}
	}
	var res []*ast.File
	var rn []string
	for i, f := range out {
		if f == nil {
			continue
		}
		for _, imp := range f.Imports {
			if imp.Path.Value == `"C"` {
				f = nil
				break
			}
		}
		if f != nil {
			res = append(res, f)
			rn = append(rn, names[i])
		}
	}
	return res, rn, nil
}

// Import implements types.Importer through importFrom.
type importFrom struct {
	l   *loader
	dir string
}

func (i importFrom) Import(path string) (*types.Package, error) { return i.l.importPath(path) }

func (l *loader) importPath(path string) (*types.Package, error) {
	if path == ModPath || strings.HasPrefix(path, ModPath+"/") {
		p, err := l.module(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return l.stdlib(path)
}

func (l *loader) module(path string) (*Pkg, error) {
	if p := l.p.Pkgs[path]; p != nil {
		return p, nil
	}
	if l.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.busy[path] = true
	dir := filepath.Join(l.p.Cfg.Repo, strings.TrimPrefix(path, ModPath))
	files, names, err := l.files(dir, true)
	if err != nil {
		return nil, err
	}
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files in %s for this configuration", dir)
	}
	info := &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Instances:    map[*ast.Ident]types.Instance{},
		Scopes:       map[ast.Node]*types.Scope{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{
		Importer:  importFrom{l, dir},
		Sizes:     l.sizes,
		GoVersion: l.p.GoVersion,
		Error:     func(err error) { l.p.Errors = append(l.p.Errors, err) },
	}
	tp, _ := conf.Check(path, l.p.Fset, files, info)
	p := &Pkg{Path: path, Files: files, Types: tp, Info: info, Names: names}
	l.p.Pkgs[path] = p
	l.p.Order = append(l.p.Order, path)
	return p, nil
}

func (l *loader) stdlib(path string) (*types.Package, error) {
	if p := l.std[path]; p != nil {
		return p, nil
	}
	if l.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.busy[path] = true
	dir := filepath.Join(l.ctx.GOROOT, "src", path)
	if _, err := os.Stat(dir); err != nil {
		dir = filepath.Join(l.ctx.GOROOT, "src", "vendor", path)
	}
	files, _, err := l.files(dir, false)
	if err != nil {
		return nil, fmt.Errorf("cannot import %q: %v", path, err)
	}
	conf := types.Config{
		Importer:                 importFrom{l, dir},
		Sizes:                    l.sizes,
		IgnoreFuncBodies:         true,
		FakeImportC:              true,
		Error:                    func(err error) {},
		DisableUnusedImportCheck: true,
	}
	tp, _ := conf.Check(path, l.p.Fset, files, nil)
	if tp == nil {
		return nil, fmt.Errorf("cannot type-check %q", path)
	}
	tp.MarkComplete()
	l.std[path] = tp
	return tp, nil
}

// Pos renders a position relative to the repository root.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Cfg.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
