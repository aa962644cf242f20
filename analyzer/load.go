package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program: the type-checked packages of the repository
// and their SSA form.
type World struct {
	Repo     string
	Mod      string // module path
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	SPkgs    map[string]*ssa.Package // by path relative to module ("" for root)
	Funcs    []*ssa.Function         // every source function of the repository, incl. closures and instantiations
	ByName   map[string]*ssa.Function
	inits    map[string]*Term // global object contents after init
	globOK   map[string]bool
	reviewed bool                  // this is the source the obligations were written for
	expanded map[string]bool       // functions which no contract stands for
	Restored []string              // functions which the source has no longer
	Renamed  map[string]string     // names of the inventory -> names in the source
	model    *ssa.Package          // definitions of library functions
	Std      map[*ssa.Package]bool // library packages which are analysed through
}

const modelPkg = "zztypastcheck"

//go:embed gomodel/model.go.txt
var modelSrc []byte

// modelOf returns the simple definition of a library function, if there is one.
func (w *World) modelOf(name string) *ssa.Function {
	if w.model == nil {
		return nil
	}
	pkg, fn, ok := strings.Cut(name, ".")
	if !ok {
		return nil
	}
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		pkg = pkg[i+1:]
	}
	return w.model.Func(strings.ToUpper(pkg[:1]) + pkg[1:] + fn)
}

const goToolchain = "/opt/veriftools/go1.25.14/bin"

// Load loads all packages of the repository with the real build's flags.
func Load(repo string) (*World, error) {
	tmp, err := os.MkdirTemp("", "typastcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	modpath := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			modpath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if modpath == "" {
		return nil, fmt.Errorf("no module path in go.mod")
	}
	// The build replaces the one module that cannot be fetched; do the same.
	if _, err := os.Stat("/opt/vp/standin/mathclass"); err == nil {
		mod = append(mod, []byte("\nreplace github.com/mewmew/mathclass => /opt/vp/standin/mathclass\n")...)
	}
	if err := os.WriteFile(filepath.Join(tmp, "typast.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "typast.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOSUMDB", "GOPROXY", "GOWORK", "GOENV", "PATH", "GOPATH", "GOMODCACHE", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goToolchain); err == nil {
		path = goToolchain + ":" + path
	}
	// go/packages runs the go command found through this process's PATH.
	os.Setenv("PATH", path)
	env = append(env,
		"PATH="+path,
		"GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOWORK=off", "GOENV=off",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "typast.mod"),
	)
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	fset := token.NewFileSet()
	absRepo, err := filepath.Abs(repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule,
		Dir:   repo,
		Env:   env,
		Fset:  fset,
		Tests: false,
		Overlay: map[string][]byte{
			filepath.Join(absRepo, "internal", modelPkg, "model.go"): modelSrc,
		},
	}
	load := func() ([]*packages.Package, error) {
		pkgs, err := packages.Load(cfg, "./...", "./internal/"+modelPkg, "slices", "maps", "cmp")
		if err != nil {
			return nil, err
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
			}
			for _, e := range p.TypeErrors {
				return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
			}
		}
		return pkgs, nil
	}
	pkgs, err := load()
	if err != nil {
		return nil, err
	}
	if path := os.Getenv("TYPASTCHECK_INVENTORY"); path != "" {
		if err := writeInventory(path, inventory(pkgs, modpath, true)); err != nil {
			return nil, err
		}
	}
	renamed := map[string]string{}
	ref := readInventory()
	for range 6 {
		ren := renames(ref, inventory(pkgs, modpath, false))
		if len(ren) == 0 {
			break
		}
		files := respell(fset, pkgs, ren, func(name string) ([]byte, error) {
			if b, ok := cfg.Overlay[name]; ok {
				return b, nil
			}
			return os.ReadFile(name)
		})
		if files == nil {
			break
		}
		old := map[string][]byte{}
		for k, v := range cfg.Overlay {
			old[k] = v
		}
		for k, v := range files {
			cfg.Overlay[k] = v
		}
		again, err := load()
		if err != nil {
			cfg.Overlay = old
			break
		}
		for o, s := range ren {
			renamed[s] = o.Name()
		}
		pkgs = again
	}
	// Functions which are gone are put back where nothing calls them.
	skip := map[string]bool{}
	var restored []string
	for range 4 {
		names, files := restore(ref, inventory(pkgs, modpath, false), pkgs, modpath, skip)
		if len(names) == 0 {
			break
		}
		for k, v := range files {
			cfg.Overlay[k] = v
		}
		again, err := load()
		if err == nil {
			pkgs, restored = again, names
			break
		}
		for k := range files {
			delete(cfg.Overlay, k)
		}
		// Those which do not fit what is there stay away.
		bad := 0
		for _, n := range names {
			only := map[string]bool{}
			for _, o := range names {
				only[o] = o != n
			}
			for k := range skip {
				only[k] = true
			}
			_, files := restore(ref, inventory(pkgs, modpath, false), pkgs, modpath, only)
			for k, v := range files {
				cfg.Overlay[k] = v
			}
			if _, err := load(); err != nil {
				skip[n] = true
				bad++
			}
			for k := range files {
				delete(cfg.Overlay, k)
			}
		}
		if bad == 0 {
			break
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Renamed: renamed, Restored: restored, Std: map[*ssa.Package]bool{}, Repo: repo, Mod: modpath, Fset: fset, Prog: prog, SPkgs: map[string]*ssa.Package{}, ByName: map[string]*ssa.Function{}}
	own := map[*ssa.Package]bool{}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if strings.HasSuffix(pkgs[i].PkgPath, "/"+modelPkg) {
			w.Std[sp] = true
			w.model = sp
			continue
		}
		if pkgs[i].PkgPath != modpath && !strings.HasPrefix(pkgs[i].PkgPath, modpath+"/") {
			w.Std[sp] = true
			continue
		}
		w.Pkgs = append(w.Pkgs, pkgs[i])
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modpath), "/")
		w.SPkgs[rel] = sp
		own[sp] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		p := fn.Pkg
		if p == nil && fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p == nil && fn.Parent() != nil {
			top := fn
			for top.Parent() != nil {
				top = top.Parent()
			}
			p = top.Pkg
			if p == nil && top.Origin() != nil {
				p = top.Origin().Pkg
			}
		}
		if p == nil || !own[p] || len(fn.Blocks) == 0 {
			continue
		}
		w.Funcs = append(w.Funcs, fn)
	}
	// Functions which are unreachable from any root are still source.
	have := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		have[f] = true
	}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || have[f] || len(f.Blocks) == 0 {
			return
		}
		have[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for sp := range own {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				if named, ok := m.Type().(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						addFn(prog.FuncValue(named.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	for _, f := range w.Funcs {
		w.ByName[w.Name(f)] = f
	}
	return w, nil
}

// Name returns the name of fn with the module path removed, e.g.
// "(*typst/syntax.Parser).eat" or "typst/syntax.Parse".
func (w *World) Name(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), w.Mod+"/", "")
}

// Origin name of fn: generic instantiations are named after their origin.
func (w *World) OName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return w.Name(o)
	}
	return w.Name(fn)
}

// Own reports whether fn is a source function of the repository.
func (w *World) Own(fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && strings.Contains(fn.String(), w.Mod) && !strings.Contains(fn.String(), modelPkg)
}

// Through reports whether fn is a library function whose body is analysed.
func (w *World) Through(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && w.Std[f.Pkg] {
			return true
		}
		if o := f.Origin(); o != nil && o.Pkg != nil && w.Std[o.Pkg] {
			return true
		}
	}
	return false
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// Fn finds a function by its name relative to the module.
func (w *World) Fn(name string) *ssa.Function { return w.ByName[name] }

// Syntax is the main package.
func (w *World) Syntax() *ssa.Package { return w.SPkgs["typst/syntax"] }

// NamedType looks up a named type "typst/syntax.SyntaxKind".
func (w *World) NamedType(rel, name string) types.Type {
	sp := w.SPkgs[rel]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
