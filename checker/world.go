package main

// Loading the current source of the repository.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog         *ssa.Program
	pkgs         []*packages.Package
	modPath      string
	root         string
	built        map[*ssa.Package]bool
	initOrder    []*ssa.Package
	errorStringT types.Type
	byPath       map[string]*ssa.Package
	fset         *token.FileSet
}

type loadSpec struct {
	goos, goarch, tags string
	patterns           []string
}

func loadWorld(root string, ls loadSpec) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if ls.goos != "" {
		env = append(env, "GOOS="+ls.goos, "GOARCH="+ls.goarch)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Env: env}
	if ls.tags != "" {
		cfg.BuildFlags = []string{"-tags=" + ls.tags}
	}
	pkgs, err := packages.Load(cfg, ls.patterns...)
	if err != nil {
		return nil, err
	}
	w := &World{built: map[*ssa.Package]bool{}, byPath: map[string]*ssa.Package{}, root: root}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			w.modPath = p.Module.Path
		}
	}
	if w.modPath == "" {
		return nil, fmt.Errorf("no main module found in %s", root)
	}
	var bad error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(e.Msg, "pattern ") && strings.Contains(e.Msg, "no matching files found") {
				continue // embedded build products need not be present
			}
			if bad == nil {
				bad = fmt.Errorf("%s: %v", p.PkgPath, e)
			}
		}
	})
	if bad != nil {
		return nil, bad
	}
	w.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range prog.AllPackages() {
		w.byPath[p.Pkg.Path()] = p
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if w.isModule(p) {
			if sp := prog.Package(p); sp != nil {
				w.initOrder = append(w.initOrder, sp)
			}
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	if ep := w.byPath["errors"]; ep != nil {
		if o := ep.Pkg.Scope().Lookup("errorString"); o != nil {
			w.errorStringT = types.NewPointer(o.Type())
		}
	}
	return w, nil
}

func (w *World) isModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	return p.Path() == w.modPath || strings.HasPrefix(p.Path(), w.modPath+"/") || p.Path() == "command-line-arguments"
}

func (w *World) build(fn *ssa.Function) {
	if fn.Blocks != nil {
		return
	}
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	for q := fn; p == nil && q.Parent() != nil; {
		q = q.Parent()
		p = q.Package()
		if p == nil && q.Origin() != nil {
			p = q.Origin().Package()
		}
	}
	if p == nil {
		return
	}
	if !w.built[p] {
		w.built[p] = true
		p.Build()
	}
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	if r, err := filepath.Rel(w.root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn finds a package-level function or a method "T.M" / "*T.M" of a module package.
func (w *World) fn(pkg, name string) *ssa.Function {
	path := w.modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := w.byPath[path]
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		f := w.prog.LookupMethod(t, p.Pkg, mn)
		if f != nil {
			w.build(f)
		}
		return f
	}
	f := p.Func(name)
	if f != nil {
		w.build(f)
	}
	return f
}

// src is the source location of a function.
func (w *World) src(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return w.pos(fn.Pos())
}

// modFuncs lists every source function of the module (methods and closures included).
func (w *World) modFuncs() []*ssa.Function {
	for _, p := range w.initOrder {
		if !w.built[p] {
			w.built[p] = true
			p.Build()
		}
	}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.initOrder {
		for _, n := range sortedKeys(p.Members) {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Package() == p {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}
