package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	dir    string
	prog   *ssa.Program
	pkg    *ssa.Package
	tpkg   *types.Package
	fset   *token.FileSet
	files  []*ast.File
	info   *types.Info
	fns    map[string]*ssa.Function // by short name
	all    []*ssa.Function
	gconst map[*ssa.Global]*ssa.Function
}

func load(dir string) (*World, error) { return loadOverlay(dir, nil) }

func loadOverlay(dir string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	p := pkgs[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("%v", p.Errors)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: dir, prog: prog, pkg: spkgs[0], tpkg: p.Types, fset: p.Fset, files: p.Syntax, info: p.TypesInfo, fns: map[string]*ssa.Function{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == w.pkg && len(f.Blocks) > 0 {
			w.all = append(w.all, f)
			if f.Synthetic == "" || w.fns[fnName(f)] == nil && f.Parent() == nil {
				w.fns[fnName(f)] = f
			}
		}
	}
	// make sure methods of unexported, never-converted types are there too
	for _, m := range w.pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(typ)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == w.pkg && len(f.Blocks) > 0 && f.Synthetic == "" {
						if old := w.fns[fnName(f)]; old == nil || old.Synthetic != "" {
							w.fns[fnName(f)] = f
							w.all = append(w.all, f)
							w.all = append(w.all, f.AnonFuncs...)
						}
					}
				}
			}
		}
		if f, ok := m.(*ssa.Function); ok && w.fns[fnName(f)] == nil && len(f.Blocks) > 0 {
			w.fns[fnName(f)] = f
			w.all = append(w.all, f)
			w.all = append(w.all, f.AnonFuncs...)
		}
	}
	w.applyInventory()
	sort.Slice(w.all, func(i, j int) bool { return w.all[i].String() < w.all[j].String() })
	return w, nil
}

// fn finds a function by short name, e.g. "Graph.NewNode" or "CopyGraph".
func (w *World) fn(name string) *ssa.Function { return w.fns[name] }

func (w *World) inline(fn *ssa.Function) bool {
	if fn.Pkg == w.pkg {
		return true
	}
	if fn.Pkg == nil { // synthetic wrappers, instantiations
		if fn.Origin() != nil && fn.Origin().Pkg == w.pkg {
			return true
		}
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	if fn.Parent() != nil {
		return w.inline(fn.Parent())
	}
	return false
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) ifaceTypeName(n string) bool {
	n = strings.TrimPrefix(n, "type:")
	n = strings.TrimPrefix(n, "lpg.")
	if o := w.tpkg.Scope().Lookup(n); o != nil {
		_, ok := o.Type().Underlying().(*types.Interface)
		return ok
	}
	return false
}

// typ finds a named type of the package.
func (w *World) typ(name string) types.Type {
	if o := w.tpkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// globalConst gives the constant byte-slice or string value of a package
// variable that is only assigned by its initialiser.
func (w *World) globalConst(e *Eng, g *ssa.Global) *Term {
	if g.Pkg != w.pkg {
		return nil
	}
	return nil
}
