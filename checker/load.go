package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bytedance/dddfirework"

// Program is the type-checked, SSA-lowered current tree of the repository.
type Program struct {
	Repo  string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	ByPkg map[string]*ssa.Package // by import path
	Funcs []*ssa.Function         // all module functions with bodies

	shim    map[string]*ssa.Function // library functions that are defined in Go (shim.go)
	shimPkg *ssa.Package
}

func Load(repo string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedExportFile,
		Dir: repo, Env: env,
	}
	ps, err := packages.Load(cfg, "./...", "slices", "maps", "cmp", "iter")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Repo: repo, Prog: prog, ByPkg: map[string]*ssa.Package{}}
	P.shim, P.shimPkg, err = buildShim(prog)
	if err != nil {
		return nil, err
	}
	for i, p := range ps {
		if stdSource[p.PkgPath] {
			continue
		}
		P.Pkgs = append(P.Pkgs, p)
		if sps[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.ByPkg[p.PkgPath] = sps[i]
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && P.inModule(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		if P.Funcs[i].String() != P.Funcs[j].String() {
			return P.Funcs[i].String() < P.Funcs[j].String()
		}
		return P.Funcs[i].Pos() < P.Funcs[j].Pos()
	})
	return P, nil
}

func (P *Program) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return inModulePath(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return inModulePath(o.Pkg().Path())
	}
	// synthetic wrappers: accept when built from module methods
	return f.Synthetic != "" && strings.Contains(f.String(), modPath)
}

func inModulePath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// Named returns the named type pkgSuffix.name of the module ("" is the root package).
func (P *Program) Named(pkg, name string) (*types.Named, error) {
	sp := P.ByPkg[pkgPath(pkg)]
	if sp == nil {
		return nil, fmt.Errorf("package %q not found", pkg)
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("type %s.%s not found", pkg, name)
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil, fmt.Errorf("%s.%s is not a named type", pkg, name)
	}
	return n, nil
}

func pkgPath(pkg string) string {
	if pkg == "" {
		return modPath
	}
	return modPath + "/" + pkg
}

// Func returns a package-level function.
func (P *Program) Func(pkg, name string) (*ssa.Function, error) {
	sp := P.ByPkg[pkgPath(pkg)]
	if sp == nil {
		return nil, fmt.Errorf("package %q not found", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("function %s.%s not found", pkg, name)
	}
	return f, nil
}

// Method returns the SSA function of a method of *T or T.
func (P *Program) Method(pkg, typ, name string) (*ssa.Function, error) {
	n, err := P.Named(pkg, typ)
	if err != nil {
		return nil, err
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := P.Prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(n.Obj().Pkg(), name); sel != nil {
			if f := P.Prog.MethodValue(sel); f != nil {
				return f, nil
			}
		}
	}
	return nil, fmt.Errorf("method (%s.%s).%s not found", pkg, typ, name)
}

// constOf is the value of an exported constant of the module.
func (P *Program) constOf(pkg, name string) Value {
	if sp := P.ByPkg[pkgPath(pkg)]; sp != nil {
		if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return VConst{c.Val(), c.Type()}
		}
	}
	panic(missing{"constant " + name + " not found"})
}
