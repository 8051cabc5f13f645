package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Some library types keep state whose behaviour is easiest to state in Go itself. The
// functions below define what these library functions do, one goroutine at a time; the
// interpreter executes them in place of the library's code. The receiver stands for the
// library object: its fields are kept in the object under names of their own.
const shimSrc = `package shim

type smap struct { zm map[any]any }

func sync_Map_Load(p *smap, k any) (any, bool) { v, ok := p.zm[k]; return v, ok }
func sync_Map_Store(p *smap, k, v any) {
	if p.zm == nil { p.zm = map[any]any{} }
	p.zm[k] = v
}
func sync_Map_LoadOrStore(p *smap, k, v any) (any, bool) {
	if old, ok := p.zm[k]; ok { return old, true }
	if p.zm == nil { p.zm = map[any]any{} }
	p.zm[k] = v
	return v, false
}
func sync_Map_LoadAndDelete(p *smap, k any) (any, bool) {
	old, ok := p.zm[k]
	delete(p.zm, k)
	return old, ok
}
func sync_Map_Swap(p *smap, k, v any) (any, bool) {
	old, ok := p.zm[k]
	if p.zm == nil { p.zm = map[any]any{} }
	p.zm[k] = v
	return old, ok
}
func sync_Map_CompareAndSwap(p *smap, k, o, v any) bool {
	old, ok := p.zm[k]
	if !ok || old != o { return false }
	p.zm[k] = v
	return true
}
func sync_Map_CompareAndDelete(p *smap, k, o any) bool {
	old, ok := p.zm[k]
	if !ok || old != o { return false }
	delete(p.zm, k)
	return true
}
func sync_Map_Delete(p *smap, k any) { delete(p.zm, k) }
func sync_Map_Clear(p *smap) { p.zm = nil }
func sync_Map_Range(p *smap, f func(k, v any) bool) {
	for k, v := range p.zm {
		if !f(k, v) { break }
	}
}

type pool struct {
	zi []any
	New func() any
}

func sync_Pool_Get(p *pool) any {
	if n := len(p.zi); n > 0 {
		x := p.zi[0]
		p.zi = p.zi[1:]
		return x
	}
	if p.New != nil { return p.New() }
	return nil
}
func sync_Pool_Put(p *pool, x any) {
	if x != nil { p.zi = append(p.zi, x) }
}

type builder struct { zs string }

func strings_Builder_WriteString(p *builder, s string) (int, error) { p.zs += s; return len(s), nil }
func strings_Builder_WriteByte(p *builder, c byte) error { p.zs += string(rune(c)); return nil }
func strings_Builder_WriteRune(p *builder, c rune) (int, error) { p.zs += string(c); return 1, nil }
func strings_Builder_String(p *builder) string { return p.zs }
func strings_Builder_Len(p *builder) int { return len(p.zs) }
func strings_Builder_Reset(p *builder) { p.zs = "" }
func strings_Builder_Grow(p *builder, n int) {}

func bytes_Buffer_WriteString(p *builder, s string) (int, error) { p.zs += s; return len(s), nil }
func bytes_Buffer_WriteByte(p *builder, c byte) error { p.zs += string(rune(c)); return nil }
func bytes_Buffer_WriteRune(p *builder, c rune) (int, error) { p.zs += string(c); return 1, nil }
func bytes_Buffer_String(p *builder) string { return p.zs }
func bytes_Buffer_Len(p *builder) int { return len(p.zs) }
func bytes_Buffer_Reset(p *builder) { p.zs = "" }

type atomic struct { zv any; zi int64; zu uint64; zb bool }

func atomic_Value_Load(p *atomic) any { return p.zv }
func atomic_Value_Store(p *atomic, v any) { p.zv = v }
func atomic_Value_Swap(p *atomic, v any) any { o := p.zv; p.zv = v; return o }
func atomic_Value_CompareAndSwap(p *atomic, o, v any) bool { if p.zv == o { p.zv = v; return true }; return false }

func atomic_Bool_Load(p *atomic) bool { return p.zb }
func atomic_Bool_Store(p *atomic, v bool) { p.zb = v }
func atomic_Bool_Swap(p *atomic, v bool) bool { o := p.zb; p.zb = v; return o }
func atomic_Bool_CompareAndSwap(p *atomic, o, v bool) bool { if p.zb == o { p.zb = v; return true }; return false }
`

// numbers: the same functions for every width
const shimNum = `
type atomic_T struct { zn K }

func atomic_T_Load(p *atomic_T) K { return p.zn }
func atomic_T_Store(p *atomic_T, v K) { p.zn = v }
func atomic_T_Add(p *atomic_T, v K) K { p.zn += v; return p.zn }
func atomic_T_Swap(p *atomic_T, v K) K { o := p.zn; p.zn = v; return o }
func atomic_T_CompareAndSwap(p *atomic_T, o, v K) bool { if p.zn == o { p.zn = v; return true }; return false }

func atomic_LoadT(p *K) K { return *p }
func atomic_StoreT(p *K, v K) { *p = v }
func atomic_AddT(p *K, v K) K { *p += v; return *p }
func atomic_SwapT(p *K, v K) K { o := *p; *p = v; return o }
func atomic_CompareAndSwapT(p *K, o, v K) bool { if *p == o { *p = v; return true }; return false }
`

// buildShim compiles the definitions above; the result maps library functions to them.
func buildShim(prog *ssa.Program) (map[string]*ssa.Function, *ssa.Package, error) {
	src := shimSrc
	for t, k := range map[string]string{"Int32": "int32", "Int64": "int64", "Uint32": "uint32", "Uint64": "uint64"} {
		s := strings.ReplaceAll(shimNum, "atomic_T_", "atomic_"+t+"_")
		s = strings.ReplaceAll(s, "atomic_T ", "an_"+t+" ")
		s = strings.ReplaceAll(s, "*atomic_T", "*an_"+t)
		for _, f := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			s = strings.ReplaceAll(s, "atomic_"+f+"T(", "atomic_"+f+t+"(")
		}
		s = strings.NewReplacer(" K ", " "+k+" ", "*K", "*"+k, " K)", " "+k+")", "K {", k+" {").Replace(s)
		src += s
	}
	f, err := parser.ParseFile(prog.Fset, "shim.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, fmt.Errorf("shim: %v", err)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	pkg, err := (&types.Config{}).Check("shim", prog.Fset, []*ast.File{f}, info)
	if err != nil {
		return nil, nil, fmt.Errorf("shim: %v", err)
	}
	sp := prog.CreatePackage(pkg, []*ast.File{f}, info, true)
	sp.Build()
	res := map[string]*ssa.Function{}
	for n, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || n == "init" {
			continue
		}
		p := strings.Split(n, "_")
		path := p[0]
		if path == "atomic" {
			path = "sync/atomic"
		}
		switch len(p) {
		case 3:
			res["(*"+path+"."+p[1]+")."+p[2]] = fn
		case 2:
			res[path+"."+p[1]] = fn
		}
	}
	return res, sp, nil
}

// stdSource lists library packages whose own code is executed: they consist of plain
// functions over slices, maps and iterators.
var stdSource = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

// std tells whether a function is library code that the interpreter executes.
func (P *Program) std(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return stdSource[f.Pkg.Pkg.Path()] || f.Pkg == P.shimPkg
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return stdSource[o.Pkg().Path()]
	}
	return false
}
