package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// BH is a table-driven harness: the environment of one scenario.
type BH struct {
	onCall  map[string]modelFn
	onEnter map[string]modelFn
	onEvent func(in *Interp, st *State, kind string, pos token.Pos, args []Value)
	onEnd   func(in *Interp, st *State, panicked Value)
	track   func(id string) bool
	decide  func(st *State, p *VPred) tri
	goMode  func(c *CallCtx) int
}

func newBH() *BH {
	return &BH{onCall: map[string]modelFn{}, onEnter: map[string]modelFn{}}
}

func (h *BH) Call(c *CallCtx) []Outcome {
	if f, ok := h.onCall[c.Key]; ok {
		return f(c)
	}
	return nil
}
func (h *BH) Enter(c *CallCtx) []Outcome {
	if f, ok := h.onEnter[c.Key]; ok {
		return f(c)
	}
	return nil
}
func (h *BH) Event(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	if h.onEvent != nil {
		h.onEvent(in, st, kind, pos, args)
	}
}
func (h *BH) End(in *Interp, st *State, p Value) {
	if h.onEnd != nil {
		h.onEnd(in, st, p)
	}
}
func (h *BH) Tracked(id string) bool {
	if strings.HasPrefix(id, "cfg:") || strings.HasPrefix(id, "w:") {
		return true
	}
	return h.track != nil && h.track(id)
}
func (h *BH) Decide(st *State, p *VPred) tri {
	if h.decide != nil {
		return h.decide(st, p)
	}
	return unknown
}
func (h *BH) Go(c *CallCtx) int {
	if h.goMode != nil {
		return h.goMode(c)
	}
	return goSkip
}

// ---- types of the environment ---------------------------------------------

// Env holds what all scenarios of one program share.
type Env struct {
	P      *Program
	base   map[string]*Obj
	pkg    *types.Package
	ModelA types.Type // pointer types of user-defined models
	ModelB types.Type
	named  map[string]types.Type
	mu     sync.Mutex
}

const envPath = "verifenv"

func isEnvType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == envPath
}

func (e *Env) envType(name string, under types.Type, methods ...*types.Func) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if t, ok := e.named[name]; ok {
		return t
	}
	n := types.NewNamed(types.NewTypeName(token.NoPos, e.pkg, name, nil), under, nil)
	for _, m := range methods {
		sig := m.Type().(*types.Signature)
		recv := types.NewVar(token.NoPos, e.pkg, "r", types.NewPointer(n))
		n.AddMethod(types.NewFunc(token.NoPos, e.pkg, m.Name(), types.NewSignatureType(recv, nil, nil, sig.Params(), sig.Results(), sig.Variadic())))
	}
	e.named[name] = n
	return n
}

func methodsOf(t types.Type) []*types.Func {
	i := t.Underlying().(*types.Interface)
	var r []*types.Func
	for k := 0; k < i.NumMethods(); k++ {
		r = append(r, i.Method(k))
	}
	return r
}

// T looks a type of the module up ("pkg.Name" or "Name" for the root package).
func (e *Env) T(name string) types.Type {
	pkg := ""
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	n, err := e.P.Named(pkg, name)
	if err != nil {
		panic(missing{err.Error()})
	}
	return n
}

// missing is thrown when an exported anchor of the API has disappeared.
type missing struct{ msg string }

func (e *Env) Fn(name string) *ssa.Function {
	pkg := ""
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	f, err := e.P.Func(pkg, name)
	if err != nil {
		panic(missing{err.Error()})
	}
	return f
}

func (e *Env) M(pkg, typ, name string) *ssa.Function {
	f, err := e.P.Method(pkg, typ, name)
	if err != nil {
		panic(missing{err.Error()})
	}
	return f
}

// Global reads the value of a package-level variable after initialisation.
func (e *Env) Global(pkg, name string) Value {
	id := "G:" + pkgPath(pkg) + "." + name
	o := e.base[id]
	if o == nil {
		panic(missing{"variable " + id + " not found"})
	}
	return o.Cells[""]
}

func NewEnv(P *Program) (*Env, error) {
	e := &Env{P: P, pkg: types.NewPackage(envPath, "verifenv"), named: map[string]types.Type{}}
	for n, p := range map[string]*int{"OpInsert": &opInsert, "OpUpdate": &opUpdate, "OpDelete": &opDelete, "OpQuery": &opQuery} {
		if i, ok := constInt(P.constOf("", n)); ok {
			*p = i
		}
	}
	im := e.T("IModel")
	st := func() types.Type {
		return types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "ID", types.Typ[types.String], false)}, nil)
	}
	e.ModelA = types.NewPointer(e.envType("ModelA", st(), methodsOf(im)...))
	e.ModelB = types.NewPointer(e.envType("ModelB", st(), methodsOf(im)...))
	if err := e.initBase(); err != nil {
		return nil, err
	}
	return e, nil
}

// initBase interprets the package initialisers.
func (e *Env) initBase() error {
	h := newBH()
	in := NewInterp(e.P, h)
	in.ctxPre = "init."
	in.Depth = 3
	var inits []*ssa.Function
	var paths []string
	for p := range e.P.ByPkg {
		if strings.Contains(p, "/example") || strings.Contains(p, "/testsuit") {
			continue
		}
		paths = append(paths, p)
	}
	sort.Strings(paths)
	st := newState()
	st.keepAll = true
	for _, p := range paths {
		sp := e.P.ByPkg[p]
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				st.heap["G:"+g.String()] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{}}
			}
		}
		inits = append(inits, sp.Func("init"))
	}
	sc := &Script{Name: "init"}
	for _, f := range inits {
		f := f
		sc.Steps = append(sc.Steps, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, f, f.String())
		})
	}
	var ends []*State
	h.onEnd = func(in *Interp, s *State, p Value) {
		if p == nil {
			ends = append(ends, s)
		}
	}
	in.pushScript(st, sc, nil, retDiscard, 0, "init")
	in.Run(st)
	if in.Incomplete != "" || len(ends) == 0 {
		return fmt.Errorf("package initialisation could not be evaluated (%d ends, %s)", len(ends), in.Incomplete)
	}
	e.base = ends[0].heap
	for _, o := range e.base {
		o.key()
	}
	return nil
}

// ---- construction helpers ----------------------------------------------------

func sym(id string, t types.Type) *VSym {
	return &VSym{ID: id, T: t, Distinct: true, NonNil: true}
}

// slice allocates a slice object that holds exactly vs.
func (st *State) slice(id string, t types.Type, vs ...Value) Value {
	o := &Obj{Kind: "slice", T: t, Elems: append([]Value(nil), vs...), Capped: true}
	return VSlice{st.freshObj(id, o)}
}

func (st *State) newMap(id string, t types.Type, kv ...Value) Value {
	o := &Obj{Kind: "map", T: t, Keys: []Value{}}
	for i := 0; i+1 < len(kv); i += 2 {
		o.Keys = append(o.Keys, kv[i])
		o.Elems = append(o.Elems, kv[i+1])
	}
	return VMap{st.freshObj(id, o)}
}

func sliceOf(t types.Type) types.Type { return types.NewSlice(t) }

// field reads a named field of the object a pointer refers to.
func (st *State) field(v Value, name string) Value {
	switch p := stripIface(v).(type) {
	case VPtr:
		o := st.heap[p.O]
		if o == nil {
			return nil
		}
		return st.loadCell(p.O, p.P+"."+name, fieldType(o.T, p.P, name))
	case *VStruct:
		if s, ok := p.T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return p.F[i]
				}
			}
		}
	case *VSym, *VApp:
		t := types.Type(nil)
		if s, ok := p.(*VSym); ok {
			t = s.T
		} else if a, ok := p.(*VApp); ok {
			t = a.T
		}
		if t == nil {
			return nil
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			id := st.symObj(p, pt.Elem())
			return st.loadCell(id, "."+name, fieldType(pt.Elem(), "", name))
		}
	}
	return nil
}

func fieldType(t types.Type, path, name string) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	for _, part := range strings.Split(strings.TrimPrefix(path+"."+name, "."), ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return types.Typ[types.Invalid]
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == part {
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return types.Typ[types.Invalid]
		}
	}
	return t
}

// elems lists the elements of a slice value; exact tells whether that is all of them.
func (in *Interp) elems(st *State, v Value) (vs []Value, exact bool) {
	if v == nil {
		return nil, false
	}
	return in.variadic(st, v, nil)
}

// factOf looks a boolean configuration symbol up.
func (st *State) cfg(id string) tri {
	p := &VPred{Op: "truth", X: &VSym{ID: id, T: types.Typ[types.Bool]}}
	if b, ok := st.lookupFact(p); ok {
		return triOf(b)
	}
	return unknown
}

func cfgSym(id string) Value { return &VSym{ID: id, T: types.Typ[types.Bool]} }

// ctxHas: is target the context v or one that v was derived from?
func ctxHas(v, target Value) bool {
	for i := 0; i < 12 && v != nil; i++ {
		if v.K() == target.K() {
			return true
		}
		a, ok := v.(*VApp)
		if !ok || !strings.HasPrefix(a.F, "ctx") || len(a.Args) == 0 {
			return false
		}
		v = a.Args[0]
	}
	return false
}

// inChain: does the error chain of err contain target?
func (in *Interp) inChain(st *State, err, target Value) bool {
	for _, e := range in.errChain(st, err) {
		if t, _ := st.eq(e, target); t == yes {
			return true
		}
	}
	return false
}

func steps(fs ...stepFn) *Script { return &Script{Name: "script", Steps: fs} }

// finish ends a script frame with results.
func (fr *Frame) finish(vs ...Value) []*State {
	fr.loc["result"] = &VTuple{vs}
	fr.pc = 99
	return nil
}
