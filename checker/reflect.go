package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of package reflect: a reflect.Type is a known type or typeof(value), a
// reflect.Value is rv(value).

func methodOf(P *Program, t types.Type, name string) *ssa.Function {
	ms := P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			if f := P.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
				return f
			}
		}
	}
	return nil
}

func rtype(t types.Type) Value {
	return &VApp{F: "rtype:" + typeKey(t), T: t, NonNil: true}
}

func rv(v Value, t types.Type) Value {
	return &VApp{F: "rv", Args: []Value{v}, T: t, NonNil: true}
}

func rvOf(v Value) (Value, bool) {
	if a, ok := v.(*VApp); ok && a.F == "rv" {
		return a.Args[0], true
	}
	if a, ok := v.(*VApp); ok && a.F == "rvval" {
		return mkIface(a.Args[0], a.T), true
	}
	return nil, false
}

func kindOf(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Ptr, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Map:
		return reflect.Map, true
	case *types.Interface:
		return reflect.Interface, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Array:
		return reflect.Array, true
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String, true
		case types.UnsafePointer:
			return reflect.UnsafePointer, true
		}
		// booleans and numbers are numbered as in package reflect
		if k := u.Kind(); k >= types.Bool && k <= types.Complex128 {
			return reflect.Kind(k), true
		}
	}
	return 0, false
}

// rvType is the static type of a reflect.Value, if known.
func rvType(st *State, v Value) types.Type {
	a, ok := v.(*VApp)
	if !ok {
		return nil
	}
	switch a.F {
	case "rvat", "rvval":
		return a.T
	case "rv":
		switch x := a.Args[0].(type) {
		case *VIface:
			return x.T
		case *VSym:
			if x.T != nil && concreteEnv(x.T) {
				return x.T
			}
		}
	}
	return nil
}

// rvLoad is the value a reflect.Value holds, without its interface wrapping.
func rvLoad(st *State, v Value) (Value, types.Type, bool) {
	t := rvType(st, v)
	if t == nil {
		return nil, nil, false
	}
	a := v.(*VApp)
	if a.F == "rvval" {
		return a.Args[0], t, true
	}
	if a.F == "rvat" {
		p, ok := a.Args[0].(VPtr)
		if !ok {
			return nil, nil, false
		}
		return st.loadCell(p.O, p.P, t), t, true
	}
	return stripIface(a.Args[0]), t, true
}

// rvInvalid is the zero reflect.Value.
func rvInvalid(t types.Type) Value { return &VApp{F: "rvinvalid", T: t, NonNil: true} }

func isInvalid(v Value) bool {
	a, ok := v.(*VApp)
	return ok && a.F == "rvinvalid"
}

func reflectPanic(msg string) []Outcome {
	return []Outcome{{Panic: &VApp{F: "runtime:reflect: " + msg, NonNil: true}}}
}

func initReflect() {
	m := extModels
	m["reflect.TypeOf"] = func(c *CallCtx) []Outcome {
		if i, ok := c.Args[0].(*VIface); ok {
			return ret(rtype(i.T))
		}
		if _, ok := c.Args[0].(VNil); ok {
			return ret(VNil{})
		}
		if s, ok := c.Args[0].(*VSym); ok && s.T != nil && concreteEnv(s.T) {
			return ret(rtype(s.T))
		}
		return ret(&VApp{F: "typeof", Args: []Value{c.Args[0]}, T: c.resT(0), NonNil: true})
	}
	m["reflect.ValueOf"] = func(c *CallCtx) []Outcome {
		if _, ok := c.Args[0].(VNil); ok {
			return ret(rvInvalid(c.resT(0)))
		}
		return ret(rv(c.Args[0], c.resT(0)))
	}
	m["reflect.New"] = func(c *CallCtx) []Outcome {
		var et types.Type = types.Typ[types.UntypedNil]
		if t, ok := rtypeOf(c.Args[0]); ok {
			et = t
		}
		o := &Obj{Kind: "cells", T: et, Cells: map[string]Value{"!rtype": c.Args[0]}}
		p := VPtr{c.St.freshObj("rnew:"+c.Pre, o), ""}
		if _, ok := rtypeOf(c.Args[0]); ok {
			return ret(rv(&VIface{T: types.NewPointer(et), V: p}, c.resT(0)))
		}
		return ret(rv(p, c.resT(0)))
	}
	m["(reflect.Value).Interface"] = func(c *CallCtx) []Outcome {
		if a, ok := c.Args[0].(*VApp); ok && a.F == "rvat" {
			if v, t, ok := rvLoad(c.St, a); ok {
				return ret(mkIface(v, t))
			}
		}
		if v, ok := rvOf(c.Args[0]); ok {
			return ret(v)
		}
		return ret(&VApp{F: "rviface", Args: c.Args, T: c.resT(0)})
	}
	m["(reflect.Value).IsNil"] = func(c *CallCtx) []Outcome {
		if t := rvType(c.St, c.Args[0]); t != nil {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			default:
				return reflectPanic("IsNil of a value that cannot be nil")
			}
			if v, _, ok := rvLoad(c.St, c.Args[0]); ok {
				return ret(cBool(c.In.isNil(c.St, v)))
			}
		}
		if v, ok := rvOf(c.Args[0]); ok {
			return ret(cBool(c.In.isNil(c.St, v)))
		}
		return ret(&VPred{Op: "nil", X: c.Args[0]})
	}
	m["(reflect.Value).Convert"] = func(c *CallCtx) []Outcome {
		if v, ok := rvOf(c.Args[0]); ok {
			if t, ok := rtypeOf(c.Args[1]); ok {
				x := v
				if i, ok := x.(*VIface); ok {
					x = i.V
				}
				return ret(rv(&VIface{T: t, V: x}, c.resT(0)))
			}
		}
		return ret(&VApp{F: "rvconv", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Call"] = func(c *CallCtx) []Outcome {
		f, ok := rvOf(c.Args[0])
		if !ok {
			f = &VApp{F: "rvfunc", Args: []Value{c.Args[0]}}
		}
		loc := map[string]Value{"f": f}
		es, exact := c.In.variadic(c.St, c.Args[1], nil)
		if !exact {
			return nil
		}
		for i, e := range es {
			v, ok := rvOf(e)
			if !ok {
				v = &VApp{F: "rviface", Args: []Value{e}}
			}
			loc["a"+strconv.Itoa(i)] = v
		}
		return []Outcome{{Script: reflectCall, Loc: loc}}
	}
	m["(reflect.Type).Kind"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			if k, ok := kindOf(t); ok {
				return ret(cInt(int(k)))
			}
		}
		return ret(&VApp{F: "kind", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Type).Elem"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return ret(rtype(u.Elem()))
			case *types.Slice:
				return ret(rtype(u.Elem()))
			case *types.Map:
				return ret(rtype(u.Elem()))
			}
		}
		return ret(&VApp{F: "rtelem", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
	}
	sigPart := func(name, app string, pick func(sig *types.Signature) *types.Tuple) {
		m["(reflect.Type)."+name] = func(c *CallCtx) []Outcome {
			if t, ok := rtypeOf(c.Recv); ok {
				if sig, ok := t.Underlying().(*types.Signature); ok {
					if i, ok := constInt(c.Args[0]); ok {
						if tu := pick(sig); i >= 0 && i < tu.Len() {
							return ret(rtype(tu.At(i).Type()))
						}
						return []Outcome{{Panic: &VApp{F: "runtime:reflect: index out of range", NonNil: true}}}
					}
				} else {
					return []Outcome{{Panic: &VApp{F: "runtime:reflect: " + name + " of non-func type", NonNil: true}}}
				}
			}
			return ret(&VApp{F: app, Args: []Value{c.Recv, c.Args[0]}, T: c.resT(0), NonNil: true})
		}
		m["(reflect.Type).Num"+name] = func(c *CallCtx) []Outcome {
			if t, ok := rtypeOf(c.Recv); ok {
				if sig, ok := t.Underlying().(*types.Signature); ok {
					return ret(cInt(pick(sig).Len()))
				}
				return []Outcome{{Panic: &VApp{F: "runtime:reflect: Num" + name + " of non-func type", NonNil: true}}}
			}
			return ret(&VApp{F: app + "num", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
		}
	}
	sigPart("In", "rtin", (*types.Signature).Params)
	sigPart("Out", "rtout", (*types.Signature).Results)
	m["(reflect.Type).Implements"] = func(c *CallCtx) []Outcome {
		a, ok1 := rtypeOf(c.Recv)
		b, ok2 := rtypeOf(c.Args[0])
		if ok1 && ok2 {
			if i, ok := b.Underlying().(*types.Interface); ok {
				return ret(cBool(types.Implements(a, i)))
			}
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "implements", Args: []Value{c.Recv, c.Args[0]}}})
	}
	rel := func(name string, f func(a, b types.Type) bool) {
		m["(reflect.Type)."+name] = func(c *CallCtx) []Outcome {
			a, ok1 := rtypeOf(c.Recv)
			b, ok2 := rtypeOf(c.Args[0])
			if ok1 && ok2 {
				return ret(cBool(f(a, b)))
			}
			return ret(&VPred{Op: "truth", X: &VApp{F: "rt" + name, Args: []Value{c.Recv, c.Args[0]}}})
		}
	}
	rel("ConvertibleTo", types.ConvertibleTo)
	rel("AssignableTo", types.AssignableTo)
	m["(reflect.Type).Key"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			if u, ok := t.Underlying().(*types.Map); ok {
				return ret(rtype(u.Key()))
			}
		}
		return ret(&VApp{F: "rtkey", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
	}
	mk := func(key string, f func(t types.Type) types.Type) {
		m[key] = func(c *CallCtx) []Outcome {
			if t, ok := rtypeOf(c.Args[0]); ok {
				return ret(rtype(f(t)))
			}
			return ret(&VApp{F: key, Args: c.Args, T: c.resT(0), NonNil: true})
		}
	}
	mk("reflect.SliceOf", func(t types.Type) types.Type { return types.NewSlice(t) })
	mk("reflect.PtrTo", func(t types.Type) types.Type { return types.NewPointer(t) })
	mk("reflect.PointerTo", func(t types.Type) types.Type { return types.NewPointer(t) })
	// ---- values
	m["(reflect.Value).Type"] = func(c *CallCtx) []Outcome {
		if t := rvType(c.St, c.Args[0]); t != nil {
			return ret(rtype(t))
		}
		return ret(&VApp{F: "rvtype", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Kind"] = func(c *CallCtx) []Outcome {
		if t := rvType(c.St, c.Args[0]); t != nil {
			if k, ok := kindOf(t); ok {
				return ret(cInt(int(k)))
			}
		}
		return ret(&VApp{F: "rvkind", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).IsValid"] = func(c *CallCtx) []Outcome { return ret(cBool(!isInvalid(c.Args[0]))) }
	m["(reflect.Value).CanSet"] = func(c *CallCtx) []Outcome {
		if a, ok := c.Args[0].(*VApp); ok && (a.F == "rvat" || a.F == "rv" || isInvalid(a)) {
			return ret(cBool(a.F == "rvat"))
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "rvcanset", Args: c.Args}})
	}
	m["(reflect.Value).CanAddr"] = m["(reflect.Value).CanSet"]
	m["(reflect.Value).SetZero"] = func(c *CallCtx) []Outcome {
		a, ok := c.Args[0].(*VApp)
		if ok && a.F == "rvat" {
			if p, ok := a.Args[0].(VPtr); ok {
				c.In.event(c.St, "store", c.Pos, p, zero(a.T))
				c.St.storeCell(p.O, p.P, a.T, zero(a.T))
				return []Outcome{{}}
			}
		}
		if ok && a.F == "rv" {
			return reflectPanic("SetZero of a value that cannot be set")
		}
		c.St.Set(taintKey, "reflect.Value.SetZero")
		return []Outcome{{}}
	}
	for _, n := range []string{"Int", "Uint", "String", "Bool", "Float", "Bytes"} {
		n := n
		m["(reflect.Value)."+n] = func(c *CallCtx) []Outcome {
			if v, ok := rvOf(c.Args[0]); ok {
				return ret(retype(stripIface(v), c.resT(0)))
			}
			return ret(&VApp{F: "rv" + n, Args: c.Args, T: c.resT(0), NonNil: true})
		}
	}
	m["(reflect.Value).IsZero"] = func(c *CallCtx) []Outcome {
		if v, ok := rvOf(c.Args[0]); ok {
			if t := rvType(c.St, c.Args[0]); t != nil {
				z := zero(t)
				if _, isNil := z.(VNil); isNil {
					return ret(cBool(c.In.isNil(c.St, stripIface(v))))
				}
				return ret(cBool(c.In.equal(c.St, stripIface(v), z)))
			}
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "rviszero", Args: c.Args}})
	}
	m["(reflect.Value).Elem"] = func(c *CallCtx) []Outcome {
		if v, t, ok := rvLoad(c.St, c.Args[0]); ok {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				if c.In.isNil(c.St, v) {
					return ret(rvInvalid(c.resT(0)))
				}
				if p, ok := v.(VPtr); ok {
					return ret(&VApp{F: "rvat", Args: []Value{p}, T: u.Elem(), NonNil: true})
				}
			case *types.Interface:
			default:
				return reflectPanic("Elem of a value that is no pointer")
			}
		}
		if v, ok := rvOf(c.Args[0]); ok {
			if p, ok := stripIface(v).(VPtr); ok {
				if t := rvType(c.St, c.Args[0]); t != nil {
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						return ret(&VApp{F: "rvat", Args: []Value{p}, T: pt.Elem(), NonNil: true})
					}
				}
			}
		}
		return ret(&VApp{F: "rvelem", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["reflect.Indirect"] = func(c *CallCtx) []Outcome {
		if t := rvType(c.St, c.Args[0]); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				return ret(c.Args[0])
			}
			return m["(reflect.Value).Elem"](c)
		}
		return ret(&VApp{F: "rvindirect", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Addr"] = func(c *CallCtx) []Outcome {
		if a, ok := c.Args[0].(*VApp); ok && a.F == "rvat" {
			return ret(rv(&VIface{T: types.NewPointer(a.T), V: a.Args[0]}, c.resT(0)))
		}
		return ret(&VApp{F: "rvaddr", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Len"] = func(c *CallCtx) []Outcome {
		if v, t, ok := rvLoad(c.St, c.Args[0]); ok {
			return ret(c.In.lenOf(c.St, v, t))
		}
		return ret(&VApp{F: "rvlen", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Index"] = func(c *CallCtx) []Outcome {
		if v, t, ok := rvLoad(c.St, c.Args[0]); ok {
			if st, ok := t.Underlying().(*types.Slice); ok {
				if es, exact := c.In.variadic(c.St, v, nil); exact {
					if i, ok := constInt(c.Args[1]); ok {
						if i < 0 || i >= len(es) {
							return []Outcome{{Panic: &VApp{F: "runtime:reflect: slice index out of range", NonNil: true}}}
						}
						return ret(rv(mkIface(es[i], st.Elem()), c.resT(0)))
					}
				}
			}
		}
		return ret(&VApp{F: "rvindex", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["reflect.Append"] = func(c *CallCtx) []Outcome {
		v, t, ok := rvLoad(c.St, c.Args[0])
		es, exact := c.In.variadic(c.St, c.Args[1], nil)
		if !ok || !exact {
			return ret(&VApp{F: "rvappend", Args: c.Args, T: c.resT(0), NonNil: true})
		}
		st, isSl := t.Underlying().(*types.Slice)
		if !isSl {
			return ret(&VApp{F: "rvappend", Args: c.Args, T: c.resT(0), NonNil: true})
		}
		var add []Value
		for _, e := range es {
			x, xt, ok := rvLoad(c.St, e)
			if ok && !types.AssignableTo(xt, st.Elem()) {
				return reflectPanic("Append of a value of another type")
			}
			if !ok {
				x = &VApp{F: "rvvalue", Args: []Value{e}, T: st.Elem()}
			} else if types.IsInterface(st.Elem()) {
				if w, ok2 := rvOf(e); ok2 {
					x = w
				}
			}
			add = append(add, x)
		}
		arg := c.St.slice("rapp:"+c.Pre, t, add...)
		r := c.In.appendOp(c.St, "rappend:"+c.Pre, t, v, arg)
		return ret(rv(&VIface{T: t, V: r}, c.resT(0)))
	}
	m["reflect.MakeSlice"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Args[0]); ok {
			if n, ok := constInt(c.Args[1]); ok && n == 0 {
				return ret(rv(&VIface{T: t, V: c.St.slice("rmake:"+c.Pre, t)}, c.resT(0)))
			}
		}
		return ret(&VApp{F: "rvmake", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["reflect.Zero"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Args[0]); ok {
			return ret(rv(mkIface(zero(t), t), c.resT(0)))
		}
		return ret(&VApp{F: "rvzero", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(reflect.Value).Set"] = func(c *CallCtx) []Outcome {
		a, ok := c.Args[0].(*VApp)
		if ok && a.F == "rvat" {
			if p, ok := a.Args[0].(VPtr); ok {
				v, vt, ok := rvLoad(c.St, c.Args[1])
				if ok && !types.AssignableTo(vt, a.T) {
					return reflectPanic("Set with a value of another type")
				}
				if ok && types.IsInterface(a.T) && !types.IsInterface(vt) {
					v = mkIface(v, vt)
				}
				if !ok {
					v = &VApp{F: "rvvalue", Args: []Value{c.Args[1]}, T: a.T}
				}
				c.In.event(c.St, "store", c.Pos, p, v)
				c.St.storeCell(p.O, p.P, a.T, v)
				return []Outcome{{}}
			}
		}
		if ok && a.F == "rv" {
			return reflectPanic("Set of a value that cannot be set")
		}
		c.St.Set(taintKey, "reflect.Value.Set")
		return []Outcome{{}}
	}
	m["(reflect.Value).CanInterface"] = func(c *CallCtx) []Outcome {
		if _, ok := rvOf(c.Args[0]); ok {
			return ret(cBool(true))
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "rvcaniface", Args: c.Args}})
	}
	initReflect2()
	// methods of the zero Value panic
	for k, f := range m {
		if !strings.HasPrefix(k, "(reflect.Value).") {
			continue
		}
		switch f := f; strings.TrimPrefix(k, "(reflect.Value).") {
		case "IsValid", "CanSet", "CanAddr", "Comparable", "Equal":
		case "Kind":
			m[k] = func(c *CallCtx) []Outcome {
				if isInvalid(c.Args[0]) {
					return ret(cInt(0))
				}
				return f(c)
			}
		default:
			m[k] = func(c *CallCtx) []Outcome {
				if isInvalid(c.Args[0]) {
					return reflectPanic("method of the zero Value")
				}
				return f(c)
			}
		}
	}
	extPrefixes = append(extPrefixes, prefixModel{"reflect.", reflectApp}, prefixModel{"(reflect.", reflectApp})
}

func reflectApp(c *CallCtx) []Outcome {
	var args []Value
	if c.Recv != nil {
		args = append(args, c.Recv)
	}
	args = append(args, c.Args...)
	var vs []Value
	for i := 0; i < c.Res.Len(); i++ {
		if b, ok := c.resT(i).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			vs = append(vs, &VPred{Op: "truth", X: &VApp{F: c.Key, Args: args}})
			continue
		}
		vs = append(vs, &VApp{F: c.Key, Args: args, T: c.resT(i), NonNil: true})
	}
	return ret(vs...)
}

var anyT = types.NewInterfaceType(nil, nil)

var reflectCall = &Script{Name: "reflect.Call", Steps: []stepFn{
	func(in *Interp, st *State, fr *Frame) []*State {
		var args []Value
		for i := 0; ; i++ {
			v, ok := fr.loc["a"+strconv.Itoa(i)]
			if !ok {
				break
			}
			args = append(args, v)
		}
		f := fr.loc["f"]
		if i, ok := f.(*VIface); ok {
			if s, ok := i.T.Underlying().(*types.Signature); ok {
				// the called function takes its own argument types
				for j := range args {
					if j < s.Params().Len() {
						if x, ok := args[j].(*VIface); ok && !types.IsInterface(s.Params().At(j).Type()) {
							args[j] = x.V
						}
					}
				}
				return in.CallValue(st, i.V, s, "call", args...)
			}
			f = i.V
		}
		var ps []*types.Var
		for range args {
			ps = append(ps, types.NewVar(0, nil, "", anyT))
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(types.NewVar(0, nil, "", anyT)), false)
		return in.CallValue(st, f, sig, "call", args...)
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		var outs []Value
		if t, ok := fr.loc["ret"].(*VTuple); ok {
			outs = t.V
		} else if fr.loc["ret"] != nil {
			outs = []Value{fr.loc["ret"]}
		}
		o := &Obj{Kind: "slice", T: types.NewSlice(anyT)}
		for i, v := range outs {
			if f, ok := fr.loc["f"].(*VIface); ok {
				if s, ok := f.T.Underlying().(*types.Signature); ok && i < s.Results().Len() {
					v = mkIface(v, s.Results().At(i).Type())
				}
			}
			o.Elems = append(o.Elems, rv(v, anyT))
		}
		id := st.freshObj("outs:"+fr.ctx, o)
		fr.loc["result"] = &VTuple{[]Value{VSlice{id}}}
		return nil
	},
}}

func isReflectKey(k string) bool { return strings.HasPrefix(k, "reflect.") }
