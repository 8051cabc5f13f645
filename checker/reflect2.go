package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"
)

// The part of package reflect that looks into values: fields, zero values and
// comparisons. What needs to know more about a symbol forks the path.

// rvval is a reflect.Value that cannot be set, of a known static type.
func rvval(v Value, t types.Type, res types.Type, ro string) Value {
	args := []Value{v, cStr(typeKey(t))}
	if ro != "" {
		args = append(args, cStr(ro))
	}
	return &VApp{F: "rvval", Args: args, T: t, NonNil: true}
}

func rvat(p VPtr, t types.Type, ro string) Value {
	args := []Value{p}
	if ro != "" {
		args = append(args, cStr(typeKey(t)), cStr(ro))
	}
	return &VApp{F: "rvat", Args: args, T: t, NonNil: true}
}

// rvRO tells how a value came out of unexported fields: "" not at all, "ro", or
// "ero" if it is an embedded field itself.
func rvRO(v Value) string {
	if a, ok := v.(*VApp); ok && (a.F == "rvat" || a.F == "rvval") && len(a.Args) > 2 {
		s, _ := constString(a.Args[2])
		return s
	}
	return ""
}

func rvKnown(v Value) bool {
	a, ok := v.(*VApp)
	return ok && (a.F == "rvat" || a.F == "rvval" || a.F == "rv")
}

// rvField is field i of a struct value.
func rvField(c *CallCtx, v Value, i int) (Value, bool) {
	t := rvType(c.St, v)
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return nil, false
	}
	f := s.Field(i)
	ro := rvRO(v)
	if ro == "ero" {
		ro = ""
	}
	if !f.Exported() {
		if f.Embedded() {
			if ro == "" {
				ro = "ero"
			}
		} else {
			ro = "ro"
		}
	}
	a := v.(*VApp)
	if a.F == "rvat" {
		p, ok := a.Args[0].(VPtr)
		if !ok {
			return nil, false
		}
		return rvat(VPtr{p.O, p.P + "." + f.Name()}, f.Type(), ro), true
	}
	x := stripIface(a.Args[0])
	if a.F == "rvval" {
		x = a.Args[0]
	}
	var fv Value
	if sv, ok := x.(*VStruct); ok && i < len(sv.F) {
		fv = sv.F[i]
	} else if isZeroValue(x) {
		fv = zero(f.Type())
	} else {
		fv = &VApp{F: "part." + f.Name(), Args: []Value{x}, T: f.Type()}
	}
	return rvval(fv, f.Type(), c.resT(0), ro), true
}

// rvElem is what a pointer or interface refers to.
func rvElem(c *CallCtx, x Value) (Value, bool) {
	v, t, ok := rvLoad(c.St, x)
	if !ok {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if c.In.isNil(c.St, v) {
			return rvInvalid(c.resT(0)), true
		}
		if p, ok := v.(VPtr); ok {
			return rvat(p, u.Elem(), rvRO(x)), true
		}
		switch v.(type) {
		case *VSym, *VApp:
			return rvat(VPtr{c.St.symObj(v, u.Elem()), ""}, u.Elem(), rvRO(x)), true
		}
	case *types.Interface:
		if c.In.isNil(c.St, v) {
			return rvInvalid(c.resT(0)), true
		}
		if i, ok := v.(*VIface); ok {
			return rvval(i.V, i.T, c.resT(0), rvRO(x)), true
		}
		if s, ok := v.(*VSym); ok && s.T != nil && concreteEnv(s.T) {
			return rvval(s, s.T, c.resT(0), rvRO(x)), true
		}
	}
	return nil, false
}

// isZeroDeep tells whether a value is the zero value of its type.
func (in *Interp) isZeroDeep(st *State, v Value, t types.Type) bool {
	if isZeroValue(v) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if sv, ok := v.(*VStruct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if !in.isZeroDeep(st, sv.F[i], u.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		return in.equal(st, v, zero(t))
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return in.isNil(st, v)
	}
	return in.equal(st, v, zero(t))
}

func comparableType(t types.Type) bool { return types.Comparable(t) }

// same: a == b for values of one static type.
func (in *Interp) sameDeep(st *State, a, b Value, t types.Type) bool {
	if u, ok := t.Underlying().(*types.Struct); ok {
		sa, ok1 := a.(*VStruct)
		sb, ok2 := b.(*VStruct)
		if ok1 && ok2 {
			for i := 0; i < u.NumFields(); i++ {
				if !in.sameDeep(st, sa.F[i], sb.F[i], u.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		if isTime(t) {
			return in.sameTime(st, a, b)
		}
	}
	return in.equal(st, a, b)
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

// sameTime: equal representations imply equal instants, not the other way round.
func (in *Interp) sameTime(st *State, a, b Value) bool {
	if a.K() == b.K() {
		return true
	}
	if !in.equal(st, a, b) {
		return false
	}
	if b.K() < a.K() {
		a, b = b, a
	}
	return in.truth(st, &VPred{Op: "truth", X: &VApp{F: "sametimerepr", Args: []Value{a, b}}})
}

// deepEqual is reflect.DeepEqual for values of one static type.
func (in *Interp) deepEqual(st *State, a, b Value, t types.Type) (bool, bool) {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		na, nb := in.isNil(st, a), in.isNil(st, b)
		if na || nb {
			return na && nb, true
		}
		ia, ok1 := a.(*VIface)
		ib, ok2 := b.(*VIface)
		if !ok1 || !ok2 {
			return false, false
		}
		if !types.Identical(ia.T, ib.T) {
			return false, true
		}
		return in.deepEqual(st, ia.V, ib.V, ia.T)
	case *types.Pointer:
		if a.K() == b.K() {
			return true, true
		}
		na, nb := in.isNil(st, a), in.isNil(st, b)
		if na || nb {
			return na && nb, true
		}
		pa, ok1 := a.(VPtr)
		pb, ok2 := b.(VPtr)
		if !ok1 || !ok2 {
			return false, false
		}
		return in.deepEqual(st, st.loadCell(pa.O, pa.P, u.Elem()), st.loadCell(pb.O, pb.P, u.Elem()), u.Elem())
	case *types.Slice:
		na, nb := in.isNil(st, a), in.isNil(st, b)
		if na || nb {
			return na && nb, true
		}
		ea, ok1 := in.elems(st, a)
		eb, ok2 := in.elems(st, b)
		if !ok1 || !ok2 {
			return false, false
		}
		if len(ea) != len(eb) {
			return false, true
		}
		for i := range ea {
			if eq, ok := in.deepEqual(st, ea[i], eb[i], u.Elem()); !eq || !ok {
				return eq, ok
			}
		}
		return true, true
	case *types.Map:
		na, nb := in.isNil(st, a), in.isNil(st, b)
		if na || nb {
			return na && nb, true
		}
		ma, ok1 := a.(VMap)
		mb, ok2 := b.(VMap)
		if !ok1 || !ok2 {
			return false, false
		}
		oa, ob := st.heap[ma.O], st.heap[mb.O]
		if oa == nil || ob == nil || oa.Other != nil || ob.Other != nil || oa.Opaque || ob.Opaque {
			return false, false
		}
		if len(oa.Keys) != len(ob.Keys) {
			return false, true
		}
		for i, k := range oa.Keys {
			j := in.mapFind(st, ob, k)
			if j < 0 {
				return false, true
			}
			if eq, ok := in.deepEqual(st, oa.Elems[i], ob.Elems[j], u.Elem()); !eq || !ok {
				return eq, ok
			}
		}
		return true, true
	case *types.Struct:
		sa, ok1 := a.(*VStruct)
		sb, ok2 := b.(*VStruct)
		if ok1 && ok2 {
			for i := 0; i < u.NumFields(); i++ {
				if eq, ok := in.deepEqual(st, sa.F[i], sb.F[i], u.Field(i).Type()); !eq || !ok {
					return eq, ok
				}
			}
			return true, true
		}
		if isTime(t) {
			return in.sameTime(st, a, b), true
		}
		return false, false
	case *types.Signature:
		return in.isNil(st, a) && in.isNil(st, b), true
	}
	return in.equal(st, a, b), true
}

// structField builds a reflect.StructField.
func structField(c *CallCtx, rt types.Type, s *types.Struct, i int) Value {
	f := s.Field(i)
	rs := rt.Underlying().(*types.Struct)
	v := &VStruct{T: rt}
	for k := 0; k < rs.NumFields(); k++ {
		ft := rs.Field(k).Type()
		var x Value = zero(ft)
		switch rs.Field(k).Name() {
		case "Name":
			x = cStr(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				x = cStr(f.Pkg().Path())
			}
		case "Type":
			x = rtype(f.Type())
		case "Tag":
			x = VConst{T: ft, V: constant.MakeString(s.Tag(i))}
		case "Anonymous":
			x = cBool(f.Embedded())
		case "Offset", "Index":
			x = &VApp{F: "fieldoffset", Args: []Value{cStr(typeKey(s)), cInt(i)}, T: ft, NonNil: true}
		}
		v.F = append(v.F, x)
	}
	return v
}

func initReflect2() {
	m := extModels
	taint := func(c *CallCtx, why string) []Outcome {
		c.St.Set(taintKey, why)
		var vs []Value
		for i := 0; i < c.Res.Len(); i++ {
			vs = append(vs, &VApp{F: why, Args: c.Args, T: c.resT(i), NonNil: true})
		}
		return ret(vs...)
	}
	structOf := func(t types.Type) *types.Struct {
		if t == nil {
			return nil
		}
		s, _ := t.Underlying().(*types.Struct)
		return s
	}
	m["(reflect.Type).NumField"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			if s := structOf(t); s != nil {
				return ret(cInt(s.NumFields()))
			}
			return reflectPanic("NumField of a type that is no struct")
		}
		return taint(c, "reflect.Type.NumField")
	}
	m["(reflect.Type).Field"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			s := structOf(t)
			if s == nil {
				return reflectPanic("Field of a type that is no struct")
			}
			if i, ok := constInt(c.Args[0]); ok {
				if i < 0 || i >= s.NumFields() {
					return reflectPanic("Field index out of bounds")
				}
				return ret(structField(c, c.resT(0), s, i))
			}
		}
		return taint(c, "reflect.Type.Field")
	}
	m["(reflect.Type).Name"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			switch n := types.Unalias(t).(type) {
			case *types.Named:
				return ret(cStr(n.Obj().Name()))
			case *types.Basic:
				return ret(cStr(n.Name()))
			}
			return ret(cStr(""))
		}
		return reflectApp(c)
	}
	m["(reflect.Type).Comparable"] = func(c *CallCtx) []Outcome {
		if t, ok := rtypeOf(c.Recv); ok {
			return ret(cBool(comparableType(t)))
		}
		return reflectApp(c)
	}
	m["(reflect.StructField).IsExported"] = func(c *CallCtx) []Outcome {
		if s, ok := c.Recv.(*VStruct); ok {
			return ret(cBool(isZeroValue(s.F[1])))
		}
		if len(c.Args) > 0 {
			if s, ok := c.Args[0].(*VStruct); ok {
				return ret(cBool(isZeroValue(s.F[1])))
			}
		}
		return taint(c, "reflect.StructField.IsExported")
	}
	tag := func(c *CallCtx) (reflect.StructTag, string, bool) {
		args := c.Args
		if c.Recv != nil {
			args = append([]Value{c.Recv}, args...)
		}
		if len(args) != 2 {
			return "", "", false
		}
		t, ok1 := constString(args[0])
		k, ok2 := constString(args[1])
		return reflect.StructTag(t), k, ok1 && ok2
	}
	m["(reflect.StructTag).Get"] = func(c *CallCtx) []Outcome {
		if t, k, ok := tag(c); ok {
			return ret(cStr(t.Get(k)))
		}
		return taint(c, "reflect.StructTag.Get")
	}
	m["(reflect.StructTag).Lookup"] = func(c *CallCtx) []Outcome {
		if t, k, ok := tag(c); ok {
			v, in := t.Lookup(k)
			return ret(cStr(v), cBool(in))
		}
		return taint(c, "reflect.StructTag.Lookup")
	}
	// ---- values
	m["(reflect.Value).NumField"] = func(c *CallCtx) []Outcome {
		if t := rvType(c.St, c.Args[0]); t != nil {
			if s := structOf(t); s != nil {
				return ret(cInt(s.NumFields()))
			}
			return reflectPanic("NumField of a value that is no struct")
		}
		return taint(c, "reflect.Value.NumField")
	}
	m["(reflect.Value).Field"] = func(c *CallCtx) []Outcome {
		if i, ok := constInt(c.Args[1]); ok {
			if t := rvType(c.St, c.Args[0]); t != nil {
				s := structOf(t)
				if s == nil {
					return reflectPanic("Field of a value that is no struct")
				}
				if i < 0 || i >= s.NumFields() {
					return reflectPanic("Field index out of range")
				}
				if v, ok := rvField(c, c.Args[0], i); ok {
					return ret(v)
				}
			}
		}
		return taint(c, "reflect.Value.Field")
	}
	m["(reflect.Value).FieldByName"] = func(c *CallCtx) []Outcome {
		n, ok := constString(c.Args[1])
		if s := structOf(rvType(c.St, c.Args[0])); s != nil && ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					if v, ok := rvField(c, c.Args[0], i); ok {
						return ret(v)
					}
				}
			}
		}
		return taint(c, "reflect.Value.FieldByName")
	}
	m["(reflect.Value).CanInterface"] = func(c *CallCtx) []Outcome {
		if rvKnown(c.Args[0]) {
			return ret(cBool(rvRO(c.Args[0]) == ""))
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "rvcaniface", Args: c.Args}})
	}
	inner := m["(reflect.Value).Interface"]
	m["(reflect.Value).Interface"] = func(c *CallCtx) []Outcome {
		if rvRO(c.Args[0]) != "" {
			return reflectPanic("Interface of an unexported field")
		}
		if a, ok := c.Args[0].(*VApp); ok && a.F == "rvval" {
			return ret(mkIface(a.Args[0], a.T))
		}
		return inner(c)
	}
	m["(reflect.Value).IsZero"] = func(c *CallCtx) []Outcome {
		if v, t, ok := rvLoad(c.St, c.Args[0]); ok {
			return ret(cBool(c.In.isZeroDeep(c.St, v, t)))
		}
		return ret(&VPred{Op: "truth", X: &VApp{F: "rviszero", Args: c.Args}})
	}
	elem := m["(reflect.Value).Elem"]
	m["(reflect.Value).Elem"] = func(c *CallCtx) []Outcome {
		if v, ok := rvElem(c, c.Args[0]); ok {
			return ret(v)
		}
		return elem(c)
	}
	m["reflect.Indirect"] = func(c *CallCtx) []Outcome {
		if isInvalid(c.Args[0]) {
			return ret(c.Args[0])
		}
		if t := rvType(c.St, c.Args[0]); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				return ret(c.Args[0])
			}
			return m["(reflect.Value).Elem"](c)
		}
		return ret(&VApp{F: "rvindirect", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	var comp func(c *CallCtx, v Value) (bool, bool)
	comp = func(c *CallCtx, v Value) (bool, bool) {
		x, t, ok := rvLoad(c.St, v)
		if !ok {
			return false, false
		}
		switch u := t.Underlying().(type) {
		case *types.Interface:
			if c.In.isNil(c.St, x) {
				return true, true
			}
			if i, ok := x.(*VIface); ok {
				return comp(c, rvval(i.V, i.T, nil, ""))
			}
			return false, false
		case *types.Struct:
			if !comparableType(t) {
				return false, true
			}
			for i := 0; i < u.NumFields(); i++ {
				f, ok := rvField(c, v, i)
				if !ok {
					return false, false
				}
				if r, ok := comp(c, f); !r || !ok {
					return r, ok
				}
			}
			return true, true
		}
		return comparableType(t), true
	}
	m["(reflect.Value).Comparable"] = func(c *CallCtx) []Outcome {
		if isInvalid(c.Args[0]) {
			return ret(cBool(true))
		}
		if r, ok := comp(c, c.Args[0]); ok {
			return ret(cBool(r))
		}
		return taint(c, "reflect.Value.Comparable")
	}
	m["(reflect.Value).Equal"] = func(c *CallCtx) []Outcome {
		if isInvalid(c.Args[0]) || isInvalid(c.Args[1]) {
			return ret(cBool(isInvalid(c.Args[0]) && isInvalid(c.Args[1])))
		}
		a, ta, ok1 := rvLoad(c.St, c.Args[0])
		b, tb, ok2 := rvLoad(c.St, c.Args[1])
		if !ok1 || !ok2 {
			return taint(c, "reflect.Value.Equal")
		}
		unwrap := func(v Value, t types.Type) (Value, types.Type) {
			if types.IsInterface(t) {
				if i, ok := v.(*VIface); ok {
					return i.V, i.T
				}
			}
			return v, t
		}
		a, ta = unwrap(a, ta)
		b, tb = unwrap(b, tb)
		if types.IsInterface(ta) || types.IsInterface(tb) {
			na, nb := c.In.isNil(c.St, a), c.In.isNil(c.St, b)
			if na || nb {
				return ret(cBool(na && nb))
			}
			return taint(c, "reflect.Value.Equal")
		}
		if !types.Identical(ta, tb) {
			return ret(cBool(false))
		}
		if !comparableType(ta) {
			return reflectPanic("Equal of values that cannot be compared")
		}
		return ret(cBool(c.In.sameDeep(c.St, a, b, ta)))
	}
	m["reflect.DeepEqual"] = func(c *CallCtx) []Outcome {
		if eq, ok := c.In.deepEqual(c.St, c.Args[0], c.Args[1], anyT); ok {
			return ret(cBool(eq))
		}
		return taint(c, "reflect.DeepEqual")
	}
	// ---- maps
	m["(reflect.Value).MapKeys"] = func(c *CallCtx) []Outcome {
		v, t, ok := rvLoad(c.St, c.Args[0])
		if ok {
			mt, isM := t.Underlying().(*types.Map)
			if !isM {
				return reflectPanic("MapKeys of a value that is no map")
			}
			var es []Value
			if !c.In.isNil(c.St, v) {
				mv, ok := v.(VMap)
				if !ok || c.St.heap[mv.O] == nil || c.St.heap[mv.O].Other != nil {
					return taint(c, "reflect.Value.MapKeys")
				}
				for _, k := range c.St.heap[mv.O].Keys {
					es = append(es, rvval(k, mt.Key(), nil, rvRO(c.Args[0])))
				}
			}
			return ret(c.St.slice(c.St.freshObj("mapkeys:"+c.Pre, &Obj{Kind: "slice", T: c.resT(0)}), c.resT(0), es...))
		}
		return taint(c, "reflect.Value.MapKeys")
	}
	m["(reflect.Value).MapIndex"] = func(c *CallCtx) []Outcome {
		v, t, ok := rvLoad(c.St, c.Args[0])
		k, _, ok2 := rvLoad(c.St, c.Args[1])
		if ok && ok2 {
			mt, isM := t.Underlying().(*types.Map)
			if !isM {
				return reflectPanic("MapIndex of a value that is no map")
			}
			if c.In.isNil(c.St, v) {
				return ret(rvInvalid(c.resT(0)))
			}
			if mv, ok := v.(VMap); ok && c.St.heap[mv.O] != nil && c.St.heap[mv.O].Other == nil {
				o := c.St.heap[mv.O]
				j := c.In.mapFind(c.St, o, k)
				if j < 0 {
					return ret(rvInvalid(c.resT(0)))
				}
				return ret(rvval(o.Elems[j], mt.Elem(), nil, rvRO(c.Args[0])))
			}
		}
		return taint(c, "reflect.Value.MapIndex")
	}
	// an iterator holds the pairs that are left
	iter := func(c *CallCtx) *Obj {
		p, ok := c.Args[0].(VPtr)
		if !ok {
			return nil
		}
		if o := c.St.heap[p.O]; o != nil && o.Mark == "mapiter" {
			return o
		}
		return nil
	}
	m["(reflect.Value).MapRange"] = func(c *CallCtx) []Outcome {
		v, t, ok := rvLoad(c.St, c.Args[0])
		if !ok {
			return taint(c, "reflect.Value.MapRange")
		}
		mt, isM := t.Underlying().(*types.Map)
		if !isM {
			return reflectPanic("MapRange of a value that is no map")
		}
		o := &Obj{Kind: "cells", T: c.resT(0).(*types.Pointer).Elem(), Mark: "mapiter", Cells: map[string]Value{".at": cInt(-1), ".n": cInt(0)}}
		if !c.In.isNil(c.St, v) {
			mv, ok := v.(VMap)
			if !ok || c.St.heap[mv.O] == nil || c.St.heap[mv.O].Other != nil {
				return taint(c, "reflect.Value.MapRange")
			}
			mo := c.St.heap[mv.O]
			for i, k := range mo.Keys {
				o.Cells[fmt.Sprint(".k", i)] = rvval(k, mt.Key(), nil, rvRO(c.Args[0]))
				o.Cells[fmt.Sprint(".v", i)] = rvval(mo.Elems[i], mt.Elem(), nil, rvRO(c.Args[0]))
			}
			o.Cells[".n"] = cInt(len(mo.Keys))
		}
		return ret(VPtr{c.St.freshObj("mapiter:"+c.Pre, o), ""})
	}
	m["(*reflect.MapIter).Next"] = func(c *CallCtx) []Outcome {
		o := iter(c)
		if o == nil {
			return taint(c, "reflect.MapIter.Next")
		}
		at, ok1 := constInt(o.Cells[".at"])
		n, ok2 := constInt(o.Cells[".n"])
		if !ok1 || !ok2 {
			return taint(c, "reflect.MapIter.Next")
		}
		if at >= n {
			return reflectPanic("MapIter.Next called on exhausted iterator")
		}
		c.St.mut(c.Args[0].(VPtr).O).Cells[".at"] = cInt(at + 1)
		return ret(cBool(at+1 < n))
	}
	for _, k := range []string{"Key", "Value"} {
		k := k
		m["(*reflect.MapIter)."+k] = func(c *CallCtx) []Outcome {
			o := iter(c)
			if o == nil {
				return taint(c, "reflect.MapIter."+k)
			}
			at, ok := constInt(o.Cells[".at"])
			v := o.Cells[fmt.Sprint(".", strings.ToLower(k[:1]), at)]
			if !ok {
				return taint(c, "reflect.MapIter."+k)
			}
			if v == nil {
				return reflectPanic("MapIter." + k + " called before Next or on an exhausted iterator")
			}
			return ret(v)
		}
	}
	m["(reflect.Value).Index"] = func(c *CallCtx) []Outcome {
		v, t, ok := rvLoad(c.St, c.Args[0])
		if ok {
			if st, ok := t.Underlying().(*types.Slice); ok {
				if es, exact := c.In.variadic(c.St, v, nil); exact {
					if i, ok := constInt(c.Args[1]); ok {
						if i < 0 || i >= len(es) {
							return []Outcome{{Panic: &VApp{F: "runtime:reflect: slice index out of range", NonNil: true}}}
						}
						return ret(rvval(es[i], st.Elem(), nil, rvRO(c.Args[0])))
					}
				}
			}
		}
		return ret(&VApp{F: "rvindex", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	_ = strings.HasPrefix
}
