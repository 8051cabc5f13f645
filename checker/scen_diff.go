package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Comparing two models of a row (C41): DiffModel is analysed for model types made
// of every kind of column, with symbols in place of the values. What it lists is
// compared with what can be told from the facts of the path.

type dfield struct {
	name string
	kind string // bool, int, ..., time, struct, *struct, *int, *time, bytes, strings, map, any
	tag  string
	emb  bool // anonymous
	sub  []dfield
}

type dmodel struct {
	name string
	fs   []dfield
}

type diffLab struct {
	*Lab
	m     *dmodel
	timeT types.Type
	chk   []func(in *Interp, st *State) dwant
}

// dwant is what has to be listed for a field.
type dwant struct {
	name string
	diff tri
	free bool
}

func (x *diffLab) typeOf(f *dfield) types.Type {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	switch k := strings.TrimPrefix(f.kind, "*"); k {
	case "struct":
		var t types.Type = x.e.envType(x.m.name+"_"+f.name+"T", x.structOf(f.sub))
		if f.emb {
			// an embedded field is named after its type
			t = x.e.envType(f.name, x.structOf(f.sub))
		}
		if f.kind != k {
			return types.NewPointer(t)
		}
		return t
	case "time":
		if f.kind != k {
			return types.NewPointer(x.timeT)
		}
		return x.timeT
	case "bytes":
		return types.NewSlice(b(types.Byte))
	case "strings":
		return types.NewSlice(b(types.String))
	case "map":
		return types.NewMap(b(types.String), b(types.Int))
	case "any":
		return anyT
	case "status":
		return x.e.envType("Status", b(types.Int8))
	default:
		var t types.Type
		for _, u := range types.Typ {
			if u.Name() == k {
				t = u
			}
		}
		if t == nil {
			panic("kind " + f.kind)
		}
		if f.kind != k {
			return types.NewPointer(t)
		}
		return t
	}
}

func (x *diffLab) structOf(fs []dfield) *types.Struct {
	var vs []*types.Var
	var tags []string
	for i := range fs {
		f := &fs[i]
		vs = append(vs, types.NewField(token.NoPos, x.e.pkg, f.name, x.typeOf(f), f.emb))
		tag := ""
		if f.tag != "" {
			tag = `json:"x" gorm:"` + f.tag + `"`
		}
		tags = append(tags, tag)
	}
	return types.NewStruct(vs, tags)
}

// known tells whether two values are equal.
func (x *diffLab) known(st *State, a, b Value) tri {
	t, p := st.eq(a, b)
	if t != unknown {
		return t
	}
	if v, ok := st.lookupFact(p); ok {
		return triOf(v)
	}
	return unknown
}

// same is known that looks at zero values, too.
func (x *diffLab) same(st *State, a, b Value, t types.Type) tri {
	if r := x.known(st, a, b); r != unknown {
		return r
	}
	za, zb := x.known(st, a, zero(t)), x.known(st, b, zero(t))
	switch {
	case za == yes && zb == yes:
		return yes
	case za == yes && zb == no || za == no && zb == yes:
		return no
	}
	if basic, ok := t.Underlying().(*types.Basic); ok && basic.Kind() == types.Bool && za == no && zb == no {
		return yes
	}
	return unknown
}

func neg(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// alt is one way two fields can look like.
type dalt struct {
	note string
	a, b func(st *State) Value
	diff func(st *State) tri
	free bool
}

func (x *diffLab) leaf(path string, t types.Type) []dalt {
	if isTime(t) {
		// a time in UTC without a monotonic reading: seconds and nanoseconds
		st := t.Underlying().(*types.Struct)
		mk := func(side, part string) (func(*State) Value, Value, types.Type) {
			v := &VStruct{T: t}
			var sym *VSym
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() == part {
					sym = &VSym{ID: "env:" + side + ":" + path + "." + part, T: f.Type()}
					v.F = append(v.F, sym)
				} else {
					v.F = append(v.F, zero(f.Type()))
				}
			}
			return func(*State) Value { return v }, sym, sym.T
		}
		var as []dalt
		for _, part := range []string{"ext", "wall"} {
			fa, sa, pt := mk("c", part)
			fb, sb, _ := mk("p", part)
			as = append(as, dalt{note: "times in UTC (" + part + ")", a: fa, b: fb, diff: func(st *State) tri { return neg(x.same(st, sa, sb, pt)) }})
		}
		return as
	}
	a := &VSym{ID: "env:c:" + path, T: t}
	b := &VSym{ID: "env:p:" + path, T: t}
	return []dalt{{a: func(*State) Value { return a }, b: func(*State) Value { return b }, diff: func(st *State) tri { return neg(x.same(st, a, b, t)) }}}
}

// alts lists the ways a field that is no struct can look like.
func (x *diffLab) alts(path string, f *dfield) []dalt {
	t := x.typeOf(f)
	isNil := func(*State) Value { return VNil{} }
	is := func(v tri) func(*State) tri { return func(*State) tri { return v } }
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		in := x.leaf(path, u.Elem())[0]
		mk := func(side string, v func(*State) Value) func(*State) Value {
			return func(st *State) Value {
				id := "H:" + side + ":" + path
				st.heap[id] = &Obj{Kind: "cells", T: u.Elem(), Cells: map[string]Value{}}
				st.storeCell(id, "", u.Elem(), v(st))
				return VPtr{id, ""}
			}
		}
		return []dalt{
			{note: "both nil", a: isNil, b: isNil, diff: is(no)},
			{note: "nil before", a: mk("c", in.a), b: isNil, diff: is(yes)},
			{note: "nil now", a: isNil, b: mk("p", in.b), diff: is(yes)},
			{note: "both set", a: mk("c", in.a), b: mk("p", in.b), diff: in.diff},
			{note: "the same pointer", a: mk("c", in.a), b: mk("c", in.a), diff: is(no)},
		}
	case *types.Slice:
		mk := func(side string, n int) (func(*State) Value, []Value) {
			var es []Value
			for i := 0; i < n; i++ {
				es = append(es, &VSym{ID: fmt.Sprintf("env:%s:%s.%d", side, path, i), T: u.Elem()})
			}
			return func(st *State) Value { return st.slice("H:"+side+":"+path, t, es...) }, es
		}
		var as []dalt
		for _, n := range [][2]int{{0, 1}, {1, 0}, {1, 1}, {2, 1}, {1, 2}, {2, 2}} {
			fa, ea := mk("c", n[0])
			fb, eb := mk("p", n[1])
			d := is(yes)
			if n[0] == n[1] {
				d = func(st *State) tri {
					r := no
					for i := range ea {
						switch neg(x.same(st, ea[i], eb[i], u.Elem())) {
						case yes:
							return yes
						case unknown:
							r = unknown
						}
					}
					return r
				}
			}
			as = append(as, dalt{note: fmt.Sprintf("%d and %d elements", n[0], n[1]), a: fa, b: fb, diff: d})
		}
		one, _ := mk("c", 1)
		none, _ := mk("c", 0)
		oneP, _ := mk("p", 1)
		noneP, _ := mk("p", 0)
		return append(as, dalt{note: "both nil", a: isNil, b: isNil, diff: is(no)}, dalt{note: "nil before", a: one, b: isNil, diff: is(yes)},
			dalt{note: "nil now", a: isNil, b: oneP, diff: is(yes)}, dalt{note: "empty and nil", a: none, b: isNil, free: true}, dalt{note: "nil and empty", a: isNil, b: noneP, free: true}, dalt{note: "both empty", a: none, b: noneP, diff: is(no)})
	case *types.Map:
		mk := func(side string, keys string) (func(*State) Value, map[string]Value) {
			vs := map[string]Value{}
			o := &Obj{Kind: "map", T: t, Keys: []Value{}}
			for _, k := range strings.Fields(keys) {
				vs[k] = &VSym{ID: fmt.Sprintf("env:%s:%s.%s", side, path, k), T: u.Elem()}
				o.Keys, o.Elems = append(o.Keys, cStr(k)), append(o.Elems, vs[k])
			}
			return func(st *State) Value {
				st.heap["H:"+side+":"+path] = o.clone()
				return VMap{"H:" + side + ":" + path}
			}, vs
		}
		var as []dalt
		for _, n := range [][2]string{{"a", ""}, {"", "a"}, {"a", "a"}, {"a", "b"}, {"a b", "a"}, {"a b", "b a"}} {
			fa, va := mk("c", n[0])
			fb, vb := mk("p", n[1])
			d := is(yes)
			if len(va) == len(vb) && (len(va) == 2 || n[0] == n[1]) {
				d = func(st *State) tri {
					r := no
					for k := range va {
						switch neg(x.same(st, va[k], vb[k], u.Elem())) {
						case yes:
							return yes
						case unknown:
							r = unknown
						}
					}
					return r
				}
			}
			as = append(as, dalt{note: "keys {" + n[0] + "} and {" + n[1] + "}", a: fa, b: fb, diff: d})
		}
		one, _ := mk("c", "a")
		oneP, _ := mk("p", "a")
		return append(as, dalt{note: "both nil", a: isNil, b: isNil, diff: is(no)}, dalt{note: "nil before", a: one, b: isNil, diff: is(yes)}, dalt{note: "nil now", a: isNil, b: oneP, diff: is(yes)})
	case *types.Interface:
		in := x.leaf(path, types.Typ[types.Int])[0]
		box := func(v func(*State) Value, t types.Type) func(*State) Value {
			return func(st *State) Value { return &VIface{T: t, V: v(st)} }
		}
		i, s := types.Typ[types.Int], types.Typ[types.String]
		str := func(*State) Value { return &VSym{ID: "env:s:" + path, T: s} }
		return []dalt{
			{note: "both nil", a: isNil, b: isNil, diff: is(no)},
			{note: "nil before", a: box(in.a, i), b: isNil, diff: is(yes)},
			{note: "nil now", a: isNil, b: box(in.b, i), diff: is(yes)},
			{note: "of one type", a: box(in.a, i), b: box(in.b, i), diff: in.diff},
			{note: "of two types", a: box(in.a, i), b: box(str, s), diff: is(yes)},
		}
	}
	return x.leaf(path, t)
}

// fill is the steps that give a field its values, and what has to be listed for it.
func (x *diffLab) fill(ss *[]stepFn, path string, f *dfield, cells func(st *State, side, path string, t types.Type, v Value)) (all []func(st *State) dwant) {
	p := path + "." + f.name
	if f.kind == "struct" {
		var inner []func(st *State) dwant
		for i := range f.sub {
			inner = append(inner, x.fill(ss, p, &f.sub[i], cells)...)
		}
		if f.emb || strings.Contains(";"+strings.ToLower(f.tag), ";embedded") {
			return inner
		}
		return []func(st *State) dwant{x.anyOf(f.name, inner)}
	}
	if f.kind == "*struct" {
		// the struct both refer to
		t := x.typeOf(f)
		et := t.(*types.Pointer).Elem()
		var inner []func(st *State) dwant
		for i := range f.sub {
			inner = append(inner, x.fill(ss, p+"*", &f.sub[i], cells)...)
		}
		mode := "mode:" + p
		*ss = append(*ss, func(in *Interp, st *State, fr *Frame) []*State {
			obj := func(st *State, side string) Value {
				st.mut("H:" + side + p + "*").T = et
				return VPtr{"H:" + side + p + "*", ""}
			}
			set := func(m string) func(st *State, fr *Frame) []*State {
				return func(st *State, fr *Frame) []*State {
					st.Set(mode, m)
					var a, b Value = VNil{}, VNil{}
					if m == "both" || m == "now" {
						a = obj(st, "c")
					}
					if m == "both" || m == "before" {
						b = obj(st, "p")
					}
					cells(st, "c", p, t, a)
					cells(st, "p", p, t, b)
					st.note(0, p+": set "+m)
					return nil
				}
			}
			return choose(st, set("both"), set("now"), set("before"), set("none"))
		})
		return []func(st *State) dwant{func(st *State) dwant {
			switch st.Get(mode) {
			case "both":
				return x.anyOf(f.name, inner)(st)
			case "none":
				return dwant{name: f.name, diff: no}
			}
			return dwant{name: f.name, diff: yes}
		}}
	}
	t := x.typeOf(f)
	as := x.alts(p, f)
	mode := "mode:" + p
	*ss = append(*ss, func(in *Interp, st *State, fr *Frame) []*State {
		var fs []func(st *State, fr *Frame) []*State
		for i := range as {
			i := i
			fs = append(fs, func(st *State, fr *Frame) []*State {
				st.Set(mode, fmt.Sprint("n", i))
				cells(st, "c", p, t, as[i].a(st))
				cells(st, "p", p, t, as[i].b(st))
				if as[i].note != "" {
					st.note(0, p+": "+as[i].note)
				}
				return nil
			})
		}
		return choose(st, fs...)
	})
	return []func(st *State) dwant{func(st *State) dwant {
		for i := range as {
			if st.Get(mode) == fmt.Sprint("n", i) {
				w := dwant{name: f.name, free: as[i].free}
				if as[i].diff != nil {
					w.diff = as[i].diff(st)
				}
				return w
			}
		}
		return dwant{name: f.name, diff: unknown}
	}}
}

func (x *diffLab) anyOf(name string, inner []func(st *State) dwant) func(st *State) dwant {
	return func(st *State) dwant {
		w := dwant{name: name, diff: no}
		for _, f := range inner {
			i := f(st)
			w.free = w.free || i.free
			switch i.diff {
			case yes:
				w.diff = yes
			case unknown:
				if w.diff != yes && !i.free {
					w.diff = unknown
				}
			}
		}
		if w.diff == yes {
			w.free = false
		}
		return w
	}
}

func scenDiff(m *dmodel) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		in.Fold = 12
		x := &diffLab{Lab: newLab(e), m: m, timeT: fieldType(e.T("d_timer/sql.TimerJob"), "", "NextTime")}
		x.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
			if kind == "rtpanic" {
				in.Check(st, false, "C41/panic", stateFn(st), pos, "comparing two models panics")
			}
		}
		t := e.envType("Model_"+m.name, x.structOf(m.fs))
		f := e.Fn(execPkg + ".DiffModel")
		// the cells of nested values are those of the object before the last "*"
		cells := func(st *State, side, path string, t types.Type, v Value) {
			id, rest := "H:"+side, path
			if i := strings.LastIndex(path, "*"); i >= 0 {
				id, rest = "H:"+side+path[:i+1], path[i+1:]
			}
			if st.heap[id] == nil {
				st.heap[id] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{}}
			}
			st.storeCell(id, rest, t, v)
		}
		var ss []stepFn
		ss = append(ss, do(func(st *State, fr *Frame) {
			for _, side := range []string{"c", "p"} {
				st.heap["H:"+side] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{}}
			}
		}))
		var want []func(st *State) dwant
		for i := range m.fs {
			want = append(want, x.fill(&ss, "", &m.fs[i], cells)...)
		}
		pt := types.NewPointer(t)
		arg := func(st *State, side, form string) Value {
			if form == "value" {
				return &VIface{T: t, V: st.loadCell("H:"+side, "", t)}
			}
			return &VIface{T: pt, V: VPtr{"H:" + side, ""}}
		}
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			return choose(st, func(st *State, fr *Frame) []*State { st.Set("form", "pointer"); return nil }, func(st *State, fr *Frame) []*State { st.Set("form", "value"); return nil })
		}, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, f, "diff", arg(st, "c", st.Get("form")), arg(st, "p", st.Get("form")))
		}, func(in *Interp, st *State, fr *Frame) []*State {
			var got []string
			r := fr.loc["ret"]
			if _, isNil := r.(VNil); !isNil {
				es, exact := in.elems(st, r)
				if !exact {
					st.Set(taintKey, "the list of differing fields")
					return nil
				}
				for _, v := range es {
					s, ok := constString(v)
					if !ok {
						in.Check(st, false, "C41/name", "DiffModel", f.Pos(), "something is listed that is not the name of a field")
						continue
					}
					got = append(got, s)
				}
			}
			sort.Strings(got)
			n := map[string]int{}
			for _, g := range got {
				n[g]++
			}
			for _, w := range want {
				d := w(st)
				k := n[d.name]
				delete(n, d.name)
				if d.free {
					continue
				}
				in.Check(st, d.diff != unknown, "C41/looked", d.name, f.Pos(), "whether field "+d.name+" differs is told without comparing it")
				switch d.diff {
				case yes:
					in.Check(st, k > 0, "C41/missed", d.name, f.Pos(), "field "+d.name+" differs but is not listed")
					in.Check(st, k < 2, "C41/once", d.name, f.Pos(), "field "+d.name+" is listed more than once")
				case no:
					in.Check(st, k == 0, "C41/extra", d.name, f.Pos(), "field "+d.name+" is listed although it is the same in both models")
				}
			}
			var rest []string
			for g := range n {
				rest = append(rest, g)
			}
			sort.Strings(rest)
			in.Check(st, len(rest) == 0, "C41/name", "DiffModel", f.Pos(), "fields are listed that the model does not have: "+strings.Join(rest, ", "))
			return nil
		})
		x.start(in, ss...)
		in.reached("C41/missed", "DiffModel", "no difference is ever found")
		in.reached("C41/extra", "DiffModel", "no field is ever found equal")
	}
}

func diffScenarios() []*Scenario {
	fd := func(name, kind string) dfield { return dfield{name: name, kind: kind} }
	tagged := func(name, kind, tag string, sub ...dfield) dfield {
		return dfield{name: name, kind: kind, tag: tag, sub: sub}
	}
	base := dfield{name: "Base", kind: "struct", emb: true, sub: []dfield{fd("ID", "string"), fd("Version", "int")}}
	ms := []*dmodel{
		{"numbers", []dfield{fd("A", "int"), fd("B", "int64"), fd("C", "uint8"), fd("D", "float64")}},
		{"text", []dfield{fd("A", "string"), fd("B", "bool"), tagged("C", "string", "column:embedded_c")}},
		{"named", []dfield{fd("A", "status"), fd("B", "uint32"), fd("C", "float32")}},
		{"time", []dfield{fd("A", "time"), fd("B", "int")}},
		{"times", []dfield{fd("A", "time"), fd("B", "time")}},
		{"pointer", []dfield{fd("A", "*int"), fd("B", "*string")}},
		{"pointertime", []dfield{fd("A", "*time"), fd("B", "string")}},
		{"bytes", []dfield{fd("A", "bytes"), fd("B", "string")}},
		{"list", []dfield{fd("A", "int"), fd("B", "strings")}},
		{"map", []dfield{fd("A", "map"), fd("B", "bool")}},
		{"any", []dfield{fd("A", "any"), fd("B", "int")}},
		{"anonymous", []dfield{base, fd("Name", "string")}},
		{"anonymoustime", []dfield{{name: "Base2", kind: "struct", emb: true, sub: []dfield{fd("ID", "int"), fd("At", "time")}}, fd("Name", "string")}},
		{"anonymousdeep", []dfield{{name: "Outer", kind: "struct", emb: true, sub: []dfield{{name: "Inner", kind: "struct", emb: true, sub: []dfield{fd("X", "int")}}, fd("Y", "string")}}, fd("Z", "int")}},
		{"embedded", []dfield{tagged("Price", "struct", "embedded;embeddedPrefix:price_", fd("Amount", "int"), fd("Currency", "string")), fd("N", "int")}},
		{"embeddedlast", []dfield{fd("N", "int"), tagged("Price", "struct", "serializer:json;EMBEDDED", fd("Amount", "int"), fd("At", "time"))}},
		{"nested", []dfield{tagged("Doc", "struct", "serializer:json", fd("X", "int"), fd("Y", "string")), fd("N", "int")}},
		{"nestedcolumn", []dfield{tagged("Doc", "struct", "column:embedded_doc", fd("X", "int"), fd("Y", "bytes"))}},
		{"nesteddeep", []dfield{tagged("Doc", "struct", "serializer:json", tagged("In", "struct", "", fd("X", "int"), fd("T", "time")), fd("Y", "string"))}},
		{"nestedin", []dfield{tagged("Doc", "struct", "serializer:json", base, fd("Y", "string")), fd("N", "int")}},
		{"nestedpointer", []dfield{tagged("Doc", "*struct", "serializer:json", fd("X", "int"), fd("Y", "string")), fd("N", "int")}},
	}
	var r []*Scenario
	for _, m := range ms {
		r = append(r, &Scenario{Name: "diff/" + m.name, Props: []string{"C41"}, Depth: 8, Run: scenDiff(m)})
	}
	return r
}
