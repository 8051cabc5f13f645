package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"strconv"
	"strings"
)

// The base entity (C50) and the converters of the MySQL executor (C51).

// scenBase performs a history of operations on two entities and looks at both
// after each of them.
func scenBase(ops []string) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		v := newEnvel(e)
		v.atEnd = func(in *Interp, st *State, p Value) {
			in.Check(st, p == nil || st.Get("unencodable") != "", "C50/panic", "BaseEntity", 0, "using a base entity panics")
		}
		base := e.T("BaseEntity")
		m := func(n string) func(st *State, fr *Frame) []Value {
			return func(st *State, fr *Frame) []Value { return []Value{VPtr{"H:" + n, ""}} }
		}
		call := func(meth, site, ent string, args ...Value) stepFn {
			f := e.M("", "BaseEntity", meth)
			return callStep(f, site, func(st *State, fr *Frame) []Value { return append(m(ent)(st, fr), args...) })
		}
		idOf := func(n string) Value {
			return &VSym{ID: "env:id:" + n, T: types.Typ[types.String], Distinct: true, NonNil: true}
		}
		ss := []stepFn{
			do(func(st *State, fr *Frame) {
				st.heap["H:a"] = &Obj{Kind: "cells", T: base, Cells: map[string]Value{}}
				st.heap["H:b"] = &Obj{Kind: "cells", T: base, Cells: map[string]Value{}}
			}),
			callStep(e.Fn("NewBase"), "newbase", vals(idOf("0"))),
			do(func(st *State, fr *Frame) { st.storeCell("H:b", "", base, fr.loc["ret"]) }),
		}
		id := map[string]Value{"a": cStr(""), "b": idOf("0")}
		dirty := map[string]bool{}
		evs := map[string]int{}
		look := func(at string) {
			for _, n := range []string{"a", "b"} {
				n, wantID, wantD, wantE := n, id[n], dirty[n], evs[n]
				ss = append(ss, call("GetID", at+"id"+n, n), do(func(st *State, fr *Frame) {
					t, _ := st.eq(fr.loc["ret"], wantID)
					in.Check(st, t == yes, "C50/id", "BaseEntity", 0, "an entity does not have the ID it was given last ("+at+")")
				}), call("IsDirty", at+"dirty"+n, n), do(func(st *State, fr *Frame) {
					b, ok := constBool(fr.loc["ret"])
					in.Check(st, ok && b == wantD, "C50/dirty", "BaseEntity", 0, fmt.Sprintf("an entity is marked dirty: %v, expected %v (%s)", b, wantD, at))
				}), call("GetEvents", at+"ev"+n, n), func(in *Interp, st *State, fr *Frame) []*State {
					es, exact := in.variadic(st, fr.loc["ret"], nil)
					in.Check(st, exact && len(es) == wantE, "C50/events", "BaseEntity", 0, "an entity does not hold the events that were added to it ("+at+")")
					return nil
				}, call("GetChildren", at+"kids"+n, n), do(func(st *State, fr *Frame) {
					t, _ := st.isNil(fr.loc["ret"])
					in.Check(st, t == yes, "C50/children", "BaseEntity", 0, "the base entity declares children")
				}))
			}
		}
		look("new")
		for i, o := range ops {
			n, what, _ := strings.Cut(o, ".")
			s := "op" + strconv.Itoa(i)
			switch what {
			case "dirty":
				dirty[n] = true
				ss = append(ss, call("Dirty", s, n))
			case "undirty":
				dirty[n] = false
				ss = append(ss, call("UnDirty", s, n))
			case "id":
				id[n] = idOf(strconv.Itoa(i + 1))
				ss = append(ss, call("SetID", s, n, id[n]))
			case "event":
				evs[n]++
				ss = append(ss, do(func(st *State, fr *Frame) { st.Set("making", s) }), call("AddEvent", s, n, v.ievent(s), VNil{}))
			}
			look(strconv.Itoa(i) + ":" + o)
		}
		in.Fold = 12
		v.start(in, ss...)
	}
}

// ---- converters

type convLab struct {
	*execLab
	ents map[string]types.Type
}

func (x *convLab) entity(n string) Value {
	t := x.ents[n]
	return &VIface{T: types.NewPointer(t), V: &VSym{ID: "env:ent:" + n, T: types.NewPointer(t), Distinct: true, NonNil: true}}
}

// scenConvert registers converters for some entity types and converts entities
// of those and of another type. reg: "A:func", "B:obj", "C:value" (registered with
// an entity given by value).
func scenConvert(regs []string) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := &convLab{execLab: newExecLab(e, "C51"), ents: map[string]types.Type{}}
		ie := methodsOf(e.T("IEntity"))
		for _, n := range []string{"A", "B", "C"} {
			x.ents[n] = e.envType("Conv"+n, types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "N"+n, types.Typ[types.String], false)}, nil), ie...)
		}
		conv := map[string]string{} // entity type -> tag of the converter registered last
		plain := e.envType("PlainM", types.NewStruct(nil, nil), methodsOf(e.T("IModel"))...)
		row := &VIface{T: types.NewPointer(x.one), V: &VSym{ID: "env:row", T: types.NewPointer(x.one), Distinct: true, NonNil: true}}
		noRow := &VIface{T: types.NewPointer(plain), V: &VSym{ID: "env:plain", T: types.NewPointer(plain), Distinct: true, NonNil: true}}
		parent := x.entity("A")
		op := cInt(2)
		// the converters of the user
		toModel := func(c *CallCtx, tag string, args []Value) []Outcome {
			st := c.St
			want := st.Get("convert")
			x.must(c, conv[want] == tag && st.Get("dir") == "e2m", "C51/converter", "Entity2Model", "an entity is converted by a converter that is not the one of its type")
			x.must(c, len(args) == 3 && stripIface(args[0]).K() == stripIface(x.entity(want)).K() && stripIface(args[1]).K() == stripIface(parent).K() && args[2].K() == op.K(), "C51/args", "Entity2Model", "a converter does not get the entity, its parent and the operation")
			x.must(c, st.Get("called") == "", "C51/once", "Entity2Model", "a converter is called twice")
			st.Set("called", "1")
			f := errSym("conv")
			return []Outcome{{Ret: []Value{row, VNil{}}}, {Ret: []Value{VNil{}, f}, Do: func(st *State) { st.SetV("convfail", f) }, Note: "the converter fails"}}
		}
		toEntity := func(c *CallCtx, tag string, args []Value) []Outcome {
			st := c.St
			want := st.Get("convert")
			x.must(c, conv[want] == tag && st.Get("dir") == "m2e", "C51/converter", "Model2Entity", "a model is converted by a converter that is not the one of the entity's type")
			x.must(c, len(args) == 2 && stripIface(args[1]).K() == stripIface(x.entity(want)).K() && stripIface(args[0]).K() == stripIface(row).K(), "C51/args", "Model2Entity", "a converter does not get the model and the entity")
			x.must(c, st.Get("called") == "", "C51/once", "Model2Entity", "a converter is called twice")
			st.Set("called", "1")
			f := errSym("conv")
			return []Outcome{{Ret: []Value{VNil{}}}, {Ret: []Value{f}, Do: func(st *State) { st.SetV("convfail", f) }, Note: "the converter fails"}}
		}
		x.onCall["native:e2m"] = func(c *CallCtx) []Outcome {
			t, _ := constString(c.FnV.(*VNative).B[0])
			return toModel(c, t, c.Args)
		}
		x.onCall["native:m2e"] = func(c *CallCtx) []Outcome {
			t, _ := constString(c.FnV.(*VNative).B[0])
			return toEntity(c, t, c.Args)
		}
		ci := "(" + modPath + "/" + execPkg + ".IConverter)"
		tagOf := func(v Value) string {
			if s, ok := stripIface(v).(*VSym); ok {
				return strings.TrimPrefix(s.ID, "env:conv:")
			}
			return "?"
		}
		x.onCall[ci+".Entity2Model"] = func(c *CallCtx) []Outcome { return toModel(c, tagOf(c.Recv), c.Args) }
		x.onCall[ci+".Model2Entity"] = func(c *CallCtx) []Outcome { return toEntity(c, tagOf(c.Recv), c.Args) }
		ct := types.NewPointer(e.envType("UserConv", types.NewStruct(nil, nil), methodsOf(e.T(execPkg+".IConverter"))...))
		// converters are registered while the program is set up
		ss := []stepFn{do(func(st *State, fr *Frame) { st.Set("phase", "ctor") })}
		for i, r := range regs {
			n, how, _ := strings.Cut(r, ":")
			tag := r + strconv.Itoa(i)
			conv[n] = tag
			if how == "obj" {
				ss = append(ss, callStep(e.Fn(execPkg+".RegisterConverter"), "reg"+tag, vals(x.entity(n), &VIface{T: ct, V: &VSym{ID: "env:conv:" + tag, T: ct, Distinct: true, NonNil: true}})))
				continue
			}
			ss = append(ss, callStep(e.Fn(execPkg+".RegisterEntity2Model"), "reg"+tag, vals(x.entity(n), native("e2m", cStr(tag)), native("m2e", cStr(tag)))))
		}
		ss = append(ss, x.newExec("exe", x.db())...)
		ss = append(ss, do(func(st *State, fr *Frame) { st.Set("phase", "") }))
		unreg := e.base["G:"+modPath+".ErrEntityNotRegister"]
		if unreg == nil {
			panic(missing{"ErrEntityNotRegister"})
		}
		step := func(what string, n string, model Value, args ...Value) {
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				st.Set("convert", n)
				st.Set("called", "")
				st.SetV("convfail", nil)
				if what == "Entity2Model" {
					st.Set("dir", "e2m")
				} else {
					st.Set("dir", "m2e")
				}
				return in.CallFn(st, e.M(execPkg, "Executor", what), what+n+model.K(), append([]Value{fr.loc["exe"]}, args...)...)
			}, func(in *Interp, st *State, fr *Frame) []*State {
				ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, what, 0, msg) }
				err, res := fr.loc["ret"], Value(nil)
				if t, ok := err.(*VTuple); ok && len(t.V) == 2 {
					res, err = t.V[0], t.V[1]
				}
				t, _ := st.isNil(err)
				f := st.GetV("convfail")
				switch {
				case conv[n] == "":
					ck(st.Get("called") == "" && in.inChain(st, err, unreg.Cells[""]), "C51/unknown", "converting an entity of a type without converter does not report it as not registered")
				case model.K() == noRow.K():
					ck(st.Get("called") == "" && t == no, "C51/model", "a model that is none of the executor's is not refused")
				case f != nil:
					ck(in.inChain(st, err, f), "C51/error", "the error of a converter is lost")
				default:
					ck(st.Get("called") == "1", "C51/once", "the converter of the entity's type is not called")
					ck(t == yes, "C51/error", "an error is reported although the converter did not fail")
					if res != nil {
						ck(stripIface(res).K() == stripIface(row).K(), "C51/result", "the model of the converter is not what the conversion returns")
					}
				}
				return nil
			})
		}
		for _, n := range []string{"A", "B", "C"} {
			step("Entity2Model", n, row, x.entity(n), parent, op)
			step("Model2Entity", n, row, row, x.entity(n))
			step("Model2Entity", n, noRow, noRow, x.entity(n))
		}
		x.start(in, ss...)
	}
}

func baseScenarios() []*Scenario {
	var out []*Scenario
	add := func(name, ops string) {
		out = append(out, &Scenario{Name: "base/" + name, Props: []string{"C50"}, Run: scenBase(strings.Fields(ops))})
	}
	add("dirty", "a.dirty a.dirty b.id a.undirty b.dirty b.undirty b.undirty a.dirty")
	add("id", "a.id b.id a.id a.dirty b.event a.id")
	add("events", "a.dirty a.event a.undirty b.event a.event b.dirty b.id a.dirty")
	rnd := rand.New(rand.NewSource(7))
	kinds := []string{"dirty", "undirty", "id", "event"}
	for i := 0; i < 4; i++ {
		var ops []string
		for len(ops) < 9 {
			ops = append(ops, string("ab"[rnd.Intn(2)])+"."+kinds[rnd.Intn(4)])
		}
		add(fmt.Sprint("gen", i), strings.Join(ops, " "))
	}
	for _, r := range []string{"A:func", "A:func B:obj", "B:obj A:obj C:func", "A:func A:obj", "C:obj C:func B:func"} {
		out = append(out, &Scenario{Name: "convert/" + strings.ReplaceAll(r, " ", "+"), Props: []string{"C51"}, Run: scenConvert(strings.Fields(r))})
	}
	return out
}
