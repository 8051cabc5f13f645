package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Isolation and options (C15, C47, C49): one engine with its own options and
// several runs with theirs, one after the other or one inside another. Every
// collaborator call is judged against the options that are in effect for the run
// that makes it; memory reachable from the built engine is never written.

type isoRun struct {
	name   string
	form   string // func, main, cmd
	opts   string // space separated
	fails  bool
	output bool
}

type isoSpec struct {
	eng  string // options of the engine
	runs []isoRun
	nest string // where the second run starts inside the first one, "" for after it
}

func (s *isoSpec) scenName() string {
	n := "iso/" + strings.ReplaceAll(s.eng, " ", "+")
	for _, r := range s.runs {
		n += "/" + r.name + "-" + r.form + "-" + strings.ReplaceAll(r.opts, " ", "+")
		if r.fails {
			n += "-fails"
		}
		if r.output {
			n += "-out"
		}
	}
	if s.nest != "" {
		n += "/in-" + s.nest
	}
	return n
}

// isoEff are the options in effect for one run.
type isoEff struct {
	v     map[string]string
	hooks []string
}

type isoEnv struct {
	*Lab
	s   *isoSpec
	eff map[string]*isoEff
	run map[string]*isoRun
}

func (s *isoSpec) effective(r *isoRun) *isoEff {
	e := &isoEff{v: map[string]string{"lock": "1", "exec": "1", "bus": "none", "timer": "none", "tx": "1", "dry": "0", "rec": "0", "idgen": "default", "log": "default", "persist": ""}}
	app := func(list string) {
		for _, o := range strings.Fields(list) {
			k, a, _ := strings.Cut(o, ":")
			if k == "hook" {
				e.hooks = append(e.hooks, a)
				continue
			}
			if a == "nil" {
				a = ""
			}
			e.v[k] = a
		}
	}
	app(s.eng)
	if r != nil {
		app(r.opts)
		if r.form == "main" || r.form == "cmd" {
			e.hooks = append(e.hooks, "cmd"+r.name)
		}
	}
	return e
}

func (x *isoEnv) optionSteps(id, list string) []stepFn {
	var ss []stepFn
	addOpt := func(v Value, t types.Type) stepFn {
		return do(func(st *State, fr *Frame) {
			o, _ := fr.loc[id].(*VTuple)
			if o == nil {
				o = &VTuple{}
			}
			if v == nil {
				v := fr.loc["ret"]
				fr.loc[id] = &VTuple{append(append([]Value(nil), o.V...), &VIface{T: t, V: v})}
				return
			}
			fr.loc[id] = &VTuple{append(append([]Value(nil), o.V...), &VIface{T: t, V: v})}
		})
	}
	ctor := func(name string, arg Value) {
		f := x.e.Fn(name)
		ss = append(ss, callStep(f, id+"."+name+arg.K(), vals(arg)), addOpt(nil, f.Signature.Results().At(0).Type()))
	}
	for _, o := range strings.Fields(list) {
		k, a, _ := strings.Cut(o, ":")
		switch k {
		case "lock":
			ctor("WithLock", x.col("lock", a))
		case "exec":
			ctor("WithExecutor", x.col("exec", a))
		case "bus":
			ctor("WithEventBus", x.col("bus", a))
		case "timer":
			ctor("WithTimer", x.col("timer", a))
		case "idgen":
			ctor("WithIDGenerator", x.col("idgen", a))
		case "log":
			ctor("WithLogger", x.col("log", a))
		case "persist":
			if a == "nil" {
				ctor("WithEventPersist", VNil{})
			} else {
				ctor("WithEventPersist", native("persist", cStr(a)))
			}
		case "hook":
			ctor("WithPostSave", native("hook", cStr(a)))
		case "tx":
			n := "WithTransaction"
			if a == "0" {
				n = "WithoutTransaction"
			}
			ss = append(ss, addOpt(x.e.P.constOf("", n), x.t("TransactionOption")))
		case "dry":
			v := x.e.P.constOf("", "WithDryRun")
			if a == "0" {
				v = VConst{T: x.t("DryRunOption"), V: cBool(false).(VConst).V}
			}
			ss = append(ss, addOpt(v, x.t("DryRunOption")))
		case "rec":
			v := x.e.P.constOf("", "WithRecursiveDelete")
			if a == "0" {
				v = VConst{T: x.t("RecursiveDeleteOption"), V: cBool(false).(VConst).V}
			}
			ss = append(ss, addOpt(v, x.t("RecursiveDeleteOption")))
		default:
			panic("option " + o)
		}
	}
	return ss
}

func (x *isoEnv) col(kind, name string) Value {
	t := map[string]string{"lock": "ILock", "exec": "IExecutor", "bus": "IEventBus", "timer": "ITimer", "idgen": "IIDGenerator"}[kind]
	if kind == "log" {
		return x.env("log:"+name, x.e.Fn("WithLogger").Signature.Params().At(0).Type())
	}
	return x.env(kind+":"+name, x.t(t))
}

func (x *isoEnv) ctxOf(r string) Value { return x.env("ctx"+r, x.ctxT()) }
func (x *isoEnv) txOf(r string) Value {
	return x.env("txctx"+r, x.ctxT())
}

func (x *isoEnv) active(st *State) string {
	s := st.Get("stack")
	if s == "" {
		return ""
	}
	return s[len(s)-1:]
}

// own judges a collaborator call; it returns the run that makes it.
func (x *isoEnv) own(c *CallCtx, kind, what string) string {
	r := x.active(c.St)
	x.must(c, r != "", "C15/when", what, what+" is called while no run is active")
	if r == "" {
		panic(stopReq{})
	}
	name := "?"
	if s, ok := stripIface(c.Recv).(*VSym); ok {
		name = strings.TrimPrefix(s.ID, "env:"+kind+":")
	}
	x.must(c, name == x.eff[r].v[kind], "C47/"+kind, what, what+" reaches a collaborator that is not the one in effect for the run")
	return r
}

// ctxIs: the context belongs to the run.
func (x *isoEnv) ctxIs(c *CallCtx, r string, v Value, what string) {
	want := x.ctxOf(r)
	if c.St.Get("tx:"+r) == "open" {
		want = x.txOf(r)
	}
	x.must(c, ctxHas(v, want), "C15/ctx", what, what+" does not get the context of the run that makes the call")
}

// belongs: the value is one of the run's own.
func belongs(v Value, r string) bool {
	switch s := stripIface(v).(type) {
	case *VSym:
		return strings.HasSuffix(s.ID, r)
	case VPtr:
		return strings.HasSuffix(s.O, r)
	}
	return false
}

func (x *isoEnv) did(st *State, r, what string) {
	st.Set("did:"+r, st.Get("did:"+r)+" "+what)
}

func newIso(e *Env, s *isoSpec) *isoEnv {
	x := &isoEnv{Lab: newLab(e), s: s, eff: map[string]*isoEff{}, run: map[string]*isoRun{}}
	for i := range s.runs {
		r := &s.runs[i]
		x.run[r.name] = r
		x.eff[r.name] = s.effective(r)
	}
	x.trk = func(id string) bool { return strings.HasPrefix(id, "m:") || strings.HasPrefix(id, "leaf:") }
	x.decide = func(st *State, p *VPred) tri {
		if p.Op != "is" {
			return unknown
		}
		id := ""
		if v, ok := p.X.(*VSym); ok {
			id = v.ID
		}
		if strings.HasPrefix(id, "ent:") {
			return no
		}
		if strings.HasPrefix(id, "env:bus:") {
			return triOf(strings.HasSuffix(id, "t"))
		}
		if strings.HasPrefix(id, "env:") {
			return no
		}
		return unknown
	}
	x.onEv = x.frozen
	on := x.onCall
	on[imeth("ILock", "Lock")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "lock", "Lock")
		x.ctxIs(c, r, c.Args[0], "Lock")
		mine := false
		walkValue(c.Args[1], func(s *VSym) { mine = mine || s.ID == "ord:key"+r }, func(string) {})
		x.must(c, mine && c.St.Get("locked:"+r) == "", "C15/lock", "Lock", "a run acquires a lock it did not ask for")
		c.St.Set("locked:"+r, "1")
		return x.at(c, "lock", r, x.env("handle"+r, nil), VNil{})
	}
	on[imeth("ILock", "UnLock")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "lock", "UnLock")
		x.must(c, c.Args[1].K() == x.env("handle"+r, nil).K() && c.St.Get("locked:"+r) == "1", "C15/lock", "UnLock", "a run releases a lock it does not hold")
		c.St.Set("locked:"+r, "released")
		return ret(VNil{})
	}
	on[imeth("ITransaction", "Begin")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "exec", "Begin")
		x.must(c, x.eff[r].v["tx"] == "1", "C47/tx", "Begin", "a transaction is opened although the run has none")
		x.ctxIs(c, r, c.Args[0], "Begin")
		x.must(c, c.St.Get("tx:"+r) == "", "C15/tx", "Begin", "the transaction of a run is opened twice")
		c.St.Set("tx:"+r, "open")
		return x.at(c, "begin", r, x.txOf(r), VNil{})
	}
	end := func(m, to string) {
		on[imeth("ITransaction", m)] = func(c *CallCtx) []Outcome {
			r := x.own(c, "exec", m)
			x.must(c, c.St.Get("tx:"+r) == "open", "C15/tx", m, "a run ends a transaction that is not its own")
			x.ctxIs(c, r, c.Args[0], m)
			x.must(c, (to == "committed") == !(x.run[r].fails || x.noBus(r)), "C15/tx", m, "the transaction of a run ends as if another run had ended")
			c.St.Set("tx:"+r, to)
			return x.at(c, "commit", r, VNil{})
		}
	}
	end("Commit", "committed")
	end("RollBack", "rolledback")
	on[imeth("IExecutor", "Exec")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "exec", "Exec")
		x.ctxIs(c, r, c.Args[0], "Exec")
		x.must(c, x.eff[r].v["dry"] == "0", "C47/dry", "Exec", "a write is executed in dry-run mode")
		x.must(c, (x.eff[r].v["tx"] == "1") == (c.St.Get("tx:"+r) == "open"), "C47/tx", "Exec", "a write does not happen in the transaction mode of the run")
		op, _ := constInt(c.St.field(c.Args[1], "Op"))
		ms, exact := c.In.elems(c.St, c.St.field(c.Args[1], "Models"))
		x.must(c, exact, "C15/entity", "Exec", "a run writes models that are not its own")
		for _, m := range ms {
			x.must(c, belongs(m, r), "C15/entity", "Exec", "a run writes a model of another run")
			x.did(c.St, r, fmt.Sprintf("%d:%s", op, strings.TrimPrefix(stripIface(m).K(), "s:")))
		}
		o, _ := c.St.GetV("acts:" + r).(*VTuple)
		if o == nil {
			o = &VTuple{}
		}
		c.St.SetV("acts:"+r, &VTuple{append(append([]Value(nil), o.V...), c.Args[1])})
		return x.at(c, "exec", r, VNil{})
	}
	on[imeth("IConverter", "Entity2Model")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "exec", "Entity2Model")
		x.must(c, belongs(c.Args[0], r), "C15/entity", "Entity2Model", "a run handles an entity of another run")
		op, _ := constInt(c.Args[2])
		id := "?" + r
		if s, ok := stripIface(c.Args[0]).(*VSym); ok {
			id = strings.TrimPrefix(s.ID, "ent:")
		}
		return ret(&VSym{ID: fmt.Sprintf("m:%d:%s", op, id), T: e.ModelA, Distinct: true, NonNil: true}, VNil{})
	}
	on[imeth("IIDGenerator", "NewID")] = func(c *CallCtx) []Outcome {
		r := x.own(c, "idgen", "NewID")
		n, _ := stripIface(c.Recv).(*VSym)
		_ = n
		return ret(&VSym{ID: "env:newid:" + x.eff[r].v["idgen"] + r, T: types.Typ[types.String], Distinct: true}, VNil{})
	}
	on[imeth("IEntity", "SetID")] = func(c *CallCtx) []Outcome {
		r := x.active(c.St)
		s, ok := stripIface(c.Recv).(*VSym)
		x.must(c, ok && belongs(s, r), "C15/entity", "SetID", "a run gives an entity of another run an ID")
		if ok {
			c.St.SetV("id:"+s.ID, c.Args[0])
		}
		return x.at(c, "setid", r)
	}
	on[imeth("IEntity", "GetID")] = func(c *CallCtx) []Outcome {
		s, ok := stripIface(c.Recv).(*VSym)
		if !ok {
			return nil
		}
		if v := c.St.GetV("id:" + s.ID); v != nil {
			return ret(v)
		}
		if strings.HasPrefix(s.ID, "ent:new") {
			return ret(cStr(""))
		}
		return ret(x.env("id:"+s.ID, types.Typ[types.String]))
	}
	on[imeth("IEntity", "GetChildren")] = func(c *CallCtx) []Outcome {
		if s, ok := stripIface(c.Recv).(*VSym); ok && strings.HasPrefix(s.ID, "ent:old") {
			r := s.ID[len("ent:old"):]
			kid := x.ent("kid" + r)
			return ret(c.St.newMap("ch:"+c.Pre, c.resT(0), cStr("kids"), c.St.slice("chs:"+c.Pre, sliceOf(x.t("IEntity")), kid)))
		}
		return ret(c.St.newMap("ch:"+c.Pre, c.resT(0)))
	}
	on[imeth("IEntity", "GetEvents")] = func(c *CallCtx) []Outcome {
		if s, ok := stripIface(c.Recv).(*VSym); ok && strings.HasPrefix(s.ID, "ent:new") {
			return ret(c.St.slice("evs:"+c.Pre, c.resT(0), x.event(c.St, s.ID[len("ent:new"):])))
		}
		return ret(VNil{})
	}
	for _, m := range []string{"UnDirty", "Dirty"} {
		on[imeth("IDirty", m)] = noop
	}
	on[imeth("IDirty", "IsDirty")] = func(c *CallCtx) []Outcome { return ret(cBool(false)) }
	reg := func(kind string) modelFn {
		return func(c *CallCtx) []Outcome {
			if s, ok := stripIface(c.Recv).(*VSym); ok {
				c.St.Set("wired:"+kind+":"+strings.TrimPrefix(s.ID, "env:"+strings.TrimSuffix(kind, "chk")+":"), "1")
			}
			return ret()
		}
	}
	for _, i := range []string{"IEventBus", "ITransactionEventBus"} {
		on[imeth(i, "RegisterEventHandler")] = reg("bus")
		on[imeth(i, "RegisterEventTXChecker")] = reg("buschk")
		disp := func(begin bool) modelFn {
			return func(c *CallCtx) []Outcome {
				r := x.own(c, "bus", "Dispatch")
				x.ctxIs(c, r, c.Args[0], "Dispatch")
				x.must(c, x.eff[r].v["dry"] == "0", "C47/dry", "Dispatch", "events are dispatched in dry-run mode")
				es, exact := c.In.elems(c.St, c.Args[1])
				x.must(c, exact, "C15/event", "Dispatch", "a run dispatches events that are not its own")
				for _, ev := range es {
					x.must(c, belongs(ev, r), "C15/event", "Dispatch", "a run dispatches an event of another run")
					x.did(c.St, r, "event")
				}
				if begin {
					return ret(x.env("evctx"+r, x.ctxT()), VNil{})
				}
				return x.at(c, "dispatch", r, VNil{})
			}
		}
		on[imeth(i, "Dispatch")] = disp(false)
		on[imeth(i, "DispatchBegin")] = disp(true)
		for _, m := range []string{"Commit", "Rollback"} {
			m := m
			on[imeth(i, m)] = func(c *CallCtx) []Outcome {
				r := x.own(c, "bus", "bus."+m)
				x.must(c, ctxHas(c.Args[0], x.env("evctx"+r, x.ctxT())), "C15/ctx", "bus."+m, "the message of another run is decided")
				return ret(VNil{})
			}
		}
	}
	on[imeth("ITimer", "RegisterTimerHandler")] = reg("timer")
	on["native:persist"] = func(c *CallCtx) []Outcome {
		r := x.active(c.St)
		n, _ := constString(c.FnV.(*VNative).B[0])
		x.must(c, r != "" && n == x.eff[r].v["persist"], "C47/persist", "EventPersist", "events are persisted by a function that is not the one in effect for the run")
		x.must(c, belongs(c.Args[0], r), "C15/event", "EventPersist", "a run persists an event of another run")
		return ret(&VSym{ID: "m:pm:" + n + r, T: e.ModelB, Distinct: true, NonNil: true}, VNil{})
	}
	for _, m := range []string{"Info", "Error"} {
		k := "(github.com/go-logr/logr.Logger)." + m
		on[k] = func(c *CallCtx) []Outcome {
			r := x.active(c.St)
			if r == "" || x.eff[r].v["log"] == "default" {
				return ret()
			}
			own := false
			for _, v := range []Value{c.Recv, c.Args[0]} {
				if s, ok := stripIface(v).(*VSym); ok && s.ID == "env:log:"+x.eff[r].v["log"] {
					own = true
				}
			}
			x.must(c, own, "C47/log", m, "a run logs to a logger that is not the one in effect for it")
			return ret()
		}
	}
	hook := func(c *CallCtx, name string) []Outcome {
		r := x.active(c.St)
		x.user(c, "", "a post-save hook")
		st := c.St
		i := len(strings.Fields(st.Get("hooks:" + r)))
		hs := []string{}
		if r != "" {
			hs = x.eff[r].hooks
		}
		known := false
		for _, h := range hs {
			known = known || h == name
		}
		x.must(c, known, "C15/hook", "PostSave", "a hook of another run is called: "+name)
		x.must(c, !known || (i < len(hs) && hs[i] == name), "C47/hook", "PostSave", "the post-save hooks of a run are not those of the engine and then those of the run, each once, in order")
		x.must(c, r != "" && ctxHas(c.Args[0], x.ctxOf(r)), "C15/ctx", "PostSave", "a post-save hook does not get the context of the run")
		if v := st.GetV("hookres:" + r); v != nil {
			x.must(c, v.K() == c.Args[1].K(), "C15/result", "PostSave", "the hooks of a run get different results")
		}
		st.SetV("hookres:"+r, c.Args[1])
		if i < 6 {
			st.Set("hooks:"+r, strings.TrimSpace(st.Get("hooks:"+r)+" "+name))
		}
		return x.at(c, "hook", r)
	}
	on["native:hook"] = func(c *CallCtx) []Outcome {
		n, _ := constString(c.FnV.(*VNative).B[0])
		return hook(c, n)
	}
	cmdOf := func(v Value) string {
		if s, ok := stripIface(v).(*VSym); ok && strings.HasPrefix(s.ID, "env:cmd") {
			return s.ID[len("env:cmd"):]
		}
		return ""
	}
	for _, i := range []string{"ICommand", "ICommandPostSave"} {
		on[imeth(i, "PostSave")] = func(c *CallCtx) []Outcome { return hook(c, "cmd"+cmdOf(c.Recv)) }
	}
	for _, i := range []string{"ICommand", "ICommandInit"} {
		on[imeth(i, "Init")] = func(c *CallCtx) []Outcome {
			r := x.active(c.St)
			x.must(c, cmdOf(c.Recv) == r, "C15/command", "Init", "a run initialises the command of another run")
			return ret(c.St.slice("keys"+r, sliceOf(types.Typ[types.String]), &VSym{ID: "ord:key" + r, T: types.Typ[types.String], Distinct: true}), VNil{})
		}
	}
	on[imeth("IStageSetter", "SetStage")] = func(c *CallCtx) []Outcome {
		c.St.SetV("agent:"+cmdOf(c.Recv), c.Args[0])
		return ret()
	}
	on[imeth("ICommand", "Build")] = func(c *CallCtx) []Outcome {
		x.mainStart(c, cmdOf(c.Recv))
		return ret(VNil{}, VNil{})
	}
	on[imeth("ICommand", "Act")] = func(c *CallCtx) []Outcome {
		st := c.St
		id := "H:cont" + cmdOf(c.Recv)
		st.heap[id] = &Obj{Kind: "cells", T: x.t("RootContainer"), Cells: map[string]Value{}}
		st.storeCell(id, "", x.t("RootContainer"), c.Args[1])
		return x.body(c, cmdOf(c.Recv), VPtr{id, ""}, "RootContainer")
	}
	on[imeth("ICommandMain", "Main")] = func(c *CallCtx) []Outcome {
		x.mainStart(c, cmdOf(c.Recv))
		return x.body(c, cmdOf(c.Recv), c.Args[1], "Repository")
	}
	on["native:main"] = func(c *CallCtx) []Outcome {
		n, _ := constString(c.FnV.(*VNative).B[0])
		x.mainStart(c, n)
		return x.body(c, n, c.Args[1], "Repository")
	}
	x.atEnd = x.ends
	return x
}

// at answers a collaborator call of run r; the second run may start inside it.
func (x *isoEnv) at(c *CallCtx, point, r string, res ...Value) []Outcome {
	if x.s.nest == point && r == x.s.runs[0].name && c.St.Get("nested") == "" {
		c.St.Set("nested", "1")
		return []Outcome{{Script: steps(append(x.runSteps(&x.s.runs[1]), func(in *Interp, st *State, fr *Frame) []*State { return fr.finish(res...) })...), Loc: map[string]Value{}}}
	}
	return []Outcome{{Ret: res}}
}

func (x *isoEnv) ent(id string) *VSym {
	return &VSym{ID: "ent:" + id, T: x.t("IEntity"), Distinct: true, NonNil: true}
}

func (x *isoEnv) event(st *State, r string) Value {
	id := "H:ev" + r
	if st.heap[id] == nil {
		st.heap[id] = &Obj{Kind: "cells", T: x.t("DomainEvent"), Opaque: true, Cells: map[string]Value{
			".SendType": x.e.P.constOf("", "SendTypeNormal"),
			".ID":       &VSym{ID: "ord:ev" + r, T: types.Typ[types.String], Distinct: true},
		}}
	}
	return VPtr{id, ""}
}

func (x *isoEnv) mainStart(c *CallCtx, n string) {
	st := c.St
	r := x.active(st)
	x.must(c, n == r && st.Get("ran:"+r) == "", "C15/command", "the command", "a run executes the command of another run")
	st.Set("ran:"+r, "1")
	if r == "" {
		panic(stopReq{})
	}
	x.ctxIs(c, r, c.Args[0], "the command")
	e := x.eff[r].v
	x.must(c, (e["tx"] == "1") == (st.Get("tx:"+r) == "open"), "C47/tx", "the command", "the command does not run in the transaction mode in effect")
	if f := x.run[r].form; f == "main" || f == "cmd" {
		x.must(c, st.Get("locked:"+r) == "1", "C47/lock", "the command", "the command runs without its locks")
	}
	if e["bus"] != "none" {
		x.must(c, st.Get("wired:bus:"+e["bus"]) != "", "C47/wired", "the command", "the event bus in effect has no event handler registered")
		if strings.HasSuffix(e["bus"], "t") {
			x.must(c, st.Get("wired:buschk:"+e["bus"]) != "", "C47/wired", "the command", "the event bus in effect has no transaction check registered")
		}
	}
	if e["timer"] != "none" {
		x.must(c, st.Get("wired:timer:"+e["timer"]) != "", "C47/wired", "the command", "the timer in effect has no handler registered")
	}
}

// body is what every command does: remove an old root with a child and add a new one.
func (x *isoEnv) body(c *CallCtx, n string, to Value, typ string) []Outcome {
	r := x.run[x.active(c.St)]
	ents := func(st *State, id string) Value {
		return st.slice("l:"+id, sliceOf(x.t("IEntity")), x.ent(id))
	}
	op := func(m, id string) stepFn {
		return func(in *Interp, st *State, fr *Frame) []*State {
			f := x.e.M("", typ, m)
			if typ == "Repository" {
				return in.CallFn(st, f, "body."+m+r.name, to, ents(st, id))
			}
			return in.CallFn(st, f, "body."+m+r.name, to, x.ent(id))
		}
	}
	var ss []stepFn
	if typ == "Repository" {
		ss = append(ss, op("Remove", "old"+r.name))
	}
	ss = append(ss, op("Add", "new"+r.name))
	if x.s.nest == "main" && r == &x.s.runs[0] {
		ss = append(ss, x.runSteps(&x.s.runs[1])...)
	}
	if r.output {
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, x.e.M("", "StageAgent", "Output"), "out1"+r.name, x.agent(st, r), x.env("output0", nil))
		}, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, x.e.M("", "StageAgent", "Output"), "out2"+r.name, x.agent(st, r), x.env("output"+r.name, nil))
		})
	}
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		if r.fails {
			return fr.finish(errSym("cmd" + r.name))
		}
		return fr.finish(VNil{})
	})
	return []Outcome{{Script: steps(ss...), Loc: map[string]Value{}}}
}

// agent is the stage agent the command was given, as an addressable value.
func (x *isoEnv) agent(st *State, r *isoRun) Value {
	id := "H:agent" + r.name
	v := st.GetV("agent:" + r.name)
	if v == nil {
		panic(stopReq{})
	}
	t := x.t("StageAgent")
	st.heap[id] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{}}
	st.storeCell(id, "", t, v)
	return VPtr{id, ""}
}

func (x *isoEnv) cmdV(r *isoRun) Value {
	switch r.form {
	case "func":
		return &VIface{T: x.t("MainFunc"), V: native("main", cStr(r.name))}
	case "main":
		var ms []*types.Func
		for _, i := range []string{"ICommandMain", "ICommandInit", "ICommandPostSave"} {
			ms = append(ms, methodsOf(x.t(i))...)
		}
		s := x.env("cmd"+r.name, types.NewPointer(x.e.envType("IsoMain", types.NewStruct(nil, nil), ms...)))
		return &VIface{T: s.T, V: s}
	default:
		ms := append(append([]*types.Func(nil), methodsOf(x.t("ICommand"))...), methodsOf(x.t("IStageSetter"))...)
		s := x.env("cmd"+r.name, types.NewPointer(x.e.envType("IsoCmd", types.NewStruct(nil, nil), ms...)))
		return &VIface{T: s.T, V: s}
	}
}

func (x *isoEnv) runSteps(r *isoRun) []stepFn {
	id := "ropts" + r.name
	ss := x.optionSteps(id, r.opts)
	return append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		var o Value = VNil{}
		if t, ok := fr.loc[id].(*VTuple); ok {
			o = st.slice(id, sliceOf(x.t("Option")), t.V...)
		}
		st.Set("stack", st.Get("stack")+r.name)
		ents := func(id string) Value { return st.slice("arg:"+id, sliceOf(x.t("IEntity")), x.ent(id)) }
		switch r.form {
		case "create":
			st.Set("ran:"+r.name, "1")
			return in.CallFn(st, x.e.M("", "Engine", "Create"), "create"+r.name, st.GetV("engine"), x.ctxOf(r.name), ents("new"+r.name))
		case "delete":
			st.Set("ran:"+r.name, "1")
			return in.CallFn(st, x.e.M("", "Engine", "Delete"), "delete"+r.name, st.GetV("engine"), x.ctxOf(r.name), ents("old"+r.name))
		}
		return in.CallFn(st, x.e.M("", "Engine", "Run"), "run"+r.name, st.GetV("engine"), x.ctxOf(r.name), x.cmdV(r), o)
	}, func(in *Interp, st *State, fr *Frame) []*State {
		st.SetV("res:"+r.name, fr.loc["ret"])
		x.judge(in, st, r)
		s := st.Get("stack")
		st.Set("stack", s[:len(s)-1])
		return nil
	})
}

// judge looks at the outcome of a finished run.
func (x *isoEnv) judge(in *Interp, st *State, r *isoRun) {
	ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "end of run", 0, msg) }
	e := x.eff[r.name].v
	ck(st.Get("ran:"+r.name) != "", "C15/command", "a run ends without executing its command")
	ck(st.Get("tx:"+r.name) != "open", "C15/tx", "a run ends with its transaction open")
	ck(st.Get("locked:"+r.name) != "1", "C15/lock", "a run ends with its lock held")
	res := st.GetV("res:" + r.name)
	for i := range x.s.runs {
		if o := st.GetV("res:" + x.s.runs[i].name); o != nil && x.s.runs[i].name != r.name {
			ck(o.K() != res.K(), "C15/result", "two runs share one result")
		}
	}
	ev := st.field(res, "Error")
	if ev == nil {
		ck(false, "C15/result", "a run returns no result")
		return
	}
	if r.fails {
		ck(in.inChain(st, ev, errSym("cmd"+r.name)), "C15/result", "a run that fails does not report its own error")
		ck(st.Get("did:"+r.name) == "", "C15/result", "a run that fails writes or dispatches")
		ck(st.Get("hooks:"+r.name) == "", "C47/hook", "a run that fails calls its hooks")
		return
	}
	t, _ := st.isNil(ev)
	if x.noBus(r.name) {
		// the new entity has an event
		none := x.e.base["G:"+modPath+".ErrNoEventBusFound"]
		ck(t == no, "C47/nobus", "the events of a run are dropped because no event bus is configured")
		ck(none == nil || in.inChain(st, ev, none.Cells[""]), "C47/nobus", "events without an event bus are not reported as ErrNoEventBusFound")
		ck(st.Get("tx:"+r.name) != "committed", "C47/nobus", "a run whose events cannot be sent is committed")
		ck(st.Get("hooks:"+r.name) == "", "C47/hook", "a run that fails calls its hooks")
		return
	}
	ck(t == yes, "C15/result", "a run fails although nothing went wrong in it")
	var want []string
	if r.form != "cmd" && r.form != "create" {
		want = append(want, fmt.Sprintf("%d:m:%d:old%s", opDelete, opDelete, r.name))
		if e["rec"] == "1" {
			want = append(want, fmt.Sprintf("%d:m:%d:kid%s", opDelete, opDelete, r.name))
		}
	}
	if r.form != "delete" {
		want = append(want, fmt.Sprintf("%d:m:%d:new%s", opInsert, opInsert, r.name))
		if e["persist"] != "" {
			want = append(want, fmt.Sprintf("%d:m:pm:%s%s", opInsert, e["persist"], r.name))
		}
		want = append(want, "event")
	}
	if e["dry"] == "1" {
		want = nil
	}
	got := strings.Fields(st.Get("did:" + r.name))
	kidW, kidG := false, false
	for _, w := range want {
		kidW = kidW || strings.Contains(w, ":kid")
	}
	for _, w := range got {
		kidG = kidG || strings.Contains(w, ":kid")
	}
	ck(kidW == kidG, "C47/rec", "the children of a removed root are not deleted as the recursive-delete option in effect says")
	ck(sameSet(want, got), "C47/effect", "the run does not write and dispatch what its options say: "+strings.Join(got, " ")+" instead of "+strings.Join(want, " "))
	if e["idgen"] != "default" && r.form != "delete" {
		ck(st.GetV("id:ent:new"+r.name) != nil && st.GetV("id:ent:new"+r.name).K() == "s:env:newid:"+e["idgen"]+r.name, "C47/idgen", "a new entity does not get an ID of the generator in effect")
	}
	if e["idgen"] == "default" && r.form != "delete" {
		id := st.GetV("id:ent:new" + r.name)
		ck(id != nil && in.knownNot(st, id, cStr("")), "C47/idgen", "a new entity gets no ID when no generator is configured")
		for i := range x.s.runs {
			if o := st.GetV("id:ent:new" + x.s.runs[i].name); o != nil && id != nil && x.s.runs[i].name != r.name {
				ck(in.knownNot(st, id, o), "C47/idgen", "two new entities get the same ID of the default generator")
			}
		}
	}
	ck(st.Get("hooks:"+r.name) == strings.Join(x.eff[r.name].hooks, " "), "C47/hook", "the run calls the hooks ["+st.Get("hooks:"+r.name)+"] instead of ["+strings.Join(x.eff[r.name].hooks, " ")+"]")
	if v := st.GetV("hookres:" + r.name); v != nil {
		ck(v.K() == res.K(), "C15/result", "the hooks of a run do not get its result")
	}
	// the result lists the executed writes and the output of the command
	acts, exact := in.elems(st, st.field(res, "Actions"))
	done, _ := st.GetV("acts:" + r.name).(*VTuple)
	if done == nil {
		done = &VTuple{}
	}
	same := exact && len(acts) == len(done.V)
	for i := 0; same && i < len(acts); i++ {
		same = acts[i].K() == done.V[i].K()
	}
	ck(same, "C49/actions", "the result does not list the executed actions in their order")
	out := st.field(res, "Output")
	if r.output {
		ck(out != nil && stripIface(out).K() == x.env("output"+r.name, nil).K(), "C49/output", "the result does not carry the last output of the command")
	} else {
		t, _ := st.isNil(out)
		ck(t == yes, "C49/output", "the result carries an output the command never gave")
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func (x *isoEnv) ends(in *Interp, st *State, p Value) {
	in.Check(st, p == nil, "C15/panic", "end", 0, "a run panics although nothing went wrong in it")
}

// frozen: memory reachable from the built engine, and the variables of the
// library, are not written without a lock.
func (x *isoEnv) frozen(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	id, what := "", ""
	switch kind {
	case "store":
		if p, ok := args[0].(VPtr); ok {
			id, what = p.O, locName(st, p)
		}
	case "storeelem":
		if p, ok := args[0].(VEPtr); ok {
			id, what = p.O, "an element of a list"
			if o := st.heap[id]; o != nil && st.Get("frozen!"+id) == "" && o.Alias != "" {
				id = o.Alias
			}
		}
	case "append":
		if s, ok := args[0].(VSlice); ok {
			if o := st.heap[s.O]; o != nil && !o.Capped {
				id, what = s.O, "the spare capacity of a list"
				if st.Get("frozen!"+id) == "" && o.Alias != "" {
					id = o.Alias
				}
			}
		}
	case "mapwrite":
		if m, ok := args[0].(VMap); ok {
			id, what = m.O, "a map"
		}
	default:
		return
	}
	if id == "" {
		return
	}
	if st.Get("frozen!"+id) != "" {
		in.Check(st, len(heldLocks(st)) > 0, "C15/engine", stateFn(st), pos, "a run writes to memory of the built engine: "+what)
		return
	}
	if _, base := x.e.base[id]; base || strings.HasPrefix(id, "G:"+modPath) {
		in.Check(st, len(heldLocks(st)) > 0, "C15/global", stateFn(st), pos, "a run or the construction of an engine writes to a variable of the library: "+what)
		return
	}
	in.Check(st, true, "C15/engine", stateFn(st), pos, "")
}

// freeze marks what is reachable from the engine.
func freeze(st *State, v Value) {
	seen := map[string]bool{}
	var visit func(v Value)
	obj := func(id string) {
		if seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		st.Set("frozen!"+id, "1")
		o := st.heap[id]
		for _, m := range []map[string]Value{o.Cells} {
			for _, c := range m {
				visit(c)
			}
		}
		for _, l := range [][]Value{o.Elems, o.Keys} {
			for _, c := range l {
				visit(c)
			}
		}
	}
	visit = func(v Value) {
		if v != nil {
			walkValue(v, func(*VSym) {}, obj)
		}
	}
	visit(v)
}

func scenIso(s *isoSpec) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newIso(e, s)
		in.Fold = 12
		ss := x.optionSteps("eopts", s.eng)
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			var o Value = VNil{}
			if t, ok := fr.loc["eopts"].(*VTuple); ok {
				o = st.slice("eopts", sliceOf(x.t("Option")), t.V...)
			}
			return in.CallFn(st, e.Fn("NewEngine"), "new", x.col("lock", "1"), x.col("exec", "1"), o)
		}, do(func(st *State, fr *Frame) {
			st.SetV("engine", fr.loc["ret"])
			freeze(st, fr.loc["ret"])
		}))
		n := len(s.runs)
		if s.nest != "" {
			n = 1
		}
		for i := 0; i < n; i++ {
			ss = append(ss, x.runSteps(&s.runs[i])...)
		}
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			for i := range s.runs {
				if i == 1 && (s.nest == "lock" || s.nest == "begin" || s.nest == "commit") && st.Get("nested") == "" {
					continue // the first run has no such point
				}
				in.Check(st, st.GetV("res:"+s.runs[i].name) != nil, "C15/result", "end", 0, "a run does not end")
			}
			return nil
		})
		x.start(in, ss...)
	}
}

func isoScenarios() []*Scenario {
	var out []*Scenario
	add := func(props []string, s isoSpec, thorough bool) {
		out = append(out, &Scenario{Name: s.scenName(), Props: props, Run: scenIso(&s), Thorough: thorough})
	}
	base := "bus:1 idgen:1"
	// two runs with different options
	all := "lock:2 exec:2 bus:2 timer:2 idgen:2 log:2 persist:2 hook:a hook:b"
	for _, nest := range []string{"", "main", "hook", "exec", "dispatch", "lock", "begin", "commit", "setid"} {
		for _, eng := range []string{base + " hook:x hook:y log:1 timer:1", base + " hook:x hook:y hook:z persist:1 rec:1"} {
			add([]string{"C15", "C47", "C49"}, isoSpec{eng: eng, nest: nest, runs: []isoRun{{name: "A", form: "main", opts: all}, {name: "B", form: "func", opts: "hook:c"}}}, false)
			add([]string{"C15", "C47", "C49"}, isoSpec{eng: eng, nest: nest, runs: []isoRun{{name: "A", form: "func", opts: "hook:c tx:0"}, {name: "B", form: "main", opts: "hook:a dry:1"}}}, false)
			add([]string{"C15", "C47", "C49"}, isoSpec{eng: eng, nest: nest, runs: []isoRun{{name: "A", form: "cmd", opts: "", output: true}, {name: "B", form: "cmd", opts: "hook:c idgen:3"}}}, false)
		}
	}
	for _, nest := range []string{"", "main"} {
		add([]string{"C15", "C47", "C49"}, isoSpec{eng: base + " hook:x", nest: nest, runs: []isoRun{{name: "A", form: "main", opts: "hook:a", fails: true}, {name: "B", form: "main", opts: "hook:b"}}}, false)
		add([]string{"C15", "C47", "C49"}, isoSpec{eng: base, nest: nest, runs: []isoRun{{name: "A", form: "main", opts: "bus:2t"}, {name: "B", form: "main", opts: "rec:1", fails: true}}}, false)
	}
	add([]string{"C15", "C47", "C49"}, isoSpec{eng: base, runs: []isoRun{{name: "A", form: "func", opts: all + " rec:1"}, {name: "B", form: "func"}, {name: "C", form: "main", opts: "lock:3"}}}, false)
	// every option by itself on the engine, on the run, and on both
	for _, p := range []string{"lock:2 lock:3", "exec:2 exec:3", "bus:2 bus:3", "bus:2t bus:3", "timer:2 timer:3", "idgen:2 idgen:3", "log:2 log:3", "persist:2 persist:3", "persist:2 persist:nil", "persist:nil persist:2", "tx:0 tx:1", "dry:1 dry:0", "rec:1 rec:0", "hook:p hook:q", "tx:1 tx:0", "dry:0 dry:1", "rec:0 rec:1"} {
		f := strings.Fields(p)
		for _, v := range [][2]string{{f[0], ""}, {"", f[0]}, {f[0], f[1]}, {f[1] + " " + f[0], ""}, {"", f[1] + " " + f[0]}} {
			form := "main"
			add([]string{"C47", "C49"}, isoSpec{eng: strings.TrimSpace(base + " " + v[0]), runs: []isoRun{{name: "A", form: form, opts: v[1]}}}, false)
		}
	}
	// every option on top of all the others
	full := "lock:1 exec:1 bus:1t timer:1 idgen:1 log:1 persist:1 tx:0 rec:1 hook:x hook:y"
	for _, o := range []string{"lock:2", "exec:2", "bus:2", "bus:2t", "timer:2", "idgen:2", "log:2", "persist:2", "persist:nil", "tx:0", "tx:1", "dry:1", "dry:0", "rec:1", "rec:0", "hook:p"} {
		add([]string{"C47", "C49"}, isoSpec{eng: full, runs: []isoRun{{name: "A", form: "main", opts: o}}}, false)
		add([]string{"C47", "C49"}, isoSpec{eng: full + " " + o, runs: []isoRun{{name: "A", form: "func"}}}, false)
	}
	// creating and deleting take the options of the engine
	for _, o := range []string{"", full, full + " tx:1", full + " dry:1", full + " rec:0", "lock:2 exec:2 bus:2 idgen:2 timer:2 log:2"} {
		for _, f := range []string{"create", "delete"} {
			add([]string{"C15", "C47", "C49"}, isoSpec{eng: base + " " + o, runs: []isoRun{{name: "A", form: "main", opts: all}, {name: "B", form: f}}}, false)
		}
	}
	// what nobody configured
	for _, o := range []string{"", "idgen:1 hook:x", "tx:0 idgen:1", "dry:1", "persist:1 idgen:1", "bus:1", "bus:1t persist:1"} {
		for _, f := range []string{"main", "create", "delete", "cmd"} {
			add([]string{"C47", "C49"}, isoSpec{eng: o, runs: []isoRun{{name: "A", form: f}, {name: "B", form: "func"}}}, false)
		}
	}
	add([]string{"C47", "C49"}, isoSpec{eng: "idgen:1", runs: []isoRun{{name: "A", form: "func", opts: "bus:2"}, {name: "B", form: "func"}}}, false)
	// an output, with every form that can give one
	add([]string{"C49"}, isoSpec{eng: base + " hook:x", runs: []isoRun{{name: "A", form: "cmd", output: true}}}, false)
	add([]string{"C49"}, isoSpec{eng: base + " dry:1", runs: []isoRun{{name: "A", form: "cmd", output: true}}}, false)
	return out
}

// knownNot: the two values are known to differ on this path.
func (in *Interp) knownNot(st *State, a, b Value) bool {
	t, p := st.eq(a, b)
	if t == unknown && p != nil {
		if v, ok := st.lookupFact(p); ok {
			t = triOf(v)
		}
	}
	return t == no
}

// noBus: the run has events (of the new entity) and nothing to send them with.
func (x *isoEnv) noBus(r string) bool {
	e := x.eff[r].v
	return e["bus"] == "none" && x.run[r].form != "delete" && e["dry"] != "1"
}
