package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// regEnv: the registries of event handlers and transaction checkers.
type regEnv struct {
	*Lab
	evtT map[string]types.Type
}

func newReg(e *Env) *regEnv {
	r := &regEnv{Lab: newLab(e), evtT: map[string]types.Type{}}
	for _, n := range []string{"A", "B"} {
		r.evtT[n] = e.envType("Evt"+n, types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "F", types.Typ[types.String], false)}, nil))
	}
	r.onCall["encoding/json.Unmarshal"] = func(c *CallCtx) []Outcome {
		out := extModels["encoding/json.Unmarshal"](c)
		for i := range out {
			if len(out[i].Ret) == 1 {
				if _, ok := out[i].Ret[0].(VNil); !ok {
					out[i].Do = func(st *State) { st.Set("undecodable", "1") }
				}
			}
		}
		return out
	}
	return r
}

// argType is the argument of a handler: "raw" is the envelope.
func (r *regEnv) argType(kind string) types.Type {
	if kind == "raw" {
		return types.NewPointer(r.t("DomainEvent"))
	}
	return types.NewPointer(r.evtT[kind])
}

func (r *regEnv) etype(s string) Value { return VConst{constant.MakeString(s), r.t("EventType")} }

func (r *regEnv) ctx() Value { return r.env("ctx", r.ctxT()) }

// ctxAt is the context of the current delivery.
func (r *regEnv) ctxAt(st *State) Value { return r.env("ctx"+st.Get("delivery"), r.ctxT()) }

func (r *regEnv) payload(st *State) Value {
	return &VSym{ID: "env:payload" + st.Get("delivery"), T: types.NewSlice(types.Typ[types.Byte]), NonNil: true, Distinct: true}
}

// event is an incoming event of the given type.
func (r *regEnv) incoming(st *State, t string) Value {
	id := "H:evt" + st.Get("delivery")
	st.heap[id] = &Obj{Kind: "cells", T: r.t("DomainEvent"), Opaque: true, Cells: map[string]Value{
		".Type": r.etype(t), ".Payload": r.payload(st),
	}}
	return VPtr{id, ""}
}

// bus captures the callbacks the library registers.
func (r *regEnv) bus() Value { return r.env("bus", r.t("IEventBus")) }

func (r *regEnv) wireBus() {
	for _, i := range []string{"IEventBus", "ITransactionEventBus"} {
		r.onCall[imeth(i, "RegisterEventHandler")] = func(c *CallCtx) []Outcome {
			r.user(c, "", "the event bus")
			c.St.SetV("cb", c.Args[0])
			return ret()
		}
		r.onCall[imeth(i, "RegisterEventTXChecker")] = func(c *CallCtx) []Outcome {
			r.user(c, "", "the event bus")
			c.St.SetV("txcb", c.Args[0])
			return ret()
		}
	}
}

// decoded: is v a fresh object of the wanted type filled from the payload?
func (r *regEnv) checkArg(c *CallCtx, kind string, v Value, prop string) {
	p, ok := stripIface(v).(VPtr)
	if kind == "raw" {
		r.must(c, ok && p.O == "H:evt"+c.St.Get("delivery") && p.P == "", prop+"/raw", "handler", "a handler of raw envelopes does not get the envelope itself")
		return
	}
	if !ok || c.St.heap[p.O] == nil {
		r.must(c, false, prop+"/decoded", "handler", "a handler does not get a decoded event")
		return
	}
	o := c.St.heap[p.O]
	want := &VApp{F: "unjson", Args: []Value{r.payload(c.St)}}
	got := o.Cells[""]
	r.must(c, types.Identical(o.T, r.evtT[kind]), prop+"/decoded", "handler", "the event is not decoded into the type of the handler")
	r.must(c, got != nil && got.K() == want.K(), prop+"/decoded", "handler", "the event a handler gets is not decoded from the payload")
	shared := false
	for k, v := range c.St.mon {
		if strings.HasPrefix(k, "used!") && v.K() == p.K() {
			shared = true
		}
	}
	r.must(c, !shared, prop+"/fresh", "handler", "two handlers share one decoded event")
	c.St.SetV("used!"+p.O, p) // keeps the object alive, so that its name is not used again
}

// wireSteps hand the bus to the library: directly, as an option of an engine or of a run.
func (r *regEnv) wireSteps(via string) []stepFn {
	if via == "" {
		return []stepFn{callStep(r.e.Fn("RegisterEventBus"), "bus", vals(r.bus()))}
	}
	r.onCall[imeth("ITimer", "RegisterTimerHandler")] = noop
	f := r.e.Fn("WithEventBus")
	ss := []stepFn{callStep(f, "withbus", vals(r.bus())), keep("busopt")}
	opts := func(st *State, fr *Frame, use bool) Value {
		if !use {
			return VNil{}
		}
		return st.slice("busopts", sliceOf(r.t("Option")), &VIface{T: f.Signature.Results().At(0).Type(), V: fr.loc["busopt"]})
	}
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallFn(st, r.e.Fn("NewEngine"), "engine", r.env("locker", r.t("ILock")), r.env("exec", r.t("IExecutor")), opts(st, fr, via == "engine"))
	})
	if via == "run" {
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, r.e.M("", "Engine", "NewStage"), "stage", fr.loc["ret"])
		}, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, r.e.M("", "Stage", "WithOption"), "withopt", fr.loc["ret"], opts(st, fr, true))
		})
	}
	return ss
}

type reg struct{ typ, kind, name string }

func (r *regEnv) handlerV(k reg) Value {
	return &VIface{T: sig([]types.Type{r.ctxT(), r.argType(k.kind)}, errTypeT), V: native("h", cStr(k.name))}
}

// next begins another delivery: what it told apart so far is forgotten.
func (r *regEnv) next(st *State, d int, keys ...string) {
	if d > 1 {
		st.Set("delivery", strconv.Itoa(d))
	}
	for _, k := range keys {
		st.Set(k, "")
	}
}

// pick chooses the type of the event that arrives.
func (r *regEnv) pick(st *State) []*State {
	var alts []func(st *State, fr *Frame) []*State
	for _, t := range []string{"T1", "T2", "T3"} {
		t := t
		alts = append(alts, func(st *State, fr *Frame) []*State { st.Set("evtype", t); return nil })
	}
	return choose(st, alts...)
}

// scenRouter: handlers of several types are registered, then one event arrives.
func scenRouter(regs []reg, via string, deliveries int) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		r := newReg(e)
		r.wireBus()
		var of = map[string][]reg{}
		byName := map[string]reg{}
		for _, k := range regs {
			of[k.typ] = append(of[k.typ], k)
			byName[k.name] = k
		}
		r.onCall["native:h"] = func(c *CallCtx) []Outcome {
			n, _ := constString(c.FnV.(*VNative).B[0])
			k := byName[n]
			st := c.St
			t := st.Get("evtype")
			seq := of[t]
			i, _ := strconv.Atoi("0" + st.Get("next"))
			r.user(c, "C13/unlocked", "an event handler")
			r.must(c, st.Get("called") != "", "C13/when", "handler", "a handler is called outside the delivery of an event")
			r.must(c, k.typ == t, "C13/type", "handler", "a handler of another event type is called")
			r.must(c, st.GetV("fail") == nil, "C13/stop", "handler", "a handler is called after an earlier one failed")
			r.must(c, st.Get("undecodable") == "", "C13/undecodable", "handler", "a handler is called although the payload could not be decoded")
			r.must(c, i < len(seq) && seq[i].name == n, "C13/order", "handler", "handlers are not called once each in registration order")
			r.must(c, ctxHas(c.Args[0], r.ctxAt(c.St)), "C13/ctx", "handler", "a handler does not get the incoming context")
			r.checkArg(c, k.kind, c.Args[1], "C13")
			st.Set("next", strconv.Itoa(i+1))
			f := errSym("h:" + n)
			return []Outcome{
				{Ret: []Value{VNil{}}},
				{Ret: []Value{f}, Note: "the handler fails", Do: func(st *State) { st.SetV("fail", f) }},
				{Panic: &VSym{ID: "env:panic", Distinct: true, NonNil: true}, Note: "the handler panics", Do: func(st *State) { st.Set("panicked", "1") }},
			}
		}
		r.atEnd = func(in *Interp, st *State, p Value) {
			if p != nil {
				in.Check(st, st.Get("panicked") != "", "C13/panic", "end", 0, "delivering an event or registering a handler panics")
			}
		}
		judge := func(in *Interp, st *State) {
			seq := of[st.Get("evtype")]
			i, _ := strconv.Atoi("0" + st.Get("next"))
			res := st.GetV("res")
			if f := st.GetV("fail"); f != nil {
				in.Check(st, in.inChain(st, res, f), "C13/error", "end", 0, "the error of a handler is not returned")
				return
			}
			if st.Get("undecodable") != "" {
				t, _ := st.isNil(res)
				in.Check(st, t == no, "C13/undecodable", "end", 0, "a payload that cannot be decoded is not an error")
				in.Check(st, i < len(seq) && seq[i].kind != "raw", "C13/order", "end", 0, "handlers before the undecodable one are not called")
				return
			}
			t, _ := st.isNil(res)
			in.Check(st, t == yes, "C13/error", "end", 0, "an error is returned although no handler failed")
			in.Check(st, i == len(seq), "C13/all", "end", 0, "a registered handler is not called")
		}
		var ss []stepFn
		half := len(regs) / 2
		for i, k := range regs {
			if i == half {
				ss = append(ss, r.wireSteps(via)...)
			}
			ss = append(ss, callStep(e.Fn("RegisterEventHandler"), "reg"+strconv.Itoa(i), vals(r.etype(k.typ), r.handlerV(k))))
		}
		if len(regs) == 0 {
			ss = append(ss, r.wireSteps(via)...)
		}
		cbSig := e.T("DomainEventHandler").Underlying().(*types.Signature)
		for d := 1; d <= deliveries; d++ {
			d := d
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				r.next(st, d, "next", "undecodable", "fail")
				return r.pick(st)
			}, func(in *Interp, st *State, fr *Frame) []*State {
				in.Check(st, st.GetV("cb") != nil, "C13/registered", "RegisterEventBus", 0, "no callback is registered with the event bus")
				if st.GetV("cb") == nil {
					panic(stopReq{})
				}
				st.Set("called", "1")
				return in.CallValue(st, st.GetV("cb"), cbSig, "deliver", r.ctxAt(st), r.incoming(st, st.Get("evtype")))
			}, do(func(st *State, fr *Frame) {
				st.SetV("res", fr.loc["ret"])
				st.Set("called", "")
			}), func(in *Interp, st *State, fr *Frame) []*State { judge(in, st); return nil })
		}
		r.start(in, ss...)
	}
}

// scenChecker: checkers are registered, then the bus asks for an outcome.
func scenChecker(regs []reg, via string, deliveries int) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		r := newReg(e)
		r.wireBus()
		byType := map[string]reg{}
		for _, k := range regs {
			byType[k.typ] = k
		}
		status := func(k reg) types.Type {
			if strings.HasSuffix(k.name, "int") {
				return types.Typ[types.Int]
			}
			return r.t("TXStatus")
		}
		r.onCall["native:chk"] = func(c *CallCtx) []Outcome {
			n, _ := constString(c.FnV.(*VNative).B[0])
			var k reg
			for _, x := range regs {
				if x.name == n {
					k = x
				}
			}
			st := c.St
			r.user(c, "C14/unlocked", "a transaction checker")
			r.must(c, k.typ == st.Get("evtype"), "C14/type", "checker", "the checker of another event type is called")
			r.must(c, st.GetV("answer") == nil, "C14/once", "checker", "the checker is called twice")
			r.must(c, st.Get("undecodable") == "", "C14/undecodable", "checker", "the checker is called although the payload could not be decoded")
			r.checkArg(c, k.kind, c.Args[0], "C14")
			a := &VSym{ID: "env:answer", T: status(k), Distinct: true, NonNil: true}
			st.SetV("answer", a)
			return []Outcome{{Ret: []Value{a}}, {Panic: &VSym{ID: "env:panic", Distinct: true, NonNil: true}, Do: func(st *State) { st.Set("panicked", "1") }}}
		}
		rollback := e.P.constOf("", "TXRollBack")
		r.atEnd = func(in *Interp, st *State, p Value) {
			if p != nil {
				in.Check(st, st.Get("panicked") != "", "C14/panic", "end", 0, "asking for the outcome of a transactional event panics")
			}
		}
		judge := func(in *Interp, st *State) {
			res := st.GetV("res")
			k, ok := byType[st.Get("evtype")]
			if !ok || st.Get("undecodable") != "" {
				in.Check(st, st.GetV("answer") == nil, "C14/undecodable", "end", 0, "a checker is called although the event cannot be decoded or has none")
				t, _ := st.eq(res, rollback)
				in.Check(st, t == yes, "C14/default", "end", 0, "the answer is not rollback although no checker can answer")
				return
			}
			a := st.GetV("answer")
			in.Check(st, a != nil, "C14/called", "end", 0, "the registered checker is not called")
			if a != nil {
				in.Check(st, res != nil && stripIface(res).K() == a.K(), "C14/status", "end", 0, "the answer is not the status the checker returned ("+k.name+")")
			}
		}
		var ss []stepFn
		for i, k := range regs {
			v := &VIface{T: sig([]types.Type{r.argType(k.kind)}, status(k)), V: native("chk", cStr(k.name))}
			ss = append(ss, callStep(e.Fn("RegisterEventTXChecker"), "reg"+strconv.Itoa(i), vals(r.etype(k.typ), v)))
		}
		cbSig := e.T("DomainEventTXChecker").Underlying().(*types.Signature)
		ss = append(ss, r.wireSteps(via)...)
		for d := 1; d <= deliveries; d++ {
			d := d
			ss = append(ss,
				func(in *Interp, st *State, fr *Frame) []*State {
					r.next(st, d, "answer", "undecodable")
					return r.pick(st)
				}, func(in *Interp, st *State, fr *Frame) []*State {
					if st.GetV("txcb") == nil {
						// the bus does not support transactions
						b, ok := st.lookupFact(&VPred{Op: "is", X: r.bus(), T: r.t("ITransactionEventBus")})
						in.Check(st, ok && !b, "C14/registered", "RegisterEventBus", 0, "no transaction check is registered with a bus that supports it")
						panic(stopReq{})
					}
					return in.CallValue(st, st.GetV("txcb"), cbSig, "ask", r.incoming(st, st.Get("evtype")))
				}, do(func(st *State, fr *Frame) { st.SetV("res", fr.loc["ret"]) }), func(in *Interp, st *State, fr *Frame) []*State { judge(in, st); return nil })
		}
		r.start(in, ss...)
	}
}

// scenRefused: registrations that must be refused by a panic and leave no lock held.
func scenRefused(rule string, mk func(r *regEnv) []stepFn) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		r := newReg(e)
		r.wireBus()
		r.atEnd = func(in *Interp, st *State, p Value) {
			in.Check(st, p != nil, rule, "registration", 0, "a registration that must be refused is accepted")
		}
		r.start(in, mk(r)...)
	}
}

func registryScenarios() []*Scenario {
	var out []*Scenario
	rs := func(s string) []reg {
		var r []reg
		for i, p := range strings.Fields(s) {
			f := strings.Split(p, ":")
			k := reg{f[0], f[1], "h" + strconv.Itoa(i)}
			if len(f) > 2 {
				k.name += f[2]
			}
			r = append(r, k)
		}
		return r
	}
	for _, via := range []string{"engine", "run"} {
		out = append(out, &Scenario{Name: "router/" + via, Props: []string{"C13", "C40"}, Run: scenRouter(rs("T1:A T1:raw T2:B"), via, 1)},
			&Scenario{Name: "checker/" + via, Props: []string{"C14", "C40"}, Run: scenChecker(rs("T1:A T2:raw"), via, 1)})
	}
	for _, s := range []string{"", "T1:A", "T1:A T1:raw T1:B T2:raw", "T1:raw T2:A T1:raw T2:A T1:A T2:B"} {
		out = append(out, &Scenario{Name: "router/" + strings.ReplaceAll(s, " ", "+"), Props: []string{"C13", "C40"}, Run: scenRouter(rs(s), "", 2)})
	}
	for _, s := range []string{"", "T1:A", "T1:raw:int T2:A", "T1:A:int T2:raw"} {
		out = append(out, &Scenario{Name: "checker/" + strings.ReplaceAll(s, " ", "+"), Props: []string{"C14", "C40"}, Run: scenChecker(rs(s), "", 2)})
	}
	refuse := func(name, rule string, mk func(r *regEnv) []stepFn) {
		out = append(out, &Scenario{Name: "refuse/" + name, Props: []string{rule[:3], "C40"}, Run: scenRefused(rule, mk)})
	}
	chk := func(r *regEnv, s *types.Signature) stepFn {
		return callStep(r.e.Fn("RegisterEventTXChecker"), "reg"+s.String(), vals(r.etype("T1"), &VIface{T: s, V: native("chk", cStr("x"))}))
	}
	refuse("checker-twice", "C14/twice", func(r *regEnv) []stepFn {
		a := sig([]types.Type{r.argType("A")}, r.t("TXStatus"))
		b := sig([]types.Type{r.argType("B")}, r.t("TXStatus"))
		return []stepFn{chk(r, a), chk(r, b)}
	})
	refuse("checker-status", "C14/shape", func(r *regEnv) []stepFn {
		return []stepFn{chk(r, sig([]types.Type{r.argType("A")}, types.NewSlice(types.Typ[types.Int])))}
	})
	refuse("checker-args", "C14/shape", func(r *regEnv) []stepFn {
		return []stepFn{chk(r, sig([]types.Type{r.ctxT(), r.argType("A")}, r.t("TXStatus")))}
	})
	refuse("checker-nofunc", "C14/shape", func(r *regEnv) []stepFn {
		return []stepFn{callStep(r.e.Fn("RegisterEventTXChecker"), "reg", vals(r.etype("T1"), &VIface{T: types.Typ[types.Int], V: cInt(1)}))}
	})
	hreg := func(r *regEnv, v Value) []stepFn {
		return []stepFn{callStep(r.e.Fn("RegisterEventHandler"), "reg", vals(r.etype("T1"), v))}
	}
	refuse("handler-nofunc", "C13/shape", func(r *regEnv) []stepFn { return hreg(r, &VIface{T: types.Typ[types.Int], V: cInt(1)}) })
	refuse("handler-noctx", "C13/shape", func(r *regEnv) []stepFn {
		return hreg(r, &VIface{T: sig([]types.Type{types.Typ[types.Int], r.argType("A")}, errTypeT), V: native("h", cStr("x"))})
	})
	refuse("handler-noerr", "C13/shape", func(r *regEnv) []stepFn {
		return hreg(r, &VIface{T: sig([]types.Type{r.ctxT(), r.argType("A")}, types.Typ[types.Int]), V: native("h", cStr("x"))})
	})
	refuse("handler-value", "C13/shape", func(r *regEnv) []stepFn {
		return hreg(r, &VIface{T: sig([]types.Type{r.ctxT(), r.evtT["A"]}, errTypeT), V: native("h", cStr("x"))})
	})
	refuse("handler-args", "C13/shape", func(r *regEnv) []stepFn {
		return hreg(r, &VIface{T: sig([]types.Type{r.argType("A")}, errTypeT), V: native("h", cStr("x"))})
	})
	return out
}
