package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Event envelopes (C22): what NewDomainEvent, BaseEntity.AddEvent and the timer
// callback put into an envelope.

type evOpt string // a send type constant, "user" or "usertime"

type envel struct {
	*regEnv
	opts map[string][]evOpt
	same bool // one event is used for all envelopes
}

func newEnvel(e *Env) *envel {
	v := &envel{regEnv: newReg(e), opts: map[string][]evOpt{}}
	// what is fresh is what was made during the call that makes the envelope
	for _, k := range []string{"time.Now", "github.com/rs/xid.New"} {
		k := k
		v.onCall[k] = func(c *CallCtx) []Outcome {
			out := extModels[k](c)
			for i := range out {
				if len(out[i].Ret) == 1 {
					r := out[i].Ret[0]
					out[i].Do = func(st *State) { st.SetV("made:"+st.Get("making")+":"+k+":"+r.K(), r) }
				}
			}
			return out
		}
	}
	v.onCall["encoding/json.Marshal"] = func(c *CallCtx) []Outcome {
		out := extModels["encoding/json.Marshal"](c)
		for i := range out {
			if len(out[i].Ret) == 2 {
				if _, ok := out[i].Ret[1].(VNil); !ok {
					out[i].Do = func(st *State) { st.Set("unencodable", "1") }
				}
			}
		}
		return out
	}
	for _, m := range []string{"GetType", "GetSender"} {
		m := m
		v.onCall[imeth("IEvent", m)] = func(c *CallCtx) []Outcome {
			v.user(c, "", "an event")
			return ret(v.evField(stripIface(c.Recv), m))
		}
	}
	v.onCall["native:evopt"] = func(c *CallCtx) []Outcome {
		o, _ := constString(c.FnV.(*VNative).B[0])
		p, ok := c.Args[0].(VPtr)
		v.must(c, ok, "C22/option", "option", "an event option is not given the options of the envelope")
		if !ok {
			return ret()
		}
		return []Outcome{{Do: func(st *State) {
			if o == "user" {
				st.storeCell(p.O, p.P+".SendType", v.t("SendType"), v.sendType(evOpt(o)))
			}
			st.storeCell(p.O, p.P+".SendTime", v.timeT(), &VSym{ID: "env:sendtime", T: v.timeT(), Distinct: true, NonNil: true})
		}}}
	}
	return v
}

func (v *envel) timeT() types.Type {
	s := v.t("DomainEvent").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "CreatedAt" {
			return s.Field(i).Type()
		}
	}
	panic(missing{"DomainEvent.CreatedAt"})
}

func (v *envel) evField(ev Value, m string) Value {
	t := types.Type(types.Typ[types.String])
	if m == "GetType" {
		t = v.t("EventType")
	}
	return &VSym{ID: "env:" + m + ":" + ev.K(), T: t, Distinct: true, NonNil: true}
}

// event is a business event of the user.
func (v *envel) event(n string) *VSym {
	if v.same {
		n = "0"
	}
	return &VSym{ID: "env:ev" + n, T: types.NewPointer(v.e.envType("UserEvent", types.NewStruct(nil, nil), methodsOf(v.t("IEvent"))...)), Distinct: true, NonNil: true}
}

func (v *envel) ievent(n string) Value {
	s := v.event(n)
	return &VIface{T: s.T, V: s}
}

func (v *envel) sendType(o evOpt) Value {
	if o == "user" {
		return &VSym{ID: "env:usersendtype", T: v.t("SendType"), Distinct: true, NonNil: true}
	}
	return v.e.P.constOf("", "SendType"+string(o))
}

func (v *envel) wantType(os []evOpt) Value {
	w := v.sendType("Normal")
	for _, o := range os {
		if o != "usertime" {
			w = v.sendType(o)
		}
	}
	return w
}

// optsStep makes the option list of one envelope.
func (v *envel) optsStep(name string, os []evOpt) []stepFn {
	var ss []stepFn
	for i, o := range os {
		k := name + "o" + strconv.Itoa(i)
		o := o
		if o == "user" || o == "usertime" {
			ss = append(ss, do(func(st *State, fr *Frame) { fr.loc[k] = native("evopt", cStr(string(o))) }))
			continue
		}
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, v.e.Fn("WithSendType"), k, v.sendType(o))
		}, keep(k))
	}
	return append(ss, do(func(st *State, fr *Frame) {
		var vs []Value
		for i := range os {
			vs = append(vs, fr.loc[name+"o"+strconv.Itoa(i)])
		}
		if len(vs) == 0 {
			fr.loc[name+"opts"] = VNil{}
			return
		}
		fr.loc[name+"opts"] = st.slice(name+"opts", sliceOf(v.t("EventOpt")), vs...)
	}))
}

// check compares one envelope with the event it was made from.
func (v *envel) check(in *Interp, st *State, name string, d Value, ev Value, typ, sender, payload Value, os []evOpt) {
	p, ok := d.(VPtr)
	in.Check(st, ok, "C22/envelope", "NewDomainEvent", 0, "no envelope is made of an event")
	if !ok {
		return
	}
	f := func(n string) Value { return field(st, p, v.t("DomainEvent"), n) }
	same := func(n string, want Value, rule, msg string) {
		t, _ := st.eq(stripIface(f(n)), stripIface(want))
		in.Check(st, t == yes, rule, "NewDomainEvent", 0, msg)
	}
	same("Type", typ, "C22/type", "the envelope does not carry the type of the event")
	same("Sender", sender, "C22/sender", "the envelope does not carry the sender of the event")
	same("SendType", v.wantType(os), "C22/sendtype", "the envelope does not carry the send type the options ask for (normal by default)")
	if payload != nil {
		in.Check(st, f("Payload").K() == payload.K(), "C22/payload", "NewDomainEvent", 0, "the payload of the envelope is not the encoding of the event")
	}
	now := f("CreatedAt")
	in.Check(st, st.GetV("made:"+name+":time.Now:"+now.K()) != nil, "C22/created", "NewDomainEvent", 0, "the creation time of the envelope is not the time it was made")
	fresh := wholeID(f("ID"), func(s *VSym) bool {
		return st.GetV("made:"+name+":github.com/rs/xid.New:"+s.K()) != nil && !s.Sum
	})
	in.Check(st, fresh, "C22/id", "NewDomainEvent", 0, "the envelope has no fresh identity")
}

// wholeID: does the text hold the whole of a fresh ID? A piece of an ID is not unique.
func wholeID(v Value, made func(*VSym) bool) bool {
	switch x := v.(type) {
	case *VSym:
		return made(x)
	case *VIface:
		return wholeID(x.V, made)
	case *VStruct:
		for _, f := range x.F {
			if wholeID(f, made) {
				return true
			}
		}
	case *VApp:
		switch {
		case x.F == "idstr", x.F == "sprintf", x.F == "op+", strings.HasPrefix(x.F, "as:"), strings.HasPrefix(x.F, "conv:"), x.F == "fmt.Sprint",
			x.F == "strings.ToUpper", x.F == "strings.ToLower", x.F == "strings.Join":
			for _, a := range x.Args {
				if wholeID(a, made) {
					return true
				}
			}
		}
	}
	return false
}

func field(st *State, p VPtr, t types.Type, n string) Value {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return st.loadCell(p.O, p.P+"."+n, s.Field(i).Type())
		}
	}
	panic(missing{typeKey(t) + "." + n})
}

func jsonOf(v Value, t types.Type) Value {
	return &VApp{F: "json", Args: []Value{v}, T: t, NonNil: true}
}

func (v *envel) std(in *Interp, st *State, n string, d Value) {
	ev := v.event(n)
	v.check(in, st, n, d, ev, v.evField(ev, "GetType"), v.evField(ev, "GetSender"), jsonOf(ev, nil), v.opts[n])
}

// refused: the only reason for a panic is an event that cannot be encoded.
func (v *envel) refused(in *Interp, st *State, p Value) bool {
	bad := st.Get("unencodable") != ""
	in.Check(st, !bad || p != nil, "C22/encodable", "NewDomainEvent", 0, "an event that cannot be encoded is not refused")
	in.Check(st, bad || p == nil, "C22/panic", "NewDomainEvent", 0, "making an envelope panics although the event can be encoded")
	return bad || p != nil
}

func scenEnvelope(lists [][]evOpt, same bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		v := newEnvel(e)
		v.same = same
		v.atEnd = func(in *Interp, st *State, p Value) { v.refused(in, st, p) }
		var ss []stepFn
		for i, os := range lists {
			n := strconv.Itoa(i)
			v.opts[n] = os
			ss = append(ss, v.optsStep(n, os)...)
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				st.Set("making", n)
				return in.CallFn(st, e.Fn("NewDomainEvent"), "make"+n, v.ievent(n), fr.loc[n+"opts"])
			}, do(func(st *State, fr *Frame) { fr.loc["d"+n] = fr.loc["ret"] }))
		}
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			in.Check(st, st.Get("unencodable") == "", "C22/encodable", "NewDomainEvent", 0, "an event that cannot be encoded is not refused")
			for i := range lists {
				n := strconv.Itoa(i)
				v.std(in, st, n, fr.loc["d"+n])
				for j := 0; j < i; j++ {
					t, _ := st.eq(fr.loc["d"+n], fr.loc["d"+strconv.Itoa(j)])
					in.Check(st, t == no, "C22/envelope", "NewDomainEvent", 0, "two events share one envelope")
				}
			}
			return nil
		})
		v.start(in, ss...)
	}
}

// scenAddEvent: events are added to an entity one after the other.
func scenAddEvent(lists [][]evOpt, same bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		v := newEnvel(e)
		v.same = same
		v.atEnd = func(in *Interp, st *State, p Value) { v.refused(in, st, p) }
		base := e.T("BaseEntity")
		add, get := e.M("", "BaseEntity", "AddEvent"), e.M("", "BaseEntity", "GetEvents")
		ent := VPtr{"H:ent", ""}
		newE := func(st *State, id string) {
			st.heap[id] = &Obj{Kind: "cells", T: base, Cells: map[string]Value{}}
		}
		ss := []stepFn{do(func(st *State, fr *Frame) { newE(st, "H:ent"); newE(st, "H:ent2") })}
		for i, os := range lists {
			i, n := i, strconv.Itoa(i)
			v.opts[n] = os
			ss = append(ss, v.optsStep(n, os)...)
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				st.Set("making", n)
				return in.CallFn(st, add, "add"+n, ent, v.ievent(n), fr.loc[n+"opts"])
			}, func(in *Interp, st *State, fr *Frame) []*State {
				in.Check(st, st.Get("unencodable") == "", "C22/encodable", "AddEvent", 0, "an event that cannot be encoded is not refused")
				return in.CallFn(st, get, "get"+n, ent)
			}, func(in *Interp, st *State, fr *Frame) []*State {
				es, exact := in.variadic(st, fr.loc["ret"], nil)
				in.Check(st, exact && len(es) == i+1, "C22/append", "AddEvent", 0, fmt.Sprintf("adding an event leaves %d envelopes instead of %d", len(es), i+1))
				if !exact || len(es) != i+1 {
					panic(stopReq{})
				}
				for j := 0; j < i; j++ {
					in.Check(st, es[j].K() == fr.loc["e"+strconv.Itoa(j)].K(), "C22/append", "AddEvent", 0, "an envelope added earlier is lost or moved")
				}
				fr.loc["e"+n] = es[i]
				for j := 0; j <= i; j++ {
					v.std(in, st, strconv.Itoa(j), es[j])
				}
				return in.CallFn(st, get, "get2"+n, VPtr{"H:ent2", ""})
			}, func(in *Interp, st *State, fr *Frame) []*State {
				es, exact := in.variadic(st, fr.loc["ret"], nil)
				in.Check(st, exact && len(es) == 0, "C22/append", "AddEvent", 0, "an event is added to another entity too")
				return nil
			})
		}
		v.start(in, ss...)
	}
}

// timerFire is an engine built on a timer whose job fires; the envelope reaches
// a handler of raw envelopes and one of timer events.
func scenTimerEvent(viaRun bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		v := newEnvel(e)
		v.wireBus()
		key := &VSym{ID: "env:key", T: types.Typ[types.String], Distinct: true, NonNil: true}
		cron := &VSym{ID: "env:cron", T: types.Typ[types.String], Distinct: true, NonNil: true}
		data := &VSym{ID: "env:data", T: types.NewSlice(types.Typ[types.Byte]), Distinct: true, NonNil: true}
		v.onCall[imeth("ITimer", "RegisterTimerHandler")] = func(c *CallCtx) []Outcome {
			if s, ok := stripIface(c.Recv).(*VSym); ok {
				c.St.SetV("timercb:"+s.ID, c.Args[0])
			}
			return ret()
		}
		raw := v.argType("raw")
		tev := types.NewPointer(v.t("TimerEvent"))
		hs := func(name string, t types.Type) Value {
			return &VIface{T: sig([]types.Type{v.ctxT(), t}, errTypeT), V: native("th", cStr(name))}
		}
		v.onCall["native:th"] = func(c *CallCtx) []Outcome {
			n, _ := constString(c.FnV.(*VNative).B[0])
			st := c.St
			v.must(c, st.Get("firing") != "", "C22/when", "handler", "a handler of a timer's key is called before the timer fires")
			v.must(c, st.Get("seen:"+n) == "", "C22/once", "handler", "a handler is called twice for one tick")
			st.Set("seen:"+n, "1")
			v.must(c, ctxHas(c.Args[0], v.ctx()), "C22/ctx", "handler", "a handler of a timer's key does not get the timer's context")
			p, ok := stripIface(c.Args[1]).(VPtr)
			v.must(c, ok, "C22/tick", "handler", "a handler of a timer's key gets no event")
			if ok && n == "raw" {
				v.check(c.In, st, "tick", p, nil, key, cStr(""), nil, nil)
				pay := field(st, p, v.t("DomainEvent"), "Payload")
				good := false
				if a, ok := pay.(*VApp); ok && a.F == "json" {
					if s, ok := a.Args[0].(*VStruct); ok && types.Identical(s.T, v.t("TimerEvent")) {
						good = structHas(s, map[string]Value{"Key": key, "Cron": cron, "Payload": data})
					}
				}
				v.must(c, good, "C22/payload", "handler", "the payload of a timer's envelope is not the encoding of its key, schedule and data")
			} else if ok {
				for f, want := range map[string]Value{"Key": key, "Cron": cron, "Payload": data} {
					v.must(c, field(st, p, v.t("TimerEvent"), f).K() == want.K(), "C22/tick", "handler", "a handler of timer events does not get the "+f+" of the timer")
				}
			}
			f := errSym("th:" + n)
			return []Outcome{{Ret: []Value{VNil{}}}, {Ret: []Value{f}, Do: func(st *State) { st.SetV("fail", f) }}}
		}
		v.atEnd = func(in *Interp, st *State, p Value) {
			if p != nil {
				in.Check(st, st.Get("unencodable") != "", "C22/panic", "onTimer", 0, "the tick of a timer panics")
				return
			}
			res := st.GetV("res")
			if f := st.GetV("fail"); f != nil {
				in.Check(st, in.inChain(st, res, f), "C22/error", "onTimer", 0, "the error of a handler is not returned to the timer")
				return
			}
			if st.Get("undecodable") != "" {
				return
			}
			t, _ := st.isNil(res)
			in.Check(st, t == yes, "C22/error", "onTimer", 0, "an error is returned to the timer although no handler failed")
			in.Check(st, st.Get("seen:raw") != "" && st.Get("seen:timer") != "", "C22/tick", "onTimer", 0, "the tick of a timer does not reach the handlers of its key")
		}
		timerV := func(n string) Value { return v.env(n, v.t("ITimer")) }
		use := "timer1"
		reg := e.Fn("RegisterEventHandler")
		ss := []stepFn{
			callStep(reg, "regraw", vals(key, hs("raw", raw))),
			callStep(reg, "regtimer", vals(key, hs("timer", tev))),
			callStep(e.Fn("WithTimer"), "withtimer", vals(timerV("timer1"))),
			func(in *Interp, st *State, fr *Frame) []*State {
				o := st.slice("opts", sliceOf(v.t("Option")), &VIface{T: e.Fn("WithTimer").Signature.Results().At(0).Type(), V: fr.loc["ret"]})
				return in.CallFn(st, e.Fn("NewEngine"), "engine", v.env("locker", v.t("ILock")), v.env("exec", v.t("IExecutor")), o)
			}, keep("engine"),
		}
		if viaRun {
			use = "timer2"
			ss = append(ss, callStep(e.Fn("WithTimer"), "withtimer2", vals(timerV("timer2"))),
				keep("opt"),
				func(in *Interp, st *State, fr *Frame) []*State {
					return in.CallFn(st, e.M("", "Engine", "NewStage"), "stage", fr.loc["engine"])
				}, func(in *Interp, st *State, fr *Frame) []*State {
					o := st.slice("opts2", sliceOf(v.t("Option")), &VIface{T: e.Fn("WithTimer").Signature.Results().At(0).Type(), V: fr.loc["opt"]})
					return in.CallFn(st, e.M("", "Stage", "WithOption"), "withopt", fr.loc["ret"], o)
				})
		}
		cbSig := v.t("TimerHandler").Underlying().(*types.Signature)
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			cb := st.GetV("timercb:env:" + use)
			in.Check(st, cb != nil, "C22/registered", "NewEngine", 0, "no callback is registered with the timer")
			if cb == nil {
				panic(stopReq{})
			}
			st.Set("firing", "1")
			st.Set("making", "tick")
			return in.CallValue(st, cb, cbSig, "fire", v.ctx(), key, cron, data)
		}, do(func(st *State, fr *Frame) { st.SetV("res", fr.loc["ret"]); st.Set("firing", "") }))
		v.start(in, ss...)
	}
}

func structHas(s *VStruct, want map[string]Value) bool {
	u := s.T.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		if w, ok := want[u.Field(i).Name()]; ok && s.F[i].K() == w.K() {
			n++
		}
	}
	return n == len(want)
}

func eventScenarios() []*Scenario {
	var out []*Scenario
	parse := func(s string) (r [][]evOpt) {
		for _, l := range strings.Split(s, ";") {
			var os []evOpt
			for _, f := range strings.Fields(l) {
				os = append(os, evOpt(f))
			}
			r = append(r, os)
		}
		return
	}
	for _, s := range []string{"", "FIFO;", "Transaction;FIFO Delay;LaxFIFO Normal", "user;usertime;usertime FIFO;Delay usertime"} {
		n := strings.ReplaceAll(s, " ", "+")
		for _, same := range []bool{false, true} {
			if same {
				n += "/same"
			}
			out = append(out, &Scenario{Name: "envelope/new/" + n, Props: []string{"C22"}, Run: scenEnvelope(parse(s), same)},
				&Scenario{Name: "envelope/add/" + n, Props: []string{"C22"}, Run: scenAddEvent(parse(s), same)})
		}
	}
	out = append(out, &Scenario{Name: "envelope/timer", Props: []string{"C22"}, Run: scenTimerEvent(false)},
		&Scenario{Name: "envelope/timer-run", Props: []string{"C22"}, Run: scenTimerEvent(true)})
	return out
}
