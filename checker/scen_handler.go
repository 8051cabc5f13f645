package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Handlers and scheduled tasks of an engine (C46): commands constructed from
// events, and functions and commands that a timer starts.

type handlerReg struct {
	eng  string // which engine
	typ  string // event type
	kind string // A, B or raw
	res  string // what the construct returns: main, cmd, icmd, func, lit
}

type handlerEnv struct {
	*envel
	regs    []handlerReg
	noTimer bool
}

func (h *handlerEnv) cmdType(res string) types.Type {
	switch res {
	case "main":
		return types.NewPointer(h.e.envType("HMain", types.NewStruct(nil, nil), methodsOf(h.t("ICommandMain"))...))
	case "cmd":
		return types.NewPointer(h.e.envType("HCmd", types.NewStruct(nil, nil), methodsOf(h.t("ICommand"))...))
	case "icmd":
		return h.t("ICommand")
	case "func":
		return h.t("MainFunc")
	}
	return h.t("MainFunc").Underlying()
}

// command is what construct i returns.
func (h *handlerEnv) command(i int) Value {
	n := strconv.Itoa(i)
	switch res := h.regs[i].res; res {
	case "main", "cmd":
		return &VSym{ID: "env:hcmd" + n, T: h.cmdType(res), Distinct: true, NonNil: true}
	case "icmd":
		t := h.cmdType("cmd")
		return &VIface{T: t, V: &VSym{ID: "env:hcmd" + n, T: t, Distinct: true, NonNil: true}}
	default:
		return native("hmain", cStr(n))
	}
}

func newHandler(e *Env, regs []handlerReg) *handlerEnv {
	h := &handlerEnv{envel: newEnvel(e), regs: regs}
	h.wireBus()
	h.decide = func(st *State, p *VPred) tri {
		if s, ok := p.X.(*VSym); ok && p.Op == "is" && strings.HasPrefix(s.ID, "env:") && s.ID != "env:bus" {
			return no
		}
		return unknown
	}
	h.onCall[imeth("ITimer", "RegisterTimerHandler")] = func(c *CallCtx) []Outcome {
		c.St.SetV("timercb", c.Args[0])
		return ret()
	}
	h.onCall["native:construct"] = func(c *CallCtx) []Outcome {
		n, _ := constString(c.FnV.(*VNative).B[0])
		i, _ := strconv.Atoi(n)
		st := c.St
		h.user(c, "C46/unlocked", "a command constructor")
		h.must(c, st.Get("called") != "", "C46/when", "construct", "a command is constructed outside the delivery of an event")
		h.must(c, regs[i].typ == st.Get("evtype"), "C46/type", "construct", "a command is constructed for an event of another type")
		h.must(c, st.Get("constructed:"+n) == "", "C46/once", "construct", "two commands are constructed for one event")
		h.must(c, st.GetV("fail") == nil && st.Get("undecodable") == "", "C46/stop", "construct", "a command is constructed after an earlier one failed or although the event cannot be decoded")
		h.checkArg(c, regs[i].kind, c.Args[0], "C46")
		st.Set("constructed:"+n, "1")
		return ret(h.command(i))
	}
	idx := func(v Value) string {
		if s, ok := stripIface(v).(*VSym); ok {
			return strings.TrimPrefix(s.ID, "env:hcmd")
		}
		return "?"
	}
	main := func(c *CallCtx, n string) []Outcome {
		i, err := strconv.Atoi(n)
		h.must(c, err == nil, "C46/command", "the command", "something else is run than the constructed command")
		if err != nil {
			panic(stopReq{})
		}
		st := c.St
		h.must(c, st.Get("constructed:"+n) == "1" && st.Get("ran:"+n) == "", "C46/command", "the command", "a constructed command does not run exactly once")
		h.must(c, ctxHas(c.Args[0], h.ctxAt(c.St)), "C46/ctx", "the command", "the command does not get the context of the event")
		st.Set("ran:"+n, "1")
		st.Set("eng:"+n, "")
		st.Set("running", n)
		f := errSym("hcmd" + n)
		brk := h.e.Global("", "ErrBreak")
		_ = i
		return []Outcome{
			{Ret: []Value{VNil{}}, Do: func(st *State) { st.Set("ended:"+n, "ok") }},
			{Ret: []Value{f}, Note: "the command fails", Do: func(st *State) { st.SetV("fail", f); st.Set("ended:"+n, "fail") }},
			{Ret: []Value{brk}, Note: "the command breaks off", Do: func(st *State) { st.Set("ended:"+n, "break") }},
		}
	}
	h.onCall["native:hmain"] = func(c *CallCtx) []Outcome {
		n, _ := constString(c.FnV.(*VNative).B[0])
		return main(c, n)
	}
	h.onCall[imeth("ICommandMain", "Main")] = func(c *CallCtx) []Outcome { return main(c, idx(c.Recv)) }
	h.onCall[imeth("ICommand", "Init")] = func(c *CallCtx) []Outcome {
		h.must(c, ctxHas(c.Args[0], h.ctxAt(c.St)), "C46/ctx", "the command", "the command does not get the context of the event")
		return ret(VNil{}, VNil{})
	}
	h.onCall[imeth("ICommand", "Build")] = func(c *CallCtx) []Outcome { return ret(VNil{}, VNil{}) }
	h.onCall[imeth("ICommand", "Act")] = func(c *CallCtx) []Outcome { return main(c, idx(c.Recv)) }
	h.onCall[imeth("ICommand", "PostSave")] = noop
	// the engine's own hook tells on which engine the command ran
	h.onCall["native:enghook"] = func(c *CallCtx) []Outcome {
		n, _ := constString(c.FnV.(*VNative).B[0])
		r := c.St.Get("running")
		c.St.Set("eng:"+r, c.St.Get("eng:"+r)+n)
		return ret()
	}
	h.onCall["native:engexec"] = noop
	for _, m := range []string{"Begin", "Commit", "RollBack"} {
		m := m
		h.onCall[imeth("ITransaction", m)] = func(c *CallCtx) []Outcome {
			if m == "Begin" {
				return ret(&VApp{F: "ctxtx", Args: []Value{c.Args[0]}, T: h.ctxT(), NonNil: true}, VNil{})
			}
			return ret(VNil{})
		}
	}
	return h
}

// engineSteps build an engine with a timer and a hook that names it.
func (h *handlerEnv) engineSteps(n string) []stepFn {
	var ss []stepFn
	opt := func(f string, v Value) {
		fn := h.e.Fn(f)
		ss = append(ss, callStep(fn, f+n, vals(v)), do(func(st *State, fr *Frame) {
			o, _ := fr.loc["o"+n].(*VTuple)
			if o == nil {
				o = &VTuple{}
			}
			fr.loc["o"+n] = &VTuple{append(append([]Value(nil), o.V...), &VIface{T: fn.Signature.Results().At(0).Type(), V: fr.loc["ret"]})}
		}))
	}
	opt("WithEventBus", h.bus())
	if !h.noTimer {
		opt("WithTimer", h.env("timer"+n, h.t("ITimer")))
	}
	opt("WithPostSave", native("enghook", cStr(n)))
	return append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		o := st.slice("o"+n, sliceOf(h.t("Option")), fr.loc["o"+n].(*VTuple).V...)
		return in.CallFn(st, h.e.Fn("NewEngine"), "engine"+n, h.env("locker"+n, h.t("ILock")), h.env("exec"+n, h.t("IExecutor")), o)
	}, do(func(st *State, fr *Frame) { st.SetV("engine:"+n, fr.loc["ret"]) }))
}

func (h *handlerEnv) construct(i int) Value {
	k := h.regs[i]
	return &VIface{T: sig([]types.Type{h.argType(k.kind)}, h.cmdType(k.res)), V: native("construct", cStr(strconv.Itoa(i)))}
}

func scenHandlers(engines []string, regs []handlerReg, deliveries int) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		h := newHandler(e, regs)
		of := func(t string) (is []int) {
			for i, k := range regs {
				if k.typ == t {
					is = append(is, i)
				}
			}
			return
		}
		h.atEnd = func(in *Interp, st *State, p Value) {
			ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "Engine.RegisterEventHandler", 0, msg) }
			ck(p == nil, "C46/panic", "delivering an event to an engine's handler panics")
		}
		judge := func(in *Interp, st *State) {
			ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "Engine.RegisterEventHandler", 0, msg) }
			is := of(st.Get("evtype"))
			res := st.GetV("res")
			stopped := false
			for _, i := range is {
				n := strconv.Itoa(i)
				if stopped {
					ck(st.Get("constructed:"+n) == "", "C46/stop", "a command is constructed after an earlier one failed")
					continue
				}
				if st.Get("constructed:"+n) == "" {
					ck(st.Get("undecodable") != "" && regs[i].kind != "raw", "C46/all", "no command is constructed for an event")
					stopped = true
					continue
				}
				ck(st.Get("ran:"+n) == "1", "C46/command", "a constructed command is not run")
				switch st.Get("ended:" + n) {
				case "fail":
					ck(in.inChain(st, res, errSym("hcmd"+n)), "C46/error", "the error of a command is not returned to the event bus")
					ck(st.Get("eng:"+n) == "", "C46/engine", "the hooks of the engine are called for a failed command")
					stopped = true
				case "ok":
					ck(st.Get("eng:"+n) == regs[i].eng, "C46/engine", "a command is not run once on the engine it was registered with")
				}
			}
			t, _ := st.isNil(res)
			if stopped {
				ck(t == no, "C46/error", "a failure is not returned to the event bus")
			} else {
				ck(t == yes, "C46/error", "an error is returned to the event bus although nothing failed")
			}
		}
		var ss []stepFn
		for _, n := range engines {
			ss = append(ss, h.engineSteps(n)...)
		}
		for i, k := range regs {
			i, k := i, k
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Engine", "RegisterEventHandler"), "hreg"+strconv.Itoa(i), st.GetV("engine:"+k.eng), h.etype(k.typ), h.construct(i))
			})
		}
		cbSig := e.T("DomainEventHandler").Underlying().(*types.Signature)
		for d := 1; d <= deliveries; d++ {
			d := d
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				ks := []string{"undecodable", "fail"}
				for i := range regs {
					n := strconv.Itoa(i)
					ks = append(ks, "constructed:"+n, "ran:"+n, "ended:"+n, "eng:"+n)
				}
				h.next(st, d, ks...)
				return h.pick(st)
			}, func(in *Interp, st *State, fr *Frame) []*State {
				if st.GetV("cb") == nil {
					in.Check(st, false, "C46/wired", "NewEngine", 0, "no callback is registered with the event bus")
					panic(stopReq{})
				}
				st.Set("called", "1")
				return in.CallValue(st, st.GetV("cb"), cbSig, "deliver", h.ctxAt(st), h.incoming(st, st.Get("evtype")))
			}, do(func(st *State, fr *Frame) { st.SetV("res", fr.loc["ret"]); st.Set("called", "") }), func(in *Interp, st *State, fr *Frame) []*State { judge(in, st); return nil })
		}
		h.start(in, ss...)
	}
}

// scenCron: a task is scheduled on an engine's timer and its ticks arrive.
func scenCron(form string, early bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		regs := []handlerReg{{eng: "1", typ: "job", res: "icmd"}}
		h := newHandler(e, regs)
		cron := h.env("cron", types.Typ[types.String])
		tickCron := h.env("tickcron", types.Typ[types.String])
		data := &VSym{ID: "env:data", T: types.NewSlice(types.Typ[types.Byte]), Distinct: true, NonNil: true}
		cbSig := e.T("TimerHandler").Underlying().(*types.Signature)
		fire := func(in *Interp, st *State, site string) []*State {
			cb := st.GetV("timercb")
			in.Check(st, cb != nil, "C46/wired", "NewEngine", 0, "no callback is registered with the timer")
			if cb == nil {
				panic(stopReq{})
			}
			st.Set("ticking", "1")
			st.Set("making", "tick")
			return in.CallValue(st, cb, cbSig, site, h.ctx(), cStr("job"), tickCron, data)
		}
		// the outcome of one tick
		after := func(in *Interp, st *State, res Value) {
			ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "cron task", 0, msg) }
			st.Set("ticking", "")
			if st.Get("unencodable") != "" || st.Get("undecodable") != "" {
				return
			}
			ck(st.Get("called") == "1", "C46/tick", "a tick of the timer does not call the task exactly once")
			t, _ := st.isNil(res)
			if f := st.GetV("fail"); f != nil {
				ck(in.inChain(st, res, f), "C46/error", "the error of a scheduled command is not returned to the timer")
			} else {
				ck(t == yes, "C46/error", "an error is returned to the timer although the task did not fail")
			}
			if form == "command" {
				ck(st.Get("ran:0") == "1", "C46/command", "the command of a scheduled task is not run")
				if st.Get("ended:0") == "ok" {
					ck(st.Get("eng:0") == "1", "C46/engine", "a scheduled command is not run on its engine")
				}
			}
		}
		h.onCall["native:task"] = func(c *CallCtx) []Outcome {
			st := c.St
			h.user(c, "C46/unlocked", "a scheduled task")
			h.must(c, st.Get("ticking") != "", "C46/when", "task", "a scheduled task is called before the timer fires")
			h.must(c, len(c.Args) == 2 && c.Args[0].K() == cStr("job").K() && c.Args[1].K() == tickCron.K(), "C46/args", "task", "a scheduled task does not get the key and schedule of the tick")
			st.Set("called", st.Get("called")+"1")
			if form == "command" {
				st.Set("constructed:0", "1")
				return ret(h.command(0))
			}
			return ret()
		}
		h.onCall[imeth("ITimer", "RunCron")] = func(c *CallCtx) []Outcome {
			st := c.St
			h.user(c, "", "the timer")
			s, ok := stripIface(c.Recv).(*VSym)
			h.must(c, ok && s.ID == "env:timer1", "C46/timer", "RunCron", "the task is scheduled on a timer that is not the engine's")
			t, _ := st.eq(c.Args[0], cStr("job"))
			h.must(c, t == yes && c.Args[1].K() == cron.K(), "C46/schedule", "RunCron", "the task is not scheduled with its key and schedule")
			h.must(c, st.Get("scheduled") == "", "C46/schedule", "RunCron", "the task is scheduled twice")
			st.Set("scheduled", "1")
			bad := Outcome{Ret: []Value{errSym("RunCron")}, Note: "the timer refuses", Do: func(st *State) { st.Set("refused", "1") }}
			if early {
				// the timer fires before the call returns
				return []Outcome{{Script: steps(func(in *Interp, st *State, fr *Frame) []*State { return fire(in, st, "early") },
					func(in *Interp, st *State, fr *Frame) []*State {
						after(in, st, fr.loc["ret"])
						return fr.finish(VNil{})
					}), Loc: map[string]Value{}}, bad}
			}
			return []Outcome{{Ret: []Value{VNil{}}}, bad}
		}
		h.atEnd = func(in *Interp, st *State, p Value) {
			ck := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "cron task", 0, msg) }
			if st.Get("unencodable") != "" {
				return
			}
			if st.Get("refused") != "" {
				ck(p != nil, "C46/refused", "a schedule the timer refuses is not reported")
				return
			}
			ck(p == nil, "C46/panic", "scheduling or running a task panics")
			ck(st.Get("scheduled") == "1", "C46/schedule", "the task is not scheduled")
		}
		name := "RegisterCronTask"
		f := Value(native("task"))
		if form == "command" {
			name = "RegisterCronTaskOfCommand"
		}
		ss := h.engineSteps("1")
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, e.M("", "Engine", name), "cron", st.GetV("engine:1"), h.etype("job"), cron, f)
		})
		if !early {
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				in.Check(st, st.Get("called") == "", "C46/when", "cron task", 0, "a scheduled task is called before the timer fires")
				return fire(in, st, "fire")
			}, func(in *Interp, st *State, fr *Frame) []*State {
				after(in, st, fr.loc["ret"])
				return nil
			})
		}
		h.start(in, ss...)
	}
}

// scenHandlerRefused: registrations an engine has to refuse.
func scenHandlerRefused(rule string, mk func(h *handlerEnv) []stepFn) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		h := newHandler(e, []handlerReg{{eng: "1", typ: "job", kind: "A", res: "main"}})
		h.noTimer = rule == "C46/notimer"
		h.onCall[imeth("ITimer", "RunCron")] = func(c *CallCtx) []Outcome {
			h.must(c, c.St.Get("second") == "", rule, "RunCron", "a task whose key is taken is scheduled")
			return ret(VNil{})
		}
		h.onCall["native:task"] = noopFresh
		h.atEnd = func(in *Interp, st *State, p Value) {
			in.Check(st, p != nil && st.Get("second") != "", rule, "registration", 0, "a registration that must be refused is accepted")
		}
		h.start(in, append(h.engineSteps("1"), mk(h)...)...)
	}
}

func handlerScenarios() []*Scenario {
	var out []*Scenario
	add := func(name string, run func(e *Env, in *Interp)) {
		out = append(out, &Scenario{Name: "handler/" + name, Props: []string{"C46", "C40"}, Run: run})
	}
	for _, s := range []string{"1:T1:A:main", "1:T1:raw:cmd", "1:T1:A:icmd", "1:T1:B:func", "1:T1:A:lit", "1:T1:A:main 2:T1:raw:func 1:T2:B:cmd", "1:T1:A:func 1:T1:A:main", "2:T2:A:cmd 1:T2:A:cmd"} {
		var regs []handlerReg
		for _, f := range strings.Fields(s) {
			p := strings.Split(f, ":")
			regs = append(regs, handlerReg{p[0], p[1], p[2], p[3]})
		}
		add(strings.ReplaceAll(s, " ", "+"), scenHandlers([]string{"1", "2"}, regs, 3-min(2, len(regs))))
	}
	for _, f := range []string{"func", "command"} {
		add("cron-"+f, scenCron(f, false))
		add("cron-"+f+"-early", scenCron(f, true))
	}
	refuse := func(name, rule string, mk func(h *handlerEnv) []stepFn) {
		add("refuse-"+name, scenHandlerRefused(rule, mk))
	}
	second := do(func(st *State, fr *Frame) { st.Set("second", "1") })
	regStep := func(h *handlerEnv, v Value) stepFn {
		return func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, h.e.M("", "Engine", "RegisterEventHandler"), "hreg"+v.K(), st.GetV("engine:1"), h.etype("job"), v)
		}
	}
	cronStep := func(h *handlerEnv, name, site string) stepFn {
		return func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, h.e.M("", "Engine", name), site, st.GetV("engine:1"), h.etype("job"), h.env("cron", types.Typ[types.String]), native("task"))
		}
	}
	shape := func(name string, mk func(h *handlerEnv) Value) {
		refuse(name, "C46/shape", func(h *handlerEnv) []stepFn { return []stepFn{second, regStep(h, mk(h))} })
	}
	shape("nofunc", func(h *handlerEnv) Value { return &VIface{T: types.Typ[types.Int], V: cInt(1)} })
	shape("args", func(h *handlerEnv) Value {
		return &VIface{T: sig([]types.Type{h.ctxT(), h.argType("A")}, h.cmdType("main")), V: native("construct", cStr("0"))}
	})
	shape("results", func(h *handlerEnv) Value {
		return &VIface{T: sig([]types.Type{h.argType("A")}, h.cmdType("main"), errTypeT), V: native("construct", cStr("0"))}
	})
	shape("noresult", func(h *handlerEnv) Value {
		return &VIface{T: sig([]types.Type{h.argType("A")}), V: native("construct", cStr("0"))}
	})
	shape("value", func(h *handlerEnv) Value {
		return &VIface{T: sig([]types.Type{h.evtT["A"]}, h.cmdType("main")), V: native("construct", cStr("0"))}
	})
	for _, a := range []string{"RegisterCronTask", "RegisterCronTaskOfCommand"} {
		a := a
		refuse("notimer-"+a, "C46/notimer", func(h *handlerEnv) []stepFn { return []stepFn{second, cronStep(h, a, "cron1")} })
		for _, b := range []string{"RegisterCronTask", "RegisterCronTaskOfCommand", ""} {
			b := b
			refuse("twice-"+a+"-"+b, "C46/twice", func(h *handlerEnv) []stepFn {
				first := regStep(h, h.construct(0))
				if b != "" {
					first = cronStep(h, b, "cron1")
				}
				return []stepFn{first, second, cronStep(h, a, "cron2")}
			})
		}
	}
	return out
}
