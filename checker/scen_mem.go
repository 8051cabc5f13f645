package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

const memPkg = "eventbus/mem"

// memLab: the event bus that keeps its events in a channel.
type memLab struct {
	*Lab
	max int
}

func newMemLab(e *Env) *memLab {
	x := &memLab{Lab: newLab(e), max: 3}
	x.goMode = func(c *CallCtx) int { return goNow }
	x.onEv = x.ev
	x.onCall["native:handler"] = x.handle
	x.onCall["native:stale"] = func(c *CallCtx) []Outcome {
		x.must(c, false, "C39/current", "callback", "a callback is called that was replaced")
		return []Outcome{{Ret: []Value{VNil{}}}}
	}
	return x
}

func (x *memLab) ctx() Value { return x.env("ctx", x.ctxT()) }

func (x *memLab) build(steps ...stepFn) []stepFn {
	f := x.e.Fn(memPkg + ".NewEventBus")
	ss := []stepFn{
		do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }),
		func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, f, "new", &VSym{ID: "env:capacity", T: types.Typ[types.Int]})
		},
		keep("bus"),
		do(func(st *State, fr *Frame) { publish(st, fr.loc["bus"]); st.Set("phase", "ready") }),
	}
	return append(ss, steps...)
}

func (x *memLab) call(name, phase string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", phase)
		return in.CallFn(st, x.e.M(memPkg, "MemoryEventBus", name), "call:"+name, append([]Value{fr.loc["bus"]}, args(st, fr)...)...)
	}
}

func (x *memLab) evT() types.Type { return types.NewPointer(x.t("DomainEvent")) }

func (x *memLab) event(i int) *VSym {
	return &VSym{ID: "env:e" + strconv.Itoa(i), T: x.evT(), Distinct: true, NonNil: true}
}

func (x *memLab) ev(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	depth, _ := strconv.Atoi(st.Get("godepth"))
	R := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "worker", pos, msg) }
	switch kind {
	case "go":
		if depth > 0 {
			R(false, "C39/order", "an event is handled by a goroutine of its own, so the order of the queue is not kept")
		}
	case "gostart":
		st.Set("godepth", strconv.Itoa(depth+1))
	case "goend":
		st.Set("godepth", strconv.Itoa(depth-1))
		if depth == 1 {
			st.Set("godepth", "")
			R(st.Get("ctxdone") != "", "C39/goes-on", "the worker ends although its context has not ended")
			x.handled(in, st, pos)
		}
	case "crash":
		R(false, "C39/crash", "a panic ends the process")
	case "rtpanic":
		R(st.Get("phase") == "ctor", "C39/panic", "a runtime panic")
	case "send":
		st.Set("sends", st.Get("sends")+" "+args[1].K())
		R(st.Get("phase") == "dispatch", "C39/once", "an event is queued although nobody dispatched it")
	case "recv":
		if a, ok := args[0].(*VApp); ok && a.F == "ctxdone" {
			R(st.Get("ctxdone") == "", "C39/spin", "the worker does not end when its context has ended")
			st.Set("ctxdone", "1")
			return
		}
		x.handled(in, st, pos)
		R(st.Get("ctxdone") == "", "C39/stop", "the worker takes another event although its context has ended")
		n, _ := strconv.Atoi(st.Get("taken"))
		if n >= x.max {
			st.Set(haltKey, "1")
			return
		}
		st.Set("taken", strconv.Itoa(n+1))
	}
}

// handled: the event taken last has been given to the callback exactly once.
func (x *memLab) handled(in *Interp, st *State, pos token.Pos) {
	if st.Get("taken") == "" || st.Get("reg") == "" {
		return
	}
	in.Check(st, st.Get("handled") == st.Get("taken"), "C39/once", "worker", pos, "an event that was taken from the queue is not given to the callback exactly once")
}

func (x *memLab) handle(c *CallCtx) []Outcome {
	st := c.St
	x.user(c, "", "the event handler")
	R := func(ok bool, rule, msg string) { x.must(c, ok, "C39/"+rule, "callback", msg) }
	n, _ := strconv.Atoi(st.Get("taken"))
	v, ok := stripIface(c.Args[1]).(*VSym)
	R(ok && st.Get("event!"+v.K()) == st.Get("taken"), "event", "the callback does not get the event that was taken from the queue")
	k, _ := strconv.Atoi(st.Get("handled"))
	R(k == n-1, "once", "an event that was taken from the queue is not given to the callback exactly once")
	R(ctxHas(c.Args[0], x.ctx()) || ctxHas(c.Args[0], &VSym{ID: "ctx:background"}), "ctx", "the callback gets a context of unknown origin")
	count := func(st *State) { st.Set("handled", strconv.Itoa(k+1)) }
	e := &VSym{ID: "err:handler", T: errTypeT, Distinct: true, NonNil: true}
	return []Outcome{{Ret: []Value{VNil{}}, Note: "the callback succeeds", Do: count}, {Ret: []Value{e}, Note: "the callback fails", Do: count}}
}

// scenMemDispatch: what is queued.
func scenMemDispatch(e *Env, in *Interp) {
	x := newMemLab(e)
	in.Fold = 260
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") != "dispatch" {
			return
		}
		in.Check(st, p == nil, "C39/panic", "Dispatch", 0, "dispatching panics")
	}
	ss := x.build(func(in *Interp, st *State, fr *Frame) []*State {
		var as []func(st *State, fr *Frame) []*State
		for _, n := range []int{0, 1, 2, 3, 130} {
			n := n
			as = append(as, func(st *State, fr *Frame) []*State {
				var es []Value
				var want string
				st.many = 2 * n
				for i := 0; i < n; i++ {
					es = append(es, x.event(i))
					want += " " + x.event(i).K()
				}
				st.Set("want", want)
				t := x.e.M(memPkg, "MemoryEventBus", "Dispatch").Signature.Params().At(1).Type()
				return x.call("Dispatch", "dispatch", vals(x.ctx(), st.slice("H:evts", t, es...)))(in, st, fr)
			})
		}
		return choose(st, as...)
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := orNil(fr.loc["ret"])
		got, want := st.Get("sends"), st.Get("want")
		if isNoErr(in, st, r) {
			in.Check(st, got == want, "C39/queued", "Dispatch", 0, "dispatching succeeds, but the events are not queued once each in their order")
		} else if isErr(in, st, r) {
			in.Check(st, st.Get("ctxdone") != "", "C39/refused", "Dispatch", 0, "dispatching fails although nothing went wrong")
			in.Check(st, strings.HasPrefix(want, got), "C39/queued", "Dispatch", 0, "the events are not queued once each in their order")
		}
		return nil
	})
	x.start(in, ss...)
	in.reached("C39/queued", "Dispatch", "no event is ever queued")
}

// scenMemWorker: the worker and its callback.
func scenMemWorker(registered bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newMemLab(e)
		// three events have been dispatched
		ss := x.build(x.call("Dispatch", "dispatch", func(st *State, fr *Frame) []Value {
			var es []Value
			for i := 0; i < x.max; i++ {
				es = append(es, x.event(i))
				st.Set("event!"+x.event(i).K(), strconv.Itoa(i+1))
			}
			t := x.e.M(memPkg, "MemoryEventBus", "Dispatch").Signature.Params().At(1).Type()
			return []Value{x.ctx(), st.slice("H:evts", t, es...)}
		}), func(in *Interp, st *State, fr *Frame) []*State {
			if !isNoErr(in, st, orNil(fr.loc["ret"])) {
				return []*State{}
			}
			return nil
		})
		if registered {
			ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
				st.Set("reg", "1")
				return x.call("RegisterEventHandler", "reg", vals(native("stale")))(in, st, fr)
			}, x.call("RegisterEventHandler", "reg", vals(native("handler"))))
		}
		ss = append(ss, x.call("Start", "start", vals(x.ctx())))
		x.start(in, ss...)
		if registered {
			in.reached("C39/once", "worker", "no event is ever taken from the queue")
			in.reached("C39/event", "worker", "the callback is never called")
			in.reached("C39/goes-on", "worker", "the worker never ends")
		}
	}
}

// scenMemStart: starting more than once.
func scenMemStart(e *Env, in *Interp) {
	x := newMemLab(e)
	x.goMode = func(c *CallCtx) int { return goSkip }
	x.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
		if kind == "go" {
			n, _ := strconv.Atoi(st.Get("n:go"))
			st.Set("n:go", strconv.Itoa(n+1))
		}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") == "start" {
			in.Check(st, p == nil && st.Get("n:go") == "1", "C38/once", "memory bus", 0, "starting a memory bus twice starts "+orZero(st.Get("n:go"))+" workers")
		}
	}
	s := x.call("Start", "start", vals(x.ctx()))
	x.start(in, x.build(s, s)...)
	in.reached("C38/once", "memory bus", "a memory bus cannot be started")
}

func memScenarios() []*Scenario {
	return []*Scenario{
		{Name: "mem-dispatch", Props: []string{"C39", "C40"}, Run: scenMemDispatch},
		{Name: "mem-worker", Props: []string{"C39", "C40"}, Run: scenMemWorker(true)},
		{Name: "mem-unregistered", Props: []string{"C39", "C40"}, Run: scenMemWorker(false)},
		{Name: "mem-start", Props: []string{"C38", "C40"}, Run: scenMemStart},
	}
}
