package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Scenario is one closed analysis problem: a program of the user (script), an
// environment with monitors, and the obligations that must have been met.
type Scenario struct {
	Name  string
	Props []string
	Run   func(e *Env, in *Interp) // builds the initial states and runs
	Depth int
	Max   int
	Opts  []string

	Thorough bool // only in the thorough tier
}

// choose splits a script step; every alternative continues on its own copy.
func choose(st *State, alts ...func(st *State, fr *Frame) []*State) []*State {
	var res []*State
	for i, a := range alts {
		s := st
		if i < len(alts)-1 {
			s = st.clone()
		}
		r := a(s, s.top())
		if r == nil {
			r = []*State{s}
		}
		res = append(res, r...)
	}
	return res
}

// optionSteps call the exported option constructors and collect the options in loc[dst].
func (g *Eng) option(name string, args ...Value) []stepFn {
	return []stepFn{
		func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, g.e.Fn(name), "opt:"+name, args...)
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			t := g.e.Fn(name).Signature.Results().At(0).Type()
			o, _ := fr.loc["opts"].(*VTuple)
			if o == nil {
				o = &VTuple{}
			}
			fr.loc["opts"] = &VTuple{append(append([]Value(nil), o.V...), &VIface{T: t, V: fr.loc["ret"]})}
			return nil
		},
	}
}

// constOption adds an option of a named boolean type.
func (g *Eng) boolOption(typ string, v Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		o, _ := fr.loc["opts"].(*VTuple)
		if o == nil {
			o = &VTuple{}
		}
		fr.loc["opts"] = &VTuple{append(append([]Value(nil), o.V...), &VIface{T: g.t(typ), V: v})}
		return nil
	}
}

func (g *Eng) takeOpts(st *State, fr *Frame, id string) Value {
	o, _ := fr.loc["opts"].(*VTuple)
	delete(fr.loc, "opts")
	if o == nil || len(o.V) == 0 {
		return VNil{}
	}
	return st.slice(id, sliceOf(g.t("Option")), o.V...)
}

func native(name string, b ...Value) Value { return &VNative{Name: name, B: b} }

func (g *Eng) bus() Value {
	return &VSym{ID: "env:bus", T: g.t("IEventBus"), Distinct: true, NonNil: true}
}
func (g *Eng) exe() Value {
	return &VSym{ID: "env:exec", T: g.t("IExecutor"), Distinct: true, NonNil: true}
}
func (g *Eng) locker() Value {
	return &VSym{ID: "env:locker", T: g.t("ILock"), Distinct: true, NonNil: true}
}
func (g *Eng) timer() Value {
	return &VSym{ID: "env:timer", T: g.t("ITimer"), Distinct: true, NonNil: true}
}
func (g *Eng) idgen() Value {
	return &VSym{ID: "env:idgen", T: g.t("IIDGenerator"), Distinct: true, NonNil: true}
}

// newEngine are the steps that build the engine under analysis (left in loc["engine"]).
func (g *Eng) newEngine(extra ...stepFn) []stepFn {
	var s []stepFn
	s = append(s, g.option("WithEventBus", g.bus())...)
	s = append(s, g.option("WithIDGenerator", g.idgen())...)
	s = append(s, g.option("WithTimer", g.timer())...)
	s = append(s, extra...)
	s = append(s, func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallFn(st, g.e.Fn("NewEngine"), "new", g.locker(), g.exe(), g.takeOpts(st, fr, "eopts"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		fr.loc["engine"] = fr.loc["ret"]
		return nil
	})
	return s
}

func (g *Eng) run(cmd func() Value, opts ...stepFn) []stepFn {
	s := append([]stepFn(nil), opts...)
	return append(s, func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallFn(st, g.e.M("", "Engine", "Run"), "run", fr.loc["engine"], g.ctx0(), cmd(), g.takeOpts(st, fr, "ropts"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		st.SetV("res", fr.loc["ret"])
		return nil
	})
}

// cmdMain gives a command with Main, Init and PostSave methods.
func (g *Eng) cmdFull(names ...string) Value {
	var ms []*types.Func
	n := "Cmd"
	for _, i := range names {
		ms = append(ms, methodsOf(g.t(i))...)
		n += i
	}
	t := types.NewPointer(g.e.envType(n, types.NewStruct(nil, nil), ms...))
	return &VSym{ID: "env:cmd", T: t, Distinct: true, NonNil: true}
}

func (g *Eng) funcCmd() Value {
	return &VIface{T: g.t("MainFunc"), V: native("main")}
}

// mainStart is what every main function of a scenario does first.
func (g *Eng) mainStart(c *CallCtx) {
	st := c.St
	g.lockState(c, "the command")
	g.must(c, st.Get("main") == "", "C20/main-once", "the command", "the command's main function runs twice")
	if st.cfg("cfg:tx") == yes {
		g.must(c, st.Get("tx") == "open", "C01/before-main", "the command", "the command runs before its transaction is open")
	} else if st.cfg("cfg:tx") == unknown {
		g.must(c, false, "C01/before-main", "the command", "the command runs before the transaction option was looked at")
	}
	g.runCtx(c, c.Args[0], "the command")
	g.afterFail(c, "the command")
	st.Set("main", "running")
}

// cmdEnds are the ways the command may end.
func (g *Eng) cmdEnds(full bool) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		end := func(kind string, v Value) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("main", kind)
				if v != nil {
					st.SetV("fail", v)
					st.Set("failat", "the command")
				}
				st.note(0, "the command ends: "+kind)
				r := v
				if r == nil {
					r = VNil{}
				}
				if kind == "wrapped break" {
					r = &VApp{F: "new:join:wrapped", Args: []Value{g.brk()}, T: errTypeT, NonNil: true}
				}
				return fr.finish(r)
			}
		}
		alts := []func(st *State, fr *Frame) []*State{end("ok", nil)}
		if full {
			alts = append(alts, end("error", errSym("command")), end("break", g.brk()), end("wrapped break", g.brk()),
				func(st *State, fr *Frame) []*State {
					st.Set("main", "panic")
					st.note(0, "the command panics")
					st.frames = append([]*Frame(nil), st.frames[:len(st.frames)-1]...)
					if n := len(st.frames); n > 0 {
						st.frames[n-1] = st.frames[n-1].clone()
					}
					return in.unwind(st, panicV())
				})
		}
		return choose(st, alts...)
	}
}

// repoCall makes a script step call a method of the repository.
func (g *Eng) repoCall(name string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		m := g.e.M("", "Repository", name)
		return in.CallFn(st, m, "repo."+name, append([]Value{fr.loc["repo"]}, args(st, fr)...)...)
	}
}

func (g *Eng) ents(st *State, id string, es ...Value) Value {
	return st.slice(id, sliceOf(g.t("IEntity")), es...)
}

func (g *Eng) mainScript(s *Script) {
	f := func(c *CallCtx) []Outcome {
		g.mainStart(c)
		if g.atMain != nil {
			g.atMain(c)
		}
		return []Outcome{{Script: s, Loc: map[string]Value{"ctx": c.Args[0], "repo": c.Args[1]}}}
	}
	g.onCall["native:main"] = f
	g.onCall[imeth("ICommandMain", "Main")] = f
}

// eventChoice: the events of the root entity, chosen at the first look.
func (g *Eng) chooseEvents(sets ...string) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		var alts []func(st *State, fr *Frame) []*State
		for _, s := range sets {
			s := s
			alts = append(alts, func(st *State, fr *Frame) []*State { st.Set("evset", s); return nil })
			if strings.Contains(s, ",") {
				alts = append(alts, func(st *State, fr *Frame) []*State { st.Set("evset", s); st.Set("evtime", "inc"); return nil })
			}
		}
		return choose(st, alts...)
	}
}

func (g *Eng) start(in *Interp, s *Script) {
	st := newState()
	st.many = g.many
	in.pushScript(st, s, nil, retDiscard, 0, "scenario")
	in.Run(st)
}

// scenRun: one run that creates at most one entity, with every collaborator
// failing in turn and every end of the command.
func scenRun(e *Env, in *Interp) {
	g := newEng(e)
	g.persist = in.opt("persist")
	all := in.opt("faults")
	g.faults = func(string) bool { return all }
	evs := map[string]string{"1": "normal", "2": "transaction", "3": "FIFO", "4": "transaction"}
	g.events = func(c *CallCtx, ent *VSym) []Value {
		var vs []Value
		for _, id := range g.runEvents(c.St) {
			vs = append([]Value{g.mkEvent(c.St, id, evs[id])}, vs...)
		}
		return vs
	}
	g.hookNames = []string{"e1", "r1"}
	g.onCall["native:getter"] = noop
	g.mainScript(steps(
		func(in *Interp, st *State, fr *Frame) []*State {
			how := func(h string) func(st *State, fr *Frame) []*State {
				return func(st *State, fr *Frame) []*State {
					switch h {
					case "":
						st.Set("evset", "")
					case "add", "save":
						st.Set("added", "1")
					}
					fr.loc["how"] = cStr(h)
					return nil
				}
			}
			if in.opt("many") {
				return choose(st, how("add"))
			}
			return choose(st, how(""), how("add"), how("load"), how("save"))
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			switch h, _ := constString(fr.loc["how"]); h {
			case "add", "save":
				return in.CallFn(st, g.e.M("", "Repository", "Add"), "repo.Add", fr.loc["repo"], g.ents(st, "roots", g.ent("root")))
			case "load":
				return in.CallFn(st, g.e.M("", "Repository", "CustomGet"), "repo.CustomGet", fr.loc["repo"], fr.loc["ctx"], native("getter"), g.ents(st, "roots", g.ent("root")))
			}
			return nil
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			if h, _ := constString(fr.loc["how"]); h == "load" && !in.isNil(st, fr.loc["ret"]) {
				st.Set("main", "error")
				return fr.finish(fr.loc["ret"])
			}
			if h, _ := constString(fr.loc["how"]); h == "save" {
				// the command saves before it ends
				return g.saveCall("")(in, st, fr)
			}
			return nil
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			if h, _ := constString(fr.loc["how"]); h == "save" && !in.isNil(st, fr.loc["ret"]) {
				st.Set("main", "error")
				return fr.finish(fr.loc["ret"])
			}
			return nil
		},
		g.cmdEnds(!in.opt("many")),
	))
	var s []stepFn
	sets := []string{"-", "1", "2", "1,2", "2,4"}
	if !all {
		sets = append(sets, "1,2,3,4")
	}
	if in.opt("many") {
		var l []string
		for i := 0; i < manyEvents; i++ {
			id := strconv.Itoa(100 + i)
			l = append(l, id)
			evs[id] = []string{"normal", "FIFO", "transaction"}[i%3]
		}
		sets = []string{strings.Join(l, ",")}
		g.many, in.Fold = 4*manyEvents, 4*manyEvents
	}
	s = append(s, g.chooseEvents(sets...))
	ex := g.option("WithPostSave", native("postsave", cStr("e1")))
	if g.persist {
		ex = append(ex, g.option("WithEventPersist", native("persist"))...)
	}
	s = append(s, g.newEngine(ex...)...)
	ro := append(g.option("WithPostSave", native("postsave", cStr("r1"))), g.boolOption("TransactionOption", cfgSym("cfg:tx")), g.boolOption("DryRunOption", cfgSym("cfg:dry")))
	s = append(s, g.run(g.funcCmd, ro...)...)
	g.onExec = func(c *CallCtx, op int, act Value) {
		if op == opInsert {
			ms, _ := c.In.elems(c.St, c.St.field(act, "Models"))
			for _, m := range ms {
				if s, ok := m.(*VSym); ok && s.ID == fmt.Sprintf("m:%d:ent:root", opInsert) {
					c.St.Set("inserted", "1")
				}
			}
		}
	}
	g.atEnd = func(in *Interp, st *State, ok bool) {
		if ok && st.Get("added") != "" && st.cfg("cfg:dry") == no {
			in.Check(st, st.Get("inserted") == "1", "C09/without", "end of run", 0, "without dry-run an added entity is not inserted")
		}
	}
	in.H = g
	g.start(in, &Script{Name: "run", Steps: s})
}

// manyEvents: the number of events of the longest run.
const manyEvents = 110

func (in *Interp) opt(s string) bool { return in.Opts[s] }

func runScenarios() []*Scenario {
	props := []string{"C01", "C03", "C09", "C10", "C11", "C12", "C16", "C17", "C20", "C40"}
	return []*Scenario{
		{Name: "run", Run: scenRun, Props: props},
		{Name: "run-many", Run: scenRun, Props: props, Opts: []string{"many", "oneorder", "persist"}},
		{Name: "run-faults", Run: scenRun, Props: props, Opts: []string{"faults"}},
		{Name: "run-faults-persist", Run: scenRun, Props: props, Opts: []string{"faults", "persist"}},
	}
}

// saveCall is the explicit mid-run save of a command.
func (g *Eng) saveCall(form string) stepFn {
	if form == "command" {
		return func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, g.e.M("", "StageAgent", "Commit"), "agent.Commit", VPtr{"H:agent", ""}, fr.loc["ctx"])
		}
	}
	return g.repoCall("Save", func(st *State, fr *Frame) []Value { return []Value{fr.loc["ctx"]} })
}

// commandScript wires a command with Init, Build, Act and PostSave.
func (g *Eng) commandScript(build, act *Script) {
	g.onCall[imeth("IStageSetter", "SetStage")] = func(c *CallCtx) []Outcome {
		c.St.heap["H:agent"] = &Obj{Kind: "cells", T: g.t("StageAgent"), Cells: map[string]Value{}}
		c.St.storeCell("H:agent", "", g.t("StageAgent"), c.Args[0])
		return []Outcome{{}}
	}
	g.onCall[imeth("ICommand", "Init")] = func(c *CallCtx) []Outcome { return ret(VNil{}, VNil{}) }
	g.onCall[imeth("ICommand", "PostSave")] = noop
	g.onCall[imeth("ICommand", "Build")] = func(c *CallCtx) []Outcome {
		g.mainStart(c)
		c.St.Set("main", "building")
		return []Outcome{{Script: build, Loc: map[string]Value{"ctx": c.Args[0]}}}
	}
	g.onCall[imeth("ICommand", "Act")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("main") == "built", "C20/build-first", "Act", "Act runs before Build, after its failure, or twice (state: "+c.St.Get("main")+")")
		g.runCtx(c, c.Args[0], "the command")
		c.St.Set("main", "running")
		c.St.heap["H:cont"] = &Obj{Kind: "cells", T: g.t("RootContainer"), Cells: map[string]Value{}}
		c.St.storeCell("H:cont", "", g.t("RootContainer"), c.Args[1])
		if g.atAct != nil {
			g.atAct(c)
		}
		return []Outcome{{Script: act, Loc: map[string]Value{"ctx": c.Args[0], "cont": VPtr{"H:cont", ""}, "roots": c.Args[2]}}}
	}
}
