package main

import (
	"go/types"
	"strings"
)

// cmdSpec is one way of running something on an engine.
type cmdSpec struct {
	name     string
	form     string
	keys     []string
	faults   bool
	thorough bool
	buildID  bool
}

func has(form, part string) bool {
	return strings.Contains("+"+form+"+", "+"+part+"+")
}

// scenCmd: every command form, its phases, its lock keys and its ends.
func scenCmd(s *cmdSpec) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		g := newEng(e)
		g.keys = s.keys
		g.faults = func(string) bool { return s.faults }
		g.events = func(c *CallCtx, ent *VSym) []Value {
			var vs []Value
			for _, id := range g.runEvents(c.St) {
				vs = append(vs, g.mkEvent(c.St, id, "normal"))
			}
			return vs
		}
		strT := types.Typ[types.String]
		keyVals := func() []Value {
			var vs []Value
			for _, k := range s.keys {
				vs = append(vs, &VSym{ID: "ord:lk" + k, T: strT, Distinct: true})
			}
			return vs
		}
		keySlice := func(st *State) Value {
			if len(s.keys) == 0 {
				return VNil{}
			}
			return st.slice("keys", sliceOf(strT), keyVals()...)
		}
		init := func(c *CallCtx) []Outcome {
			g.must(c, c.St.Get("init") == "", "C20/init-once", "Init", "a command's Init runs twice")
			quiet := c.St.Get("tx") == "" && c.St.Get("main") == "" && c.St.Get("lastlock") == ""
			g.must(c, quiet, "C20/init-first", "Init", "a command's Init runs after a lock, the transaction or the command itself")
			g.must(c, ctxHas(c.Args[0], g.ctx0()), "C20/ctx", "Init", "Init does not receive the caller's context")
			c.St.Set("init", "ok")
			out := []Outcome{{Ret: []Value{keySlice(c.St), VNil{}}}}
			for k, v := range map[string]Value{"error": errSym("Init"), "break": g.brk(), "wrapped break": &VApp{F: "new:join:wrapped", Args: []Value{g.brk()}, T: errTypeT, NonNil: true}} {
				k, v := k, v
				out = append(out, Outcome{Ret: []Value{VNil{}, v}, Note: "Init ends: " + k, Do: func(st *State) {
					st.Set("init", k)
					st.Set("main", "init-"+k)
					f := v
					if k != "error" {
						f = g.brk()
					}
					st.SetV("fail", f)
					st.Set("failat", "Init")
				}})
			}
			sortOutcomes(out)
			return out
		}
		withInit := has(s.form, "init") || has(s.form, "icommand")
		// after a failed Init, and before a needed one, nothing else happens
		for _, m := range []string{imeth("ILock", "Lock"), imeth("ITransaction", "Begin"), imeth("ICommandMain", "Main"), imeth("ICommand", "Build"), imeth("IExecutor", "Exec")} {
			m, old := m, g.onCall[m]
			wrap := func(c *CallCtx) []Outcome {
				i := c.St.Get("init")
				short := m[strings.LastIndex(m, ".")+1:]
				if withInit {
					g.must(c, i == "ok", "C20/init-error", short, short+" is called although Init did not succeed (Init: "+i+")")
				}
				return g.onCall["old:"+m](c)
			}
			g.onCall["old:"+m] = old
			g.onCall[m] = wrap
		}
		body := []stepFn{g.cmdEnds(true)}
		if !s.faults {
			body = append([]stepFn{func(in *Interp, st *State, fr *Frame) []*State {
				return choose(st, func(st *State, fr *Frame) []*State { return nil }, func(st *State, fr *Frame) []*State { fr.pc++; st.Set("evset", ""); return nil })
			}, func(in *Interp, st *State, fr *Frame) []*State {
				if fr.loc["repo"] != nil {
					return in.CallFn(st, g.e.M("", "Repository", "Add"), "repo.Add", fr.loc["repo"], g.ents(st, "roots", g.ent("root")))
				}
				return in.CallFn(st, g.e.M("", "RootContainer", "Add"), "cont.Add", fr.loc["cont"], g.ent("root"))
			}}, body...)
		}
		if has(s.form, "icommand") {
			g.buildScript(s, body)
			delete(g.onCall, imeth("ICommand", "PostSave"))
			g.onCall[imeth("ICommand", "PostSave")] = func(c *CallCtx) []Outcome { return g.postSave(c, "cmd") }
		} else {
			g.mainScript(steps(body...))
			// mainScript replaced the wrapped Main
			m := imeth("ICommandMain", "Main")
			inner := g.onCall[m]
			g.onCall[m] = func(c *CallCtx) []Outcome {
				if withInit {
					g.must(c, c.St.Get("init") == "ok", "C20/init-error", "Main", "Main is called although Init did not succeed (Init: "+c.St.Get("init")+")")
				}
				return inner(c)
			}
		}
		g.onCall[imeth("ICommandInit", "Init")] = init
		g.onCall[imeth("ICommand", "Init")] = init

		var cmd func() Value
		parts := strings.Split(s.form, "+")
		g.hookNames = []string{"e1", "r1"}
		switch parts[0] {
		case "main":
			is := []string{"ICommandMain"}
			if has(s.form, "init") {
				is = append(is, "ICommandInit")
			}
			if has(s.form, "post") {
				is = append(is, "ICommandPostSave")
				g.hookNames = append(g.hookNames, "cmd")
			}
			cmd = func() Value { return g.cmdFull(is...) }
		case "icommand":
			cmd = func() Value { return g.cmdFull("ICommand") }
			g.hookNames = append(g.hookNames, "cmd")
		case "func":
			t := g.t("MainFunc").Underlying()
			cmd = func() Value { return &VIface{T: t, V: native("main")} }
		default:
			cmd = g.funcCmd
		}
		switch parts[0] {
		case "invalid":
			switch parts[1] {
			case "int":
				cmd = func() Value { return &VIface{T: types.Typ[types.Int], V: cInt(3)} }
			case "nil":
				cmd = func() Value { return VNil{} }
			case "func":
				cmd = func() Value {
					return &VIface{T: types.NewSignatureType(nil, nil, nil, nil, nil, false), V: native("main")}
				}
			case "half":
				cmd = func() Value { return g.cmdFull("ICommandInit", "ICommandPostSave") }
			}
		}
		var st0 []stepFn
		if !s.faults {
			st0 = append(st0, g.chooseEvents("-", "1"))
		}
		st0 = append(st0, g.newEngine(g.option("WithPostSave", native("postsave", cStr("e1")))...)...)
		opts := append(g.option("WithPostSave", native("postsave", cStr("r1"))), g.boolOption("TransactionOption", cfgSym("cfg:tx")), g.boolOption("DryRunOption", cfgSym("cfg:dry")))
		done := func(in *Interp, st *State, fr *Frame) []*State {
			st.SetV("res", fr.loc["ret"])
			return nil
		}
		stage := func(next ...stepFn) {
			st0 = append(st0, opts...)
			st0 = append(st0, func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Engine", "NewStage"), "stage", fr.loc["engine"])
			}, func(in *Interp, st *State, fr *Frame) []*State {
				fr.loc["stage"] = fr.loc["ret"]
				return in.CallFn(st, e.M("", "Stage", "WithOption"), "withopt", fr.loc["stage"], g.takeOpts(st, fr, "ropts"))
			}, func(in *Interp, st *State, fr *Frame) []*State { fr.loc["stage"] = fr.loc["ret"]; return nil })
			st0 = append(st0, next...)
			st0 = append(st0, done)
		}
		switch {
		case has(s.form, "stage"):
			stage(func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Stage", "Lock"), "lock", fr.loc["stage"], keySlice(st))
			}, func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Stage", "Main"), "main", fr.loc["ret"], native("main"))
			}, func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Stage", "Save"), "save", fr.loc["ret"], g.ctx0())
			})
		case has(s.form, "stagerun"):
			stage(func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Stage", "Run"), "run", fr.loc["stage"], g.ctx0(), cmd())
			})
		case has(s.form, "stageruncommand"):
			stage(func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Stage", "RunCommand"), "run", fr.loc["stage"], g.ctx0(), cmd())
			})
		case has(s.form, "runcommand"):
			st0 = append(st0, opts...)
			st0 = append(st0, func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, e.M("", "Engine", "RunCommand"), "run", fr.loc["engine"], g.ctx0(), cmd(), g.takeOpts(st, fr, "ropts"))
			}, done)
		default:
			st0 = append(st0, g.run(cmd, opts...)...)
		}
		g.atEnd = func(in *Interp, st *State, ok bool) {
			i := st.Get("init")
			if withInit {
				in.Check(st, i != "", "C20/init-called", "end of run", 0, "a command's Init is never called")
			}
		}
		if parts[0] == "invalid" {
			g.BH.onEnd = func(in *Interp, st *State, p Value) {
				in.Check(st, p != nil, "C20/invalid", "Run", 0, "a value that is no command ("+parts[1]+") is accepted")
				in.Check(st, st.Get("tx") == "" && st.Get("main") == "", "C20/invalid", "Run", 0, "something is done for a value that is no command")
			}
		}
		in.H = g
		g.start(in, &Script{Name: "cmd", Steps: st0})
	}
}

func sortOutcomes(o []Outcome) {
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j].Note < o[j-1].Note; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

// buildScript: a command with Build and Act; Build fails, returns no root, a
// root with an ID, or one that may lack it.
func (g *Eng) buildScript(s *cmdSpec, body []stepFn) {
	// does some root Build returned lack an ID?
	noID := func(st *State) tri {
		names := []string{"built"}
		if st.Get("broots") == "2" {
			names = append(names, "built2")
		}
		res := no
		for _, n := range names {
			id := &VSym{ID: "cfg:id:ent:" + n, T: types.Typ[types.String]}
			t, p := st.eq(id, cStr(""))
			if t == unknown && p != nil {
				if b, ok := st.lookupFact(p); ok {
					t = triOf(b)
				}
			}
			if t == yes {
				return yes
			}
			if t == unknown {
				res = unknown
			}
		}
		return res
	}
	build := steps(func(in *Interp, st *State, fr *Frame) []*State {
		fail := func(kind string, v, f Value) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("main", kind)
				st.SetV("fail", f)
				st.Set("failat", "Build")
				return fr.finish(VNil{}, v)
			}
		}
		return choose(st,
			func(st *State, fr *Frame) []*State { st.Set("main", "built"); return fr.finish(VNil{}, VNil{}) },
			func(st *State, fr *Frame) []*State {
				st.Set("main", "built")
				st.Set("broots", "1")
				return fr.finish(g.ents(st, "broots", g.ent("built")), VNil{})
			},
			func(st *State, fr *Frame) []*State {
				st.Set("main", "built")
				st.Set("broots", "2")
				return fr.finish(g.ents(st, "broots", g.ent("built"), g.ent("built2")), VNil{})
			},
			fail("error", errSym("Build"), errSym("Build")),
			fail("break", g.brk(), g.brk()))
	})
	g.commandScript(build, steps(body...))
	old := g.onCall[imeth("ICommand", "Build")]
	g.onCall[imeth("ICommand", "Build")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("init") == "ok", "C20/init-error", "Build", "Build is called although Init did not succeed")
		return old(c)
	}
	g.atAct = func(c *CallCtx) {
		c.St.Set("acted", "1")
		rs, exact := c.In.elems(c.St, c.Args[2])
		if c.St.Get("broots") == "" {
			g.must(c, exact && len(rs) == 0, "C20/roots", "Act", "Act does not get the roots Build returned")
			return
		}
		want := g.ent("built").K()
		got := ""
		for _, r := range rs {
			got += "," + stripIface(r).K()
		}
		if c.St.Get("broots") == "2" {
			want += "," + g.ent("built2").K()
		}
		g.must(c, exact && got == ","+want, "C20/roots", "Act", "Act does not get the roots Build returned")
		t := noID(c.St)
		g.must(c, t == no, "C20/build-id", "Act", "Act runs although a root returned by Build may have no ID")
	}
	oldEnd := g.BH.onEnd
	g.BH.onEnd = func(in *Interp, st *State, p Value) {
		if st.Get("main") == "built" && p == nil {
			// Act was refused: only right for a root without ID
			t := noID(st)
			f := st.GetV("fail")
			in.Check(st, f != nil || (st.Get("broots") != "" && t != no), "C20/act", "Act", 0, "Act is not run after Build succeeded")
			if res := st.GetV("res"); res != nil && f == nil {
				ev := st.field(res, "Error")
				tn, _ := st.isNil(ev)
				in.Check(st, tn == no, "C20/build-id", "end of run", 0, "a root without ID is not refused with an error")
			}
			if f == nil {
				return
			}
		}
		oldEnd(in, st, p)
	}
}

func cmdScenarios() []*Scenario {
	var specs []*cmdSpec
	add := func(s *cmdSpec) { specs = append(specs, s) }
	add(&cmdSpec{form: "main"})
	add(&cmdSpec{form: "main+post"})
	add(&cmdSpec{form: "func"})
	add(&cmdSpec{form: "mainfunc+stagerun"})
	add(&cmdSpec{form: "icommand"})
	add(&cmdSpec{form: "icommand+runcommand", keys: []string{"1"}})
	add(&cmdSpec{form: "icommand+stageruncommand", keys: []string{"2", "1"}})
	add(&cmdSpec{form: "stage", keys: []string{"2", "1"}})
	for _, f := range []string{"int", "nil", "func", "half"} {
		add(&cmdSpec{form: "invalid+" + f})
	}
	for _, ks := range [][]string{{}, {"1"}, {"1", "2"}, {"2", "1"}, {"1", "1"}, {"2", "1", "2"}, {"3", "1", "2"}} {
		add(&cmdSpec{form: "main+init+post", keys: ks})
		if len(ks) > 0 {
			add(&cmdSpec{form: "main+init", keys: ks, faults: true})
		}
	}
	add(&cmdSpec{form: "icommand", keys: []string{"2", "1"}, faults: true})
	add(&cmdSpec{form: "stage", keys: []string{"2", "1"}, faults: true})
	add(&cmdSpec{form: "main+init", keys: []string{"2", "4", "1", "3"}, faults: true, thorough: true})
	var r []*Scenario
	for _, s := range specs {
		n := "cmd/" + s.form
		if len(s.keys) > 0 {
			n += "/" + strings.Join(s.keys, "")
		}
		if s.faults {
			n += "/faults"
		}
		s.name = n
		r = append(r, &Scenario{Name: n, Run: scenCmd(s), Thorough: s.thorough, Depth: 3, Props: []string{"C01", "C02", "C03", "C09", "C16", "C17", "C20"}})
	}
	return r
}
