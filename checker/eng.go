package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const root = modPath + "."

func imeth(iface, m string) string { return "(" + root + iface + ")." + m }

// Eng is the environment of one run of an engine: opaque collaborators and the
// monitors (typestate automata) that judge what the framework does to them.
type Eng struct {
	many int                   // objects told apart per place of allocation, if more than usual
	entT map[string]types.Type // struct types of entities
	*BH
	e *Env

	// configuration
	keys         []string // ord ids of the lock keys Init returns, in that order
	faults       func(what string) bool
	hooks        bool // run with post-save hooks
	cmdHook      bool // the command has a PostSave of its own
	twoPhase     bool
	body         func(g *Eng) *Script
	roots        map[string]bool
	nhooks       int
	onExec       func(c *CallCtx, op int, act Value) // further checks of writes
	model        func(c *CallCtx, ent, parent Value, op int) []Outcome
	children     func(c *CallCtx, ent *VSym) Value
	events       func(c *CallCtx, ent *VSym) []Value
	dirty        func(c *CallCtx, ent *VSym) Value
	cmdErrOK     bool
	evs          []string
	evAlways     bool
	atMain       func(c *CallCtx)
	atAct        func(c *CallCtx)
	atEnd        func(in *Interp, st *State, ok bool)
	panicRule    string // a panic of the engine itself breaks this rule
	hookNames    []string
	persist      bool
	hookPending  func(c *CallCtx, what string)
	decideEvents func(st *State) []string
}

// the operations, as the library numbers them (set by NewEnv)
var opInsert, opUpdate, opDelete, opQuery = 1, 2, 3, 4

func newEng(e *Env) *Eng {
	g := &Eng{BH: newBH(), e: e, roots: map[string]bool{}, hooks: true}
	g.track = func(id string) bool {
		return strings.HasPrefix(id, "ent:") || strings.HasPrefix(id, "ord:") || strings.HasPrefix(id, "env:") || strings.HasPrefix(id, "m:") || strings.HasPrefix(id, "H:ev:")
	}
	g.faults = func(string) bool { return false }
	g.decide = func(st *State, p *VPred) tri {
		if p.Op == "is" {
			if s, ok := p.X.(*VSym); ok && (strings.HasPrefix(s.ID, "ent:") || strings.HasPrefix(s.ID, "leaf:")) {
				if i, ok := p.T.Underlying().(*types.Interface); ok && i.NumMethods() == 1 && isHookName(i.Method(0).Name()) {
					return triOf(strings.HasPrefix(s.ID, "ent:"))
				}
				return no
			}
		}
		return unknown
	}
	g.model = func(c *CallCtx, ent, parent Value, op int) []Outcome {
		return []Outcome{{Ret: []Value{g.modelOf(ent, op), VNil{}}}}
	}
	g.children = func(c *CallCtx, ent *VSym) Value { return c.St.newMap("ch:"+c.Pre, c.resT(0)) }
	g.events = func(c *CallCtx, ent *VSym) []Value { return nil }
	g.dirty = func(c *CallCtx, ent *VSym) Value { return cBool(false) }
	g.onEvent = lockEvent
	g.wire()
	return g
}

// Call sees every call that leaves the library during a run.
func (g *Eng) Call(c *CallCtx) []Outcome {
	if h := heldLocks(c.St); len(h) > 0 && strings.HasPrefix(c.Key, "("+root) {
		g.must(c, false, "C40/user-code", c.Key, c.Key+" is called while a lock is held: "+lockNames(c.St))
	}
	return g.BH.Call(c)
}

func isHookName(n string) bool {
	return strings.HasPrefix(n, "Before") || strings.HasPrefix(n, "After")
}

func (g *Eng) modelOf(ent Value, op int) Value {
	id := "leaf"
	if s, ok := stripIface(ent).(*VSym); ok {
		id = s.ID
		if s.Sum || strings.HasPrefix(s.ID, "leaf:") {
			return &VSym{ID: fmt.Sprintf("lm:%d:%s", op, id), T: g.e.ModelA, Distinct: true, NonNil: true, Sum: s.Sum}
		}
	}
	return &VSym{ID: fmt.Sprintf("m:%d:%s", op, id), T: g.e.ModelA, Distinct: true, NonNil: true}
}

func (g *Eng) t(name string) types.Type { return g.e.T(name) }

func (g *Eng) ent(id string) *VSym {
	t := g.t("IEntity")
	if c := g.entT[id]; c != nil {
		t = c
	}
	return &VSym{ID: "ent:" + id, T: t, Distinct: true, NonNil: true}
}

func (g *Eng) leafs(id string) *VSym {
	return &VSym{ID: "leaf:" + id, T: g.t("IEntity"), Distinct: true, NonNil: true, Sum: true}
}

var ctxV = func() *VSym { return &VSym{ID: "env:ctx", Distinct: true, NonNil: true} }

func (g *Eng) ctx0() Value  { return &VSym{ID: "env:ctx", T: g.ctxT(), Distinct: true, NonNil: true} }
func (g *Eng) ctxTx() Value { return &VSym{ID: "env:ctxtx", T: g.ctxT(), Distinct: true, NonNil: true} }
func (g *Eng) ctxEv() Value { return &VSym{ID: "env:ctxev", T: g.ctxT(), Distinct: true, NonNil: true} }

func (g *Eng) ctxT() types.Type {
	return g.e.M("", "Engine", "Run").Signature.Params().At(0).Type()
}

func (g *Eng) brk() Value { return g.e.Global("", "ErrBreak") }

// okErr offers success and, where faults are on, one failure.
func (g *Eng) okErr(c *CallCtx, what string, ok Outcome, zero ...Value) []Outcome {
	out := []Outcome{ok}
	if c.St.GetV("fail") == nil && g.faults(what) {
		e := errSym(what)
		pos := c.Pos
		in := c.In
		out = append(out, Outcome{Ret: append(append([]Value{}, zero...), e), Note: what + " fails", Do: func(st *State) {
			st.SetV("fail", e)
			st.Set("failat", in.pos(pos))
		}})
	}
	return out
}

func (g *Eng) must(c *CallCtx, ok bool, rule, what, msg string) {
	c.In.Check(c.St, ok, rule, what, c.Pos, msg)
}

// runCtx checks the context an executor or bus call receives.
func (g *Eng) runCtx(c *CallCtx, v Value, what string) {
	if c.St.Get("tx") == "open" {
		g.must(c, ctxHas(v, g.ctxTx()), "C01/ctx", what, what+" does not receive the context returned by Begin")
	} else {
		g.must(c, ctxHas(v, g.ctx0()), "C01/ctx", what, what+" does not receive the caller's context")
	}
}

func (g *Eng) afterFail(c *CallCtx, what string) {
	if f := c.St.GetV("fail"); f != nil {
		g.must(c, false, "C03/after-failure", what, fmt.Sprintf("%s after %s was reported at %s", what, short(f.K()), c.St.Get("failat")))
	} else {
		g.must(c, true, "C03/after-failure", what, "")
	}
	if m := c.St.Get("main"); m != "" && m != "running" && m != "ok" {
		g.must(c, false, "C03/after-failure", what, what+" after the command ended with "+m)
	}
}

func (g *Eng) held(st *State) (held []string) {
	for _, k := range dedupeKeys(g.keys) {
		if st.Get("lk:"+k) == "held" {
			held = append(held, k)
		}
	}
	return
}

func dedupeKeys(ks []string) []string {
	m := map[string]bool{}
	var r []string
	for _, k := range ks {
		if !m[k] {
			m[k] = true
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (g *Eng) lockState(c *CallCtx, what string) {
	if len(g.keys) == 0 {
		return
	}
	ks := dedupeKeys(g.keys)
	g.must(c, len(ks) == len(g.keys), "C02/duplicate", what, what+" although a lock key is repeated")
	g.must(c, len(g.held(c.St)) == len(ks), "C02/before", what, what+" before all lock keys are held")
}

// losesKey names the function through which a lock key passes that maps
// different keys to the same text ("": none does).
func losesKey(v Value) string {
	found := ""
	var walk func(Value)
	walk = func(v Value) {
		if i, ok := v.(*VIface); ok {
			v = i.V
		}
		x, ok := v.(*VApp)
		if !ok || found != "" {
			return
		}
		has := false
		walkValue(x, func(s *VSym) { has = has || strings.HasPrefix(s.ID, "ord:") }, func(string) {})
		if !has {
			return
		}
		switch {
		case x.F == "substr":
			found = "a part of it only"
		case strings.HasPrefix(x.F, "path."):
			found = x.F
		case strings.HasPrefix(x.F, "strings."):
			switch n := strings.TrimPrefix(x.F, "strings."); {
			case strings.HasPrefix(n, "To"), strings.HasPrefix(n, "Title"), strings.HasPrefix(n, "Trim"), strings.HasPrefix(n, "Replace"), n == "Map":
				found = x.F
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(v)
	return found
}

func (g *Eng) wire() {
	on := g.onCall
	// ---- locks
	on[imeth("ILock", "Lock")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("tx") == "", "C02/order", "Lock", "a lock is acquired after the transaction opened")
		g.must(c, c.St.Get("main") == "", "C02/order", "Lock", "a lock is acquired after the command started")
		g.must(c, ctxHas(c.Args[0], g.ctx0()), "C02/ctx", "Lock", "Lock does not receive the caller's context")
		var ids []string
		walkValue(c.Args[1], func(s *VSym) {
			if strings.HasPrefix(s.ID, "ord:") {
				ids = append(ids, strings.TrimPrefix(s.ID[4:], "lk"))
			}
		}, func(string) {})
		id := "?"
		if len(ids) == 1 {
			id = ids[0]
		}
		g.must(c, len(ids) == 1, "C02/key", "Lock", "the lock key does not identify one of the requested keys")
		if f := losesKey(c.Args[1]); f != "" {
			g.must(c, false, "C02/key", "Lock", "the lock key is made of a requested key with "+f+", so that different keys can be confused or equal ones separated")
		}
		g.must(c, c.St.Get("lk:"+id) == "", "C02/once", "Lock", "a key is locked twice")
		g.must(c, len(dedupeKeys(g.keys)) == len(g.keys), "C02/duplicate", "Lock", "a lock is acquired although a lock key is repeated")
		last := c.St.Get("lastlock")
		g.must(c, last < id, "C02/sorted", "Lock", "locks are not acquired in sorted order of their keys")
		g.afterFail(c, "Lock")
		h := &VSym{ID: "env:lock:" + id, Distinct: true, NonNil: true}
		out := g.okErr(c, "ILock.Lock", Outcome{Ret: []Value{h, VNil{}}, Do: func(st *State) {
			st.Set("lk:"+id, "held")
			st.Set("lastlock", id)
		}}, VNil{})
		if g.faults("ILock.Lock/locked") && c.St.GetV("fail") == nil {
			le := g.e.Global("", "ErrEntityLocked")
			pos := c.In.pos(c.Pos)
			out = append(out, Outcome{Ret: []Value{VNil{}, le}, Note: "Lock reports ErrEntityLocked", Do: func(st *State) {
				st.SetV("fail", le)
				st.Set("failat", pos)
			}})
		}
		return out
	}
	on[imeth("ILock", "UnLock")] = func(c *CallCtx) []Outcome {
		id := ""
		if s, ok := c.Args[1].(*VSym); ok && strings.HasPrefix(s.ID, "env:lock:") {
			id = strings.TrimPrefix(s.ID, "env:lock:")
		}
		g.must(c, id != "" && c.St.Get("lk:"+id) == "held", "C02/release", "UnLock", "something is released that is not held")
		g.must(c, c.St.Get("tx") != "open", "C02/release-order", "UnLock", "a lock is released while the transaction is open")
		g.must(c, c.St.Get("main") != "running", "C02/release-order", "UnLock", "a lock is released while the command runs")
		if id != "" && len(c.In.Violations) == 0 {
			c.St.Set("lk:"+id, "rel")
		} else if id != "" {
			c.St.Set("lk:"+id, "rel")
		}
		out := []Outcome{{Ret: []Value{VNil{}}}}
		if g.faults("ILock.UnLock") {
			out = append(out, Outcome{Ret: []Value{errSym("UnLock")}, Note: "UnLock fails"})
		}
		return out
	}
	// ---- transaction
	on[imeth("ITransaction", "Begin")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.cfg("cfg:tx") == yes, "C01/none", "Begin", "a transaction is opened without being configured")
		g.must(c, c.St.Get("tx") == "", "C01/begin-once", "Begin", "a second transaction is opened")
		g.must(c, c.St.Get("main") == "", "C01/begin-first", "Begin", "the transaction is opened after the command started")
		g.must(c, ctxHas(c.Args[0], g.ctx0()), "C01/ctx", "Begin", "Begin does not receive the caller's context")
		g.lockState(c, "Begin")
		g.afterFail(c, "Begin")
		return g.okErr(c, "ITransaction.Begin", Outcome{Ret: []Value{g.ctxTx(), VNil{}}, Do: func(st *State) { st.Set("tx", "open") }}, VNil{})
	}
	on[imeth("ITransaction", "Commit")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("tx") == "open", "C01/end-once", "Commit", "commit without an open transaction (state: "+c.St.Get("tx")+")")
		g.runCtx(c, c.Args[0], "Commit")
		m := c.St.Get("main")
		g.must(c, c.St.GetV("fail") == nil && m == "ok", "C01/commit-success", "Commit", "commit although the run failed (command: "+m+")")
		g.afterFail(c, "Commit")
		g.must(c, c.St.Get("misuse") == "", "C16/no-commit", "Commit", "commit after a misuse of add/remove was recorded")
		g.dispatchDone(c.In, c.St, c.Pos, "Commit")
		out := g.okErr(c, "ITransaction.Commit", Outcome{Ret: []Value{VNil{}}, Do: func(st *State) { st.Set("tx", "committed") }})
		if len(out) > 1 {
			d := out[1].Do
			out[1].Do = func(st *State) { d(st); st.Set("tx", "commitfailed") }
		}
		return out
	}
	on[imeth("ITransaction", "RollBack")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("tx") == "open", "C01/end-once", "RollBack", "rollback without an open transaction (state: "+c.St.Get("tx")+")")
		g.runCtx(c, c.Args[0], "RollBack")
		c.St.Set("tx", "rolledback")
		out := []Outcome{{Ret: []Value{VNil{}}}}
		if g.faults("ITransaction.RollBack") {
			out = append(out, Outcome{Ret: []Value{errSym("RollBack")}, Note: "RollBack fails"})
		}
		return out
	}
	// ---- executor
	on[imeth("IExecutor", "Exec")] = func(c *CallCtx) []Outcome {
		act := c.Args[1]
		op, okOp := constInt(c.St.field(act, "Op"))
		g.runCtx(c, c.Args[0], "Exec")
		if !okOp {
			op = 0
		}
		if op != opQuery {
			g.must(c, c.St.cfg("cfg:dry") == no, "C09/write", "Exec", "a write is executed in dry-run mode")
			g.must(c, c.St.cfg("cfg:tx") == no || c.St.Get("tx") == "open", "C01/write-in-tx", "Exec", "a write is executed outside the transaction")
			g.must(c, c.St.Get("misuse") == "" || c.St.Get("main") == "running", "C16/no-write", "Exec", "a write is executed after a misuse of add/remove was recorded")
			g.must(c, c.St.Get("dispatched") == "", "C11/order", "Exec", "a write is executed after events were handed to the bus")
			if c.St.Get("main") != "running" {
				g.afterFail(c, "Exec")
			}
			c.St.Set("wrote", "1")
		}
		if dst, ok := c.St.field(act, "QueryResult").(*VIface); ok && op == opQuery {
			// the row that is looked for exists
			if pt, isP := dst.T.(*types.Pointer); isP {
				if p, isV := dst.V.(VPtr); isV {
					c.St.storeCell(p.O, p.P, pt.Elem(), c.St.slice("rows@"+c.Pre, pt.Elem(), stripIface(c.St.field(act, "Query"))))
				}
			}
		}
		if g.onExec != nil {
			g.onExec(c, op, act)
		}
		g.persistAction(c, op, act)
		return g.okErr(c, "IExecutor.Exec", Outcome{Ret: []Value{VNil{}}})
	}
	on[imeth("IConverter", "Model2Entity")] = func(c *CallCtx) []Outcome {
		return g.okErr(c, "IConverter.Model2Entity", Outcome{Ret: []Value{VNil{}}})
	}
	on[imeth("IConverter", "Entity2Model")] = func(c *CallCtx) []Outcome {
		op, _ := constInt(c.Args[2])
		g.must(c, c.St.GetV("fail") == nil, "C03/after-failure-convert", "Entity2Model", "")
		outs := g.model(c, c.Args[0], c.Args[1], op)
		if len(outs) == 0 {
			return outs
		}
		return append(outs[1:len(outs):len(outs)], g.okErr(c, "IConverter.Entity2Model", outs[0], VNil{})...)
	}
	on[imeth("IIDGenerator", "NewID")] = func(c *CallCtx) []Outcome {
		id := c.St.freshSym("newid@"+c.Pre, types.Typ[types.String])
		c.St.addFact(&VPred{Op: "eq", X: id, Y: cStr("")}, false)
		return g.okErr(c, "IIDGenerator.NewID", Outcome{Ret: []Value{id, VNil{}}}, cStr(""))
	}
	// ---- entities
	on[imeth("IEntity", "GetChildren")] = func(c *CallCtx) []Outcome {
		s, ok := c.Recv.(*VSym)
		if !ok {
			return nil
		}
		return ret(g.children(c, s))
	}
	on[imeth("IEntity", "GetEvents")] = func(c *CallCtx) []Outcome {
		s, ok := c.Recv.(*VSym)
		if !ok {
			return nil
		}
		vs := g.events(c, s)
		if len(vs) == 0 {
			return ret(VNil{})
		}
		return ret(c.St.slice("evs:"+c.Pre, c.resT(0), vs...))
	}
	on[imeth("IEntity", "GetID")] = func(c *CallCtx) []Outcome {
		if s, ok := c.Recv.(*VSym); ok {
			if v := c.St.GetV("id:" + s.ID); v != nil {
				return ret(v)
			}
			if s.Sum || strings.HasPrefix(s.ID, "leaf:") {
				v := &VSym{ID: "leafid:" + s.ID, T: types.Typ[types.String], Sum: true}
				return ret(v)
			}
			return ret(&VSym{ID: "cfg:id:" + s.ID, T: types.Typ[types.String]})
		}
		return nil
	}
	on[imeth("IEntity", "SetID")] = func(c *CallCtx) []Outcome {
		if s, ok := c.Recv.(*VSym); ok && strings.HasPrefix(s.ID, "ent:") {
			c.St.SetV("id:"+s.ID, c.Args[0])
		}
		return []Outcome{{}}
	}
	on[imeth("IDirty", "IsDirty")] = func(c *CallCtx) []Outcome {
		s, ok := c.Recv.(*VSym)
		if !ok {
			return nil
		}
		return ret(g.dirty(c, s))
	}
	for _, m := range []string{"UnDirty", "Dirty"} {
		on[imeth("IDirty", m)] = noop
	}
	for _, b := range []string{"Before", "After"} {
		for _, k := range []string{"Create", "Update", "Delete"} {
			n := b + k
			on[imeth("I"+n, n)] = func(c *CallCtx) []Outcome {
				g.hookCall(c, n)
				return g.okErr(c, "I"+n+"."+n, Outcome{Ret: []Value{VNil{}}})
			}
		}
	}
	// ---- bus and timer
	on[imeth("IEventBus", "RegisterEventHandler")] = noop
	on[imeth("ITransactionEventBus", "RegisterEventTXChecker")] = noop
	on[imeth("ITimer", "RegisterTimerHandler")] = noop
	on[imeth("IEventBus", "Dispatch")] = func(c *CallCtx) []Outcome { return g.busDispatch(c, false) }
	on[imeth("ITransactionEventBus", "DispatchBegin")] = func(c *CallCtx) []Outcome { return g.busDispatch(c, true) }
	on[imeth("ITransactionEventBus", "Commit")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("evtx") == "open", "C12/commit", "bus.Commit", "a transactional message is committed that is not open (state: "+c.St.Get("evtx")+")")
		g.must(c, c.St.Get("tx") == "committed", "C12/commit", "bus.Commit", "the transactional message is committed before the executor's commit succeeded")
		g.must(c, ctxHas(c.Args[0], g.ctxEv()), "C12/ctx", "bus.Commit", "bus.Commit does not receive the context of the announcement")
		g.must(c, c.St.cfg("cfg:dry") == no, "C09/bus", "bus.Commit", "the event bus is used in dry-run mode")
		c.St.Set("evtx", "committed")
		out := []Outcome{{Ret: []Value{VNil{}}}}
		if g.faults("bus.Commit") {
			out = append(out, Outcome{Ret: []Value{errSym("bus.Commit")}, Note: "bus.Commit fails"})
		}
		return out
	}
	on[imeth("ITransactionEventBus", "Rollback")] = func(c *CallCtx) []Outcome {
		g.must(c, c.St.Get("evtx") == "open", "C12/rollback", "bus.Rollback", "a transactional message is rolled back that is not open (state: "+c.St.Get("evtx")+")")
		g.must(c, c.St.GetV("fail") != nil && c.St.Get("tx") != "committed" && c.St.Get("tx") != "commitfailed", "C12/rollback", "bus.Rollback", "the transactional message is rolled back although the run did not fail before its commit (transaction: "+c.St.Get("tx")+")")
		g.must(c, ctxHas(c.Args[0], g.ctxEv()), "C12/ctx", "bus.Rollback", "bus.Rollback does not receive the context of the announcement")
		c.St.Set("evtx", "rolledback")
		return ret(VNil{})
	}
	// ---- event persistence
	on["native:persist"] = func(c *CallCtx) []Outcome {
		id := g.evID(c.St, c.Args[0])
		g.must(c, id != "", "C11/persist", "EventPersist", "event persistence is called with something that is not an event of the run")
		m := &VSym{ID: "m:pm:" + id, T: g.e.ModelB, Distinct: true, NonNil: true}
		return g.okErr(c, "EventPersist", Outcome{Ret: []Value{m, VNil{}}}, VNil{})
	}
	on["native:postsave"] = func(c *CallCtx) []Outcome { return g.postSave(c, c.FnV.(*VNative).B[0].K()) }
	on[imeth("ICommandPostSave", "PostSave")] = func(c *CallCtx) []Outcome { return g.postSave(c, "cmd") }
	on[imeth("ICommand", "PostSave")] = func(c *CallCtx) []Outcome { return g.postSave(c, "cmd") }

	g.BH.onEnd = g.end
}

func (g *Eng) hookCall(c *CallCtx, n string) {
	if ok := ctxHas(c.Args[0], g.ctx0()) || ctxHas(c.Args[0], g.ctxTx()); !ok {
		g.must(c, false, "C07/ctx", n, "an entity hook does not receive the context of the run")
	}
	if c.St.Get("tx") == "open" {
		g.must(c, ctxHas(c.Args[0], g.ctxTx()), "C07/ctx", n, "an entity hook does not receive the context of the run")
	}
}

// ---- events -------------------------------------------------------------------

func (g *Eng) evType() types.Type { return g.t("DomainEvent") }

// mkEvent makes an event object; id gives its place in the required order.
// With "eq" all events have the same time and the ID decides; with "inc" the
// times decide and the IDs are in the opposite order.
func (g *Eng) mkEvent(st *State, id string, send string) Value {
	o := "H:ev:" + id
	ord, tm := id, "0"
	if st.Get("evtime") == "inc" {
		ord, tm = "", id
		for _, c := range id {
			ord += string('z' - c + '0')
		}
	}
	if _, ok := st.heap[o]; !ok {
		var sv Value
		if send == "?" {
			sv = &VSym{ID: "cfg:send:" + id, T: g.t("SendType")}
		} else {
			sv = VConst{constant.MakeString(send), g.t("SendType")}
		}
		st.heap[o] = &Obj{Kind: "cells", T: g.evType(), Opaque: true, Cells: map[string]Value{
			".ID":        &VSym{ID: "ord:" + ord, T: types.Typ[types.String], Distinct: true},
			".SendType":  sv,
			".CreatedAt": &VSym{ID: "tm:" + tm, T: fieldType(g.evType(), "", "CreatedAt"), Distinct: true},
		}}
	}
	return VPtr{o, ""}
}

func (g *Eng) evID(st *State, v Value) string {
	if p, ok := stripIface(v).(VPtr); ok && strings.HasPrefix(p.O, "H:ev:") && p.P == "" {
		return strings.TrimPrefix(p.O, "H:ev:")
	}
	return ""
}

func (g *Eng) sendOf(st *State, id string) (tx tri) {
	v := st.heap["H:ev:"+id].Cells[".SendType"]
	t, _ := st.eq(v, VConst{constant.MakeString("transaction"), g.t("SendType")})
	return t
}

func (g *Eng) runEvents(st *State) []string {
	if g.decideEvents != nil {
		return g.decideEvents(st)
	}
	s := st.Get("evset")
	if s == "" || s == "-" {
		return nil
	}
	return strings.Split(s, ",")
}

func (g *Eng) busDispatch(c *CallCtx, begin bool) []Outcome {
	what := "Dispatch"
	if begin {
		what = "DispatchBegin"
	}
	st := c.St
	g.must(c, st.cfg("cfg:dry") == no, "C09/bus", what, "events reach the event bus in dry-run mode")
	g.must(c, st.cfg("cfg:tx") == no || st.Get("tx") == "open", "C11/in-tx", what, "events are handed over outside the transaction")
	g.runCtx(c, c.Args[0], what)
	g.afterFail(c, what)
	g.must(c, st.Get("main") == "ok", "C11/order", what, "events are handed over before the command finished")
	g.must(c, st.Get("misuse") == "", "C16/no-dispatch", what, "events are dispatched after a misuse of add/remove was recorded")
	if g.hookPending != nil {
		g.hookPending(c, what)
	}
	var arg Value = c.Args[1]
	es, exact := c.In.elems(st, arg)
	if !exact {
		g.must(c, g.runEvents(st) == nil, "C11/events", what, "the dispatched events are not exactly the events of the run")
	}
	last := ""
	ownTx := st.cfg("cfg:tx") == yes && g.busIsTx(st)
	for _, e := range es {
		id := g.evID(st, e)
		if id == "" {
			g.must(c, false, "C11/events", what, "something is dispatched that is not an event of the run")
			g.must(c, false, "C10/only", what, "something is dispatched that is not an event of the run")
			continue
		}
		g.must(c, st.Get("disp:"+id) == "", "C11/once", what, "event handed over twice")
		g.must(c, st.Get("disp:"+id) == "", "C10/once", what, "an event is sent twice")
		g.must(c, last < id, "C10/order", what, "events are not dispatched in the order of creation time and ID")
		last = id
		tx := g.sendOf(st, id)
		if begin {
			g.must(c, tx == yes && ownTx, "C12/split", what, "an event is announced transactionally that must be dispatched normally")
		} else if ownTx {
			g.must(c, tx == no, "C12/split", what, "a transactional event is dispatched normally although the bus supports transactions")
		}
		st.Set("disp:"+id, what)
	}
	if len(es) == 0 && exact {
		g.must(c, false, "C11/empty", what, "the event bus is called without events")
	}
	if g.fact(st, "persist") == yes {
		for _, id := range g.runEvents(st) {
			g.must(c, st.Get("persisted:"+id) == "1", "C11/persist-first", what, "an event is handed to the bus before it was persisted")
		}
	}
	st.Set("dispatched", "1")
	if begin {
		g.must(c, st.Get("evtx") == "", "C12/begin-once", what, "a second transactional message is announced")
		return g.okErr(c, "bus."+what, Outcome{Ret: []Value{g.ctxEv(), VNil{}}, Do: func(s *State) { s.Set("evtx", "open") }}, VNil{})
	}
	return g.okErr(c, "bus."+what, Outcome{Ret: []Value{VNil{}}})
}

func (g *Eng) busIsTx(st *State) bool {
	for _, f := range st.facts {
		if f.p.Op == "is" && f.v && strings.HasPrefix(f.p.X.K(), "s:env:bus") {
			return true
		}
	}
	return false
}

func (g *Eng) persistAction(c *CallCtx, op int, act Value) {
	st := c.St
	ms, exact := c.In.elems(st, st.field(act, "Models"))
	var ids []string
	for _, m := range ms {
		if s, ok := stripIface(m).(*VSym); ok && strings.HasPrefix(s.ID, "m:pm:") {
			ids = append(ids, strings.TrimPrefix(s.ID, "m:pm:"))
		}
	}
	if len(ids) == 0 {
		return
	}
	g.must(c, op == opInsert, "C11/persist", "Exec", "events are not persisted by an insert")
	g.must(c, exact && len(ids) == len(ms), "C11/persist", "Exec", "the persisted events share an action with other models")
	g.must(c, strings.Join(ids, ",") == strings.Join(g.runEvents(st), ","), "C11/persist", "Exec", "the persistence action does not hold one model per event in event order")
	g.must(c, st.Get("main") == "ok", "C11/order", "Exec", "events are persisted before the command finished")
	if g.hookPending != nil {
		g.hookPending(c, "event persistence")
	}
	for _, id := range ids {
		g.must(c, st.Get("persisted:"+id) == "", "C11/once", "Exec", "an event is persisted twice")
		st.Set("persisted:"+id, "1")
	}
}

// dispatchDone: everything that has to be handed over was handed over.
func (g *Eng) dispatchDone(in *Interp, st *State, pos token.Pos, what string) {
	if st.cfg("cfg:dry") != no || st.GetV("fail") != nil || st.Get("main") != "ok" || st.Get("misuse") != "" {
		return
	}
	for _, id := range g.runEvents(st) {
		in.Check(st, st.Get("disp:"+id) != "", "C11/handed-over", what, pos, "an event of the run was not handed to the bus before "+what)
		in.Check(st, st.Get("disp:"+id) != "", "C10/all", what, pos, "an event of an entity of the run was not sent before "+what)
		if g.fact(st, "persist") == yes {
			in.Check(st, st.Get("persisted:"+id) == "1", "C11/persist", what, pos, "an event of the run was not persisted before "+what)
		}
	}
}

func (g *Eng) fact(st *State, what string) tri {
	if what == "persist" {
		if g.persist {
			return yes
		}
		return no
	}
	return unknown
}

func (g *Eng) postSave(c *CallCtx, who string) []Outcome {
	st := c.St
	who = strings.Trim(strings.TrimPrefix(who, "c:"), "\"")
	g.must(c, c.Args[0].K() == g.ctx0().K() || (ctxHas(c.Args[0], g.ctx0()) && !ctxHas(c.Args[0], g.ctxTx())), "C17/ctx", "PostSave", "a post-save hook does not receive the caller's context")
	g.must(c, st.Get("tx") != "open", "C17/after", "PostSave", "a post-save hook runs while the transaction is open")
	g.must(c, st.Get("main") != "running", "C17/after", "PostSave", "a post-save hook runs while the command runs")
	g.must(c, len(g.held(st)) == 0, "C17/after", "PostSave", "a post-save hook runs while a lock is held")
	f := st.GetV("fail")
	bad := f != nil && f.K() != g.brk().K() || st.Get("misuse") != ""
	g.must(c, !bad, "C17/success", "PostSave", "a post-save hook runs although the run failed")
	if st.cfg("cfg:tx") == yes && f == nil {
		g.must(c, st.Get("tx") == "committed", "C17/after", "PostSave", "a post-save hook runs before the commit")
	}
	seq := st.Get("ps")
	want := ""
	i := 0
	if seq != "" {
		i = len(strings.Split(seq, ","))
	}
	if i < len(g.hookNames) {
		want = g.hookNames[i]
	}
	g.must(c, who == want, "C17/order", "PostSave", fmt.Sprintf("post-save hook %s runs as number %d", who, i+1))
	if v := st.GetV("psres"); v != nil {
		g.must(c, v.K() == c.Args[1].K(), "C17/result", "PostSave", "the post-save hooks of a run get different results")
	}
	st.SetV("psres", c.Args[1])
	if seq == "" {
		seq = who
	} else if i < 5 {
		seq += "," + who
	}
	st.Set("ps", seq)
	return []Outcome{{}}
}

// end judges the end of the run.
func (g *Eng) end(in *Interp, st *State, panicked Value) {
	pos := token.NoPos
	ck := func(ok bool, rule, what, msg string) { in.Check(st, ok, rule, what, pos, msg) }
	tx := st.Get("tx")
	mainSt := st.Get("main")
	if panicked != nil && mainSt != "panic" {
		if a, ok := panicked.(*VApp); ok && strings.HasPrefix(a.F, "runtime:") && g.panicRule != "" {
			ck(false, g.panicRule, "run", "the run panics by itself: "+strings.TrimPrefix(a.F, "runtime:"))
		}
		in.Obl["unexpected-panic:"+short(panicked.K())]++
		return
	}
	ck(tx != "open", "C01/end-once", "end of run", "the transaction is neither committed nor rolled back when the run ends")
	for _, k := range dedupeKeys(g.keys) {
		ck(st.Get("lk:"+k) != "held", "C02/released", "end of run", "a lock is still held when the run ends")
	}
	fail := st.GetV("fail")
	if mainSt == "panic" {
		ck(panicked != nil && panicked.K() == panicV().K(), "C01/panic", "end of run", "the panic of the command does not reach the caller")
		if st.cfg("cfg:tx") == yes {
			ck(tx == "rolledback", "C01/panic-rollback", "end of run", "the transaction is not rolled back when the command panics")
		}
		return
	}
	if st.cfg("cfg:tx") == yes && tx != "" && fail != nil && tx != "commitfailed" {
		ck(tx == "rolledback", "C01/rollback-failure", "end of run", "the transaction of a failed run is not rolled back")
	}
	if st.Get("evtx") != "" {
		want := "open"
		if tx == "committed" {
			want = "committed"
		} else if tx == "rolledback" {
			want = "rolledback"
		}
		ck(st.Get("evtx") == want, "C12/decided", "end of run", "the transactional message is "+st.Get("evtx")+" although the transaction ended "+tx)
	}
	res := st.GetV("res")
	if res == nil {
		return
	}
	ev := st.field(res, "Error")
	bv := st.field(res, "Break")
	if ev == nil || bv == nil {
		ck(false, "C03/result", "end of run", "the run returns no result")
		return
	}
	isBrk, _ := constBool(bv)
	_, errNil := ev.(VNil)
	ok := fail == nil && st.Get("misuse") == ""
	switch {
	case fail != nil && fail.K() == g.brk().K():
		ck(isBrk, "C03/break", "end of run", "the break of the command is not reported as break")
	case fail != nil:
		ck(in.inChain(st, ev, fail), "C03/reported", strings.TrimPrefix(short(fail.K()), "s:err:"), fmt.Sprintf("the failure %s reported at %s is lost", short(fail.K()), st.Get("failat")))
	case st.Get("misuse") != "":
		t, _ := st.isNil(ev)
		ck(t == no || isBrk, "C16/reported", st.Get("misuse"), "the run succeeds although "+st.Get("misuse"))
	default:
		dup := len(dedupeKeys(g.keys)) != len(g.keys)
		if dup {
			ck(!errNil, "C02/duplicate", "end of run", "a run with a repeated lock key ends without error")
			ok = false
		} else {
			t, _ := st.isNil(ev)
			ck(tx != "rolledback" || t == no || isBrk, "C01/rollback-failure", "end of run", "a run without failure is rolled back but reports success")
			ck(tx != "committed" || t != no, "C01/success", "end of run", "a committed run without failure returns an error")
			if t == no {
				ok = false
			}
		}
	}
	if ok {
		if st.cfg("cfg:tx") == yes {
			ck(tx == "committed", "C01/commit-success", "end of run", "a successful run ends without commit")
		}
		ck(mainSt == "ok" || st.Get("nomain") != "", "C01/main", "end of run", "a run ends without error although its command never ran")
		g.dispatchDone(in, st, pos, "the end of the run")
	}
	if g.hooks && len(g.hookNames) > 0 {
		want := ""
		if t, _ := st.isNil(ev); t == yes {
			want = strings.Join(g.hookNames, ",")
		}
		if st.Get("nohooks") == "" {
			ck(st.Get("ps") == want || (want != "" && isBrk && st.Get("ps") == ""), "C17/all", "end of run", "post-save hooks called: ["+st.Get("ps")+"] instead of ["+want+"]")
		}
		if v := st.GetV("psres"); v != nil {
			ck(v.K() == res.K(), "C17/result", "end of run", "the post-save hooks did not get the result of the run")
		}
	}
	if g.atEnd != nil {
		g.atEnd(in, st, ok)
	}
}

func panicV() Value { return &VSym{ID: "env:panic", Distinct: true, NonNil: true} }

var _ = strconv.Itoa
