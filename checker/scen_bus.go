package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const busPkg = "eventbus/mysql"

// busLab: the event bus that keeps its events in a database.
type busLab struct {
	*DBLab
	evT, sevT, txnT, svcT *types.Named

	nDeliv  int      // deliveries a scan finds
	fresh   []int    // status of a delivery when it is read under its lock
	send    string   // send type of the events
	senders []string // their senders
	unasked bool
	missing bool     // event rows may be missing
	scanErr bool     // the queries of the scan may fail
	lockErr bool     // reading the delivery under its lock may fail
	hands   []string // outcomes of the handler
	policy  string   // env, interval, custom, default
	conc    int
	trans   func(c *CallCtx, op *DBOp) []dbAns // operations on message records during a tick
	pred    bool                               // predecessors may exist
	turns   int                                // turns of the worker that find nothing
}

const (
	delivInit    = 0
	delivDone    = 10
	delivFailed  = 21
	delivPreFail = 22
	delivExpired = 31
)

func newBusLab(e *Env, rule string) *busLab {
	x := &busLab{DBLab: newDBLab(e, rule), nDeliv: 1, fresh: []int{delivInit}, send: "normal", senders: []string{"s1"}, hands: []string{"ok", "err"}, policy: "env", conc: 1}
	named := func(n string) *types.Named { return e.T(busPkg + "." + n).(*types.Named) }
	x.evT, x.sevT, x.txnT, x.svcT = named("EventPO"), named("ServiceEventPO"), named("Transaction"), named("ServicePO")
	for n, want := range map[string]int{"ServiceEventStatusInit": delivInit, "ServiceEventStatusSuccess": delivDone, "ServiceEventStatusFailed": delivFailed, "ServiceEventStatusExpired": delivExpired} {
		if i, ok := constInt(e.P.constOf(busPkg, n)); !ok || i != want {
			panic(missing{"the value of " + n + " is not the one stored so far"})
		}
	}
	x.goMode = func(c *CallCtx) int { return goNow }
	x.BH.decide = x.dec
	x.onEv = x.ev
	x.txev = x.tx
	x.onCall["native:busopt"] = x.setOptions
	ip := e.envType("RetryPolicy", types.NewStruct(nil, nil), methodsOf(e.T(busPkg+".IRetryStrategy"))...)
	_ = ip
	x.onCall["("+pkgPath(busPkg)+".IRetryStrategy).Next"] = x.next
	x.onCall["("+pkgPath(busPkg)+".IRetryStrategy).RetryCount"] = func(c *CallCtx) []Outcome { return ret(x.envInt("retrylimit")) }
	x.onCall["native:handler"] = x.handle
	x.onCall["native:txchecker"] = x.checker
	x.q = x.query
	return x
}

func (x *busLab) envInt(n string) *VSym { return &VSym{ID: "env:" + n, T: types.Typ[types.Int]} }

// positive lists the numbers of the environment that are known to be positive.
func positive(v Value) bool {
	s, ok := v.(*VSym)
	if !ok {
		return false
	}
	for _, p := range []string{"row:d", "row:ev", "row:pre", "row:tx", "env:retryinterval", "env:txtimeout", "env:interval", "env:runinterval", "env:limit", "row:start"} {
		if strings.HasPrefix(s.ID, p) {
			return true
		}
	}
	return false
}

func (x *busLab) dec(st *State, p *VPred) tri {
	r := unknown
	switch p.Op {
	case "nil":
		if a, ok := p.X.(*VApp); ok && a.F == "ctxlookup" {
			r = yes // a context of the environment carries nothing of the bus
		}
	case "lt":
		if t := x.decide(st, p); t != unknown {
			return t
		}
		if n, ok := constInt(p.X); ok {
			if positive(p.Y) && n <= 0 {
				r = yes
			}
			// lengths of names are within their limits
			if a, ok := p.Y.(*VApp); ok && n >= 30 && len(a.Args) == 1 && a.Args[0].K() == x.service().K() {
				r = no
			}
			if s, ok := p.Y.(*VSym); ok && s.ID == "env:retention" && n <= -1 {
				r = yes
			}
		}
		if n, ok := constInt(p.Y); ok {
			if positive(p.X) && n <= 1 {
				r = no
			}
			if s, ok := p.X.(*VSym); ok && s.ID == "env:retention" && n <= 0 {
				r = no
			}
			if a, ok := p.X.(*VApp); ok && n > 30 && len(a.Args) == 1 && a.Args[0].K() == x.service().K() {
				r = yes
			}
		}
	}
	if r == unknown || !p.Neg {
		return r
	}
	return triOf(r == no)
}

func (x *busLab) service() Value { return x.env("service", types.Typ[types.String]) }
func (x *busLab) ctx() Value     { return x.env("ctx", x.ctxT()) }
func (x *busLab) optT(f string) types.Type {
	return fieldType(x.t(busPkg+".Options"), "", f)
}

func (x *busLab) limit() Value     { return &VSym{ID: "env:limit", T: x.optT("LimitPerRun")} }
func (x *busLab) txTimeout() Value { return &VSym{ID: "env:txtimeout", T: x.optT("TXCheckTimeout")} }
func (x *busLab) retention() Value { return &VSym{ID: "env:retention", T: x.optT("RetentionTime")} }
func (x *busLab) interval(n string) Value {
	return &VSym{ID: "env:interval" + n, T: x.optT("RetryInterval")}
}
func (x *busLab) retryLimit() Value { return &VSym{ID: "env:retrylimit", T: types.Typ[types.Int]} }

func (x *busLab) policyV() Value {
	t := x.e.envType("RetryPolicy", nil)
	return &VIface{T: types.NewPointer(t), V: x.env("policy", types.NewPointer(t))}
}

func (x *busLab) setOptions(c *CallCtx) []Outcome {
	p, ok := stripIface(c.Args[0]).(VPtr)
	if !ok {
		return ret()
	}
	set := func(f string, v Value) { c.St.storeCell(p.O, p.P+"."+f, x.optT(f), v) }
	set("RunInterval", &VSym{ID: "env:runinterval", T: x.optT("RunInterval")})
	set("CleanCron", x.env("cleancron", types.Typ[types.String]))
	set("RetentionTime", x.retention())
	set("LimitPerRun", x.limit())
	set("ConsumeConcurrent", cInt(x.conc))
	set("TXCheckTimeout", x.txTimeout())
	customs := func() Value {
		return c.St.slice("H:customs", x.optT("CustomRetry"), x.interval("0"), x.interval("1"))
	}
	switch x.policy {
	case "env":
		set("RetryStrategy", x.policyV())
		// the policy configured explicitly wins
		set("RetryInterval", x.interval(""))
		set("RetryLimit", x.retryLimit())
		set("CustomRetry", customs())
	case "interval":
		set("RetryInterval", x.interval(""))
		set("RetryLimit", x.retryLimit())
	case "custom":
		set("CustomRetry", customs())
	}
	return ret()
}

// build constructs the bus into loc["bus"].
func (x *busLab) build(steps ...stepFn) []stepFn {
	f := x.e.Fn(busPkg + ".NewEventBus")
	ss := []stepFn{
		do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }),
		func(in *Interp, st *State, fr *Frame) []*State {
			o := st.slice("H:opts", f.Signature.Params().At(2).Type(), native("busopt"))
			return in.CallFn(st, f, "new", x.service(), x.db(), o)
		},
		keep("bus"),
		func(in *Interp, st *State, fr *Frame) []*State {
			in.Check(st, st.Get("registered") != "" || len(failed(st)) > 0, "C29/service", "NewEventBus", 0, "a bus is constructed without registering its service")
			publish(st, fr.loc["bus"])
			for _, f := range failed(st) {
				delete(st.mon, failedPre+f.K())
			}
			delete(st.mon, "firstfail")
			st.Set("phase", "ready")
			return nil
		},
	}
	return append(ss, steps...)
}

func (x *busLab) call(name, phase string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", phase)
		return in.CallFn(st, x.e.M(busPkg, "EventBus", name), "call:"+name, append([]Value{fr.loc["bus"]}, args(st, fr)...)...)
	}
}

// event makes a domain event.
func (x *busLab) event(st *State, id string, send string, sender string) Value {
	t := x.t("DomainEvent")
	s := t.Underlying().(*types.Struct)
	cells := map[string]Value{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		cells["."+f.Name()] = &VSym{ID: "env:" + id + "." + f.Name(), T: f.Type(), Distinct: true, NonNil: true}
	}
	if send != "" {
		c := cStr(send).(VConst)
		c.T = fieldType(t, "", "SendType")
		cells[".SendType"] = c
		cells[".Sender"] = cStr(sender)
	}
	st.heap["H:"+id] = &Obj{Kind: "cells", T: t, Cells: cells}
	return VPtr{"H:" + id, ""}
}

func (x *busLab) rowID(n string) *VSym {
	return &VSym{ID: "row:" + n, T: types.Typ[types.Int64], Distinct: true, NonNil: true}
}

// ---- events of the analysis ---------------------------------------------------

func (x *busLab) ev(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	depth, _ := strconv.Atoi(st.Get("godepth"))
	switch kind {
	case "gostart":
		st.Set("godepth", strconv.Itoa(depth+1))
	case "goend":
		if depth == 1 && st.Get("phase") == "saved" {
			x.afterTick(in, st, pos)
		} else if depth == 1 {
			in.Check(st, st.Get("ctxdone") != "", "C38/worker", "worker", pos, "the background worker of the bus ends although nobody stopped it")
		}
		st.Set("godepth", strconv.Itoa(depth-1))
		if depth == 1 {
			st.Set("godepth", "")
		}
	case "crash":
		in.Check(st, false, "C38/crash", "worker", pos, "a panic leaves a background goroutine and ends the process")
	case "rtpanic":
		msg := "runtime panic"
		if len(args) > 0 {
			if s, ok := constString(args[0]); ok {
				msg = s
			}
		}
		in.Check(st, st.Get("phase") == "ctor", x.rule+"/panic", stateFn(st), pos, msg)
	case "recv":
		s, ok := args[0].(*VSym)
		if a, isApp := args[0].(*VApp); isApp && a.F == "ctxdone" {
			st.Set("ctxdone", "1")
		}
		if !ok || s.ID != "tick" {
			return
		}
		if st.Get("worked") == "" && st.Get("ticks") == "" {
			st.Set("ticks", "1")
			st.Set("phase", "tick")
			return
		}
		x.afterTick(in, st, pos)
		if n, _ := strconv.Atoi(st.Get("ticks")); n < x.turns {
			// nothing is left of the turn
			for k := range st.mon {
				if strings.HasPrefix(k, "mustlog!") || strings.HasPrefix(k, "logged!") || strings.HasPrefix(k, failedPre) {
					delete(st.mon, k)
				}
			}
			for _, k := range []string{"firstfail", "scanfail", "scanned", "start", "probe", "worked", "asked:messages", "asked:events"} {
				delete(st.mon, k)
			}
			st.Set("ticks", strconv.Itoa(n+1))
			return
		}
		st.Set(haltKey, "1")
	case "log":
		markLogged(in, st, args)
	}
}

// markLogged notes which errors a log entry tells about.
func markLogged(in *Interp, st *State, args []Value) {
	for _, f := range failed(st) {
		for _, a := range args[1:] {
			vs := []Value{a}
			if es, ok := in.variadic(st, a, nil); ok {
				vs = es
			}
			for _, v := range vs {
				v = stripValIface(v)
				if v != nil && inErr(in, st, v, f) {
					st.Set("logged!"+f.K(), "1")
				}
			}
		}
	}
	// what was thrown is told in any form
	for _, a := range args[1:] {
		walkDeep(st, a, func(k string) {
			if st.mon["panicked!"+k] != nil {
				st.Set("logged!"+k, "1")
			}
		})
	}
}

// stripValIface keeps errors, which are interface values themselves.
func stripValIface(v Value) Value {
	if i, ok := v.(*VIface); ok {
		return i.V
	}
	return v
}

func mustLog(st *State, e Value) { st.Set("mustlog!"+e.K(), "1") }

// afterTick: the worker is back at its ticker.
func (x *busLab) afterTick(in *Interp, st *State, pos token.Pos) {
	var ks []string
	for k := range st.mon {
		if strings.HasPrefix(k, "mustlog!") {
			ks = append(ks, k[8:])
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if st.Get("phase") == "saved" {
			break // the worker will tell, it looks for the same deliveries
		}
		in.Check(st, st.Get("logged!"+k) != "", "C38/log", "worker", pos, "an error of the worker is neither handled nor logged: "+k)
	}
	in.Check(st, !openTx(st), x.rule+"/tx", "worker", pos, "a transaction is still open when the worker waits for its next turn")
	// every delivery that was found is tried once
	if n := st.Get("scanned"); n != "" && st.Get("scanfail") == "" {
		k, _ := strconv.Atoi(n)
		for i := 0; i < k; i++ {
			id := strconv.Itoa(i)
			if st.Get("gone!"+id) != "" || st.Get("beginfail") != "" {
				continue
			}
			in.Check(st, st.Get("locked!"+id) == "1", "C34/once", "worker", pos, "a delivery that was found is not handed to a worker exactly once")
		}
	}
	if x.turns > 0 {
		in.Check(st, st.Get("asked:messages") != "", "C38/turn", "worker", pos, "the worker does not look for overdue messages in its turn")
		in.Check(st, st.Get("asked:events") != "", "C38/turn", "worker", pos, "the worker does not look for events in its turn, whatever happened to the messages")
	}
	// messages
	x.settle(in, st, pos)
	if !x.unasked {
		for k := range st.mon {
			if n := strings.TrimPrefix(k, "overdue!"); n != k {
				in.Check(st, st.Get("asked!"+n) != "", "C30/every", "overdue", pos, "the checker is not asked about an overdue message that was read")
			}
		}
	}
}

// tx observes the transactions.
func (x *busLab) tx(c *CallCtx, op *DBOp, ok bool) {
	st := c.St
	st.Set("worked", "1")
	if ph := st.Get("phase"); (ph == "tick" || ph == "saved") && !ok {
		if op.Kind == "begin" && x.turns > 0 {
			// which of both it was for cannot be told
			if st.Get("asked:messages") != "" {
				st.Set("asked:events", "1")
			}
			st.Set("asked:messages", "1")
		}
		if st.Get("scanned") == "" {
			if e := st.GetV("firstfail"); e != nil {
				mustLog(st, e)
			}
		} else if op.Kind == "begin" {
			st.Set("beginfail", "1")
		}
	}
	k := op.Root.K()
	switch op.Kind {
	case "commit":
		if st.Get("curtx") == k {
			if d := st.Get("out"); d != "" {
				x.must(c, st.Get("saved") == "1", "C31/saved", d, "the outcome of a delivery ("+d+") is committed without having been saved")
			}
			if ok && st.Get("savefail") != "" {
				x.must(c, false, "C31/rollback", "Save", "the transaction of a delivery is committed although saving the delivery failed")
			}
		}
		if ok {
			st.Set("committed!"+k, "1")
		}
	case "rollback":
		if st.Get("curtx") == k && (st.Get("out") == "done" || st.Get("out") == "failed") && st.Get("savefail") == "" && ok {
			x.must(c, false, "C31/recorded", st.Get("out"), "the outcome of a delivery ("+st.Get("out")+") is rolled back although nothing failed")
		}
	}
	if op.Kind != "begin" && st.Get("curtx") == k {
		for _, m := range []string{"cur", "curtx", "out", "saved", "savefail", "called", "asked", "pending", "look", "herr", "granted", "refused"} {
			delete(st.mon, m)
		}
	}
}

// query answers the data operations.
func (x *busLab) query(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	ph := st.Get("phase")
	switch {
	case ph == "ctor":
		return x.register(c, op)
	case ph == "clean":
		return x.clean(c, op)
	case ph == "tick" || ph == "start" || ph == "saved":
		st.Set("worked", "1")
		if op.Table != nil && (op.Table.Obj() == x.txnT.Obj() || st.Get("msg") != "") {
			if x.trans != nil {
				return x.trans(c, op)
			}
			st.Set("asked:messages", "1")
			return x.noMessages(c, op)
		}
		if x.turns > 0 {
			st.Set("asked:events", "1")
		}
		return x.tickQ(c, op)
	}
	return x.outbox(c, op)
}

// register answers the construction of the bus.
func (x *busLab) register(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	if op.Table == nil || op.Table.Obj() != x.svcT.Obj() {
		st.Set(taintKey, "constructing a bus touches "+op.table())
		return []dbAns{{}}
	}
	bad := x.fail(c, op)
	switch op.Kind {
	case "firstorcreate":
		x.must(c, op.has("name", "=", x.service()) && len(op.Conds) == 1, "C29/service", op.Kind, "the service that is registered is not the bus's own: "+op.String())
		return []dbAns{{Rows: cInt(1), Do: func(st *State) { st.Set("registered", "1") }}, bad}
	case "create", "save":
		ok := len(op.Items) == 1
		if ok {
			n := dbField(st, op.Items[0], "Name")
			ok = n != nil && sameVal(n, x.service())
		}
		x.must(c, ok, "C29/service", op.Kind, "the service that is registered is not the bus's own")
		return []dbAns{{Rows: cInt(1), Do: func(st *State) { st.Set("registered", "1") }}, bad}
	case "first", "take", "find", "count":
		hit := dbAns{Rows: cInt(1), Do: func(st *State) { st.Set("registered", "1") }}
		if !op.has("name", "=", x.service()) {
			hit.Do = nil
		}
		return []dbAns{hit, {Rows: cInt(0), Err: extErr("gorm.io/gorm", "ErrRecordNotFound")}, bad}
	}
	st.Set(taintKey, "constructing a bus: "+op.String())
	return []dbAns{{}}
}

// noMessages: there are no overdue messages.
func (x *busLab) noMessages(c *CallCtx, op *DBOp) []dbAns {
	dst := op.Dest
	as := []dbAns{{Rows: cInt(0), Do: func(st *State) { dbFill(st, dst, nil, true) }}}
	if x.turns > 0 {
		bad := x.fail(c, op)
		do := bad.Do
		bad.Do = func(st *State) { do(st); mustLog(st, st.GetV("firstfail")) }
		as = append(as, bad)
	}
	return as
}

// ---- the outbox -----------------------------------------------------------------

// inTx: is the operation part of an open transaction?
func inTx(st *State, op *DBOp) bool { return txState(st, op.Root) == "open" }

// assign gives a created row its key.
func assignID(st *State, item Value, id Value) bool {
	p, ok := stripIface(item).(VPtr)
	if !ok || st.heap[p.O] == nil {
		return false
	}
	st.storeCell(p.O, p.P+".ID", types.Typ[types.Int64], id)
	return true
}

// outbox answers the operations of Dispatch, DispatchBegin, Commit and Rollback.
// The monitor "events" names the events to store, "txid" their message.
func (x *busLab) outbox(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	ph := st.Get("phase")
	bad := x.fail(c, op)
	if op.Table == nil {
		st.Set(taintKey, "an operation without table")
		return []dbAns{{}, bad}
	}
	x.must(c, len(failed(st)) == 0 || ph == "tick", x.rule+"/stop", op.Kind, "the bus goes on after a database error: "+op.String())
	evs := strings.Fields(st.Get("events"))
	switch op.Table.Obj() {
	case x.evT.Obj():
		return x.storeEvents(c, op, evs, bad)
	case x.svcT.Obj():
		return x.services(c, op, bad)
	case x.sevT.Obj():
		return x.storeDeliveries(c, op, evs, bad)
	case x.txnT.Obj():
		return x.message(c, op, evs, bad)
	}
	st.Set(taintKey, "a table that is not known: "+op.String())
	return []dbAns{{}, bad}
}

// wantTx is the message ID the stored rows must carry.
func (x *busLab) wantTx(st *State) Value { return st.GetV("txid") }

func (x *busLab) storeEvents(c *CallCtx, op *DBOp, evs []string, bad dbAns) []dbAns {
	st := c.St
	ph := st.Get("phase")
	switch op.Kind {
	case "create", "createinbatches":
		x.must(c, op.unwritten() == "", "C29/columns", "EventPO", "an event is stored without its "+op.unwritten())
	case "first", "take", "find", "count":
		// are the rows of the message there already?
		id := x.wantTx(st)
		x.must(c, id != nil && op.has("trans_id", "=", id) && len(op.Conds) == 1, "C30/exists", ph, "the lookup of a message's rows is not by its ID: "+op.String())
		x.must(c, st.Get("looked") == "", "C30/exists", ph, "the rows of a message are looked up twice")
		dst := op.Dest
		k := op.Kind
		hit := dbAns{Rows: cInt(1), Note: "the message was sent already", Do: func(st *State) {
			st.Set("looked", "there")
			if k == "count" {
				dbFill(st, dst, []Value{cInt(1)}, false)
				return
			}
			dbFill(st, dst, []Value{dbRow(st, x.evT, "row:sent", map[string]Value{"ID": x.rowID("evsent"), "TransID": id})}, k == "find")
		}}
		none := dbAns{Rows: cInt(0), Note: "the message was not sent yet", Do: func(st *State) {
			st.Set("looked", "none")
			if k == "count" {
				dbFill(st, dst, []Value{cInt(0)}, false)
			} else {
				dbFill(st, dst, nil, true)
			}
		}}
		if k == "first" || k == "take" {
			none.Err = extErr("gorm.io/gorm", "ErrRecordNotFound")
		}
		return []dbAns{hit, none, bad}
	default:
		x.must(c, false, "C29/write", op.Kind, "the bus changes event rows while dispatching: "+op.String())
		return []dbAns{{}, bad}
	}
	x.must(c, inTx(st, op), "C29/atomic", "EventPO", "event rows are stored outside of a database transaction")
	x.sameTx(c, op)
	if ph == "commit" || ph == "tick" {
		x.must(c, st.Get("looked") == "none", "C30/once", "Dispatch", "a message is sent without having made sure that it was not sent before")
	}
	x.must(c, ph != "rollback" && ph != "begin", "C30/"+ph, "Dispatch", "events are stored by "+ph)
	x.must(c, !op.Conflict, "C29/write", op.Kind, "storing event rows may overwrite or skip existing ones")
	var ids []Value
	for _, it := range op.Items {
		e := x.eventOf(st, it)
		x.must(c, e != "" && contains(evs, e), "C29/events", "EventPO", "a row is stored for something that is not one of the events to dispatch")
		if e == "" {
			ids = append(ids, nil)
			continue
		}
		x.must(c, st.GetV("stored!"+e) == nil, "C29/events", "EventPO", "an event is stored twice")
		p := VPtr{"H:" + e, ""}
		for f, g := range map[string]string{"EventID": "ID", "Sender": "Sender", "EventCreatedAt": "CreatedAt"} {
			v, w := dbField(st, it, f), st.field(p, g)
			x.must(c, v != nil && w != nil && sameVal(v, w), "C29/row", f, "an event row does not carry the event's own "+g)
		}
		t := dbField(st, it, "TransID")
		if id := x.wantTx(st); id != nil {
			x.must(c, t != nil && sameVal(t, id), "C29/trans", "TransID", "an event row of a message does not carry the message's ID")
		} else {
			x.must(c, t == nil || isZeroValue(t), "C29/trans", "TransID", "an event row that belongs to no message carries a message ID")
		}
		ids = append(ids, x.rowID("ev:"+e))
	}
	items := op.Items
	return []dbAns{{Rows: cInt(len(items)), Do: func(st *State) {
		st.Set("wrote", "1")
		for i, it := range items {
			if ids[i] == nil {
				continue
			}
			if !assignID(st, it, ids[i]) {
				st.Set(taintKey, "rows that are created by value")
			}
			st.SetV("stored!"+x.eventOf(st, it), ids[i])
		}
	}}, bad}
}

// sameTx: everything one dispatch stores belongs to one transaction.
func (x *busLab) sameTx(c *CallCtx, op *DBOp) {
	st := c.St
	if v := st.GetV("dispatchtx"); v != nil {
		x.must(c, v.K() == op.Root.K(), "C29/atomic", op.table(), "the rows of one dispatch are stored by different transactions")
	}
	st.SetV("dispatchtx", op.Root)
	if w := st.GetV("msgtx"); w != nil {
		x.must(c, op.Root.K() == w.K(), "C30/tx", op.table(), "an overdue message is not handled by the transaction that locked it")
	}
}

// eventOf names the event a row was made of.
func (x *busLab) eventOf(st *State, item Value) string {
	v := dbField(st, item, "Event")
	if p, ok := stripIface(orNil(v)).(VPtr); ok && strings.HasPrefix(p.O, "H:") {
		return strings.TrimPrefix(p.O, "H:")
	}
	return ""
}

func (x *busLab) services(c *CallCtx, op *DBOp, bad dbAns) []dbAns {
	st := c.St
	switch op.Kind {
	case "find", "pluck", "scan":
	default:
		st.Set(taintKey, "services: "+op.String())
		return []dbAns{{}, bad}
	}
	x.must(c, len(op.Conds) == 0 && op.Limit == nil, "C29/services", op.Kind, "not all registered services get a delivery: "+op.String())
	dst := op.Dest
	var as []dbAns
	for n := 0; n <= 2; n++ {
		n := n
		as = append(as, dbAns{Rows: cInt(n), Note: fmt.Sprintf("%d services", n), Do: func(st *State) {
			st.Set("services", strconv.Itoa(n))
			var rows []Value
			for i := 0; i < n; i++ {
				nm := x.env("svc"+strconv.Itoa(i), types.Typ[types.String])
				if op.Kind == "find" || op.Select == nil {
					rows = append(rows, dbRow(st, x.svcT, "row:svc", map[string]Value{"Name": nm}))
				} else {
					rows = append(rows, nm)
				}
			}
			if !dbFill(st, dst, rows, true) {
				st.Set(taintKey, "destination of a query")
			}
		}})
	}
	return append(as, bad)
}

func (x *busLab) storeDeliveries(c *CallCtx, op *DBOp, evs []string, bad dbAns) []dbAns {
	st := c.St
	if op.Kind != "create" && op.Kind != "createinbatches" {
		x.must(c, false, "C29/write", op.Kind, "the bus does something else than creating deliveries while dispatching: "+op.String())
		return []dbAns{{}, bad}
	}
	x.must(c, inTx(st, op), "C29/atomic", "ServiceEventPO", "deliveries are stored outside of a database transaction")
	x.must(c, op.unwritten() == "", "C29/columns", "ServiceEventPO", "a delivery is stored without its "+op.unwritten())
	x.must(c, !op.Conflict, "C29/write", op.Kind, "storing deliveries may overwrite or skip existing ones")
	x.sameTx(c, op)
	var keys []string
	for _, it := range op.Items {
		g := func(f string) Value { return dbField(st, it, f) }
		svc, id := -1, ""
		for i := 0; i < 2; i++ {
			if v := g("Service"); v != nil && sameVal(v, x.env("svc"+strconv.Itoa(i), nil)) {
				svc = i
			}
		}
		for _, e := range evs {
			if r := st.GetV("stored!" + e); r != nil && g("EventID") != nil && sameVal(g("EventID"), r) {
				id = e
			}
		}
		x.must(c, svc >= 0, "C29/delivery", "Service", "a delivery is stored for something that is not a registered service")
		x.must(c, id != "", "C29/delivery", "EventID", "a delivery does not refer to the row of one of the events")
		if svc < 0 || id == "" {
			continue
		}
		key := strconv.Itoa(svc) + "/" + id
		x.must(c, st.Get("deliv!"+key) == "" && !contains(keys, key), "C29/delivery", "twice", "an event gets two deliveries for one service")
		keys = append(keys, key)
		s := g("Status")
		x.must(c, s != nil && isZeroValue(s), "C29/delivery", "Status", "a new delivery is not pending")
		r := g("RetryCount")
		x.must(c, r == nil || isZeroValue(r), "C29/delivery", "RetryCount", "a new delivery has retries already")
		at := st.field(VPtr{"H:" + id, ""}, "CreatedAt")
		ct := g("EventCreatedAt")
		x.must(c, ct != nil && sameVal(ct, at), "C29/delivery", "EventCreatedAt", "a delivery does not carry the creation time of its own event")
		nt := g("NextTime")
		x.must(c, nt != nil && (sameVal(nt, at) || isZeroValue(nt) || lin(nt).eq(linear{"now": 1})), "C29/due", "NextTime", "a new delivery is not due at once")
	}
	return []dbAns{{Rows: cInt(len(keys)), Do: func(st *State) {
		st.Set("wrote", "1")
		for _, k := range keys {
			st.Set("deliv!"+k, "1")
		}
	}}, bad}
}

// complete: did a dispatch store everything it has to?
func (x *busLab) complete(in *Interp, st *State, rule, who string) {
	evs := strings.Fields(st.Get("events"))
	n, _ := strconv.Atoi(st.Get("services"))
	for _, e := range evs {
		in.Check(st, st.GetV("stored!"+e) != nil, rule, who, 0, "an event is dispatched without being stored")
		in.Check(st, st.Get("services") != "", rule, who, 0, "events are dispatched without looking at the registered services")
		for i := 0; i < n; i++ {
			in.Check(st, st.Get("deliv!"+strconv.Itoa(i)+"/"+e) != "", rule, who, 0, "a registered service gets no delivery of an event")
		}
	}
	if t := st.GetV("dispatchtx"); t != nil {
		s := txState(st, t)
		if w := st.GetV("msgtx"); w != nil && txState(st, w) != "open" {
			return // the whole turn was rolled back
		}
		in.Check(st, s == "committed" || s == "open" && st.GetV("msgtx") != nil, "C29/commit", who, 0, "a dispatch succeeds, but its transaction was not committed")
	}
}

// message answers operations on message records.
func (x *busLab) message(c *CallCtx, op *DBOp, evs []string, bad dbAns) []dbAns {
	st := c.St
	ph := st.Get("phase")
	switch op.Kind {
	case "create":
		x.must(c, ph == "begin", "C30/record", ph, "a message record is created by "+ph)
		x.must(c, op.unwritten() == "", "C30/record", "columns", "a message record is created without its "+op.unwritten())
		x.must(c, st.Get("record") == "", "C30/record", "twice", "two message records are created")
		ok := len(op.Items) == 1
		x.must(c, ok, "C30/record", "create", "not exactly one message record is created")
		if !ok {
			return []dbAns{bad}
		}
		it := op.Items[0]
		g := func(f string) Value { return dbField(st, it, f) }
		s := g("Service")
		x.must(c, s != nil && sameVal(s, x.service()), "C30/record", "Service", "the message record does not carry the bus's service")
		es, exact := c.In.elems(st, g("Events"))
		x.must(c, !exact || len(es) == len(evs), "C30/record", "Events", "the message record does not hold all events")
		if exact && len(es) == len(evs) {
			for i, e := range es {
				p, _ := stripIface(e).(VPtr)
				x.must(c, p.O == "H:"+evs[i], "C30/record", "Events", "the message record does not hold the events in order")
			}
		}
		d := g("DueTime")
		x.must(c, d != nil && lin(d).eq(linear{"now": 1}.add(lin(x.txTimeout()), 1)), "C30/record", "DueTime", "the due time of a message is not the configured time from now")
		id := x.rowID("tx0")
		return []dbAns{{Rows: cInt(1), Do: func(st *State) {
			st.Set("record", "1")
			st.SetV("recordid", id)
			if !assignID(st, it, id) {
				st.Set(taintKey, "rows that are created by value")
			}
		}}, bad}
	case "delete":
		id := x.wantTx(st)
		own := id != nil && op.has("id", "=", id)
		for _, cd := range op.Conds {
			own = own && (cd.Col == "id" || cd.Col == "service")
		}
		x.must(c, own, "C30/own", ph, "the record that is removed is not limited to the message: "+op.String())
		switch ph {
		case "commit":
			x.must(c, st.Get("looked") == "there" || st.GetV("dispatchtx") != nil && txState(st, st.GetV("dispatchtx")) == "committed", "C30/keep", ph, "the record of a message is removed before its events are stored")
		case "rollback":
		default:
			x.must(c, false, "C30/keep", ph, "the record of a message is removed by "+ph)
		}
		x.must(c, st.Get("removed") == "", "C30/remove", ph, "the record of a message is removed twice")
		return []dbAns{{Rows: cInt(1), Do: func(st *State) { st.Set("removed", "1") }}, bad}
	}
	st.Set(taintKey, "message records: "+op.String())
	return []dbAns{{}, bad}
}

// scenBusDispatch: events are stored with their deliveries.
func scenBusDispatch(e *Env, in *Interp) { busDispatch(e, in, 0) }

// scenBusDispatchMany: so do many events at once.
func scenBusDispatchMany(e *Env, in *Interp) { busDispatch(e, in, 130) }

func busDispatch(e *Env, in *Interp, many int) {
	x := newBusLab(e, "C29")
	in.Fold = 2 * many
	x.many = 2 * many
	begin := func(with bool) func(st *State, fr *Frame) []*State {
		return func(st *State, fr *Frame) []*State {
			if !with {
				fr.loc["c"] = x.ctx()
				return nil
			}
			st.Set("phase", "begin")
			st.Set("events", "m0")
			st.Set("carry", "1")
			ev := x.event(st, "m0", "", "")
			return in.CallFn(st, e.M(busPkg, "EventBus", "DispatchBegin"), "begin", fr.loc["bus"], x.ctx(), st.slice("H:begin", sliceOf(types.NewPointer(x.t("DomainEvent"))), ev))
		}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") == "ctor" {
			return
		}
		in.Check(st, p == nil, "C29/panic", st.Get("phase"), 0, "the bus panics")
	}
	ss := x.build(func(in *Interp, st *State, fr *Frame) []*State {
		if many > 0 {
			return choose(st, begin(false))
		}
		return choose(st, begin(false), begin(true))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		if st.Get("carry") != "" {
			r := results(fr)
			if len(r) != 2 || !isNoErr(in, st, r[1]) {
				fr.pc = 90
				return nil
			}
			fr.loc["c"] = r[0]
			st.SetV("txid", st.GetV("recordid"))
		}
		if many > 0 {
			var ns []string
			for i := 0; i < many; i++ {
				ns = append(ns, "e"+strconv.Itoa(i))
			}
			st.Set("events", strings.Join(ns, " "))
			return nil
		}
		return choose(st, func(st *State, fr *Frame) []*State { st.Set("events", "e0"); return nil },
			func(st *State, fr *Frame) []*State { st.Set("events", "e0 e1"); return nil })
	}, func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", "dispatch")
		var vs []Value
		for _, n := range strings.Fields(st.Get("events")) {
			vs = append(vs, x.event(st, n, "", ""))
		}
		return in.CallFn(st, e.M(busPkg, "EventBus", "Dispatch"), "dispatch", fr.loc["bus"], fr.loc["c"], st.slice("H:evs", sliceOf(types.NewPointer(x.t("DomainEvent"))), vs...))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 1 {
			return nil
		}
		in.Check(st, !openTx(st), "C29/tx", "Dispatch", 0, "a transaction is still open when Dispatch returns")
		if fs := failed(st); len(fs) > 0 {
			for _, f := range fs {
				in.Check(st, inErr(in, st, r[0], f), "C29/error", "Dispatch", 0, "a database error is not returned")
			}
			if t := st.GetV("dispatchtx"); t != nil {
				in.Check(st, txState(st, t) != "committed", "C29/partial", "Dispatch", 0, "a dispatch fails, but what it stored stays")
			}
			return nil
		}
		if isErr(in, st, r[0]) {
			if t := st.GetV("dispatchtx"); t != nil {
				in.Check(st, txState(st, t) != "committed", "C29/partial", "Dispatch", 0, "a dispatch fails, but what it stored stays")
			}
			in.Check(st, false, "C29/ok", "Dispatch", 0, "a dispatch fails although nothing went wrong")
			return nil
		}
		x.complete(in, st, "C29/complete", "Dispatch")
		return nil
	})
	x.start(in, ss...)
	in.reached("C29/complete", "Dispatch", "a dispatch never succeeds")
	in.reached("C29/delivery", "Dispatch", "no delivery is ever stored")
}

// scenBusTwo: a message announced by one bus is none of another bus's business.
func scenBusTwo(e *Env, in *Interp) {
	x := newBusLab(e, "C30")
	evT := sliceOf(types.NewPointer(x.t("DomainEvent")))
	chk := func(in *Interp, st *State, ok bool, rule, msg string) {
		in.Check(st, ok, "C30/"+rule, st.Get("phase"), 0, msg)
	}
	f := x.e.Fn(busPkg + ".NewEventBus")
	ss := x.build(do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }), func(in *Interp, st *State, fr *Frame) []*State {
		o := st.slice("H:opts2", f.Signature.Params().At(2).Type(), native("busopt"))
		return in.CallFn(st, f, "new2", x.service(), x.db(), o)
	}, keep("bus2"), func(in *Interp, st *State, fr *Frame) []*State {
		for _, f := range failed(st) {
			delete(st.mon, failedPre+f.K())
		}
		delete(st.mon, "firstfail")
		st.Set("phase", "begin")
		st.Set("events", "e0")
		return in.CallFn(st, e.M(busPkg, "EventBus", "DispatchBegin"), "begin", fr.loc["bus"], x.ctx(), st.slice("H:begin", evT, x.event(st, "e0", "", "")))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 2 || len(failed(st)) > 0 || isErr(in, st, r[1]) {
			fr.pc = 90
			return nil
		}
		st.Set("record", "")
		mk := func(name, phase string) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("phase", phase)
				st.Set("foreign", "1")
				return in.CallFn(st, e.M(busPkg, "EventBus", name), "end:"+name, fr.loc["bus2"], r[0])
			}
		}
		return choose(st, mk("Commit", "commit"), mk("Rollback", "rollback"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 1 {
			return nil
		}
		ph := st.Get("phase")
		chk(in, st, isErr(in, st, r[0]), "none", "a "+ph+" of one bus takes the message of another bus")
		chk(in, st, st.Get("touched") == "", "none", "a "+ph+" of one bus touches the message of another bus")
		return nil
	})
	q := x.q
	x.q = func(c *CallCtx, op *DBOp) []dbAns {
		if c.St.Get("foreign") != "" {
			c.St.Set("touched", "1")
			return []dbAns{{Rows: cInt(0), Err: extErr("gorm.io/gorm", "ErrRecordNotFound")}}
		}
		return q(c, op)
	}
	x.start(in, ss...)
	in.reached("C30/none", "Commit", "a message of another bus is never refused")
}

// scenBusMessage: a transactional message is announced, then sent or dropped.
func scenBusMessage(e *Env, in *Interp) {
	x := newBusLab(e, "C30")
	evT := sliceOf(types.NewPointer(x.t("DomainEvent")))
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") == "ctor" {
			return
		}
		in.Check(st, p == nil, "C30/panic", st.Get("phase"), 0, "the bus panics")
	}
	end := func(fr *Frame) []*State { fr.pc = 90; return nil }
	chk := func(in *Interp, st *State, ok bool, rule, msg string) {
		in.Check(st, ok, "C30/"+rule, st.Get("phase"), 0, msg)
	}
	ss := x.build(func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", "begin")
		mk := func(names string) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("events", names)
				var vs []Value
				for _, n := range strings.Fields(names) {
					vs = append(vs, x.event(st, n, "", ""))
				}
				var a Value = VNil{}
				if len(vs) > 0 {
					a = st.slice("H:begin", evT, vs...)
				}
				return in.CallFn(st, e.M(busPkg, "EventBus", "DispatchBegin"), "begin", fr.loc["bus"], x.ctx(), a)
			}
		}
		return choose(st, mk(""), mk("e0"), mk("e0 e1"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 2 {
			return end(fr)
		}
		if st.Get("events") == "" {
			chk(in, st, isErr(in, st, r[1]), "empty", "a message without events is accepted")
			chk(in, st, st.Get("record") == "", "empty", "a message without events is stored")
			return end(fr)
		}
		if fs := failed(st); len(fs) > 0 {
			for _, f := range fs {
				chk(in, st, inErr(in, st, r[1], f), "error", "a database error is not returned")
			}
			return end(fr)
		}
		chk(in, st, isNoErr(in, st, r[1]), "ok", "announcing a message fails although nothing went wrong")
		chk(in, st, st.Get("record") != "", "record", "a message is announced without a record")
		chk(in, st, ctxHas(r[0], x.ctx()) && !sameVal(r[0], x.ctx()), "ctx", "the returned context does not extend the caller's context by the message")
		chk(in, st, !openTx(st), "tx", "a transaction is still open")
		fr.loc["c"] = r[0]
		st.SetV("recordid", orNil(st.GetV("recordid")))
		return nil
	}, func(in *Interp, st *State, fr *Frame) []*State {
		mk := func(name, phase string, with string) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("phase", phase)
				c := fr.loc["c"]
				switch with {
				case "plain":
					c = x.ctx()
					st.Set("plain", "1")
				case "derived":
					c = &VApp{F: "ctxval", Args: []Value{c, &VIface{T: e.envType("userKey", types.Typ[types.String]), V: cStr("user key")}, cStr("v")}, T: x.ctxT(), NonNil: true}
				}
				if with != "plain" {
					st.SetV("txid", st.GetV("recordid"))
				}
				return in.CallFn(st, e.M(busPkg, "EventBus", name), "end:"+name, fr.loc["bus"], c)
			}
		}
		return choose(st, mk("Commit", "commit", "own"), mk("Commit", "commit", "derived"), mk("Rollback", "rollback", "own"), mk("Rollback", "rollback", "derived"),
			mk("Commit", "commit", "plain"), mk("Rollback", "rollback", "plain"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 1 {
			return end(fr)
		}
		ph := st.Get("phase")
		chk(in, st, !openTx(st), "tx", "a transaction is still open when "+ph+" returns")
		if st.Get("plain") != "" {
			chk(in, st, isErr(in, st, r[0]), "none", "a "+ph+" without a message in the context succeeds")
			chk(in, st, st.Get("wrote")+st.Get("removed")+st.Get("looked") == "", "none", "a "+ph+" without a message in the context touches the database")
			return end(fr)
		}
		if fs := failed(st); len(fs) > 0 {
			for _, f := range fs {
				chk(in, st, inErr(in, st, r[0], f), "error", "a database error is not returned")
			}
			chk(in, st, st.Get("removed") == "", "keep", "the record of a message is removed although a step failed")
			return end(fr)
		}
		chk(in, st, isNoErr(in, st, r[0]), "ok", ph+" fails although nothing went wrong")
		chk(in, st, st.Get("removed") == "1", "removed", "the record of a message stays after "+ph)
		switch {
		case ph == "rollback":
			chk(in, st, st.Get("wrote") == "", "dropped", "a rolled back message is sent")
		case st.Get("looked") == "there":
			chk(in, st, st.Get("wrote") == "", "once", "a message that was sent already is sent again")
		default:
			x.complete(in, st, "C30/sent", "Commit")
		}
		return end(fr)
	})
	x.start(in, ss...)
	in.reached("C30/sent", "Commit", "a message is never sent by Commit")
	in.reached("C30/record", "DispatchBegin", "no message is ever recorded")
}

// ---- overdue messages --------------------------------------------------------------

// checker answers the transaction checker of the user.
func (x *busLab) checker(c *CallCtx) []Outcome {
	st := c.St
	x.settle(c.In, st, c.Pos)
	x.user(c, "", "the transaction checker")
	who := ""
	if p, ok := stripIface(c.Args[0]).(VPtr); ok {
		who = strings.TrimPrefix(p.O, "H:")
	}
	n := strings.TrimSuffix(strings.TrimPrefix(who, "m"), "x")
	x.must(c, strings.HasPrefix(who, "m") && st.Get("overdue!"+n) != "", "C30/check", "checker", "the transaction checker is not asked about an event of an overdue message")
	x.must(c, st.Get("asked!"+n) == "", "C30/check", "checker", "the transaction checker is asked twice about a message")
	x.must(c, st.GetV("msgtx") != nil && txState(st, st.GetV("msgtx")) == "open", "C30/locked", "checker", "an overdue message is judged without holding its row lock")
	mk := func(code int, what string) Outcome {
		v := cInt(code).(VConst)
		v.T = c.resT(0)
		return Outcome{Ret: []Value{v}, Note: "the checker answers " + what, Do: func(st *State) {
			st.Set("asked!"+n, what)
			st.Set("msg", n)
			st.Set("events", st.Get("evsof!"+n))
			st.SetV("txid", x.rowID("tx"+n))
			for _, k := range []string{"looked", "removed", "wrote", "dispatchtx", "services", "msgfail"} {
				delete(st.mon, k)
			}
			for k := range st.mon {
				if strings.HasPrefix(k, "stored!") || strings.HasPrefix(k, "deliv!") {
					delete(st.mon, k)
				}
			}
		}}
	}
	cv := func(n string) int { i, _ := constInt(x.e.P.constOf("", n)); return i }
	pan := mk(0, "panic")
	pan.Ret = nil
	pan.Panic = &VSym{ID: "err:checker", T: errTypeT, Distinct: true, NonNil: true}
	return []Outcome{mk(cv("TXCommit"), "commit"), mk(cv("TXRollBack"), "rollback"), mk(cv("TXUnknown"), "unknown"), pan}
}

// settle judges what was done with the last message the checker was asked about.
func (x *busLab) settle(in *Interp, st *State, pos token.Pos) {
	n := st.Get("msg")
	if n == "" {
		return
	}
	st.Set("msg", "")
	chk := func(ok bool, rule, msg string) { in.Check(st, ok, "C30/"+rule, "overdue", pos, msg) }
	if e := st.GetV("msgfail"); e != nil {
		chk(st.Get("removed") == "", "keep", "the record of an overdue message is removed although a step failed")
		chk(st.Get("logged!"+e.K()) != "", "log", "an overdue message cannot be settled, and nobody learns about it")
		return
	}
	switch st.Get("asked!" + n) {
	case "commit":
		chk(st.Get("removed") == "1", "settled", "the record of an overdue message stays although the checker answered commit")
		if st.Get("looked") == "none" {
			x.complete(in, st, "C30/sent", "overdue")
		}
	case "rollback":
		chk(st.Get("removed") == "1", "settled", "the record of an overdue message stays although the checker answered rollback")
		chk(st.Get("wrote") == "", "dropped", "an overdue message is sent although the checker answered rollback")
	default:
		chk(st.Get("removed")+st.Get("wrote") == "", "unknown", "an undecided message is not left alone")
	}
}

// overdue answers operations on message records during a tick.
func (x *busLab) overdue(max int) func(c *CallCtx, op *DBOp) []dbAns {
	return func(c *CallCtx, op *DBOp) []dbAns {
		st := c.St
		bad := x.fail(c, op)
		if op.Table.Obj() == x.txnT.Obj() && op.Kind != "delete" {
			if op.Kind != "find" && op.Kind != "scan" {
				st.Set(taintKey, "message records: "+op.String())
				return []dbAns{{}, bad}
			}
			x.must(c, op.has("service", "=", x.service()), "C30/service", "overdue", "the messages looked at are not limited to the bus's own service: "+op.String())
			due := false
			for _, cd := range op.cond("due_time") {
				due = due || (cd.Op == "<" || cd.Op == "<=") && cd.Val != nil && lin(cd.Val).eq(linear{"now": 1})
			}
			x.must(c, due, "C30/due", "overdue", "the messages looked at are not limited to overdue ones: "+op.String())
			x.must(c, inTx(st, op) && op.Lock == "UPDATE", "C30/lock", "overdue", "overdue messages are read without a row lock held by a transaction")
			x.must(c, st.GetV("msgtx") == nil, "C30/again", "overdue", "overdue messages are read twice in one turn")
			dst := op.Dest
			var as []dbAns
			for k := 0; k <= max+1; k++ {
				n, two, note := k, false, fmt.Sprintf("%d overdue messages", k)
				if k > max {
					n, two, note = 1, true, "an overdue message of two events"
				}
				as = append(as, dbAns{Rows: cInt(n), Note: note, Do: func(st *State) {
					st.SetV("msgtx", op.Root)
					var rows []Value
					for i := 0; i < n; i++ {
						id := strconv.Itoa(i)
						st.Set("overdue!"+id, "1")
						evs := []Value{x.event(st, "m"+id, "", "")}
						st.Set("evsof!"+id, "m"+id)
						if two {
							evs = append(evs, x.event(st, "m"+id+"x", "", ""))
							st.Set("evsof!"+id, "m"+id+" m"+id+"x")
						}
						rows = append(rows, dbRow(st, x.txnT, "row:msg"+id, map[string]Value{"ID": x.rowID("tx" + id), "Service": x.service(),
							"Events": st.slice("H:msg"+id, fieldType(x.txnT, "", "Events"), evs...)}))
					}
					if !dbFill(st, dst, rows, true) {
						st.Set(taintKey, "destination of a query")
					}
				}})
			}
			bo := bad.Do
			bad.Do = func(st *State) { bo(st); mustLog(st, st.GetV("firstfail")) }
			return append(as, bad)
		}
		n := st.Get("msg")
		if n == "" {
			x.must(c, false, "C30/unasked", op.Kind, "an overdue message is handled without asking the checker: "+op.String())
			return []dbAns{{}, bad}
		}
		if w := st.GetV("msgtx"); w != nil {
			x.must(c, op.Root.K() == w.K() || op.Table.Obj() == x.svcT.Obj(), "C30/tx", op.Kind, "an overdue message is not handled by the transaction that locked it")
		}
		what := st.Get("asked!" + n)
		x.must(c, st.GetV("msgfail") == nil, "C30/stop", op.Kind, "handling an overdue message goes on after a database error: "+op.String())
		x.must(c, what == "commit" || what == "rollback" && op.Kind == "delete", "C30/answer", op.Kind, "the checker answered "+what+", but the bus does: "+op.String())
		var as []dbAns
		// the phase tells the shared rules what is going on
		st.Set("phase", what)
		switch op.Table.Obj() {
		case x.txnT.Obj():
			id := x.rowID("tx" + n)
			own := op.has("id", "=", id)
			for _, cd := range op.Conds {
				own = own && (cd.Col == "id" || cd.Col == "service")
			}
			x.must(c, own, "C30/own", "overdue", "the record that is removed is not limited to the message: "+op.String())
			if what == "commit" {
				x.must(c, st.Get("looked") == "there" || st.Get("wrote") != "", "C30/keep", "overdue", "the record of a message is removed before its events are stored")
			}
			as = []dbAns{{Rows: cInt(1), Do: func(st *State) { st.Set("removed", "1") }}, bad}
		case x.evT.Obj():
			as = x.storeEvents(c, op, strings.Fields(st.Get("events")), bad)
		case x.svcT.Obj():
			as = x.services(c, op, bad)
		case x.sevT.Obj():
			as = x.storeDeliveries(c, op, strings.Fields(st.Get("events")), bad)
		default:
			st.Set(taintKey, "a table that is not known")
			as = []dbAns{{}, bad}
		}
		st.Set("phase", "tick")
		for i := range as {
			if as[i].Err != nil && as[i].Err.K() == bad.Err.K() {
				d := as[i].Do
				er := bad.Err
				as[i].Do = func(st *State) { d(st); st.SetV("msgfail", er) }
			}
		}
		return as
	}
}

func (x *busLab) startWorker() []stepFn {
	return []stepFn{x.call("Start", "start", vals(x.ctx()))}
}

func (x *busLab) registerHandler() stepFn {
	return x.call("RegisterEventHandler", "reg", vals(native("handler")))
}

// scenBusOverdue: the worker settles overdue messages.
func scenBusOverdue(asked bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newBusLab(e, "C30")
		x.trans, x.unasked = x.overdue(2), !asked
		ss := x.build()
		if asked {
			ss = append(ss, x.call("RegisterEventTXChecker", "reg", vals(native("txchecker"))))
		}
		ss = append(ss, x.startWorker()...)
		x.start(in, ss...)
		if asked {
			in.reached("C30/settled", "worker", "an overdue message is never settled")
		}
		in.reached("C30/due", "worker", "the worker never looks for overdue messages")
	}
}

// walkDeep visits the symbols a value is made of, also those in memory it refers to.
func walkDeep(st *State, v Value, f func(k string)) {
	seen := map[string]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		if v == nil {
			return
		}
		walkValue(v, func(s *VSym) { f(s.K()) }, func(o string) {
			if seen[o] || len(seen) > 200 {
				return
			}
			seen[o] = true
			ob := st.heap[o]
			if ob == nil {
				return
			}
			for _, e := range ob.Elems {
				walk(e)
			}
			for _, e := range ob.Cells {
				walk(e)
			}
		})
	}
	walk(v)
}
