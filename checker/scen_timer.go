package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const timerPkg = "d_timer/sql"

// timerLab: the timer that keeps its jobs in a database.
type timerLab struct {
	*DBLab
	jobT *types.Named

	toRun  int
	nJobs  int
	swap   bool // the first job is a one-time job without payload, not a cron job
	hands  []string
	begin  bool // transactions may fail to begin
	status map[string]int
}

func newTimerLab(e *Env, rule string) *timerLab {
	x := &timerLab{DBLab: newDBLab(e, rule), nJobs: 3, hands: []string{"ok", "err", "panic"}, status: map[string]int{}}
	x.jobT = e.T(timerPkg + ".TimerJob").(*types.Named)
	for _, n := range []string{"TimerToRun", "TimerFinished", "TimerFailed"} {
		i, ok := constInt(e.P.constOf(timerPkg, n))
		if !ok {
			panic(missing{timerPkg + "." + n})
		}
		x.status[n] = i
	}
	x.toRun = x.status["TimerToRun"]
	x.goMode = func(c *CallCtx) int { return goNow }
	x.onEv = x.ev
	x.txev = x.tx
	x.q = x.query
	x.onCall["native:timeropt"] = func(c *CallCtx) []Outcome {
		if p, ok := stripIface(c.Args[0]).(VPtr); ok {
			t := fieldType(e.T(timerPkg+".Options"), "", "RunInterval")
			c.St.storeCell(p.O, p.P+".RunInterval", t, &VSym{ID: "env:runinterval", T: t})
		}
		return ret()
	}
	x.onCall["native:timercb"] = x.callback
	x.onCall["github.com/robfig/cron.Parse"] = func(c *CallCtx) []Outcome {
		err := &VSym{ID: "err:cron.Parse", T: errTypeT, Distinct: true, NonNil: true}
		bad := Outcome{Ret: []Value{VNil{}, err}, Note: "the expression is invalid", Do: func(st *State) {
			st.Set("parse", "invalid")
		}}
		if isZeroValue(c.Args[0]) {
			return []Outcome{bad}
		}
		ok := Outcome{Ret: []Value{&VApp{F: "schedule", Args: c.Args, T: c.resT(0), NonNil: true}, VNil{}}, Do: func(st *State) {
			if st.Get("parse") == "invalid" {
				st.Set("parse", "")
			}
		}}
		switch c.St.Get("parsed!" + c.Args[0].K()) {
		case "valid":
			return []Outcome{ok}
		case "invalid":
			return []Outcome{bad}
		}
		k := "parsed!" + c.Args[0].K()
		do, bdo := ok.Do, bad.Do
		ok.Do = func(st *State) { do(st); st.Set(k, "valid") }
		bad.Do = func(st *State) { bdo(st); st.Set(k, "invalid") }
		return []Outcome{ok, bad}
	}
	x.onCall["(github.com/robfig/cron.Schedule).Next"] = func(c *CallCtx) []Outcome {
		k := "fires!" + c.Recv.K()
		some := Outcome{Ret: []Value{&VApp{F: "schednext", Args: []Value{c.Recv, c.Args[0]}, T: c.resT(0), NonNil: true}}, Do: func(st *State) { st.Set(k, "yes"); st.Set("parse", "") }}
		never := Outcome{Ret: []Value{zero(c.resT(0))}, Note: "the expression never fires", Do: func(st *State) { st.Set(k, "no"); st.Set("parse", "never") }}
		switch c.St.Get(k) {
		case "yes":
			return []Outcome{some}
		case "no":
			return []Outcome{never}
		}
		return []Outcome{some, never}
	}
	return x
}

func (x *timerLab) service() Value { return x.env("service", types.Typ[types.String]) }
func (x *timerLab) ctx() Value     { return x.env("ctx", x.ctxT()) }
func (x *timerLab) num(f string, n int) Value {
	c := cInt(n).(VConst)
	c.T = fieldType(x.jobT, "", f)
	return c
}

// fires: is v the next time of an expression, counted from now on?
func fires(v, expr Value) bool {
	a, ok := v.(*VApp)
	if !ok || a.F != "schednext" {
		return false
	}
	s, ok := a.Args[0].(*VApp)
	if !ok || s.F != "schedule" || !sameVal(s.Args[0], expr) {
		return false
	}
	return lin(a.Args[1]).eq(linear{"now": 1})
}

func (x *timerLab) build(steps ...stepFn) []stepFn {
	f := x.e.Fn(timerPkg + ".NewDBTimer")
	ss := []stepFn{
		do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }),
		func(in *Interp, st *State, fr *Frame) []*State {
			o := st.slice("H:opts", f.Signature.Params().At(2).Type(), native("timeropt"))
			return in.CallFn(st, f, "new", x.service(), x.db(), o)
		},
		keep("timer"),
		do(func(st *State, fr *Frame) { publish(st, fr.loc["timer"]); st.Set("phase", "ready") }),
	}
	return append(ss, steps...)
}

func (x *timerLab) call(name, phase string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", phase)
		return in.CallFn(st, x.e.M(timerPkg, "DBTimer", name), "call:"+name, append([]Value{fr.loc["timer"]}, args(st, fr)...)...)
	}
}

func (x *timerLab) ev(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	depth, _ := strconv.Atoi(st.Get("godepth"))
	set := func(n int) {
		st.Set("godepth", strconv.Itoa(n))
		if n <= 0 {
			st.Set("godepth", "")
		}
	}
	switch kind {
	case "gostart":
		set(depth + 1)
	case "goend":
		if depth == 1 {
			in.Check(st, st.Get("ctxdone") != "", "C38/worker", "timer", pos, "the background worker of the timer ends although nobody stopped it")
		}
		set(depth - 1)
	case "crash":
		in.Check(st, false, "C38/crash", "timer", pos, "a panic leaves a background goroutine and ends the process")
	case "rtpanic":
		msg := "runtime panic"
		if len(args) > 0 {
			if s, ok := constString(args[0]); ok {
				msg = s
			}
		}
		in.Check(st, st.Get("phase") == "ctor", x.rule+"/panic", stateFn(st), pos, msg)
	case "recv":
		if a, isApp := args[0].(*VApp); isApp && a.F == "ctxdone" {
			st.Set("ctxdone", "1")
		}
		if s, ok := args[0].(*VSym); !ok || s.ID != "tick" {
			return
		}
		if st.Get("ticks") == "" {
			st.Set("ticks", "1")
			st.Set("phase", "tick")
			return
		}
		x.afterTick(in, st, pos)
		st.Set(haltKey, "1")
	case "log":
		markLogged(in, st, args)
	}
}

// afterTick: the worker is back at its ticker.
func (x *timerLab) afterTick(in *Interp, st *State, pos token.Pos) {
	chk := func(ok bool, rule, msg string) { in.Check(st, ok, rule, "timer", pos, msg) }
	for k := range st.mon {
		if strings.HasPrefix(k, "mustlog!") {
			chk(st.Get("logged!"+k[8:]) != "", "C38/log", "an error of the timer's worker is neither handled nor logged")
		}
	}
	chk(!openTx(st), "C37/tx", "a transaction is still open when the timer waits for its next turn")
	if st.Get("scanfail") != "" {
		return
	}
	if st.Get("registered") == "" {
		return
	}
	n, _ := strconv.Atoi(st.Get("scanned"))
	chk(st.Get("scanned") != "", "C37/scan", "the timer does not look for due jobs in its turn")
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		if st.Get("beginfail!"+k) != "" || st.Get("nobegin") != "" {
			continue
		}
		chk(st.Get("tried!"+k) == "1", "C37/every", "a due job is not tried exactly once, whatever happened to the others")
	}
}

// tx observes the transactions.
func (x *timerLab) tx(c *CallCtx, op *DBOp, ok bool) {
	st := c.St
	if st.Get("phase") != "tick" {
		return
	}
	if !ok && op.Kind != "rollback" {
		if f := st.GetV("txfail"); f != nil {
			mustLog(st, f)
		}
	}
	if op.Kind == "begin" {
		if !ok {
			// it is not known whose transaction this was to be
			n, _ := strconv.Atoi(st.Get("nobegin"))
			st.Set("nobegin", strconv.Itoa(n+1))
		}
		return
	}
	k := op.Root.K()
	if st.Get("curtx") != k {
		return
	}
	called, saved := st.Get("called") != "", st.Get("saved") != ""
	switch op.Kind {
	case "commit":
		if called {
			x.must(c, saved, "C37/saved", "commit", "a job whose callback was called is not saved in the transaction that holds its lock")
			x.must(c, st.Get("savefail") == "", "C37/rollback", "commit", "a job's transaction is committed although saving the job failed")
		}
	case "rollback":
		x.must(c, !called || st.Get("savefail") != "", "C37/rolledback", "rollback", "a job whose callback was called is rolled back although nothing failed")
	}
	for _, m := range []string{"cur", "curtx", "haslock", "due", "called", "saved", "savefail"} {
		delete(st.mon, m)
	}
}

func (x *timerLab) rowID(i int) *VSym {
	return &VSym{ID: "row:j" + strconv.Itoa(i), T: types.Typ[types.Int64], Distinct: true, NonNil: true}
}

func (x *timerLab) jobVal(i int, f string) Value {
	once := (i%2 == 1) != x.swap
	if f == "Cron" && once {
		return cStr("")
	}
	if f == "Payload" && once && x.swap {
		return VNil{}
	}
	return &VSym{ID: fmt.Sprintf("env:j%d.%s", i, f), T: fieldType(x.jobT, "", f), Distinct: true, NonNil: true}
}

// job is a stored job.
func (x *timerLab) job(st *State, i int, pre string, status int, next Value) Value {
	m := map[string]Value{"ID": x.rowID(i), "Service": x.service(), "Status": x.num("Status", status)}
	for _, f := range []string{"Key", "Cron", "Payload"} {
		m[f] = x.jobVal(i, f)
	}
	if next != nil {
		m["NextTime"] = next
	}
	return dbRow(st, x.jobT, pre+"j"+strconv.Itoa(i), m)
}

func (x *timerLab) query(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	if op.Table == nil || op.Table.Obj() != x.jobT.Obj() {
		st.Set(taintKey, "a table that is not known: "+op.String())
		return []dbAns{{}}
	}
	switch st.Get("phase") {
	case "tick", "start":
		return x.turn(c, op)
	case "cancel":
		return x.cancel(c, op)
	case "cron", "once":
		return x.register(c, op)
	}
	x.must(c, false, "C36/quiet", op.Kind, "the timer touches its table where it need not: "+op.String())
	return []dbAns{{}}
}

// ---- registration ------------------------------------------------------------------

func (x *timerLab) key(st *State) Value {
	if st.Get("emptykey") != "" {
		return cStr("")
	}
	return x.env("key", types.Typ[types.String])
}
func (x *timerLab) expr(st *State) Value {
	if st.Get("emptyexpr") != "" {
		return cStr("")
	}
	return x.env("expr", types.Typ[types.String])
}
func (x *timerLab) runTime() Value {
	return x.env("runtime", fieldType(x.jobT, "", "NextTime"))
}
func (x *timerLab) data() Value { return x.env("data", fieldType(x.jobT, "", "Payload")) }

// own: is the statement limited to the job of this service and key, and nothing else?
func (x *timerLab) own(st *State, op *DBOp) (has, only bool) {
	has = op.has("service", "=", x.service()) && op.has("key", "=", x.key(st))
	only = true
	for _, cd := range op.Conds {
		only = only && (cd.Col == "service" || cd.Col == "key")
	}
	return
}

// stored judges the row that is created for a job.
func (x *timerLab) stored(c *CallCtx, get func(f string) Value) {
	st := c.St
	R := func(ok bool, f, msg string) { x.must(c, ok, "C36/row", f, msg) }
	is := func(f string, v Value) bool {
		w := get(f)
		return w != nil && sameVal(w, v) || isZeroValue(v) && (w == nil || isZeroValue(w))
	}
	R(is("Service", x.service()), "Service", "a job is stored for another service")
	R(is("Key", x.key(st)), "Key", "a job is not stored under its key")
	R(is("Payload", x.data()), "Payload", "a job is stored without its payload")
	R(is("Status", x.num("Status", x.toRun)), "Status", "a new job is not stored as one to run")
	nt := get("NextTime")
	if st.Get("phase") == "cron" {
		R(is("Cron", x.expr(st)), "Cron", "a cron job is stored without its expression")
		x.must(c, nt != nil && fires(nt, x.expr(st)), "C36/due", "NextTime", "the first due time of a cron job is not computed from its expression and the current time")
	} else {
		R(is("Cron", cStr("")), "Cron", "a one-time job is stored with a cron expression")
		x.must(c, nt != nil && sameVal(nt, x.runTime()), "C36/due", "NextTime", "a one-time job is not due at the time asked for")
		ks := knownSign(st, lin(x.runTime()).add(linear{"now": 1}, -1))
		x.must(c, ks[">="] || ks[">"], "C36/overdue", "RunOnce", "a one-time job is stored without making sure that it is not overdue")
	}
}

// register answers the operations of a registration.
func (x *timerLab) register(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	bad := x.fail(c, op)
	x.must(c, st.Get("parse") == "" && !(st.Get("phase") == "cron" && st.Get("emptyexpr") != ""), "C36/refuse", op.Kind, "the table is touched for a job that has to be refused: "+op.String())
	x.must(c, len(failed(st)) == 0, "C36/stop", op.Kind, "registering goes on after a database error")
	has, only := x.own(st, op)
	unique := func() {
		x.must(c, has, "C36/own", op.Kind, "the job that is looked for is not limited to this service and key: "+op.String())
		x.must(c, only, "C36/own", op.Kind, "a job of this service and key that exists may not be found: "+op.String())
	}
	there := func(st *State) { st.Set("there", "1") }
	none := func(st *State) { st.Set("none", "1") }
	store := func(st *State) {
		n, _ := strconv.Atoi(st.Get("stored"))
		st.Set("stored", strconv.Itoa(n+1))
	}
	if op.Unscoped && op.Kind != "delete" {
		_ = op
	}
	switch op.Kind {
	case "firstorcreate":
		unique()
		x.must(c, len(op.Assign) == 0, "C36/kept", op.Kind, "a job that exists is changed by registering it again")
		x.stored(c, func(f string) Value {
			col := ""
			for _, k := range columns(x.jobT) {
				if k.Field == f {
					col = k.Col
				}
			}
			for _, a := range op.Attrs {
				if es, ok := c.In.variadic(st, a, nil); ok && len(es) > 0 {
					a = es[0]
				}
				if v := attr(st, a, f, col); v != nil && !isZeroValue(v) {
					return v
				}
			}
			for _, cd := range op.cond(col) {
				if cd.Op == "=" {
					return cd.Val
				}
			}
			return dbField(st, derefDest(st, op.Dest), f)
		})
		return []dbAns{{Rows: cInt(0), Note: "the job exists", Do: there}, {Rows: cInt(1), Note: "the job is new", Do: func(st *State) { none(st); store(st) }}, bad}
	case "first", "take", "last", "find", "count":
		unique()
		dst := op.Dest
		hit := dbAns{Rows: cInt(1), Note: "the job exists", Do: func(st *State) {
			there(st)
			if op.Kind == "count" {
				if p, ok := stripIface(dst).(VPtr); ok {
					st.storeCellRaw(p.O, p.P, cInt(1))
				}
				return
			}
			if !dbFill(st, dst, []Value{x.job(st, 9, "row:", x.toRun, nil)}, isSliceArg(st, dst)) {
				st.Set(taintKey, "destination of a query")
			}
		}}
		miss := dbAns{Rows: cInt(0), Note: "the job is new", Do: func(st *State) {
			none(st)
			if op.Kind == "count" {
				if p, ok := stripIface(dst).(VPtr); ok {
					st.storeCellRaw(p.O, p.P, cInt(0))
				}
			} else if isSliceArg(st, dst) {
				dbFill(st, dst, nil, true)
			}
		}}
		if op.Kind != "find" && op.Kind != "count" {
			miss.Err = extErr("gorm.io/gorm", "ErrRecordNotFound")
		}
		return []dbAns{hit, miss, bad}
	case "create":
		ok := len(op.Items) == 1
		x.must(c, ok, "C36/row", "create", "not exactly one job is created")
		x.must(c, op.unwritten() == "", "C36/row", "columns", "a job is created without its "+op.unwritten())
		x.must(c, st.Get("there") == "" && (st.Get("none") != "" || op.Conflict), "C36/kept", op.Kind, "a job is created without looking for one that exists")
		x.must(c, !op.ConflictUpdate, "C36/kept", op.Kind, "a job that exists is changed by registering it again")
		if ok {
			x.stored(c, func(f string) Value { return dbField(st, op.Items[0], f) })
		}
		return []dbAns{{Rows: cInt(1), Do: store}, bad}
	}
	x.must(c, false, "C36/kept", op.Kind, "registering a job does something else than creating it: "+op.String())
	return []dbAns{{}, bad}
}

// attr is the value an attribute of FirstOrCreate gives a field.
func attr(st *State, a Value, field, col string) Value {
	switch v := stripIface(a).(type) {
	case VMap:
		if o := st.heap[v.O]; o != nil {
			for i, k := range o.Keys {
				if s, ok := constString(stripIface(k)); ok && (strings.EqualFold(s, col) || s == field) {
					return stripIface(o.Elems[i])
				}
			}
		}
		return nil
	default:
		return dbField(st, v, field)
	}
}

func (x *timerLab) cancel(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	bad := x.fail(c, op)
	x.must(c, op.Kind == "delete", "C36/cancel", op.Kind, "cancelling a job does something else than removing it: "+op.String())
	if op.Kind != "delete" {
		return []dbAns{{}, bad}
	}
	has, only := x.own(st, op)
	x.must(c, has, "C36/cancel-own", "Cancel", "the jobs that are removed are not limited to this service and key: "+op.String())
	x.must(c, only, "C36/cancel-own", "Cancel", "the job of this service and key may not be removed: "+op.String())
	return []dbAns{{Rows: cInt(1), Do: func(st *State) { st.Set("removed", "1") }}, {Rows: cInt(0), Note: "there is no such job", Do: func(st *State) { st.Set("removed", "1") }}, bad}
}

// scenTimerRegister: RunCron, RunOnce and Cancel.
func scenTimerRegister(e *Env, in *Interp) {
	x := newTimerLab(e, "C36")
	x.atEnd = func(in *Interp, st *State, p Value) {
		ph := st.Get("phase")
		if ph == "ctor" {
			return
		}
		in.Check(st, p == nil, "C36/panic", ph, 0, "the timer panics")
		in.Check(st, !openTx(st), "C36/tx", ph, 0, "a transaction is left open")
	}
	step := func(name, phase string, flags []string, args ...Value) func(st *State, fr *Frame) []*State {
		return func(st *State, fr *Frame) []*State {
			for _, f := range flags {
				st.Set(f, "1")
			}
			if contains(flags, "emptykey") {
				args = append([]Value{cStr("")}, args[1:]...)
			}
			if contains(flags, "emptyexpr") {
				args = append([]Value{args[0], cStr("")}, args[2:]...)
			}
			return x.call(name, phase, vals(args...))(in, st, fr)
		}
	}
	key, expr := x.env("key", types.Typ[types.String]), x.env("expr", types.Typ[types.String])
	ss := x.build(func(in *Interp, st *State, fr *Frame) []*State {
		return choose(st,
			step("RunCron", "cron", nil, key, expr, x.data()),
			step("RunCron", "cron", []string{"emptykey"}, key, expr, x.data()),
			step("RunCron", "cron", []string{"emptyexpr"}, key, expr, x.data()),
			step("RunOnce", "once", nil, key, x.runTime(), x.data()),
			step("RunOnce", "once", []string{"emptykey"}, key, x.runTime(), x.data()),
			step("Cancel", "cancel", nil, key),
			step("Cancel", "cancel", []string{"emptykey"}, key),
		)
	}, func(in *Interp, st *State, fr *Frame) []*State {
		ph := st.Get("phase")
		R := func(ok bool, rule, msg string) { in.Check(st, ok, "C36/"+rule, ph, 0, msg) }
		r := orNil(fr.loc["ret"])
		bad := failed(st)
		stored, _ := strconv.Atoi(st.Get("stored"))
		switch {
		case len(bad) > 0:
			for _, f := range bad {
				R(inErr(in, st, r, f), "error", "a database error is not returned")
			}
		case isNoErr(in, st, r):
			switch ph {
			case "cancel":
				R(st.Get("removed") != "", "removed", "cancelling succeeds without removing the job")
			default:
				R(st.Get("parse") == "" && !(ph == "cron" && st.Get("emptyexpr") != ""), "refused", "a cron expression that is invalid or never fires is accepted")
				R(stored == 1 || st.Get("there") != "" && stored == 0, "created", "registering succeeds, but the job is not there exactly once")
			}
		case isErr(in, st, r):
			why := st.Get("parse") != "" || ph == "cron" && st.Get("emptyexpr") != ""
			if ph == "once" {
				why = knownSign(st, lin(x.runTime()).add(linear{"now": 1}, -1))["<"]
			}
			R(why, "accept", "a job that is in order is refused")
			R(stored == 0, "nothing", "a job is stored although an error is returned")
		}
		return nil
	})
	x.start(in, ss...)
	in.reached("C36/due", "RunCron", "no job is ever stored")
	in.reached("C36/cancel-own", "Cancel", "no job is ever removed")
	in.reached("C36/refused", "RunCron", "no registration ever succeeds")
	x.unique(in)
}

// unique: the indexes of the table let services use the same keys.
func (x *timerLab) unique(in *Interp) {
	s, ok := x.jobT.Underlying().(*types.Struct)
	if !ok {
		return
	}
	idx := map[string][]string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		for _, kv := range strings.Split(reflect.StructTag(s.Tag(i)).Get("gorm"), ";") {
			k, v := strings.TrimSpace(kv), ""
			if j := strings.Index(kv, ":"); j >= 0 {
				k, v = strings.TrimSpace(kv[:j]), kv[j+1:]
			}
			parts := strings.Split(v, ",")
			name := strings.TrimSpace(parts[0])
			isUnique := strings.EqualFold(k, "uniqueIndex") || strings.EqualFold(k, "unique")
			for _, p := range parts[1:] {
				isUnique = isUnique || strings.EqualFold(k, "index") && strings.EqualFold(strings.TrimSpace(p), "unique")
			}
			if !isUnique {
				continue
			}
			if name == "" {
				name = "!" + f.Name()
			}
			idx[name] = append(idx[name], f.Name())
		}
	}
	st := newState()
	one := false
	for _, fs := range idx {
		one = one || len(fs) == 2 && contains(fs, "Service") && contains(fs, "Key")
		in.Check(st, contains(fs, "Service") && contains(fs, "Key") || contains(fs, "ID"), "C36/index", strings.Join(fs, ","), s.Field(0).Pos(), "a unique index over "+strings.Join(fs, ", ")+" keeps services from using the same keys")
	}
	in.Check(st, one, "C36/index", "service and key", s.Field(0).Pos(), "no unique index over service and key keeps instances from storing a job twice")
}

// ---- the worker ----------------------------------------------------------------------

// turn answers the operations of the worker.
func (x *timerLab) turn(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	x.must(c, st.Get("registered") != "", "C38/unregistered", op.Kind, "the timer works on its jobs although no callback was registered")
	for i := 0; i < x.nJobs; i++ {
		if op.has("id", "=", x.rowID(i)) {
			switch op.Kind {
			case "first", "take", "find", "last":
				return x.lock(c, op, i)
			case "update", "updates", "updatecolumn", "updatecolumns":
				return x.save(c, op, i)
			}
		}
	}
	switch op.Kind {
	case "find", "scan":
		return x.scan(c, op)
	case "save":
		if len(op.Items) == 1 {
			id := dbField(st, op.Items[0], "ID")
			for i := 0; i < x.nJobs; i++ {
				if id != nil && sameVal(id, x.rowID(i)) {
					return x.save(c, op, i)
				}
			}
		}
		x.must(c, false, "C37/row", op.Kind, "something else than a job that was found is saved")
		return []dbAns{{}, x.fail(c, op)}
	}
	st.Set(taintKey, "jobs: "+op.String())
	return []dbAns{{}, x.fail(c, op)}
}

// due: which of the conditions of a due job does a statement make?
func (x *timerLab) due(c *CallCtx, op *DBOp, id Value) (service, due, status bool) {
	st := c.St
	service = op.has("service", "=", x.service())
	status = op.has("status", "=", x.num("Status", x.toRun))
	for _, cd := range op.Conds {
		switch cd.Col {
		case "next_time":
			ok := (cd.Op == "<=" || cd.Op == "<") && cd.Val != nil && lin(cd.Val).eq(linear{"now": 1})
			x.must(c, ok, "C37/due", op.Kind, "the due time of jobs is compared with something else than now: "+op.String())
			due = due || ok
		case "service":
			x.must(c, service, "C37/service", op.Kind, "jobs of another service are looked at: "+op.String())
		case "status":
			x.must(c, status, "C37/status", op.Kind, "jobs that are not to run any more are looked at: "+op.String())
		case "id":
			if id == nil {
				st.Set(taintKey, "jobs: "+op.String())
			}
		default:
			st.Set(taintKey, "jobs: "+op.String())
		}
	}
	return
}

func (x *timerLab) scan(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	service, due, status := x.due(c, op, nil)
	x.must(c, service, "C37/service", "scan", "the jobs that are looked for are not limited to the own service: "+op.String())
	x.must(c, due, "C37/due", "scan", "the jobs that are looked for are not limited to due ones: "+op.String())
	x.must(c, status, "C37/status", "scan", "the jobs that are looked for are not limited to those still to run: "+op.String())
	x.must(c, st.Get("scanned") == "", "C37/scan", "scan", "due jobs are looked for twice in one turn")
	dst := op.Dest
	var as []dbAns
	for n := 0; n <= x.nJobs; n++ {
		n := n
		as = append(as, dbAns{Rows: cInt(n), Note: fmt.Sprintf("%d jobs are due", n), Do: func(st *State) {
			st.Set("scanned", strconv.Itoa(n))
			var rows []Value
			for i := 0; i < n; i++ {
				rows = append(rows, x.job(st, i, "row:", x.toRun, nil))
			}
			if !dbFill(st, dst, rows, true) {
				st.Set(taintKey, "destination of a query")
			}
		}})
	}
	bad := x.fail(c, op)
	do := bad.Do
	e := bad.Err
	bad.Do = func(st *State) { do(st); st.Set("scanfail", "1"); mustLog(st, e) }
	return append(as, bad)
}

// lock answers the second read of a job.
func (x *timerLab) lock(c *CallCtx, op *DBOp, i int) []dbAns {
	st := c.St
	n := strconv.Itoa(i)
	locked := inTx(st, op) && op.Lock == "UPDATE"
	x.must(c, st.Get("curtx") == "" || txState(st, op.Root) != "open" || st.Get("curtx") == op.Root.K() && st.Get("cur") == n, "C37/own-tx", "lock", "a job is locked by the transaction of another one")
	_, due, status := x.due(c, op, x.rowID(i))
	root := op.Root.K()
	try := func(st *State) {
		k, _ := strconv.Atoi(st.Get("tried!" + n))
		st.Set("tried!"+n, strconv.Itoa(k+1))
	}
	type fresh struct {
		note   string
		status int
		moved  bool
	}
	fs := []fresh{{"the job is still due", x.toRun, false}}
	if !due {
		fs = append(fs, fresh{"another instance moved the job on", x.toRun, true})
	}
	if !status {
		fs = append(fs, fresh{"another instance finished the job", x.status["TimerFinished"], true}, fresh{"another instance closed the job", x.status["TimerFailed"], true})
	}
	many := op.Kind == "find"
	var as []dbAns
	for _, f := range fs {
		f := f
		as = append(as, found(op, f.note, func(st *State) Value {
			next := &VSym{ID: "row:next" + n, T: fieldType(x.jobT, "", "NextTime"), NonNil: true}
			if f.moved {
				next = &VSym{ID: "row:later" + n, T: next.T, NonNil: true}
			}
			return x.job(st, i, "fresh:", f.status, next)
		}, func(st *State) {
			try(st)
			st.Set("cur", n)
			st.Set("curdepth", st.Get("godepth"))
			st.Set("curtx", root)
			st.Set("due", "")
			if f.status == x.toRun && !f.moved {
				st.Set("due", "1")
			}
			st.Set("haslock", "")
			if locked {
				st.Set("haslock", root)
			}
		}))
	}
	_ = many
	as = append(as, notFound(op, dbAns{Note: "another instance has the job", Do: try}))
	bad := x.fail(c, op)
	bad.Note = "the job is locked by another instance"
	do := bad.Do
	bad.Do = func(st *State) { do(st); try(st) }
	return append(as, bad)
}

// callback answers the timer handler of the user.
func (x *timerLab) callback(c *CallCtx) []Outcome {
	st := c.St
	x.user(c, "", "the timer handler")
	R := func(ok bool, rule, msg string) { x.must(c, ok, "C37/"+rule, "callback", msg) }
	cur := st.Get("cur")
	R(cur != "" && st.Get("dbtx:"+st.Get("curtx")) == "open", "tx", "the callback is called outside the transaction of a job")
	R(cur == "" || st.Get("haslock") != "" && st.Get("haslock") == st.Get("curtx"), "lock", "the callback is called although the row of the job is not locked")
	R(cur == "" || st.Get("godepth") == st.Get("curdepth"), "tx", "the callback runs in a goroutine of its own, so the job may be moved on and its lock be released before the callback has returned")
	R(cur == "" || st.Get("due") != "", "fresh", "the callback is called for a job that another instance has run")
	R(st.Get("called") == "" && st.Get("ran!"+cur) == "", "once", "the callback is called twice for a due job")
	if cur != "" {
		i, _ := strconv.Atoi(cur)
		for k, f := range []string{"Key", "Cron", "Payload"} {
			if len(c.Args) > k+1 {
				R(sameVal(stripIface(c.Args[k+1]), x.jobVal(i, f)), "args", "the callback does not get the "+strings.ToLower(f)+" of the job")
			}
		}
	}
	R(ctxHas(c.Args[0], &VSym{ID: "ctx:background"}) || ctxHas(c.Args[0], x.ctx()), "ctx", "the callback gets a context of unknown origin")
	var os []Outcome
	for _, h := range x.hands {
		e := &VSym{ID: "err:callback" + cur, T: errTypeT, Distinct: true, NonNil: true}
		o := Outcome{Ret: []Value{VNil{}}, Note: "the callback: " + h, Do: func(st *State) {
			st.Set("called", "1")
			st.Set("ran!"+cur, "1")
			st.Set("parse", "")
		}}
		switch h {
		case "err":
			o.Ret = []Value{e}
			do := o.Do
			o.Do = func(st *State) { do(st); addFailed(st, e); mustLog(st, e) }
		case "panic":
			o.Ret, o.Panic = nil, e
			do := o.Do
			o.Do = func(st *State) { do(st); st.SetV("panicked!"+e.K(), e); mustLog(st, e) }
		}
		os = append(os, o)
	}
	return os
}

// save answers writes to a job.
func (x *timerLab) save(c *CallCtx, op *DBOp, i int) []dbAns {
	st := c.St
	n := strconv.Itoa(i)
	R := func(ok bool, rule, msg string) { x.must(c, ok, "C37/"+rule, op.Kind, msg) }
	bad := x.fail(c, op)
	bdo := bad.Do
	e := bad.Err
	bad.Do = func(st *State) { bdo(st); st.Set("savefail", "1"); mustLog(st, e) }
	ok := dbAns{Rows: cInt(1), Do: func(st *State) { st.Set("saved", "1") }}
	R(st.Get("cur") == n && op.Root.K() == st.Get("curtx"), "savetx", "a job is saved by another transaction than the one that holds its lock")
	if st.Get("cur") != n {
		return []dbAns{ok, bad}
	}
	R(st.Get("called") != "", "before", "a job is saved before its callback was called")
	get := func(f, col string) (Value, bool) {
		if op.Kind == "save" {
			return dbField(st, op.Items[0], f), op.writes(f)
		}
		v, in := op.Set[col]
		return v, in
	}
	if op.Kind == "save" {
		for f, w := range map[string]Value{"Service": x.service(), "Key": x.jobVal(i, "Key"), "Cron": x.jobVal(i, "Cron"), "Payload": x.jobVal(i, "Payload")} {
			v, _ := get(f, "")
			R(v != nil && sameVal(v, w), "row", "the "+strings.ToLower(f)+" of a job changes when it is moved on")
		}
	}
	status, hasS := get("Status", "status")
	next, hasN := get("NextTime", "next_time")
	is := func(k string) bool { return hasS && status != nil && sameVal(status, x.num("Status", x.status[k])) }
	if x.jobVal(i, "Cron").K() == cStr("").K() {
		R(is("TimerFinished"), "finished", "a one-time job is not finished after it ran")
		return []dbAns{ok, bad}
	}
	switch st.Get("parse") {
	case "invalid":
		R(is("TimerFailed") || is("TimerFinished"), "closed", "a job whose expression cannot be read any more is not closed")
	case "never":
		R(is("TimerFailed") || is("TimerFinished"), "closed", "a job that never fires again is not closed")
	default:
		R(!hasS || is("TimerToRun"), "open", "a cron job does not stay one to run")
		R(hasN && next != nil && fires(next, x.jobVal(i, "Cron")), "next", "a cron job is not moved on to its next due time")
	}
	return []dbAns{ok, bad}
}

func (x *timerLab) start1() stepFn { return x.call("Start", "start", vals(x.ctx())) }

func (x *timerLab) reg() []stepFn {
	f := x.call("RegisterTimerHandler", "reg", vals(native("timercb")))
	g := x.call("RegisterTimerHandler", "reg", vals(native("stale")))
	x.onCall["native:stale"] = func(c *CallCtx) []Outcome {
		x.must(c, false, "C37/current", "callback", "a callback is called that was replaced")
		return []Outcome{{Ret: []Value{VNil{}}}}
	}
	old := func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("registered", "1")
		return g(in, st, fr)
	}
	return []stepFn{old, f}
}

func scenTimerTurn(registered, swap bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newTimerLab(e, "C37")
		x.swap = swap
		ss := x.build()
		if registered {
			ss = append(ss, x.reg()...)
		}
		x.start(in, append(ss, x.start1())...)
		if registered {
			in.reached("C37/every", "timer", "no due job is ever found")
			in.reached("C37/next", "timer", "no cron job is ever moved on")
			in.reached("C37/finished", "timer", "no one-time job is ever finished")
			in.reached("C37/closed", "timer", "no job is ever closed")
		}
	}
}

// scenTimerStart: starting more than once.
func scenTimerStart(e *Env, in *Interp) {
	x := newTimerLab(e, "C38")
	x.goMode = func(c *CallCtx) int { return goSkip }
	base := x.ev
	x.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
		base(in, st, kind, pos, args)
		if kind == "go" {
			n, _ := strconv.Atoi(st.Get("n:go"))
			st.Set("n:go", strconv.Itoa(n+1))
		}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") == "start" {
			in.Check(st, p == nil && st.Get("n:go") == "1", "C38/once", "timer", 0, "starting a timer twice starts "+orZero(st.Get("n:go"))+" workers")
		}
	}
	x.start(in, x.build(x.start1(), x.start1())...)
	in.reached("C38/once", "timer", "a timer cannot be started")
}

func timerScenarios() []*Scenario {
	return []*Scenario{
		{Name: "timer-register", Props: []string{"C36"}, Run: scenTimerRegister},
		{Name: "timer-turn", Props: []string{"C37", "C38", "C40"}, Run: scenTimerTurn(true, false)},
		{Name: "timer-turn-once", Props: []string{"C37", "C38", "C40"}, Run: scenTimerTurn(true, true)},
		{Name: "timer-unregistered", Props: []string{"C37", "C38", "C40"}, Run: scenTimerTurn(false, false)},
		{Name: "timer-start", Props: []string{"C38", "C40"}, Run: scenTimerStart},
	}
}
