package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// The second half of the database event bus: scanning, handling and cleaning.

func (x *busLab) deliveryID(i int) *VSym { return x.rowID("d" + strconv.Itoa(i)) }
func (x *busLab) eventRowID(i int) *VSym { return x.rowID("ev" + strconv.Itoa(i)) }

// eventRow is the stored event of delivery i.
func (x *busLab) eventRow(st *State, i int) Value {
	id := "e" + strconv.Itoa(i)
	s := x.sender(st, i)
	e := x.event(st, id, x.send, s)
	return dbRow(st, x.evT, "row:"+id, map[string]Value{"ID": x.eventRowID(i), "Event": e, "Sender": cStr(s), "TransID": cInt(0),
		"EventCreatedAt": st.field(e, "CreatedAt"), "EventID": st.field(e, "ID")})
}

// sender is the sender of event i.
func (x *busLab) sender(st *State, i int) string {
	if st.Get("nosender") != "" {
		return ""
	}
	return x.senders[i%len(x.senders)]
}

func (x *busLab) status(n int) Value {
	c := cInt(n).(VConst)
	c.T = fieldType(x.sevT, "", "Status")
	return c
}

// deliveryRow is delivery i as a scan reads it.
func (x *busLab) deliveryRow(st *State, i int, pre string, status int) Value {
	n := strconv.Itoa(i)
	var rc Value = &VSym{ID: pre + "rc" + n, T: fieldType(x.sevT, "", "RetryCount"), NonNil: true}
	if v := st.GetV("rc"); v != nil && pre == "fresh:" {
		rc = v
	}
	return dbRow(st, x.sevT, pre+"d"+n, map[string]Value{"ID": x.deliveryID(i), "EventID": x.eventRowID(i), "Service": x.service(),
		"Status": x.status(status), "RetryCount": rc})
}

// byRow finds the delivery whose row an operation is limited to.
func (x *busLab) byRow(st *State, op *DBOp) int {
	for i := 0; i < x.nDeliv; i++ {
		if op.has("id", "=", x.deliveryID(i)) || op.has("event_id", "=", x.eventRowID(i)) && op.has("service", "=", x.service()) {
			return i
		}
	}
	return -1
}

// notFound completes the answer that no row was found.
func notFound(op *DBOp, a dbAns) dbAns {
	a.Rows = cInt(0)
	do := a.Do
	if op.Kind == "find" || op.Kind == "scan" || op.Kind == "pluck" {
		a.Do = func(st *State) {
			dbFill(st, op.Dest, nil, true)
			if do != nil {
				do(st)
			}
		}
		return a
	}
	a.Err = extErr("gorm.io/gorm", "ErrRecordNotFound")
	return a
}

func found(op *DBOp, note string, row func(st *State) Value, do func(st *State)) dbAns {
	return dbAns{Rows: cInt(1), Note: note, Do: func(st *State) {
		many := op.Kind == "find" || op.Kind == "scan"
		if !dbFill(st, op.Dest, []Value{row(st)}, many) {
			st.Set(taintKey, "destination of a query")
		}
		if do != nil {
			do(st)
		}
	}}
}

// scanFail is the outcome that a query of the scan fails.
func (x *busLab) scanFail(c *CallCtx, op *DBOp, as []dbAns) []dbAns {
	if !x.scanErr {
		return as
	}
	bad := x.fail(c, op)
	do := bad.Do
	bad.Do = func(st *State) {
		do(st)
		st.Set("scanfail", "1")
		mustLog(st, st.GetV("firstfail"))
	}
	return append(as, bad)
}

// tickQ answers the operations of the worker on events and deliveries.
func (x *busLab) tickQ(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	if op.Table == nil {
		st.Set(taintKey, "an operation without table")
		return []dbAns{{}}
	}
	x.must(c, st.Get("scanfail") == "", "C34/error", op.Kind, "the scan goes on after a database error: "+op.String())
	read := map[string]bool{"first": true, "take": true, "last": true, "find": true, "scan": true, "pluck": true}[op.Kind]
	switch op.Table.Obj() {
	case x.evT.Obj():
		if !read {
			x.must(c, false, "C35/write", op.Kind, "the worker changes event rows: "+op.String())
			return []dbAns{{}}
		}
		switch {
		case len(op.cond("sender")) > 0:
			return x.predecessor(c, op)
		case len(op.cond("id")) > 0 && (op.cond("id")[0].Op == "in" || op.cond("id")[0].Op == "="):
			return x.readEvents(c, op)
		case len(op.cond("event_created_at")) > 0:
			return x.window(c, op)
		}
		st.Set(taintKey, "event rows: "+op.String())
		return []dbAns{notFound(op, dbAns{})}
	case x.sevT.Obj():
		if op.Kind == "save" || op.Kind == "update" || op.Kind == "updates" || op.Kind == "updatecolumn" || op.Kind == "updatecolumns" {
			return x.save(c, op)
		}
		if !read {
			x.must(c, false, "C31/write", op.Kind, "the worker changes deliveries in another way than saving them: "+op.String())
			return []dbAns{{}}
		}
		if i := x.byRow(st, op); i >= 0 {
			return x.lockRow(c, op, i)
		}
		if p := st.GetV("pre"); p != nil && op.has("event_id", "=", p) {
			return x.predDelivery(c, op)
		}
		if len(op.cond("event_id")) > 0 && op.cond("event_id")[0].Op == "=" || len(op.cond("id")) > 0 {
			st.Set(taintKey, "a delivery that is not known: "+op.String())
			return []dbAns{notFound(op, dbAns{})}
		}
		if isSliceArg(st, op.Dest) {
			return x.scan(c, op)
		}
		return x.probe(c, op)
	}
	st.Set(taintKey, "a table that is not known: "+op.String())
	return []dbAns{{}}
}

// window answers the query for the first event of the scan window.
func (x *busLab) window(c *CallCtx, op *DBOp) []dbAns {
	for _, cd := range op.cond("event_created_at") {
		x.must(c, cd.Op == ">=" || cd.Op == ">", "C34/window", op.Kind, "the scan does not begin at the start of the scan window: "+op.String())
	}
	x.must(c, len(op.Order) > 0 && (op.Order[0] == "id" || op.Order[0] == "event_created_at"), "C34/oldest", "window", "the scan does not begin at the oldest event of the window")
	hit := found(op, "there are events in the window", func(st *State) Value {
		return dbRow(st, x.evT, "row:start", map[string]Value{"ID": x.rowID("start")})
	}, func(st *State) { st.SetV("start", x.rowID("start")) })
	return x.scanFail(c, op, []dbAns{hit, notFound(op, dbAns{Note: "the scan window is empty"})})
}

// pending: the conditions every query for deliveries to handle has to make.
func (x *busLab) conds(c *CallCtx, op *DBOp, probe bool) {
	st := c.St
	for _, cd := range op.Conds {
		switch cd.Col {
		case "service", "status", "next_time":
		case "event_id":
			v := linear{}
			if cd.Val != nil {
				v = lin(cd.Val)
			}
			ok := false
			for _, n := range []string{"start", "probe"} {
				b := st.GetV(n)
				if b == nil {
					continue
				}
				d := v.add(lin(b), -1)
				if len(d.add(linear{"": d[""]}, -1)) > 0 {
					continue
				}
				ok = true
				x.must(c, cd.Op == ">=" && d[""] <= 0 || cd.Op == ">" && d[""] < 0, "C34/skip", op.Kind, "the scan leaves the first delivery it has to look at out: "+op.String())
			}
			other := cd.Val != nil && (sameVal(cd.Val, x.rowID("dprobe")) || st.GetV("probe") == nil && sameVal(cd.Val, x.rowID("evprobe")))
			x.must(c, !other, "C34/skip", op.Kind, "the scan begins at something that is not the oldest pending event: "+op.String())
			if !ok && !other {
				st.Set(taintKey, "deliveries: "+op.String())
			}
		default:
			st.Set(taintKey, "deliveries: "+op.String())
		}
	}
	due := true
	for _, cd := range op.cond("next_time") {
		ok := (cd.Op == "<=" || cd.Op == "<") && cd.Val != nil && lin(cd.Val).eq(linear{"now": 1})
		due = due && ok
	}
	x.must(c, due, "C34/due", op.Kind, "a scan compares the due time of deliveries with something else than now: "+op.String())
}

// probe answers a query for a single pending delivery that precedes the scan.
func (x *busLab) probe(c *CallCtx, op *DBOp) []dbAns {
	x.conds(c, op, true)
	x.must(c, op.has("service", "=", x.service()), "C34/service", "probe", "the scan begins at a delivery of another service: "+op.String())
	x.must(c, op.has("status", "=", x.status(delivInit)), "C34/pending", "probe", "the scan begins at a delivery that is not pending: "+op.String())
	asc := len(op.Order) > 0 && op.Order[0] == "event_id"
	hit := found(op, "there are pending deliveries", func(st *State) Value {
		return dbRow(st, x.sevT, "row:probe", map[string]Value{"ID": x.rowID("dprobe"), "EventID": x.rowID("evprobe"), "Status": x.status(delivInit)})
	}, func(st *State) {
		if asc {
			st.SetV("probe", x.rowID("evprobe"))
		}
	})
	return x.scanFail(c, op, []dbAns{hit, notFound(op, dbAns{Note: "nothing is pending"})})
}

// scan answers the query for the deliveries to handle.
func (x *busLab) scan(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	x.conds(c, op, false)
	x.must(c, st.Get("scanned") == "", "C34/scan", op.Kind, "deliveries are looked for twice in one turn")
	x.must(c, op.has("service", "=", x.service()), "C34/service", "scan", "the deliveries that are looked for are not limited to the bus's own service: "+op.String())
	x.must(c, op.has("status", "=", x.status(delivInit)), "C34/pending", "scan", "the deliveries that are looked for are not limited to pending ones: "+op.String())
	x.must(c, len(op.cond("next_time")) > 0, "C34/due", "scan", "the deliveries that are looked for are not limited to due ones: "+op.String())
	x.must(c, op.Limit != nil && sameVal(op.Limit, x.limit()), "C34/limit", "scan", "the deliveries that are looked for are not bounded by the configured batch size")
	x.must(c, len(op.Order) > 0 && (op.Order[0] == "event_id" || op.Order[0] == "event_created_at"), "C34/oldest", "scan", "the deliveries that are looked for do not come oldest event first")
	if op.Kind == "pluck" {
		st.Set(taintKey, "a scan by pluck")
	}
	dst := op.Dest
	var as []dbAns
	for n := 0; n <= x.nDeliv; n++ {
		if n > 0 && n < x.nDeliv && !x.missing {
			continue
		}
		n := n
		as = append(as, dbAns{Rows: cInt(n), Note: fmt.Sprintf("%d deliveries are due", n), Do: func(st *State) {
			st.Set("scanned", strconv.Itoa(n))
			var rows []Value
			for i := 0; i < n; i++ {
				rows = append(rows, x.deliveryRow(st, i, "row:", delivInit))
			}
			if !dbFill(st, dst, rows, true) {
				st.Set(taintKey, "destination of a query")
			}
		}})
	}
	return x.scanFail(c, op, as)
}

// readEvents answers a query for event rows by their keys.
func (x *busLab) readEvents(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	n, _ := strconv.Atoi(st.Get("scanned"))
	cd := op.cond("id")[0]
	var want []int
	vs := []Value{cd.Val}
	if cd.Op == "in" {
		es, exact := c.In.elems(st, cd.Val)
		if !exact {
			st.Set(taintKey, "keys of a query")
		}
		vs = es
	}
	for _, v := range vs {
		hit := -1
		for i := 0; i < n; i++ {
			if v != nil && sameVal(v, x.eventRowID(i)) {
				hit = i
			}
		}
		x.must(c, hit >= 0, "C34/events", op.Kind, "the event rows that are read are not those of the deliveries found: "+op.String())
		if hit >= 0 {
			want = append(want, hit)
		}
	}
	x.must(c, op.Limit == nil || sameVal(op.Limit, x.limit()) || op.Kind == "first" || op.Kind == "take", "C34/events", op.Kind, "not all event rows of the deliveries found are read")
	dst := op.Dest
	single := !isSliceArg(st, dst)
	desc := len(op.Order) > 0 && strings.HasSuffix(op.Order[0], " desc")
	ans := func(note string, is []int) dbAns {
		gone := map[int]bool{}
		for _, w := range want {
			gone[w] = true
		}
		for _, i := range is {
			delete(gone, i)
		}
		return dbAns{Rows: cInt(len(is)), Note: note, Do: func(st *State) {
			var rows []Value
			for _, i := range is {
				r := x.eventRow(st, i)
				if desc {
					rows = append([]Value{r}, rows...)
				} else {
					rows = append(rows, r)
				}
			}
			for i := range gone {
				st.Set("gone!"+strconv.Itoa(i), "1")
			}
			if !dbFill(st, dst, rows, !single) {
				st.Set(taintKey, "destination of a query")
			}
		}}
	}
	as := []dbAns{ans("all event rows are there", want)}
	if x.missing {
		for k := range want {
			rest := append(append([]int(nil), want[:k]...), want[k+1:]...)
			a := ans("an event row is missing", rest)
			if single {
				a.Err = extErr("gorm.io/gorm", "ErrRecordNotFound")
			}
			as = append(as, a)
		}
	}
	return x.scanFail(c, op, as)
}

// lockRow answers the second read of a delivery.
func (x *busLab) lockRow(c *CallCtx, op *DBOp, i int) []dbAns {
	st := c.St
	n := strconv.Itoa(i)
	locked := inTx(st, op) && op.Lock == "UPDATE"
	x.must(c, st.Get("curtx") == "", "C31/nested", "lock", "a delivery is locked while another one is handled by the same worker")
	root := op.Root.K()
	count := func(st *State) {
		k, _ := strconv.Atoi(st.Get("locked!" + n))
		st.Set("locked!"+n, strconv.Itoa(k+1))
	}
	// the query may itself demand that the delivery is pending
	demand := op.has("status", "=", x.status(delivInit))
	var as []dbAns
	for _, s := range x.fresh {
		s := s
		if demand && s != delivInit {
			continue
		}
		as = append(as, found(op, fmt.Sprintf("the delivery now has status %d", s), func(st *State) Value { return x.deliveryRow(st, i, "fresh:", s) }, func(st *State) {
			count(st)
			st.Set("cur", n)
			st.Set("curtx", root)
			if s == delivInit {
				st.Set("pending", "1")
			}
			if locked {
				st.Set("haslock", root)
			} else {
				st.Set("haslock", "")
			}
		}))
	}
	if x.lockErr {
		as = append(as, notFound(op, dbAns{Note: "the delivery is gone", Do: count}))
		bad := x.fail(c, op)
		do := bad.Do
		bad.Do = func(st *State) { do(st); count(st) }
		as = append(as, bad)
	}
	return as
}

// predecessor answers the query for the predecessor of an ordered event.
func (x *busLab) predecessor(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	i, _ := strconv.Atoi(st.Get("cur"))
	x.must(c, st.Get("curtx") != "" && op.Root.K() == st.Get("curtx"), "C32/tx", "predecessor", "the predecessor is not looked up by the transaction that holds the delivery")
	s := x.sender(st, i)
	x.must(c, op.has("sender", "=", cStr(s)), "C32/sender", "predecessor", "the predecessor is not one of the same sender: "+op.String())
	at := &VSym{ID: "env:e" + strconv.Itoa(i) + ".CreatedAt"}
	before, strict := false, false
	for _, cd := range op.Conds {
		switch {
		case cd.Col == "sender":
		case cd.Col == "id" && cd.Op == "<" && cd.Val != nil && sameVal(cd.Val, x.eventRowID(i)):
			before = true
		case cd.Col == "event_created_at" && cd.Op == "<=" && cd.Val != nil && sameVal(cd.Val, at):
		case cd.Col == "event_created_at" && cd.Op == "<" && cd.Val != nil && sameVal(cd.Val, at):
			strict = true
		case cd.Col == "id" || cd.Col == "event_created_at":
			x.must(c, false, "C32/before", "predecessor", "the predecessor is not looked for among the earlier events: "+op.String())
		case (cd.Col == "trans_id" || cd.Col == "created_at" || cd.Col == "event_id" || cd.Col == "event") && cd.Op == "=" && cd.Val != nil,
			cd.Col == "created_at" && cd.Val != nil && sameVal(cd.Val, at):
			x.must(c, false, "C32/before", "predecessor", "an earlier event of the sender may be overlooked: "+op.String())
		default:
			st.Set(taintKey, "predecessor: "+op.String())
		}
	}
	x.must(c, before && !strict, "C32/before", "predecessor", "the predecessor is not looked for among all earlier events: "+op.String())
	x.must(c, len(op.Order) > 0 && (op.Order[0] == "event_created_at desc" || op.Order[0] == "id desc"), "C32/latest", "predecessor", "the predecessor that is looked at is not the latest one")
	x.must(c, op.Limit != nil && sameVal(op.Limit, cInt(1)), "C32/latest", "predecessor", "more than the latest predecessor is looked at")
	bad := x.fail(c, op)
	do := bad.Do
	bad.Do = func(st *State) { do(st); st.Set("look", "fail") }
	hit := func(note, where string, id *VSym) dbAns {
		return found(op, note, func(st *State) Value {
			return dbRow(st, x.evT, "row:pre", map[string]Value{"ID": id})
		}, func(st *State) { st.Set("look", "hit"); st.Set("where", where); st.SetV("pre", id) })
	}
	as := []dbAns{hit("there is a predecessor inside the scan window", "in", x.rowID("pre")), notFound(op, dbAns{Note: "there is no predecessor", Do: func(st *State) { st.Set("look", "none") }}), bad}
	if st.GetV("start") != nil {
		as = append(as, hit("the predecessor is the first event of the scan window", "in", x.rowID("start")), hit("there is a predecessor before the scan window", "before", x.rowID("pre")))
	}
	return as
}

// decide compares the predecessor with the start of the scan window.
func (x *busLab) decide(st *State, p *VPred) tri {
	if p.Op != "lt" || st.Get("where") == "" || st.GetV("start") == nil {
		return unknown
	}
	d := lin(p.Y).add(lin(p.X), -1)
	pre, start := x.rowID("pre").K(), x.rowID("start").K()
	c := d[""]
	k := d[start]
	if (k != 1 && k != -1) || d[pre] != -k || len(d.add(linear{"": c}, -1)) != 2 {
		return unknown
	}
	// k*(start-pre) + c > 0, where start-pre >= 1 (before) or <= -1 (in)
	pos := (k == 1) == (st.Get("where") == "before")
	if pos && c >= 0 {
		return triOf(!p.Neg)
	}
	if !pos && c <= 1 {
		return triOf(p.Neg)
	}
	return unknown
}

// predDelivery answers the query for the predecessor's delivery.
func (x *busLab) predDelivery(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	x.must(c, op.Root.K() == st.Get("curtx"), "C32/tx", "delivery", "the predecessor's delivery is not read by the transaction that holds the delivery")
	x.must(c, op.has("service", "=", x.service()), "C32/service", "delivery", "the predecessor is not judged by this service's own delivery: "+op.String())
	var as []dbAns
	for _, s := range []int{delivInit, delivDone, delivFailed, delivPreFail, delivExpired} {
		s := s
		as = append(as, found(op, fmt.Sprintf("the predecessor's delivery has status %d", s), func(st *State) Value {
			return dbRow(st, x.sevT, "row:dpre", map[string]Value{"ID": x.rowID("dpre"), "Status": x.status(s), "EventID": x.rowID("pre"), "RetryCount": &VSym{ID: "row:dpre.rc", T: types.Typ[types.Int]}})
		}, func(st *State) { st.Set("look", "d"+strconv.Itoa(s)) }))
	}
	bad := x.fail(c, op)
	do := bad.Do
	bad.Do = func(st *State) { do(st); st.Set("look", "fail") }
	return append(as, notFound(op, dbAns{Note: "the predecessor has no delivery", Do: func(st *State) { st.Set("look", "nodelivery") }}), bad)
}

// may: must an event of this kind wait, given what was found about its predecessor?
func (x *busLab) may(st *State) (ready, known bool) {
	if x.send != "FIFO" && x.send != "LaxFIFO" {
		return true, true
	}
	i, _ := strconv.Atoi(st.Get("cur"))
	if x.sender(st, i) == "" {
		return false, true
	}
	switch l := st.Get("look"); l {
	case "":
		return false, false // not looked up
	case "fail":
		return false, true
	case "none", "nodelivery":
		return true, true // nothing to wait for
	case "hit":
		return st.Get("where") == "before", st.Get("where") == "before"
	default:
		if st.Get("where") == "before" {
			return true, true
		}
		s, _ := strconv.Atoi(strings.TrimPrefix(l, "d"))
		if x.send == "FIFO" {
			return s == delivDone || s == delivExpired, true
		}
		return s != delivInit, true
	}
}

// handle answers the event handler of the user.
func (x *busLab) handle(c *CallCtx) []Outcome {
	st := c.St
	x.user(c, "", "the event handler")
	R := func(ok bool, rule, msg string) { x.must(c, ok, rule, "handler", msg) }
	cur := st.Get("cur")
	who := ""
	if p, ok := stripIface(c.Args[1]).(VPtr); ok {
		who = strings.TrimPrefix(p.O, "H:")
	}
	R(cur != "" && st.Get("curtx") != "" && st.Get("dbtx:"+st.Get("curtx")) == "open", "C31/tx", "the handler is called without the transaction of a delivery")
	R(cur == "" || st.Get("haslock") != "" && st.Get("haslock") == st.Get("curtx"), "C31/lock", "the handler is called although the row of the delivery is not locked")
	R(cur == "" || st.Get("pending") != "", "C31/pending", "the handler is called although the delivery is not pending any more")
	R(cur == "" || who == "e"+cur, "C34/pair", "the handler does not get the event its delivery refers to")
	R(st.Get("called") == "", "C31/once", "the handler is called twice for one attempt")
	R(ctxHas(c.Args[0], &VSym{ID: "ctx:background"}) || ctxHas(c.Args[0], x.ctx()), "C31/ctx", "the handler gets a context of unknown origin")
	if cur != "" {
		ready, known := x.may(st)
		R(known, "C32/looked", "an ordered event is handled without looking at its predecessor")
		if known {
			R(ready, "C32/wait", "an ordered event is handled although it has to wait ("+x.send+", "+st.Get("look")+")")
		}
	}
	out := func(kind string) Outcome {
		e := &VSym{ID: "err:handler", T: errTypeT, Distinct: true, NonNil: true}
		o := Outcome{Ret: []Value{VNil{}}, Note: "the handler: " + kind, Do: func(st *State) {
			st.Set("called", "1")
			switch kind {
			case "ok":
				st.Set("out", "done")
			default:
				st.Set("out", "failed")
				st.SetV("herr", e)
			}
		}}
		switch kind {
		case "err":
			o.Ret = []Value{e}
		case "panic":
			o.Ret, o.Panic = nil, e
		}
		return o
	}
	var os []Outcome
	for _, h := range x.hands {
		os = append(os, out(h))
	}
	return os
}

// next answers the retry policy of the user.
func (x *busLab) next(c *CallCtx) []Outcome {
	st := c.St
	x.must(c, x.policy == "env", "C33/policy", "Next", "another retry policy than the configured one is asked")
	x.must(c, st.Get("out") == "failed", "C33/asked", "Next", "the retry policy is asked although no attempt failed")
	x.must(c, st.Get("asked") == "", "C33/once", "Next", "the retry policy is asked twice about one failed attempt")
	cur := st.Get("cur")
	rc := st.field(c.Args[0], "RetryCount")
	x.must(c, rc != nil && sameVal(rc, x.freshRC(st, cur)), "C33/count", "Next", "the retry policy does not get the delivery's current number of retries")
	id := st.field(c.Args[0], "ID")
	i, _ := strconv.Atoi(cur)
	x.must(c, id != nil && (sameVal(id, x.eventRowID(i)) || sameVal(id, x.deliveryID(i))), "C33/id", "Next", "the retry policy is not told which event it is asked about")
	t := x.t(busPkg + ".RetryInfo")
	grant := Outcome{Note: "the policy grants a retry"}
	ptr := VPtr{"H:grant", ""}
	grant.Ret = []Value{ptr}
	grant.Do = func(st *State) {
		st.Set("asked", "1")
		st.Set("granted", "1")
		st.heap["H:grant"] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{
			".ID": x.eventRowID(i), ".RetryCount": &VSym{ID: "env:grant.count", T: types.Typ[types.Int]}, ".RetryTime": x.env("grant.time", fieldType(t, "", "RetryTime"))}}
	}
	refuse := Outcome{Ret: []Value{VNil{}}, Note: "the policy refuses", Do: func(st *State) { st.Set("asked", "1"); st.Set("refused", "1") }}
	return []Outcome{grant, refuse}
}

// freshRC is the number of retries of a delivery as it was read under its lock.
func (x *busLab) freshRC(st *State, cur string) Value {
	if v := st.GetV("rc"); v != nil {
		return v
	}
	return &VSym{ID: "fresh:rc" + cur, T: types.Typ[types.Int]}
}

// save answers writes to deliveries.
func (x *busLab) save(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	cur := st.Get("cur")
	R := func(ok bool, rule, what, msg string) { x.must(c, ok, rule, what, msg) }
	bad := x.fail(c, op)
	bdo := bad.Do
	bad.Do = func(st *State) { bdo(st); st.Set("savefail", "1"); mustLog(st, st.GetV("firstfail")) }
	ok := dbAns{Rows: cInt(1), Do: func(st *State) { st.Set("saved", "1") }}
	R(cur != "" && op.Root.K() == st.Get("curtx"), "C31/savetx", op.Kind, "a delivery is saved by another transaction than the one that holds its lock")
	if cur == "" {
		return []dbAns{ok, bad}
	}
	i, _ := strconv.Atoi(cur)
	get := func(f, col string) (Value, bool) { // value, and whether it is written at all
		if op.Kind == "save" {
			if len(op.Items) != 1 {
				return nil, true
			}
			if !op.writes(f) {
				return nil, false
			}
			return dbField(st, op.Items[0], f), true
		}
		v, in := op.Set[col]
		return v, in
	}
	if op.Kind == "save" {
		R(len(op.Items) == 1, "C31/row", "Save", "not exactly one delivery is saved")
		for f, w := range map[string]Value{"ID": x.deliveryID(i), "EventID": x.eventRowID(i), "Service": x.service()} {
			v := dbField(st, op.Items[0], f)
			R(v != nil && sameVal(v, w), "C31/row", f, "the row that is saved is not the delivery that was locked: "+f)
		}
	} else {
		R(x.byRow(st, op) == i, "C31/row", op.Kind, "the row that is saved is not the delivery that was locked: "+op.String())
	}
	status, hasS := get("Status", "status")
	rc, hasC := get("RetryCount", "retry_count")
	nt, hasN := get("NextTime", "next_time")
	msg, hasM := get("FailedMessage", "failed_message")
	is := func(n int) bool { return hasS && status != nil && sameVal(status, x.status(n)) }
	unchangedS := !hasS || is(delivInit)
	sameRC := !hasC || rc != nil && sameVal(rc, x.freshRC(st, cur))
	switch st.Get("out") {
	case "done":
		R(is(delivDone), "C31/done", "Save", "a delivery that was handled successfully is not marked done")
	case "failed":
		if !hasS && !hasC && !hasN {
			st.Set(taintKey, "a delivery saved in parts")
			return []dbAns{ok, bad}
		}
		R(!is(delivDone), "C31/failed", "Save", "a delivery is marked done although handling it failed")
		R(hasM && msg != nil && x.mentions(st, msg, st.GetV("herr")), "C31/message", "Save", "the message of a failed attempt is not recorded")
		x.retried(c, st, is, unchangedS, rc, nt)
	default: // not handled
		ready, known := x.may(st)
		if known {
			R(!ready, "C32/ready", "Save", "an event that need not wait is not handled ("+x.send+", "+st.Get("look")+")")
		}
		R(unchangedS, "C31/waiting", "Save", "a delivery that has to wait does not stay pending")
		R(sameRC, "C31/waiting", "RetryCount", "waiting for a predecessor consumes a retry")
		R(st.Get("asked") == "", "C31/waiting", "Next", "waiting for a predecessor consults the retry policy")
		ok.Do = func(st *State) { st.Set("saved", "1"); st.Set("waited", "1") }
	}
	return []dbAns{ok, bad}
}

// mentions: is e part of a text?
func (x *busLab) mentions(st *State, v, e Value) bool {
	hit := false
	walkValue(v, func(s *VSym) {
		if s.K() == e.K() {
			hit = true
		}
	}, func(o string) {})
	if hit || e == nil {
		return true
	}
	if c, ok := v.(VConst); ok {
		s, _ := constString(c)
		return s != ""
	}
	_, isApp := v.(*VApp)
	return isApp
}

// retried judges what is saved after a failed attempt.
func (x *busLab) retried(c *CallCtx, st *State, is func(int) bool, unchangedS bool, rc, nt Value) {
	R := func(ok bool, rule, msg string) { x.must(c, ok, rule, "Save", msg) }
	failedS := is(delivFailed)
	switch x.policy {
	case "env":
		R(st.Get("asked") != "", "C33/ask", "a failed attempt is saved without asking the retry policy")
		switch {
		case st.Get("granted") != "":
			R(unchangedS, "C33/granted", "a delivery is closed although a retry was granted")
			g := VPtr{"H:grant", ""}
			R(rc != nil && sameVal(rc, st.field(g, "RetryCount")), "C33/stored", "the number of retries the policy granted is not stored")
			R(nt != nil && sameVal(nt, st.field(g, "RetryTime")), "C33/stored", "the time of the retry the policy granted is not stored")
		case st.Get("refused") != "":
			R(failedS, "C33/refused", "a delivery is not marked failed although the policy refused a retry")
		}
		return
	}
	old := x.freshRC(st, st.Get("cur"))
	if failedS {
		st.Set("gaveup", "1")
		switch x.policy {
		case "custom":
			n, _ := constInt(old)
			R(n >= 2, "C33/custom", "a delivery is given up before its custom retries are used up")
		default:
			R(x.bounded(st, old, false), "C33/limit", "a delivery is given up although its retries may not be used up")
		}
		return
	}
	R(unchangedS, "C33/status", "a delivery that failed has neither a retry nor the status failed")
	R(rc != nil && lin(rc).eq(lin(old).add(linear{"": 1}, 1)), "C33/count", "a granted retry does not raise the number of retries by one")
	switch x.policy {
	case "custom":
		n, ok := constInt(old)
		R(ok && n < 2, "C33/custom", "a retry is granted although the custom retries are used up")
		if ok && n < 2 {
			R(nt != nil && atLeast(nt, x.interval(strconv.Itoa(n))), "C33/interval", "a custom retry is due before its own interval has passed")
		}
	case "interval":
		R(x.bounded(st, old, true), "C33/finite", "a retry is granted without comparing the number of retries with the limit")
		R(nt != nil && atLeast(nt, x.interval("")), "C33/interval", "a retry is due before the interval has passed")
	case "default":
		R(nt != nil && lin(nt)["now"] == 1, "C33/interval", "a retry is not scheduled from now on")
	}
}

// atLeast: is a time not before now (or the last time) plus an interval?
func atLeast(t, iv Value) bool {
	l := lin(t)
	return l.eq(linear{"now": 1}.add(lin(iv), 1))
}

// bounded: was the number of retries compared with the configured limit?
func (x *busLab) bounded(st *State, n Value, granted bool) bool {
	lim := x.retryLimit()
	for _, f := range st.facts {
		if f.p.Op != "lt" {
			continue
		}
		d := lin(f.p.Y).add(lin(f.p.X), -1)
		if d[n.K()] == 0 || d[lim.K()] == 0 {
			continue
		}
		// limit - n bounded from below grants, n - limit bounded from below refuses
		low := d[lim.K()] > 0
		if low == f.v == granted {
			return true
		}
	}
	if x.policy == "default" {
		return true
	}
	return false
}

// ---- scenarios -----------------------------------------------------------------------

func (x *busLab) tickScenario(in *Interp, extra ...stepFn) {
	ss := x.build(extra...)
	ss = append(ss, x.registerHandler())
	ss = append(ss, x.startWorker()...)
	x.start(in, ss...)
}

// scenBusScan: which deliveries are found and with which events they are handled.
func scenBusScan(conc int) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newBusLab(e, "C34")
		x.nDeliv, x.missing, x.scanErr, x.conc = 2, true, true, conc
		x.hands = []string{"ok"}
		if conc == 1 {
			x.hands = []string{"ok", "err"}
		}
		x.tickScenario(in)
		in.reached("C34/pair", "worker", "no delivery is ever handled")
		in.reached("C34/once", "worker", "no delivery is ever found")
	}
}

// scenBusHandle: one delivery with all its outcomes.
func scenBusHandle(e *Env, in *Interp) {
	x := newBusLab(e, "C31")
	x.fresh = []int{delivInit, delivDone, delivFailed, delivExpired}
	x.lockErr = true
	x.hands = []string{"ok", "err", "panic"}
	x.tickScenario(in)
	in.reached("C31/done", "worker", "no delivery is ever saved as done")
	in.reached("C33/stored", "worker", "no granted retry is ever saved")
	in.reached("C33/refused", "worker", "no refused retry is ever saved")
}

// scenBusOrder: ordered events and their predecessors.
func scenBusOrder(send string) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newBusLab(e, "C32")
		x.send = send
		x.hands = []string{"ok"}
		if send == "FIFO" {
			x.hands = []string{"ok", "err"}
		}
		x.tickScenario(in, func(in *Interp, st *State, fr *Frame) []*State {
			return choose(st, func(st *State, fr *Frame) []*State { return nil }, func(st *State, fr *Frame) []*State { st.Set("nosender", "1"); return nil })
		})
		if send == "FIFO" || send == "LaxFIFO" {
			in.reached("C32/before", "worker", "the predecessor of an ordered event is never looked up")
			in.reached("C32/ready", "worker", "no ordered event ever waits")
		}
		in.reached("C32/looked", "worker", "no event is ever handled")
	}
}

// scenBusRetry: the retry policies of the library.
func scenBusRetry(policy string) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newBusLab(e, "C33")
		x.policy = policy
		x.hands = []string{"err", "panic"}
		set := func(in *Interp, st *State, fr *Frame) []*State {
			if policy != "custom" {
				return nil
			}
			var as []func(st *State, fr *Frame) []*State
			for _, n := range []int{0, 1, 2, 3} {
				n := n
				as = append(as, func(st *State, fr *Frame) []*State { st.SetV("rc", cInt(n)); return nil })
			}
			return choose(st, as...)
		}
		x.tickScenario(in, set)
		in.reached("C33/count", "worker", "no retry is ever granted")
	}
}

// scenBusPolicy: what the policies of the library answer.
func scenBusPolicy(e *Env, in *Interp) {
	l := newLab(e)
	t := e.T(busPkg + ".RetryInfo")
	num := types.Typ[types.Int]
	rc := &VSym{ID: "env:rc", T: num, NonNil: true}
	limit := &VSym{ID: "env:retrylimit", T: num, NonNil: true}
	iv := func(n string) Value {
		return &VSym{ID: "env:interval" + n, T: fieldType(e.T(busPkg+".IntervalRetry"), "", "Interval")}
	}
	last := &VSym{ID: "env:last", T: fieldType(t, "", "RetryTime"), NonNil: true}
	l.atEnd = func(in *Interp, st *State, p Value) {
		in.Check(st, p == nil, "C33/panic", st.Get("policy"), 0, "a retry policy panics")
	}
	l.BH.decide = func(st *State, p *VPred) tri {
		if p.Op == "lt" {
			if n, ok := constInt(p.Y); ok && p.X.K() == rc.K() && n <= 0 {
				return triOf(p.Neg) // a number of retries is not negative
			}
		}
		return unknown
	}
	mk := func(name string, cells func(st *State) map[string]Value, count Value) func(st *State, fr *Frame) []*State {
		return func(st *State, fr *Frame) []*State {
			st.Set("policy", name)
			pt := e.T(busPkg + "." + name)
			st.heap["H:policy"] = &Obj{Kind: "cells", T: pt, Cells: cells(st)}
			st.heap["H:info"] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{".ID": &VSym{ID: "env:id", T: types.Typ[types.Int64], Distinct: true}, ".RetryCount": count, ".RetryTime": last}}
			st.SetV("rc", count)
			return in.CallFn(st, e.M(busPkg, name, "Next"), "next:"+name, VPtr{"H:policy", ""}, VPtr{"H:info", ""})
		}
	}
	var alts []func(st *State, fr *Frame) []*State
	alts = append(alts, mk("LimitRetry", func(st *State) map[string]Value { return map[string]Value{".Limit": limit} }, rc))
	alts = append(alts, mk("IntervalRetry", func(st *State) map[string]Value { return map[string]Value{".Limit": limit, ".Interval": iv("")} }, rc))
	for n := 0; n <= 3; n++ {
		alts = append(alts, mk("CustomRetry", func(st *State) map[string]Value {
			return map[string]Value{".Intervals": st.slice("H:ivs", fieldType(e.T(busPkg+".CustomRetry"), "", "Intervals"), iv("0"), iv("1"))}
		}, cInt(n)))
	}
	b := &busLab{policy: "interval"}
	b.DBLab = &DBLab{Lab: l}
	l.start(in, func(in *Interp, st *State, fr *Frame) []*State { return choose(st, alts...) },
		func(in *Interp, st *State, fr *Frame) []*State {
			name := st.Get("policy")
			R := func(ok bool, rule, msg string) { in.Check(st, ok, "C33/"+rule, name, 0, msg) }
			count := st.GetV("rc")
			n, isConst := constInt(count)
			r := stripIface(orNil(fr.loc["ret"]))
			if isNoErr(in, st, r) {
				if name == "CustomRetry" {
					R(!isConst || n >= 2, "custom", "the policy refuses before its retries are used up")
				} else {
					R(b.boundedBy(st, count, limit, false), "limit", "the policy refuses although its retries may not be used up")
				}
				return nil
			}
			c2, tm := st.field(r, "RetryCount"), st.field(r, "RetryTime")
			R(c2 != nil && lin(c2).eq(lin(count).add(linear{"": 1}, 1)), "count", "a granted retry does not raise the number of retries by one")
			if name == "CustomRetry" {
				R(isConst && n < 2, "custom", "the policy grants a retry although its retries are used up")
			} else {
				R(b.boundedBy(st, count, limit, true), "finite", "a retry is granted without comparing the number of retries with the limit")
			}
			if name == "LimitRetry" || tm == nil {
				return nil
			}
			d := iv("")
			if name == "CustomRetry" && n < 2 {
				d = iv(strconv.Itoa(n))
			}
			tl := lin(tm)
			R(tl.eq(linear{"now": 1}.add(lin(d), 1)) || tl.eq(lin(last).add(lin(d), 1)), "interval", "a retry is due before the interval has passed since now or the last time")
			return nil
		})
	in.reached("C33/finite", "Next", "no policy ever grants a retry")
}

func (x *busLab) boundedBy(st *State, n, lim Value, granted bool) bool {
	for _, f := range st.facts {
		if f.p.Op != "lt" {
			continue
		}
		d := lin(f.p.Y).add(lin(f.p.X), -1)
		if d[n.K()] == 0 || d[lim.K()] == 0 {
			continue
		}
		if (d[lim.K()] > 0) == f.v == granted {
			return true
		}
	}
	return false
}

// ---- cleaning ------------------------------------------------------------------------------

// clean answers the operations of the cleaning job.
func (x *busLab) clean(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	bad := x.fail(c, op)
	bdo := bad.Do
	bad.Do = func(st *State) { bdo(st); st.Set("stop", "1"); mustLog(st, st.GetV("firstfail")) }
	if op.Table == nil {
		st.Set(taintKey, "an operation without table")
		return []dbAns{{}, bad}
	}
	R := func(ok bool, rule, what, msg string) { x.must(c, ok, "C35/"+rule, what, msg) }
	R(st.Get("stop") == "", "stop", op.Kind, "cleaning goes on after an error: "+op.String())
	ids := func(col string) []Value {
		for _, cd := range op.cond(col) {
			if cd.Op == "=" {
				return []Value{cd.Val}
			}
			if cd.Op == "in" {
				if t, ok := cd.Val.(*VTuple); ok {
					return t.V
				}
				es, exact := c.In.elems(st, cd.Val)
				if !exact {
					st.Set(taintKey, "keys of a query")
				}
				return es
			}
		}
		return nil
	}
	n, _ := strconv.Atoi(st.Get("rows"))
	index := func(v Value, f func(int) *VSym) int {
		for i := 0; i < n; i++ {
			if v != nil && sameVal(v, f(i)) {
				return i
			}
		}
		return -1
	}
	switch op.Table.Obj() {
	case x.sevT.Obj():
		switch op.Kind {
		case "rows", "find", "scan":
			if st.Get("rows") != "" {
				return x.references(c, op, ids("event_id"), bad, R)
			}
			R(op.has("service", "=", x.service()), "service", "select", "the deliveries to clean are not limited to the bus's own service: "+op.String())
			R(op.has("status", "=", x.status(delivDone)), "done", "select", "the deliveries to clean are not limited to those that are done: "+op.String())
			old := false
			for _, cd := range op.cond("event_created_at") {
				old = old || (cd.Op == "<" || cd.Op == "<=") && cd.Val != nil && lin(cd.Val).eq(linear{"now": 1}.add(lin(x.retention()), -1))
			}
			R(old, "old", "select", "the deliveries to clean are not limited to those older than the retention time: "+op.String())
			for _, cd := range op.Conds {
				if cd.Col != "service" && cd.Col != "status" && cd.Col != "event_created_at" {
					st.Set(taintKey, "deliveries to clean: "+op.String())
				}
			}
			dst := op.Dest
			var as []dbAns
			for _, k := range []int{0, 1, 2, 10, 11} {
				k := k
				a := dbAns{Note: fmt.Sprintf("%d deliveries to clean", k)}
				var rows []Value
				for i := 0; i < k; i++ {
					rows = append(rows, x.deliveryRow(st, i, "row:", delivDone))
				}
				a.Rows = &VTuple{V: rows}
				a.Do = func(st *State) {
					st.Set("rows", strconv.Itoa(k))
					if op.Kind != "rows" {
						if !dbFill(st, dst, rows, true) {
							st.Set(taintKey, "destination of a query")
						}
					}
				}
				if op.Kind != "rows" {
					a.Rows = cInt(k)
				}
				as = append(as, a)
			}
			return append(as, bad)
		case "count", "pluck":
			return x.references(c, op, ids("event_id"), bad, R)
		case "delete":
			R(op.has("service", "=", x.service()) || len(ids("id")) > 0, "own", "delete", "the deliveries that are removed are not limited to the bus's own service: "+op.String())
			var hit []int
			for _, v := range ids("event_id") {
				i := index(v, x.eventRowID)
				R(i >= 0, "selected", "delete", "a delivery is removed that was not selected for cleaning")
				hit = append(hit, i)
			}
			for _, v := range ids("id") {
				i := index(v, x.deliveryID)
				R(i >= 0, "selected", "delete", "a delivery is removed that was not selected for cleaning")
				hit = append(hit, i)
			}
			if len(hit) == 0 {
				R(false, "selected", "delete", "the deliveries that are removed are not limited to those selected: "+op.String())
			}
			return []dbAns{{Rows: cInt(len(hit)), Do: func(st *State) {
				for _, i := range hit {
					if i >= 0 {
						st.Set("cleaned!"+strconv.Itoa(i), "1")
					}
				}
			}}, bad}
		}
	case x.evT.Obj():
		if op.Kind == "delete" {
			vs := ids("id")
			R(len(vs) > 0, "event", "delete", "the events that are removed are not limited to those selected: "+op.String())
			for _, v := range vs {
				i := index(v, x.eventRowID)
				R(i >= 0, "event", "delete", "an event is removed that was not selected for cleaning")
				if i < 0 {
					continue
				}
				k := strconv.Itoa(i)
				R(st.Get("cleaned!"+k) != "", "order", "delete", "an event is removed before its delivery")
				R(st.Get("ref!"+k) == "no", "referenced", "delete", "an event is removed although a delivery may still refer to it ("+st.Get("ref!"+k)+")")
			}
			return []dbAns{{Rows: cInt(len(vs)), Do: func(st *State) { st.Set("evdel", "1") }}, bad}
		}
	}
	st.Set(taintKey, "cleaning: "+op.String())
	return []dbAns{{}, bad}
}

// references answers the query for the deliveries that still refer to events.
func (x *busLab) references(c *CallCtx, op *DBOp, keys []Value, bad dbAns, R func(ok bool, rule, what, msg string)) []dbAns {
	st := c.St
	for _, cd := range op.Conds {
		R(cd.Col == "event_id", "allrefs", "references", "not all deliveries count as references to an event: "+op.String())
	}
	R(op.Limit == nil, "allrefs", "references", "not all deliveries count as references to an event")
	if op.Kind == "count" || op.Kind == "pluck" || op.Kind == "rows" {
		st.Set(taintKey, "references by "+op.Kind)
		return []dbAns{{}, bad}
	}
	n, _ := strconv.Atoi(st.Get("rows"))
	var is []int
	for _, v := range keys {
		for i := 0; i < n; i++ {
			if v != nil && sameVal(v, x.eventRowID(i)) {
				is = append(is, i)
			}
		}
	}
	dst := op.Dest
	et := elemTypeOfDest(st, dst)
	ans := func(note string, ref map[int]bool) dbAns {
		return dbAns{Note: note, Rows: cInt(len(ref)), Do: func(st *State) {
			var rows []Value
			for _, i := range is {
				k := strconv.Itoa(i)
				if !ref[i] {
					st.Set("ref!"+k, "no")
					continue
				}
				st.Set("ref!"+k, "yes")
				if et == nil {
					st.Set(taintKey, "destination of a query")
					continue
				}
				rows = append(rows, dbRow(st, et, "row:ref"+k, map[string]Value{"EventID": x.eventRowID(i), "Count": cInt(1)}))
			}
			if !dbFill(st, dst, rows, true) {
				st.Set(taintKey, "destination of a query")
			}
		}}
	}
	all := map[int]bool{}
	for _, i := range is {
		all[i] = true
	}
	as := []dbAns{ans("no delivery refers to the events any more", nil)}
	if len(is) > 0 {
		as = append(as, ans("the first event is still referred to", map[int]bool{is[0]: true}))
	}
	if len(is) > 1 {
		as = append(as, ans("the last event is still referred to", map[int]bool{is[len(is)-1]: true}), ans("all events are still referred to", all))
	}
	return append(as, bad)
}

func elemTypeOfDest(st *State, dst Value) types.Type {
	p, ok := stripIface(dst).(VPtr)
	if !ok || st.heap[p.O] == nil || st.heap[p.O].T == nil {
		return nil
	}
	t := elemType(st.heap[p.O].T)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil
	}
	return t
}

// scenBusClean: the cleaning job.
func scenBusClean(e *Env, in *Interp) {
	x := newBusLab(e, "C35")
	x.nDeliv = 12
	x.goMode = func(c *CallCtx) int { return goSkip }
	base := x.ev
	x.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
		base(in, st, kind, pos, args)
		switch kind {
		case "cronadd":
			in.Check(st, sameVal(args[0], x.env("cleancron", nil)), "C35/schedule", "Start", pos, "cleaning does not follow the configured schedule")
			st.SetV("cronfn", args[1])
		case "rowsopen":
			st.Set("open!"+args[0].K(), "1")
		case "rowsclose":
			st.Set("open!"+args[0].K(), "")
		case "cursorfail":
			st.Set("stop", "1")
			addFailed(st, args[1])
			mustLog(st, args[1])
		}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") != "clean" {
			return
		}
		chk := func(ok bool, rule, msg string) { in.Check(st, ok, "C35/"+rule, "cleaning", 0, msg) }
		chk(p == nil, "panic", "the cleaning job panics")
		for k := range st.mon {
			if strings.HasPrefix(k, "open!") {
				chk(false, "cursor", "a cursor is not closed")
			}
			if strings.HasPrefix(k, "mustlog!") {
				chk(st.Get("logged!"+k[8:]) != "", "error", "an error of the cleaning job gets lost")
			}
		}
		chk(!openTx(st), "tx", "a transaction is still open when cleaning is over")
		if st.Get("stop") != "" {
			return
		}
		n, _ := strconv.Atoi(st.Get("rows"))
		for i := 0; i < n; i++ {
			k := strconv.Itoa(i)
			chk(st.Get("cleaned!"+k) != "", "every", fmt.Sprintf("a delivery that was selected is not removed (%d selected)", n))
			chk(st.Get("ref!"+k) != "", "events", fmt.Sprintf("it is not checked whether the event of a removed delivery can go (%d selected)", n))
		}
	}
	ss := x.build(x.startWorker()...)
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		f := st.GetV("cronfn")
		if f == nil {
			fr.pc = 90
			return nil
		}
		st.Set("phase", "clean")
		for _, f := range failed(st) {
			delete(st.mon, failedPre+f.K())
		}
		return in.CallValue(st, f, sig(nil), "clean")
	})
	x.start(in, ss...)
	in.reached("C35/done", "cleaning", "nothing is ever selected for cleaning")
	in.reached("C35/referenced", "cleaning", "no event is ever removed")
	in.reached("C35/schedule", "Start", "cleaning is never scheduled")
}

// scenBusTurns: the worker looks for messages and for events in each turn,
// whatever fails.
func scenBusTurns(e *Env, in *Interp) {
	x := newBusLab(e, "C38")
	x.turns, x.scanErr, x.nDeliv = 2, true, 0
	x.tickScenario(in)
	in.reached("C38/turn", "worker", "the worker never works")
}

// scenBusSaved: the deliveries that are handled when a run of the engine has been saved.
func scenBusSaved(e *Env, in *Interp) {
	x := newBusLab(e, "C38")
	x.scanErr = true
	x.hands = []string{"ok", "err", "panic"}
	t := e.T("PostSaveOption")
	ss := x.build(x.registerHandler(), x.call("Options", "reg", vals()), keep("opts"),
		func(in *Interp, st *State, fr *Frame) []*State {
			opts, exact := in.elems(st, fr.loc["opts"])
			if !exact {
				st.Set(taintKey, "options of the bus")
			}
			var f Value
			for _, o := range opts {
				if i, ok := o.(*VIface); ok && types.Identical(i.T, t) {
					f = i.V
				}
			}
			if f == nil {
				fr.pc = 90
				return nil
			}
			st.Set("phase", "saved")
			st.Set("n:saved", "1")
			return in.CallValue(st, f, e.T("PostSaveOption").Underlying().(*types.Signature), "saved", x.ctx(), VNil{})
		})
	x.start(in, ss...)
	_ = t
}

// scenBusStart: starting more than once.
func scenBusStart(e *Env, in *Interp) {
	x := newBusLab(e, "C38")
	x.goMode = func(c *CallCtx) int { return goSkip }
	base := x.ev
	x.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
		base(in, st, kind, pos, args)
		switch kind {
		case "go", "cronadd", "cronstart":
			n, _ := strconv.Atoi(st.Get("n:" + kind))
			st.Set("n:"+kind, strconv.Itoa(n+1))
		}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		if st.Get("phase") != "start" || p != nil {
			return
		}
		in.Check(st, st.Get("n:go") == "1", "C38/once", "Start", 0, "starting a bus twice starts "+orZero(st.Get("n:go"))+" workers")
		in.Check(st, st.Get("n:cronadd") == "1" && st.Get("n:cronstart") == "1", "C38/cleaner", "Start", 0, "starting a bus twice starts "+orZero(st.Get("n:cronstart"))+" cleaning schedules with "+orZero(st.Get("n:cronadd"))+" jobs")
	}
	ss := x.build(x.startWorker()...)
	ss = append(ss, x.startWorker()...)
	x.start(in, ss...)
	in.reached("C38/once", "Start", "a bus cannot be started")
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

func busScenarios() []*Scenario {
	return []*Scenario{
		{Name: "bus-dispatch", Props: []string{"C29", "C30"}, Run: scenBusDispatch},
		{Name: "bus-many", Props: []string{"C29"}, Run: scenBusDispatchMany},
		{Name: "bus-message", Props: []string{"C29", "C30"}, Run: scenBusMessage},
		{Name: "bus-two", Props: []string{"C30"}, Run: scenBusTwo},
		{Name: "bus-overdue", Props: []string{"C29", "C30", "C38", "C40"}, Run: scenBusOverdue(true)},
		{Name: "bus-overdue-unasked", Props: []string{"C30", "C38", "C40"}, Run: scenBusOverdue(false)},
		{Name: "bus-scan", Props: []string{"C31", "C34", "C38", "C40"}, Run: scenBusScan(1)},
		{Name: "bus-scan2", Props: []string{"C31", "C34", "C38", "C40"}, Run: scenBusScan(2)},
		{Name: "bus-handle", Props: []string{"C31", "C33", "C38", "C40"}, Run: scenBusHandle},
		{Name: "bus-fifo", Props: []string{"C31", "C32"}, Run: scenBusOrder("FIFO")},
		{Name: "bus-laxfifo", Props: []string{"C31", "C32"}, Run: scenBusOrder("LaxFIFO")},
		{Name: "bus-unordered", Props: []string{"C31", "C32"}, Run: scenBusOrder("normal")},
		{Name: "bus-retry-interval", Props: []string{"C33"}, Run: scenBusRetry("interval")},
		{Name: "bus-retry-custom", Props: []string{"C33"}, Run: scenBusRetry("custom")},
		{Name: "bus-retry-default", Props: []string{"C33"}, Run: scenBusRetry("default")},
		{Name: "bus-policy", Props: []string{"C33"}, Run: scenBusPolicy},
		{Name: "bus-clean", Props: []string{"C35"}, Run: scenBusClean},
		{Name: "bus-turns", Props: []string{"C38"}, Run: scenBusTurns},
		{Name: "bus-saved", Props: []string{"C31", "C38", "C40"}, Run: scenBusSaved},
		{Name: "bus-start", Props: []string{"C38", "C40"}, Run: scenBusStart},
	}
}
