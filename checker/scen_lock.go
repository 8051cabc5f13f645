package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reached reports a rule whose obligation never came up in a complete
// analysis: the behaviour it is about is not there at all.
func (in *Interp) reached(rule, construct, msg string) {
	if in.Obl[rule] > 0 || in.Incomplete != "" || len(in.Tainted) > 0 || len(in.Stopped) > 0 || len(in.Unknown) > 0 || len(in.Cut) > 0 {
		return
	}
	in.Violations = append(in.Violations, &Violation{Rule: rule, Construct: construct, Msg: msg, Scenario: in.Scenario})
}

// lockEnv: the database lock.
type lockEnv struct {
	*DBLab
	row   *types.Named
	retry bool
}

const lockPkg = "lock/db"

func newLockEnv(e *Env, rule string) *lockEnv {
	l := &lockEnv{DBLab: newDBLab(e, rule)}
	l.row = e.T(lockPkg + ".ResourceLock").(*types.Named)
	l.onCall["github.com/rs/xid.New"] = func(c *CallCtx) []Outcome {
		out := extModels["github.com/rs/xid.New"](c)
		for i := range out {
			c.St.SetV("xid!"+out[i].Ret[0].K(), cStr(c.St.Get("phase")))
		}
		return out
	}
	l.onCall["native:lockopt"] = func(c *CallCtx) []Outcome {
		if p, ok := stripIface(c.Args[0]).(VPtr); ok {
			t := e.T(lockPkg + ".Options")
			c.St.storeCell(p.O, p.P+".Retry", types.Typ[types.Bool], cBool(false))
			c.St.storeCell(p.O, p.P+".RenewInterval", fieldType(t, "", "RenewInterval"), &VSym{ID: "env:renew", T: fieldType(t, "", "RenewInterval")})
		}
		return ret()
	}
	l.txev = func(c *CallCtx, op *DBOp, ok bool) {
		if op.Kind == "rollback" || (op.Kind == "commit" && !ok) {
			c.St.Set("won", "")
		}
	}
	return l
}

func (l *lockEnv) ttl() Value {
	f := l.e.Fn(lockPkg + ".NewDBLock")
	return &VSym{ID: "env:ttl", T: f.Signature.Params().At(1).Type()}
}

func (l *lockEnv) ctx() Value  { return l.env("ctx", l.ctxT()) }
func (l *lockEnv) lkey() Value { return l.env("key", types.Typ[types.String]) }

// build is the construction of the lock.
func (l *lockEnv) build(opts bool) []stepFn {
	f := l.e.Fn(lockPkg + ".NewDBLock")
	return []stepFn{
		do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }),
		func(in *Interp, st *State, fr *Frame) []*State {
			var o Value = VNil{}
			if opts {
				o = st.slice("H:opts", f.Signature.Params().At(2).Type(), native("lockopt"))
			}
			return in.CallFn(st, f, "new", l.db(), l.ttl(), o)
		},
		keep("lock"),
	}
}

func (l *lockEnv) m(name string) *ssa.Function { return l.e.M(lockPkg, "DBLock", name) }

// freshID: was v generated during the call under analysis?
func freshID(st *State, v Value) bool {
	ok := false
	walkValue(v, func(s *VSym) {
		if strings.HasPrefix(s.ID, "xid@") {
			if p, in := st.mon["xid!"+s.K()]; in {
				if x, _ := constString(p); x == "lock" {
					ok = true
				}
			}
		}
	}, func(string) {})
	return ok
}

// acquire answers the operations of an attempt to get the lock.
func (l *lockEnv) acquire(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	R := l.rule
	key := l.lkey()
	l.must(c, op.Table == nil || op.Table.Obj() == l.row.Obj(), R+"/table", op.Kind, "locking touches another table: "+op.String())
	if len(failed(st)) > 0 {
		l.must(c, st.Get("dberr") == "", R+"/stop", op.Kind, "locking goes on after a database error")
	}
	l.must(c, st.GetV("won") == nil, R+"/twice", op.Kind, "locking goes on after the lock was won")
	bad := l.fail(c, op)
	bado := bad.Do
	bad.Do = func(st *State) { bado(st); st.Set("dberr", "1") }
	switch op.Kind {
	case "first", "take", "last", "find", "scan":
		l.must(c, op.has("resource", "=", key), R+"/read", op.Kind, "the lock row is not read by the key that is locked: "+op.String())
		h := c.sym("row:holder", types.Typ[types.String])
		u := c.sym("row:upd", fieldType(l.row, "", "UpdatedAt"))
		id := c.sym("row:id", fieldType(l.row, "", "ID"))
		dst := op.Dest
		hit := dbAns{Rows: cInt(1), Note: "the row exists", Do: func(st *State) {
			st.SetV("holder", h)
			st.SetV("upd", u)
			r := dbRow(st, l.row, "row", map[string]Value{"Resource": key, "LockerID": h, "UpdatedAt": u, "ID": id})
			if !dbFill(st, dst, []Value{r}, false) {
				st.Set(taintKey, "destination of a query")
			}
		}}
		none := dbAns{Rows: cInt(0), Note: "no row", Do: func(st *State) { st.Set("norow", "1") }}
		if op.Kind != "find" && op.Kind != "scan" {
			none.Err = extErr("gorm.io/gorm", "ErrRecordNotFound")
		} else {
			none.Do = func(st *State) { st.Set("norow", "1"); dbFill(st, dst, nil, true) }
		}
		return []dbAns{hit, none, bad}
	case "create", "save", "firstorcreate":
		l.must(c, op.Kind == "create", R+"/create", op.Kind, "the lock row is written by "+op.Kind+", which may overwrite another holder's row")
		l.must(c, len(op.Items) == 1, R+"/create", op.Kind, "not exactly one lock row is created")
		l.must(c, op.unwritten() == "", R+"/create", "columns", "a lock row is created without its "+op.unwritten())
		if len(op.Items) != 1 {
			return []dbAns{bad}
		}
		it := op.Items[0]
		res, lk := dbField(st, it, "Resource"), dbField(st, it, "LockerID")
		l.must(c, res != nil && sameVal(res, key), R+"/create", op.Kind, "the row created is not that of the key")
		l.must(c, lk != nil && freshID(st, lk), R+"/fresh", op.Kind, "the row created carries no fresh holder ID")
		if u := dbField(st, it, "UpdatedAt"); u != nil && !isZeroValue(u) {
			l.must(c, isNow(u), R+"/time", op.Kind, "the row created does not carry the current time")
		}
		l.must(c, !op.ConflictUpdate, R+"/create", op.Kind, "creating the lock row overwrites an existing one")
		if lk == nil {
			return []dbAns{bad}
		}
		w := dbAns{Rows: cInt(1), Note: "the row is created", Do: func(st *State) { st.SetV("won", lk) }}
		lost := dbAns{Err: extErr("gorm.io/gorm", "ErrDuplicatedKey"), Note: "another one created the row", Do: func(st *State) { st.Set("lost", "1") }}
		if op.Conflict {
			lost = dbAns{Rows: cInt(0), Note: "another one created the row", Do: func(st *State) { st.Set("lost", "1") }}
		}
		return []dbAns{w, lost, bad}
	case "update", "updates", "updatecolumn", "updatecolumns":
		l.must(c, op.has("resource", "=", key), R+"/takeover", op.Kind, "taking the lock over is not limited to the key: "+op.String())
		old := false
		if u := st.GetV("upd"); u != nil {
			e := linear{"now": 1}.add(lin(u), -1).add(lin(l.ttl()), -1)
			s := knownSign(st, e)
			old = s[">="] || s[">"]
		}
		h := st.GetV("holder")
		byHolder := h != nil && op.has("locker_id", "=", h)
		byTime := false
		for _, cd := range op.cond("updated_at") {
			if (cd.Op == "<" || cd.Op == "<=") && cd.Val != nil && lin(cd.Val).eq(linear{"now": 1}.add(lin(l.ttl()), -1)) {
				byTime = true
			}
		}
		l.must(c, byTime || byHolder, R+"/holder", op.Kind, "taking the lock over is not conditioned on the holder that was read: "+op.String())
		l.must(c, byTime || old, R+"/young", op.Kind, "a lock is taken over that is not known to have expired")
		lk, up := op.Set["locker_id"], op.Set["updated_at"]
		l.must(c, lk != nil && freshID(st, lk), R+"/fresh", op.Kind, "taking the lock over writes no fresh holder ID")
		l.must(c, up != nil && isNow(up), R+"/time", op.Kind, "taking the lock over does not write the current time")
		if r := op.Set["resource"]; r != nil {
			l.must(c, sameVal(r, key), R+"/takeover", op.Kind, "taking the lock over changes the resource")
		}
		if lk == nil {
			return []dbAns{bad}
		}
		w := dbAns{Rows: cInt(1), Note: "the row is taken over", Do: func(st *State) { st.SetV("won", lk) }}
		lost := dbAns{Rows: cInt(0), Note: "another one took the row over", Do: func(st *State) { st.Set("lost", "1") }}
		return []dbAns{w, lost, bad}
	}
	l.must(c, false, R+"/write", op.Kind, "locking changes rows in a way that can touch another holder: "+op.String())
	return []dbAns{{}, bad}
}

// outcome checks what an attempt reported.
func (l *lockEnv) outcome(in *Interp, st *State, grant, err Value) {
	R := l.rule
	locked := l.e.Global("", "ErrEntityLocked")
	chk := func(ok bool, rule, msg string) { in.Check(st, ok, R+"/"+rule, "Lock", 0, msg) }
	chk(!openTx(st), "tx", "a transaction is still open when locking returns")
	if w := st.GetV("won"); w != nil {
		chk(isNoErr(in, st, err), "won", "the lock was won, but an error is returned")
		p, ok := stripIface(grant).(VPtr)
		chk(ok, "grant", "the lock was won, but no grant is returned")
		if ok {
			lk, rs := st.field(p, "LockerID"), st.field(p, "Resource")
			chk(lk != nil && sameVal(lk, w), "grant", "the grant does not carry the holder ID that was written")
			chk(rs != nil && sameVal(rs, l.lkey()), "grant", "the grant does not carry the key")
		}
		return
	}
	chk(!isNoErr(in, st, err), "lost", "the lock was not won, but no error is returned")
	g := stripIface(grant)
	_, none := g.(VNil)
	chk(none || isNoErr(in, st, g), "lost", "the lock was not won, but a grant is returned")
	if fs := failed(st); len(fs) > 0 && st.Get("dberr") != "" {
		ok := false
		for _, f := range fs {
			ok = ok || inErr(in, st, err, f)
		}
		chk(ok, "dberr", "a database error is not returned")
		return
	}
	chk(inErr(in, st, err, locked), "locked", "losing the lock is not reported as the locked error")
	l.stale(in, st)
}

// stale: was the lock given up although its row has expired?
func (l *lockEnv) stale(in *Interp, st *State) {
	if st.Get("lost") != "" {
		return
	}
	u := st.GetV("upd")
	young := false
	if u != nil {
		e := linear{"now": 1}.add(lin(u), -1).add(lin(l.ttl()), -1)
		s := knownSign(st, e)
		young = s["<"] || s["<="]
	}
	in.Check(st, young, l.rule+"/stale", "Lock", 0, "the lock is reported as held although its row is missing or was not found to be young")
}

func scenDBLock(opts bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		l := newLockEnv(e, "C23")
		l.q = l.acquire
		l.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
			switch kind {
			case "retryfail":
				// one attempt ends
				in.Check(st, st.GetV("won") == nil, "C23/won", "Lock", pos, "the lock was won, but an error is returned")
			case "retryif":
				again, _ := constBool(args[1])
				lk := inErr(in, st, args[0], l.e.Global("", "ErrEntityLocked"))
				in.Check(st, again == lk, "C23/retry", "Lock", pos, "an attempt is repeated after an error other than the locked error, or not repeated after that one")
				if again && st.Get("dberr") == "" {
					l.stale(in, st)
				}
			case "retryagain":
				forget(st)
				for _, k := range []string{"lost", "norow", "holder", "upd"} {
					delete(st.mon, k)
				}
			}
		}
		l.atEnd = func(in *Interp, st *State, p Value) {
			if p != nil {
				in.Check(st, st.Get("phase") == "ctor", "C23/panic", "Lock", 0, "locking panics")
			}
		}
		ss := append(l.build(opts), do(func(st *State, fr *Frame) { st.Set("phase", "lock") }),
			func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, l.m("Lock"), "lock", fr.loc["lock"], l.ctx(), l.lkey())
			}, func(in *Interp, st *State, fr *Frame) []*State {
				if r := results(fr); len(r) == 2 {
					l.outcome(in, st, r[0], r[1])
				}
				return nil
			})
		l.start(in, ss...)
		in.reached("C23/create", "Lock", "the row of a free resource is never created")
		in.reached("C23/holder", "Lock", "an expired lock is never taken over")
	}
}

// grantV makes the grant of an earlier Lock call.
func (l *lockEnv) grantV(st *State) Value {
	id := "H:grant"
	st.heap[id] = &Obj{Kind: "cells", T: l.row, Opaque: true, Cells: map[string]Value{
		".ID":       l.env("grant.id", fieldType(l.row, "", "ID")),
		".Resource": l.env("grant.resource", types.Typ[types.String]), ".LockerID": l.env("grant.holder", types.Typ[types.String]),
	}}
	return VPtr{id, ""}
}

// own: is the operation limited to the row of the grant?
func (l *lockEnv) own(op *DBOp, g func(string) Value) bool {
	for _, cd := range op.Conds {
		switch cd.Col {
		case "resource", "locker_id", "id":
			f := map[string]string{"resource": "Resource", "locker_id": "LockerID", "id": "ID"}[cd.Col]
			if cd.Op != "=" || cd.Val == nil || g(f) == nil || !sameVal(cd.Val, g(f)) {
				return false
			}
		default:
			return false
		}
	}
	return op.has("resource", "=", g("Resource")) && op.has("locker_id", "=", g("LockerID"))
}

// release answers the operations of an unlock.
func (l *lockEnv) release(c *CallCtx, op *DBOp, R string, g func(string) Value) []dbAns {
	bad := l.fail(c, op)
	switch op.Kind {
	case "first", "take", "last", "find", "scan", "count":
		c.St.Set(taintKey, "a read while unlocking")
		return []dbAns{{}, bad}
	case "delete":
		l.must(c, op.Table != nil && op.Table.Obj() == l.row.Obj(), R+"/table", op.Kind, "unlocking touches another table: "+op.String())
		l.must(c, l.own(op, g), R+"/own", op.Kind, "the row deleted is not limited to the key and holder of the grant: "+op.String())
		l.must(c, c.St.Get("deleted") == "", R+"/once", op.Kind, "unlocking deletes twice")
		return []dbAns{
			{Rows: cInt(1), Note: "the row is deleted", Do: func(st *State) { st.Set("deleted", "1") }},
			{Rows: cInt(0), Note: "the lock was lost", Do: func(st *State) { st.Set("deleted", "0") }}, bad}
	}
	l.must(c, false, R+"/write", op.Kind, "unlocking changes something other than the own row: "+op.String())
	return []dbAns{{}, bad}
}

func scenDBUnlock(e *Env, in *Interp) {
	l := newLockEnv(e, "C24")
	g := func(f string) Value {
		switch f {
		case "ID":
			return l.env("grant.id", nil)
		case "Resource":
			return l.env("grant.resource", nil)
		}
		return l.env("grant.holder", nil)
	}
	l.q = func(c *CallCtx, op *DBOp) []dbAns { return l.release(c, op, "C24", g) }
	l.atEnd = func(in *Interp, st *State, p Value) {
		if p != nil {
			in.Check(st, st.Get("phase") == "ctor", "C24/panic", "UnLock", 0, "unlocking panics")
			return
		}
		err := st.GetV("res")
		chk := func(ok bool, rule, msg string) { in.Check(st, ok, "C24/"+rule, "UnLock", 0, msg) }
		chk(!openTx(st), "tx", "a transaction is still open when unlocking returns")
		if fs := failed(st); len(fs) > 0 {
			ok := false
			for _, f := range fs {
				ok = ok || inErr(in, st, err, f)
			}
			chk(ok, "dberr", "a database error is not returned")
			return
		}
		switch st.Get("deleted") {
		case "1":
			chk(isNoErr(in, st, err), "released", "the lock was released, but an error is returned")
		case "0":
			chk(!isNoErr(in, st, err), "gone", "no row of the grant was found, but unlocking reports success")
		default:
			chk(false, "released", "unlocking returns without having released the lock")
		}
	}
	ss := append(l.build(false), do(func(st *State, fr *Frame) { st.Set("phase", "unlock") }),
		func(in *Interp, st *State, fr *Frame) []*State {
			return in.CallFn(st, l.m("UnLock"), "unlock", fr.loc["lock"], l.ctx(), &VIface{T: types.NewPointer(l.row), V: l.grantV(st)})
		}, do(func(st *State, fr *Frame) { st.SetV("res", fr.loc["ret"]) }))
	l.start(in, ss...)
}

// scenDBRun: a function under the lock. The renewal runs until it stops,
// or not at all.
func scenDBRun(renew bool) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		l := newLockEnv(e, "C25")
		goacc := "goacc!"
		l.goMode = func(c *CallCtx) int {
			if renew {
				return goNow
			}
			return goSkip
		}
		g := func(st *State) func(f string) Value {
			return func(f string) Value {
				switch f {
				case "Resource":
					return l.lkey()
				case "LockerID":
					return st.GetV("won")
				}
				return nil
			}
		}
		l.q = func(c *CallCtx, op *DBOp) []dbAns {
			st := c.St
			dead := false
			for x := op.Ctx; x != nil; {
				if st.Get("cancelled!"+ctxID(x)) != "" && ctxID(x) != "" {
					dead = true
				}
				a, ok := x.(*VApp)
				if !ok || len(a.Args) == 0 {
					break
				}
				x = a.Args[0]
			}
			l.must(c, !dead, "C25/ctx", op.Kind, "a database operation gets a context that is already cancelled")
			switch {
			case st.Get("phase") == "lock" && st.GetV("won") == nil:
				l.rule = "C23"
				defer func() { l.rule = "C25" }()
				return l.acquire(c, op)
			case st.Get("ingo") != "":
				switch op.Kind {
				case "update", "updates", "updatecolumn", "updatecolumns":
				default:
					l.must(c, false, "C24/renew", op.Kind, "the renewal does something other than updating the row: "+op.String())
					return []dbAns{{}}
				}
				l.must(c, l.own(op, g(st)), "C24/renew", op.Kind, "the row renewed is not limited to the key and holder of the grant: "+op.String())
				up := op.Set["updated_at"]
				l.must(c, up != nil && isNow(up), "C24/renewtime", op.Kind, "the renewal does not write the current time")
				for k, v := range op.Set {
					ok := k == "updated_at" || (k == "locker_id" && sameVal(v, st.GetV("won"))) || (k == "resource" && sameVal(v, l.lkey()))
					l.must(c, ok, "C24/renewset", op.Kind, "the renewal changes "+k)
				}
				return []dbAns{
					{Rows: cInt(1), Note: "the lock is renewed"},
					{Rows: cInt(0), Note: "the lock was lost", Do: func(st *State) { st.Set("renewfail", "1") }},
					{Err: dbErrVal(c, "renew"), Note: "renewing fails", Do: func(st *State) { st.Set("renewfail", "1") }}}
			}
			return l.release(c, op, "C25", g(st))
		}
		l.onEv = func(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
			switch kind {
			case "gostart":
				st.Set("ingo", "1")
			case "goend":
				st.Set("ingo", "")
				in.Check(st, st.Get("renewfail") != "" || st.GetV("stopsig") != nil, "C25/renewing", "renewal", pos, "the renewal ends although nothing told it to")
				if st.Get("renewfail") == "" {
					in.Check(st, true, "C25/stoppable", "renewal", pos, "")
				}
			case "recv":
				if st.Get("ingo") != "" {
					if a, ok := args[0].(*VApp); ok && a.F == "ctxdone" {
						st.SetV("stopsig", a)
					} else if ch, ok := args[0].(VChan); ok {
						st.SetV("stopsig", ch)
					}
				} else {
					for k := range st.mon {
						if strings.HasPrefix(k, goacc) {
							delete(st.mon, k)
						}
					}
				}
			case "wgWait":
				for k := range st.mon {
					if strings.HasPrefix(k, goacc) {
						delete(st.mon, k)
					}
				}
			case "close":
				st.Set("closed!"+args[0].K(), "1")
			case "cancel":
				st.Set("cancelled!"+args[0].K(), "1")
			case "load", "store":
				p, ok := args[0].(VPtr)
				if !ok || len(heldLocks(st)) > 0 {
					return
				}
				k := goacc + p.O + p.P
				if st.Get("ingo") != "" {
					if kind == "store" {
						st.Set(k, "w")
					} else if st.Get(k) == "" {
						st.Set(k, "r")
					}
					return
				}
				if was := st.Get(k); was != "" {
					in.Check(st, was == "r" && kind == "load", "C25/race", "Run", pos, "a variable is used by the renewal and by the caller without synchronisation")
				}
			case "crash":
				in.Check(st, false, "C25/crash", "renewal", pos, "the renewal panics")
			}
		}
		l.onCall["native:guarded"] = func(c *CallCtx) []Outcome {
			st := c.St
			l.user(c, "", "the guarded function")
			l.must(c, st.GetV("won") != nil, "C25/granted", "fn", "the guarded function runs without the lock")
			l.must(c, st.Get("ran") == "", "C25/once", "fn", "the guarded function runs twice")
			l.must(c, st.Get("deleted") == "", "C25/held", "fn", "the guarded function runs after the lock was released")
			l.must(c, ctxHas(c.Args[0], l.ctx()), "C25/fnctx", "fn", "the guarded function does not get the caller's context")
			if st.Get("renewfail") != "" {
				can := false
				for x := c.Args[0]; x != nil; {
					if st.Get("cancelled!"+ctxID(x)) != "" && ctxID(x) != "" {
						can = true
					}
					a, ok := x.(*VApp)
					if !ok || len(a.Args) == 0 {
						break
					}
					x = a.Args[0]
				}
				l.must(c, can, "C25/cancel", "fn", "the context of the guarded function is not cancelled when a renewal failed")
			}
			st.Set("ran", "1")
			return []Outcome{{}, {Panic: sym("env:panic", nil), Note: "the guarded function panics", Do: func(st *State) { st.Set("panicked", "1") }}}
		}
		l.atEnd = func(in *Interp, st *State, p Value) {
			if st.Get("phase") == "ctor" {
				return
			}
			chk := func(ok bool, rule, msg string) { in.Check(st, ok, "C25/"+rule, "Run", 0, msg) }
			err := st.GetV("res")
			if st.GetV("won") == nil {
				chk(p == nil, "acquire", "Run panics when the lock is not granted")
				chk(st.Get("ran") == "", "granted", "the guarded function runs without the lock")
				if p == nil {
					l.outcome(in, st, VNil{}, err)
				}
				return
			}
			chk(st.Get("ran") != "", "ran", "the lock was granted, but the function does not run")
			chk(st.Get("deleted") != "" || len(failed(st)) > 0, "release", "the lock is not released on an exit of Run")
			if st.Get("panicked") != "" {
				chk(p != nil, "panic", "a panic of the guarded function disappears")
			} else {
				chk(p == nil, "panic", "Run panics")
			}
			if s := st.GetV("stopsig"); s != nil && renew {
				ok := st.Get("closed!"+s.K()) != ""
				if a, isApp := s.(*VApp); isApp && a.F == "ctxdone" {
					for x := a.Args[0]; x != nil; {
						if ctxID(x) != "" && st.Get("cancelled!"+ctxID(x)) != "" {
							ok = true
						}
						y, isA := x.(*VApp)
						if !isA || len(y.Args) == 0 {
							break
						}
						x = y.Args[0]
					}
				}
				chk(ok, "stop", "the renewal is not told to stop when Run returns")
			}
		}
		ss := append(l.build(true), do(func(st *State, fr *Frame) { st.Set("phase", "lock") }),
			func(in *Interp, st *State, fr *Frame) []*State {
				return in.CallFn(st, l.m("Run"), "run", fr.loc["lock"], l.ctx(), l.lkey(), native("guarded"))
			}, do(func(st *State, fr *Frame) { st.SetV("res", orNil(fr.loc["ret"])) }))
		l.start(in, ss...)
		in.reached("C25/granted", "Run", "the guarded function is never called")
		if renew {
			in.reached("C24/renew", "Run", "the lock is never renewed")
			in.reached("C25/cancel", "Run", "the function never sees a failed renewal")
			in.reached("C25/stoppable", "Run", "nothing ends the renewal")
		}
	}
}

// ctxID is the cancel handle of a context.
func ctxID(v Value) string {
	a, ok := v.(*VApp)
	if !ok || a.F != "ctxcancel" || len(a.Args) < 2 {
		return ""
	}
	return a.Args[1].K()
}

// ---- redis ---------------------------------------------------------------------

const redislockPkg = "github.com/bsm/redislock"

func (l *Lab) ctxEnv() Value { return l.env("ctx", l.ctxT()) }

func scenRedis(e *Env, in *Interp) {
	l := newLab(e)
	mkNew := e.Fn("lock/redis.NewRedisLock")
	lockM, unlockM := e.M("lock/redis", "RedisLock", "Lock"), e.M("lock/redis", "RedisLock", "UnLock")
	cli := l.env("redis", mkNew.Signature.Params().At(0).Type())
	ttl := &VSym{ID: "env:ttl", T: mkNew.Signature.Params().At(1).Type()}
	key := l.env("key", types.Typ[types.String])
	ctx := l.ctxEnv()
	locked := e.Global("", "ErrEntityLocked")
	l.onCall[redislockPkg+".New"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "redislock", Args: []Value{stripIface(c.Args[0])}, T: c.resT(0), NonNil: true})
	}
	for _, k := range []string{"LimitRetry", "LinearBackoff", "NoRetry", "ExponentialBackoff"} {
		kk := k
		l.onCall[redislockPkg+"."+k] = func(c *CallCtx) []Outcome {
			return ret(&VApp{F: "rl:" + kk, Args: c.Args, T: c.resT(0), NonNil: true})
		}
	}
	obtain := func(c *CallCtx, client Value, as []Value) []Outcome {
		st := c.St
		l.must(c, st.Get("phase") == "lock", "C26/when", "Obtain", "Redis is asked for a lock outside Lock")
		l.must(c, client != nil && client.K() == cli.K(), "C26/client", "Obtain", "the lock is not obtained from the configured Redis client")
		l.must(c, ctxHas(as[0], ctx), "C26/ctx", "Obtain", "the caller's context is dropped")
		l.must(c, sameVal(as[1], key), "C26/key", "Obtain", "Redis is not asked for the given key")
		l.must(c, sameVal(as[2], ttl), "C26/ttl", "Obtain", "the lock is not obtained for the configured lifetime")
		l.must(c, st.GetV("won") == nil, "C26/once", "Obtain", "a lock is obtained twice")
		lk := c.sym("redislk", c.resT(0))
		lk.NonNil, lk.Distinct = true, true
		f := errSym("redis")
		nob := extErr(redislockPkg, "ErrNotObtained")
		return []Outcome{
			{Ret: []Value{lk, VNil{}}, Note: "the lock is obtained", Do: func(st *State) { st.SetV("won", lk) }},
			{Ret: []Value{VNil{}, nob}, Note: "the lock is held by another one", Do: func(st *State) { st.Set("out", "busy") }},
			{Ret: []Value{VNil{}, f}, Note: "Redis fails", Do: func(st *State) { st.Set("out", "fail"); st.SetV("fail", f) }},
		}
	}
	l.onCall["(*"+redislockPkg+".Client).Obtain"] = func(c *CallCtx) []Outcome {
		var cl Value
		if a, ok := c.Args[0].(*VApp); ok && a.F == "redislock" {
			cl = a.Args[0]
		}
		return obtain(c, cl, c.Args[1:])
	}
	l.onCall[redislockPkg+".Obtain"] = func(c *CallCtx) []Outcome {
		return obtain(c, stripIface(c.Args[1]), append([]Value{c.Args[0]}, c.Args[2:]...))
	}
	l.onCall["(*"+redislockPkg+".Lock).Release"] = func(c *CallCtx) []Outcome {
		st := c.St
		l.must(c, st.Get("phase") == "unlock", "C26/when", "Release", "a lock is released outside UnLock")
		l.must(c, c.Args[0].K() == "s:env:granted", "C26/own", "Release", "UnLock does not release the granted lock")
		l.must(c, ctxHas(c.Args[1], ctx), "C26/ctx", "Release", "the caller's context is dropped")
		l.must(c, st.Get("out") == "", "C26/once", "Release", "a lock is released twice")
		f := errSym("release")
		return []Outcome{
			{Ret: []Value{VNil{}}, Do: func(st *State) { st.Set("out", "released") }},
			{Ret: []Value{extErr(redislockPkg, "ErrLockNotHeld")}, Note: "the lock was lost", Do: func(st *State) {
				st.Set("out", "bad")
				st.SetV("fail", extErr(redislockPkg, "ErrLockNotHeld"))
			}},
			{Ret: []Value{f}, Note: "releasing fails", Do: func(st *State) { st.Set("out", "bad"); st.SetV("fail", f) }},
		}
	}
	l.atEnd = func(in *Interp, st *State, p Value) {
		in.Check(st, p == nil, "C26/panic", st.Get("phase"), 0, "the Redis lock panics")
	}
	ss := []stepFn{
		do(func(st *State, fr *Frame) { st.Set("phase", "ctor") }),
		callStep(mkNew, "new", vals(cli, ttl)), keep("lock"),
		func(in *Interp, st *State, fr *Frame) []*State {
			return choose(st, func(st *State, fr *Frame) []*State {
				st.Set("phase", "lock")
				return in.CallFn(st, lockM, "lock", fr.loc["lock"], ctx, key)
			}, func(st *State, fr *Frame) []*State {
				st.Set("phase", "unlock")
				g := l.env("granted", lockM.Signature.Results().At(0).Type())
				t := types.NewPointer(e.extNamed(redislockPkg, "Lock"))
				g.T = t
				return in.CallFn(st, unlockM, "unlock", fr.loc["lock"], ctx, &VIface{T: t, V: g})
			})
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			r := results(fr)
			chk := func(ok bool, rule, msg string) { in.Check(st, ok, "C26/"+rule, st.Get("phase"), 0, msg) }
			if st.Get("phase") == "unlock" && len(r) == 1 {
				switch st.Get("out") {
				case "released":
					chk(isNoErr(in, st, r[0]), "released", "releasing succeeded, but an error is returned")
				case "bad":
					chk(inErr(in, st, r[0], st.GetV("fail")), "relerr", "the error of releasing is not returned")
				default:
					chk(false, "released", "UnLock returns without releasing the lock")
				}
				return nil
			}
			if len(r) != 2 {
				return nil
			}
			if w := st.GetV("won"); w != nil {
				chk(isNoErr(in, st, r[1]), "granted", "the lock was obtained, but an error is returned")
				chk(stripIface(r[0]).K() == w.K(), "grant", "the grant is not the lock that was obtained")
				return nil
			}
			g := stripIface(r[0])
			_, none := g.(VNil)
			chk(none, "nogrant", "a grant is returned although no lock was obtained")
			chk(!isNoErr(in, st, r[1]), "lost", "no lock was obtained, but no error is returned")
			switch st.Get("out") {
			case "busy":
				chk(inErr(in, st, r[1], locked), "locked", "contention is not reported as the locked error")
			case "fail":
				chk(inErr(in, st, r[1], st.GetV("fail")), "error", "an error of Redis is not returned")
				chk(!inErr(in, st, r[1], locked), "error", "an error of Redis is reported as contention")
			default:
				chk(false, "asked", "Lock returns without asking Redis")
			}
			return nil
		},
	}
	l.start(in, ss...)
}

// extNamed looks a type of another module up.
func (e *Env) extNamed(pkg, name string) types.Type {
	for _, p := range e.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic(missing{pkg + "." + name + " not found"})
}

func lockScenarios() []*Scenario {
	return []*Scenario{
		{Name: "dblock", Props: []string{"C23"}, Run: scenDBLock(false)},
		{Name: "dblock-once", Props: []string{"C23"}, Run: scenDBLock(true)},
		{Name: "dbunlock", Props: []string{"C24"}, Run: scenDBUnlock},
		{Name: "dbrun-renewed", Props: []string{"C23", "C24", "C25"}, Run: scenDBRun(true)},
		{Name: "dbrun", Props: []string{"C23", "C25"}, Run: scenDBRun(false)},
		{Name: "redislock", Props: []string{"C26"}, Run: scenRedis},
	}
}
