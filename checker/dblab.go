package main

import (
	"go/types"
	"strings"
)

// DBLab is a lab with a database: transactions are a typestate, and the
// scenario answers the data operations.
type DBLab struct {
	*Lab
	many int                                 // elements of the longest lists told apart
	rule string                              // property whose rules cover misuse of handles
	q    func(c *CallCtx, op *DBOp) []dbAns  // data operations
	txev func(c *CallCtx, op *DBOp, ok bool) // begin, commit, rollback
}

func newDBLab(e *Env, rule string) *DBLab {
	d := &DBLab{Lab: newLab(e), rule: rule}
	d.trk = func(id string) bool { return strings.HasPrefix(id, "now@") }
	return d
}

func (d *DBLab) db() Value { return d.env("db", d.dbT()) }

// dbT is *gorm.DB.
func (d *DBLab) dbT() types.Type {
	f := d.e.Fn("lock/db.NewDBLock")
	return f.Signature.Params().At(0).Type()
}

func dbErrVal(c *CallCtx, what string) Value {
	return &VSym{ID: "err:db." + what + "@" + c.Pre, T: errTypeT, Distinct: true, NonNil: true}
}

// fail is the outcome that the database reports an error.
func (d *DBLab) fail(c *CallCtx, op *DBOp) dbAns {
	e := dbErrVal(c, op.Kind+"."+op.table())
	return dbAns{Err: e, Note: op.Kind + " fails", Do: func(st *State) { addFailed(st, e) }}
}

const failedPre = "failed!"

func addFailed(st *State, e Value) {
	if st.GetV("firstfail") == nil {
		st.SetV("firstfail", e)
	}
	st.SetV(failedPre+e.K(), e)
}

func failed(st *State) (res []Value) {
	for k, v := range st.mon {
		if strings.HasPrefix(k, failedPre) {
			res = append(res, v)
		}
	}
	return
}

func txState(st *State, root Value) string { return st.Get("dbtx:" + root.K()) }

// DB answers gorm.
func (d *DBLab) DB(c *CallCtx, op *DBOp) []dbAns {
	st := c.St
	if len(op.Raw) > 0 {
		st.Set(taintKey, "database operation: "+strings.Join(op.Raw, "; "))
	}
	switch op.Kind {
	case "begin", "savepoint":
		tx := op.Dest
		ok := dbAns{Do: func(st *State) {
			st.Set("dbtx:"+tx.K(), "open")
			d.event2(c, st, op, true)
		}}
		if op.Kind == "savepoint" {
			return []dbAns{{}}
		}
		return []dbAns{ok, d.failNoted(c, op)}
	case "commit":
		d.must(c, txState(st, op.Root) == "open", d.rule+"/tx-end", "commit", "a transaction is committed that is not open ("+txState(st, op.Root)+")")
		k := "dbtx:" + op.Root.K()
		bad := d.failNoted(c, op)
		do := bad.Do
		bad.Do = func(st *State) { st.Set(k, "failed"); do(st) }
		return []dbAns{{Do: func(st *State) { st.Set(k, "committed"); d.event2(c, st, op, true) }}, bad}
	case "rollback":
		d.must(c, txState(st, op.Root) == "open" || txState(st, op.Root) == "failed", d.rule+"/tx-end", "rollback", "a transaction is rolled back that is not open ("+txState(st, op.Root)+")")
		k := "dbtx:" + op.Root.K()
		ok := dbAns{Do: func(st *State) { st.Set(k, "rolledback"); d.event2(c, st, op, true) }}
		if strings.HasSuffix(c.Key, "Transaction") {
			return []dbAns{ok} // gorm drops the error of the implicit rollback
		}
		bad := d.failNoted(c, op)
		do := bad.Do
		bad.Do = func(st *State) { st.Set(k, "failed"); do(st) }
		return []dbAns{ok, bad}
	case "rollbackto":
		return []dbAns{{}}
	}
	if s := txState(st, op.Root); s != "" {
		d.must(c, s == "open", d.rule+"/tx-use", op.Kind, "an operation uses a transaction that has ended ("+s+")")
	}
	return d.q(c, op)
}

func (d *DBLab) failNoted(c *CallCtx, op *DBOp) dbAns {
	a := d.fail(c, op)
	do := a.Do
	e := a.Err
	a.Do = func(st *State) {
		do(st)
		st.SetV("txfail", e)
		d.event2(c, st, op, false)
		delete(st.mon, "txfail")
	}
	return a
}

func (d *DBLab) event2(c *CallCtx, st *State, op *DBOp, ok bool) {
	if d.txev != nil {
		s := *c
		s.St = st
		d.txev(&s, op, ok)
	}
}

// openTx: is some transaction still open?
func openTx(st *State) bool {
	for k, v := range st.mon {
		if strings.HasPrefix(k, "dbtx:") && v != nil && st.Get(k) == "open" {
			return true
		}
	}
	return false
}

// inErr: does the reported error tell about e?
func inErr(in *Interp, st *State, err, e Value) bool {
	if err == nil {
		return false
	}
	return in.inChain(st, err, e)
}

func isErr(in *Interp, st *State, v Value) bool {
	if v == nil {
		return false
	}
	t, _ := st.isNil(v)
	return t == no
}

func isNoErr(in *Interp, st *State, v Value) bool {
	if v == nil {
		return false
	}
	t, _ := st.isNil(v)
	return t == yes
}

// results of the last call of a script
func results(fr *Frame) []Value {
	switch r := fr.loc["ret"].(type) {
	case *VTuple:
		return r.V
	case nil:
		return nil
	default:
		return []Value{r}
	}
}

// extErr is the value of a variable of another module.
func extErr(pkg, name string) Value {
	return &VSym{ID: "E:G:" + pkg + "." + name, T: errTypeT, Distinct: true, NonNil: true}
}

func (d *DBLab) start(in *Interp, steps ...stepFn) {
	in.H = d
	st := newState()
	st.many = d.many
	in.pushScript(st, &Script{Name: "lab", Steps: guarded(steps)}, nil, retDiscard, 0, "scenario")
	in.Run(st)
}

// forget drops what is known about earlier rows and clock readings.
func forget(st *State) {
	for k, f := range st.facts {
		hit := false
		chk := func(s *VSym) {
			if strings.HasPrefix(s.ID, "now@") || strings.HasPrefix(s.ID, "row:") {
				hit = true
			}
		}
		walkValue(f.p.X, chk, func(string) {})
		if f.p.Y != nil {
			walkValue(f.p.Y, chk, func(string) {})
		}
		if hit {
			delete(st.facts, k)
		}
	}
	for k := range st.mon {
		if strings.HasPrefix(k, "xid!") {
			delete(st.mon, k)
		}
	}
}
