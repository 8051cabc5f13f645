package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// execLab: the MySQL executor.
type execLab struct {
	*DBLab
	one, two types.Type // models with one and with two primary keys
}

const execPkg = "executor/mysql"

func newExecLab(e *Env, rule string) *execLab {
	x := &execLab{DBLab: newDBLab(e, rule)}
	im := methodsOf(e.T(execPkg + ".IModel"))
	str := types.Typ[types.String]
	field := func(n string) *types.Var { return types.NewField(token.NoPos, e.pkg, n, str, false) }
	x.one = e.envType("RowM", types.NewStruct([]*types.Var{field("Key"), field("F"), field("G")},
		[]string{`gorm:"primaryKey;column:pkc"`, "", ""}), im...)
	x.two = e.envType("RowC", types.NewStruct([]*types.Var{field("Key"), field("Part"), field("F")},
		[]string{`gorm:"primaryKey;column:pkc"`, `gorm:"primaryKey;column:pkd"`, ""}), im...)
	id := func(c *CallCtx) []Outcome {
		return ret(orNil(c.St.field(c.Recv, "Key")))
	}
	name := func(c *CallCtx) []Outcome { return ret(cStr("rows")) }
	for _, i := range []string{modPath, modPath + "/" + execPkg} {
		x.onCall["("+i+".IModel).GetID"] = id
		x.onCall["("+i+".IModel).TableName"] = name
	}
	x.onCall["gorm.io/gorm/schema.Parse"] = func(c *CallCtx) []Outcome {
		n := modelType(c.St, c.Args[0])
		if n == nil {
			return c.Fresh()
		}
		f := errSym("schema")
		out := []Outcome{{Ret: []Value{x.schema(c, n), VNil{}}}}
		return append(out, Outcome{Ret: []Value{VNil{}, f}, Note: "the schema cannot be parsed", Do: func(st *State) { addFailed(st, f) }})
	}
	x.BH.decide = func(st *State, p *VPred) tri {
		// a context of the environment carries nothing of the executor
		if p.Op == "nil" {
			if a, ok := p.X.(*VApp); ok && a.F == "ctxlookup" {
				return triOf(!p.Neg)
			}
		}
		return unknown
	}
	return x
}

// schema is gorm's description of a model.
func (x *execLab) schema(c *CallCtx, n *types.Named) Value {
	st := c.St
	pt := c.resT(0).(*types.Pointer)
	ft := fieldType(pt.Elem(), "", "PrimaryFields")
	elem := ft.(*types.Slice).Elem().(*types.Pointer).Elem()
	var fs, names []Value
	for _, col := range columns(n) {
		if !col.PK {
			continue
		}
		id := st.freshObj("H:pk", &Obj{Kind: "cells", T: elem, Opaque: true, Cells: map[string]Value{
			".DBName": cStr(col.Col), ".Name": cStr(col.Field)}})
		fs = append(fs, VPtr{id, ""})
		names = append(names, cStr(col.Col))
	}
	cells := map[string]Value{
		".PrimaryFields": st.slice("H:pks", ft, fs...), ".PrimaryFieldDBNames": st.slice("H:pkn", sliceOf(types.Typ[types.String]), names...),
		".PrioritizedPrimaryField": VNil{}, ".Table": cStr("rows"),
	}
	if len(fs) == 1 {
		cells[".PrioritizedPrimaryField"] = fs[0]
	}
	return VPtr{st.freshObj("H:schema", &Obj{Kind: "cells", T: pt.Elem(), Opaque: true, Cells: cells}), ""}
}

// model allocates a model; fields that are not given are symbols.
func (x *execLab) model(st *State, t types.Type, id string, given map[string]Value) Value {
	s := t.Underlying().(*types.Struct)
	cells := map[string]Value{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v, ok := given[f.Name()]
		if !ok {
			v = &VSym{ID: "env:" + id + "." + f.Name(), T: f.Type(), Distinct: true, NonNil: true}
		}
		cells["."+f.Name()] = v
	}
	st.heap["H:"+id] = &Obj{Kind: "cells", T: t, Cells: cells}
	return VPtr{"H:" + id, ""}
}

func (x *execLab) iface(t types.Type, p Value) Value { return &VIface{T: types.NewPointer(t), V: p} }

// models makes the slice of models of an action.
func (x *execLab) models(st *State, t types.Type, pre string, n int) ([]Value, Value) {
	var ps, vs []Value
	for i := 0; i < n; i++ {
		p := x.model(st, t, pre+strconv.Itoa(i), nil)
		ps = append(ps, p)
		vs = append(vs, x.iface(t, p))
	}
	if n == 0 {
		return nil, VNil{}
	}
	return ps, st.slice("H:"+pre, sliceOf(x.t("IModel")), vs...)
}

// action allocates an action of the engine.
func (x *execLab) action(st *State, op Value, fields map[string]Value) Value {
	t := x.t("Action")
	s := t.Underlying().(*types.Struct)
	cells := map[string]Value{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		cells["."+f.Name()] = zero(f.Type())
		if v, ok := fields[f.Name()]; ok {
			cells["."+f.Name()] = v
		}
	}
	cells[".Op"] = op
	st.heap["H:action"] = &Obj{Kind: "cells", T: t, Cells: cells}
	return VPtr{"H:action", ""}
}

func (x *execLab) newExec(name string, db Value) []stepFn {
	return []stepFn{callStep(x.e.Fn(execPkg+".NewExecutor"), "new"+name, vals(db)), keep(name)}
}

func (x *execLab) m(name string) func() (fn string) { return func() string { return name } }

func (x *execLab) call(name, exe string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		st.Set("phase", name)
		return in.CallFn(st, x.e.M(execPkg, "Executor", name), "call:"+name, append([]Value{fr.loc[exe]}, args(st, fr)...)...)
	}
}

func opVal(t types.Type, i int) Value {
	c := cInt(i).(VConst)
	c.T = t
	return c
}

// scenExecTx: transactions of the executor and their contexts.
func scenExecTx(e *Env, in *Interp) {
	x := newExecLab(e, "C27")
	db2 := x.env("db2", x.dbT())
	ctx := x.env("ctx", x.ctxT())
	rule := func(c *CallCtx, ok bool, r, what, msg string) { x.must(c, ok, "C27/"+r, what, msg) }
	x.txev = func(c *CallCtx, op *DBOp, ok bool) {
		st := c.St
		st.Set("ops", st.Get("ops")+op.Kind+",")
		switch op.Kind {
		case "begin":
			rule(c, st.Get("phase") == "Begin", "when", "begin", "a transaction is opened by "+st.Get("phase"))
			if st.Get("with") == "nested" {
				rule(c, op.Root.K() == x.db().K(), "db", "begin", "the transaction is not opened on the executor's own database")
				if ok {
					st.SetV("tx2", op.Dest)
				}
				return
			}
			rule(c, st.GetV("tx") == nil, "once", "begin", "Begin opens two transactions")
			want := Value(x.db())
			if st.Get("second") != "" {
				want = db2
			}
			rule(c, op.Root.K() == want.K(), "db", "begin", "the transaction is not opened on the executor's own database")
			if ok {
				st.SetV("tx", op.Dest)
			}
		case "commit", "rollback":
			ph := map[string]string{"commit": "Commit", "rollback": "RollBack"}[op.Kind]
			rule(c, st.Get("phase") == ph, "end", op.Kind, st.Get("phase")+" makes the database "+op.Kind)
			rule(c, st.GetV("tx") != nil && op.Root.K() == st.GetV("tx").K(), "own", op.Kind, "another transaction than the one of the context is ended")
			st.Set("ended", op.Kind)
		}
	}
	x.q = func(c *CallCtx, op *DBOp) []dbAns {
		st := c.St
		st.Set("ops", st.Get("ops")+op.Kind+",")
		rule(c, st.Get("phase") == "Exec", "when", op.Kind, st.Get("phase")+" executes a data operation")
		want := Value(x.db())
		switch st.Get("with") {
		case "tx":
			want = st.GetV("tx")
		case "other":
			want = db2
		}
		rule(c, want != nil && op.Root.K() == want.K(), "uses", op.Kind, map[string]string{
			"tx": "an action executed with the context of a transaction does not use that transaction", "": "an action without a transaction does not use the plain connection",
			"other": "an action uses the transaction of another executor"}[st.Get("with")])
		return []dbAns{{Rows: cInt(1)}, x.fail(c, op)}
	}
	x.atEnd = func(in *Interp, st *State, p Value) {
		in.Check(st, p == nil, "C27/panic", st.Get("phase"), 0, "the executor panics in "+st.Get("phase"))
	}
	chk := func(in *Interp, st *State, ok bool, r, msg string) {
		in.Check(st, ok, "C27/"+r, st.Get("phase"), 0, msg)
	}
	dbOK := func(in *Interp, st *State, err Value, what string) {
		if fs := failed(st); len(fs) > 0 {
			for _, f := range fs {
				chk(in, st, inErr(in, st, err, f) || isErr(in, st, err), "error", what+": the database's error is not reported")
			}
			return
		}
		chk(in, st, isNoErr(in, st, err), "ok", what+" succeeded, but an error is returned")
	}
	query := func(st *State, fr *Frame) []Value {
		p := x.model(st, x.one, "q", nil)
		st.heap["H:dst"] = &Obj{Kind: "cells", T: types.NewSlice(types.NewPointer(x.one)), Cells: map[string]Value{}}
		a := x.action(st, opVal(x.t("OpType"), opQuery), map[string]Value{"Query": x.iface(x.one, p),
			"QueryResult": &VIface{T: types.NewPointer(types.NewSlice(types.NewPointer(x.one))), V: VPtr{"H:dst", ""}}})
		return []Value{a}
	}
	end := func(st *State, fr *Frame) []*State { fr.pc = 90; return nil }
	var ss []stepFn
	ss = append(ss, x.newExec("exe", x.db())...)
	ss = append(ss, x.newExec("exe2", db2)...)
	ss = append(ss, x.newExec("none", VNil{})...)
	// without a transaction
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		mk := func(name, exe string, args ...Value) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("case", exe+" "+name)
				fr.pc = 20
				st.Set("phase", name)
				if name == "Exec" {
					args = append([]Value(nil), ctx)
					args = append(args, query(st, fr)...)
				}
				return in.CallFn(st, e.M(execPkg, "Executor", name), "plain:"+name, append([]Value{fr.loc[exe]}, args...)...)
			}
		}
		return choose(st,
			mk("Commit", "exe", ctx), mk("RollBack", "exe", ctx), mk("Exec", "exe"),
			mk("Begin", "none", ctx), mk("Commit", "none", ctx), mk("RollBack", "none", ctx),
			func(st *State, fr *Frame) []*State {
				st.Set("case", "tx")
				st.Set("phase", "Begin")
				return in.CallFn(st, e.M(execPkg, "Executor", "Begin"), "begin", fr.loc["exe"], ctx)
			})
	})
	base := len(ss)
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if len(r) != 2 {
			return end(st, fr)
		}
		tx := st.GetV("tx")
		chk(in, st, st.Get("ops") == "begin,", "once", "Begin does not open exactly one transaction")
		if tx == nil {
			dbOK(in, st, r[1], "beginning")
			return end(st, fr)
		}
		chk(in, st, isNoErr(in, st, r[1]), "ok", "a transaction was opened, but an error is returned")
		chk(in, st, ctxHas(r[0], ctx), "extend", "Begin replaces the caller's context")
		chk(in, st, !sameVal(r[0], ctx), "carry", "Begin returns a context that does not carry the transaction")
		fr.loc["txctx"] = r[0]
		st.Set("ops", "")
		return nil
	}, func(in *Interp, st *State, fr *Frame) []*State {
		use := func(name, exe, with string) func(st *State, fr *Frame) []*State {
			return func(st *State, fr *Frame) []*State {
				st.Set("phase", name)
				st.Set("with", with)
				c := Value(fr.loc["txctx"])
				if with == "derived" {
					c = &VApp{F: "ctxval", Args: []Value{c, &VIface{T: e.envType("userKey", types.Typ[types.String]), V: cStr("user key")}, cStr("v")}, T: x.ctxT(), NonNil: true}
					st.Set("with", "tx")
				}
				if with == "" {
					c = ctx
				}
				args := []Value{fr.loc[exe], c}
				if name == "Exec" {
					args = append(args, query(st, fr)...)
				}
				return in.CallFn(st, e.M(execPkg, "Executor", name), "use:"+name, args...)
			}
		}
		return choose(st, use("Commit", "exe", "tx"), use("RollBack", "exe", "tx"), use("Exec", "exe", "tx"), use("Exec", "exe", "derived"),
			use("Exec", "exe", ""), use("Exec", "exe2", "other"), use("Commit", "exe2", "other"), use("RollBack", "exe2", "other"),
			use("Begin", "exe", "nested"))
	}, func(in *Interp, st *State, fr *Frame) []*State {
		r := results(fr)
		if st.Get("with") == "nested" {
			if len(r) == 2 {
				chk(in, st, st.Get("ops") == "begin,", "once", "Begin with the context of a transaction does not open one of its own")
				dbOK(in, st, r[1], "beginning")
				if st.GetV("tx2") != nil {
					chk(in, st, ctxHas(r[0], fr.loc["txctx"]) && !sameVal(r[0], fr.loc["txctx"]), "carry", "Begin returns a context that does not carry the transaction")
				}
			}
			return end(st, fr)
		}
		if len(r) != 1 {
			return end(st, fr)
		}
		ph := st.Get("phase")
		if st.Get("with") == "other" && ph != "Exec" {
			chk(in, st, st.Get("ops") == "", "notx", ph+" with the context of another executor touches the database")
			chk(in, st, isErr(in, st, r[0]), "notx", ph+" without a transaction of its own succeeds")
			return end(st, fr)
		}
		switch ph {
		case "Commit":
			chk(in, st, len(failed(st)) > 0 || st.Get("ended") == "commit", "ends", "Commit does not commit the transaction of its context")
		case "RollBack":
			chk(in, st, len(failed(st)) > 0 || st.Get("ended") == "rollback", "ends", "RollBack does not roll the transaction of its context back")
		case "Exec":
			chk(in, st, st.Get("ops") != "", "exec", "Exec does nothing")
		}
		dbOK(in, st, r[0], ph)
		return end(st, fr)
	})
	for len(ss) < 20 {
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State { return nil })
	}
	_ = base
	ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
		if st.Get("case") == "tx" {
			return nil
		}
		r := results(fr)
		var err Value
		if len(r) > 0 {
			err = r[len(r)-1]
		}
		switch st.Get("case") {
		case "exe Exec":
			chk(in, st, st.Get("ops") != "", "exec", "Exec does nothing")
			dbOK(in, st, err, "Exec")
		case "exe Commit", "exe RollBack":
			chk(in, st, st.Get("ops") == "", "notx", st.Get("phase")+" without a transaction touches the database")
			chk(in, st, isErr(in, st, err), "notx", st.Get("phase")+" without a transaction in the context succeeds")
		default:
			chk(in, st, st.Get("ops") == "", "nodb", st.Get("phase")+" without a database does something")
			chk(in, st, isErr(in, st, err), "nodb", st.Get("phase")+" without a database succeeds")
		}
		return nil
	})
	x.start(in, ss...)
	in.reached("C27/own", "Commit", "no transaction is ever ended")
	in.reached("C27/carry", "Begin", "no context ever carries a transaction")
}

// scenExecOps: what an action does to the database.
func scenExecOps(kinds ...string) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		x := newExecLab(e, "C28")
		if strings.HasPrefix(kinds[0], "many") {
			x.many, in.Fold = 2*manyModels, 2*manyModels
		}
		ctx := x.env("ctx", x.ctxT())
		x.onEnter[modPath+"/"+execPkg+".DiffModel"] = func(c *CallCtx) []Outcome {
			st := c.St
			cur, prev := stripIface(c.Args[0]), stripIface(c.Args[1])
			i := strings.TrimPrefix(cur.K(), "&H:m")
			x.must(c, prev.K() == "&H:p"+i, "C28/prev", "DiffModel", "a model is not compared with its own previous model")
			t := types.NewSlice(types.Typ[types.String])
			mk := func(cols ...string) Outcome {
				var vs []Value
				for _, f := range cols {
					vs = append(vs, cStr(f))
				}
				id := st.freshName("diff")
				return Outcome{Ret: []Value{VSlice{id}}, Note: "differing: " + strings.Join(cols, ","), Do: func(st *State) {
					st.heap[id] = &Obj{Kind: "slice", T: t, Elems: vs}
					st.Set("diff"+i, strings.Join(cols, ",")+";")
				}}
			}
			if st.Get("n") == strconv.Itoa(manyModels) {
				return []Outcome{mk("F")}
			}
			return []Outcome{mk(), mk("F"), mk("F", "G")}
		}
		x.txev = func(c *CallCtx, op *DBOp, ok bool) {}
		must := func(c *CallCtx, ok bool, r, msg string, op *DBOp) {
			x.must(c, ok, "C28/"+r, op.Kind, msg+": "+op.String())
		}
		x.q = func(c *CallCtx, op *DBOp) []dbAns {
			st := c.St
			bad := x.fail(c, op)
			must(c, len(failed(st)) == 0, "stop", "the action goes on after a database error", op)
			must(c, !op.Unscoped, "scope", "soft-deleted rows are included", op)
			kind := st.Get("kind")
			if kind != "unknown" {
				want := x.one
				if strings.HasPrefix(st.Get("model"), "two") {
					want = x.two
				}
				must(c, op.Table == nil || types.Identical(op.Table, want), "table", "another table is touched", op)
			}
			done := func(ids ...string) func(st *State) {
				return func(st *State) {
					for _, id := range ids {
						st.Set("done"+id, "1")
					}
				}
			}
			idx := func(v Value) string { return strings.TrimPrefix(stripIface(v).K(), "&H:m") }
			valid := func(i string) bool {
				n, err := strconv.Atoi(i)
				return err == nil && n >= 0 && n < atoi(st.Get("n"))
			}
			switch kind {
			case "insert":
				must(c, op.Kind == "create" || op.Kind == "createinbatches", "insert", "an insert action does something other than creating", op)
				must(c, op.unwritten() == "", "insert", "models are created without their "+op.unwritten(), op)
				must(c, !op.Conflict, "insert", "an insert ignores or overwrites rows that exist", op)
				var ids []string
				for _, it := range op.Items {
					i := idx(it)
					must(c, valid(i) && st.Get("done"+i) == "", "insert", "something other than a model not yet created is created", op)
					ids = append(ids, i)
				}
				return []dbAns{{Rows: cInt(len(ids)), Do: done(ids...)}, bad}
			case "update":
				switch op.Kind {
				case "updates", "updatecolumns", "update", "updatecolumn":
					i := ""
					if op.Dest != nil {
						i = idx(op.Dest)
					} else if len(op.Conds) == 1 && op.Conds[0].Col == "pkc" && op.Conds[0].Val != nil {
						k := op.Conds[0].Val.K()
						i = strings.TrimSuffix(strings.TrimPrefix(k, "s:env:m"), ".Key")
					}
					must(c, valid(i), "update", "something other than a model of the action is updated", op)
					if !valid(i) {
						return []dbAns{{}, bad}
					}
					must(c, atoi(st.Get("prev")) > atoi(i), "update", "a model without previous model is updated by columns", op)
					must(c, len(op.Conds) == 1 && op.Conds[0].Col == "pkc" && op.Conds[0].Op == "=" && sameVal(op.Conds[0].Val, st.field(VPtr{"H:m" + i, ""}, "Key")), "update", "the row updated is not exactly that of the model", op)
					var cols []string
					for col, v := range op.Set {
						cols = append(cols, col)
						f := map[string]string{"f": "F", "g": "G"}[col]
						must(c, f != "" && sameVal(v, st.field(VPtr{"H:m" + i, ""}, f)), "columns", "a column is not written with the model's value", op)
					}
					sort.Strings(cols)
					want := strings.ToLower(strings.TrimSuffix(st.Get("diff"+i), ";"))
					must(c, strings.Join(cols, ",") == want, "columns", "the columns written ("+strings.Join(cols, ",")+") are not the differing ones ("+want+")", op)
					must(c, st.Get("done"+i) == "", "once", "a model is updated twice", op)
					return []dbAns{{Rows: cInt(1), Do: done(i)}, bad}
				case "save":
					var ids []string
					for _, it := range op.Items {
						i := idx(it)
						must(c, valid(i) && atoi(st.Get("prev")) <= atoi(i), "save", "something other than a model without previous model is saved whole", op)
						must(c, st.Get("done"+i) == "", "once", "a model is saved twice", op)
						ids = append(ids, i)
					}
					must(c, op.unwritten() == "", "save", "a model is saved without its "+op.unwritten(), op)
					must(c, len(op.Conds) == 0, "save", "saving is limited by a condition", op)
					return []dbAns{{Rows: cInt(len(ids)), Do: done(ids...)}, bad}
				}
				must(c, false, "update", "an update action does something else", op)
				return []dbAns{{}, bad}
			case "delete":
				must(c, op.Kind == "delete", "delete", "a delete action does something else", op)
				var ids []string
				key := map[string]string{}
				for _, cd := range op.Conds {
					switch {
					case cd.Col == "pkc" && cd.Op == "in" && len(op.Conds) == 1 && st.Get("model") == "one":
						vs := []Value{}
						if t, ok := cd.Val.(*VTuple); ok {
							vs = t.V
						} else if es, ok := c.In.variadic(st, cd.Val, nil); ok {
							vs = es
						}
						for _, v := range vs {
							ids = append(ids, strings.TrimSuffix(strings.TrimPrefix(v.K(), "s:env:m"), ".Key"))
						}
					case (cd.Col == "pkc" || cd.Col == "pkd") && cd.Op == "=" && cd.Val != nil:
						f := map[string]string{"pkc": ".Key", "pkd": ".Part"}[cd.Col]
						k := cd.Val.K()
						must(c, strings.HasSuffix(k, f) && strings.HasPrefix(k, "s:env:m"), "delete", "the condition is not the primary key of a model", op)
						key[cd.Col] = strings.TrimSuffix(strings.TrimPrefix(k, "s:env:m"), f)
					default:
						must(c, false, "delete", "rows are not deleted by primary key", op)
					}
				}
				if len(key) > 0 {
					if st.Get("model") == "two" {
						must(c, len(key) == 2 && key["pkc"] == key["pkd"], "delete", "a row with a composite key is not deleted by its whole key", op)
					}
					ids = append(ids, key["pkc"])
				}
				must(c, len(ids) > 0, "delete", "rows are deleted without naming them", op)
				for _, i := range ids {
					must(c, valid(i), "delete", "a row that is not of the action is deleted", op)
				}
				return []dbAns{{Rows: cInt(len(ids)), Do: done(ids...)}, {Rows: cInt(0), Note: "nothing deleted", Do: done(ids...)}, bad}
			case "query":
				must(c, op.Kind == "find" || op.Kind == "scan", "query", "a query does not return all rows", op)
				must(c, op.Limit == nil && len(op.Conds) > 0, "query", "a query is limited or unconditional", op)
				var cols []string
				for _, cd := range op.Conds {
					cols = append(cols, cd.Col+cd.Op)
					f := map[string]string{"pkc": "Key", "f": "F", "g": "G"}[cd.Col]
					must(c, f != "" && cd.Op == "=" && cd.Val != nil && sameVal(cd.Val, st.field(VPtr{"H:q", ""}, f)), "query", "a condition is not one of the query model", op)
				}
				sort.Strings(cols)
				must(c, strings.Join(cols, ",") == st.Get("cols"), "query", "the conditions are not the fields the query model sets ("+st.Get("cols")+")", op)
				must(c, stripIface(orNil(op.Dest)).K() == "&H:dst", "result", "the result does not go to the given destination", op)
				must(c, st.Get("done") == "", "once", "the query runs twice", op)
				return []dbAns{{Rows: cInt(1), Do: done("")}, bad}
			}
			must(c, false, "unknown", "an operation without implementation does something", op)
			return []dbAns{{}, bad}
		}
		x.atEnd = func(in *Interp, st *State, p Value) {
			in.Check(st, p == nil, "C28/panic", st.Get("kind"), 0, "executing an action panics")
		}
		optT := x.t("OpType")
		pick := map[string]func(st *State, fr *Frame) []*State{}
		add := func(name, kind, model string, n, prev, op int, mk func(st *State) map[string]Value) {
			pick[name] = func(st *State, fr *Frame) []*State {
				st.Set("kind", kind)
				st.Set("model", model)
				st.Set("n", strconv.Itoa(n))
				st.Set("prev", strconv.Itoa(prev))
				fr.loc["act"] = x.action(st, opVal(optT, op), mk(st))
				return nil
			}
		}
		ms := func(t types.Type, n, prev int) func(st *State) map[string]Value {
			return func(st *State) map[string]Value {
				_, a := x.models(st, t, "m", n)
				_, b := x.models(st, t, "p", prev)
				return map[string]Value{"Models": a, "PrevModels": b}
			}
		}
		add("insert1", "insert", "one", 1, 0, opInsert, ms(x.one, 1, 0))
		add("insert2", "insert", "one", 2, 0, opInsert, ms(x.one, 2, 0))
		add("insert3", "insert", "two", 3, 0, opInsert, ms(x.two, 3, 0))
		add("update1", "update", "one", 1, 1, opUpdate, ms(x.one, 1, 1))
		add("update2", "update", "one", 2, 2, opUpdate, ms(x.one, 2, 2))
		add("update2b", "update", "one", 2, 1, opUpdate, ms(x.one, 2, 1))
		add("update1b", "update", "one", 1, 0, opUpdate, ms(x.one, 1, 0))
		add("update3", "update", "one", 3, 3, opUpdate, ms(x.one, 3, 3))
		add("delete1", "delete", "one", 1, 0, opDelete, ms(x.one, 1, 0))
		add("delete2", "delete", "one", 2, 0, opDelete, ms(x.one, 2, 0))
		add("delete3", "delete", "one", 3, 0, opDelete, ms(x.one, 3, 0))
		add("deletec1", "delete", "two", 1, 0, opDelete, ms(x.two, 1, 0))
		add("deletec2", "delete", "two", 2, 0, opDelete, ms(x.two, 2, 0))
		q := func(cols string, given map[string]Value, slice bool) func(st *State) map[string]Value {
			return func(st *State) map[string]Value {
				st.Set("cols", cols)
				p := x.model(st, x.one, "q", given)
				var t types.Type = types.NewSlice(types.NewPointer(x.one))
				if !slice {
					t = x.one
				}
				st.heap["H:dst"] = &Obj{Kind: "cells", T: t, Cells: map[string]Value{}}
				return map[string]Value{"Query": x.iface(x.one, p), "QueryResult": &VIface{T: types.NewPointer(t), V: VPtr{"H:dst", ""}}}
			}
		}
		z := cStr("")
		add("query1", "query", "one", 0, 0, opQuery, q("f=", map[string]Value{"Key": z, "G": z}, true))
		add("query2", "query", "one", 0, 0, opQuery, q("g=,pkc=", map[string]Value{"F": z}, true))
		add("query3", "query", "one", 0, 0, opQuery, q("f=,g=,pkc=", nil, true))
		add("many-insert", "insert", "one", manyModels, 0, opInsert, ms(x.one, manyModels, 0))
		add("many-update", "update", "one", manyModels, manyModels, opUpdate, ms(x.one, manyModels, manyModels))
		add("many-save", "update", "one", manyModels, 0, opUpdate, ms(x.one, manyModels, 0))
		add("many-delete", "delete", "one", manyModels, 0, opDelete, ms(x.one, manyModels, 0))
		add("many-deletec", "delete", "two", manyModels, 0, opDelete, ms(x.two, manyModels, 0))
		add("unknown0", "unknown", "one", 1, 0, 0, ms(x.one, 1, 0))
		add("unknown99", "unknown", "one", 1, 0, 99, ms(x.one, 1, 0))
		var alts []func(st *State, fr *Frame) []*State
		var names []string
		for n := range pick {
			for _, k := range kinds {
				if strings.HasPrefix(n, k) {
					names = append(names, n)
				}
			}
		}
		sort.Strings(names)
		for _, n := range names {
			n := n
			alts = append(alts, func(st *State, fr *Frame) []*State { st.note(0, "action: "+n); return pick[n](st, fr) })
		}
		var ss []stepFn
		ss = append(ss, x.newExec("exe", x.db())...)
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State { return choose(st, alts...) },
			x.call("Exec", "exe", func(st *State, fr *Frame) []Value { return []Value{ctx, fr.loc["act"]} }),
			func(in *Interp, st *State, fr *Frame) []*State {
				r := results(fr)
				if len(r) != 1 {
					return nil
				}
				kind := st.Get("kind")
				chk := func(ok bool, r, msg string) { in.Check(st, ok, "C28/"+r, kind, 0, msg) }
				if kind == "unknown" {
					chk(isErr(in, st, r[0]), "unknown", "an operation without implementation is no error")
					return nil
				}
				if fs := failed(st); len(fs) > 0 {
					for _, f := range fs {
						chk(inErr(in, st, r[0], f), "error", "a database error is not returned")
					}
					return nil
				}
				chk(isNoErr(in, st, r[0]), "ok", "the action succeeded, but an error is returned")
				if kind == "query" {
					chk(st.Get("done") != "", "query", "the query is not sent")
				}
				for i := 0; i < atoi(st.Get("n")); i++ {
					n := strconv.Itoa(i)
					d := st.Get("diff" + n)
					if kind == "update" && atoi(st.Get("prev")) > i {
						chk(d != "", "diff", "a model with a previous model is not compared with it")
						if d == ";" {
							chk(st.Get("done"+n) == "", "nodiff", "a model that does not differ is written")
							continue
						}
					}
					chk(st.Get("done"+n) != "", "all", "a model of the action is left out")
				}
				return nil
			})
		x.start(in, ss...)
		for _, k := range kinds {
			if k != "unknown" && k != "many" {
				in.reached("C28/"+k, k, "the database is never asked to "+k)
			}
		}
	}
}

func atoi(s string) int {
	n := 0
	for _, r := range s {
		n = n*10 + int(r-'0')
	}
	return n
}

// manyModels: the length of the long lists of models.
const manyModels = 130

func execScenarios() []*Scenario {
	c27, c28 := []string{"C27"}, []string{"C28"}
	return []*Scenario{
		{Name: "exec-tx", Props: c27, Run: scenExecTx},
		{Name: "exec-insert", Props: c28, Run: scenExecOps("insert", "unknown")},
		{Name: "exec-update", Props: c28, Run: scenExecOps("update")},
		{Name: "exec-delete", Props: c28, Run: scenExecOps("delete")},
		{Name: "exec-many", Props: c28, Run: scenExecOps("many")},
		{Name: "exec-query", Props: c28, Run: scenExecOps("query")},
	}
}
