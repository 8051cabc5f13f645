package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Loading (C21): a root and its children are read through the repository or the
// builder of a command, into destinations of every shape.

// ldest is one destination handed to a load.
type ldest struct {
	shape string // slice, slice+, ptr, ptr+, ent, or a wrong one
	typ   string // A or B
}

func (d ldest) wrong() bool {
	switch d.shape {
	case "slice", "slice+", "ptr", "ptr+", "ent":
		return false
	}
	return true
}

type loadSpec struct {
	form  string // repo or command
	dests []ldest
	noID  bool
	retry bool   // a load that failed is repeated
	other string // custom get: what the second root is
}

func (s *loadSpec) name() string {
	var ds []string
	for _, d := range s.dests {
		ds = append(ds, d.shape+":"+d.typ)
	}
	n := "load/" + s.form + "/" + strings.Join(ds, ",")
	if s.noID {
		n += "/noid"
	}
	if s.retry {
		n += "/retry"
	}
	return n + s.other
}

type loadEnv struct {
	*Eng
	s    *loadSpec
	entT map[string]types.Type
	modT map[string]types.Type
}

func newLoad(e *Env, s *loadSpec) *loadEnv {
	l := &loadEnv{Eng: newEng(e), s: s, entT: map[string]types.Type{}, modT: map[string]types.Type{}}
	empty := types.NewStruct([]*types.Var{types.NewField(0, e.pkg, "F", types.Typ[types.String], false)}, nil)
	for _, n := range []string{"A", "B"} {
		l.entT[n] = types.NewPointer(e.envType("Ent"+n, empty, methodsOf(e.T("IEntity"))...))
		l.modT[n] = types.NewPointer(e.envType("Row"+n, empty, methodsOf(e.T("IModel"))...))
	}
	l.modT["root"] = e.ModelA
	return l
}

func (l *loadEnv) row(k string, i int) Value {
	t := "root"
	if k != "root" {
		n, _ := strconv.Atoi(k)
		t = l.s.dests[n].typ
	}
	return &VSym{ID: fmt.Sprintf("m:row:%s:%d", k, i), T: l.modT[t], Distinct: true, NonNil: true}
}

func (l *loadEnv) destT(d ldest) types.Type {
	t := l.entT[d.typ]
	switch d.shape {
	case "slice", "slice+", "nilslice":
		return types.NewPointer(sliceOf(t))
	case "ptr", "ptr+", "nilptr":
		return types.NewPointer(t)
	case "ent", "nilent":
		return t
	case "ifaces":
		return types.NewPointer(sliceOf(l.t("IEntity")))
	case "iface":
		return types.NewPointer(l.t("IEntity"))
	case "values":
		return types.NewPointer(sliceOf(t.(*types.Pointer).Elem()))
	case "byvalue":
		return sliceOf(t)
	case "ints":
		return types.NewPointer(sliceOf(types.Typ[types.Int]))
	case "intp":
		return types.NewPointer(types.Typ[types.Int])
	case "int":
		return types.Typ[types.Int]
	case "struct":
		return t.(*types.Pointer).Elem()
	}
	return nil
}

// destV makes destination k.
func (l *loadEnv) destV(st *State, k int) Value {
	d := l.s.dests[k]
	t := l.destT(d)
	old := &VSym{ID: fmt.Sprintf("ent:old%d", k), T: l.entT[d.typ], Distinct: true, NonNil: true}
	id := fmt.Sprintf("H:dest%d", k)
	cell := func(v Value) Value {
		st.heap[id] = &Obj{Kind: "cells", T: t.(*types.Pointer).Elem(), Cells: map[string]Value{"": v}}
		st.SetV("dest:"+strconv.Itoa(k), VPtr{id, ""})
		return &VIface{T: t, V: VPtr{id, ""}}
	}
	switch d.shape {
	case "slice":
		return cell(VNil{})
	case "slice+":
		return cell(st.slice("old", sliceOf(l.entT[d.typ]), old))
	case "ptr":
		return cell(VNil{})
	case "ptr+":
		return cell(old)
	case "ent":
		return old
	case "nil":
		return VNil{}
	case "int":
		return &VIface{T: t, V: cInt(0)}
	case "struct":
		return &VIface{T: t, V: zero(t)}
	case "byvalue", "nilslice", "nilptr", "nilent":
		return &VIface{T: t, V: VNil{}}
	default:
		return cell(zero(t.(*types.Pointer).Elem()))
	}
}

// content lists the entities a destination holds.
func (l *loadEnv) content(in *Interp, st *State, k int) ([]Value, bool) {
	d := l.s.dests[k]
	if d.wrong() {
		return nil, true
	}
	if d.shape == "ent" {
		return []Value{&VSym{ID: fmt.Sprintf("ent:old%d", k), T: l.entT[d.typ], Distinct: true, NonNil: true}}, true
	}
	p := st.GetV("dest:" + strconv.Itoa(k))
	if p == nil {
		return nil, true
	}
	v := st.loadCell(p.(VPtr).O, "", l.destT(d).(*types.Pointer).Elem())
	if strings.HasPrefix(d.shape, "ptr") {
		if _, isNil := v.(VNil); isNil {
			return nil, true
		}
		return []Value{v}, true
	}
	if _, isNil := v.(VNil); isNil {
		return nil, true
	}
	return in.elems(st, v)
}

func keyOf(v Value) string { return stripIface(v).K() }

// destOf tells which destination an entity of the library's making belongs to.
func (l *loadEnv) destOf(in *Interp, st *State, ent Value) (int, bool) {
	for k, d := range l.s.dests {
		if d.wrong() {
			continue
		}
		if d.shape == "ptr+" || d.shape == "ent" {
			if keyOf(ent) == (&VSym{ID: fmt.Sprintf("ent:old%d", k), T: l.entT[d.typ]}).K() {
				return k, true
			}
			continue
		}
		p, ok := stripIface(ent).(VPtr)
		if ok && st.heap[p.O] != nil && p.P == "" && st.heap[p.O].T != nil && types.Identical(types.NewPointer(st.heap[p.O].T), l.entT[d.typ]) {
			if st.Get("q:"+strconv.Itoa(k)) == "" || st.Get("q:"+strconv.Itoa(k)) != "" && st.GetV("mine:"+strconv.Itoa(k)+":"+keyOf(ent)) != nil {
				return k, true
			}
		}
	}
	return 0, false
}

func (l *loadEnv) root() Value { return l.ent("root") }

// fault: one failure inside the load, which the load has to return.
func (l *loadEnv) fault(c *CallCtx, what string, out ...Outcome) []Outcome {
	if c.St.GetV("lfail") == nil && c.St.Get("second") == "" {
		f := errSym(what)
		out = append(out, Outcome{Ret: c.fails(f), Note: what + " fails", Do: func(st *State) { st.SetV("lfail", f) }})
	}
	return out
}

// fails are the results of a failing call: zero values and the error.
func (c *CallCtx) fails(f Value) []Value {
	var vs []Value
	for i := 0; i < c.Res.Len()-1; i++ {
		vs = append(vs, VNil{})
	}
	return append(vs, f)
}

func (l *loadEnv) stopped(c *CallCtx, what string) {
	l.must(c, c.St.GetV("lfail") == nil, "C21/stop", what, what+" is called although the load already failed")
	l.must(c, c.St.Get("noroot") == "", "C21/stop", what, what+" is called although the root does not exist")
}

func (l *loadEnv) wireLoad(in *Interp) {
	s := l.s
	loading := func(st *State) bool { return st.Get("got") == "run" }
	// ---- conversions into models
	plain := l.model
	l.model = func(c *CallCtx, ent, parent Value, op int) []Outcome {
		st := c.St
		if !loading(st) || op != opQuery {
			if n := keyOf(ent); n != keyOf(l.root()) && op != opQuery && n != keyOf(l.ent("q")) {
				l.must(c, op == opUpdate, "C21/baseline", "Entity2Model", "an entity that was loaded is not part of the baseline of the run")
			}
			return plain(c, ent, parent, op)
		}
		if s.form == "custom" {
			return l.fault(c, "Entity2Model(baseline)", plain(c, ent, parent, op)...)
		}
		l.stopped(c, "Entity2Model")
		if _, isNil := parent.(VNil); isNil {
			l.must(c, keyOf(ent) == keyOf(l.root()), "C21/root-query", "Entity2Model", "a query is built without a parent from something else than the root")
			l.must(c, st.Get("rq") == "", "C21/root-once", "Entity2Model", "the query of the root is built twice")
			l.must(c, !s.noID, "C21/no-id", "Entity2Model", "a query is built although the root has no ID")
			st.Set("rq", "1")
			return l.fault(c, "Entity2Model(root)", Outcome{Ret: []Value{&VSym{ID: "m:q:root", T: l.modT["root"], Distinct: true, NonNil: true}, VNil{}}})
		}
		if st.Get("rows:root") != "" && l.baseline(in, st, ent) {
			return l.fault(c, "Entity2Model(baseline)", plain(c, ent, parent, op)...)
		}
		if keyOf(parent) != keyOf(l.root()) {
			// the baseline of the run
			if keyOf(ent) == keyOf(l.root()) {
				return l.fault(c, "Entity2Model(baseline)", plain(c, ent, parent, op)...)
			}
			l.must(c, false, "C21/parent", "Entity2Model", "a child is queried without the loaded root as its parent")
			return plain(c, ent, parent, op)
		}
		l.must(c, st.Get("conv:root:0") != "", "C21/order", "Entity2Model", "a child is queried before the root was loaded")
		k, ok := l.destOf(in, st, ent)
		l.must(c, ok, "C21/child-query", "Entity2Model", "a query is built from an entity that is no destination of the load and not new")
		if !ok {
			return plain(c, ent, parent, op)
		}
		ks := strconv.Itoa(k)
		l.must(c, st.Get("q:"+ks) == "", "C21/child-once", "Entity2Model", "a destination is queried twice")
		st.Set("q:"+ks, "1")
		st.SetV("mine:"+ks+":"+keyOf(ent), ent)
		st.SetV("qent:"+ks, ent)
		return l.fault(c, "Entity2Model(child)", Outcome{Ret: []Value{&VSym{ID: "m:q:" + ks, T: l.modT[s.dests[k].typ], Distinct: true, NonNil: true}, VNil{}}})
	}
	// ---- queries
	exec := l.onCall[imeth("IExecutor", "Exec")]
	l.onCall[imeth("IExecutor", "Exec")] = func(c *CallCtx) []Outcome {
		st := c.St
		op, _ := constInt(st.field(c.Args[1], "Op"))
		if !loading(st) {
			l.must(c, op != opQuery, "C21/extra", "Exec", "a query is executed outside a load")
			return exec(c)
		}
		l.stopped(c, "Exec")
		l.must(c, op == opQuery, "C21/query-only", "Exec", "loading executes something else than a query")
		l.must(c, ctxHas(c.Args[0], l.loadCtx(st)), "C21/ctx", "Exec", "a query does not get the context of the load")
		l.runCtx(c, c.Args[0], "Exec")
		q, _ := stripIface(st.field(c.Args[1], "Query")).(*VSym)
		ok := q != nil && strings.HasPrefix(q.ID, "m:q:")
		l.must(c, ok, "C21/query", "Exec", "the query is not the model converted from the requested entity")
		if !ok {
			return l.fault(c, "Exec", Outcome{Ret: []Value{VNil{}}})
		}
		k := strings.TrimPrefix(q.ID, "m:q:")
		l.must(c, st.Get("rows:"+k) == "", "C21/query-once", "Exec", "a query is executed twice")
		dst, _ := st.field(c.Args[1], "QueryResult").(*VIface)
		var p VPtr
		good := false
		if dst != nil {
			if pt, isP := dst.T.(*types.Pointer); isP {
				if sl, isS := pt.Elem().(*types.Slice); isS && types.Identical(sl.Elem(), q.T) {
					p, good = dst.V.(VPtr)
				}
			}
		}
		l.must(c, good, "C21/query-result", "Exec", "the destination of a query is not a pointer to a slice of the type of its model")
		if !good {
			return l.fault(c, "Exec", Outcome{Ret: []Value{VNil{}}})
		}
		fill := func(n int) Outcome {
			return Outcome{Ret: []Value{VNil{}}, Note: fmt.Sprintf("the query %s returns %d rows", k, n), Do: func(st *State) {
				var rows []Value
				for i := 0; i < n; i++ {
					rows = append(rows, l.row(k, i))
				}
				st.Set("rows:"+k, strconv.Itoa(n))
				if n > 0 {
					st.storeCell(p.O, p.P, sliceOf(q.T), st.slice("rows:"+k, sliceOf(q.T), rows...))
				} else if k == "root" {
					st.Set("noroot", "1")
				}
			}}
		}
		outs := []Outcome{fill(0), fill(1), fill(2)}
		return l.fault(c, "Exec("+kind(k)+")", outs...)
	}
	// ---- conversions into entities
	l.onCall[imeth("IConverter", "Model2Entity")] = func(c *CallCtx) []Outcome {
		st := c.St
		l.stopped(c, "Model2Entity")
		m, _ := stripIface(c.Args[0]).(*VSym)
		ok := m != nil && strings.HasPrefix(m.ID, "m:row:")
		l.must(c, ok && loading(st), "C21/row", "Model2Entity", "something else than a row of a query is converted")
		if !ok {
			return ret(VNil{})
		}
		ps := strings.Split(strings.TrimPrefix(m.ID, "m:row:"), ":")
		k, i := ps[0], ps[1]
		ent := c.Args[1]
		l.must(c, st.Get("conv:"+k+":"+i) == "", "C21/row-once", "Model2Entity", "a row is converted twice")
		st.Set("conv:"+k+":"+i, "1")
		if k == "root" {
			l.must(c, i == "0", "C21/first-row", "Model2Entity", "the root is filled from another row than the first")
			l.must(c, keyOf(ent) == keyOf(l.root()), "C21/root-target", "Model2Entity", "the row of the root does not fill the root")
			return l.fault(c, "Model2Entity(root)", Outcome{Ret: []Value{VNil{}}})
		}
		n, _ := strconv.Atoi(k)
		d := s.dests[n]
		if strings.HasPrefix(d.shape, "slice") {
			p, isP := stripIface(ent).(VPtr)
			fresh := isP && p.P == "" && st.heap[p.O] != nil && st.heap[p.O].T != nil && types.Identical(types.NewPointer(st.heap[p.O].T), l.entT[d.typ])
			for x := range st.mon {
				if strings.HasPrefix(x, "of:") && strings.HasSuffix(x, "!"+keyOf(ent)) {
					fresh = false
				}
			}
			l.must(c, fresh, "C21/new", "Model2Entity", "a row does not fill a new entity of the requested type")
		} else {
			l.must(c, i == "0", "C21/first-row", "Model2Entity", "a single child is filled from another row than the first")
			q := st.GetV("qent:" + k)
			l.must(c, q != nil && keyOf(q) == keyOf(ent), "C21/target", "Model2Entity", "the row of a child does not fill the requested entity")
		}
		st.SetV("of:"+k+":"+i+"!"+keyOf(ent), ent)
		st.SetV("got:"+k+":"+i, ent)
		st.SetV("mine:"+k+":"+keyOf(ent), ent)
		return l.fault(c, "Model2Entity(child)", Outcome{Ret: []Value{VNil{}}})
	}
	// ---- the aggregate
	l.onCall[imeth("IEntity", "GetChildren")] = func(c *CallCtx) []Outcome {
		st := c.St
		mt := c.resT(0)
		if keyOf(c.Recv) != keyOf(l.root()) {
			return ret(st.newMap("ch:"+c.Pre, mt))
		}
		var kv []Value
		for k := range s.dests {
			es, _ := l.content(in, st, k)
			if s.dests[k].shape == "ent" && st.Get("rows:"+strconv.Itoa(k)) == "0" {
				es = nil
			}
			var vs []Value
			for _, x := range es {
				vs = append(vs, mkIface(x, l.entT[s.dests[k].typ]))
			}
			if len(vs) > 0 {
				kv = append(kv, cStr("k"+strconv.Itoa(k)), l.ents(st, "kids"+strconv.Itoa(k)+":"+c.Pre, vs...))
			}
		}
		return ret(st.newMap("ch:"+c.Pre, mt, kv...))
	}
	l.onCall[imeth("IEntity", "GetEvents")] = func(c *CallCtx) []Outcome { return ret(VNil{}) }
	l.onCall[imeth("IEntity", "GetID")] = func(c *CallCtx) []Outcome {
		if keyOf(c.Recv) == keyOf(l.root()) {
			if s.noID {
				return ret(cStr(""))
			}
			return ret(cStr("root id"))
		}
		return ret(cStr("child id"))
	}
	l.onCall[imeth("IEntity", "SetID")] = noop
	l.onCall[imeth("IDirty", "IsDirty")] = func(c *CallCtx) []Outcome { return ret(cBool(true)) }
	l.onExec = func(c *CallCtx, op int, act Value) {
		ms, _ := c.In.elems(c.St, c.St.field(act, "Models"))
		for _, m := range ms {
			if x, ok := stripIface(m).(*VSym); ok {
				if strings.HasSuffix(x.ID, ":ent:q") && s.other != "/fine" {
					continue
				}
				l.must(c, op == opUpdate, "C21/baseline", "Exec", "a loaded aggregate is not saved as updates")
				l.must(c, c.St.Get("got") == "ok", "C21/nothing-added", "Exec", "an aggregate whose load failed is written by the run")
				c.St.Set("wrote:"+x.ID, "1")
			}
		}
	}
	end := l.BH.onEnd
	l.BH.onEnd = func(in *Interp, st *State, panicked Value) {
		if panicked != nil && loading(st) {
			in.Check(st, false, "C21/shape", "load", 0, "loading panics instead of returning an error")
			return
		}
		end(in, st, panicked)
		in.Check(st, st.Get("got") == "ok" || st.Get("got") == "err", "C21/returns", "load", 0, "the load does not return")
		if st.Get("got") == "ok" && panicked == nil && st.GetV("fail") == nil {
			in.Check(st, st.Get("wrote:m:"+strconv.Itoa(opUpdate)+":ent:root") == "1", "C21/added", "end of run", 0, "the loaded root is not part of the repository")
		}
	}
}

func kind(k string) string {
	if k == "root" {
		return k
	}
	return "child"
}

// baseline: is this conversion one of the baseline, after all queries?
func (l *loadEnv) baseline(in *Interp, st *State, ent Value) bool {
	for k, d := range l.s.dests {
		if d.wrong() || st.Get("rows:"+strconv.Itoa(k)) == "" {
			return false
		}
	}
	for k := range l.s.dests {
		es, _ := l.content(in, st, k)
		for _, x := range es {
			if keyOf(x) == keyOf(ent) {
				return true
			}
		}
	}
	return false
}

func (l *loadEnv) loadCtx(st *State) Value { return st.GetV("lctx") }

// judge the result of the load.
func (l *loadEnv) judge(in *Interp, st *State, err Value) {
	ck := func(ok bool, rule, what, msg string) { in.Check(st, ok, rule, what, 0, msg) }
	isNil, _ := st.isNil(err)
	wrong := l.s.other != "" && l.s.other != "/fine"
	for _, d := range l.s.dests {
		wrong = wrong || d.wrong()
	}
	nf := l.e.Global("", "ErrEntityNotFound")
	switch {
	case l.s.noID:
		ck(isNil == no, "C21/no-id", "load", "loading a root without ID is not an error")
	case st.GetV("lfail") != nil:
		ck(isNil == no && in.inChain(st, err, st.GetV("lfail")), "C21/error", strings.TrimPrefix(short(st.GetV("lfail").K()), "s:err:"), "an error met while loading is not returned: "+short(st.GetV("lfail").K()))
	case st.Get("noroot") != "":
		ck(isNil == no && in.inChain(st, err, nf), "C21/not-found", "load", "loading a root that does not exist is not the not-found error")
	case wrong:
		ck(isNil == no, "C21/shape", "load", "a destination of the wrong shape is not an error")
	default:
		ck(isNil == yes, "C21/success", "load", "a load without any failure returns an error")
	}
	if isNil != yes {
		st.Set("got", "err")
		return
	}
	st.Set("got", "ok")
	if l.s.form == "custom" {
		ck(st.Get("getter") == "1", "C21/getter", "CustomGet", "the getter is not called once")
		return
	}
	ck(st.Get("rows:root") != "" && st.Get("conv:root:0") != "", "C21/filled", "load", "a load succeeds without filling the root")
	for k, d := range l.s.dests {
		if d.wrong() {
			continue
		}
		ks := strconv.Itoa(k)
		n, _ := strconv.Atoi("0" + st.Get("rows:"+ks))
		ck(st.Get("rows:"+ks) != "", "C21/filled", "load", "a requested child is not queried")
		got, exact := l.content(in, st, k)
		var want []Value
		if d.shape == "slice+" {
			want = append(want, &VSym{ID: "ent:old" + ks, T: l.entT[d.typ], Distinct: true, NonNil: true})
		}
		if d.shape == "ent" {
			want = append(want, got...)
			if n > 0 {
				ck(st.Get("conv:"+ks+":0") != "", "C21/filled", "load", "a requested child is not filled from its row")
			}
		} else if strings.HasPrefix(d.shape, "ptr") && n > 0 {
			n = 1
		}
		if d.shape != "ent" {
			for i := 0; i < n; i++ {
				x := st.GetV("got:" + ks + ":" + strconv.Itoa(i))
				if x == nil {
					ck(false, "C21/filled", "load", "a row of a requested child is not converted")
					continue
				}
				want = append(want, x)
			}
		}
		same := exact && len(got) == len(want)
		for i := range want {
			same = same && i < len(got) && keyOf(got[i]) == keyOf(want[i])
		}
		ck(same, "C21/content", "load", fmt.Sprintf("a destination (%s) does not hold its old entities and one per row in row order", d.shape))
	}
}

func scenLoad(s *loadSpec) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		l := newLoad(e, s)
		l.wireLoad(in)
		dests := func(st *State) Value {
			if len(s.dests) == 0 {
				return VNil{}
			}
			var vs []Value
			for k := range s.dests {
				vs = append(vs, l.destV(st, k))
			}
			return st.slice("dests", sliceOf(anyT), vs...)
		}
		begin := func(st *State, fr *Frame) {
			st.Set("got", "run")
			st.SetV("lctx", fr.loc["ctx"])
		}
		judged := func(in *Interp, st *State, fr *Frame) []*State {
			l.judge(in, st, fr.loc["ret"])
			if len(s.dests) > 1 {
				panic(stopReq{}) // the rest of the run is analysed with one destination
			}
			return nil
		}
		sc := []stepFn{func(in *Interp, st *State, fr *Frame) []*State {
			st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:dry")}, false)
			st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:tx")}, s.form == "repo")
			return nil
		}}
		opts := []stepFn{l.boolOption("TransactionOption", cfgSym("cfg:tx")), l.boolOption("DryRunOption", cfgSym("cfg:dry"))}
		switch {
		case s.form == "custom":
			l.customGet(in, &sc, opts, begin, judged)
		case s.form == "command":
			build := steps(
				func(in *Interp, st *State, fr *Frame) []*State {
					begin(st, fr)
					return in.CallFn(st, e.M("", "DomainBuilder", "Build"), "build", st.field(VPtr{"H:builder", ""}, "!self"), fr.loc["ctx"], l.root(), dests(st))
				}, judged,
				func(in *Interp, st *State, fr *Frame) []*State {
					st.Set("main", "built")
					if st.Get("got") == "ok" {
						return fr.finish(l.ents(st, "roots", l.root()), VNil{})
					}
					return fr.finish(VNil{}, VNil{})
				})
			l.commandScript(build, steps(l.cmdEnds(false)))
			inner := l.onCall[imeth("ICommand", "Build")]
			l.onCall[imeth("ICommand", "Build")] = func(c *CallCtx) []Outcome {
				outs := inner(c)
				outs[0].Loc["builder"] = c.Args[1]
				return outs
			}
			build.Steps[0] = func(in *Interp, st *State, fr *Frame) []*State {
				begin(st, fr)
				return in.CallFn(st, e.M("", "DomainBuilder", "Build"), "build", fr.loc["builder"], fr.loc["ctx"], l.root(), dests(st))
			}
			sc = append(sc, l.newEngine()...)
			sc = append(sc, l.run(func() Value { return l.cmdFull("ICommand", "IStageSetter") }, opts...)...)
		default:
			l.mainScript(steps(
				func(in *Interp, st *State, fr *Frame) []*State {
					begin(st, fr)
					return in.CallFn(st, e.M("", "Repository", "Get"), "get", fr.loc["repo"], fr.loc["ctx"], l.root(), dests(st))
				}, judged,
				func(in *Interp, st *State, fr *Frame) []*State {
					if !s.retry || st.GetV("lfail") == nil {
						return nil
					}
					// the same load once more, without a fault
					var ks []string
					for k := range st.mon {
						for _, p := range []string{"q:", "rows:", "conv:", "of:", "got:", "mine:", "qent:", "rq", "noroot", "lfail"} {
							if strings.HasPrefix(k, p) {
								ks = append(ks, k)
							}
						}
					}
					for _, k := range ks {
						st.SetV(k, nil)
					}
					st.Set("second", "1")
					begin(st, fr)
					return in.CallFn(st, e.M("", "Repository", "Get"), "get", fr.loc["repo"], fr.loc["ctx"], l.root(), dests(st))
				},
				func(in *Interp, st *State, fr *Frame) []*State {
					if st.Get("second") != "" {
						return judged(in, st, fr)
					}
					return nil
				}, l.cmdEnds(false)))
			sc = append(sc, l.newEngine()...)
			sc = append(sc, l.run(l.funcCmd, opts...)...)
		}
		in.H = l.Eng
		l.start(in, &Script{Name: "load", Steps: sc})
	}
}

// customGet loads roots with a function of the user.
func (l *loadEnv) customGet(in *Interp, sc *[]stepFn, opts []stepFn, begin func(*State, *Frame), judged stepFn) {
	s, e := l.s, l.e
	q := l.ent("q")
	roots := func() []Value {
		switch s.other {
		case "":
			return []Value{l.root()}
		case "/same":
			return []Value{l.root(), l.root()}
		}
		return []Value{l.root(), q}
	}
	l.onCall["native:getter"] = func(c *CallCtx) []Outcome {
		if c.St.Get("got") != "run" {
			return []Outcome{{}}
		}
		l.must(c, c.St.Get("getter") == "", "C21/getter", "getter", "the getter is called twice")
		l.must(c, ctxHas(c.Args[0], l.loadCtx(c.St)), "C21/getter", "getter", "the getter does not get the context of the load")
		es, exact := c.In.elems(c.St, c.Args[1])
		ok := exact && len(es) == len(roots())
		for i, r := range roots() {
			ok = ok && i < len(es) && keyOf(es[i]) == keyOf(r)
		}
		l.must(c, ok, "C21/getter", "getter", "the getter does not get the roots")
		c.St.Set("getter", "1")
		return []Outcome{{}}
	}
	getter := native("getter")
	call := func(st *State, fr *Frame, in *Interp, rs ...Value) []*State {
		return in.CallFn(st, e.M("", "Repository", "CustomGet"), "get", fr.loc["repo"], fr.loc["ctx"], getter, l.ents(st, "roots", rs...))
	}
	l.mainScript(steps(
		func(in *Interp, st *State, fr *Frame) []*State {
			switch s.other {
			case "/added":
				return in.CallFn(st, e.M("", "Repository", "Add"), "add", fr.loc["repo"], l.ents(st, "q", q))
			case "/loaded":
				return call(st, fr, in, q)
			}
			return nil
		},
		func(in *Interp, st *State, fr *Frame) []*State {
			begin(st, fr)
			return call(st, fr, in, roots()...)
		}, judged, l.cmdEnds(false)))
	*sc = append(*sc, l.newEngine()...)
	*sc = append(*sc, l.run(l.funcCmd, opts...)...)
}

func loadScenarios() []*Scenario {
	var specs []*loadSpec
	add := func(s *loadSpec) { specs = append(specs, s) }
	add(&loadSpec{form: "repo", retry: true, dests: []ldest{{"ent", "A"}}})
	for _, o := range []string{"", "/fine", "/same", "/added", "/loaded"} {
		add(&loadSpec{form: "custom", other: o})
	}
	for _, form := range []string{"repo", "command"} {
		add(&loadSpec{form: form})
		add(&loadSpec{form: form, noID: true, dests: []ldest{{"slice", "A"}}})
		for _, sh := range []string{"slice", "slice+", "ptr", "ptr+", "ent"} {
			add(&loadSpec{form: form, dests: []ldest{{sh, "A"}}})
		}
		for _, sh := range []string{"nil", "int", "intp", "ints", "struct", "byvalue", "iface", "ifaces", "values", "nilslice", "nilptr", "nilent"} {
			add(&loadSpec{form: form, dests: []ldest{{sh, "A"}}})
		}
	}
	for _, a := range []string{"slice", "ptr", "ent"} {
		for _, b := range []string{"slice", "ptr", "ent", "nil", "ifaces"} {
			add(&loadSpec{form: "repo", dests: []ldest{{a, "A"}, {b, "B"}}})
		}
	}
	var r []*Scenario
	for _, s := range specs {
		r = append(r, &Scenario{Name: s.name(), Run: scenLoad(s), Depth: 7, Props: []string{"C21"}})
	}
	return r
}
