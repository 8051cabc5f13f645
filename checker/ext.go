package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// Models of library functions the module uses. Each model over-approximates the
// documented behaviour of the function; anything unmodelled returns unknown values.

type modelFn func(c *CallCtx) []Outcome

var extModels = map[string]modelFn{}

type prefixModel struct {
	prefix string
	f      modelFn
}

var extPrefixes []prefixModel

func ret(vs ...Value) []Outcome { return []Outcome{{Ret: vs}} }

func (c *CallCtx) sym(what string, t types.Type) *VSym {
	s := c.St.freshSym(what+"@"+c.Pre, t)
	return s
}

func (c *CallCtx) resT(i int) types.Type { return c.Res.At(i).Type() }

// errSym is a fresh opaque error that some collaborator reports.
func errSym(id string) *VSym {
	return &VSym{ID: "err:" + id, T: types.Universe.Lookup("error").Type(), Distinct: true, NonNil: true}
}

// variadic flattens a ...T argument when its content is known.
func (in *Interp) variadic(st *State, v Value, t types.Type) (elems []Value, exact bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		o := st.obj(x.O)
		if o != nil && o.Other == nil && o.Slots == nil {
			return o.Elems, true
		}
		if o != nil {
			return o.Elems, false
		}
	}
	return nil, false
}

func pureApp(key string) modelFn {
	return func(c *CallCtx) []Outcome {
		args := []Value{}
		for i, a := range c.Args {
			if c.Sig.Variadic() && i == len(c.Args)-1 {
				if es, ok := c.In.variadic(c.St, a, nil); ok {
					args = append(args, es...)
					continue
				}
			}
			args = append(args, a)
		}
		var vs []Value
		for i := 0; i < c.Res.Len(); i++ {
			f := c.Key
			if i > 0 {
				f += "/" + strconv.Itoa(i)
			}
			vs = append(vs, &VApp{F: f, Args: args, T: c.resT(i)})
		}
		return ret(vs...)
	}
}

func noop(c *CallCtx) []Outcome {
	var vs []Value
	for i := 0; i < c.Res.Len(); i++ {
		vs = append(vs, zero(c.resT(i)))
	}
	return ret(vs...)
}

func (c *CallCtx) orErr(what string, ok ...Value) []Outcome {
	var bad []Value
	n := c.Res.Len()
	for i := 0; i < n-1; i++ {
		bad = append(bad, zero(c.resT(i)))
	}
	e := &VSym{ID: "err:" + what + "@" + c.Pre, T: c.resT(n - 1), NonNil: true}
	return []Outcome{
		{Ret: append(append([]Value{}, ok...), VNil{})},
		{Ret: append(bad, e), Note: what + " fails"},
	}
}

// wrapped lists the arguments of fmt.Errorf that the result wraps.
func wrapped(format string, args []Value) []Value {
	var res []Value
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			res = append(res, args[n])
		}
		n++
	}
	return res
}

// errChain lists the errors errors.Is looks at for err.
func (in *Interp) errChain(st *State, v Value) []Value {
	return in.errChainD(st, v, 0)
}

func (in *Interp) errChainD(st *State, v Value, d int) []Value {
	if d > 8 {
		return []Value{v}
	}
	switch x := v.(type) {
	case VNil:
		return nil
	case *VApp:
		res := []Value{v}
		if strings.HasPrefix(x.F, "new:errorf") && len(x.Args) > 0 {
			if f, ok := constString(x.Args[0]); ok {
				for _, w := range wrapped(f, x.Args[1:]) {
					res = append(res, in.errChainD(st, w, d+1)...)
				}
			} else {
				for _, w := range x.Args[1:] {
					res = append(res, in.errChainD(st, w, d+1)...)
				}
			}
		}
		if strings.HasPrefix(x.F, "new:join") || strings.HasPrefix(x.F, "new:wrap") {
			for _, w := range x.Args {
				res = append(res, in.errChainD(st, w, d+1)...)
			}
		}
		return res
	case *VIface:
		res := []Value{v}
		if m := methodOf(in.P, x.T, "Unwrap"); m != nil && m.Signature.Results().Len() == 1 {
			for _, e := range in.CallPure(st, &VFunc{Fn: m}, []Value{x.V}) {
				t, ok := e.GetV("ret").(*VTuple)
				if !ok || len(t.V) != 1 {
					continue
				}
				switch r := t.V[0].(type) {
				case VSlice:
					if o := e.obj(r.O); o != nil {
						for _, w := range o.Elems {
							res = append(res, in.errChainD(e, w, d+1)...)
						}
					}
				case VNil:
				default:
					res = append(res, in.errChainD(e, r, d+1)...)
				}
			}
		}
		return res
	}
	return []Value{v}
}

// errIs: does errors.Is(err, target) hold?
func (in *Interp) errIs(st *State, err, target Value) (tri, *VPred) {
	if _, ok := err.(VNil); ok {
		_, tn := target.(VNil)
		return triOf(tn), nil
	}
	var up *VPred
	for _, e := range in.errChain(st, err) {
		t, p := st.eq(e, target)
		if t == yes {
			return yes, nil
		}
		if t == no && up == nil && in.ofCommand(st, e, target) {
			p := &VPred{Op: "is", X: e, Y: target}
			if v, ok := st.lookupFact(p); !ok {
				t, up = unknown, p
			} else if v {
				return yes, nil
			}
		}
		if t == unknown && up == nil {
			up = p
		}
	}
	if up != nil {
		return unknown, up
	}
	return no, nil
}

// ofCommand: an error of a command may be any of the library's own errors, but
// for the ones that mean something special there.
func (in *Interp) ofCommand(st *State, e, target Value) bool {
	s, ok := e.(*VSym)
	if !ok || !strings.HasPrefix(s.ID, "err:") {
		return false
	}
	switch n := s.ID[4:]; {
	case n == "Init", n == "Build", n == "command", strings.HasPrefix(n, "cmd"), strings.HasPrefix(n, "hcmd"), strings.HasPrefix(n, "h:"):
	default:
		return false
	}
	for _, n := range []string{"ErrEntityNotFound", "ErrEntityRepeated", "ErrEntityLocked", "ErrEntityNotRegister", "ErrNoEventBusFound"} {
		if o := in.base["G:"+modPath+"."+n]; o != nil && o.Cells[""] != nil && o.Cells[""].K() == target.K() {
			return true
		}
	}
	return false
}

// lt decides a < b where the order is known.
func (st *State) lt(a, b Value) (tri, *VPred) {
	if ca, ok := a.(VConst); ok {
		if cb, ok := b.(VConst); ok && ca.V.Kind() == cb.V.Kind() {
			return triOf(constant.Compare(ca.V, tokLSS, cb.V)), nil
		}
	}
	if sa, ok := a.(*VSym); ok {
		if sb, ok := b.(*VSym); ok && strings.HasPrefix(sa.ID, "ord:") && strings.HasPrefix(sb.ID, "ord:") {
			return triOf(sa.ID < sb.ID), nil
		}
		if sb, ok := b.(*VSym); ok && strings.HasPrefix(sa.ID, "tm:") && strings.HasPrefix(sb.ID, "tm:") {
			return triOf(sa.ID < sb.ID), nil
		}
	}
	if pa, ok := a.(*VApp); ok {
		if pb, ok := b.(*VApp); ok && pa.F == pb.F && len(pa.Args) == 1 && len(pb.Args) == 1 && strings.HasSuffix(pa.F, "UnixNano") {
			return st.lt(pa.Args[0], pb.Args[0])
		}
	}
	if ia, ok := a.(*VIdx); ok {
		if ib, ok := b.(*VIdx); ok && ia.O == ib.O && ia.At == idxElem && ib.At == idxElem {
			return triOf(ia.G < ib.G), nil
		}
	}
	if a.K() == b.K() && !hasSum(a) {
		return no, nil
	}
	p := &VPred{Op: "lt", X: a, Y: b}
	if v, ok := st.lookupFact(p); ok {
		return triOf(v), nil
	}
	if v, ok := st.lookupFact(&VPred{Op: "lt", X: b, Y: a}); ok && v {
		return no, nil
	}
	return unknown, p
}

// sortSlice reorders the known elements of a slice with a comparison.
func (in *Interp) sortSlice(c *CallCtx, sv Value, less func(st *State, id string, i, j int) bool) {
	st := c.St
	s, ok := stripIface(sv).(VSlice)
	if !ok || st.obj(s.O) == nil {
		return
	}
	o := st.obj(s.O)
	if o.Slots != nil {
		return
	}
	sc := st.clone()
	m := sc.mut(s.O)
	m.Other = nil
	n := len(m.Elems)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !less(sc, s.O, j, j-1) {
				break
			}
			m = sc.mut(s.O)
			m.Elems[j], m.Elems[j-1] = m.Elems[j-1], m.Elems[j]
		}
	}
	res := sc.obj(s.O).Elems
	w := st.mut(s.O)
	w.Elems = append([]Value(nil), res...)
	in.event(st, "sorted", c.Pos, s)
}

// pureBool evaluates a closure that returns a boolean; undecided conditions
// inside it split the calling state.
func (in *Interp) pureBool(st *State, fn Value, args ...Value) bool {
	ends := in.CallPure(st, fn, args)
	if len(ends) == 0 {
		panic(stopReq{})
	}
	if len(ends) > 1 {
		for _, e := range ends {
			for k, f := range e.facts {
				if _, in2 := st.facts[k]; !in2 {
					panic(forkReq{f.p})
				}
			}
		}
	}
	t := ends[0].GetV("ret").(*VTuple)
	return in.truth(st, t.V[0])
}

func init() {
	m := extModels
	pure := func(keys ...string) {
		for _, k := range keys {
			m[k] = pureApp(k)
		}
	}
	m["fmt.Errorf"] = func(c *CallCtx) []Outcome {
		args := []Value{c.Args[0]}
		es, _ := c.In.variadic(c.St, c.Args[1], nil)
		args = append(args, es...)
		if strings.HasPrefix(c.St.top().ctx, "init") {
			return ret(&VSym{ID: "E:" + c.Pre, T: c.resT(0), Distinct: true, NonNil: true})
		}
		return ret(&VApp{F: "new:errorf:" + c.Pre, Args: args, T: c.resT(0), NonNil: true})
	}
	m["errors.New"] = func(c *CallCtx) []Outcome {
		if strings.HasPrefix(c.St.top().ctx, "init") {
			return ret(&VSym{ID: "E:" + c.Pre, T: c.resT(0), Distinct: true, NonNil: true})
		}
		return ret(&VApp{F: "new:error:" + c.Pre, Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["fmt.Sprintf"] = func(c *CallCtx) []Outcome {
		es, _ := c.In.variadic(c.St, c.Args[1], nil)
		return ret(&VApp{F: "sprintf", Args: append([]Value{c.Args[0]}, es...), T: c.resT(0), NonNil: true})
	}
	pure("fmt.Sprint", "fmt.Sprintln")
	m["errors.Is"] = func(c *CallCtx) []Outcome {
		t, p := c.In.errIs(c.St, c.Args[0], c.Args[1])
		if t != unknown {
			return ret(cBool(t == yes))
		}
		return ret(cBool(c.In.decide(c.St, t, p)))
	}
	m["errors.As"] = func(c *CallCtx) []Outcome {
		return []Outcome{{Ret: []Value{cBool(false)}}, {Ret: []Value{cBool(true)}}}
	}
	m["errors.Unwrap"] = func(c *CallCtx) []Outcome {
		ch := c.In.errChain(c.St, c.Args[0])
		if len(ch) > 1 {
			return ret(ch[1])
		}
		return ret(VNil{})
	}
	m["errors.Join"] = func(c *CallCtx) []Outcome {
		v := c.In.asSlice(c.St, c.Args[0], c.Sig.Params().At(0).Type())
		s, ok := v.(VSlice)
		if !ok {
			return ret(VNil{})
		}
		o := c.St.obj(s.O)
		var es []Value
		for _, e := range o.Elems {
			if !c.In.isNil(c.St, e) {
				es = append(es, e)
			}
		}
		if o.Other != nil {
			// other errors may be recorded as well
			es = append(es, c.In.otherInstances(c.St, o.Other, "join:"+c.Pre)...)
		}
		if len(es) == 0 {
			return ret(VNil{})
		}
		return ret(&VApp{F: "new:join:" + c.Pre, Args: es, T: c.resT(0), NonNil: true})
	}
	m["(error).Error"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "errtext", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
	}
	sortBy := func(strs bool) modelFn {
		return func(c *CallCtx) []Outcome {
			c.In.sortSlice(c, c.Args[0], func(st *State, id string, i, j int) bool {
				es := st.obj(id).Elems
				t, p := c.St.lt(es[i], es[j])
				return c.In.decide(c.St, t, p)
			})
			return ret()
		}
	}
	m["sort.Strings"] = sortBy(true)
	m["slices.Sort"] = sortBy(true)
	m["sort.Ints"] = sortBy(true)
	byIndex := func(c *CallCtx) []Outcome {
		c.In.sortSlice(c, c.Args[0], func(st *State, id string, i, j int) bool {
			s := st.clone()
			s.facts = c.St.facts
			return c.In.pureBool2(c.St, s, c.Args[1], cInt(i), cInt(j))
		})
		return ret()
	}
	m["sort.Slice"] = byIndex
	m["sort.SliceStable"] = byIndex
	byCmp := func(c *CallCtx) []Outcome {
		c.In.sortSlice(c, c.Args[0], func(st *State, id string, i, j int) bool {
			es := st.obj(id).Elems
			ends := c.In.CallPure(c.St, c.Args[1], []Value{es[i], es[j]})
			if len(ends) == 0 {
				panic(stopReq{})
			}
			if len(ends) > 1 {
				for _, e := range ends {
					for k, f := range e.facts {
						if _, in2 := c.St.facts[k]; !in2 {
							panic(forkReq{f.p})
						}
					}
				}
			}
			v := ends[0].GetV("ret").(*VTuple).V[0]
			t, p := c.St.lt(v, cInt(0))
			return c.In.decide(c.St, t, p)
		})
		return ret()
	}
	compare := func(c *CallCtx) []Outcome {
		t, p := c.St.lt(c.Args[0], c.Args[1])
		if c.In.decide(c.St, t, p) {
			return ret(cInt(-1))
		}
		t, p = c.St.lt(c.Args[1], c.Args[0])
		if c.In.decide(c.St, t, p) {
			return ret(cInt(1))
		}
		return ret(cInt(0))
	}
	m["(time.Time).Compare"] = compare
	m["strings.Compare"] = compare
	sortIface := func(c *CallCtx) []Outcome {
		i, ok := c.Args[0].(*VIface)
		if !ok {
			return nil
		}
		if _, ok := i.V.(VSlice); !ok {
			return nil
		}
		if n, ok := types.Unalias(i.T).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			return sortBy(true)(c)
		}
		less := methodOf(c.In.P, i.T, "Less")
		if less == nil {
			return nil
		}
		c.In.sortSlice(c, i.V, func(st *State, id string, x, y int) bool {
			s := st.clone()
			s.facts = c.St.facts
			return c.In.pureBool2(c.St, s, &VFunc{Fn: less}, i.V, cInt(x), cInt(y))
		})
		return ret()
	}
	m["sort.Sort"], m["sort.Stable"] = sortIface, sortIface
	m["slices.SortFunc"] = byCmp
	m["slices.SortStableFunc"] = byCmp
	m["slices.Contains"] = func(c *CallCtx) []Outcome {
		v := c.In.asSlice(c.St, c.Args[0], c.Sig.Params().At(0).Type())
		s, ok := v.(VSlice)
		if !ok {
			return ret(cBool(false))
		}
		o := c.St.obj(s.O)
		for _, e := range o.Elems {
			if c.In.equal(c.St, e, c.Args[1]) {
				return ret(cBool(true))
			}
		}
		if o.Other != nil {
			for _, a := range alternatives(o.Other) {
				if t, _ := c.St.eq(a, c.Args[1]); t != no {
					return []Outcome{{Ret: []Value{cBool(true)}}, {Ret: []Value{cBool(false)}}}
				}
			}
		}
		return ret(cBool(false))
	}
	m["slices.Clone"] = func(c *CallCtx) []Outcome {
		v := c.In.asSlice(c.St, c.Args[0], c.Sig.Params().At(0).Type())
		s, ok := v.(VSlice)
		if !ok {
			return ret(v)
		}
		n := c.St.obj(s.O).clone()
		n.Alias, n.Mark, n.Capped = "", "", false
		return ret(VSlice{c.St.freshObj(c.Pre, n)})
	}

	// ---- sync
	m["(*sync.Once).Do"] = func(c *CallCtx) []Outcome {
		p, ok := c.Args[0].(VPtr)
		if !ok {
			return nil
		}
		if o := c.St.heap[p.O]; o != nil {
			if _, done := o.Cells[p.P+"!done"]; done {
				return ret()
			}
		}
		if c.St.heap[p.O] != nil {
			c.St.mut(p.O).Cells[p.P+"!done"] = cBool(true)
		}
		f := c.Args[1]
		return []Outcome{{Script: callOnce, Loc: map[string]Value{"f": f}}}
	}
	lk := func(kind string) modelFn {
		return func(c *CallCtx) []Outcome {
			var p Value
			if len(c.Args) > 0 {
				p = c.Args[0]
			} else {
				p = c.Recv
			}
			c.In.event(c.St, kind, c.Pos, p)
			return ret()
		}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		m[t+".Lock"] = lk("lock")
		m[t+".Unlock"] = lk("unlock")
		m[t+".RLock"] = lk("rlock")
		m[t+".RUnlock"] = lk("runlock")
	}
	m["(sync.Locker).Lock"] = lk("lock")
	m["(sync.Locker).Unlock"] = lk("unlock")
	for _, k := range []string{"Add", "Done", "Wait"} {
		kk := strings.ToLower(k)
		m["(*sync.WaitGroup)."+k] = func(c *CallCtx) []Outcome {
			c.In.event(c.St, "wg"+kk, c.Pos, c.Args[0])
			return ret()
		}
	}

	// ---- context
	bg := func(c *CallCtx) []Outcome {
		return ret(&VSym{ID: "ctx:background", T: c.resT(0), Distinct: true, NonNil: true})
	}
	m["context.Background"], m["context.TODO"] = bg, bg
	m["context.WithValue"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "ctxval", Args: []Value{c.Args[0], c.Args[1], c.Args[2]}, T: c.resT(0), NonNil: true})
	}
	m["context.WithoutCancel"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "ctxnocancel", Args: []Value{c.Args[0]}, T: c.resT(0), NonNil: true})
	}
	for _, k := range []string{"context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause"} {
		m[k] = func(c *CallCtx) []Outcome {
			id := c.sym("cancel", nil)
			return ret(&VApp{F: "ctxcancel", Args: []Value{c.Args[0], id}, T: c.resT(0), NonNil: true}, &VNative{Name: "cancel", B: []Value{id}})
		}
	}
	m["native:cancel"] = func(c *CallCtx) []Outcome {
		id := c.FnV.(*VNative).B[0]
		c.In.event(c.St, "cancel", c.Pos, id)
		return ret()
	}
	m["(context.Context).Value"] = func(c *CallCtx) []Outcome {
		v := c.Recv
		for {
			a, ok := v.(*VApp)
			if !ok {
				break
			}
			switch a.F {
			case "ctxval":
				if c.In.equal(c.St, a.Args[1], c.Args[0]) {
					return ret(a.Args[2])
				}
				v = a.Args[0]
				continue
			case "ctxcancel", "ctxnocancel":
				v = a.Args[0]
				continue
			}
			break
		}
		if s, ok := v.(*VSym); ok && s.ID == "ctx:background" {
			return ret(VNil{})
		}
		return ret(&VApp{F: "ctxlookup", Args: []Value{v, c.Args[0]}, T: c.resT(0)})
	}
	m["(context.Context).Done"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "ctxdone", Args: []Value{c.Recv}, T: c.resT(0), NonNil: true})
	}
	m["(context.Context).Err"] = func(c *CallCtx) []Outcome {
		return ret(c.sym("ctxerr", c.resT(0)))
	}

	// ---- time, ids
	m["time.Now"] = func(c *CallCtx) []Outcome {
		s := c.sym("now", c.resT(0))
		s.NonNil = true
		return ret(s)
	}
	m["github.com/rs/xid.New"] = func(c *CallCtx) []Outcome {
		s := c.sym("xid", c.resT(0))
		s.NonNil, s.Distinct = true, true
		return ret(s)
	}
	m["(github.com/rs/xid.ID).String"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "idstr", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	pure("time.Since", "time.Until", "(time.Time).Add", "(time.Time).Sub", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UTC", "(time.Time).Truncate", "(time.Duration).Seconds",
		"(time.Time).AddDate", "(time.Time).Format", "strconv.Itoa", "strconv.FormatInt", "unicode/utf8.RuneCountInString")
	m["(time.Time).IsZero"] = func(c *CallCtx) []Outcome {
		if isZeroValue(c.Args[0]) {
			return ret(cBool(true))
		}
		if l := lin(c.Args[0]); l["now"] == 1 {
			return ret(cBool(false))
		}
		if s, ok := c.Args[0].(*VStruct); ok && len(s.F) > 1 {
			z := zero(s.T.Underlying().(*types.Struct).Field(0).Type())
			z2 := zero(s.T.Underlying().(*types.Struct).Field(1).Type())
			return ret(cBool(c.In.equal(c.St, s.F[0], z) && c.In.equal(c.St, s.F[1], z2)))
		}
		if a, ok := c.Args[0].(*VApp); ok && a.F == "schednext" {
			return ret(cBool(false))
		}
		return ret(&VApp{F: "(time.Time).IsZero", Args: c.Args, T: c.resT(0)})
	}
	m["(time.Time).Before"] = func(c *CallCtx) []Outcome {
		return ret(&VPred{Op: "lt", X: c.Args[0], Y: c.Args[1]})
	}
	m["(time.Time).After"] = func(c *CallCtx) []Outcome {
		return ret(&VPred{Op: "lt", X: c.Args[1], Y: c.Args[0]})
	}
	m["(time.Time).Equal"] = func(c *CallCtx) []Outcome {
		if a, ok := c.Args[0].(*VStruct); ok {
			if b, ok := c.Args[1].(*VStruct); ok && len(a.F) > 1 && len(b.F) > 1 {
				return ret(cBool(c.In.equal(c.St, a.F[0], b.F[0]) && c.In.equal(c.St, a.F[1], b.F[1])))
			}
		}
		t, p := c.St.eq(c.Args[0], c.Args[1])
		if t != unknown {
			return ret(cBool(t == yes))
		}
		return ret(p)
	}
	m["time.NewTicker"] = func(c *CallCtx) []Outcome {
		o := &Obj{Kind: "cells", T: c.resT(0).(*types.Pointer).Elem(), Cells: map[string]Value{".C": &VSym{ID: "tick", NonNil: true, T: c.resT(0)}}, Opaque: true}
		return ret(VPtr{c.St.freshObj("ticker:"+c.Pre, o), ""})
	}
	tick := func(c *CallCtx) []Outcome {
		return ret(&VSym{ID: "tick", NonNil: true, T: c.resT(0)})
	}
	m["time.Tick"], m["time.After"] = tick, tick
	m["time.NewTimer"] = m["time.NewTicker"]
	m["(*time.Timer).Stop"] = noopFresh
	m["(*time.Timer).Reset"] = noopFresh
	m["(*time.Ticker).Stop"] = func(c *CallCtx) []Outcome { return ret() }
	m["(*time.Ticker).Reset"] = func(c *CallCtx) []Outcome { return ret() }
	m["time.Sleep"] = func(c *CallCtx) []Outcome {
		// a worker that sleeps between its turns waits as one with a ticker does
		if c.Args[0].K() == (&VSym{ID: "env:runinterval"}).K() {
			c.In.event(c.St, "recv", c.Pos, &VSym{ID: "tick", NonNil: true})
			if c.St.Get(haltKey) != "" {
				panic(stopReq{})
			}
		}
		return ret()
	}

	// ---- encoding
	m["encoding/json.Marshal"] = func(c *CallCtx) []Outcome {
		return c.orErr("json.Marshal", &VApp{F: "json", Args: []Value{jsonView(c.St, c.Args[0])}, T: c.resT(0), NonNil: true})
	}
	m["encoding/json.Unmarshal"] = func(c *CallCtx) []Outcome {
		out := c.orErr("json.Unmarshal")
		dst := c.Args[1]
		src := c.Args[0]
		if p, ok := stripIface(dst).(VPtr); ok && p.P == "" && c.St.heap[p.O] != nil {
			if a, ok := src.(*VApp); ok && a.F == "json" && len(a.Args) == 1 {
				if s, ok := a.Args[0].(*VStruct); ok && types.Identical(s.T, c.St.heap[p.O].T) && plainStruct(s.T) {
					// what was encoded from this type is decoded into it again
					u := s.T.Underlying().(*types.Struct)
					out[0].Do = func(st *State) {
						for i := 0; i < u.NumFields(); i++ {
							if jsonField(u, i) {
								st.storeCell(p.O, "."+u.Field(i).Name(), u.Field(i).Type(), s.F[i])
							}
						}
					}
					return out[:1]
				}
			}
		}
		out[0].Do = func(s *State) {
			if p, ok := stripIface(dst).(VPtr); ok && s.heap[p.O] != nil {
				s.storeCellRaw(p.O, p.P, &VApp{F: "unjson", Args: []Value{src}})
			}
		}
		return out
	}

	// ---- logging
	extPrefixes = append(extPrefixes,
		prefixModel{"(github.com/go-logr/logr.Logger).", func(c *CallCtx) []Outcome {
			c.In.event(c.St, "log", c.Pos, append([]Value{cStr(c.Key[strings.LastIndex(c.Key, ".")+1:])}, c.Args[1:]...)...)
			if c.Res.Len() == 1 {
				return ret(c.Args[0])
			}
			return ret()
		}},
		prefixModel{"log.", noopFresh}, prefixModel{"github.com/go-logr/", noopFresh},
		prefixModel{"strings.", func(c *CallCtx) []Outcome {
			if o := foldStrings(c); o != nil {
				return o
			}
			return pureApp("")(c)
		}}, prefixModel{"strconv.", pureApp("")}, prefixModel{"unicode", pureApp("")},
		prefixModel{"(time.", pureApp("")}, prefixModel{"math.", pureApp("")}, prefixModel{"math/bits.", pureApp("")},
		prefixModel{"encoding/hex.Encode", pureApp("")}, prefixModel{"path.", pureApp("")}, prefixModel{"runtime/debug.", noopFresh},
	)

	// ---- retry-go
	for _, k := range []string{"Attempts", "Delay", "DelayType", "LastErrorOnly", "RetryIf", "Context", "MaxDelay", "MaxJitter", "OnRetry"} {
		kk := k
		m["github.com/avast/retry-go."+k] = func(c *CallCtx) []Outcome {
			return ret(&VApp{F: "retry:" + kk, Args: c.Args, T: c.resT(0), NonNil: true})
		}
	}
	m["github.com/avast/retry-go.Do"] = func(c *CallCtx) []Outcome {
		loc := map[string]Value{"f": c.Args[0]}
		es, _ := c.In.variadic(c.St, c.Args[1], nil)
		for _, e := range es {
			if a, ok := e.(*VApp); ok {
				switch a.F {
				case "retry:RetryIf":
					loc["if"] = a.Args[0]
				case "retry:LastErrorOnly":
					loc["last"] = a.Args[0]
				}
			}
		}
		return []Outcome{{Script: retryDo, Loc: loc}}
	}

	// ---- cron, schema
	m["github.com/robfig/cron.Parse"] = func(c *CallCtx) []Outcome {
		return c.orErr("cron.Parse", &VApp{F: "schedule", Args: c.Args, T: c.resT(0), NonNil: true})
	}
	m["(github.com/robfig/cron.Schedule).Next"] = func(c *CallCtx) []Outcome {
		return ret(&VApp{F: "schednext", Args: []Value{c.Recv, c.Args[0]}, T: c.resT(0), NonNil: true})
	}
	m["github.com/robfig/cron.New"] = func(c *CallCtx) []Outcome {
		return ret(VPtr{c.St.freshObj("cron:"+c.Pre, &Obj{Kind: "cells", T: c.resT(0).(*types.Pointer).Elem(), Cells: map[string]Value{}, Opaque: true}), ""})
	}
	m["(*github.com/robfig/cron.Cron).AddFunc"] = func(c *CallCtx) []Outcome {
		out := c.orErr("cron.AddFunc")
		c.In.event(c.St, "cronadd", c.Pos, c.Args[1], c.Args[2])
		return out
	}
	m["(*github.com/robfig/cron.Cron).Start"] = func(c *CallCtx) []Outcome {
		c.In.event(c.St, "cronstart", c.Pos)
		return ret()
	}
	m["gorm.io/gorm/schema.Parse"] = func(c *CallCtx) []Outcome {
		out := c.orErr("schema.Parse", &VSym{ID: "schema@" + c.Pre, T: c.resT(0), NonNil: true})
		return out
	}
	initReflect()
	initGorm()
}

func noopFresh(c *CallCtx) []Outcome {
	var vs []Value
	for i := 0; i < c.Res.Len(); i++ {
		vs = append(vs, &VSym{ID: "lib:" + c.Key, T: c.resT(i), NonNil: true})
	}
	return ret(vs...)
}

// jsonView is what the encoder sees of a value: the encoded fields of a plain
// struct, the value itself otherwise.
func jsonView(st *State, v Value) Value {
	x := stripIface(v)
	if p, ok := x.(VPtr); ok && p.P == "" && st.heap[p.O] != nil && !st.heap[p.O].Opaque && st.heap[p.O].T != nil && plainStruct(st.heap[p.O].T) {
		x = st.loadCell(p.O, "", st.heap[p.O].T)
	}
	s, ok := x.(*VStruct)
	if !ok || !plainStruct(s.T) {
		return x
	}
	u := s.T.Underlying().(*types.Struct)
	r := &VStruct{T: s.T}
	for i := range s.F {
		f := s.F[i]
		if !jsonField(u, i) {
			f = zero(u.Field(i).Type())
		}
		r.F = append(r.F, f)
	}
	return r
}

func jsonField(u *types.Struct, i int) bool {
	return u.Field(i).Exported() && reflect.StructTag(u.Tag(i)).Get("json") != "-"
}

// plainStruct: a struct of the module of strings, numbers and bytes whose encoding is
// the default one and distinguishes its fields.
func plainStruct(t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok || isEnvType(t) {
		return false
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m); o != nil {
			return false
		}
	}
	names := map[string]bool{}
	for i := 0; i < u.NumFields(); i++ {
		if !jsonField(u, i) {
			continue
		}
		n := strings.ToLower(u.Field(i).Name())
		if tag := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ","); tag[0] != "" {
			n = strings.ToLower(tag[0])
		}
		if u.Field(i).Embedded() || names[n] {
			return false
		}
		names[n] = true
		switch f := u.Field(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if b, ok := f.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// storeCellRaw overwrites a cell (and everything below it) with one opaque value.
func (st *State) storeCellRaw(id, path string, v Value) {
	o := st.mut(id)
	for k := range o.Cells {
		if k == path || strings.HasPrefix(k, path+".") || strings.HasPrefix(k, path+"[") {
			delete(o.Cells, k)
		}
	}
	o.Cells[path] = v
}

var fnVoid = types.NewSignatureType(nil, nil, nil, nil, nil, false)
var errTypeT = types.Universe.Lookup("error").Type()
var fnErr = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", errTypeT)), false)
var fnErrBool = types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", errTypeT)), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)

var callOnce = &Script{Name: "once.Do", Steps: []stepFn{
	func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallValue(st, fr.loc["f"], fnVoid, "f")
	},
}}

type stepFn = func(in *Interp, st *State, fr *Frame) []*State

// retry.Do: call f until it succeeds, the condition refuses or the attempts are used up.
var retryDo = &Script{Name: "retry.Do", Steps: []stepFn{
	func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallValue(st, fr.loc["f"], fnErr, "f")
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		e := fr.loc["ret"]
		if in.isNil(st, e) {
			fr.loc["result"] = &VTuple{[]Value{VNil{}}}
			fr.pc = 99
			return nil
		}
		fr.loc["err"] = e
		in.event(st, "retryfail", in.curPos(st), e)
		if fr.loc["if"] == nil {
			fr.loc["ret"] = cBool(true)
			return nil
		}
		return in.CallValue(st, fr.loc["if"], fnErrBool, "if", e)
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		e := fr.loc["err"]
		again := in.truth(st, fr.loc["ret"])
		in.event(st, "retryif", in.curPos(st), e, cBool(again))
		var last Value = e
		if b, ok := constBool(fr.loc["last"]); fr.loc["last"] == nil || (ok && !b) {
			last = &VApp{F: "new:join:retry", Args: []Value{e}, T: errTypeT, NonNil: true}
		}
		give := st
		var res []*State
		if again {
			s := st.clone()
			f := s.top()
			f.pc = 0
			delete(f.loc, "ret")
			delete(f.loc, "err")
			s.note(0, "retry")
			in.event(s, "retryagain", in.curPos(s))
			res = append(res, s)
		}
		g := give.clone()
		gf := g.top()
		gf.loc["result"] = &VTuple{[]Value{last}}
		gf.pc = 99
		return append(res, g)
	},
}}

func (in *Interp) pureBool2(outer, s *State, fn Value, args ...Value) bool {
	ends := in.CallPure(s, fn, args)
	if len(ends) == 0 {
		panic(stopReq{})
	}
	if len(ends) > 1 {
		for _, e := range ends {
			for k, f := range e.facts {
				if _, in2 := outer.facts[k]; !in2 {
					panic(forkReq{f.p})
				}
			}
		}
		return in.truth(outer, ends[0].GetV("ret").(*VTuple).V[0])
	}
	return in.truth(outer, ends[0].GetV("ret").(*VTuple).V[0])
}

func fmtT(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }
