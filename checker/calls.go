package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callReq is a call whose operands are evaluated.
type callReq struct {
	fn      Value       // function value, nil for an interface method
	builtin string      // name of a builtin
	recv    Value       // receiver of an interface method
	method  *types.Func // interface method
	args    []Value
	argT    []types.Type
	sig     *types.Signature
	pos     token.Pos
	site    string // identifies the call site
	kind    int
	siteV   ssa.Value
}

func (in *Interp) reqOf(st *State, cc *ssa.CallCommon, fn, recv Value, args []Value, ins ssa.Instruction, kind int) *callReq {
	r := &callReq{fn: fn, recv: recv, args: args, sig: cc.Signature(), pos: ins.Pos(), kind: kind}
	if r.pos == token.NoPos {
		r.pos = cc.Pos()
	}
	f := st.top()
	if kind == retDefer {
		r.site = fmt.Sprintf("d%d@%s", ins.Pos(), f.fn.Name())
	} else {
		r.site = strconv.Itoa(f.blk.Index) + "." + strconv.Itoa(f.idx)
	}
	if cc.IsInvoke() {
		r.method = cc.Method
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		r.builtin = b.Name()
	}
	for _, a := range cc.Args {
		r.argT = append(r.argT, a.Type())
	}
	if v, ok := ins.(ssa.Value); ok {
		r.siteV = v
	}
	return r
}

func (in *Interp) doCall(st *State, cc *ssa.CallCommon, x *ssa.Call, kind int) []*State {
	var fn, recv Value
	if cc.IsInvoke() {
		recv = in.val(st, cc.Value)
	} else {
		fn = in.val(st, cc.Value)
	}
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = in.val(st, a)
	}
	return in.call(st, in.reqOf(st, cc, fn, recv, args, x, kind))
}

func (in *Interp) dispatch(st *State, cc *ssa.CallCommon, fn, recv Value, args []Value, site ssa.Instruction, kind int) []*State {
	return in.call(st, in.reqOf(st, cc, fn, recv, args, site, kind))
}

func (in *Interp) prefix(st *State, site string) string {
	f := st.top()
	n := ""
	if f.fn != nil {
		n = f.fn.Name()
	} else if f.script != nil {
		n = f.script.Name
	}
	return f.ctx + ":" + n + "." + site
}

func (in *Interp) ctxOf(st *State, r *callReq, key string) *CallCtx {
	return &CallCtx{In: in, St: st, Key: key, Recv: r.recv, FnV: r.fn, Args: r.args, Res: r.sig.Results(), Sig: r.sig, Pos: r.pos, Pre: in.prefix(st, r.site), SiteV: r.siteV, Method: r.method}
}

func (in *Interp) call(st *State, r *callReq) []*State {
	if r.builtin != "" {
		return in.builtin(st, r)
	}
	if r.method != nil {
		switch v := r.recv.(type) {
		case VNil:
			return in.rtPanic(st, r.pos, "call of a method of a nil interface")
		case *VIface:
			if isEnvType(v.T) {
				return in.external(st, r, r.method.FullName())
			}
			fn := in.P.Prog.LookupMethod(v.T, r.method.Pkg(), r.method.Name())
			if fn != nil && fn.Blocks == nil {
				in.P.Prog.MethodSets.MethodSet(v.T)
			}
			if fn != nil {
				rr := *r
				rr.method, rr.recv = nil, nil
				rr.fn = &VFunc{Fn: fn}
				rr.args = append([]Value{v.V}, r.args...)
				return in.callFunc(st, &rr, fn, nil)
			}
		default:
			if t, _ := st.isNil(r.recv); t == yes {
				return in.rtPanic(st, r.pos, "call of a method of a nil interface")
			}
		}
		return in.external(st, r, r.method.FullName())
	}
	switch v := r.fn.(type) {
	case *VFunc:
		return in.callFunc(st, r, v.Fn, v.B)
	case *VNative:
		if strings.HasPrefix(v.Name, "bound:") {
			// method value of an opaque receiver
			return in.external(st, r, v.Name)
		}
		return in.external(st, r, "native:"+v.Name)
	case VNil:
		return in.rtPanic(st, r.pos, "call of a nil function")
	}
	if t, _ := st.isNil(r.fn); t == yes {
		return in.rtPanic(st, r.pos, "call of a nil function")
	}
	return in.external(st, r, "dyn:"+typeKey(r.sig))
}

func (in *Interp) callFunc(st *State, r *callReq, fn *ssa.Function, bind []Value) []*State {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	hasBody := fn.Blocks != nil && (in.P.inModule(fn) || fn.Synthetic != "" && fn.Pkg == nil)
	if _, modelled := extModels[name]; fn.Blocks != nil && !modelled && in.P.std(fn) {
		hasBody = true
	} else if modelled && in.P.std(fn) {
		hasBody = false
	}
	if !hasBody {
		return in.external(st, r, name)
	}
	c := in.ctxOf(st, r, name)
	c.Fn = fn
	if out := in.H.Enter(c); out != nil {
		return in.outcomes(st, r, c, out)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= in.Depth {
		in.Cut[name]++
		st.Set(taintKey, "recursion of "+name)
		var vs []Value
		for i := 0; i < r.sig.Results().Len(); i++ {
			vs = append(vs, zero(r.sig.Results().At(i).Type()))
		}
		return in.outcomes(st, r, c, []Outcome{{Ret: vs}})
	}
	st.note(r.pos, "call "+short(name))
	return in.pushFrame(st, fn, bind, r.args, r.kind, r.pos, r.site)
}

func (in *Interp) external(st *State, r *callReq, key string) []*State {
	c := in.ctxOf(st, r, key)
	in.Sites[key]++
	out := in.H.Call(c)
	if out == nil {
		if fn := in.P.shim[key]; fn != nil {
			return in.pushFrame(st, fn, nil, r.args, r.kind, r.pos, r.site)
		}
	}
	if out == nil {
		if m, ok := extModels[key]; ok {
			out = m(c)
		}
	}
	if out == nil {
		for _, p := range extPrefixes {
			if strings.HasPrefix(key, p.prefix) {
				out = p.f(c)
				break
			}
		}
	}
	if out == nil {
		in.Unknown[key]++
		st.Set(taintKey, key)
		out = c.Fresh()
	}
	return in.outcomes(st, r, c, out)
}

// Fresh is the default result of an unmodelled call: unknown values; memory
// handed out by pointer is forgotten.
func (c *CallCtx) Fresh() []Outcome {
	for _, a := range c.Args {
		c.havoc(a)
	}
	var vs []Value
	for i := 0; i < c.Res.Len(); i++ {
		vs = append(vs, c.St.freshSym(c.Pre+":r"+strconv.Itoa(i), c.Res.At(i).Type()))
	}
	return []Outcome{{Ret: vs}}
}

// havoc forgets what a pointer argument points to.
func (c *CallCtx) havoc(a Value) {
	if p, ok := stripIface(a).(VPtr); ok && p.P == "" {
		if o := c.St.heap[p.O]; o != nil && o.Kind == "cells" && !strings.HasPrefix(p.O, "H:") && !strings.HasPrefix(p.O, "G:") {
			m := c.St.mut(p.O)
			m.Cells = map[string]Value{}
			m.Opaque = true
		}
	}
}

func (in *Interp) outcomes(st *State, r *callReq, c *CallCtx, out []Outcome) []*State {
	var res []*State
	for i := range out {
		o := &out[i]
		s := st
		if i < len(out)-1 {
			s = st.clone()
			// frames below the top may be shared; they are cloned when resumed
		}
		if o.Note != "" {
			s.note(r.pos, o.Note)
		}
		if o.Do != nil {
			o.Do(s)
		}
		switch {
		case o.Stop:
			continue
		case o.Script != nil:
			res = append(res, in.pushScript(s, o.Script, o.Loc, r.kind, r.pos, r.site)...)
		case o.Panic != nil:
			if a, ok := o.Panic.(*VApp); ok && strings.HasPrefix(a.F, "runtime:") {
				s.note(r.pos, "run-time panic: "+strings.TrimPrefix(a.F, "runtime:"))
				in.event(s, "rtpanic", r.pos, cStr(strings.TrimPrefix(a.F, "runtime:")))
			}
			res = append(res, in.unwind(s, o.Panic)...)
		default:
			res = append(res, in.finishCall(s, r.kind, o.Ret)...)
		}
	}
	return res
}

// CallValue makes a script step call a function value; the result is left in loc["ret"].
func (in *Interp) CallValue(st *State, fn Value, sig *types.Signature, site string, args ...Value) []*State {
	return in.call(st, &callReq{fn: fn, args: args, sig: sig, kind: retScript, site: site, pos: in.curPos(st)})
}

// CallFn makes a script step call a module function.
func (in *Interp) CallFn(st *State, fn *ssa.Function, site string, args ...Value) []*State {
	return in.call(st, &callReq{fn: &VFunc{Fn: fn}, args: args, sig: fn.Signature, kind: retScript, site: site, pos: in.curPos(st)})
}

// CallMethod makes a script step call a method of a value with a known type.
func (in *Interp) CallMethod(st *State, recv Value, t types.Type, pkg *types.Package, name, site string, args ...Value) []*State {
	fn := in.P.Prog.LookupMethod(t, pkg, name)
	if fn == nil {
		panic(fmt.Sprintf("no method %s on %s", name, t))
	}
	return in.call(st, &callReq{fn: &VFunc{Fn: fn}, args: append([]Value{recv}, args...), sig: fn.Signature, kind: retScript, site: site, pos: in.curPos(st)})
}

func sliceLenInfo(st *State, v Value) (o *Obj, id string) {
	switch s := v.(type) {
	case VSlice:
		return st.obj(s.O), s.O
	case VMap:
		return st.obj(s.O), s.O
	case VChan:
		return st.obj(s.O), s.O
	}
	return nil, ""
}

func (in *Interp) lenOf(st *State, v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v = in.asSlice(st, v, t)
	case *types.Map:
		v = in.asMap(st, v, t)
	case *types.Array:
		return cInt(int(u.Len()))
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return cInt(int(a.Len()))
		}
	}
	switch x := v.(type) {
	case VNil:
		return cInt(0)
	case VConst:
		if s, ok := constString(v); ok {
			return cInt(len(s))
		}
	case VSlice, VMap:
		o, id := sliceLenInfo(st, v)
		if o == nil {
			break
		}
		for i := 0; o.LenOf != "" && i < 5; i++ {
			p := st.obj(o.LenOf)
			if p == nil {
				break
			}
			o, id = p, o.LenOf
		}
		if o.Other == nil && o.Slots == nil {
			return cInt(len(o.Elems))
		}
		return VLen{id, 0}
	case VChan:
		_ = x
		return st.freshSym("chanlen:"+x.O, types.Typ[types.Int])
	}
	return &VApp{F: "len", Args: []Value{v}, T: types.Typ[types.Int], NonNil: true}
}

func (in *Interp) builtin(st *State, r *callReq) []*State {
	ret := func(vs ...Value) []*State { return in.finishCall(st, r.kind, vs) }
	a := func(i int) Value { return r.args[i] }
	switch r.builtin {
	case "len":
		if _, ok := r.argT[0].Underlying().(*types.Map); ok {
			in.event(st, "mapread", r.pos, a(0))
		}
		return ret(in.lenOf(st, a(0), r.argT[0]))
	case "cap":
		v := in.lenOf(st, a(0), r.argT[0])
		if _, ok := r.argT[0].Underlying().(*types.Slice); ok {
			return ret(st.freshSym(in.prefix(st, r.site)+":cap", types.Typ[types.Int]))
		}
		return ret(v)
	case "append":
		t := r.sig.Results().At(0).Type()
		if len(r.args) == 1 {
			return ret(a(0))
		}
		if b, ok := r.argT[1].Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ret(st.freshSym(in.prefix(st, r.site), t))
		}
		in.event(st, "append", r.pos, a(0), a(1))
		return ret(in.appendOp(st, in.prefix(st, r.site), t, a(0), a(1)))
	case "copy":
		in.copyOp(st, a(0), a(1), r.argT[0])
		return ret(st.freshSym(in.prefix(st, r.site), types.Typ[types.Int]))
	case "delete":
		m := in.asMap(st, a(0), r.argT[0])
		in.event(st, "mapwrite", r.pos, m, a(1))
		if mv, ok := m.(VMap); ok && st.obj(mv.O) != nil {
			o := st.obj(mv.O)
			i := in.mapFind(st, o, a(1))
			if i >= 0 {
				o = st.mut(mv.O)
				o.Keys = append(append([]Value{}, o.Keys[:i]...), o.Keys[i+1:]...)
				o.Elems = append(append([]Value(nil), o.Elems[:i]...), o.Elems[i+1:]...)
				if strings.HasPrefix(mv.O, "G:") || in.baseHas(mv.O) {
					o.Mark = "mod"
				}
			}
			if o.Other != nil && !hasSum(a(1)) {
				st.addFact(&VPred{Op: "in", X: mv, Y: a(1)}, false)
			}
		}
		return ret()
	case "clear":
		if _, id := sliceLenInfo(st, a(0)); id != "" {
			o := st.mut(id)
			o.Elems, o.Keys, o.Other, o.OtherKey, o.NonEmpty = nil, []Value{}, nil, nil, false
		}
		return ret()
	case "close":
		if c, ok := a(0).(VChan); ok && st.obj(c.O) != nil {
			st.mut(c.O).Closed = true
		}
		in.event(st, "close", r.pos, a(0))
		return ret()
	case "recover":
		n := len(st.frames)
		f := st.top()
		if f.isDefer && n >= 2 {
			p := st.frames[n-2]
			if p.panicking != nil && !p.recovered {
				p = p.clone()
				v := p.panicking
				p.recovered = true
				st.frames = append([]*Frame(nil), st.frames...)
				st.frames[n-2] = p
				st.note(r.pos, "recover")
				return ret(v)
			}
		}
		return ret(VNil{})
	case "print", "println":
		return ret()
	case "min", "max":
		return ret(&VApp{F: r.builtin, Args: r.args, T: r.sig.Results().At(0).Type()})
	case "ssa:wrapnilchk":
		return ret(a(0))
	}
	if r.sig.Results().Len() == 0 {
		return ret()
	}
	return ret(st.freshSym(in.prefix(st, r.site), r.sig.Results().At(0).Type()))
}

func (in *Interp) copyOp(st *State, dst, src Value, t types.Type) {
	d, ok := dst.(VSlice)
	if !ok || st.obj(d.O) == nil {
		return
	}
	src = in.asSlice(st, src, t)
	s, ok := src.(VSlice)
	if !ok || st.obj(s.O) == nil {
		return
	}
	do, so := st.mut(d.O), st.obj(s.O)
	if do.LenOf != "" || (do.Other == nil && so.Other == nil && len(do.Elems) == len(so.Elems)) {
		do.Elems = append([]Value(nil), so.Elems...)
		do.Other = so.Other
		do.NonEmpty = so.NonEmpty
		do.Slots, do.LenOf = nil, ""
		return
	}
	if do.Other == nil && so.Other == nil {
		for i := range do.Elems {
			if i < len(so.Elems) {
				do.Elems[i] = so.Elems[i]
			}
		}
		return
	}
	do.Slots, do.LenOf = nil, ""
	do.Elems = append([]Value(nil), so.Elems...)
	do.Other = so.Other
}

func (in *Interp) doGo(st *State, x *ssa.Go) []*State {
	var fn, recv Value
	cc := &x.Call
	if cc.IsInvoke() {
		recv = in.val(st, cc.Value)
	} else {
		fn = in.val(st, cc.Value)
	}
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = in.val(st, a)
	}
	f := st.top()
	r := in.reqOf(st, cc, fn, recv, args, x, retScript)
	c := in.ctxOf(st, r, "go")
	f.idx++
	in.Sites["go"]++
	in.event(st, "go", x.Pos())
	mode := in.H.Go(c)
	st.note(x.Pos(), "go")
	switch mode {
	case goSkip:
		return []*State{st}
	case goNow:
		rr := *r
		sc := &Script{Name: "goroutine", Steps: []func(in *Interp, st *State, fr *Frame) []*State{
			func(in *Interp, st *State, fr *Frame) []*State {
				in.event(st, "gostart", x.Pos())
				q := rr
				return in.call(st, &q)
			},
			func(in *Interp, st *State, fr *Frame) []*State { in.event(st, "goend", x.Pos()); return nil },
		}, OnPanic: func(in *Interp, st *State, fr *Frame) {
			// nothing recovers a panic that leaves a goroutine: the process ends here
			in.event(st, "crash", x.Pos())
			panic(stopReq{})
		}}
		return in.pushScript(st, sc, nil, retDiscard, x.Pos(), r.site)
	}
	return []*State{st}
}

const (
	goSkip = iota
	goNow
)

// CallPure evaluates a module function on its own and lists the results.
func (in *Interp) CallPure(st *State, fn Value, args []Value) []*State {
	sub := NewInterp(in.P, in.H)
	sub.base = in.base
	sub.nested = true
	sub.Depth = in.Depth
	sub.MaxStates = 5000
	sub.ctxs = map[string]string{}
	s := st.clone()
	s.frames = nil
	v, ok := fn.(*VFunc)
	if !ok || v.Fn.Blocks == nil {
		return nil
	}
	f := &Frame{fn: v.Fn, regs: map[ssa.Value]Value{}, bind: v.B, ctx: "pure:" + v.Fn.Name(), kind: retDiscard, blk: v.Fn.Blocks[0]}
	for i, p := range v.Fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	s.frames = []*Frame{f}
	// keep what the caller still needs alive
	s.keepAll = true
	sub.Run(s)
	for k := range sub.Funcs {
		in.Funcs[k] = true
	}
	for k := range sub.Blocks {
		in.Blocks[k] = true
	}
	for k, n := range sub.Stopped {
		if in.Stopped == nil {
			in.Stopped = map[string]int{}
		}
		in.Stopped[k] += n
	}
	if sub.Incomplete != "" {
		in.Incomplete = "nested: " + sub.Incomplete
	}
	for k, n := range sub.Unknown {
		in.Unknown[k] += n
		st.Set(taintKey, k)
	}
	for k, n := range sub.Cut {
		in.Cut[k] += n
		st.Set(taintKey, "recursion of "+k)
	}
	return sub.ends
}
