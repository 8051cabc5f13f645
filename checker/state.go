package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract heap object.
type Obj struct {
	Kind   string // cells, slice, map, chan
	T      types.Type
	Cells  map[string]Value
	Opaque bool // cells appear on demand as symbols
	Sum    bool // stands for several objects: weak updates

	// slice, chan, map
	Elems    []Value // tracked elements (map: values)
	Keys     []Value // map: tracked keys
	Other    Value   // template of the other elements (map: value), nil if there are none
	OtherKey Value
	NonEmpty bool
	Slots    map[string]int // position in another slice -> index in Elems (make+index store)
	LenOf    string         // slice made with the length of that slice
	Alias    string         // the backing array may be shared with this object
	Capped   bool           // len == cap, an append reallocates
	Closed   bool
	Mark     string // free for models (sorted by, ...)
	cached   string
}

func (o *Obj) clone() *Obj {
	c := *o
	c.cached = ""
	if o.Cells != nil {
		c.Cells = make(map[string]Value, len(o.Cells))
		for k, v := range o.Cells {
			c.Cells[k] = v
		}
	}
	c.Elems = append([]Value(nil), o.Elems...)
	c.Keys = append([]Value(nil), o.Keys...)
	if o.Slots != nil {
		c.Slots = map[string]int{}
		for k, v := range o.Slots {
			c.Slots[k] = v
		}
	}
	return &c
}

func (o *Obj) key() string {
	if o.cached == "" {
		o.cached = o.makeKey()
	}
	return o.cached
}

func (o *Obj) makeKey() string {
	var b strings.Builder
	b.WriteString(o.Kind)
	if o.Opaque {
		b.WriteString("?")
	}
	if o.Sum {
		b.WriteString("*")
	}
	if len(o.Cells) > 0 {
		ks := make([]string, 0, len(o.Cells))
		for k := range o.Cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString("=")
			b.WriteString(o.Cells[k].K())
			b.WriteString(";")
		}
	}
	for i, e := range o.Elems {
		if o.Keys != nil {
			b.WriteString(o.Keys[i].K())
			b.WriteString("->")
		}
		b.WriteString(e.K())
		b.WriteString(";")
	}
	if o.Other != nil {
		b.WriteString("..")
		b.WriteString(o.Other.K())
	}
	if len(o.Slots) > 0 {
		ks := []string{}
		for k, v := range o.Slots {
			ks = append(ks, k+strconv.Itoa(v))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
	}
	b.WriteString(fmt.Sprintf("|%v%v%v%s%s%s", o.NonEmpty, o.Capped, o.Closed, o.LenOf, o.Alias, o.Mark))
	return b.String()
}

type fact struct {
	p *VPred
	v bool
}

type deferred struct {
	fn   Value // VFunc etc. or nil when key is set
	cc   *ssa.CallCommon
	recv Value
	args []Value
	site ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	script *Script
	blk    *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	regs   map[ssa.Value]Value
	loc    map[string]Value
	pc     int
	bind   []Value
	defers []deferred
	ctx    string
	kind   int // retCall, retDefer, retScript
	site   token.Pos

	panicking Value
	recovered bool
	isDefer   bool
	key       string
}

const (
	retCall = iota
	retDefer
	retScript
	retDiscard
)

func (f *Frame) clone() *Frame {
	c := *f
	if f.regs != nil {
		c.regs = make(map[ssa.Value]Value, len(f.regs)+4)
		for k, v := range f.regs {
			c.regs[k] = v
		}
	}
	if f.loc != nil {
		c.loc = make(map[string]Value, len(f.loc))
		for k, v := range f.loc {
			c.loc[k] = v
		}
	}
	c.defers = append([]deferred(nil), f.defers...)
	c.key = ""
	return &c
}

// Script is a piece of analysis-provided control flow (the environment's part of
// an interaction: a root scenario, or a model of a library function that calls back).
type Script struct {
	Name    string
	Steps   []func(in *Interp, st *State, fr *Frame) []*State
	OnPanic func(in *Interp, st *State, fr *Frame)
}

type trace struct {
	prev *trace
	pos  token.Pos
	note string
}

type State struct {
	frames  []*Frame
	heap    map[string]*Obj
	facts   map[string]fact
	mon     map[string]Value
	live    map[string]bool // symbol names in use
	tr      *trace
	trLen   int
	keepAll bool // nested evaluation: nothing is collected
	many    int  // objects told apart per place of allocation, if more than usual
}

func newState() *State {
	return &State{heap: map[string]*Obj{}, facts: map[string]fact{}, mon: map[string]Value{}, live: map[string]bool{}}
}

func (st *State) clone() *State {
	c := &State{tr: st.tr, trLen: st.trLen, keepAll: st.keepAll, many: st.many}
	c.frames = append([]*Frame(nil), st.frames...)
	if n := len(c.frames); n > 0 {
		c.frames[n-1] = c.frames[n-1].clone()
	}
	c.heap = make(map[string]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		c.heap[k] = v
	}
	c.facts = make(map[string]fact, len(st.facts)+2)
	for k, v := range st.facts {
		c.facts[k] = v
	}
	c.mon = make(map[string]Value, len(st.mon)+1)
	for k, v := range st.mon {
		c.mon[k] = v
	}
	c.live = make(map[string]bool, len(st.live)+4)
	for k := range st.live {
		c.live[k] = true
	}
	return c
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, s string) {
	st.tr = &trace{st.tr, pos, s}
	st.trLen++
}

// monitor helpers

func (st *State) Get(k string) string {
	if s, ok := constString(st.mon[k]); ok && st.mon[k] != nil {
		return s
	}
	return ""
}
func (st *State) Set(k, v string) {
	if v == "" {
		delete(st.mon, k)
		return
	}
	st.mon[k] = cStr(v)
}
func (st *State) GetV(k string) Value { return st.mon[k] }
func (st *State) SetV(k string, v Value) {
	if v == nil {
		delete(st.mon, k)
		return
	}
	st.mon[k] = v
}

// naming

const maxInstances = 6

func (st *State) freshObj(prefix string, o *Obj) string {
	for n := 0; n < max(maxInstances, st.many); n++ {
		id := prefix
		if n > 0 {
			id = prefix + "#" + strconv.Itoa(n)
		}
		if _, in := st.heap[id]; !in {
			st.heap[id] = o
			return id
		}
	}
	id := prefix + "#*"
	o.Sum = true
	if old, in := st.heap[id]; in {
		// merge: keep what agrees, forget the rest
		m := old.clone()
		m.Sum = true
		if m.Kind == "cells" {
			for k, v := range m.Cells {
				if w, ok := o.Cells[k]; !ok || w.K() != v.K() {
					m.Cells[k] = &VSym{ID: "merged:" + id + k, Sum: true}
				}
			}
		}
		st.heap[id] = m
		return id
	}
	st.heap[id] = o
	return id
}

func (st *State) freshSym(prefix string, t types.Type) *VSym {
	for n := 0; n < max(maxInstances, st.many); n++ {
		id := prefix
		if n > 0 {
			id = prefix + "~" + strconv.Itoa(n)
		}
		if !st.live[id] {
			st.live[id] = true
			return &VSym{ID: id, T: t}
		}
	}
	id := prefix + "~*"
	st.live[id] = true
	return &VSym{ID: id, T: t, Sum: true}
}

func (st *State) mut(id string) *Obj {
	o := st.heap[id].clone()
	st.heap[id] = o
	return o
}

// object access

func (st *State) obj(id string) *Obj { return st.heap[id] }

// symObj is the object an opaque pointer points to.
func (st *State) symObj(v Value, elem types.Type) string {
	id := "*" + v.K()
	if _, in := st.heap[id]; !in {
		st.heap[id] = &Obj{Kind: "cells", T: elem, Cells: map[string]Value{}, Opaque: true}
	}
	return id
}

func (st *State) opaqueField(base string, t types.Type) Value {
	if s, ok := t.Underlying().(*types.Struct); ok && !extStruct(t) {
		v := &VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, st.opaqueField(base+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	st.live[base] = true
	return &VSym{ID: base, T: t}
}

func (st *State) loadCell(id, path string, t types.Type) Value {
	o := st.heap[id]
	if o == nil {
		return st.freshSym("dangling:"+id+path, t)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !extStruct(t) {
		if v, in := o.Cells[path]; in {
			return v // whole struct stored opaquely
		}
		v := &VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, st.loadCell(id, path+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		// a struct of a library of which single fields were set
		for k := range o.Cells {
			if strings.HasPrefix(k, path+".") {
				v := &VStruct{T: t}
				for i := 0; i < s.NumFields(); i++ {
					v.F = append(v.F, st.loadCell(id, path+"."+s.Field(i).Name(), s.Field(i).Type()))
				}
				return v
			}
		}
	}
	if v, in := o.Cells[path]; in {
		return v
	}
	// a prefix stored opaquely
	for p := path; p != ""; {
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		p = p[:i]
		if v, in := o.Cells[p]; in {
			if isZeroValue(v) {
				return zero(t)
			}
			return &VApp{F: "part" + path[len(p):], Args: []Value{v}, T: t}
		}
	}
	if !o.Opaque {
		return zero(t)
	}
	v := st.opaqueField(id+path, t)
	m := st.mut(id)
	m.Cells[path] = v
	return v
}

func (st *State) storeCell(id, path string, t types.Type, v Value) {
	if st.heap[id] == nil {
		return
	}
	o := st.mut(id)
	if s, ok := v.(*VStruct); ok {
		if u, ok := s.T.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				st.storeCell(id, path+"."+u.Field(i).Name(), u.Field(i).Type(), s.F[i])
			}
			return
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !extStruct(t) {
		// an opaque struct value: spread it
		for i := 0; i < u.NumFields(); i++ {
			st.storeCell(id, path+"."+u.Field(i).Name(), u.Field(i).Type(),
				&VApp{F: "part." + u.Field(i).Name(), Args: []Value{v}, T: u.Field(i).Type()})
		}
		return
	}
	if o.Sum {
		if old, in := o.Cells[path]; in && old.K() != v.K() {
			v = &VSym{ID: "merged:" + id + path, T: t, Sum: true}
		}
	}
	for k := range o.Cells {
		if strings.HasPrefix(k, path+".") || strings.HasPrefix(k, path+"[") {
			delete(o.Cells, k)
		}
	}
	o.Cells[path] = v
}

// fact handling

func (st *State) addFact(p *VPred, v bool) {
	if p.Neg {
		p, v = negPred(p), !v
	}
	st.facts[p.base()] = fact{p, v}
	if p.Op == "eq" && v {
		// an opaque slice known to be empty, etc. is handled by the callers
		return
	}
}

func (st *State) lookupFact(p *VPred) (bool, bool) {
	if f, in := st.facts[p.base()]; in {
		return f.v != p.Neg, true
	}
	if p.Op == "eq" {
		// x == c1 decides x == c2
		for _, xy := range [][2]Value{{p.X, p.Y}, {p.Y, p.X}} {
			x, y := xy[0], xy[1]
			if !isGroundVal(y) || isGroundVal(x) {
				continue
			}
			xk := x.K()
			for _, f := range st.facts {
				if f.p.Op != "eq" || !f.v {
					continue
				}
				var o Value
				if f.p.X.K() == xk {
					o = f.p.Y
				} else if f.p.Y.K() == xk {
					o = f.p.X
				} else {
					continue
				}
				if isGroundVal(o) && o.K() != y.K() {
					return p.Neg, true
				}
			}
		}
	}
	return false, false
}

const tokLSS = token.LSS

// isGroundVal: values that differ whenever their keys differ
func isGroundVal(v Value) bool {
	switch x := v.(type) {
	case VConst:
		return true
	case *VSym:
		return x.Distinct && !x.Sum
	}
	return false
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (st *State) isNil(v Value) (tri, *VPred) {
	switch x := v.(type) {
	case VNil:
		return yes, nil
	case *VSym:
		if x.Distinct || x.NonNil {
			return no, nil
		}
		if x.T != nil {
			switch x.T.Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				return no, nil
			}
		}
		p := &VPred{Op: "nil", X: v}
		if x.Sum {
			return unknown, p
		}
		if b, ok := st.lookupFact(p); ok {
			return triOf(b), nil
		}
		return unknown, p
	case *VApp:
		if x.NonNil {
			return no, nil
		}
		p := &VPred{Op: "nil", X: v}
		if b, ok := st.lookupFact(p); ok {
			return triOf(b), nil
		}
		return unknown, p
	}
	return no, nil
}

// isNew: an error or object created by a call, distinct by construction
func isNew(v Value) bool {
	a, ok := v.(*VApp)
	return ok && strings.HasPrefix(a.F, "new:")
}

func stripIface(v Value) Value {
	if i, ok := v.(*VIface); ok {
		return i.V
	}
	return v
}

func hasSum(v Value) bool {
	r := false
	walkValue(v, func(s *VSym) {
		if s.Sum {
			r = true
		}
	}, func(string) {})
	return r
}

// mayBe: an error from outside may be one of the errors of the standard library.
func mayBe(e, std *VSym) bool {
	if !strings.HasPrefix(e.ID, "err:") || !strings.HasPrefix(std.ID, "E:G:") {
		return false
	}
	path, _, _ := strings.Cut(std.ID[4:], "/")
	return strings.Count(path, ".") <= 1 && (path == std.ID[4:] || !strings.Contains(path, "."))
}

func (st *State) eq(a, b Value) (tri, *VPred) {
	if _, ok := a.(VNil); ok {
		return st.isNil(b)
	}
	if _, ok := b.(VNil); ok {
		return st.isNil(a)
	}
	ak, bk := a.K(), b.K()
	if ak == bk {
		if hasSum(a) {
			return unknown, &VPred{Op: "eq", X: a, Y: b}
		}
		return yes, nil
	}
	if ca, ok := a.(VConst); ok {
		if cb, ok := b.(VConst); ok {
			return triOf(constant.Compare(ca.V, token.EQL, cb.V)), nil
		}
	}
	ia, aok := a.(*VIface)
	ib, bok := b.(*VIface)
	if aok && bok {
		if !types.Identical(ia.T, ib.T) {
			return no, nil
		}
		return st.eq(ia.V, ib.V)
	}
	if aok != bok {
		w, o := a, b
		if bok {
			w, o = b, a
		}
		if x, ok := o.(*VSym); ok && x.Distinct {
			if y, ok := w.(*VIface).V.(*VSym); ok && y.Distinct && x.ID != y.ID {
				return no, nil
			}
			if _, ok := w.(*VIface).V.(VPtr); ok {
				return no, nil
			}
		}
	}
	if sa, ok := a.(*VSym); ok {
		if sb, ok := b.(*VSym); ok && (mayBe(sa, sb) || mayBe(sb, sa)) {
			p := &VPred{Op: "eq", X: a, Y: b}
			if v, ok := st.lookupFact(p); ok {
				return triOf(v), nil
			}
			return unknown, p
		}
	}
	for i, k := range []Value{a, b} {
		if t, str := constString([]Value{b, a}[i]); str && t == "" && isLockKey(k) {
			// any text may be a lock key, also the empty one
			p := &VPred{Op: "eq", X: k, Y: []Value{b, a}[i]}
			if v, ok := st.lookupFact(p); ok {
				return triOf(v), nil
			}
			return unknown, p
		}
	}
	if isGroundVal(a) && isGroundVal(b) {
		return no, nil
	}
	if sa, ok := a.(*VStruct); ok {
		if sb, ok := b.(*VStruct); ok && len(sa.F) == len(sb.F) {
			res := yes
			for i := range sa.F {
				r, p := st.eq(sa.F[i], sb.F[i])
				if r == no {
					return no, nil
				}
				if r == unknown {
					return unknown, p
				}
			}
			return res, nil
		}
	}
	isAddr := func(v Value) bool {
		switch v.(type) {
		case VPtr, VMap, VChan, VSlice, *VFunc, *VNative, VEPtr:
			return true
		}
		return false
	}
	if isAddr(a) && isAddr(b) {
		if oa, ok := a.(VPtr); ok {
			if ob, ok := b.(VPtr); ok && oa.O == ob.O && oa.P == ob.P {
				if o := st.heap[oa.O]; o != nil && o.Sum {
					return unknown, &VPred{Op: "eq", X: a, Y: b}
				}
				return yes, nil
			}
		}
		return no, nil
	}
	// distinct symbols differ from every symbol of another family
	if xa, ok := a.(*VSym); ok && xa.Distinct {
		if xb, ok := b.(*VSym); ok && xb.Distinct && xa.ID != xb.ID {
			return no, nil
		}
	}
	// freshly created values differ from every other value
	if na, nb := isNew(a), isNew(b); na || nb {
		if (na || isGroundVal(a)) && (nb || isGroundVal(b)) {
			return no, nil
		}
	}
	if pa, ok := a.(*VApp); ok {
		if pb, ok := b.(*VApp); ok && pa.F == "op+" && pb.F == "op+" && len(pa.Args) == 2 && len(pb.Args) == 2 && pa.Args[0].K() == pb.Args[0].K() {
			if isGroundVal(pa.Args[1]) && isGroundVal(pb.Args[1]) {
				return no, nil // x+c differs from x+d
			}
		}
		if pb, ok := b.(*VApp); ok && pa.F == pb.F && (pa.F == "op+" && len(pa.Args) == 2 && len(pb.Args) == 2 && pa.Args[1].K() == pb.Args[1].K() || strings.HasPrefix(pa.F, "conv:") && textConv(pa, pb)) {
			if t, _ := st.eq(pa.Args[0], pb.Args[0]); t == no {
				return no, nil // x+c differs from y+c
			}
		}
	}
	// text made of one format differs where a single plain argument differs
	if pa, ok := a.(*VApp); ok && pa.F == "sprintf" {
		if pb, ok := b.(*VApp); ok && pb.F == "sprintf" && len(pa.Args) == len(pb.Args) && len(pa.Args) > 1 && pa.Args[0].K() == pb.Args[0].K() {
			f, isConst := constString(stripIface(pa.Args[0]))
			d := -1
			for i := 1; i < len(pa.Args); i++ {
				if pa.Args[i].K() != pb.Args[i].K() {
					if d >= 0 {
						d = -2
						break
					}
					d = i
				}
			}
			if d > 0 && isConst && strings.Count(f, "%") == len(pa.Args)-1 {
				if t, _ := st.eq(pa.Args[d], pb.Args[d]); t == no && typeKey(typeOrNil(pa.Args[d])) == typeKey(typeOrNil(pb.Args[d])) {
					return no, nil
				}
			}
		}
	}
	if pa, ok := a.(*VApp); ok && pa.F == "idstr" {
		if pb, ok := b.(*VApp); ok && pb.F == "idstr" {
			return st.eq(pa.Args[0], pb.Args[0])
		}
	}
	// the text of an ID has 20 characters
	for _, p := range [][2]Value{{a, b}, {b, a}} {
		if pa, ok := p[0].(*VApp); ok && pa.F == "idstr" {
			if s, ok := constString(p[1]); ok && len(s) != 20 {
				return no, nil
			}
		}
	}
	// an object allocated by the analysed code differs from an opaque distinct value
	da, db := a, b
	if aok {
		da = ia.V
	}
	if bok {
		db = ib.V
	}
	if (isAddr(da) && isGroundVal(db)) || (isAddr(db) && isGroundVal(da)) {
		return no, nil
	}
	if ta, ok := rtypeOf(a); ok {
		if tb, ok := rtypeOf(b); ok {
			return triOf(types.Identical(ta, tb)), nil
		}
	}
	p := &VPred{Op: "eq", X: a, Y: b}
	if v, ok := st.lookupFact(p); ok {
		return triOf(v), nil
	}
	return unknown, p
}

// textConv: conversions between text types.
func textConv(a, b *VApp) bool {
	str := func(t types.Type) bool {
		if t == nil {
			return false
		}
		u, ok := t.Underlying().(*types.Basic)
		return ok && u.Info()&types.IsString != 0
	}
	return str(a.T) && len(a.Args) == 1 && len(b.Args) == 1 && str(typeOrNil(a.Args[0])) && str(typeOrNil(b.Args[0]))
}

func isLockKey(v Value) bool {
	s, ok := v.(*VSym)
	return ok && strings.HasPrefix(s.ID, "ord:lk")
}

func typeOrNil(v Value) types.Type {
	if t := valType(v); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

// rtypeOf recognises a statically known reflect.Type.
func rtypeOf(v Value) (types.Type, bool) {
	if a, ok := stripIface(v).(*VApp); ok && strings.HasPrefix(a.F, "rtype:") {
		return a.T, true
	}
	return nil, false
}

// garbage collection and canonical keys

func (st *State) gc(keep func(string) bool) {
	reach := map[string]bool{}
	syms := map[string]bool{}
	var work []string
	addObj := func(id string) {
		if id != "" && !reach[id] {
			reach[id] = true
			work = append(work, id)
		}
	}
	addSym := func(s *VSym) {
		if !syms[s.ID] {
			syms[s.ID] = true
		}
		id := "*" + s.K()
		if _, in := st.heap[id]; in {
			addObj(id)
		}
	}
	visit := func(v Value) {
		if v != nil {
			walkValue(v, addSym, addObj)
			// objects behind opaque pointers built from applications
			id := "*" + v.K()
			if _, in := st.heap[id]; in {
				addObj(id)
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, v := range f.loc {
			visit(v)
		}
		for _, v := range f.bind {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			visit(d.recv)
			for _, a := range d.args {
				visit(a)
			}
		}
		visit(f.panicking)
	}
	for _, v := range st.mon {
		visit(v)
	}
	for id := range st.heap {
		if keep(id) {
			addObj(id)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.heap[id]
		if o == nil {
			continue
		}
		for _, v := range o.Cells {
			visit(v)
		}
		for _, v := range o.Elems {
			visit(v)
		}
		for _, v := range o.Keys {
			visit(v)
		}
		visit(o.Other)
		visit(o.OtherKey)
		addObj(o.LenOf)
	}
	for id := range st.heap {
		if !reach[id] {
			delete(st.heap, id)
		}
	}
	for k, f := range st.facts {
		ok := true
		chk := func(s *VSym) {
			if !syms[s.ID] && !keep(s.ID) {
				ok = false
			}
		}
		ob := func(id string) {
			if !reach[id] {
				ok = false
			}
		}
		walkValue(f.p.X, chk, ob)
		if f.p.Y != nil {
			walkValue(f.p.Y, chk, ob)
		}
		if !ok {
			delete(st.facts, k)
		}
	}
	st.live = syms
}

func (f *Frame) fkey() string {
	if f.key != "" {
		return f.key
	}
	var b strings.Builder
	if f.fn != nil {
		b.WriteString(f.ctx)
		b.WriteString("/")
		b.WriteString(f.fn.String())
		b.WriteString(":")
		if f.blk != nil {
			b.WriteString(strconv.Itoa(f.blk.Index))
		}
		b.WriteString(".")
		b.WriteString(strconv.Itoa(f.idx))
		names := make([]string, 0, len(f.regs))
		for r, v := range f.regs {
			names = append(names, r.Name()+"="+v.K())
		}
		sort.Strings(names)
		b.WriteString(strings.Join(names, ";"))
		for _, v := range f.bind {
			b.WriteString("^" + v.K())
		}
	} else {
		b.WriteString("script " + f.script.Name + " " + strconv.Itoa(f.pc))
		names := make([]string, 0, len(f.loc))
		for r, v := range f.loc {
			names = append(names, r+"="+v.K())
		}
		sort.Strings(names)
		b.WriteString(strings.Join(names, ";"))
	}
	for _, d := range f.defers {
		b.WriteString("!d")
		if d.fn != nil {
			b.WriteString(d.fn.K())
		}
		if d.site != nil {
			b.WriteString(strconv.Itoa(int(d.site.Pos())))
		}
		for _, a := range d.args {
			b.WriteString("," + a.K())
		}
	}
	if f.panicking != nil {
		b.WriteString("!p" + f.panicking.K())
	}
	b.WriteString(fmt.Sprintf("|%d%v%v", f.kind, f.recovered, f.isDefer))
	return b.String()
}

func (st *State) key() string {
	var b strings.Builder
	for i, f := range st.frames {
		k := f.fkey()
		if i < len(st.frames)-1 {
			f.key = k
		}
		b.WriteString(k)
		b.WriteString("\n")
	}
	ids := make([]string, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		b.WriteString(id)
		b.WriteString(":")
		b.WriteString(st.heap[id].key())
		b.WriteString("\n")
	}
	fs := make([]string, 0, len(st.facts))
	for k, f := range st.facts {
		fs = append(fs, k+"="+strconv.FormatBool(f.v))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, "\n"))
	ms := make([]string, 0, len(st.mon))
	for k, v := range st.mon {
		ms = append(ms, k+":"+v.K())
	}
	sort.Strings(ms)
	b.WriteString(strings.Join(ms, "\n"))
	return b.String()
}
