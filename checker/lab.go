package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lab is the environment of scenarios that exercise one part of the library
// without an engine run. It carries the monitors every part shares: which
// mutexes are held, and which shared memory is touched under which of them.
type Lab struct {
	*BH
	e     *Env
	onEv  func(in *Interp, st *State, kind string, pos token.Pos, args []Value)
	atEnd func(in *Interp, st *State, p Value)
	trk   func(id string) bool
}

// Access is one access to memory that several goroutines may share.
type Access struct {
	Loc   string
	Write bool
	Locks map[string]string // mutex -> r or w
	Fn    string
	Pos   string
}

func (a *Access) key() string {
	ks := []string{}
	for k, v := range a.Locks {
		ks = append(ks, k+v)
	}
	sort.Strings(ks)
	w := "r"
	if a.Write {
		w = "w"
	}
	return a.Loc + "|" + w + "|" + a.Fn + "|" + strings.Join(ks, ",")
}

func newLab(e *Env) *Lab {
	l := &Lab{BH: newBH(), e: e}
	l.track = func(id string) bool {
		for _, p := range []string{"env:", "H:", "ord:", "ent:", "row:", "err:", "native:"} {
			if strings.HasPrefix(id, p) {
				return true
			}
		}
		return l.trk != nil && l.trk(id)
	}
	l.BH.onEvent = l.event
	l.BH.onEnd = func(in *Interp, st *State, p Value) {
		in.Check(st, len(heldLocks(st)) == 0, "C40/leak", lockNames(st), 0, "a lock is still held at the end of a call: "+lockNames(st))
		if l.atEnd != nil {
			l.atEnd(in, st, p)
		}
	}
	return l
}

const lkPre = "lk!"

func heldLocks(st *State) map[string]string {
	m := map[string]string{}
	for k := range st.mon {
		if strings.HasPrefix(k, lkPre) {
			m[k[len(lkPre):]] = st.Get(k)
		}
	}
	return m
}

func lockNames(st *State) string {
	var r []string
	for k := range heldLocks(st) {
		r = append(r, k)
	}
	sort.Strings(r)
	if len(r) == 0 {
		return "no lock"
	}
	return strings.Join(r, ",")
}

// lockName names a mutex independently of the object it is part of.
func lockName(st *State, v Value) string {
	if p, ok := v.(VPtr); ok {
		return locName(st, p)
	}
	return v.K()
}

func locName(st *State, p VPtr) string {
	if strings.HasPrefix(p.O, "G:") {
		return strings.TrimPrefix(p.O, "G:") + p.P
	}
	if o := st.heap[p.O]; o != nil && o.T != nil {
		return typeKey(o.T) + p.P
	}
	return p.O + p.P
}

func stateFn(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if f := st.frames[i].fn; f != nil {
			for f.Parent() != nil {
				f = f.Parent()
			}
			return f.String()
		}
	}
	return "-"
}

// lockEvent is the monitor of mutexes and shared memory; it is used by every harness.
func lockEvent(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	switch kind {
	case "lock", "rlock":
		k := lkPre + lockName(st, args[0])
		h := st.Get(k)
		in.Check(st, h == "" || (h == "r" && kind == "rlock"), "C40/deadlock", stateFn(st), pos, "a lock that is already held is acquired again: "+k[len(lkPre):])
		if kind == "lock" {
			st.Set(k, "w")
		} else {
			st.Set(k, "r")
		}
	case "unlock", "runlock":
		k := lkPre + lockName(st, args[0])
		in.Check(st, st.Get(k) != "", "C40/unlock", stateFn(st), pos, "a lock that is not held is released: "+k[len(lkPre):])
		st.Set(k, "")
	case "gostart":
		// a new goroutine holds nothing
		var ks []string
		for k, v := range heldLocks(st) {
			ks = append(ks, k+"="+v)
			st.Set(lkPre+k, "")
		}
		sort.Strings(ks)
		for _, k := range ks {
			i := strings.LastIndex(k, "=")
			st.Set("gosave!"+k[:i], k[i+1:])
		}
	case "goend":
		for k := range st.mon {
			if strings.HasPrefix(k, lkPre) {
				in.Check(st, false, "C40/leak", stateFn(st), pos, "a goroutine ends while it holds a lock: "+k[len(lkPre):])
				delete(st.mon, k)
			}
		}
		for k := range st.mon {
			if strings.HasPrefix(k, "gosave!") {
				st.mon[lkPre+k[7:]] = st.mon[k]
				delete(st.mon, k)
			}
		}
	case "load", "store":
		if st.Get("phase") == "ctor" {
			return
		}
		p, ok := args[0].(VPtr)
		if !ok || !sharedObj(st, p.O) {
			return
		}
		in.access(st, locName(st, p), kind == "store", pos)
	case "mapread", "mapwrite":
		if st.Get("phase") == "ctor" {
			return
		}
		m, ok := args[0].(VMap)
		if !ok {
			return
		}
		if h, ok := holder(st, m.K()); ok {
			in.access(st, h+"[map]", kind == "mapwrite", pos)
		}
	}
}

// sharedObj: globals of the module and objects published by a scenario.
func sharedObj(st *State, id string) bool {
	if strings.HasPrefix(id, "G:") {
		return strings.HasPrefix(id, "G:"+modPath)
	}
	return st.mon["shared!"+id] != nil
}

// holder finds the shared variable that refers to a value.
func holder(st *State, key string) (string, bool) {
	var best string
	for id, o := range st.heap {
		if o.Kind != "cells" || !sharedObj(st, id) {
			continue
		}
		for p, v := range o.Cells {
			if v.K() == key {
				n := locName(st, VPtr{id, p})
				if best == "" || n < best {
					best = n
				}
			}
		}
	}
	return best, best != ""
}

// publish marks an object as shared between goroutines from now on.
func publish(st *State, v Value) {
	if p, ok := stripIface(v).(VPtr); ok {
		st.Set("shared!"+p.O, "1")
	}
}

func (in *Interp) access(st *State, loc string, write bool, pos token.Pos) {
	if st.Get(taintKey) != "" {
		return
	}
	a := &Access{Loc: loc, Write: write, Locks: heldLocks(st), Fn: stateFn(st), Pos: in.pos(pos)}
	if in.Accesses == nil {
		in.Accesses = map[string]*Access{}
	}
	k := a.key()
	if in.Accesses[k] == nil {
		in.Accesses[k] = a
	}
}

// races pairs the accesses of all scenarios that share no lock.
func races(all map[string]*Access) (viols []*Violation, pairs int) {
	var as []*Access
	for _, a := range all {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].key() < as[j].key() })
	overlap := func(a, b string) bool {
		if a == b {
			return true
		}
		if len(a) > len(b) {
			a, b = b, a
		}
		return strings.HasPrefix(b, a) && b[len(a)] == '.'
	}
	seen := map[string]bool{}
	for i, a := range as {
		for _, b := range as[i:] {
			if !(a.Write || b.Write) || !overlap(a.Loc, b.Loc) {
				continue
			}
			pairs++
			safe := false
			for l, m := range a.Locks {
				if n, ok := b.Locks[l]; ok && (m == "w" || n == "w") {
					safe = true
				}
			}
			if safe {
				continue
			}
			x, y := a, b
			if len(x.Locks) > len(y.Locks) {
				x, y = y, x
			}
			c := x.Loc + " in " + strings.TrimPrefix(x.Fn, modPath)
			if seen[c] {
				continue
			}
			seen[c] = true
			kind := func(a *Access) string {
				if a.Write {
					return "written"
				}
				return "read"
			}
			viols = append(viols, &Violation{Rule: "C40/lockset", Construct: c, Pos: x.Pos, Scenario: "all",
				Msg: x.Loc + " is " + kind(x) + " here and " + kind(y) + " in " + strings.TrimPrefix(y.Fn, modPath) + " (" + y.Pos + ") with no lock in common"})
		}
	}
	return
}

func (l *Lab) event(in *Interp, st *State, kind string, pos token.Pos, args []Value) {
	lockEvent(in, st, kind, pos, args)
	if l.onEv != nil {
		l.onEv(in, st, kind, pos, args)
	}
}

// user is called when code of the user runs.
func (l *Lab) user(c *CallCtx, rule, what string) {
	h := heldLocks(c.St)
	l.must(c, len(h) == 0, "C40/user-code", what, what+" is called while a lock is held: "+lockNames(c.St))
	if rule != "" {
		l.must(c, len(h) == 0, rule, what, what+" is called while a lock is held: "+lockNames(c.St))
	}
}

func (l *Lab) must(c *CallCtx, ok bool, rule, what, msg string) {
	c.In.Check(c.St, ok, rule, what, c.Pos, msg)
}

func (l *Lab) t(name string) types.Type { return l.e.T(name) }

func (l *Lab) env(id string, t types.Type) *VSym {
	return &VSym{ID: "env:" + id, T: t, Distinct: true, NonNil: true}
}

func (l *Lab) ctxT() types.Type {
	return l.e.M("", "Engine", "Run").Signature.Params().At(0).Type()
}

func (l *Lab) start(in *Interp, steps ...stepFn) {
	in.H = l
	st := newState()
	in.pushScript(st, &Script{Name: "lab", Steps: guarded(steps)}, nil, retDiscard, 0, "scenario")
	in.Run(st)
}

// call is a script step that calls a function of the library.
func callStep(f *ssa.Function, site string, args func(st *State, fr *Frame) []Value) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		return in.CallFn(st, f, site, args(st, fr)...)
	}
}

func vals(vs ...Value) func(st *State, fr *Frame) []Value {
	return func(st *State, fr *Frame) []Value { return vs }
}

// keep stores the result of the last call.
func keep(name string) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State {
		fr.loc[name] = fr.loc["ret"]
		return nil
	}
}

func do(f func(st *State, fr *Frame)) stepFn {
	return func(in *Interp, st *State, fr *Frame) []*State { f(st, fr); return nil }
}

func sig(params []types.Type, results ...types.Type) *types.Signature {
	tup := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tup(params), tup(results), false)
}

// guarded checks between the calls of a script that no lock stays held.
func guarded(steps []stepFn) []stepFn {
	var ss []stepFn
	for _, f := range steps {
		f := f
		ss = append(ss, func(in *Interp, st *State, fr *Frame) []*State {
			in.Check(st, len(heldLocks(st)) == 0, "C40/leak", lockNames(st), 0, "a lock is still held when a call has returned: "+lockNames(st))
			return f(in, st, fr)
		})
	}
	return ss
}
