package main

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp propagates abstract states over the SSA control-flow graphs of the
// module, function by function and call context by call context, until no new
// state appears at any block (disjunctive dataflow fixpoint).
type Interp struct {
	P       *Program
	H       Harness
	base    map[string]*Obj // heap after package initialisation
	visited map[[20]byte]struct{}
	work    []*State
	ctxs    map[string]string
	lives   map[*ssa.Function]*liveness

	MaxStates  int
	Fold       int // lists up to this length are kept element by element (at least foldLimit)
	Depth      int // calls of one function that may be active at once
	NStates    int
	NSteps     int
	NEnds      int
	Incomplete string
	Funcs      map[*ssa.Function]bool
	Blocks     map[*ssa.BasicBlock]bool
	Sites      map[string]int    // calls that left the analysed code, by callee
	Stopped    map[string]int    // paths given up for something unmodelled
	Tainted    map[string]string // rules that failed only on paths with something unmodelled
	Unknown    map[string]int    // unmodelled callees
	Cut        map[string]int    // recursion cut off
	Violations []*Violation
	vkeys      map[string]bool
	nested     bool
	Scenario   string
	Obl        map[string]int // obligations checked, by rule

	Accesses map[string]*Access

	ends   []*State // nested runs
	ctxPre string
	Opts   map[string]bool
	once   map[string]bool

	deadline time.Time
}

type Violation struct {
	Rule, Construct, Msg, Pos, Scenario string
	Path                                []string
}

// CallCtx describes a call that the harness may observe or answer.
type CallCtx struct {
	In     *Interp
	St     *State
	Key    string        // full name of the callee (interface method, function) or "dyn:<type>"
	Fn     *ssa.Function // module function, if known
	Recv   Value         // receiver of an interface method
	FnV    Value         // function value of a dynamic call
	Args   []Value       // for static methods including the receiver
	Res    *types.Tuple
	Sig    *types.Signature
	Pos    token.Pos
	Pre    string // prefix for fresh names
	SiteV  ssa.Value
	Method *types.Func
}

// Outcome is one possible result of a call outside the analysed code.
type Outcome struct {
	Ret    []Value
	Panic  Value
	Do     func(*State)
	Note   string
	Script *Script
	Loc    map[string]Value
	Stop   bool // the continuation is not of interest
}

type Harness interface {
	// Call answers calls that leave the analysed code; nil means default model.
	Call(c *CallCtx) []Outcome
	// Enter sees calls of module functions; a non-nil result replaces the body.
	Enter(c *CallCtx) []Outcome
	// End is called when the root scenario ends.
	End(in *Interp, st *State, panicked Value)
	// Tracked tells the symbols whose membership in collections matters.
	Tracked(id string) bool
	// Go is called for a go statement: goSkip or goNow (run it now, synchronously).
	Go(c *CallCtx) int
}

type forkReq struct {
	p *VPred
}

type abortReq struct{ msg string }

// stopReq ends a state silently (an infeasible or uninteresting continuation)
type stopReq struct{}

func NewInterp(P *Program, h Harness) *Interp {
	return &Interp{P: P, H: h, visited: map[[20]byte]struct{}{}, ctxs: map[string]string{}, lives: map[*ssa.Function]*liveness{},
		MaxStates: 400000, Depth: 2, Funcs: map[*ssa.Function]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, Sites: map[string]int{},
		Unknown: map[string]int{}, Cut: map[string]int{}, vkeys: map[string]bool{}, Obl: map[string]int{}}
}

func (in *Interp) ctx(parent string, site string) string {
	k := parent + ">" + site
	if c, ok := in.ctxs[k]; ok {
		return c
	}
	c := in.ctxPre + "k" + strconv.Itoa(len(in.ctxs))
	in.ctxs[k] = c
	return c
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := in.P.Prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, in.P.Repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// maxKey bounds the size of an abstract state.
const maxKey = 4 << 20

// outOfMemory is set when the analysis needs more memory than it may use.
var outOfMemory atomic.Bool

func watchMemory(limit uint64) {
	go func() {
		for {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > limit {
				outOfMemory.Store(true)
				return
			}
			time.Sleep(500 * time.Millisecond)
		}
	}()
}

// taintKey marks a state that passed something the analysis does not understand;
// what is found wrong in it is undecided, not a violation.
const taintKey = "!taint"

func (in *Interp) Violate(st *State, rule, construct string, pos token.Pos, msg string) {
	k := rule + "|" + construct
	if t := st.Get(taintKey); t != "" {
		if in.Tainted == nil {
			in.Tainted = map[string]string{}
		}
		in.Tainted[k] = "passes " + t + ", which the analysis does not model"
		return
	}
	if in.vkeys[k] {
		return
	}
	in.vkeys[k] = true
	v := &Violation{Rule: rule, Construct: construct, Msg: msg, Pos: in.pos(pos), Scenario: in.Scenario}
	n := 0
	for t := st.tr; t != nil && n < 60; t = t.prev {
		v.Path = append(v.Path, in.pos(t.pos)+" "+t.note)
		n++
	}
	for i, j := 0, len(v.Path)-1; i < j; i, j = i+1, j-1 {
		v.Path[i], v.Path[j] = v.Path[j], v.Path[i]
	}
	in.Violations = append(in.Violations, v)
}

// Check records one obligation and reports it when it does not hold.
func (in *Interp) Check(st *State, ok bool, rule, construct string, pos token.Pos, msg string) {
	in.Obl[rule]++
	if !ok {
		in.Violate(st, rule, construct, pos, msg)
	}
}

func (in *Interp) Run(init ...*State) {
	in.work = append(in.work, init...)
	for len(in.work) > 0 {
		st := in.work[len(in.work)-1]
		in.work = in.work[:len(in.work)-1]
		in.advance(st)
		if in.NStates > in.MaxStates {
			in.Incomplete = fmt.Sprintf("more than %d abstract states", in.MaxStates)
			return
		}
	}
}

// advance executes until the state forks, ends, or has been seen.
func (in *Interp) advance(st *State) {
	entry := false
	for {
		if len(st.frames) == 0 {
			return
		}
		if t := st.Get(taintKey); t != "" && !st.keepAll {
			// what follows could not be believed
			if in.Stopped == nil {
				in.Stopped = map[string]int{}
			}
			in.Stopped[t]++
			return
		}
		f := st.top()
		if entry || (f.fn != nil && f.idx == 0) || f.script != nil {
			if !st.keepAll {
				st.gc(in.keepFn(st))
			}
			sk := st.key()
			if len(sk) > maxKey {
				in.Incomplete = "an abstract state grows without bound"
				in.work = nil
				return
			}
			k := sha1.Sum([]byte(sk))
			if _, seen := in.visited[k]; seen {
				return
			}
			in.visited[k] = struct{}{}
			in.NStates++
			if dumpAt > 0 && in.NStates == dumpAt {
				for _, n := range st.trail() {
					fmt.Fprintln(os.Stderr, n)
				}
				fmt.Fprintln(os.Stderr, sk)
			}
			entry = false
			if in.NStates%1000 == 0 && !in.deadline.IsZero() && time.Now().After(in.deadline) {
				in.Incomplete = "out of time"
				in.work = nil
				return
			}
			if outOfMemory.Load() {
				in.Incomplete = "out of memory"
				in.work = nil
				in.visited = map[[20]byte]struct{}{}
				return
			}
			if in.NStates > in.MaxStates {
				return
			}
		}
		next := in.stepSafe(st)
		if len(next) == 1 && next[0] == st {
			continue
		}
		for i := len(next) - 1; i >= 0; i-- {
			in.work = append(in.work, next[i])
		}
		return
	}
}

func (in *Interp) keepFn(st *State) func(string) bool {
	return func(id string) bool {
		if o := st.heap[id]; o != nil && o.Mark == "mod" {
			return true
		}
		return strings.HasPrefix(id, "H:") || strings.HasPrefix(id, "*s:ent:") || in.H.Tracked(id)
	}
}

func (in *Interp) stepSafe(st *State) (res []*State) {
	in.NSteps++
	frames := st.frames
	top := *st.top()
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case forkReq:
				// undo the control effects of the interrupted step
				t := top
				st.frames = append([]*Frame(nil), frames...)
				st.frames[len(st.frames)-1] = &t
				res = nil
				for _, v := range []bool{true, false} {
					c := st.clone()
					p := q.p
					if hasSumPred(p) {
						o := map[string]bool{}
						for k, b := range in.once {
							o[k] = b
						}
						pv := v
						if p.Neg {
							pv = !pv
						}
						o[p.base()] = pv
						res = append(res, in.stepOnce(c, o)...)
					} else {
						c.addFact(p, v)
						c.note(in.curPos(c), fmt.Sprintf("assume %s = %v", short(p.K()), v))
						res = append(res, c)
					}
				}
			case stopReq:
				res = nil
			default:
				panic(r)
			}
		}
	}()
	return in.step(st)
}

func (in *Interp) stepOnce(st *State, o map[string]bool) []*State {
	old := in.once
	in.once = o
	defer func() { in.once = old }()
	return in.stepSafe(st)
}

func short(s string) string {
	s = strings.ReplaceAll(s, modPath, "ddd")
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func hasSumPred(p *VPred) bool {
	if hasSum(p.X) {
		return true
	}
	return p.Y != nil && hasSum(p.Y)
}

func (in *Interp) curPos(st *State) token.Pos {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.fn != nil && f.blk != nil {
			for j := f.idx; j >= 0; j-- {
				if j < len(f.blk.Instrs) && f.blk.Instrs[j].Pos().IsValid() {
					return f.blk.Instrs[j].Pos()
				}
			}
			return f.fn.Pos()
		}
	}
	return token.NoPos
}

// decide turns a three-valued answer into a boolean, forking when needed.
func (in *Interp) decide(st *State, t tri, p *VPred) bool {
	if t != unknown {
		return t == yes
	}
	if b, ok := in.once[p.base()]; ok {
		return b != p.Neg
	}
	if !hasSumPred(p) {
		if b, ok := st.lookupFact(p); ok {
			return b
		}
	}
	if d, ok := in.H.(interface {
		Decide(st *State, p *VPred) tri
	}); ok {
		if t := d.Decide(st, p); t != unknown {
			return t == yes
		}
	}
	panic(forkReq{p})
}

func (in *Interp) truth(st *State, v Value) bool {
	if b, ok := constBool(v); ok {
		return b
	}
	if p, ok := v.(*VPred); ok {
		switch p.Op {
		case "eq":
			t, q := st.eq(p.X, p.Y)
			if q != nil && q.base() != p.base() {
				return in.decide(st, t, q) != p.Neg
			}
			if t != unknown {
				return (t == yes) != p.Neg
			}
		case "nil":
			t, _ := st.isNil(p.X)
			if t != unknown {
				return (t == yes) != p.Neg
			}
		case "lt":
			t, _ := st.lt(p.X, p.Y)
			if t != unknown {
				return (t == yes) != p.Neg
			}
		}
		return in.decide(st, unknown, p)
	}
	return in.decide(st, unknown, &VPred{Op: "truth", X: v})
}

func (in *Interp) isNil(st *State, v Value) bool {
	t, p := st.isNil(v)
	return in.decide(st, t, p)
}

func (in *Interp) equal(st *State, a, b Value) bool {
	t, p := st.eq(a, b)
	return in.decide(st, t, p)
}

// reaches tells whether a tracked symbol is reachable from v.
func (in *Interp) reaches(st *State, v Value) bool {
	seen := map[string]bool{}
	found := false
	var visit func(v Value, d int)
	var objs func(id string, d int)
	objs = func(id string, d int) {
		if seen[id] || d > 6 || found {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if strings.HasPrefix(id, "H:") {
			if in.H.Tracked(id) {
				found = true
			}
			return
		}
		if o == nil {
			return
		}
		for _, c := range o.Cells {
			visit(c, d+1)
		}
		for _, c := range o.Elems {
			visit(c, d+1)
		}
		for _, c := range o.Keys {
			visit(c, d+1)
		}
	}
	visit = func(v Value, d int) {
		if v == nil {
			return
		}
		if t, ok := rtypeOf(v); ok && isEnvType(t) {
			found = true
		}
		walkValue(v, func(s *VSym) {
			if in.H.Tracked(s.ID) {
				found = true
			}
		}, func(id string) { objs(id, d) })
	}
	visit(v, 0)
	return found
}

// deepKey describes a value without object names.
func (in *Interp) deepKey(st *State, v Value, d int) string {
	if v == nil {
		return "_"
	}
	if d > 4 {
		return "…"
	}
	ob := func(id string) string {
		o := st.heap[id]
		if o == nil || strings.HasPrefix(id, "H:") || strings.HasPrefix(id, "G:") || strings.HasPrefix(id, "*") {
			return id
		}
		var b strings.Builder
		b.WriteString(o.Kind)
		ks := []string{}
		for k, c := range o.Cells {
			ks = append(ks, k+"="+in.deepKey(st, c, d+1))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		for i, e := range o.Elems {
			if o.Keys != nil {
				b.WriteString(in.deepKey(st, o.Keys[i], d+1) + ">")
			}
			b.WriteString(in.deepKey(st, e, d+1) + ";")
		}
		if o.Other != nil {
			b.WriteString(".." + in.deepKey(st, o.Other, d+1))
		}
		return b.String()
	}
	switch x := v.(type) {
	case *VSym:
		if in.H.Tracked(x.ID) {
			return x.K()
		}
		return "sym<" + typeKey(x.T) + ">"
	case VPtr:
		return "&" + ob(x.O) + x.P
	case VSlice:
		return ob(x.O)
	case VMap:
		return ob(x.O)
	case *VIface:
		return "i<" + typeKey(x.T) + ">" + in.deepKey(st, x.V, d+1)
	case *VApp:
		s := "@" + x.F
		for _, a := range x.Args {
			s += "," + in.deepKey(st, a, d+1)
		}
		return s
	case *VStruct:
		s := "{"
		for _, a := range x.F {
			s += "," + in.deepKey(st, a, d+1)
		}
		return s + "}"
	case *VTuple:
		s := "("
		for _, a := range x.V {
			s += "," + in.deepKey(st, a, d+1)
		}
		return s
	}
	return v.K()
}

// fold moves untracked elements of a slice into its summary.
func (in *Interp) addOther(st *State, o *Obj, v Value) {
	alts := alternatives(o.Other)
	k := in.deepKey(st, v, 0)
	for _, a := range alts {
		if in.deepKey(st, a, 0) == k {
			return
		}
	}
	if p, ok := v.(VPtr); ok {
		if ob := st.heap[p.O]; ob != nil && !ob.Sum && !strings.HasPrefix(p.O, "H:") && !strings.HasPrefix(p.O, "*") {
			st.mut(p.O).Sum = true
		}
	}
	alts = append(alts, v)
	o.Other = altOf(alts)
}

func alternatives(v Value) []Value {
	if v == nil {
		return nil
	}
	if a, ok := v.(*VApp); ok && a.F == "alt" {
		return append([]Value(nil), a.Args...)
	}
	return []Value{v}
}

func altOf(vs []Value) Value {
	if len(vs) == 0 {
		return nil
	}
	if len(vs) == 1 {
		return vs[0]
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].K() < vs[j].K() })
	return &VApp{F: "alt", Args: vs}
}

const foldLimit = 3

func (in *Interp) normSlice(st *State, o *Obj) {
	if o.Slots != nil {
		return
	}
	if len(o.Elems) > 8 {
		// an object that stands for several ones is listed again and again
		seen := map[string]int{}
		var keep []Value
		for _, e := range o.Elems {
			k := e.K()
			seen[k]++
			if _, ok := e.(VPtr); ok && seen[k] > 2 && !strings.HasPrefix(k, "&H:") {
				st.Set(taintKey, "a list of objects that are not told apart")
				continue
			}
			keep = append(keep, e)
		}
		o.Elems = keep
	}
	un := []int{}
	for i, e := range o.Elems {
		if !in.reaches(st, e) {
			un = append(un, i)
		}
	}
	if o.Other == nil && len(un) <= max(foldLimit, in.Fold) {
		return
	}
	if len(un) == 0 {
		return
	}
	drop := map[int]bool{}
	for _, i := range un {
		drop[i] = true
	}
	if o.Other == nil || true {
		old := o.Elems
		o.Elems = nil
		for i, e := range old {
			if drop[i] {
				in.addOther(st, o, e)
				o.NonEmpty = true
			} else {
				o.Elems = append(o.Elems, e)
			}
		}
	}
}

// readOther gives the possible values of an other element.
func (in *Interp) otherInstances(st *State, o Value, pre string) []Value {
	var res []Value
	for _, a := range alternatives(o) {
		if s, ok := a.(*VSym); ok && s.Sum {
			f := st.freshSym(pre+":"+s.ID, s.T)
			f.Distinct, f.NonNil = s.Distinct, s.NonNil
			res = append(res, f)
			continue
		}
		res = append(res, a)
	}
	return res
}

func (in *Interp) asSlice(st *State, v Value, t types.Type) Value {
	switch v.(type) {
	case *VSym, *VApp:
		id := "sl*" + v.K()
		if _, ok := st.heap[id]; !ok {
			et := types.Type(nil)
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			st.heap[id] = &Obj{Kind: "slice", T: t, Other: &VSym{ID: "el:" + v.K(), T: et, Sum: true}}
		}
		return VSlice{id}
	}
	return v
}

func (in *Interp) asMap(st *State, v Value, t types.Type) Value {
	switch v.(type) {
	case *VSym, *VApp:
		id := "mp*" + v.K()
		if _, ok := st.heap[id]; !ok {
			o := &Obj{Kind: "map", T: t, Keys: []Value{}}
			if m, ok := t.Underlying().(*types.Map); ok {
				o.OtherKey = &VSym{ID: "mk:" + v.K(), T: m.Key(), Sum: true}
				o.Other = &VSym{ID: "mv:" + v.K(), T: m.Elem(), Sum: true}
			}
			st.heap[id] = o
		}
		return VMap{id}
	}
	return v
}

// ---- liveness -------------------------------------------------------------

type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
}

func (in *Interp) liveOf(fn *ssa.Function) *liveness {
	if l, ok := in.lives[fn]; ok {
		return l
	}
	l := &liveness{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[ssa.Instruction]map[ssa.Value]bool{}}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	blocks := append([]*ssa.BasicBlock(nil), fn.Blocks...)
	for _, b := range blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
			}
			// phi operands on the edge
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(phi.Edges[pi]) {
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // phi results are defined on entry
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(l.in[b]) {
				l.in[b] = live
				changed = true
			}
		}
	}
	in.lives[fn] = l
	return l
}

// liveAfter: registers needed after instruction idx of blk.
func (in *Interp) liveAfter(fn *ssa.Function, blk *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := in.liveOf(fn)
	ins := blk.Instrs[idx]
	if m, ok := l.after[ins]; ok {
		return m
	}
	live := map[ssa.Value]bool{}
	for _, s := range blk.Succs {
		for v := range l.in[s] {
			live[v] = true
		}
		for pi, p := range s.Preds {
			if p != blk {
				continue
			}
			for _, x := range s.Instrs {
				phi, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				live[phi.Edges[pi]] = true
			}
		}
	}
	for j := len(blk.Instrs) - 1; j > idx; j-- {
		for _, op := range blk.Instrs[j].Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	l.after[ins] = live
	return live
}

func (in *Interp) prune(f *Frame, live map[ssa.Value]bool) {
	for r := range f.regs {
		if _, isParam := r.(*ssa.Parameter); isParam && !live[r] {
			delete(f.regs, r)
			continue
		}
		if !live[r] {
			delete(f.regs, r)
		}
	}
}

// ---- control flow -----------------------------------------------------------

func (in *Interp) enterBlock(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		if pi >= 0 {
			vals = append(vals, in.val(st, phi.Edges[pi]))
		} else {
			vals = append(vals, zero(phi.Type()))
		}
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	f.prev = from
	f.blk = to
	f.idx = len(phis)
	live := in.liveOf(f.fn).in[to]
	for r := range f.regs {
		if !live[r] {
			delete(f.regs, r)
		}
	}
	in.Blocks[to] = true
	// every block entry is a program point at which states are compared
	return []*State{st.entry()}
}

// entry marks the state for comparison by giving back a fresh identity.
func (st *State) entry() *State {
	c := *st
	return &c
}

func (in *Interp) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		return VConst{x.Value, x.Type()}
	case *ssa.Global:
		id := "G:" + x.String()
		in.needGlobal(st, id, x.Type().(*types.Pointer).Elem())
		return VPtr{id, ""}
	case *ssa.Function:
		return &VFunc{Fn: x}
	case *ssa.FreeVar:
		f := st.top()
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.bind[i]
			}
		}
	case *ssa.Builtin:
		return &VNative{Name: "builtin:" + x.Name()}
	}
	f := st.top()
	if r, ok := f.regs[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s in %s (%s)", v.Name(), f.fn, v))
}

func (in *Interp) needGlobal(st *State, id string, t types.Type) {
	if _, ok := st.heap[id]; ok {
		return
	}
	if o, ok := in.base[id]; ok {
		st.heap[id] = o
		in.pullBase(st, o)
		return
	}
	o := &Obj{Kind: "cells", T: t, Cells: map[string]Value{}, Opaque: true}
	if isErrorType(t) && !strings.HasPrefix(id, "G:"+modPath) {
		o.Cells[""] = &VSym{ID: "E:" + id, T: t, Distinct: true, NonNil: true}
	}
	st.heap[id] = o
}

func (in *Interp) pullBase(st *State, o *Obj) {
	add := func(id string) {
		if _, ok := st.heap[id]; ok {
			return
		}
		if b, ok := in.base[id]; ok {
			st.heap[id] = b
			in.pullBase(st, b)
		}
	}
	vs := append(append([]Value{}, o.Elems...), o.Keys...)
	for _, c := range o.Cells {
		vs = append(vs, c)
	}
	for _, v := range vs {
		walkValue(v, func(s *VSym) { st.live[s.ID] = true; add("*" + s.K()) }, add)
	}
}

func (in *Interp) instrName(f *Frame) string {
	ins := f.blk.Instrs[f.idx]
	n := strconv.Itoa(f.blk.Index) + "." + strconv.Itoa(f.idx)
	if v, ok := ins.(ssa.Value); ok {
		n = v.Name()
	}
	nm := f.fn.Name()
	return f.ctx + ":" + nm + "." + n
}

// step executes one instruction of the top frame.
func (in *Interp) step(st *State) []*State {
	f := st.top()
	if f.script != nil {
		if f.pc >= len(f.script.Steps) {
			var vals []Value
			if t, ok := f.loc["result"].(*VTuple); ok {
				vals = t.V
			}
			return in.popFrame(st, vals)
		}
		s := f.script.Steps[f.pc]
		f.pc++
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(forkReq); ok {
					f.pc--
				}
				panic(r)
			}
		}()
		res := s(in, st, f)
		if res == nil {
			return []*State{st}
		}
		return res
	}
	ins := f.blk.Instrs[f.idx]
	set := func(r ssa.Value, v Value) []*State {
		f.regs[r] = v
		f.idx++
		return []*State{st}
	}
	name := in.instrName(f)
	switch x := ins.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Alloc:
		o := &Obj{Kind: "cells", T: x.Type().(*types.Pointer).Elem(), Cells: map[string]Value{}}
		return set(x, VPtr{st.freshObj(name, o), ""})
	case *ssa.BinOp:
		return in.binop(st, x)
	case *ssa.UnOp:
		return in.unop(st, x, name)
	case *ssa.Call:
		return in.doCall(st, &x.Call, x, retCall)
	case *ssa.ChangeInterface:
		return set(x, in.val(st, x.X))
	case *ssa.ChangeType:
		return set(x, retype(in.val(st, x.X), x.Type()))
	case *ssa.Convert:
		return set(x, in.convert(st, in.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return set(x, in.convert(st, in.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		return set(x, st.freshSym(name, x.Type()))
	case *ssa.Defer:
		d := deferred{cc: &x.Call, site: x}
		if x.Call.IsInvoke() {
			d.recv = in.val(st, x.Call.Value)
		} else {
			d.fn = in.val(st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.val(st, a))
		}
		f.defers = append(f.defers, d)
		f.idx++
	case *ssa.Extract:
		t := in.val(st, x.Tuple)
		if tu, ok := t.(*VTuple); ok && x.Index < len(tu.V) && tu.V[x.Index] != nil {
			return set(x, tu.V[x.Index])
		}
		return set(x, st.freshSym(name, x.Type()))
	case *ssa.Field:
		return set(x, fieldOf(in.val(st, x.X), x.X.Type(), x.Field, x.Type()))
	case *ssa.FieldAddr:
		v := in.val(st, x.X)
		st2 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fn := st2.Field(x.Field).Name()
		switch p := v.(type) {
		case VPtr:
			return set(x, VPtr{p.O, p.P + "." + fn})
		case VEPtr:
			return set(x, VEPtr{p.O, p.I, p.P + "." + fn})
		case VNil:
			return in.rtPanic(st, x.Pos(), "nil dereference")
		default:
			if t, _ := st.isNil(v); t == yes {
				return in.rtPanic(st, x.Pos(), "nil dereference")
			} else if t == unknown && !hasSum(v) {
				st.addFact(&VPred{Op: "nil", X: v}, false)
			}
			id := st.symObj(v, x.X.Type().Underlying().(*types.Pointer).Elem())
			return set(x, VPtr{id, "." + fn})
		}
	case *ssa.Go:
		return in.doGo(st, x)
	case *ssa.If:
		b := in.truth(st, in.val(st, x.Cond))
		if b {
			return in.enterBlock(st, f.blk.Succs[0])
		}
		return in.enterBlock(st, f.blk.Succs[1])
	case *ssa.Jump:
		return in.enterBlock(st, f.blk.Succs[0])
	case *ssa.Index:
		xv := in.val(st, x.X)
		return set(x, &VApp{F: "index", Args: []Value{xv, in.val(st, x.Index)}, T: x.Type()})
	case *ssa.IndexAddr:
		v := in.val(st, x.X)
		i := in.val(st, x.Index)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			pp, ok := v.(VPtr)
			if !ok {
				return set(x, VPtr{st.symObj(v, p.Elem()), "[*]"})
			}
			if n, ok := constInt(i); ok {
				return set(x, VPtr{pp.O, pp.P + "[" + strconv.Itoa(n) + "]"})
			}
			return set(x, VPtr{pp.O, pp.P + "[*]"})
		}
		s := in.asSlice(st, v, x.X.Type())
		sl, ok := s.(VSlice)
		if !ok {
			return in.rtPanic(st, x.Pos(), "index of a nil slice")
		}
		o := st.obj(sl.O)
		if n, ok := constInt(i); ok && o != nil && o.Other == nil && o.Slots == nil {
			if n < 0 || n >= len(o.Elems) {
				return in.rtPanic(st, x.Pos(), "index out of range")
			}
			return set(x, VEPtr{sl.O, i, ""})
		}
		return in.indexAddr(st, x, sl.O, i)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.MakeChan:
		o := &Obj{Kind: "chan", T: x.Type()}
		return set(x, VChan{st.freshObj(name, o)})
	case *ssa.MakeClosure:
		fv := &VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.B = append(fv.B, in.val(st, b))
		}
		return set(x, fv)
	case *ssa.MakeInterface:
		return set(x, mkIface(in.val(st, x.X), x.X.Type()))
	case *ssa.MakeMap:
		o := &Obj{Kind: "map", T: x.Type(), Keys: []Value{}}
		return set(x, VMap{st.freshObj(name, o)})
	case *ssa.MakeSlice:
		o := &Obj{Kind: "slice", T: x.Type()}
		et := x.Type().Underlying().(*types.Slice).Elem()
		switch n := in.val(st, x.Len).(type) {
		case VConst:
			if k, ok := constInt(n); ok && k <= max(16, st.many) {
				for i := 0; i < k; i++ {
					o.Elems = append(o.Elems, zero(et))
				}
			} else {
				o.Other = zero(et)
			}
		case VLen:
			o.Slots = map[string]int{}
			o.LenOf = n.O
			o.Other = zero(et)
		default:
			o.Other = zero(et)
		}
		return set(x, VSlice{st.freshObj(name, o)})
	case *ssa.MapUpdate:
		m := in.asMap(st, in.val(st, x.Map), x.Map.Type())
		mv, ok := m.(VMap)
		if !ok {
			return in.rtPanic(st, x.Pos(), "assignment to a nil map")
		}
		in.event(st, "mapwrite", x.Pos(), mv, in.val(st, x.Key), in.val(st, x.Value))
		in.mapStore(st, mv.O, in.val(st, x.Key), in.val(st, x.Value))
		f.idx++
	case *ssa.Next:
		return in.next(st, x, name)
	case *ssa.Panic:
		v := in.val(st, x.X)
		st.note(x.Pos(), "panic")
		return in.unwind(st, v)
	case *ssa.Phi:
		f.idx++
	case *ssa.Range:
		v := in.asMap(st, in.val(st, x.X), x.X.Type())
		it := &VIter{}
		if m, ok := v.(VMap); ok {
			it.O = m.O
		} else if _, ok := v.(VNil); ok {
			it.Stage = "end"
		} else {
			it.Stage = "str"
		}
		return set(x, it)
	case *ssa.Return:
		var vs []Value
		for _, r := range x.Results {
			vs = append(vs, in.val(st, r))
		}
		return in.popFrame(st, vs)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return in.callDeferred(st, d)
		}
		f.idx++
	case *ssa.Select:
		return in.selectStmt(st, x, name)
	case *ssa.Send:
		ch := in.val(st, x.Chan)
		v := in.val(st, x.X)
		in.chanSend(st, ch, v)
		in.event(st, "send", x.Pos(), ch, v)
		f.idx++
	case *ssa.Slice:
		return in.sliceOp(st, x, name)
	case *ssa.Store:
		return in.store(st, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, x, name)
	default:
		panic(fmt.Sprintf("unsupported instruction %T in %s", ins, f.fn))
	}
	return []*State{st}
}

// event tells the harness about something other than a call.
func (in *Interp) event(st *State, kind string, pos token.Pos, args ...Value) {
	if e, ok := in.H.(interface {
		Event(in *Interp, st *State, kind string, pos token.Pos, args []Value)
	}); ok {
		if n := len(st.frames); n > 0 && st.frames[n-1].fn != nil && st.frames[n-1].fn.Pkg == in.P.shimPkg && quietInShim[kind] {
			return
		}
		e.Event(in, st, kind, pos, args)
	}
}

// quietInShim are accesses the library synchronises itself.
var quietInShim = map[string]bool{"load": true, "store": true, "mapread": true, "mapwrite": true, "storeelem": true, "append": true, "return": true}

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case VConst:
		return VConst{x.V, t}
	case *VStruct:
		return &VStruct{T: t, F: x.F}
	}
	return v
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) Value {
	if c, ok := v.(VConst); ok {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			if (fb.Info()&types.IsNumeric != 0) == (tb.Info()&types.IsNumeric != 0) &&
				(fb.Info()&types.IsString != 0) == (tb.Info()&types.IsString != 0) {
				return VConst{c.V, to}
			}
		}
		return &VApp{F: "conv:" + typeKey(to), Args: []Value{v}, T: to, NonNil: true}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(v, to)
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return v
	}
	return &VApp{F: "conv:" + typeKey(to), Args: []Value{v}, T: to}
}

func mkIface(v Value, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if a, ok := v.(*VApp); ok && a.F == "as:"+typeKey(t) {
		return a.Args[0]
	}
	if s, ok := v.(*VSym); ok && s.T != nil && strings.HasPrefix(s.ID, "ent:") && concreteEnv(s.T) && types.Identical(s.T, t) {
		return v
	}
	return &VIface{T: t, V: v}
}

func fieldOf(v Value, st types.Type, i int, t types.Type) Value {
	if s, ok := v.(*VStruct); ok && i < len(s.F) {
		return s.F[i]
	}
	u := st.Underlying().(*types.Struct)
	return &VApp{F: "part." + u.Field(i).Name(), Args: []Value{v}, T: t}
}

func (in *Interp) rtPanic(st *State, pos token.Pos, msg string) []*State {
	st.note(pos, "run-time panic: "+msg)
	in.event(st, "rtpanic", pos, cStr(msg))
	return in.unwind(st, &VApp{F: "runtime:" + msg, NonNil: true})
}

func (in *Interp) callDeferred(st *State, d deferred) []*State {
	return in.dispatch(st, d.cc, d.fn, d.recv, d.args, d.site, retDefer)
}

// popFrame returns from the top frame.
func (in *Interp) popFrame(st *State, vals []Value) []*State {
	f := st.top()
	if f.script != nil && len(st.frames) == 1 {
		st.frames = nil
		in.NEnds++
		in.H.End(in, st, nil)
		return nil
	}
	st.frames = append([]*Frame(nil), st.frames[:len(st.frames)-1]...)
	if len(st.frames) == 0 {
		in.NEnds++
		if in.nested {
			st.SetV("ret", &VTuple{vals})
			in.ends = append(in.ends, st)
			return nil
		}
		in.H.End(in, st, nil)
		return nil
	}
	n := len(st.frames) - 1
	st.frames[n] = st.frames[n].clone()
	if f.fn != nil {
		in.event(st, "return", f.site, &VFunc{Fn: f.fn}, &VTuple{vals})
	}
	return in.finishCall(st, f.kind, vals)
}

// finishCall hands the results of a call to the frame that made it.
func (in *Interp) finishCall(st *State, kind int, vals []Value) []*State {
	f := st.top()
	switch kind {
	case retCall:
		ins := f.blk.Instrs[f.idx].(*ssa.Call)
		if len(vals) == 1 {
			f.regs[ins] = vals[0]
		} else {
			f.regs[ins] = &VTuple{vals}
		}
		f.idx++
	case retScript:
		if len(vals) == 1 {
			f.loc["ret"] = vals[0]
		} else {
			f.loc["ret"] = &VTuple{vals}
		}
	case retDefer:
		if f.panicking != nil {
			if f.recovered {
				f.panicking, f.recovered = nil, false
				return in.afterRecover(st)
			}
			return in.unwind(st, f.panicking)
		}
		if f.isAfterRecover() {
			return in.afterRecover(st)
		}
	}
	return []*State{st}
}

func (f *Frame) isAfterRecover() bool { return f.fn != nil && f.idx == -1 }

// afterRecover runs the remaining deferred calls, then returns normally.
func (in *Interp) afterRecover(st *State) []*State {
	f := st.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		f.idx = -1
		return in.callDeferred(st, d)
	}
	if rb := f.fn.Recover; rb != nil {
		f.blk = rb
		f.idx = 0
		return []*State{st.entry()}
	}
	var vs []Value
	for i := 0; i < f.fn.Signature.Results().Len(); i++ {
		vs = append(vs, zero(f.fn.Signature.Results().At(i).Type()))
	}
	return in.popFrame(st, vs)
}

func (in *Interp) unwind(st *State, v Value) []*State {
	for {
		if len(st.frames) == 0 {
			in.NEnds++
			in.H.End(in, st, v)
			return nil
		}
		f := st.top()
		if f.script != nil {
			if f.script.OnPanic != nil {
				f.script.OnPanic(in, st, f)
			}
		} else {
			f.panicking = v
			f.recovered = false
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				return in.callDeferred(st, d)
			}
		}
		st.frames = append([]*Frame(nil), st.frames[:len(st.frames)-1]...)
		if n := len(st.frames); n > 0 {
			st.frames[n-1] = st.frames[n-1].clone()
		}
	}
}

// pushFrame starts a module function.
func (in *Interp) pushFrame(st *State, fn *ssa.Function, bind, args []Value, kind int, site token.Pos, siteID string) []*State {
	parent := ""
	if len(st.frames) > 0 {
		p := st.top()
		parent = p.ctx
		if p.fn != nil && p.idx >= 0 {
			if kind == retCall {
				in.prune(p, in.liveAfter(p.fn, p.blk, p.idx))
			}
		}
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Value{}, bind: bind, ctx: in.ctx(parent, siteID), kind: kind, site: site, isDefer: kind == retDefer}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		} else {
			f.regs[p] = zero(p.Type())
		}
	}
	f.blk = fn.Blocks[0]
	in.Funcs[fn] = true
	in.Blocks[f.blk] = true
	st.frames = append(append([]*Frame(nil), st.frames...), f)
	return []*State{st.entry()}
}

// pushScript starts environment code.
func (in *Interp) pushScript(st *State, s *Script, loc map[string]Value, kind int, site token.Pos, siteID string) []*State {
	parent := ""
	if len(st.frames) > 0 {
		p := st.top()
		parent = p.ctx
		if p.fn != nil && kind == retCall && p.idx >= 0 {
			in.prune(p, in.liveAfter(p.fn, p.blk, p.idx))
		}
	}
	if loc == nil {
		loc = map[string]Value{}
	} else {
		l := map[string]Value{}
		for k, v := range loc {
			l[k] = v
		}
		loc = l
	}
	f := &Frame{script: s, loc: loc, ctx: in.ctx(parent, siteID), kind: kind, site: site, isDefer: kind == retDefer}
	st.frames = append(append([]*Frame(nil), st.frames...), f)
	return []*State{st.entry()}
}

// ---- operators ----------------------------------------------------------------

func (in *Interp) unop(st *State, x *ssa.UnOp, name string) []*State {
	f := st.top()
	v := in.val(st, x.X)
	set := func(v Value) []*State { f.regs[x] = v; f.idx++; return []*State{st} }
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case VPtr:
			in.event(st, "load", x.Pos(), p)
			return set(st.loadCell(p.O, p.P, x.Type()))
		case VEPtr:
			return in.loadElem(st, x, p)
		case VNil:
			return in.rtPanic(st, x.Pos(), "nil dereference")
		default:
			if t, _ := st.isNil(v); t == yes {
				return in.rtPanic(st, x.Pos(), "nil dereference")
			}
			return set(st.loadCell(st.symObj(v, x.Type()), "", x.Type()))
		}
	case token.NOT:
		if b, ok := constBool(v); ok {
			return set(cBool(!b))
		}
		if p, ok := v.(*VPred); ok {
			return set(negPred(p))
		}
		return set(&VPred{Op: "truth", X: v, Neg: true})
	case token.SUB:
		if c, ok := v.(VConst); ok {
			return set(VConst{constant.UnaryOp(token.SUB, c.V, 0), x.Type()})
		}
		return set(&VApp{F: "-", Args: []Value{v}, T: x.Type()})
	case token.ARROW:
		return in.recv(st, x, v, name)
	}
	return set(&VApp{F: "un" + x.Op.String(), Args: []Value{v}, T: x.Type()})
}

func (in *Interp) binop(st *State, x *ssa.BinOp) []*State {
	f := st.top()
	a, b := in.val(st, x.X), in.val(st, x.Y)
	set := func(v Value) []*State { f.regs[x] = v; f.idx++; return []*State{st} }
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if r, ok := in.cmpIndex(st, x, a, b); ok {
			return r
		}
	}
	if v := st.cmpLen(x.Op, a, b); v != nil {
		return set(v)
	}
	ca, aok := a.(VConst)
	cb, bok := b.(VConst)
	switch x.Op {
	case token.EQL, token.NEQ:
		t, p := st.eq(a, b)
		if t != unknown {
			return set(cBool((t == yes) == (x.Op == token.EQL)))
		}
		if x.Op == token.NEQ {
			p = negPred(p)
		}
		return set(p)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if aok && bok && ca.V.Kind() == cb.V.Kind() {
			return set(cBool(constant.Compare(ca.V, x.Op, cb.V)))
		}
		if aok && bok {
			return set(cBool(constant.Compare(constant.ToFloat(ca.V), x.Op, constant.ToFloat(cb.V))))
		}
		switch x.Op {
		case token.LSS:
			return set(&VPred{Op: "lt", X: a, Y: b})
		case token.GTR:
			return set(&VPred{Op: "lt", X: b, Y: a})
		case token.LEQ:
			return set(&VPred{Op: "lt", X: b, Y: a, Neg: true})
		default:
			return set(&VPred{Op: "lt", X: a, Y: b, Neg: true})
		}
	case token.ADD, token.SUB:
		if i, ok := a.(*VIdx); ok {
			if n, ok := constInt(b); ok && (n == 1 || n == -1) {
				fwd := (n == 1) == (x.Op == token.ADD)
				return set(idxStep(i, fwd))
			}
		}
		if i, ok := b.(*VIdx); ok && x.Op == token.ADD {
			if n, ok := constInt(a); ok && n == 1 {
				return set(idxStep(i, true))
			}
		}
		if l, ok := a.(VLen); ok {
			if n, ok := constInt(b); ok {
				if x.Op == token.SUB {
					n = -n
				}
				return set(VLen{l.O, l.Off + n})
			}
		}
		if aok && bok && ca.V.Kind() == constant.Int && cb.V.Kind() == constant.Int {
			r := constant.BinaryOp(ca.V, x.Op, cb.V)
			if n, ok := constant.Int64Val(r); ok {
				if _, isC := x.Y.(*ssa.Const); isC && (n > int64(max(24, st.many)) || n < -24) && in.inLoop(x) {
					return set(&VSym{ID: "int:" + in.instrName(f), T: x.Type(), Sum: true})
				}
			}
			return set(VConst{r, x.Type()})
		}
		if s, ok := a.(*VSym); ok && s.Sum && strings.HasPrefix(s.ID, "int:") {
			return set(s)
		}
		if aok && bok && ca.V.Kind() == constant.String {
			return set(VConst{constant.BinaryOp(ca.V, token.ADD, cb.V), x.Type()})
		}
	}
	if aok && bok {
		switch x.Op {
		case token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			if !(x.Op == token.REM && constant.Sign(cb.V) == 0) {
				return set(VConst{constant.BinaryOp(ca.V, x.Op, cb.V), x.Type()})
			}
		case token.QUO:
			if constant.Sign(cb.V) != 0 {
				op := token.QUO
				if ca.V.Kind() == constant.Int && cb.V.Kind() == constant.Int {
					op = token.QUO_ASSIGN
				}
				return set(VConst{constant.BinaryOp(ca.V, op, cb.V), x.Type()})
			}
		}
	}
	v := &VApp{F: "op" + x.Op.String(), Args: []Value{a, b}, T: x.Type()}
	if len(v.K()) > 400 {
		return set(st.freshSym(in.instrName(f), x.Type()))
	}
	return set(v)
}

func (in *Interp) inLoop(x ssa.Instruction) bool {
	b := x.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var w func(c *ssa.BasicBlock) bool
	w = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if w(s) {
					return true
				}
			}
		}
		return false
	}
	return w(b)
}

func idxStep(i *VIdx, fwd bool) Value {
	if fwd {
		switch i.At {
		case idxElem:
			return &VIdx{O: i.O, G: i.G + 1, At: idxFwd}
		case idxOther:
			return &VIdx{O: i.O, G: i.G, At: idxFwd}
		case idxStart:
			return &VIdx{O: i.O, G: 0, At: idxFwd}
		case idxBwd: // x-1+1
			return &VIdx{O: i.O, G: i.G, At: idxFwd}
		}
		return &VIdx{O: i.O, G: i.G, At: i.At}
	}
	switch i.At {
	case idxElem, idxOther:
		return &VIdx{O: i.O, G: i.G, At: idxBwd}
	case idxEnd:
		return &VIdx{O: i.O, G: i.G, At: idxBwd}
	case idxFwd:
		return &VIdx{O: i.O, G: i.G, At: idxBwd}
	}
	return i
}

// resolve lists the concrete situations an uncompared position can be in.
func (in *Interp) resolve(st *State, i *VIdx) []*VIdx {
	o := st.obj(i.O)
	if o == nil {
		return nil
	}
	n := len(o.Elems)
	var res []*VIdx
	pre := "at:" + i.O
	switch i.At {
	case idxFwd:
		if i.G < n {
			res = append(res, &VIdx{O: i.O, G: i.G, At: idxElem, Elem: o.Elems[i.G]})
		}
		if o.Other != nil {
			for _, v := range in.otherInstances(st, o.Other, pre) {
				res = append(res, &VIdx{O: i.O, G: i.G, At: idxOther, Elem: v})
			}
		}
		if i.G >= n {
			res = append(res, &VIdx{O: i.O, G: n, At: idxEnd})
		}
	case idxBwd:
		if i.G > 0 && i.G-1 < n {
			res = append(res, &VIdx{O: i.O, G: i.G - 1, At: idxElem, Elem: o.Elems[i.G-1]})
		}
		if o.Other != nil {
			for _, v := range in.otherInstances(st, o.Other, pre) {
				res = append(res, &VIdx{O: i.O, G: i.G, At: idxOther, Elem: v})
			}
		}
		if i.G == 0 {
			res = append(res, &VIdx{O: i.O, G: 0, At: idxStart})
		}
	default:
		return []*VIdx{i}
	}
	return res
}

// constPos: position c of slice o, as the not yet compared positions it may be.
func (in *Interp) constPos(st *State, o string, c int) []*VIdx {
	cur := []*VIdx{{O: o, G: 0, At: idxFwd}}
	for ; c > 0; c-- {
		var nxt []*VIdx
		seen := map[string]bool{}
		for _, p := range cur {
			for _, r := range in.resolve(st, p) {
				if r.At == idxEnd {
					continue
				}
				s := idxStep(r, true).(*VIdx)
				if !seen[s.K()] {
					seen[s.K()] = true
					nxt = append(nxt, s)
				}
			}
		}
		cur = nxt
	}
	return cur
}

// cmpIndex handles comparisons of positions with lengths.
func (in *Interp) cmpIndex(st *State, x *ssa.BinOp, a, b Value) ([]*State, bool) {
	op := x.Op
	ra, rb := x.X, x.Y
	la, aIsLen := a.(VLen)
	lb, bIsLen := b.(VLen)
	if aIsLen && !bIsLen { // mirror: put the length on the right
		a, b = b, a
		ra, rb = rb, ra
		la, lb = lb, la
		aIsLen, bIsLen = bIsLen, aIsLen
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	_ = la
	f := st.top()
	// decide value of x in a state given the order of position relative to length
	done := func(s *State, r bool) *State {
		ff := s.top()
		ff.regs[x] = cBool(r)
		ff.idx++
		return s
	}
	if bIsLen && !aIsLen {
		o := st.obj(lb.O)
		if o == nil {
			return nil, false
		}
		var cands []*VIdx
		if i, ok := a.(*VIdx); ok && i.O == lb.O {
			cands = []*VIdx{i}
		} else if c, ok := constInt(a); ok {
			_, lit := ra.(*ssa.Const)
			if lit {
				return in.cmpEmptiness(st, x, op, c, lb, o, done)
			}
			if c < 0 {
				cands = []*VIdx{{O: lb.O, At: idxStart}}
			} else if c <= 3 {
				cands = in.constPos(st, lb.O, c)
			}
		}
		if cands == nil {
			return nil, false
		}
		if lb.Off != 0 && lb.Off != -1 {
			return nil, false
		}
		var res []*State
		for _, c := range cands {
			for _, r := range in.resolve(st, c) {
				s := st.clone()
				// the register now denotes this position
				if _, isC := ra.(*ssa.Const); !isC {
					s.top().regs[ra] = r
				}
				if lb.Off == 0 {
					var v bool
					atEnd := r.At == idxEnd
					switch op {
					case token.LSS, token.NEQ:
						v = !atEnd
					case token.GEQ, token.EQL:
						v = atEnd
					case token.LEQ:
						v = true
					case token.GTR:
						v = false
					}
					res = append(res, done(s, v))
					continue
				}
				// compared with len-1
				switch op {
				case token.LEQ:
					res = append(res, done(s, r.At != idxEnd))
				case token.GTR:
					res = append(res, done(s, r.At == idxEnd))
				default:
					// i < len-1: last position excluded
					last := []bool{true, false}
					if r.At == idxEnd {
						last = []bool{false}
					} else if (r.At == idxElem && r.G < len(o.Elems)-1) || (r.At == idxOther && r.G < len(o.Elems)) || r.At == idxStart {
						last = []bool{false}
					} else if r.At == idxElem && o.Other == nil {
						last = []bool{true}
					}
					for _, isLast := range last {
						t := s.clone()
						var v bool
						switch op {
						case token.LSS:
							v = r.At != idxEnd && !isLast
						case token.GEQ:
							v = !(r.At != idxEnd && !isLast)
						case token.EQL:
							v = isLast
						case token.NEQ:
							v = !isLast
						}
						res = append(res, done(t, v))
					}
				}
			}
		}
		_ = f
		return res, true
	}
	// descending loops: position compared with 0 or -1
	if c, ok := constInt(b); ok && (c == 0 || c == -1) {
		var cand *VIdx
		switch i := a.(type) {
		case *VIdx:
			cand = i
		case VLen:
			if i.Off == -1 {
				if o := st.obj(i.O); o != nil {
					cand = &VIdx{O: i.O, G: len(o.Elems), At: idxBwd}
				}
			}
		}
		if cand == nil {
			return nil, false
		}
		if cand.At == idxFwd {
			return nil, false
		}
		var res []*State
		for _, r := range in.resolve(st, cand) {
			s := st.clone()
			s.top().regs[ra] = r
			neg := r.At == idxStart
			switch {
			case c == 0 && op == token.GEQ, c == -1 && op == token.GTR, c == -1 && op == token.NEQ:
				res = append(res, done(s, !neg))
			case c == 0 && op == token.LSS, c == -1 && op == token.LEQ, c == -1 && op == token.EQL:
				res = append(res, done(s, neg))
			default:
				// i > 0, i == 0 ...: the first position is special
				first := []bool{true, false}
				if neg || r.At == idxEnd {
					first = []bool{false}
				} else if r.G > 0 {
					first = []bool{false}
				} else if st.obj(r.O).Other == nil {
					first = []bool{true}
				}
				for _, fi := range first {
					t := s.clone()
					var v bool
					switch op {
					case token.GTR:
						v = !neg && !fi
					case token.LEQ:
						v = neg || fi
					case token.EQL:
						v = fi
					case token.NEQ:
						v = !fi
					}
					res = append(res, done(t, v))
				}
			}
		}
		return res, true
	}
	return nil, false
}

// cmpLen decides comparisons of the length of an untracked value with 0 or 1 as its
// emptiness; that of a string is its equality with "".
func (st *State) cmpLen(op token.Token, a, b Value) Value {
	if _, ok := constInt(a); ok {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	l, ok := a.(*VApp)
	c, isC := constInt(b)
	if !ok || l.F != "len" || len(l.Args) != 1 || !isC {
		return nil
	}
	var empty bool // the comparison says "empty"
	switch {
	case c == 0 && (op == token.EQL || op == token.LEQ), c == 1 && op == token.LSS:
		empty = true
	case c == 0 && (op == token.NEQ || op == token.GTR), c == 1 && op == token.GEQ:
	case c == 0 && op == token.GEQ:
		return cBool(true)
	case c == 0 && op == token.LSS:
		return cBool(false)
	default:
		return nil
	}
	var x, y Value = l, cInt(0)
	if t := valType(l.Args[0]); t != nil {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			x, y = l.Args[0], VConst{constant.MakeString(""), t}
		}
	}
	t, p := st.eq(x, y)
	if t != unknown {
		return cBool((t == yes) == empty)
	}
	if !empty {
		p = negPred(p)
	}
	return p
}

// cmpEmptiness handles "c op len(s)" with a literal c.
func (in *Interp) cmpEmptiness(st *State, x *ssa.BinOp, op token.Token, c int, l VLen, o *Obj, done func(*State, bool) *State) ([]*State, bool) {
	c -= l.Off
	min := len(o.Elems)
	if o.NonEmpty && min == 0 {
		min = 1
	}
	if o.Other == nil {
		n := len(o.Elems)
		var v bool
		switch op {
		case token.LSS:
			v = c < n
		case token.LEQ:
			v = c <= n
		case token.GTR:
			v = c > n
		case token.GEQ:
			v = c >= n
		case token.EQL:
			v = c == n
		case token.NEQ:
			v = c != n
		}
		return []*State{done(st, v)}, true
	}
	switch op {
	case token.LSS:
		if c < min {
			return []*State{done(st, true)}, true
		}
	case token.LEQ:
		if c <= min {
			return []*State{done(st, true)}, true
		}
	case token.GTR:
		if c <= min {
			return []*State{done(st, false)}, true
		}
	case token.GEQ:
		if c < min {
			return []*State{done(st, false)}, true
		}
	case token.EQL:
		if c < min {
			return []*State{done(st, false)}, true
		}
	case token.NEQ:
		if c < min {
			return []*State{done(st, true)}, true
		}
	}
	emptyTest := min == 0 && (c == 0 && (op == token.LSS || op == token.EQL || op == token.NEQ || op == token.GEQ) ||
		c == 1 && (op == token.LEQ || op == token.GTR))
	if emptyTest {
		e := st.clone()
		m := e.mut(l.O)
		m.Other, m.OtherKey = nil, nil
		e.note(x.Pos(), "assume empty")
		ne := st.clone()
		ne.mut(l.O).NonEmpty = true
		ne.note(x.Pos(), "assume not empty")
		var onEmpty bool
		switch op {
		case token.LSS, token.NEQ, token.LEQ:
			onEmpty = false
		default:
			onEmpty = true
		}
		return []*State{done(e, onEmpty), done(ne, !onEmpty)}, true
	}
	return nil, false
}

// ---- slices ---------------------------------------------------------------------

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr, id string, i Value) []*State {
	f := st.top()
	o := st.obj(id)
	if n, ok := constInt(i); ok && o != nil && o.Slots == nil {
		if n < 0 {
			return in.rtPanic(st, x.Pos(), "index out of range")
		}
		var res []*State
		if n <= 3 {
			for _, c := range in.constPos(st, id, n) {
				for _, r := range in.resolve(st, c) {
					if r.At == idxEnd || r.At == idxStart {
						continue // out of range: assume the code knows the length
					}
					s := st.clone()
					ff := s.top()
					ff.regs[x] = VEPtr{id, r, ""}
					ff.idx++
					res = append(res, s)
				}
			}
			if res == nil {
				return in.rtPanic(st, x.Pos(), "index out of range")
			}
			return res
		}
	}
	if ix, ok := i.(*VIdx); ok && ix.O == id {
		if ix.At == idxFwd || ix.At == idxBwd {
			var res []*State
			for _, r := range in.resolve(st, ix) {
				if r.At == idxEnd || r.At == idxStart {
					continue
				}
				s := st.clone()
				ff := s.top()
				ff.regs[x] = VEPtr{id, r, ""}
				ff.idx++
				res = append(res, s)
			}
			if res == nil {
				return in.rtPanic(st, x.Pos(), "index out of range")
			}
			return res
		}
		if ix.At == idxEnd || ix.At == idxStart {
			return in.rtPanic(st, x.Pos(), "index out of range")
		}
	}
	if l, ok := i.(VLen); ok && l.O == id && l.Off == -1 && o != nil {
		// last element
		var res []*State
		for _, r := range in.resolve(st, &VIdx{O: id, G: len(o.Elems), At: idxBwd}) {
			if r.At == idxStart {
				continue
			}
			s := st.clone()
			ff := s.top()
			ff.regs[x] = VEPtr{id, r, ""}
			ff.idx++
			res = append(res, s)
		}
		if res == nil {
			return in.rtPanic(st, x.Pos(), "index out of range")
		}
		return res
	}
	f.regs[x] = VEPtr{id, i, ""}
	f.idx++
	return []*State{st}
}

func slotKey(i Value) (string, bool) {
	if ix, ok := i.(*VIdx); ok && ix.At == idxElem {
		return ix.O + ":" + strconv.Itoa(ix.G), true
	}
	if n, ok := constInt(i); ok {
		return "c" + strconv.Itoa(n), true
	}
	return "", false
}

// elemValue reads an element; alternatives are possible for unknown positions.
func (in *Interp) elemValues(st *State, p VEPtr, pre string) []Value {
	o := st.obj(p.O)
	if o == nil {
		return []Value{st.freshSym(pre, nil)}
	}
	if o.Slots != nil {
		if k, ok := slotKey(p.I); ok {
			if j, in2 := o.Slots[k]; in2 {
				return []Value{o.Elems[j]}
			}
			return []Value{zeroElem(o)}
		}
	}
	if n, ok := constInt(p.I); ok && o.Other == nil && n >= 0 && n < len(o.Elems) {
		return []Value{o.Elems[n]}
	}
	if ix, ok := p.I.(*VIdx); ok && ix.O == p.O {
		if ix.At == idxElem && ix.G < len(o.Elems) {
			return []Value{o.Elems[ix.G]}
		}
		if ix.Elem != nil {
			return []Value{ix.Elem}
		}
	}
	res := append([]Value(nil), o.Elems...)
	if o.Other != nil {
		res = append(res, in.otherInstances(st, o.Other, pre)...)
	}
	return res
}

func zeroElem(o *Obj) Value {
	if s, ok := o.T.Underlying().(*types.Slice); ok {
		return zero(s.Elem())
	}
	return VNil{}
}

func selectPath(st *State, v Value, path string, t types.Type) Value {
	for path != "" {
		path = path[1:]
		i := strings.IndexByte(path, '.')
		var n string
		if i < 0 {
			n, path = path, ""
		} else {
			n, path = path[:i], path[i:]
		}
		s, ok := v.(*VStruct)
		if !ok {
			v = &VApp{F: "part." + n, Args: []Value{v}, T: t}
			continue
		}
		u := s.T.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == n {
				v = s.F[j]
			}
		}
	}
	return v
}

func updatePath(v Value, path string, nv Value) Value {
	if path == "" {
		return nv
	}
	s, ok := v.(*VStruct)
	if !ok {
		return v
	}
	path = path[1:]
	i := strings.IndexByte(path, '.')
	n, rest := path, ""
	if i >= 0 {
		n, rest = path[:i], path[i:]
	}
	u := s.T.Underlying().(*types.Struct)
	c := &VStruct{T: s.T, F: append([]Value(nil), s.F...)}
	for j := 0; j < u.NumFields(); j++ {
		if u.Field(j).Name() == n {
			c.F[j] = updatePath(c.F[j], rest, nv)
		}
	}
	return c
}

func (in *Interp) loadElem(st *State, x *ssa.UnOp, p VEPtr) []*State {
	vals := in.elemValues(st, p, in.instrName(st.top()))
	var res []*State
	for i, v := range vals {
		s := st
		if i < len(vals)-1 {
			s = st.clone()
		}
		f := s.top()
		f.regs[x] = selectPath(s, v, p.P, x.Type())
		f.idx++
		res = append(res, s)
	}
	if len(res) == 0 {
		panic(stopReq{})
	}
	return res
}

func (in *Interp) storeElem(st *State, p VEPtr, v Value) {
	if st.obj(p.O) == nil {
		return
	}
	o := st.mut(p.O)
	if o.Slots != nil {
		if k, ok := slotKey(p.I); ok {
			if j, in2 := o.Slots[k]; in2 {
				o.Elems[j] = updatePath(o.Elems[j], p.P, v)
			} else {
				o.Slots[k] = len(o.Elems)
				base := zeroElem(o)
				o.Elems = append(o.Elems, updatePath(base, p.P, v))
			}
			return
		}
		if p.P == "" {
			in.addOther(st, o, v)
		}
		return
	}
	if n, ok := constInt(p.I); ok && o.Other == nil && n >= 0 && n < len(o.Elems) {
		o.Elems[n] = updatePath(o.Elems[n], p.P, v)
		return
	}
	if ix, ok := p.I.(*VIdx); ok && ix.O == p.O && ix.At == idxElem && ix.G < len(o.Elems) {
		o.Elems[ix.G] = updatePath(o.Elems[ix.G], p.P, v)
		return
	}
	if p.P == "" {
		if in.reaches(st, v) {
			o.Elems = append(o.Elems, v)
		} else if o.Other != nil {
			in.addOther(st, o, v)
		}
	}
}

func (in *Interp) store(st *State, x *ssa.Store) []*State {
	f := st.top()
	v := in.val(st, x.Val)
	a := in.val(st, x.Addr)
	switch p := a.(type) {
	case VPtr:
		in.event(st, "store", x.Pos(), p, v)
		st.storeCell(p.O, p.P, x.Val.Type(), v)
		if strings.HasPrefix(p.O, "G:") && st.heap[p.O] != nil {
			st.mut(p.O).Mark = "mod"
		}
	case VEPtr:
		in.event(st, "storeelem", x.Pos(), p, v)
		in.storeElem(st, p, v)
	case VNil:
		return in.rtPanic(st, x.Pos(), "nil dereference")
	default:
		id := st.symObj(a, x.Val.Type())
		in.event(st, "store", x.Pos(), VPtr{id, ""}, v)
		st.storeCell(id, "", x.Val.Type(), v)
	}
	f.idx++
	return []*State{st}
}

func (in *Interp) sliceOp(st *State, x *ssa.Slice, name string) []*State {
	f := st.top()
	v := in.val(st, x.X)
	set := func(v Value) []*State { f.regs[x] = v; f.idx++; return []*State{st} }
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr, isArr := p.Elem().Underlying().(*types.Array)
		vp, isPtr := v.(VPtr)
		if isArr && isPtr && arr.Len() <= 64 {
			o := &Obj{Kind: "slice", T: x.Type()}
			for i := 0; i < int(arr.Len()); i++ {
				o.Elems = append(o.Elems, st.loadCell(vp.O, vp.P+"["+strconv.Itoa(i)+"]", arr.Elem()))
			}
			if h, ok := x.High.(*ssa.Const); ok {
				if n, ok := constInt(in.val(st, h)); ok && n <= len(o.Elems) {
					o.Elems = o.Elems[:n]
				}
			}
			if len(o.Elems) > 16 {
				in.normSlice(st, o)
			}
			return set(VSlice{st.freshObj(name, o)})
		}
		return set(st.freshSym(name, x.Type()))
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if str, ok := constString(v); ok {
			lo, hi, known := 0, len(str), true
			if x.Low != nil {
				n, ok := constInt(in.val(st, x.Low))
				lo, known = n, known && ok
			}
			if x.High != nil {
				n, ok := constInt(in.val(st, x.High))
				hi, known = n, known && ok
			}
			if known {
				if lo < 0 || hi > len(str) || lo > hi {
					return in.rtPanic(st, x.Pos(), "slice bounds out of range")
				}
				return set(VConst{constant.MakeString(str[lo:hi]), x.Type()})
			}
		}
		args := []Value{v}
		for _, e := range []ssa.Value{x.Low, x.High} {
			if e != nil {
				args = append(args, in.val(st, e))
			} else {
				args = append(args, VNil{})
			}
		}
		return set(&VApp{F: "substr", Args: args, T: x.Type(), NonNil: true})
	}
	v = in.asSlice(st, v, x.X.Type())
	sl, ok := v.(VSlice)
	if !ok {
		return set(v) // nil[:]
	}
	o := st.obj(sl.O)
	if o == nil {
		return set(st.freshSym(name, x.Type()))
	}
	get := func(e ssa.Value) Value {
		if e == nil {
			return nil
		}
		return in.val(st, e)
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	n := &Obj{Kind: "slice", T: x.Type(), Alias: sl.O, Mark: o.Mark}
	if o.Mark == "mod" {
		n.Mark = ""
	}
	if o.Alias != "" {
		n.Alias = o.Alias
	}
	if max != nil {
		n.Capped = hi != nil && hi.K() == max.K()
	}
	from, to := 0, len(o.Elems)
	other := o.Other
	exact := true
	if lo != nil {
		switch l := lo.(type) {
		case VConst:
			c, _ := constInt(l)
			if o.Other == nil {
				from = c
			} else if c != 0 {
				exact = false
			}
		case *VIdx:
			if l.O == sl.O {
				from = l.G
			} else {
				exact = false
			}
		default:
			exact = false
		}
	}
	if hi != nil {
		switch h := hi.(type) {
		case VConst:
			c, _ := constInt(h)
			if o.Other == nil {
				to = c
			} else if c == 0 {
				to, other = 0, nil
			} else {
				exact = false
			}
		case *VIdx:
			if h.O == sl.O {
				to = h.G
			} else {
				exact = false
			}
		case VLen:
			if h.O != sl.O || h.Off != 0 {
				exact = false
			}
		default:
			exact = false
		}
	}
	if exact && (from < 0 || to > len(o.Elems) || from > to) {
		if from > to && from <= len(o.Elems) {
			to = from
		} else {
			return in.rtPanic(st, x.Pos(), "slice bounds out of range")
		}
	}
	if exact {
		n.Elems = append([]Value(nil), o.Elems[from:to]...)
		n.Other = other
		if o.Slots != nil && from == 0 && to == len(o.Elems) {
			n.Slots, n.LenOf = o.Slots, o.LenOf
		}
		if from == 0 && to == len(o.Elems) && n.Other == o.Other && !n.Capped {
			return set(v)
		}
		return set(VSlice{st.freshObj(name, n)})
	}
	// unknown bounds: each tracked element may or may not be inside
	var res []*State
	for mask := 0; mask < 1<<len(o.Elems) && len(o.Elems) <= 4; mask++ {
		c := st.clone()
		m := *n
		m.Elems = nil
		for i, e := range o.Elems {
			if mask&(1<<i) != 0 {
				m.Elems = append(m.Elems, e)
			}
		}
		m.Other = other
		id := c.freshObj(name, &m)
		cf := c.top()
		cf.regs[x] = VSlice{id}
		cf.idx++
		res = append(res, c)
	}
	return res
}

// appendOp models append(a, b...).
func (in *Interp) appendOp(st *State, name string, t types.Type, a, b Value) Value {
	a, b = in.asSlice(st, a, t), in.asSlice(st, b, t)
	n := &Obj{Kind: "slice", T: t}
	nonEmpty := false
	if s, ok := a.(VSlice); ok {
		if o := st.obj(s.O); o != nil {
			n.Elems = append(n.Elems, o.Elems...)
			n.Other = o.Other
			nonEmpty = nonEmpty || o.NonEmpty
			if !o.Capped {
				n.Alias = s.O
				if o.Alias != "" {
					n.Alias = o.Alias
				}
			}
		}
	}
	if s, ok := b.(VSlice); ok {
		if o := st.obj(s.O); o != nil {
			if len(n.Elems) == 0 && n.Other == nil && n.Alias == "" && a.K() == "nil" {
				n.Elems = append(n.Elems, o.Elems...)
			} else {
				n.Elems = append(n.Elems, o.Elems...)
			}
			for _, alt := range alternatives(o.Other) {
				in.addOther(st, n, alt)
			}
			nonEmpty = nonEmpty || o.NonEmpty
		}
	} else if _, ok := b.(VNil); ok {
		if _, ok := a.(VNil); ok {
			return VNil{}
		}
		return a
	}
	n.NonEmpty = nonEmpty || len(n.Elems) > 0
	if n.Other == nil {
		n.NonEmpty = false
	}
	in.normSlice(st, n)
	id := name
	if i := strings.Index(id, "#"); i >= 0 {
		id = id[:i]
	}
	n.Alias = trimAlias(st, n.Alias)
	return VSlice{st.freshObj(name, n)}
}

// trimAlias keeps alias information only for objects the environment owns.
func trimAlias(st *State, a string) string {
	for i := 0; i < 5 && a != ""; i++ {
		if strings.HasPrefix(a, "H:") || strings.HasPrefix(a, "sl*") || strings.HasPrefix(a, "G:") {
			return a
		}
		o := st.heap[a]
		if o == nil {
			return ""
		}
		a = o.Alias
	}
	return ""
}

// ---- maps -------------------------------------------------------------------------

func (in *Interp) mapFind(st *State, o *Obj, k Value) int {
	for i, ek := range o.Keys {
		if in.equal(st, ek, k) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapStore(st *State, id string, k, v Value) {
	o := st.obj(id)
	if o == nil {
		return
	}
	i := in.mapFind(st, o, k)
	m := st.mut(id)
	if strings.HasPrefix(id, "G:") || in.baseHas(id) {
		m.Mark = "mod"
	}
	if i >= 0 {
		m.Elems[i] = v
		return
	}
	if hasSum(k) || (m.Other != nil && !in.reaches(st, k) && !in.reaches(st, v)) {
		if m.OtherKey == nil {
			m.OtherKey = k
		} else {
			m.OtherKey = altOf(append(alternatives(m.OtherKey), dedupe(m.OtherKey, k)...))
		}
		in.addOther(st, m, v)
		return
	}
	at := len(m.Keys)
	if !st.iterating(id) {
		// the order of insertion is not observable
		at = sort.Search(len(m.Keys), func(j int) bool { return m.Keys[j].K() >= k.K() })
	}
	m.Keys = append(m.Keys[:at:at], append([]Value{k}, m.Keys[at:]...)...)
	m.Elems = append(m.Elems[:at:at], append([]Value{v}, m.Elems[at:]...)...)
	un := []int{}
	for j := range m.Keys {
		if !in.reaches(st, m.Keys[j]) && !in.reaches(st, m.Elems[j]) {
			un = append(un, j)
		}
	}
	if len(un) > 5 {
		var ks, vs []Value
		drop := map[int]bool{}
		for _, j := range un {
			drop[j] = true
		}
		for j := range m.Keys {
			if drop[j] {
				m.OtherKey = altOf(append(alternatives(m.OtherKey), dedupe(m.OtherKey, m.Keys[j])...))
				in.addOther(st, m, m.Elems[j])
			} else {
				ks = append(ks, m.Keys[j])
				vs = append(vs, m.Elems[j])
			}
		}
		m.Keys, m.Elems = ks, vs
	}
}

// iterating: is an iteration over the map in progress?
func (st *State) iterating(id string) bool {
	for _, f := range st.frames {
		for _, v := range f.regs {
			if it, ok := v.(*VIter); ok && it.O == id && it.Stage != "end" {
				return true
			}
		}
	}
	return false
}

func dedupe(alt, v Value) []Value {
	for _, a := range alternatives(alt) {
		if a.K() == v.K() {
			return nil
		}
	}
	return []Value{v}
}

func (in *Interp) baseHas(id string) bool { _, ok := in.base[id]; return ok }

func (in *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	f := st.top()
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if str, ok := constString(in.val(st, x.X)); ok {
			if n, ok := constInt(in.val(st, x.Index)); ok {
				if n < 0 || n >= len(str) {
					return in.rtPanic(st, x.Pos(), "index out of range")
				}
				f.regs[x] = VConst{constant.MakeInt64(int64(str[n])), x.Type()}
				f.idx++
				return []*State{st}
			}
		}
		f.regs[x] = &VApp{F: "strindex", Args: []Value{in.val(st, x.X), in.val(st, x.Index)}, T: x.Type()}
		f.idx++
		return []*State{st}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := in.asMap(st, in.val(st, x.X), x.X.Type())
	k := in.val(st, x.Index)
	in.event(st, "mapread", x.Pos(), m, k)
	fin := func(s *State, v Value, ok bool) *State {
		ff := s.top()
		if x.CommaOk {
			ff.regs[x] = &VTuple{[]Value{v, cBool(ok)}}
		} else {
			ff.regs[x] = v
		}
		ff.idx++
		return s
	}
	mv, ok := m.(VMap)
	if !ok {
		return []*State{fin(st, zero(mt.Elem()), false)}
	}
	o := st.obj(mv.O)
	if o == nil {
		return []*State{fin(st, st.freshSym(in.instrName(f), mt.Elem()), true)}
	}
	if i := in.mapFind(st, o, k); i >= 0 {
		return []*State{fin(st, o.Elems[i], true)}
	}
	if o.Other == nil {
		return []*State{fin(st, zero(mt.Elem()), false)}
	}
	p := &VPred{Op: "in", X: mv, Y: k}
	if !in.decide(st, unknown, p) {
		return []*State{fin(st, zero(mt.Elem()), false)}
	}
	vals := in.otherInstances(st, o.Other, in.instrName(f))
	var res []*State
	for i, v := range vals {
		s := st
		if i < len(vals)-1 {
			s = st.clone()
		}
		if !hasSum(k) {
			om := s.mut(mv.O)
			om.Keys = append(om.Keys, k)
			om.Elems = append(om.Elems, v)
			if strings.HasPrefix(mv.O, "G:") || in.baseHas(mv.O) {
				om.Mark = "mod"
			}
		}
		res = append(res, fin(s, v, true))
	}
	return res
}

func (in *Interp) next(st *State, x *ssa.Next, name string) []*State {
	f := st.top()
	it := in.val(st, x.Iter).(*VIter)
	tup := x.Type().(*types.Tuple)
	emit := func(s *State, ok bool, k, v Value, ni *VIter) *State {
		ff := s.top()
		ff.regs[x] = &VTuple{[]Value{cBool(ok), k, v}}
		ff.regs[x.Iter] = ni
		ff.idx++
		return s
	}
	if it.Stage == "end" {
		return []*State{emit(st, false, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type()), it)}
	}
	if it.Stage == "str" {
		e := st.clone()
		return []*State{
			emit(st, true, st.freshSym(name+"k", tup.At(1).Type()), st.freshSym(name+"v", tup.At(2).Type()), it),
			emit(e, false, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type()), &VIter{Stage: "end"}),
		}
	}
	_ = f
	in.event(st, "mapread", x.Iter.Pos(), VMap{it.O})
	o := st.obj(it.O)
	if o == nil {
		return []*State{emit(st, false, VNil{}, VNil{}, it)}
	}
	if len(o.Elems) > 256 {
		st.Set(taintKey, "a map of more than 256 entries")
	}
	var res []*State
	all := true
	pick := -1
	if in.opt("oneorder") && o.Other == nil {
		// one iteration order per scenario, not all of them
		var left []int
		for i := range o.Elems {
			if !it.Visited.has(i) {
				left = append(left, i)
			}
		}
		if len(left) > 0 {
			h := rng(len(in.Scenario) + 1)
			for _, c := range in.Scenario {
				h = h*31 + rng(c)
			}
			h += rng(it.Visited[0]^it.Visited[1]^it.Visited[2]^it.Visited[3]) * 0x9E3779B97F4A7C15
			h.n(2)
			pick = left[h.n(len(left))]
		}
	}
	for i := range o.Elems {
		if it.Visited.has(i) {
			continue
		}
		all = false
		if pick >= 0 && i != pick {
			continue
		}
		s := st.clone()
		res = append(res, emit(s, true, o.Keys[i], o.Elems[i], &VIter{O: it.O, Visited: it.Visited.with(i)}))
	}
	if o.Other != nil {
		for _, v := range in.otherInstances(st, o.Other, name+"v") {
			for _, k := range in.otherInstances(st, o.OtherKey, name+"k") {
				s := st.clone()
				res = append(res, emit(s, true, k, v, it))
			}
		}
	}
	if all {
		s := st.clone()
		res = append(res, emit(s, false, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type()), &VIter{Stage: "end"}))
	}
	return res
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return zero(t)
}

// haltKey marks a path whose continuation is not of interest.
const haltKey = "halt"

// ---- channels -----------------------------------------------------------------------

func (in *Interp) chanSend(st *State, ch, v Value) {
	c, ok := ch.(VChan)
	if !ok || st.obj(c.O) == nil {
		return
	}
	o := st.mut(c.O)
	o.Elems = append(o.Elems, v)
	in.normSlice(st, o)
}

func (in *Interp) chanRecv(st *State, ch Value, t types.Type, name string) (states []*State, vals []Value, oks []bool) {
	c, ok := ch.(VChan)
	if !ok || st.obj(c.O) == nil {
		return []*State{st}, []Value{st.freshSym(name, t)}, []bool{true}
	}
	o := st.obj(c.O)
	if len(o.Elems) > 0 {
		// order among tracked and other elements is unknown when both exist
		s := st.clone()
		m := s.mut(c.O)
		v := m.Elems[0]
		m.Elems = m.Elems[1:]
		states, vals, oks = append(states, s), append(vals, v), append(oks, true)
	}
	if o.Other != nil {
		for _, v := range in.otherInstances(st, o.Other, name) {
			s := st.clone()
			states, vals, oks = append(states, s), append(vals, v), append(oks, true)
		}
	}
	if len(o.Elems) == 0 && o.Closed {
		s := st.clone()
		states, vals, oks = append(states, s), append(vals, zero(t)), append(oks, false)
	}
	return
}

func (in *Interp) recv(st *State, x *ssa.UnOp, ch Value, name string) []*State {
	t := x.X.Type().Underlying().(*types.Chan).Elem()
	in.event(st, "recv", x.Pos(), ch)
	if st.Get(haltKey) != "" {
		return []*State{}
	}
	ss, vs, oks := in.chanRecv(st, ch, t, name)
	var res []*State
	for i, s := range ss {
		f := s.top()
		if x.CommaOk {
			f.regs[x] = &VTuple{[]Value{vs[i], cBool(oks[i])}}
		} else {
			f.regs[x] = vs[i]
		}
		f.idx++
		res = append(res, s)
	}
	return res
}

func (in *Interp) selectStmt(st *State, x *ssa.Select, name string) []*State {
	var res []*State
	nrecv := 0
	for i, c := range x.States {
		chv := in.val(st, c.Chan)
		mk := func(s *State, v Value, ok bool, ri int) *State {
			f := s.top()
			tu := &VTuple{V: []Value{cInt(i), cBool(ok)}}
			k := 0
			for _, d := range x.States {
				if d.Dir != types.RecvOnly {
					continue
				}
				if k == ri {
					tu.V = append(tu.V, v)
				} else {
					tu.V = append(tu.V, zero(d.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
			f.regs[x] = tu
			f.idx++
			s.note(c.Pos, fmt.Sprintf("select case %d", i))
			return s
		}
		if c.Dir == types.RecvOnly {
			s0 := st.clone()
			in.event(s0, "recv", c.Pos, chv)
			if s0.Get(haltKey) != "" {
				nrecv++
				continue
			}
			ss, vs, oks := in.chanRecv(s0, chv, c.Chan.Type().Underlying().(*types.Chan).Elem(), name+strconv.Itoa(i))
			for j, s := range ss {
				s = s.clone()
				res = append(res, mk(s, vs[j], oks[j], nrecv))
			}
			nrecv++
		} else {
			s := st.clone()
			v := in.val(s, c.Send)
			in.chanSend(s, chv, v)
			in.event(s, "send", c.Pos, chv, v)
			res = append(res, mk(s, nil, false, -1))
		}
	}
	if !x.Blocking {
		s := st.clone()
		f := s.top()
		tu := &VTuple{V: []Value{cInt(-1), cBool(false)}}
		for _, d := range x.States {
			if d.Dir == types.RecvOnly {
				tu.V = append(tu.V, zero(d.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		f.regs[x] = tu
		f.idx++
		s.note(x.Pos(), "select default")
		res = append(res, s)
	}
	return res
}

// ---- types -------------------------------------------------------------------------

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert, name string) []*State {
	f := st.top()
	v := in.val(st, x.X)
	iface, toIface := x.AssertedType.Underlying().(*types.Interface)
	fin := func(v Value, ok bool) []*State {
		if x.CommaOk {
			f.regs[x] = &VTuple{[]Value{v, cBool(ok)}}
		} else {
			if !ok {
				return in.rtPanic(st, x.Pos(), "failed type assertion")
			}
			f.regs[x] = v
		}
		f.idx++
		return []*State{st}
	}
	switch i := v.(type) {
	case VNil:
		return fin(zero(x.AssertedType), false)
	case *VIface:
		if toIface {
			if types.Implements(i.T, iface) {
				return fin(v, true)
			}
			return fin(VNil{}, false)
		}
		if types.Identical(i.T, x.AssertedType) {
			return fin(i.V, true)
		}
		return fin(zero(x.AssertedType), false)
	}
	if in.isNil(st, v) {
		return fin(zero(x.AssertedType), false)
	}
	ok := false
	if s, isS := v.(*VSym); isS && s.T != nil && concreteEnv(s.T) {
		if toIface {
			return fin(v, types.Implements(s.T, iface))
		}
		if types.Identical(s.T, x.AssertedType) {
			return fin(v, true)
		}
		return fin(zero(x.AssertedType), false)
	}
	if s, isS := v.(*VSym); isS && s.T != nil && toIface && types.Implements(s.T, iface) {
		ok = true
	} else if a, isA := v.(*VApp); isA && a.T != nil && toIface && types.Implements(a.T, iface) {
		ok = true
	} else {
		p := &VPred{Op: "is", X: v, T: x.AssertedType}
		if !x.CommaOk {
			if b, known := st.lookupFact(p); known && !b {
				ok = false
			} else {
				if !hasSum(v) {
					st.addFact(p, true)
				}
				in.event(st, "assert", x.Pos(), v)
				ok = true
			}
		} else {
			ok = in.decideIs(st, v, x.AssertedType, p)
		}
	}
	if !ok {
		return fin(zero(x.AssertedType), false)
	}
	if toIface {
		return fin(v, true)
	}
	return fin(&VApp{F: "as:" + typeKey(x.AssertedType), Args: []Value{v}, T: x.AssertedType}, true)
}

func (in *Interp) decideIs(st *State, v Value, t types.Type, p *VPred) bool {
	// a positive concrete type excludes the others
	if _, isI := t.Underlying().(*types.Interface); !isI {
		for _, f := range st.facts {
			if f.p.Op == "is" && f.v && f.p.X.K() == v.K() {
				if _, i2 := f.p.T.Underlying().(*types.Interface); !i2 {
					return types.Identical(f.p.T, t)
				}
			}
		}
	}
	return in.decide(st, unknown, p)
}

// concreteEnv: a symbol whose dynamic type is a known user-defined type
func concreteEnv(t types.Type) bool { return isEnvType(t) }

// dumpAt prints the path of the n-th state (for debugging).
var dumpAt, _ = strconv.Atoi(os.Getenv("VERIF_DUMP"))

func (st *State) trail() []string {
	var r []string
	for t := st.tr; t != nil; t = t.prev {
		r = append([]string{t.note}, r...)
	}
	return r
}
