package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// kids are the child lists of one entity; graph gives them for every entity.
type kids map[string][]string
type graph map[string]kids

// parseGraph reads "r.k=s1,w; w.k=x".
func parseGraph(s string) graph {
	g := graph{}
	for _, part := range strings.Split(s, ";") {
		part = strings.TrimSpace(part)
		if part == "" {
			continue
		}
		lr := strings.SplitN(part, "=", 2)
		pk := strings.SplitN(lr[0], ".", 2)
		if g[pk[0]] == nil {
			g[pk[0]] = kids{}
		}
		var l []string
		for _, c := range strings.Split(lr[1], ",") {
			if c = strings.TrimSpace(c); c != "" {
				l = append(l, c)
			}
		}
		g[pk[0]][pk[1]] = l
	}
	return g
}

// gop is one action of the scenario's command.
type gop struct {
	op   string // load add remove graph save dirty get
	args []string
	g    graph
}

type gspec struct {
	name      string
	ops       []gop
	recursive bool
	dirty     []string // entities whose dirty flag is open
	events    map[string][]string
	noID      []string // entities that may lack an ID (all created ones by default)
	wantErr   string   // the save must fail, for that reason
	errRule   string
	typeB     []string
	faults    bool
	notReg    []string // the converter does not know these
	hookless  bool
	leaves    bool
	misuse    string
	form      string // "" MainFunc, "command"
	saveErr   bool
	strict    bool
	pinID     bool
	noIDs     bool // no entity has an ID
	many      int // entities told apart, if more than usual
	// entities that do not say which children they have: their struct fields
	fields map[string]string
	// of those, the ones that do say it; their fields are not to be looked at
	declared []string
}

// visible is the part of a graph that counts.
func (s *gspec) visible(g graph) graph {
	if s.fields == nil {
		return g
	}
	r := graph{}
	for e, ks := range g {
		r[e] = kids{}
		for k, l := range ks {
			f, isField := s.field(e, k)
			switch {
			case contains(s.declared, e):
				if isField {
					continue
				}
			case !isField || f[0] >= 'a' && f[0] <= 'z':
				continue
			}
			r[e][k] = l
		}
	}
	return r
}

func (s *gspec) field(e, k string) (string, bool) {
	for _, f := range strings.Split(s.fields[e], ";") {
		if n, _, _ := strings.Cut(strings.TrimSpace(f), " "); n == k && n != "" {
			return n, true
		}
	}
	return "", false
}

func op(name string, args ...string) gop { return gop{op: name, args: args} }
func gr(s string) gop                    { return gop{op: "graph", g: parseGraph(s)} }

type gchange struct {
	op     int
	parent string // "" for the repository
	key    string
	idx    int  // place among the children under the key
	placed bool // the place decides the order of writing
}

// gmodel is the reference meaning of a run: what has to be changed at each save.
type gmodel struct {
	roots   []string
	base    map[string]map[string][]string // baseline: entity ("" the repository) -> key -> children
	seen    map[string]bool
	cur     graph
	dirty   map[string]bool
	late    map[string][]string
	deleted []string
}

func (m *gmodel) has(e string) bool {
	for _, r := range m.roots {
		if r == e {
			return true
		}
	}
	return false
}

func (m *gmodel) absorb(e string) {
	if m.seen[e] {
		return
	}
	m.seen[e] = true
	b := map[string][]string{}
	for k, l := range m.cur[e] {
		b[k] = append([]string(nil), l...)
	}
	m.base[e] = b
	for _, l := range b {
		for _, c := range l {
			m.absorb(c)
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func without(l []string, s string) []string {
	var r []string
	for _, x := range l {
		if x != s {
			r = append(r, x)
		}
	}
	return r
}

// diff is the specification of change detection (C04), moves (C18) and
// recursive deletion (C19).
func (m *gmodel) diff(recursive bool) (map[string]gchange, string) {
	type ch struct {
		e, parent string
		op        int
		key       string
		idx       int
	}
	var all []ch
	var visit func(p string)
	visit = func(p string) {
		cur := map[string][]string{}
		if p == "" {
			cur["meta"] = m.roots
		} else {
			cur = m.cur[p]
		}
		keys := map[string]bool{}
		for k := range cur {
			keys[k] = true
		}
		for k := range m.base[p] {
			keys[k] = true
		}
		for k := range keys {
			for i, c := range cur[k] {
				if !contains(m.base[p][k], c) {
					all = append(all, ch{c, p, opInsert, k, i})
				} else if m.dirty[c] {
					all = append(all, ch{c, p, opUpdate, k, i})
				}
				visit(c)
			}
			for i, c := range m.base[p][k] {
				if !contains(cur[k], c) {
					all = append(all, ch{c, p, opDelete, k, i})
				}
			}
		}
	}
	visit("")
	by := map[string][]ch{}
	for _, c := range all {
		by[c.e] = append(by[c.e], c)
	}
	// what the baseline holds below a deleted entity is persisted as well
	orphans := map[string]bool{}
	var orphan func(e string)
	orphan = func(e string) {
		for _, l := range m.base[e] {
			for _, c := range l {
				if !orphans[c] {
					orphans[c] = true
					orphan(c)
				}
			}
		}
	}
	for _, c := range all {
		if c.op == opDelete && len(by[c.e]) == 1 {
			orphan(c.e)
		}
	}
	res := map[string]gchange{}
	for e, l := range by {
		switch {
		case len(l) == 1 && l[0].op == opInsert && orphans[e]:
			res[e] = gchange{op: opUpdate, parent: l[0].parent}
		case len(l) == 1:
			res[e] = gchange{l[0].op, l[0].parent, l[0].key, l[0].idx, true}
		case len(l) == 2 && (l[0].op == opInsert && l[1].op == opDelete || l[0].op == opDelete && l[1].op == opInsert):
			p := l[0].parent
			if l[1].op == opInsert {
				p = l[1].parent
			}
			res[e] = gchange{op: opUpdate, parent: p}
		default:
			return nil, "double use of " + e
		}
	}
	if recursive {
		double := ""
		var below func(e string)
		below = func(e string) {
			for _, l := range m.cur[e] {
				for _, c := range l {
					d, dup := res[c]
					if dup && d.op != opDelete {
						double = "double use of " + c
					}
					if !dup {
						res[c] = gchange{op: opDelete, parent: e}
						below(c)
					}
				}
			}
		}
		var del []string
		for e, c := range res {
			if c.op == opDelete {
				del = append(del, e)
			}
		}
		for _, e := range del {
			below(e)
		}
		if double != "" {
			return nil, double
		}
	}
	return res, ""
}

// save advances the reference model over one save.
func (m *gmodel) save(recursive bool) (map[string]gchange, string) {
	d, err := m.diff(recursive)
	if err != "" {
		return nil, err
	}
	for e, c := range d {
		if c.op == opDelete {
			m.deleted = append(m.deleted, e)
		}
	}
	m.base = map[string]map[string][]string{"": {"meta": append([]string(nil), m.roots...)}}
	m.seen = map[string]bool{}
	for _, r := range m.roots {
		m.absorb(r)
	}
	var un func(e string)
	un = func(e string) {
		delete(m.dirty, e)
		for _, l := range m.cur[e] {
			for _, c := range l {
				un(c)
			}
		}
	}
	for _, r := range m.roots {
		un(r)
	}
	return d, ""
}

// reference runs the specification of a scenario.
func (s *gspec) reference(dirty map[string]bool) (saves []map[string]gchange, evs []string, err string) {
	m := &gmodel{base: map[string]map[string][]string{}, seen: map[string]bool{}, cur: graph{}, dirty: map[string]bool{}, late: map[string][]string{}}
	m.base[""] = map[string][]string{"meta": nil}
	for e := range dirty {
		m.dirty[e] = true
	}
	load := func(e string) {
		m.roots = append(m.roots, e)
		m.base[""]["meta"] = append(m.base[""]["meta"], e)
		m.absorb(e)
	}
	for _, o := range s.ops {
		switch o.op {
		case "load", "build", "get":
			for _, e := range o.args {
				load(e)
			}
		case "add":
			m.roots = append(m.roots, o.args...)
		case "remove":
			for _, e := range o.args {
				if !m.has(e) {
					load(e)
				}
				m.roots = without(m.roots, e)
				if !contains(m.base[""]["meta"], e) {
					// added and removed again in the run: never persisted
					continue
				}
			}
			m.deleted = append(m.deleted, o.args...)
		case "event":
			m.late[o.args[0]] = append(m.late[o.args[0]], o.args[1:]...)
		case "graph":
			m.cur = s.visible(o.g)
		case "dirty":
			for _, e := range o.args {
				m.dirty[e] = true
			}
		case "save":
			d, er := m.save(s.recursive)
			if er != "" {
				return saves, nil, er
			}
			saves = append(saves, d)
		}
	}
	d, er := m.diff(s.recursive)
	if er != "" {
		return saves, nil, er
	}
	saves = append(saves, d)
	for e, c := range d {
		if c.op == opDelete {
			m.deleted = append(m.deleted, e)
		}
	}
	set := map[string]bool{}
	var coll func(e string)
	coll = func(e string) {
		for _, v := range s.events[e] {
			set[v] = true
		}
		for _, v := range m.late[e] {
			set[v] = true
		}
		for _, l := range m.cur[e] {
			for _, c := range l {
				coll(c)
			}
		}
	}
	for _, r := range m.roots {
		coll(r)
	}
	for _, r := range m.deleted {
		coll(r)
	}
	for v := range set {
		evs = append(evs, v)
	}
	sort.Strings(evs)
	return saves, evs, ""
}

// entities named in a scenario
func (s *gspec) entities() []string {
	set := map[string]bool{}
	for _, o := range s.ops {
		switch o.op {
		case "graph":
			for e, ks := range o.g {
				set[e] = true
				for _, l := range ks {
					for _, c := range l {
						set[c] = true
					}
				}
			}
		case "save":
		default:
			for _, e := range o.args {
				set[e] = true
			}
		}
	}
	var r []string
	for e := range set {
		r = append(r, e)
	}
	sort.Strings(r)
	return r
}

// place writes a graph into the child lists the entities hand out, in place.
func (g *Eng) place(st *State, s *gspec, gph graph) {
	sl := sliceOf(g.t("IEntity"))
	mt := types.NewMap(types.Typ[types.String], sl)
	for _, e := range s.entities() {
		mid := "H:kids:" + e
		if _, ok := st.heap[mid]; !ok {
			st.heap[mid] = &Obj{Kind: "map", T: mt, Keys: []Value{}}
		}
		o := st.mut(mid)
		o.Keys, o.Elems = []Value{}, nil
		g.placeFields(st, s, e, gph[e])
		var ks []string
		for k := range gph[e] {
			if _, isField := s.field(e, k); !isField {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			id := "H:kids:" + e + ":" + k
			for vid, v := range st.heap {
				// a view of the list sees what is written over it
				if v.Kind == "slice" && v.Alias == id && v.Capped && vid != id {
					m := st.mut(vid)
					m.Elems = append([]Value(nil), m.Elems...)
					for i, c := range gph[e][k] {
						if i < len(m.Elems) {
							m.Elems[i] = g.ent(c)
						}
					}
				}
			}
			st.heap[id] = &Obj{Kind: "slice", T: sl}
			so := st.mut(id)
			for _, c := range gph[e][k] {
				so.Elems = append(so.Elems, g.ent(c))
			}
			if s.leaves {
				so.Elems = append([]Value{}, so.Elems...)
				so.Other = g.leafs(e + "." + k)
			}
			o.Keys = append(o.Keys, cStr(k))
			o.Elems = append(o.Elems, VSlice{id})
		}
		// lists that vanished are emptied in place
		for id, so := range st.heap {
			if strings.HasPrefix(id, "H:kids:"+e+":") && !strings.HasPrefix(id, "H:kids:"+e+":f:") {
				k := strings.TrimPrefix(id, "H:kids:"+e+":")
				if _, ok := gph[e][k]; !ok && len(so.Elems) > 0 {
					m := st.mut(id)
					m.Elems, m.Other = nil, nil
				}
			}
		}
	}
}

// structTypes gives the entities of a scenario struct types of their own.
func (g *Eng) structTypes(s *gspec) {
	ms := methodsOf(g.t("IEntity"))
	if !s.hookless {
		for _, n := range []string{"Create", "Update", "Delete"} {
			ms = append(append(ms, methodsOf(g.t("IBefore"+n))...), methodsOf(g.t("IAfter"+n))...)
		}
	}
	fld := func(n string, t types.Type, emb bool) *types.Var {
		return types.NewField(token.NoPos, g.e.pkg, n, t, emb)
	}
	str := types.Typ[types.String]
	kid := types.NewPointer(g.e.envType("Kid", types.NewStruct([]*types.Var{fld("BaseEntity", g.t("BaseEntity"), true), fld("Name", str, false), fld("Tags", types.NewSlice(str), false)}, nil), ms...))
	var typ func(w string) types.Type
	typ = func(w string) types.Type {
		switch {
		case w == "Kid":
			return kid
		case w == "IEntity":
			return g.t("IEntity")
		case w == "AuditBaseEntity":
			// a struct by value that satisfies IEntity through what it embeds
			return g.e.envType("AuditBaseEntity", types.NewStruct([]*types.Var{fld("BaseEntity", types.NewPointer(g.t("BaseEntity")), true), fld("By", str, false)}, nil))
		case w == "BaseEntity":
			return g.t("BaseEntity")
		case w == "*BaseEntity":
			return types.NewPointer(g.t("BaseEntity"))
		case strings.HasPrefix(w, "[]"):
			return types.NewSlice(typ(w[2:]))
		case strings.HasPrefix(w, "map["):
			k, v, _ := strings.Cut(w[4:], "]")
			return types.NewMap(typ(k), typ(v))
		}
		for _, b := range types.Typ {
			if b.Name() == w {
				return b
			}
		}
		panic("field type " + w)
	}
	g.entT = map[string]types.Type{}
	for _, e := range s.entities() {
		g.entT[e] = kid
		if s.fields[e] == "" {
			continue
		}
		var fs []*types.Var
		for _, f := range strings.Split(s.fields[e], ";") {
			n, w, _ := strings.Cut(strings.TrimSpace(f), " ")
			fs = append(fs, fld(n, typ(w), strings.HasSuffix(w, "BaseEntity")))
		}
		g.entT[e] = types.NewPointer(g.e.envType("Ent_"+strings.ReplaceAll(s.name, "-", "_")+"_"+e, types.NewStruct(fs, nil), ms...))
	}
}

// placeFields writes children into the fields of an entity's struct.
func (g *Eng) placeFields(st *State, s *gspec, e string, ks kids) {
	if s.fields[e] == "" {
		return
	}
	t := g.entT[e].(*types.Pointer).Elem()
	u := t.Underlying().(*types.Struct)
	oid := st.symObj(g.ent(e), t)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		var l []Value
		for _, c := range ks[f.Name()] {
			l = append(l, g.ent(c))
		}
		id := "H:kids:" + e + ":f:" + f.Name()
		var v Value
		switch ft := f.Type().Underlying().(type) {
		case *types.Slice:
			v = VNil{}
			if _, set := ks[f.Name()]; set || st.heap[id] != nil {
				st.heap[id] = &Obj{Kind: "slice", T: f.Type(), Elems: l}
				v = VSlice{id}
			}
		case *types.Map:
			v = VNil{}
			if _, set := ks[f.Name()]; set || st.heap[id] != nil {
				o := &Obj{Kind: "map", T: f.Type(), Keys: []Value{}, Elems: l}
				for j := range l {
					if b, ok := ft.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						o.Keys = append(o.Keys, cStr(fmt.Sprint("k", j)))
					} else {
						o.Keys = append(o.Keys, cInt(j))
					}
				}
				st.heap[id] = o
				v = VMap{id}
			}
		case *types.Pointer, *types.Interface:
			v = VNil{}
			if len(l) == 1 {
				v = l[0]
			} else if f.Embedded() {
				v = &VSym{ID: "env:base:" + e, T: f.Type(), Distinct: true, NonNil: true}
			}
		default:
			continue
		}
		st.storeCell(oid, "."+f.Name(), f.Type(), v)
	}
}

func entName(v Value) string {
	if s, ok := stripIface(v).(*VSym); ok {
		if strings.HasPrefix(s.ID, "ent:") {
			return s.ID[4:]
		}
		return s.ID
	}
	return ""
}

// scenGraph analyses one run of a command described by a gspec.
func scenGraph(s *gspec) func(e *Env, in *Interp) {
	return func(e *Env, in *Interp) {
		g := newEng(e)
		if s.faults {
			g.faults = func(string) bool { return true }
		}
		if s.fields != nil {
			g.structTypes(s)
		}
		isB := func(id string) bool { return contains(s.typeB, id) }
		curSave := func(st *State) string { return st.Get("saves") } // number of finished saves ("" = 0)
		snap := func(st *State) string { return st.Get("snap") }
		g.model = func(c *CallCtx, ent, parent Value, op int) []Outcome {
			name := entName(ent)
			st := c.St
			es, ok := ent.(*VSym)
			if !ok || strings.HasPrefix(es.ID, "leaf:") || es.Sum || strings.Contains(es.ID, "leaf:") {
				return []Outcome{{Ret: []Value{g.modelOf(ent, op), VNil{}}}}
			}
			id := fmt.Sprintf("m:%d:%s", op, es.ID)
			if op == opQuery {
				id = fmt.Sprintf("m:%d%s:%s", op, snap(st), es.ID)
			} else {
				// every created entity has its ID by now (C06)
				if op != 0 {
					st.Set("converted", "1")
				}
				pn := entName(parent)
				if _, isRoot := stripIface(parent).(VPtr); isRoot {
					pn = ""
				}
				if old := st.Get("conv:" + name); old != "" {
					g.must(c, false, "C05/once", "Entity2Model", "an entity is converted twice in one save")
				}
				st.Set("conv:"+name, fmt.Sprintf("%d/%s", op, pn))
				if op == opInsert {
					g.must(c, g.idEmpty(st, name) == no, "C06/before-convert", "Entity2Model", "a created entity is converted before it has an ID")
				}
			}
			t := e.ModelA
			if isB(name) {
				t = e.ModelB
			}
			m := &VSym{ID: id, T: t, Distinct: true, NonNil: true}
			if contains(s.notReg, name) {
				nr := g.e.Global("", "ErrEntityNotRegister")
				wrap := &VApp{F: "new:join:notreg", Args: []Value{nr}, T: errTypeT, NonNil: true}
				if st.Get("notreg") == "plain" {
					return []Outcome{{Ret: []Value{VNil{}, nr}}}
				}
				return []Outcome{{Ret: []Value{VNil{}, wrap}}}
			}
			return []Outcome{{Ret: []Value{m, VNil{}}}}
		}
		g.children = func(c *CallCtx, ent *VSym) Value {
			id := "H:kids:" + entName(ent)
			if s.fields != nil && !contains(s.declared, entName(ent)) && strings.HasPrefix(ent.ID, "ent:") {
				return VNil{}
			}
			if strings.HasPrefix(ent.ID, "ent:") && c.St.heap[id] != nil {
				return VMap{id}
			}
			return c.St.newMap("ch:"+c.Pre, c.resT(0))
		}
		g.dirty = func(c *CallCtx, ent *VSym) Value {
			n := entName(ent)
			if v := c.St.Get("dirty:" + n); v != "" {
				return cBool(v == "1")
			}
			if contains(s.dirty, n) {
				return cfgSym("cfg:dirty:" + n)
			}
			return cBool(false)
		}
		g.onCall[imeth("IDirty", "UnDirty")] = func(c *CallCtx) []Outcome {
			if es, ok := c.Recv.(*VSym); ok && strings.HasPrefix(es.ID, "ent:") {
				c.St.Set("dirty:"+es.ID[4:], "0")
			}
			return []Outcome{{}}
		}
		g.events = func(c *CallCtx, ent *VSym) []Value {
			var vs []Value
			for _, id := range s.events[entName(ent)] {
				vs = append(vs, g.mkEvent(c.St, id, "normal"))
			}
			for _, id := range strings.Fields(c.St.Get("late:" + entName(ent))) {
				vs = append(vs, g.mkEvent(c.St, id, "normal"))
			}
			return vs
		}
		if s.hookless {
			g.decide = func(st *State, p *VPred) tri {
				if p.Op == "is" {
					if es, ok := p.X.(*VSym); ok && strings.HasPrefix(es.ID, "ent:") {
						return no
					}
				}
				return unknown
			}
		}
		// the changes the reference expects for the current save
		expect := func(st *State) (map[string]gchange, []string, string, bool) {
			if s.misuse != "" {
				return nil, nil, "", false
			}
			d := map[string]bool{}
			for _, n := range s.dirty {
				switch st.cfg("cfg:dirty:" + n) {
				case yes:
					d[n] = true
				case unknown:
					return nil, nil, "", false
				}
			}
			saves, evs, err := s.reference(d)
			n := 0
			if v := curSave(st); v != "" {
				fmt.Sscan(v, &n)
			}
			if n < len(saves) {
				return saves[n], evs, err, true
			}
			return nil, evs, err, true
		}
		g.onCall[imeth("IEntity", "SetID")] = func(c *CallCtx) []Outcome {
			es, ok := c.Recv.(*VSym)
			if !ok || !strings.HasPrefix(es.ID, "ent:") {
				return []Outcome{{}}
			}
			n := entName(es)
			g.must(c, g.idEmpty(c.St, n) == yes, "C06/overwrite", "SetID", "an entity ID that is set is replaced")
			g.must(c, c.St.Get("converted") == "", "C06/before-convert", "SetID", "an ID is assigned after entities were converted")
			gen := false
			walkValue(c.Args[0], func(x *VSym) {
				if strings.HasPrefix(x.ID, "newid@") {
					gen = true
				}
			}, func(string) {})
			g.must(c, gen, "C06/generator", "SetID", "an ID is assigned that the generator did not make")
			if ex, _, _, ok := expect(c.St); ok && ex != nil {
				g.must(c, ex[n].op == opInsert, "C06/only-created", "SetID", "an entity that is not created gets an ID")
			}
			if v := c.St.GetV("usedid:" + c.Args[0].K()); v != nil {
				g.must(c, false, "C06/fresh", "SetID", "two entities get the same ID")
			}
			c.St.SetV("usedid:"+c.Args[0].K(), cBool(true))
			c.St.SetV("id:"+es.ID, c.Args[0])
			c.St.Set("idset", "1")
			return []Outcome{{}}
		}
		for _, b := range []string{"Before", "After"} {
			for k, kn := range map[int]string{opInsert: "Create", opUpdate: "Update", opDelete: "Delete"} {
				n, k, b := b+kn, k, b
				g.onCall[imeth("I"+n, n)] = func(c *CallCtx) []Outcome {
					g.hookCall(c, n)
					en := entName(c.Recv)
					if ex, _, _, ok := expect(c.St); ok && ex != nil {
						g.must(c, ex[en].op == k, "C07/kind", n, fmt.Sprintf("%s is called on an entity whose change is another one", n))
					}
					hk := c.St.Get("hk:" + en)
					if b == "Before" {
						g.must(c, hk == "", "C07/once", n, n+" is called twice")
						g.must(c, c.St.Get("idset") == "", "C07/before-id", n, n+" is called after IDs were assigned")
						g.must(c, c.St.Get("wrote") == "", "C07/before-write", n, n+" is called after a write of the save")
						c.St.Set("hk:"+en, "b")
					} else {
						g.must(c, hk == "b", "C07/once", n, n+" is called without the before hook or twice")
						c.St.Set("hk:"+en, "ba")
						c.St.Set("after", "1")
						if ex, _, _, ok := expect(c.St); ok && ex != nil {
							for x, ch := range ex {
								if contains(s.notReg, x) || c.St.cfg("cfg:dry") == yes {
									continue
								}
								g.must(c, c.St.Get("w:"+x) == fmt.Sprint(ch.op), "C07/after-write", n, n+" is called before all writes of the save")
							}
						}
					}
					return g.okErr(c, "I"+n+"."+n, Outcome{Ret: []Value{VNil{}}})
				}
			}
		}
		g.onExec = func(c *CallCtx, op int, act Value) {
			st := c.St
			if op == opQuery {
				return
			}
			if m := st.Get("misuse"); m != "" && s.misuse != "" {
				g.must(c, false, "C16/nothing", "Exec", "something is written after "+m+" was recorded")
			}
			ms, exact := c.In.elems(st, st.field(act, "Models"))
			if len(ms) > 0 {
				if es, ok := stripIface(ms[0]).(*VSym); ok && strings.HasPrefix(es.ID, "m:pm:") {
					return
				}
			}
			g.must(c, st.Get("after") == "", "C07/after-write", "Exec", "an entity write is executed after an after hook of the save")
			prev, pexact := c.In.elems(st, st.field(act, "PrevModels"))
			last := st.Get("lastop")
			g.must(c, fmt.Sprint(op) >= last, "C05/order", "Exec", "inserts, updates and deletes are not executed in that order")
			st.Set("lastop", fmt.Sprint(op))
			if ex, _, err, known := expect(st); known && err == "" && s.fields == nil && s.wantErr == "" && s.misuse == "" {
				g.writeOrder(c, s, op, ms, ex)
			}
			var typ types.Type
			for i, m := range ms {
				sm, ok := stripIface(m).(*VSym)
				if !ok {
					continue
				}
				if typ != nil && sm.T != nil {
					g.must(c, types.Identical(typ, sm.T), "C05/type", "Exec", "an action groups models of different types")
				}
				typ = sm.T
				parts := strings.SplitN(sm.ID, ":", 4)
				if parts[0] != "m" || len(parts) < 4 {
					continue
				}
				n := parts[3]
				g.must(c, parts[1] == fmt.Sprint(op), "C05/op", "Exec", fmt.Sprintf("a model converted for operation %s is in an action of operation %d", parts[1], op))
				g.must(c, st.Get("w:"+n) == "", "C05/once", "Exec", "an entity is written twice in one save")
				st.Set("w:"+n, fmt.Sprint(op))
				ex, _, err, known := expect(st)
				if known && err == "" {
					ch, want := ex[n]
					if s.wantErr != "" {
						want = false
					}
					g.must(c, want && ch.op == op, rule04(s, ch, op), "Exec", fmt.Sprintf("entity %s is written with operation %d, expected %s", n, op, wantStr(ch, want)))
					if want && ch.op == op {
						g.must(c, st.Get("conv:"+n) == fmt.Sprintf("%d/%s", op, ch.parent), "C05/parent", "Exec", "a change is converted with the wrong parent ("+st.Get("conv:"+n)+" instead of "+ch.parent+")")
					}
				} else if known && err != "" && len(s.ops) > 0 && curSave(st) == "" && !s.hasSave() {
					g.must(c, false, "C18/error-first", "Exec", "something is written although an entity is used twice")
				}
				if op == opUpdate {
					want := fmt.Sprintf("m:%d%s:ent:%s", opQuery, st.Get("snapof:"+n), n)
					if exact && pexact && !s.leaves {
						okp := i < len(prev) && len(prev) == len(ms)
						if okp {
							ps, isS := stripIface(prev[i]).(*VSym)
							okp = isS && ps.ID == want
						}
						g.must(c, okp, "C05/prev", "Exec", "the previous model of an update is not the entity's baseline model at the same position")
					}
				}
			}
			old, _ := st.GetV("acts").(*VTuple)
			if old == nil {
				old = &VTuple{}
			}
			dup := false
			for _, a := range old.V {
				if a.K() == act.K() {
					dup = true
				}
			}
			g.must(c, !dup, "C05/once", "Exec", "an action is executed twice")
			st.SetV("acts", &VTuple{append(append([]Value(nil), old.V...), act)})
		}
		// snapshot conversions remember which baseline an entity belongs to
		inner := g.onCall[imeth("IConverter", "Entity2Model")]
		g.onCall[imeth("IConverter", "Entity2Model")] = func(c *CallCtx) []Outcome {
			if o, _ := constInt(c.Args[2]); o == opQuery {
				if n := entName(c.Args[0]); n != "" {
					c.St.Set("snapof:"+n, snap(c.St))
				}
			}
			return inner(c)
		}
		checkSave := func(in *Interp, st *State, pos token.Pos) {
			ex, _, err, known := expect(st)
			if !known || err != "" {
				return
			}
			dry := st.cfg("cfg:dry") == yes
			for _, n := range s.entities() {
				ch, want := ex[n]
				w := st.Get("w:" + n)
				if want && !contains(s.notReg, n) && !dry {
					in.Check(st, w != "", rule04(s, ch, 0), "save", pos, fmt.Sprintf("entity %s is not written by the save, expected %s", n, wantStr(ch, want)))
				}
				if !s.hookless {
					hk := st.Get("hk:" + n)
					if want {
						in.Check(st, hk == "ba", "C07/called", "save", pos, fmt.Sprintf("the hooks of entity %s were not both called (%s)", n, hk))
					} else {
						in.Check(st, hk == "", "C07/unchanged", "save", pos, fmt.Sprintf("hooks of the unchanged entity %s were called", n))
					}
				}
			}
		}
		reset := func(st *State) {
			for _, n := range s.entities() {
				for _, k := range []string{"w:", "hk:", "conv:"} {
					st.Set(k+n, "")
				}
			}
			for _, k := range []string{"lastop", "after", "converted", "idset", "wrote"} {
				st.Set(k, "")
			}
		}
		// the command
		var cs []stepFn
		note := func(o gop) stepFn {
			return func(in *Interp, st *State, fr *Frame) []*State {
				st.note(0, "the command: "+o.op+" "+strings.Join(o.args, ","))
				return nil
			}
		}
		names := func(st *State, l []string) Value {
			var es []Value
			for _, n := range l {
				es = append(es, g.ent(n))
			}
			return g.ents(st, "roots", es...)
		}
		nsnap := 0
		var build []stepFn // form "command": what Build does
		for i, o := range s.ops {
			o, i := o, i
			cs = append(cs, note(o))
			if s.form == "command" && o.op == "load" {
				build = append(cs, func(in *Interp, st *State, fr *Frame) []*State {
					st.Set("main", "built")
					return fr.finish(names(st, o.args), VNil{})
				})
				cs = nil
				continue
			}
			switch o.op {
			case "graph":
				cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State { g.place(st, s, o.g); return nil })
			case "event": // an entity is given events
				cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State {
					k := "late:" + o.args[0]
					st.Set(k, strings.TrimSpace(st.Get(k)+" "+strings.Join(o.args[1:], " ")))
					return nil
				})
			case "dirty":
				cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State {
					for _, n := range o.args {
						st.Set("dirty:"+n, "1")
					}
					return nil
				})
			case "load":
				cs = append(cs, g.repoCall("CustomGet", func(st *State, fr *Frame) []Value {
					return []Value{g.ctx0(), native("getter"), names(st, o.args)}
				}), func(in *Interp, st *State, fr *Frame) []*State {
					if !in.isNil(st, fr.loc["ret"]) {
						if s.wantErr == "" && !(s.misuse != "" && i == len(s.ops)-1) {
							in.Check(st, st.GetV("fail") != nil, "C08/load", "CustomGet", 0, "loading a root fails without a failure of a collaborator")
						}
						st.Set("main", "error")
						if st.GetV("fail") == nil {
							st.Set("misuse", s.misuse)
						}
						return fr.finish(fr.loc["ret"])
					}
					if s.misuse != "" && i == len(s.ops)-1 {
						in.Check(st, false, s.errRule, "CustomGet", 0, s.misuse+" is not refused")
					}
					return nil
				})
			case "reload", "reget":
				// loading a tracked root is refused; the command goes on all the same
				name := map[string]string{"reload": "CustomGet", "reget": "Get"}[o.op]
				cs = append(cs, g.repoCall(name, func(st *State, fr *Frame) []Value {
					if name == "Get" {
						return []Value{fr.loc["ctx"], g.ent(o.args[0]), VNil{}}
					}
					return []Value{g.ctx0(), native("getter"), names(st, o.args)}
				}), func(in *Interp, st *State, fr *Frame) []*State {
					in.Check(st, !in.isNil(st, fr.loc["ret"]), "C08/loaded-twice", name, 0, "loading a tracked root is not refused")
					return nil
				})
			case "add", "remove":
				name := map[string]string{"add": "Add", "remove": "Remove"}[o.op]
				if s.form == "command" {
					for _, n := range o.args {
						n := n
						cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State {
							return in.CallFn(st, g.e.M("", "RootContainer", name), "cont."+name, fr.loc["cont"], g.ent(n))
						})
					}
					break
				}
				cs = append(cs, g.repoCall(name, func(st *State, fr *Frame) []Value { return []Value{names(st, o.args)} }))
				if s.misuse != "" && contains(o.args, "!") {
					panic("unused")
				}
			case "misuse":
				cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State { st.Set("misuse", s.misuse); return nil })
			case "save":
				nsnap++
				ns := nsnap
				cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State { st.Set("snap", fmt.Sprint("s", ns)); return nil },
					g.saveCall(s.form),
					func(in *Interp, st *State, fr *Frame) []*State {
						if !in.isNil(st, fr.loc["ret"]) {
							if st.Get("misuse") == "" {
								in.Check(st, st.GetV("fail") != nil || s.wantErr != "", "C04/save", "Save", 0, "an explicit save fails without a failure of a collaborator")
							}
							if f := st.GetV("fail"); f != nil {
								in.Check(st, in.inChain(st, fr.loc["ret"], f), "C03/reported", "Save", 0, "an explicit save does not report the failure of a step")
							}
							if s.wantErr != "" {
								st.Set("mayfail", "1")
								st.SetV("fail", fr.loc["ret"])
							}
							st.Set("main", "error")
							return fr.finish(fr.loc["ret"])
						}
						if st.Get("misuse") != "" {
							in.Check(st, false, "C16/save", "Save", 0, "an explicit save is accepted after "+s.misuse)
						}
						if f := st.GetV("fail"); f != nil {
							in.Check(st, false, "C03/reported", "Save", 0, "an explicit save loses the failure of a step")
						}
						checkSave(in, st, 0)
						st.Set("saves", fmt.Sprint(ns))
						reset(st)
						return nil
					})
			}
		}
		cs = append(cs, func(in *Interp, st *State, fr *Frame) []*State {
			st.Set("main", "ok")
			if s.wantErr != "" {
				st.Set("mayfail", "1")
			}
			// the events are fixed once the command has ended
			return fr.finish(VNil{})
		})
		g.onCall["native:getter"] = noop
		if s.form == "command" {
			if build == nil {
				build = []stepFn{func(in *Interp, st *State, fr *Frame) []*State {
					st.Set("main", "built")
					return fr.finish(VNil{}, VNil{})
				}}
			}
			g.commandScript(&Script{Name: "build", Steps: build}, &Script{Name: "act", Steps: cs})
		} else {
			g.mainScript(&Script{Name: "command", Steps: cs})
		}
		g.decideEvents = func(st *State) []string {
			_, evs, _, known := expect(st)
			if !known {
				return nil
			}
			return evs
		}
		var st0 []stepFn
		st0 = append(st0, g.newEngine(g.boolOption("RecursiveDeleteOption", cBool(s.recursive)))...)
		opts := []stepFn{g.boolOption("TransactionOption", cBool(true)), g.boolOption("DryRunOption", cBool(false))}
		if len(s.notReg) > 0 {
			opts = append(opts, func(in *Interp, st *State, fr *Frame) []*State {
				return choose(st, func(st *State, fr *Frame) []*State { st.Set("notreg", "plain"); return nil },
					func(st *State, fr *Frame) []*State { st.Set("notreg", "wrapped"); return nil })
			})
		}
		opts = append(opts, func(in *Interp, st *State, fr *Frame) []*State {
			st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:tx")}, true)
			st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:dry")}, false)
			for _, n := range s.dirty {
				n := n
				_ = n
			}
			return nil
		})
		for _, n := range s.dirty {
			n := n
			opts = append(opts, func(in *Interp, st *State, fr *Frame) []*State {
				return choose(st, func(st *State, fr *Frame) []*State {
					st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:dirty:" + n)}, true)
					return nil
				}, func(st *State, fr *Frame) []*State {
					st.addFact(&VPred{Op: "truth", X: cfgSym("cfg:dirty:" + n)}, false)
					return nil
				})
			})
		}
		cmd := g.funcCmd
		if s.form == "command" {
			cmd = func() Value { return g.cmdFull("ICommand", "IStageSetter") }
		}
		if s.noIDs {
			opts = append(opts, func(in *Interp, st *State, fr *Frame) []*State {
				for _, n := range s.entities() {
					st.addFact(&VPred{Op: "eq", X: &VSym{ID: "cfg:id:ent:" + n, T: types.Typ[types.String]}, Y: cStr("")}, true)
				}
				return nil
			})
		}
		if s.form == "command" || s.pinID {
			opts = append(opts, func(in *Interp, st *State, fr *Frame) []*State {
				for _, n := range s.entities() {
					if !contains(s.noID, n) {
						st.addFact(&VPred{Op: "eq", X: &VSym{ID: "cfg:id:ent:" + n, T: types.Typ[types.String]}, Y: cStr("")}, false)
					}
				}
				return nil
			})
		}
		st0 = append(st0, g.run(cmd, opts...)...)
		g.panicRule = successRule(s)[:3] + "/panic"
		g.atEnd = func(in *Interp, st *State, ok bool) {
			res := st.GetV("res")
			_, _, err, _ := expect(st)
			if s.wantErr != "" && err == "" && len(s.dirty) == 0 {
				panic("scenario " + s.name + ": the reference model finds no error")
			}
			if err != "" && s.misuse == "" {
				t, _ := st.isNil(st.field(res, "Error"))
				in.Check(st, t == no, "C18/error", "end of run", 0, "an entity that would be changed twice does not make the save fail")
				in.Check(st, st.Get("wrote") == "", "C18/error-first", "end of run", 0, "something is written although an entity is used twice")
				return
			}
			if s.misuse != "" {
				return
			}
			in.Check(st, ok || st.GetV("fail") != nil || s.leaves, successRule(s), "end of run", 0, "a run without failure ends with an error")
			if !ok {
				return
			}
			in.Obl["ok:"+s.name]++
			checkSave(in, st, 0)
			acts, _ := st.GetV("acts").(*VTuple)
			as, exact := in.elems(st, st.field(res, "Actions"))
			if exact {
				same := acts == nil && len(as) == 0 || acts != nil && len(as) == len(acts.V)
				if same {
					for i := range as {
						same = same && as[i].K() == acts.V[i].K()
					}
				}
				in.Check(st, same, "C05/result", "end of run", 0, "the actions of the result are not the executed ones")
			}
		}
		in.H = g
		st := newState()
		st.many = s.many
		if s.many > in.Fold {
			in.Fold = s.many
		}
		g.placeInit(st, s)
		in.pushScript(st, &Script{Name: "scenario", Steps: st0}, nil, retDiscard, 0, "scenario")
		in.Run(st)
	}
}

func successRule(s *gspec) string {
	if s.errRule != "" {
		return s.errRule[:3] + "/success"
	}
	return "C04/success"
}

func (s *gspec) hasSave() bool {
	for _, o := range s.ops {
		if o.op == "save" {
			return true
		}
	}
	return false
}

func (g *Eng) placeInit(st *State, s *gspec) { g.place(st, s, graph{}) }

func wantStr(ch gchange, want bool) string {
	if !want {
		return "no change"
	}
	return map[int]string{1: "insert", 2: "update", 3: "delete"}[ch.op]
}

// rule04 names the property a wrong change belongs to.
// writeOrder: within an action the children of one parent are in the order of
// their keys and lists, and nothing is inserted before what it belongs to,
// unless it shares an action that has to come first.
func (g *Eng) writeOrder(c *CallCtx, s *gspec, op int, ms []Value, ex map[string]gchange) {
	st := c.St
	at := map[string]int{}
	var ns []string
	for i, m := range ms {
		if sm, ok := stripIface(m).(*VSym); ok {
			if parts := strings.SplitN(sm.ID, ":", 4); parts[0] == "m" && len(parts) == 4 {
				at[parts[3]] = i
				ns = append(ns, parts[3])
			}
		}
	}
	last := map[string]gchange{}
	for i, n := range ns {
		ch, ok := ex[n]
		if !ok || ch.op != op {
			continue
		}
		if ch.placed {
			l, before := last[ch.parent]
			g.must(c, !before || l.key < ch.key || l.key == ch.key && l.idx < ch.idx, "C52/siblings", "Exec", "siblings are not written in the order in which their parent lists them ("+n+")")
			last[ch.parent] = ch
		}
		if op != opInsert || ch.parent == "" || contains(s.notReg, ch.parent) {
			continue
		}
		if p, in := ex[ch.parent]; in && p.op == opInsert {
			j, here := at[ch.parent]
			if here {
				g.must(c, j < at[n], "C52/parents", "Exec", "an entity is inserted before its parent ("+n+")")
			} else if i == 0 {
				g.must(c, st.Get("w:"+ch.parent) != "", "C52/parents", "Exec", "an entity is inserted before its parent ("+n+")")
			}
		}
	}
}

func rule04(s *gspec, ch gchange, op int) string {
	if s.errRule != "" && s.misuse == "" {
		return s.errRule
	}
	return "C04/change"
}

// idEmpty: is the ID of an entity known to be empty or set?
func (g *Eng) idEmpty(st *State, name string) tri {
	v := st.GetV("id:ent:" + name)
	if v == nil {
		v = &VSym{ID: "cfg:id:ent:" + name, T: types.Typ[types.String]}
	}
	t, p := st.eq(v, cStr(""))
	if t == unknown && p != nil {
		if b, ok := st.lookupFact(p); ok {
			return triOf(b)
		}
	}
	return t
}
