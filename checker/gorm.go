package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"
)

// Model of the gorm API. Handles are either reusable (a symbol, or a "dbh"
// application that carries a context and conditions) or statement objects,
// which every further chain call modifies, as gorm does. A finisher is
// normalised to a DBOp, whose meaning the harness supplies.

// DBCond is one condition of a statement; conditions are conjoined.
type DBCond struct {
	Col  string // "" for a condition that could not be understood
	Op   string // = <> < <= > >= in notin null notnull raw
	Val  Value
	Text string
	Or   [][]DBCond // the alternatives of an "or"
}

// DBOp is a normalised database operation.
type DBOp struct {
	Kind     string
	Root     Value // the database or transaction handle
	Ctx      Value // the context given, or nil
	Conds    []DBCond
	Order    []string
	Limit    Value
	Lock     string
	LockOpt  string
	Conflict bool // an ON CONFLICT clause

	ConflictUpdate bool // one that changes the row that is there
	Table          *types.Named
	Dest           Value   // where the result goes, or what is written
	Items          []Value // the models written or deleted, nil when unknown
	Set            map[string]Value
	Select, Omit   []string
	Group          string
	Raw            []string // parts that were not understood
	Fn             Value
	Unscoped       bool
	Attrs, Assign  []Value // of FirstOrCreate
}

// dbAns is one possible outcome of an operation.
type dbAns struct {
	Err  Value
	Rows Value
	Note string
	Do   func(st *State)
}

type dbHarness interface {
	DB(c *CallCtx, op *DBOp) []dbAns
}

const gormDB = "(*gorm.io/gorm.DB)."

var gormDBT = func(c *CallCtx) types.Type { return c.Res.At(0).Type() }

// dbBase splits a handle into its root, its context and its clauses.
func dbBase(st *State, v Value) (root, ctx Value, parts []Value, obj string) {
	switch x := v.(type) {
	case VPtr:
		o := st.heap[x.O]
		if o != nil && x.P == "" {
			if r, ok := o.Cells["!root"]; ok {
				t, _ := o.Cells["!parts"].(*VTuple)
				if t != nil {
					parts = t.V
				}
				ctx = o.Cells["!ctx"]
				if _, isNil := ctx.(VNil); isNil {
					ctx = nil
				}
				if o.Cells["!stmt"] != nil {
					obj = x.O
				}
				return r, ctx, parts, obj
			}
		}
	case *VApp:
		if x.F == "dbh" {
			ctx = x.Args[1]
			if _, isNil := ctx.(VNil); isNil {
				ctx = nil
			}
			return x.Args[0], ctx, x.Args[2:], ""
		}
	}
	return v, nil, nil, ""
}

func orNil(v Value) Value {
	if v == nil {
		return VNil{}
	}
	return v
}

func dbHandle(root, ctx Value, parts []Value, t types.Type) Value {
	if ctx == nil && len(parts) == 0 {
		return root
	}
	return &VApp{F: "dbh", Args: append([]Value{root, orNil(ctx)}, parts...), T: t, NonNil: true}
}

// dbStmt is the statement object a chain call works on.
func dbStmt(c *CallCtx, recv Value) VPtr {
	root, ctx, parts, obj := dbBase(c.St, recv)
	if obj != "" {
		return VPtr{obj, ""}
	}
	t := c.Sig.Recv().Type()
	o := &Obj{Kind: "cells", T: t.(*types.Pointer).Elem(), Opaque: true, Cells: map[string]Value{
		"!root": root, "!ctx": orNil(ctx), "!parts": &VTuple{V: parts}, "!stmt": cBool(true),
		".Error": VNil{}, ".RowsAffected": cInt(0),
	}}
	return VPtr{c.St.freshObj("stmt:"+c.Pre, o), ""}
}

// dbAdd appends a clause to a statement.
func dbAdd(st *State, p VPtr, part *VApp) {
	o := st.mut(p.O)
	t, _ := o.Cells["!parts"].(*VTuple)
	n := &VTuple{}
	if t != nil {
		n.V = append(n.V, t.V...)
	}
	n.V = append(n.V, part)
	o.Cells["!parts"] = n
}

func (c *CallCtx) flat() []Value {
	var args []Value
	for i, a := range c.Args[1:] {
		if c.Sig.Variadic() && i == len(c.Args)-2 {
			if es, ok := c.In.variadic(c.St, a, nil); ok {
				args = append(args, es...)
				continue
			}
			args = append(args, &VApp{F: "spread", Args: []Value{a}})
			continue
		}
		args = append(args, a)
	}
	return args
}

func initGorm() {
	m := extModels
	for _, k := range []string{"Where", "Model", "Order", "Limit", "Select", "Clauses", "Unscoped", "Table", "Group", "Not", "Or", "Offset", "Omit", "Distinct", "Attrs", "Assign", "Joins", "Having", "Preload", "MapColumns"} {
		kk := k
		m[gormDB+k] = func(c *CallCtx) []Outcome {
			p := dbStmt(c, c.Args[0])
			dbAdd(c.St, p, &VApp{F: kk, Args: c.flat()})
			return ret(p)
		}
	}
	m[gormDB+"WithContext"] = func(c *CallCtx) []Outcome {
		root, _, parts, _ := dbBase(c.St, c.Args[0])
		return ret(dbHandle(root, c.Args[1], parts, c.resT(0)))
	}
	m[gormDB+"Debug"] = func(c *CallCtx) []Outcome {
		root, ctx, parts, _ := dbBase(c.St, c.Args[0])
		return ret(dbHandle(root, ctx, parts, c.resT(0)))
	}
	m[gormDB+"Session"] = func(c *CallCtx) []Outcome {
		root, ctx, parts, _ := dbBase(c.St, c.Args[0])
		s := c.Args[1]
		if n := c.St.field(s, "NewDB"); n != nil {
			if b, ok := constBool(n); ok && b {
				parts = nil
			}
		}
		if x := c.St.field(s, "Context"); x != nil {
			if _, isNil := x.(VNil); !isNil {
				ctx = x
			}
		}
		return ret(dbHandle(root, ctx, parts, c.resT(0)))
	}
	m[gormDB+"Set"] = func(c *CallCtx) []Outcome { return ret(dbStmt(c, c.Args[0])) }
	m[gormDB+"InstanceSet"] = m[gormDB+"Set"]
	m[gormDB+"Scopes"] = func(c *CallCtx) []Outcome {
		p := dbStmt(c, c.Args[0])
		fs := c.flat()
		sc := &Script{Name: "scopes"}
		t := c.resT(0)
		fsig := sig([]types.Type{t}, t)
		for _, f := range fs {
			f := f
			sc.Steps = append(sc.Steps, func(in *Interp, st *State, fr *Frame) []*State {
				h := fr.loc["ret"]
				if h == nil {
					h = p
				}
				return in.CallValue(st, f, fsig, "scope"+f.K(), h)
			})
		}
		sc.Steps = append(sc.Steps, func(in *Interp, st *State, fr *Frame) []*State {
			h := fr.loc["ret"]
			if h == nil {
				h = p
			}
			return fr.finish(h)
		})
		return []Outcome{{Script: sc, Loc: map[string]Value{}}}
	}
	for _, k := range []string{"Create", "Save", "First", "Take", "Last", "Find", "FirstOrCreate", "FirstOrInit", "Update", "Updates", "UpdateColumn", "UpdateColumns", "Delete", "Count", "Pluck", "Scan", "CreateInBatches", "Exec", "Commit", "Rollback"} {
		kk := strings.ToLower(k)
		m[gormDB+k] = func(c *CallCtx) []Outcome { return dbFinish(c, kk) }
	}
	m[gormDB+"Begin"] = dbBegin
	m[gormDB+"Transaction"] = func(c *CallCtx) []Outcome {
		return []Outcome{{Script: dbTransaction, Loc: map[string]Value{"db": c.Args[0], "fn": c.Args[1]}}}
	}
	m[gormDB+"Rows"] = dbRows
	m[gormDB+"ScanRows"] = func(c *CallCtx) []Outcome {
		r, ok := rowsObj(c.St, c.Args[1])
		if !ok {
			return nil
		}
		cur := c.St.heap[r].Cells["!cur"]
		dst := c.Args[2]
		out := c.orErr("ScanRows")
		if len(out) > 1 {
			e := out[1].Ret[0]
			out[1].Do = func(st *State) { c.In.event(st, "cursorfail", c.Pos, VPtr{r, ""}, e) }
		}
		out[0].Do = func(st *State) {
			if cur != nil {
				dbFill(st, dst, []Value{cur}, false)
			}
		}
		return out
	}
	m["(*database/sql.Rows).Next"] = func(c *CallCtx) []Outcome {
		r, ok := rowsObj(c.St, c.Args[0])
		if !ok {
			return nil
		}
		o := c.St.heap[r]
		rows := o.Cells["!rows"].(*VTuple).V
		i, _ := constInt(o.Cells["!i"])
		end := func(st *State) {
			q := st.mut(r)
			q.Cells["!cur"] = nil
			delete(q.Cells, "!cur")
		}
		if _, failed := o.Cells["!err"]; failed {
			return ret(cBool(false))
		}
		bad := Outcome{Ret: []Value{cBool(false)}, Note: "the cursor fails", Do: func(st *State) {
			end(st)
			e := &VSym{ID: "err:cursor@" + c.Pre, T: errTypeT, NonNil: true, Distinct: true}
			st.mut(r).Cells["!err"] = e
			c.In.event(st, "cursorfail", c.Pos, VPtr{r, ""}, e)
		}}
		if i >= len(rows) {
			end(c.St)
			return []Outcome{{Ret: []Value{cBool(false)}}, bad}
		}
		return []Outcome{{Ret: []Value{cBool(true)}, Do: func(st *State) {
			q := st.mut(r)
			q.Cells["!cur"] = rows[i]
			q.Cells["!i"] = cInt(i + 1)
		}}, bad}
	}
	m["(*database/sql.Rows).Close"] = func(c *CallCtx) []Outcome {
		r, ok := rowsObj(c.St, c.Args[0])
		if !ok {
			return nil
		}
		c.In.event(c.St, "rowsclose", c.Pos, VPtr{r, ""})
		return []Outcome{{Ret: []Value{VNil{}}}}
	}
	m["(*database/sql.Rows).Err"] = func(c *CallCtx) []Outcome {
		r, ok := rowsObj(c.St, c.Args[0])
		if !ok {
			return nil
		}
		if e, ok := c.St.heap[r].Cells["!err"]; ok {
			return ret(e)
		}
		return ret(VNil{})
	}
}

func rowsObj(st *State, v Value) (string, bool) {
	p, ok := v.(VPtr)
	if !ok || st.heap[p.O] == nil || st.heap[p.O].Cells["!rows"] == nil {
		return "", false
	}
	return p.O, true
}

// dbRows opens a cursor: the harness answers how many rows it holds.
func dbRows(c *CallCtx) []Outcome {
	p := dbStmt(c, c.Args[0])
	h, ok := c.In.H.(dbHarness)
	if !ok {
		return nil
	}
	op := dbParse(c, p, "rows", nil)
	var out []Outcome
	for _, a := range h.DB(c, op) {
		a := a
		o := Outcome{Note: a.Note}
		if a.Err != nil {
			o.Ret = []Value{VNil{}, a.Err}
			o.Do = a.Do
			out = append(out, o)
			continue
		}
		rows, _ := a.Rows.(*VTuple)
		if rows == nil {
			rows = &VTuple{}
		}
		id := "rows:" + c.Pre
		o.Ret = []Value{VPtr{id, ""}, VNil{}}
		o.Do = func(st *State) {
			st.heap[id] = &Obj{Kind: "cells", T: c.resT(0).(*types.Pointer).Elem(), Opaque: true, Cells: map[string]Value{"!rows": rows, "!i": cInt(0)}}
			c.In.event(st, "rowsopen", c.Pos, VPtr{id, ""})
			if a.Do != nil {
				a.Do(st)
			}
		}
		out = append(out, o)
	}
	return out
}

// dbFinish runs a finisher.
func dbFinish(c *CallCtx, kind string) []Outcome {
	h, ok := c.In.H.(dbHarness)
	if !ok {
		return nil
	}
	p := dbStmt(c, c.Args[0])
	st := c.St
	if e := st.heap[p.O].Cells[".Error"]; e != nil && kind != "commit" && kind != "rollback" {
		if !c.In.isNil(st, e) {
			return ret(p) // an earlier error makes gorm skip the operation
		}
	}
	op := dbParse(c, p, kind, c.flat())
	// gorm leaves the clauses of a finisher in the statement
	if kind == "first" || kind == "last" || kind == "take" {
		dbAdd(st, p, &VApp{F: "Limit", Args: []Value{cInt(1)}})
	}
	for _, cd := range c.flat() {
		_ = cd
	}
	var out []Outcome
	for _, a := range h.DB(c, op) {
		a := a
		out = append(out, Outcome{Ret: []Value{p}, Note: a.Note, Do: func(st *State) {
			o := st.mut(p.O)
			o.Cells[".Error"] = orNil(a.Err)
			if a.Rows != nil {
				o.Cells[".RowsAffected"] = a.Rows
			} else if a.Err == nil {
				o.Cells[".RowsAffected"] = &VSym{ID: "affected@" + c.Pre, T: types.Typ[types.Int64]}
			}
			if a.Do != nil {
				a.Do(st)
			}
		}})
	}
	return out
}

// dbBegin opens a transaction; its handle is reusable.
func dbBegin(c *CallCtx) []Outcome {
	h, ok := c.In.H.(dbHarness)
	if !ok {
		return nil
	}
	root, ctx, parts, _ := dbBase(c.St, c.Args[0])
	op := &DBOp{Kind: "begin", Root: root, Ctx: ctx}
	tx := c.St.freshSym("dbtx@"+c.Pre, c.resT(0))
	tx.Distinct, tx.NonNil = true, true
	op.Dest = tx
	var out []Outcome
	for _, a := range h.DB(c, op) {
		a := a
		id := c.St.freshName("txh:" + c.Pre)
		out = append(out, Outcome{Ret: []Value{VPtr{id, ""}}, Note: a.Note, Do: func(st *State) {
			st.heap[id] = &Obj{Kind: "cells", T: c.resT(0).(*types.Pointer).Elem(), Opaque: true, Cells: map[string]Value{
				"!root": tx, "!ctx": orNil(ctx), "!parts": &VTuple{V: parts}, ".Error": orNil(a.Err), ".RowsAffected": cInt(0),
			}}
			if a.Do != nil {
				a.Do(st)
			}
		}})
	}
	return out
}

// freshName is a heap name that is not in use.
func (st *State) freshName(prefix string) string {
	id := st.freshObj(prefix, &Obj{Kind: "cells", Cells: map[string]Value{}})
	delete(st.heap, id)
	return id
}

// dbTransaction is gorm's Transaction(fn).
var dbTransaction = &Script{Name: "db.Transaction", Steps: []stepFn{
	func(in *Interp, st *State, fr *Frame) []*State {
		h, ok := in.H.(dbHarness)
		if !ok {
			st.Set(taintKey, "db.Transaction")
			return fr.finish(VNil{})
		}
		root, ctx, parts, _ := dbBase(st, fr.loc["db"])
		c := &CallCtx{In: in, St: st, Key: gormDB + "Transaction", Pre: in.prefix(st, "begin"), Pos: in.curPos(st)}
		fr.loc["ctx"] = orNil(ctx)
		fr.loc["parts"] = &VTuple{V: parts}
		tx := st.freshSym("dbtx@"+c.Pre, nil)
		tx.Distinct, tx.NonNil = true, true
		kind := "begin"
		if st.Get("dbtx:"+root.K()) != "" {
			kind = "savepoint"
			fr.loc["nested"] = cBool(true)
			fr.loc["tx"] = root
		} else {
			fr.loc["tx"] = tx
		}
		op := &DBOp{Kind: kind, Root: root, Ctx: ctx, Dest: fr.loc["tx"]}
		return dbApply(in, st, fr, h.DB(c, op), "beginerr")
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		if e := fr.loc["beginerr"]; e != nil {
			return fr.finish(e)
		}
		fr.loc["running"] = cBool(true)
		delete(fr.loc, "ret")
		ctx := fr.loc["ctx"]
		if _, n := ctx.(VNil); n {
			ctx = nil
		}
		tx := dbHandle(fr.loc["tx"], ctx, fr.loc["parts"].(*VTuple).V, nil)
		return in.CallValue(st, fr.loc["fn"], sig([]types.Type{nil}, errTypeT), "fn", tx)
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		delete(fr.loc, "running")
		h := in.H.(dbHarness)
		e := fr.loc["ret"]
		c := &CallCtx{In: in, St: st, Key: gormDB + "Transaction", Pre: in.prefix(st, "end"), Pos: in.curPos(st)}
		op := &DBOp{Root: fr.loc["tx"], Kind: "commit"}
		if e != nil && !in.isNil(st, e) {
			op.Kind = "rollback"
			fr.loc["fnerr"] = e
		}
		if fr.loc["nested"] != nil {
			if op.Kind == "commit" {
				return fr.finish(VNil{})
			}
			op.Kind = "rollbackto"
		}
		return dbApply(in, st, fr, h.DB(c, op), "enderr")
	},
	func(in *Interp, st *State, fr *Frame) []*State {
		if e := fr.loc["fnerr"]; e != nil {
			return fr.finish(e)
		}
		return fr.finish(orNil(fr.loc["enderr"]))
	},
}, OnPanic: func(in *Interp, st *State, fr *Frame) {
	if fr.loc["running"] == nil {
		return
	}
	h := in.H.(dbHarness)
	kind := "rollback"
	if fr.loc["nested"] != nil {
		kind = "rollbackto"
	}
	c := &CallCtx{In: in, St: st, Key: gormDB + "Transaction", Pre: in.prefix(st, "panic"), Pos: in.curPos(st)}
	as := h.DB(c, &DBOp{Root: fr.loc["tx"], Kind: kind})
	if len(as) > 0 && as[0].Do != nil {
		as[0].Do(st)
	}
}}

// dbApply continues a script with each outcome of an operation.
func dbApply(in *Interp, st *State, fr *Frame, as []dbAns, key string) []*State {
	var res []*State
	for i := range as {
		a := as[i]
		s := st.clone()
		f := s.top()
		if a.Err != nil {
			f.loc[key] = a.Err
		}
		if a.Note != "" {
			s.note(0, a.Note)
		}
		if a.Do != nil {
			a.Do(s)
		}
		res = append(res, s)
	}
	return res
}

// ---- normalisation ---------------------------------------------------------

func elemType(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Array:
			t = u.Elem()
			continue
		}
		return t
	}
}

// modelType is the table an argument stands for.
func modelType(st *State, v Value) *types.Named {
	var t types.Type
	switch x := v.(type) {
	case *VIface:
		t = x.T
	case VPtr:
		if o := st.heap[x.O]; o != nil && x.P == "" {
			t = o.T
		}
	case *VStruct:
		t = x.T
	case *VSym:
		t = x.T
	case *VApp:
		t = x.T
	}
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(elemType(t)).(*types.Named)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

type column struct {
	Field, Col string
	T          types.Type
	PK         bool
}

// columns lists the columns of a model.
func columns(n *types.Named) []column {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var res []column
	pk := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("gorm")
		c := column{Field: f.Name(), Col: dbName(f.Name()), T: f.Type()}
		skip := false
		for _, kv := range strings.Split(tag, ";") {
			k, v := kv, ""
			if j := strings.Index(kv, ":"); j >= 0 {
				k, v = kv[:j], kv[j+1:]
			}
			switch strings.ToLower(strings.TrimSpace(k)) {
			case "column":
				c.Col = strings.TrimSpace(v)
			case "primarykey", "primary_key":
				c.PK = true
				pk = true
			case "-":
				skip = true
			}
		}
		if !skip {
			res = append(res, c)
		}
	}
	if !pk {
		for i := range res {
			if res[i].Field == "ID" {
				res[i].PK = true
			}
		}
	}
	return res
}

// dbName is gorm's column name of a field.
func dbName(s string) string {
	var b strings.Builder
	rs := []rune(s)
	up := func(r rune) bool { return r >= 'A' && r <= 'Z' }
	for i, r := range rs {
		if up(r) && i > 0 && (!up(rs[i-1]) || i+1 < len(rs) && !up(rs[i+1]) && rs[i+1] != '_') && rs[i-1] != '_' {
			b.WriteByte('_')
		}
		b.WriteString(strings.ToLower(string(r)))
	}
	return b.String()
}

func pkOf(cols []column) (column, bool) {
	for _, c := range cols {
		if c.PK {
			return c, true
		}
	}
	return column{}, false
}

// dbField reads a column of a model value.
func dbField(st *State, v Value, field string) Value {
	return st.field(v, field)
}

func isZeroValue(v Value) bool {
	switch x := v.(type) {
	case nil, VNil:
		return true
	case VConst:
		switch x.V.Kind() {
		case constant.Bool:
			return !constant.BoolVal(x.V)
		case constant.String:
			return constant.StringVal(x.V) == ""
		case constant.Int, constant.Float:
			return constant.Sign(x.V) == 0
		}
	case *VApp:
		return strings.HasPrefix(x.F, "zero:")
	}
	return false
}

var (
	reCmp  = regexp.MustCompile("(?i)^([a-z_0-9.`]+)\\s*(=|<>|!=|<=|>=|<|>|\\bnot in\\b|\\bin\\b)\\s*(\\(\\s*\\?\\s*\\)|\\?|'[^']*'|-?[0-9]+)$")
	reNull = regexp.MustCompile("(?i)^([a-z_0-9.`]+)\\s+is\\s+(not\\s+)?null$")
)

func parseSQL(text string, args []Value) []DBCond {
	rest := args
	res, ok := parseBool(text, &rest)
	if !ok || len(rest) > 0 {
		return []DBCond{{Op: "raw", Text: text}}
	}
	return res
}

// splitTop splits a condition at a keyword outside of parentheses and quotes.
func splitTop(t, word string) []string {
	var res []string
	depth, start := 0, 0
	quote := byte(0)
	low := strings.ToLower(t)
	for i := 0; i < len(t); i++ {
		ch := t[i]
		switch {
		case quote != 0:
			if ch == quote {
				quote = 0
			}
		case ch == '\'' || ch == '"':
			quote = ch
		case ch == '(':
			depth++
		case ch == ')':
			depth--
		case depth == 0 && strings.HasPrefix(low[i:], word) && i > 0 && strings.ContainsRune(" \t\n)", rune(t[i-1])) && i+len(word) < len(t) && strings.ContainsRune(" \t\n(", rune(t[i+len(word)])):
			res = append(res, t[start:i])
			start = i + len(word)
			i = start - 1
		}
	}
	return append(res, t[start:])
}

// stripPar removes parentheses around the whole of a condition.
func stripPar(t string) string {
	for {
		t = strings.TrimSpace(t)
		if len(t) < 2 || t[0] != '(' || t[len(t)-1] != ')' {
			return t
		}
		depth := 0
		for i := 0; i < len(t)-1; i++ {
			if t[i] == '(' {
				depth++
			} else if t[i] == ')' {
				depth--
			}
			if depth == 0 {
				return t
			}
		}
		t = t[1 : len(t)-1]
	}
}

func parseBool(text string, args *[]Value) ([]DBCond, bool) {
	t := stripPar(text)
	if strings.Contains(strings.ToLower(t), " between ") {
		return nil, false
	}
	if ds := splitTop(t, "or"); len(ds) > 1 {
		c := DBCond{Op: "or", Text: text}
		for _, d := range ds {
			r, ok := parseBool(d, args)
			if !ok {
				return nil, false
			}
			c.Or = append(c.Or, r)
		}
		return []DBCond{c}, true
	}
	if cs := splitTop(t, "and"); len(cs) > 1 {
		var res []DBCond
		for _, x := range cs {
			r, ok := parseBool(x, args)
			if !ok {
				return nil, false
			}
			res = append(res, r...)
		}
		return res, true
	}
	if m := reNull.FindStringSubmatch(t); m != nil {
		o := "null"
		if m[2] != "" {
			o = "notnull"
		}
		return []DBCond{{Col: bareCol(m[1]), Op: o, Text: t}}, true
	}
	m := reCmp.FindStringSubmatch(t)
	if m == nil {
		return nil, false
	}
	c := DBCond{Col: bareCol(m[1]), Op: strings.Join(strings.Fields(strings.ToLower(m[2])), " "), Text: t}
	switch c.Op {
	case "!=":
		c.Op = "<>"
	case "not in":
		c.Op = "notin"
	}
	switch {
	case strings.Contains(m[3], "?"):
		if len(*args) == 0 {
			return nil, false
		}
		c.Val = stripIface((*args)[0])
		*args = (*args)[1:]
	case strings.HasPrefix(m[3], "'"):
		c.Val = cStr(strings.Trim(m[3], "'"))
	default:
		c.Val = VConst{constant.MakeFromLiteral(strings.TrimPrefix(m[3], "-"), token.INT, 0), types.Typ[types.Int]}
		if strings.HasPrefix(m[3], "-") {
			c.Val = VConst{constant.UnaryOp(token.SUB, c.Val.(VConst).V, 0), types.Typ[types.Int]}
		}
	}
	return []DBCond{c}, true
}

func bareCol(s string) string {
	s = strings.ToLower(s)
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "`")
}

func dbCond(st *State, in *Interp, args []Value, table *types.Named) []DBCond {
	if len(args) == 0 {
		return nil
	}
	q := stripIface(args[0])
	if s, ok := constString(q); ok {
		if _, isStr := q.(VConst); isStr {
			if len(args) == 1 && regexp.MustCompile(`^[0-9]+$`).MatchString(s) {
				return []DBCond{{Col: "!pk", Op: "=", Val: q}}
			}
			return parseSQL(s, args[1:])
		}
	}
	if root, _, parts, _ := dbBase(st, q); len(parts) > 0 {
		_ = root
		op := &DBOp{}
		dbParts(st, in, op, parts, table)
		return op.Conds
	}
	switch x := q.(type) {
	case VMap:
		if o := st.heap[x.O]; o != nil && o.Other == nil {
			var r []DBCond
			for i, k := range o.Keys {
				s, ok := constString(stripIface(k))
				if !ok {
					return []DBCond{{Op: "raw", Text: "map"}}
				}
				op := "="
				v := stripIface(o.Elems[i])
				if _, sl := v.(VSlice); sl {
					op = "in"
				}
				r = append(r, DBCond{Col: strings.ToLower(s), Op: op, Val: v})
			}
			return r
		}
	case VPtr, *VStruct:
		if n := modelType(st, args[0]); n != nil {
			if clause, ok := clauseCond(st, n, q); ok {
				return clause
			}
			var r []DBCond
			var names []string
			for _, a := range args[1:] {
				if s, ok := constString(stripIface(a)); ok {
					names = append(names, s)
				}
			}
			for _, col := range columns(n) {
				v := st.field(q, col.Field)
				named := false
				for _, nm := range names {
					named = named || nm == col.Field || nm == col.Col
				}
				if v == nil || len(names) == 0 && isZeroValue(v) || len(names) > 0 && !named {
					continue
				}
				r = append(r, DBCond{Col: col.Col, Op: "=", Val: v})
			}
			return r
		}
		if _, ok := q.(VPtr); ok {
			break
		}
	case *VSym, *VApp, VConst, VSlice:
		t := valType(x)
		if i, ok := args[0].(*VIface); ok {
			t = i.T
		}
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					// a string that is not constant is taken as SQL text
					return []DBCond{{Op: "raw", Text: "dynamic SQL"}}
				}
				if u.Info()&types.IsNumeric != 0 {
					return []DBCond{{Col: "!pk", Op: "=", Val: q}}
				}
			case *types.Slice:
				return []DBCond{{Col: "!pk", Op: "in", Val: q}}
			}
		}
	}
	return []DBCond{{Op: "raw", Text: "condition " + q.K()}}
}

func valType(v Value) types.Type {
	switch x := v.(type) {
	case *VSym:
		return x.T
	case *VApp:
		return x.T
	case VConst:
		return x.T
	case *VStruct:
		return x.T
	case *VIface:
		return x.T
	}
	return nil
}

// clauseCond understands clause.Eq and its relatives.
func clauseCond(st *State, n *types.Named, v Value) ([]DBCond, bool) {
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "gorm.io/gorm/clause" {
		return nil, false
	}
	ops := map[string]string{"Eq": "=", "Neq": "<>", "Gt": ">", "Gte": ">=", "Lt": "<", "Lte": "<="}
	o, ok := ops[n.Obj().Name()]
	if !ok {
		return []DBCond{{Op: "raw", Text: "clause." + n.Obj().Name()}}, true
	}
	col := stripIface(orNil(st.field(v, "Column")))
	s, ok := constString(col)
	if !ok {
		if nm, ok2 := constString(orNil(st.field(col, "Name"))); ok2 {
			s, ok = nm, true
		}
	}
	if !ok {
		return []DBCond{{Op: "raw", Text: "clause." + n.Obj().Name()}}, true
	}
	return []DBCond{{Col: strings.ToLower(s), Op: o, Val: stripIface(orNil(st.field(v, "Value")))}}, true
}

var negOps = map[string]string{"=": "<>", "<>": "=", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "in": "notin", "notin": "in", "null": "notnull", "notnull": "null"}

// dbParts folds the clauses of a statement into an operation.
func dbParts(st *State, in *Interp, op *DBOp, parts []Value, table *types.Named) {
	for _, p := range parts {
		a, ok := p.(*VApp)
		if !ok {
			continue
		}
		switch a.F {
		case "Model":
			op.Dest = a.Args[0]
			op.Table = modelType(st, a.Args[0])
		}
	}
	if op.Table == nil {
		op.Table = table
	}
	var alts [][]DBCond
	for _, p := range parts {
		a, ok := p.(*VApp)
		if !ok {
			continue
		}
		switch a.F {
		case "Where":
			op.Conds = append(op.Conds, dbCond(st, in, a.Args, op.Table)...)
		case "Not":
			cs := dbCond(st, in, a.Args, op.Table)
			if len(cs) == 1 && negOps[cs[0].Op] != "" {
				cs[0].Op = negOps[cs[0].Op]
				op.Conds = append(op.Conds, cs[0])
			} else {
				op.Conds = append(op.Conds, DBCond{Op: "raw", Text: "not"})
			}
		case "Or":
			n := dbCond(st, in, a.Args, op.Table)
			if len(op.Conds) == 0 {
				op.Conds = n
			} else {
				alts = append(alts, op.Conds)
				op.Conds = n
			}
		case "Order":
			if s, ok := constString(stripIface(a.Args[0])); ok {
				for _, x := range strings.Split(s, ",") {
					f := strings.Fields(strings.ToLower(strings.ReplaceAll(x, "`", "")))
					if len(f) == 2 && f[1] == "asc" {
						f = f[:1]
					}
					op.Order = append(op.Order, strings.Join(f, " "))
				}
			} else {
				op.Order = append(op.Order, "?")
				op.Raw = append(op.Raw, "order")
			}
		case "Limit":
			op.Limit = stripIface(a.Args[0])
		case "Clauses":
			for _, x := range a.Args {
				n := modelType(st, x)
				name := ""
				if n != nil {
					name = n.Obj().Name()
				}
				switch name {
				case "Locking":
					v := stripIface(x)
					s, ok := constString(orNil(st.field(v, "Strength")))
					if !ok {
						op.Raw = append(op.Raw, "locking")
					}
					op.Lock = strings.ToUpper(s)
					if s, ok := constString(orNil(st.field(v, "Options"))); ok {
						op.LockOpt = strings.ToUpper(s)
					}
				case "OnConflict":
					op.Conflict = true
					if f, ok := onConflict(st, x); !ok || f {
						op.ConflictUpdate = true
					}
				case "Where":
					op.Conds = append(op.Conds, DBCond{Op: "raw", Text: "clause.Where"})
				case "Eq", "Neq", "Gt", "Gte", "Lt", "Lte":
					cs, _ := clauseCond(st, n, stripIface(x))
					op.Conds = append(op.Conds, cs...)
				default:
					op.Raw = append(op.Raw, "clause "+name)
				}
			}
		case "Select":
			for _, x := range a.Args {
				if s, ok := constString(stripIface(x)); ok {
					op.Select = append(op.Select, s)
				} else if ss, ok := constStrings(st, in, x); ok {
					op.Select = append(op.Select, ss...)
				} else {
					op.Select = append(op.Select, "?")
					op.Raw = append(op.Raw, "select")
				}
			}
		case "Omit":
			for _, x := range a.Args {
				if s, ok := constString(stripIface(x)); ok {
					op.Omit = append(op.Omit, s)
				} else if ss, ok := constStrings(st, in, x); ok {
					op.Omit = append(op.Omit, ss...)
				} else {
					op.Raw = append(op.Raw, "Omit")
				}
			}
		case "Group":
			op.Group, _ = constString(a.Args[0])
		case "Unscoped":
			op.Unscoped = true
		case "Attrs":
			op.Attrs = append(op.Attrs, a.Args...)
		case "Assign":
			op.Assign = append(op.Assign, a.Args...)
		case "Model", "Preload":
		default:
			op.Raw = append(op.Raw, a.F)
		}
	}
	if len(alts) > 0 {
		op.Conds = []DBCond{{Op: "or", Text: "or", Or: append(alts, op.Conds)}}
	}
}

// dbParse normalises a finisher.
func dbParse(c *CallCtx, p VPtr, kind string, args []Value) *DBOp {
	st, in := c.St, c.In
	root, ctx, parts, _ := dbBase(st, p)
	op := &DBOp{Kind: kind, Root: root, Ctx: ctx}
	var table *types.Named
	if len(args) > 0 && kind != "update" && kind != "updatecolumn" && kind != "count" && kind != "pluck" && kind != "exec" {
		table = modelType(st, args[0])
	}
	dbParts(st, in, op, parts, table)
	model := op.Dest
	op.Dest = nil
	pkFrom := func(v Value) {
		n := modelType(st, v)
		if n == nil {
			return
		}
		pk, ok := pkOf(columns(n))
		if !ok {
			return
		}
		switch stripIface(v).(type) {
		case VPtr, *VStruct, *VSym, *VApp, VSlice:
		default:
			return
		}
		if isSliceArg(st, v) {
			if es, ok := modelsOf(st, in, v); ok && len(es) > 0 && kind == "delete" {
				if len(es) > 1 {
					n := 0
					for _, c := range columns(modelType(st, v)) {
						if c.PK {
							n++
						}
					}
					if n > 1 {
						op.Raw = append(op.Raw, "rows by composite keys")
					}
				}
				var ids []Value
				for _, e := range es {
					ids = append(ids, orNil(st.field(e, pk.Field)))
				}
				op.Conds = append(op.Conds, DBCond{Col: pk.Col, Op: "in", Val: &VTuple{V: ids}})
			}
			return
		}
		for _, col := range columns(n) {
			if !col.PK {
				continue
			}
			x := st.field(stripIface(v), col.Field)
			if x != nil && !isZeroValue(x) {
				op.Conds = append(op.Conds, DBCond{Col: col.Col, Op: "=", Val: x, Text: "primary key"})
			}
		}
	}
	switch kind {
	case "first", "take", "last", "find", "scan", "firstorcreate", "firstorinit":
		op.Dest = args[0]
		op.Conds = append(op.Conds, dbCond(st, in, args[1:], op.Table)...)
		if kind != "scan" {
			if d := derefDest(st, args[0]); d != nil && !isSliceArg(st, args[0]) {
				pkFrom(d)
			}
		}
		if pk, ok := tablePK(op.Table); ok {
			if kind == "first" {
				op.Order = append(op.Order, pk.Col)
			} else if kind == "last" {
				op.Order = append(op.Order, pk.Col+" desc")
			}
		}
		if kind == "first" || kind == "last" || kind == "take" || kind == "firstorcreate" || kind == "firstorinit" {
			op.Limit = cInt(1)
		}
	case "create", "createinbatches", "save":
		op.Dest = args[0]
		if op.Table == nil || model == nil {
			op.Table = modelType(st, args[0])
		}
		if es, ok := modelsOf(st, in, args[0]); ok {
			op.Items = es
		} else {
			op.Raw = append(op.Raw, "models")
		}
	case "delete":
		op.Dest = args[0]
		if model == nil {
			pkFrom(args[0])
		} else {
			pkFrom(args[0])
			pkFrom(model)
		}
		op.Conds = append(op.Conds, dbCond(st, in, args[1:], op.Table)...)
	case "update", "updatecolumn":
		if model != nil {
			pkFrom(model)
		}
		op.Set = map[string]Value{}
		if s, ok := constString(stripIface(args[0])); ok {
			op.Set[colOf(op.Table, s)] = stripIface(args[1])
		} else {
			op.Raw = append(op.Raw, "set")
		}
	case "updates", "updatecolumns":
		if model != nil {
			pkFrom(model)
		} else {
			pkFrom(args[0])
			op.Dest = args[0]
		}
		op.Set = map[string]Value{}
		dbSet(st, op, args[0])
	case "count":
		op.Dest = args[0]
	case "rows":
		op.Dest = model
	case "pluck":
		if s, ok := constString(stripIface(args[0])); ok {
			op.Select = append(op.Select, s)
		}
		op.Dest = args[1]
	case "exec":
		op.Raw = append(op.Raw, "raw SQL")
	}
	if op.Set != nil && (kind == "update" || kind == "updates") && op.Table != nil {
		for _, col := range columns(op.Table) {
			if col.Field == "UpdatedAt" {
				if _, in := op.Set[col.Col]; !in {
					op.Set[col.Col] = &VSym{ID: "now@auto:" + c.Pre, T: col.T, NonNil: true}
				}
			}
		}
	}
	for i := range op.Conds {
		if op.Conds[i].Col == "!pk" {
			if pk, ok := tablePK(op.Table); ok {
				op.Conds[i].Col = pk.Col
			} else {
				op.Conds[i].Op = "raw"
			}
		}
		for _, alt := range op.Conds[i].Or {
			for j := range alt {
				if alt[j].Op == "raw" {
					op.Raw = append(op.Raw, alt[j].Text)
				}
				if alt[j].Col != "" {
					alt[j].Col = colOf(op.Table, alt[j].Col)
				}
			}
		}
		if op.Conds[i].Op == "raw" {
			op.Raw = append(op.Raw, op.Conds[i].Text)
		}
		if op.Conds[i].Col != "" {
			op.Conds[i].Col = colOf(op.Table, op.Conds[i].Col)
		}
	}
	return op
}

func colOf(n *types.Named, s string) string {
	s = strings.Trim(s, "`")
	if n != nil {
		for _, c := range columns(n) {
			if c.Field == s {
				return c.Col
			}
		}
	}
	return strings.ToLower(s)
}

func tablePK(n *types.Named) (column, bool) {
	if n == nil {
		return column{}, false
	}
	return pkOf(columns(n))
}

func isSliceArg(st *State, v Value) bool {
	t := valType(v)
	if p, ok := stripIface(v).(VPtr); ok {
		if o := st.heap[p.O]; o != nil && p.P == "" && o.T != nil {
			t = o.T
		}
	}
	if t == nil {
		_, ok := stripIface(v).(VSlice)
		return ok
	}
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			return true
		}
		return false
	}
}

// derefDest follows a pointer to a pointer.
func derefDest(st *State, v Value) Value {
	p, ok := stripIface(v).(VPtr)
	if !ok {
		return v
	}
	o := st.heap[p.O]
	if o == nil || o.T == nil || p.P != "" {
		return v
	}
	if _, isPtr := o.T.Underlying().(*types.Pointer); isPtr {
		q := st.loadCell(p.O, "", o.T)
		if _, isNil := q.(VNil); isNil {
			return nil
		}
		return q
	}
	return v
}

// modelsOf lists the models an argument of Create, Save or Delete stands for.
func modelsOf(st *State, in *Interp, v Value) ([]Value, bool) {
	x := stripIface(v)
	if p, ok := x.(VPtr); ok {
		o := st.heap[p.O]
		if o != nil && p.P == "" && o.T != nil {
			switch o.T.Underlying().(type) {
			case *types.Slice:
				x = st.loadCell(p.O, "", o.T)
			case *types.Pointer:
				x = st.loadCell(p.O, "", o.T)
			case *types.Interface:
				return modelsOf(st, in, st.loadCell(p.O, "", o.T))
			}
		}
	}
	switch y := x.(type) {
	case VSlice:
		o := st.heap[y.O]
		if o == nil || o.Other != nil || o.Slots != nil {
			return nil, false
		}
		for i := range o.Elems {
			if _, isStruct := o.Elems[i].(*VStruct); isStruct {
				return append([]Value(nil), o.Elems...), true
			}
		}
		return append([]Value(nil), o.Elems...), true
	case VNil:
		if isSliceArg(st, v) {
			return []Value{}, true
		}
		return nil, false
	}
	return []Value{x}, true
}

// dbSet reads the argument of Updates.
func dbSet(st *State, op *DBOp, v Value) {
	x := stripIface(v)
	sel := map[string]bool{}
	for _, s := range op.Select {
		sel[colOf(op.Table, s)] = true
	}
	all := sel["*"]
	omit := map[string]bool{}
	for _, s := range op.Omit {
		omit[colOf(op.Table, s)] = true
	}
	switch y := x.(type) {
	case VMap:
		o := st.heap[y.O]
		if o == nil || o.Other != nil {
			op.Raw = append(op.Raw, "set")
			return
		}
		for i, k := range o.Keys {
			s, ok := constString(stripIface(k))
			if !ok {
				op.Raw = append(op.Raw, "set")
				return
			}
			if len(sel) > 0 && !all && !sel[colOf(op.Table, s)] || omit[colOf(op.Table, s)] {
				continue
			}
			op.Set[colOf(op.Table, s)] = stripIface(o.Elems[i])
		}
		return
	default:
		n := modelType(st, v)
		if n == nil {
			op.Raw = append(op.Raw, "set")
			return
		}
		for _, col := range columns(n) {
			w := st.field(x, col.Field)
			if w == nil || omit[col.Col] {
				continue
			}
			if len(sel) > 0 {
				if all || sel[col.Col] {
					op.Set[col.Col] = w
				}
				continue
			}
			if col.PK || isZeroValue(w) {
				continue
			}
			op.Set[col.Col] = w
		}
	}
}

// writes: does the statement, which writes whole models, write this field?
func (op *DBOp) writes(field string) bool {
	if op.Table == nil {
		return true
	}
	for _, o := range op.Omit {
		if o == field || colOf(op.Table, o) == colOf(op.Table, field) {
			return false
		}
	}
	if len(op.Select) == 0 {
		return true
	}
	for _, o := range op.Select {
		if o == "*" || o == field || colOf(op.Table, o) == colOf(op.Table, field) {
			return true
		}
	}
	return false
}

// unwritten is a field that a statement leaves out although it writes whole
// models.
func (op *DBOp) unwritten() string {
	if op.Table == nil || len(op.Omit)+len(op.Select) == 0 {
		return ""
	}
	for _, c := range columns(op.Table) {
		if !c.PK && !op.writes(c.Field) {
			return c.Field
		}
	}
	return ""
}

// cond finds the conditions on a column.
func (op *DBOp) cond(col string) []DBCond {
	var r []DBCond
	for _, c := range op.Conds {
		if c.Col == col {
			r = append(r, c)
		}
	}
	return r
}

// has: does the statement demand col op val (and nothing weaker)?
func (op *DBOp) has(col, o string, val Value) bool {
	for _, c := range op.Conds {
		if c.Col == col && c.Op == o && c.Val != nil && (val == nil || sameVal(c.Val, val)) {
			return true
		}
		if c.Col == col && o == "=" && c.Op == "in" && val != nil {
			if t, ok := c.Val.(*VTuple); ok && len(t.V) == 1 && sameVal(t.V[0], val) {
				return true
			}
		}
	}
	return false
}

func sameVal(a, b Value) bool {
	a, b = stripIface(a), stripIface(b)
	if a.K() == b.K() {
		return true
	}
	ca, ok := a.(VConst)
	cb, ok2 := b.(VConst)
	return ok && ok2 && ca.V.Kind() == cb.V.Kind() && constant.Compare(ca.V, token.EQL, cb.V)
}

// constStrings lists a slice of constant strings.
func constStrings(st *State, in *Interp, v Value) ([]string, bool) {
	es, ok := in.variadic(st, stripIface(v), nil)
	if !ok {
		return nil, false
	}
	var ss []string
	for _, e := range es {
		s, ok := constString(stripIface(e))
		if !ok {
			return nil, false
		}
		ss = append(ss, s)
	}
	return ss, true
}

func (op *DBOp) table() string {
	if op.Table == nil {
		return "?"
	}
	return op.Table.Obj().Name()
}

func (op *DBOp) String() string {
	var cs []string
	for _, c := range op.Conds {
		v := ""
		if c.Val != nil {
			v = c.Val.K()
		}
		if c.Op == "or" {
			v = "(" + c.Text + ")"
		}
		cs = append(cs, c.Col+c.Op+v)
	}
	sort.Strings(cs)
	return op.Kind + " " + op.table() + " where " + strings.Join(cs, " and ")
}

// ---- results -----------------------------------------------------------------

// dbRow makes a row of a table: a struct of symbols, some of them given.
func dbRow(st *State, n types.Type, id string, given map[string]Value) Value {
	s := n.Underlying().(*types.Struct)
	v := &VStruct{T: n}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if g, ok := given[f.Name()]; ok {
			v.F = append(v.F, g)
			continue
		}
		sid := id + "." + f.Name()
		v.F = append(v.F, &VSym{ID: sid, T: f.Type(), Distinct: true})
	}
	return v
}

// dbFill stores rows into the destination of a query.
func dbFill(st *State, dst Value, rows []Value, many bool) bool {
	p, ok := stripIface(dst).(VPtr)
	if !ok || st.heap[p.O] == nil {
		if s, isSym := stripIface(dst).(*VSym); isSym && s.T != nil && len(rows) > 0 {
			if pt, ok := s.T.Underlying().(*types.Pointer); ok {
				id := st.symObj(s, pt.Elem())
				st.storeCell(id, "", pt.Elem(), rows[0])
				return true
			}
		}
		return false
	}
	t := st.heap[p.O].T
	if p.P != "" {
		t = fieldType(t, p.P[:strings.LastIndex(p.P, ".")], p.P[strings.LastIndex(p.P, ".")+1:])
	}
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		var es []Value
		for i, r := range rows {
			if _, isPtr := u.Elem().Underlying().(*types.Pointer); isPtr {
				es = append(es, newRow(st, r, p.O+":row"+string(rune('0'+i))))
			} else {
				es = append(es, r)
			}
		}
		o := &Obj{Kind: "slice", T: t, Elems: es}
		st.storeCell(p.O, p.P, t, VSlice{st.freshObj("rows!"+p.O, o)})
		return true
	case *types.Pointer:
		if len(rows) == 0 {
			return true
		}
		cur := st.loadCell(p.O, p.P, t)
		if q, ok := cur.(VPtr); ok {
			st.storeCell(q.O, q.P, u.Elem(), rows[0])
			return true
		}
		st.storeCell(p.O, p.P, t, newRow(st, rows[0], p.O+":row"))
		return true
	case *types.Struct:
		if len(rows) > 0 {
			st.storeCell(p.O, p.P, t, rows[0])
		}
		return true
	default:
		if len(rows) > 0 {
			st.storeCell(p.O, p.P, t, rows[0])
			return true
		}
	}
	return false
}

func newRow(st *State, r Value, id string) Value {
	s := r.(*VStruct)
	o := &Obj{Kind: "cells", T: s.T, Cells: map[string]Value{}}
	name := st.freshObj(id, o)
	st.storeCell(name, "", s.T, s)
	return VPtr{name, ""}
}

// onConflict: does an ON CONFLICT clause change existing rows?
func onConflict(st *State, v Value) (changes, known bool) {
	x := stripIface(v)
	ua, du := st.field(x, "UpdateAll"), st.field(x, "DoUpdates")
	if ua == nil || du == nil {
		return false, false
	}
	b, ok := constBool(ua)
	if !ok {
		return false, false
	}
	return b || !isZeroValue(du), true
}
