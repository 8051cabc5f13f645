package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is an element of the abstract value domain. Values are immutable; K is
// the canonical key, equal keys mean the same abstract value.
type Value interface{ K() string }

type VConst struct {
	V constant.Value
	T types.Type
}

func (v VConst) K() string { return "c:" + v.V.ExactString() }

type VNil struct{}

func (VNil) K() string { return "nil" }

// VSym is an opaque value. A summary symbol stands for several concrete values,
// so that two occurrences need not be equal.
type VSym struct {
	ID       string
	T        types.Type
	Sum      bool
	Distinct bool // differs from every other Distinct symbol and is not nil
	NonNil   bool
}

func (v *VSym) K() string { return "s:" + v.ID }

// VApp is a pure function of other values (uninterpreted).
type VApp struct {
	F      string
	Args   []Value
	T      types.Type
	NonNil bool
}

func (v *VApp) K() string {
	var b strings.Builder
	b.WriteString("@")
	b.WriteString(v.F)
	b.WriteString("(")
	for i, a := range v.Args {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(a.K())
	}
	b.WriteString(")")
	return b.String()
}

// VPtr points into a heap object.
type VPtr struct {
	O, P string
}

func (v VPtr) K() string { return "&" + v.O + v.P }

// VEPtr points to (a part of) a slice element.
type VEPtr struct {
	O string
	I Value
	P string
}

func (v VEPtr) K() string { return "&" + v.O + "[" + v.I.K() + "]" + v.P }

type VStruct struct {
	T types.Type
	F []Value
}

func (v *VStruct) K() string {
	var b strings.Builder
	b.WriteString("{")
	for i, a := range v.F {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(a.K())
	}
	b.WriteString("}")
	return b.String()
}

type VTuple struct{ V []Value }

func (v *VTuple) K() string {
	var b strings.Builder
	b.WriteString("(")
	for i, a := range v.V {
		if i > 0 {
			b.WriteString(",")
		}
		if a == nil {
			b.WriteString("_")
		} else {
			b.WriteString(a.K())
		}
	}
	b.WriteString(")")
	return b.String()
}

type VFunc struct {
	Fn *ssa.Function
	B  []Value
}

func (v *VFunc) K() string {
	var b strings.Builder
	b.WriteString("f:")
	b.WriteString(v.Fn.String())
	for _, a := range v.B {
		b.WriteString("|")
		b.WriteString(a.K())
	}
	return b.String()
}

// VNative is a function value implemented by the analysis (a modelled collaborator).
type VNative struct {
	Name string
	B    []Value
}

func (v *VNative) K() string {
	s := "n:" + v.Name
	for _, a := range v.B {
		s += "|" + a.K()
	}
	return s
}

type VIface struct {
	T types.Type
	V Value
}

func (v *VIface) K() string { return "i<" + typeKey(v.T) + ">" + v.V.K() }

type VSlice struct{ O string }

func (v VSlice) K() string { return "sl:" + v.O }

type VMap struct{ O string }

func (v VMap) K() string { return "m:" + v.O }

type VChan struct{ O string }

func (v VChan) K() string { return "ch:" + v.O }

// VIdx is a position in a slice whose content is known up to "other" elements
// interleaved at unknown places. G is the gap (number of tracked elements before it).
type VIdx struct {
	O    string
	G    int
	At   int // idxFwd, idxBwd, idxElem, idxOther, idxEnd, idxStart
	Elem Value
}

const (
	idxFwd   = iota // the next position at or after gap G, not yet compared with the length
	idxBwd          // the previous position before gap G, not yet compared with 0
	idxElem         // at tracked element G
	idxOther        // at an other element in gap G
	idxEnd          // the length
	idxStart        // -1
)

func (v *VIdx) K() string {
	s := "ix:" + v.O + ":" + strconv.Itoa(v.G) + ":" + strconv.Itoa(v.At)
	if v.Elem != nil {
		s += ":" + v.Elem.K()
	}
	return s
}

// VLen is the length of a slice (or map) with unknown other elements, plus Off.
type VLen struct {
	O   string
	Off int
}

func (v VLen) K() string { return "len:" + v.O + ":" + strconv.Itoa(v.Off) }

// VIter is a map (or string) iterator.
type VIter struct {
	O       string
	Visited bitset
	Stage   string
}

func (v *VIter) K() string { return fmt.Sprintf("it:%s:%v:%s", v.O, v.Visited, v.Stage) }

// bitset is a set of the positions 0 to 255; later ones are not told apart.
type bitset [4]uint64

func (b bitset) has(i int) bool { return i < 256 && b[i/64]&(1<<(i%64)) != 0 }
func (b bitset) with(i int) bitset {
	if i < 256 {
		b[i/64] |= 1 << (i % 64)
	}
	return b
}

// VPred is a boolean that the analysis has not decided.
type VPred struct {
	Op   string // eq lt nil is truth
	X, Y Value
	T    types.Type
	Neg  bool
}

func (v *VPred) base() string {
	y := ""
	if v.Y != nil {
		y = v.Y.K()
	}
	if v.T != nil {
		y += "<" + typeKey(v.T) + ">"
	}
	x := v.X.K()
	if v.Op == "eq" && y < x {
		x, y = y, x
	}
	return v.Op + "|" + x + "|" + y
}

func (v *VPred) K() string {
	if v.Neg {
		return "!" + v.base()
	}
	return v.base()
}

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	typeKeys.Store(t, s)
	return s
}

func cBool(b bool) Value  { return VConst{constant.MakeBool(b), types.Typ[types.Bool]} }
func cInt(i int) Value    { return VConst{constant.MakeInt64(int64(i)), types.Typ[types.Int]} }
func cStr(s string) Value { return VConst{constant.MakeString(s), types.Typ[types.String]} }

func constBool(v Value) (bool, bool) {
	if c, ok := v.(VConst); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

func constInt(v Value) (int, bool) {
	if c, ok := v.(VConst); ok && c.V.Kind() == constant.Int {
		if i, exact := constant.Int64Val(c.V); exact {
			return int(i), true
		}
	}
	return 0, false
}

func constString(v Value) (string, bool) {
	if c, ok := v.(VConst); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

// symsOf collects the symbols and object names a value mentions.
func walkValue(v Value, sym func(*VSym), obj func(string)) {
	switch x := v.(type) {
	case *VSym:
		sym(x)
	case *VApp:
		for _, a := range x.Args {
			walkValue(a, sym, obj)
		}
	case VPtr:
		obj(x.O)
	case VEPtr:
		obj(x.O)
		walkValue(x.I, sym, obj)
	case *VStruct:
		for _, a := range x.F {
			walkValue(a, sym, obj)
		}
	case *VTuple:
		for _, a := range x.V {
			if a != nil {
				walkValue(a, sym, obj)
			}
		}
	case *VFunc:
		for _, a := range x.B {
			walkValue(a, sym, obj)
		}
	case *VNative:
		for _, a := range x.B {
			walkValue(a, sym, obj)
		}
	case *VIface:
		walkValue(x.V, sym, obj)
	case VSlice:
		obj(x.O)
	case VMap:
		obj(x.O)
	case VChan:
		obj(x.O)
	case *VIdx:
		obj(x.O)
		if x.Elem != nil {
			walkValue(x.Elem, sym, obj)
		}
	case VLen:
		obj(x.O)
	case *VIter:
		obj(x.O)
	case *VPred:
		walkValue(x.X, sym, obj)
		if x.Y != nil {
			walkValue(x.Y, sym, obj)
		}
	}
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func extStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if inModulePath(n.Obj().Pkg().Path()) {
		return false
	}
	// a struct of another module that hides nothing is as transparent as our own
	if s, ok := n.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				return true
			}
		}
		return false
	}
	return true
}

// zero is the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VConst{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return VConst{constant.MakeString(""), t}
		case u.Info()&types.IsNumeric != 0:
			return VConst{constant.MakeInt64(0), t}
		}
		return VNil{}
	case *types.Struct:
		if extStruct(t) {
			return &VApp{F: "zero:" + typeKey(t), T: t, NonNil: true}
		}
		s := &VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &VApp{F: "zero:" + typeKey(t), T: t, NonNil: true}
	}
	return VNil{}
}

func negPred(p *VPred) *VPred { q := *p; q.Neg = !q.Neg; return &q }

func tokenName(t token.Token) string { return t.String() }
