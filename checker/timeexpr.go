package main

import (
	"go/constant"
	"sort"
	"strconv"
	"strings"
)

// linear is a sum of terms; every reading of the clock is the term "now".
type linear map[string]int64

func (l linear) add(m linear, k int64) linear {
	r := linear{}
	for t, c := range l {
		r[t] += c
	}
	for t, c := range m {
		r[t] += k * c
	}
	for t, c := range r {
		if c == 0 {
			delete(r, t)
		}
	}
	return r
}

func (l linear) eq(m linear) bool { return len(l.add(m, -1)) == 0 }

func (l linear) String() string {
	var ks []string
	for k, c := range l {
		ks = append(ks, strconv.FormatInt(c, 10)+"*"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func isNow(v Value) bool {
	s, ok := v.(*VSym)
	return ok && strings.HasPrefix(s.ID, "now@")
}

// lin reads times and durations as linear expressions.
func lin(v Value) linear {
	v = stripIface(v)
	switch x := v.(type) {
	case VConst:
		if x.V.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.V)
			if n == 0 {
				return linear{}
			}
			return linear{"": n}
		}
		if x.V.Kind() == constant.Float {
			f, _ := constant.Float64Val(x.V)
			return linear{"": int64(f)}
		}
	case *VSym:
		if isNow(x) {
			return linear{"now": 1}
		}
	case *VApp:
		switch x.F {
		case "time.Since":
			return linear{"now": 1}.add(lin(x.Args[0]), -1)
		case "time.Until":
			return lin(x.Args[0]).add(linear{"now": 1}, -1)
		case "(time.Time).Add", "op+":
			if len(x.Args) == 2 {
				return lin(x.Args[0]).add(lin(x.Args[1]), 1)
			}
		case "(time.Time).Sub", "op-":
			if len(x.Args) == 2 {
				return lin(x.Args[0]).add(lin(x.Args[1]), -1)
			}
			if len(x.Args) == 1 {
				return linear{}.add(lin(x.Args[0]), -1)
			}
		case "-":
			return linear{}.add(lin(x.Args[0]), -1)
		case "op*":
			if len(x.Args) == 2 {
				for i := 0; i < 2; i++ {
					if n, ok := constInt(x.Args[i]); ok {
						return linear{}.add(lin(x.Args[1-i]), int64(n))
					}
				}
			}
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round0", "(time.Time).UnixNano", "(time.Duration).Nanoseconds", "convert":
			return lin(x.Args[0])
		case "neg":
			return linear{}.add(lin(x.Args[0]), -1)
		}
	}
	return linear{v.K(): 1}
}

func linSym(v Value) linear { return linear{v.K(): 1} }

// knownGE: do the facts of the path say that want >= 0 (or want > 0)?
func knownGE(st *State, want linear) bool {
	for _, f := range st.facts {
		if f.p.Op != "lt" {
			continue
		}
		d := lin(f.p.Y).add(lin(f.p.X), -1) // > 0 when the fact holds
		if f.v && d.eq(want) {
			return true
		}
		if !f.v && (linear{}).add(d, -1).eq(want) {
			return true
		}
	}
	return false
}

// knownSign lists what the facts say about an expression: "<", ">=", ">", "<=".
func knownSign(st *State, e linear) map[string]bool {
	r := map[string]bool{}
	neg := (linear{}).add(e, -1)
	for _, f := range st.facts {
		if f.p.Op != "lt" {
			continue
		}
		d := lin(f.p.Y).add(lin(f.p.X), -1)
		switch {
		case d.eq(e) && f.v:
			r[">"] = true
		case d.eq(e):
			r["<="] = true
		case d.eq(neg) && f.v:
			r["<"] = true
		case d.eq(neg):
			r[">="] = true
		}
	}
	return r
}
