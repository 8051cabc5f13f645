package main

import (
	"fmt"
	"sort"
	"strings"
)

// Generated shapes of aggregates and edit histories: every number names one
// history (three-level trees of up to ten entities, edits between saves), so
// a run of the check analyses the same ones every time.

type rng uint64

func (r *rng) n(k int) int {
	*r ^= *r << 13
	*r ^= *r >> 7
	*r ^= *r << 17
	return int(uint64(*r>>11) % uint64(k))
}

func graphStr(g graph) string {
	var es []string
	for e := range g {
		es = append(es, e)
	}
	sort.Strings(es)
	var out []string
	for _, e := range es {
		var ks []string
		for k := range g[e] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, e+"."+k+"="+strings.Join(g[e][k], ","))
		}
	}
	return strings.Join(out, "; ")
}

func (g graph) clone() graph {
	r := graph{}
	for e, ks := range g {
		r[e] = map[string][]string{}
		for k, l := range ks {
			r[e][k] = append([]string(nil), l...)
		}
	}
	return r
}

// genSpec makes the history with the given number; nil if the history has no
// defined outcome (an entity used twice before an explicit save).
func genSpec(no int) *gspec {
	r := rng(uint64(no)*0x9E3779B97F4A7C15 + 0x1234567)
	for i := 0; i < 8; i++ {
		r.n(2)
	}
	s := &gspec{name: fmt.Sprintf("gen%d", no), errRule: "C04/change", pinID: true}
	keys := []string{"k", "l"}
	names := strings.Split("a b c d e f g h i j", " ")
	next := 0
	cur := graph{}
	roots := []string{"r"}
	if r.n(3) == 0 {
		roots = append(roots, "q")
	}
	live := append([]string(nil), roots...)
	level := map[string]int{}
	put := func(p, k, c string) {
		if cur[p] == nil {
			cur[p] = map[string][]string{}
		}
		l := cur[p][k]
		at := r.n(len(l) + 1)
		l = append(l[:at:at], append([]string{c}, l[at:]...)...)
		cur[p][k] = l
	}
	create := func() string {
		if next == len(names) {
			return ""
		}
		p := live[r.n(len(live))]
		if level[p] >= 3 {
			p = roots[0]
		}
		c := names[next]
		next++
		level[c] = level[p] + 1
		put(p, keys[r.n(2)], c)
		live = append(live, c)
		return c
	}
	isRoot := func(e string) bool { return contains(roots, e) }
	below := func(e string) []string { // e and everything below it
		var res []string
		seen := map[string]bool{}
		var f func(string)
		f = func(x string) {
			if seen[x] {
				return
			}
			seen[x] = true
			res = append(res, x)
			for _, k := range keys {
				for _, c := range cur[x][k] {
					f(c)
				}
			}
		}
		f(e)
		return res
	}
	unlink := func(c string) {
		for _, ks := range cur {
			for k, l := range ks {
				ks[k] = without(l, c)
			}
		}
	}
	n := 4 + r.n(4)
	for i := 0; i < n; i++ {
		create()
	}
	snapshot := func() gop { return gop{op: "graph", g: cur.clone()} }
	s.ops = append(s.ops, snapshot())
	if len(roots) == 2 && r.n(2) == 0 {
		s.ops = append(s.ops, op("load", "r", "q"))
	} else {
		for _, x := range roots {
			s.ops = append(s.ops, op("load", x))
		}
	}
	dirtied := func(share int) {
		var ds []string
		for _, x := range live {
			if r.n(share) == 0 {
				ds = append(ds, x)
			}
		}
		if len(ds) > 0 {
			s.ops = append(s.ops, op("dirty", ds...))
		}
	}
	s.recursive = r.n(4) == 0
	rounds := 1 + r.n(2)
	for i := 0; i < rounds; i++ {
		if i > 0 {
			s.ops = append(s.ops, op("save"))
		}
		edits := 1 + r.n(4)
		added := ""
		for j := 0; j < edits; j++ {
			switch r.n(6) {
			case 0, 1:
				if c := create(); c != "" && len(s.noID) < 2 && r.n(2) == 0 {
					s.noID = append(s.noID, c)
				}
			case 2: // move
				c := live[r.n(len(live))]
				if isRoot(c) {
					break
				}
				p := live[r.n(len(live))]
				if contains(below(c), p) {
					break
				}
				unlink(c)
				put(p, keys[r.n(2)], c)
			case 3, 4: // delete
				c := live[r.n(len(live))]
				if isRoot(c) {
					break
				}
				unlink(c)
				for _, x := range below(c) {
					live = without(live, x)
				}
			case 5:
				if added == "" && next < len(names) && r.n(2) == 0 {
					added = names[next]
					next++
					roots = append(roots, added)
					live = append(live, added)
				}
			}
		}
		s.ops = append(s.ops, snapshot())
		if added != "" {
			s.ops = append(s.ops, op("add", added))
		}
		dirtied(1 + r.n(3))
		if len(roots) > 1 && r.n(5) == 0 {
			x := roots[len(roots)-1]
			if x != added {
				s.ops = append(s.ops, op("remove", x))
				roots = without(roots, x)
				for _, y := range below(x) {
					live = without(live, y)
				}
			}
		}
	}
	if r.n(3) == 0 {
		s.typeB = []string{"a", "d", "f"}
	}
	if r.n(2) == 0 {
		s.events = map[string][]string{"b": {"2"}, "e": {"1"}, "r": {"3"}}
	}
	if no%3 == 0 && next > 2 { // some entity is given an event in between
		at := 2 + no%(len(s.ops)-1)
		o := op("event", append(names[:next:next], roots[0])[no%(next+1)], "4")
		s.ops = append(s.ops[:at:at], append([]gop{o}, s.ops[at:]...)...)
	}
	if _, _, err := s.reference(map[string]bool{}); err != "" {
		if rounds > 1 {
			return nil
		}
		s.wantErr = "double"
		s.errRule = "C18/change"
	}
	if len(s.noID) > 0 {
		s.hookless = r.n(2) == 0
	}
	return s
}

func genScenarios() []*Scenario {
	var r []*Scenario
	const quick, thorough = 40, 400
	for i := 1; i <= thorough; i++ {
		s := genSpec(i)
		if s == nil {
			continue
		}
		r = append(r, &Scenario{Name: "graph/" + s.name, Run: scenGraph(s), Depth: 12, Thorough: i > quick, Opts: []string{"oneorder"},
			Props: []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C16", "C18", "C19", "C20", "C52"}})
	}
	return r
}
