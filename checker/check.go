package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type result struct {
	s      *Scenario
	in     *Interp
	dur    time.Duration
	failed string
}

// runAll analyses the scenarios in parallel.
func (e *Env) runAll(sel []*Scenario, limit time.Duration) []*result {
	res := make([]*result, len(sel))
	debug.SetMemoryLimit(12 << 30)
	watchMemory(16 << 30)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	end := time.Now().Add(limit)
	for i, s := range sel {
		i, s := i, s
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := &result{s: s}
			res[i] = r
			t := time.Now()
			defer func() { r.dur = time.Since(t) }()
			defer func() {
				if p := recover(); p != nil {
					if m, ok := p.(missing); ok {
						r.failed = "anchor missing: " + m.msg
					} else {
						r.failed = fmt.Sprintf("analysis stopped: %v", p)
						if os.Getenv("VERIF_DEBUG") != "" {
							r.failed += "\n" + string(debug.Stack())
						}
					}
				}
			}()
			r.in = NewInterp(e.P, nil)
			r.in.deadline = end
			e.runScenario(s, r.in)
		}()
	}
	wg.Wait()
	return res
}

type known struct{ property, rule, construct, text string }

// readKnown reads the committed list of known findings.
func readKnown(file string) []known {
	var ks []known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{text: l}
		for _, f := range strings.Split(l[7:], "|") {
			f = strings.TrimSpace(f)
			switch {
			case strings.HasPrefix(f, "property="):
				k.property = f[9:]
			case strings.HasPrefix(f, "rule="):
				k.rule = f[5:]
			case strings.HasPrefix(f, "construct="):
				k.construct = f[10:]
			default:
				k.text = f
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func checkMain(prop, tier, repo, verif string) int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	P, err := Load(repo)
	if err != nil {
		fmt.Println("ERROR: the repository cannot be loaded:", err)
		return 2
	}
	e, err := NewEnv(P)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var sel []*Scenario
	for _, s := range scenarios() {
		if s.has(prop) && (tier == "thorough" || !s.Thorough) {
			sel = append(sel, s)
		}
	}
	if len(sel) == 0 {
		fmt.Println("ERROR: no analysis for property", prop)
		return 2
	}
	limit := 780 * time.Second
	res := e.runAll(sel, limit)
	states, stepsN, ends := 0, 0, 0
	funcs := map[string]bool{}
	blocks := map[string]bool{}
	obl := map[string]int{}
	unknown := map[string]int{}
	cut := map[string]int{}
	sites := map[string]int{}
	var undecided []string
	var viols []*Violation
	seen := map[string]bool{}
	samples := []interface{}{}
	for _, r := range res {
		if r.failed != "" {
			undecided = append(undecided, r.s.Name+": "+strings.Split(r.failed, "\n")[0])
		}
		in := r.in
		if in == nil {
			continue
		}
		if in.Incomplete != "" {
			undecided = append(undecided, r.s.Name+": "+in.Incomplete)
		}
		for k, n := range in.Stopped {
			undecided = append(undecided, fmt.Sprintf("%s: %d paths are given up at %s, which the analysis does not model", r.s.Name, n, k))
		}
		for k, t := range in.Tainted {
			if strings.HasPrefix(k, prop+"/") {
				undecided = append(undecided, r.s.Name+": "+k+" "+t)
			}
		}
		states += in.NStates
		stepsN += in.NSteps
		ends += in.NEnds
		for f := range in.Funcs {
			funcs[f.String()] = true
		}
		for b := range in.Blocks {
			blocks[b.Parent().String()+"#"+strconv.Itoa(b.Index)] = true
		}
		for k, n := range in.Obl {
			if strings.HasPrefix(k, prop+"/") {
				obl[k] += n
			}
		}
		for k, n := range in.Unknown {
			unknown[k] += n
		}
		for k, n := range in.Cut {
			cut[k] += n
		}
		for k, n := range in.Sites {
			sites[k] += n
		}
		for _, v := range in.Violations {
			if strings.HasPrefix(v.Rule, prop+"/") {
				k := v.Rule + "|" + v.Construct
				if !seen[k] {
					seen[k] = true
					viols = append(viols, v)
				}
			}
		}
		if len(samples) < 40 {
			samples = append(samples, fmt.Sprintf("%s: %d states, %d ends", r.s.Name, in.NStates, in.NEnds))
		}
	}
	if prop == "C40" {
		vs, pairs := races(allAccesses(res))
		viols = append(viols, vs...)
		obl["C40/lockset"] += pairs
	}
	sort.Slice(viols, func(i, j int) bool {
		return viols[i].Rule+viols[i].Construct < viols[j].Rule+viols[j].Construct
	})
	for r := range ruleFloor(prop) {
		if obl[r] == 0 {
			undecided = append(undecided, "rule "+r+" was never reached")
		}
	}
	total := 0
	for _, n := range obl {
		total += n
	}
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	code := 0
	nviol := 0
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	var b strings.Builder
	for _, v := range viols {
		isKnown := false
		for _, k := range kn {
			if k.property == prop && k.rule == v.Rule && k.construct == v.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		nviol++
		fmt.Fprintf(&b, "rule %s\nconstruct %s\nat %s\nscenario %s\n%s\nabstract path:\n", v.Rule, v.Construct, v.Pos, v.Scenario, v.Msg)
		for _, p := range v.Path {
			fmt.Fprintf(&b, "  %s\n", p)
		}
		b.WriteString("\n")
	}
	replay := filepath.Join(evdir, prop+".replay.txt")
	os.Remove(replay)
	if nviol > 0 {
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for _, v := range viols {
			fmt.Printf("%s: %s at %s (%s): %s\n", v.Rule, v.Construct, v.Pos, v.Scenario, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		code = 1
	}
	for _, u := range undecided {
		fmt.Println("UNDECIDED:", u)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":            explain(prop) + fmt.Sprintf(" This run analysed %d scenarios over the SSA of %d functions (%d basic blocks) of the current tree, reached %d abstract states at block entries (%d transfer steps), and evaluated %d rule instances.", len(sel), len(funcs), len(blocks), states, stepsN, total),
			"scenarios":              len(sel),
			"states":                 states,
			"transitions":            stepsN,
			"ends":                   ends,
			"functions":              keysOf(funcs),
			"basic_blocks":           len(blocks),
			"obligations":            total,
			"discharged":             total - nviol,
			"obligations_by_rule":    obl,
			"undecided":              undecided,
			"calls_leaving_the_code": len(sites),
			"unmodelled_callees":     unknown,
			"recursion_cut":          cut,
			"samples":                samples,
		},
		"assumptions": []string{
			"the models of the standard library, gorm and the other imported modules in /verif/checker describe what these do",
			"goroutines are analysed one at a time; interleavings are covered only by the lock rules",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nviol,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d scenarios, %d functions, %d states, %d rule instances, %d violations, %.1fs\n", prop, len(sel), len(funcs), states, total, nviol, time.Since(t0).Seconds())
	return code
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Scenario) has(prop string) bool {
	for _, p := range s.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// ruleFloor: rules that must have been reached; set by the registry of rules.
func ruleFloor(prop string) map[string]bool {
	m := map[string]bool{}
	for _, r := range floors {
		if strings.HasPrefix(r, prop+"/") {
			m[r] = true
		}
	}
	return m
}

var floors []string

func explain(prop string) string {
	return "Abstract interpretation (disjunctive dataflow fixpoint with typestate monitors) of the library's SSA under an environment that answers every external call in all admitted ways. " + explanations[prop]
}

//go:embed explain.txt
var explainText string

// explanations: what is analysed for each property, one line each in explain.txt.
var explanations = func() map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(explainText, "\n") {
		if k, v, ok := strings.Cut(l, ": "); ok {
			m[k] = v
		}
	}
	return m
}()

func allAccesses(res []*result) map[string]*Access {
	m := map[string]*Access{}
	for _, r := range res {
		if r.in != nil {
			for k, a := range r.in.Accesses {
				m[k] = a
			}
		}
	}
	return m
}
