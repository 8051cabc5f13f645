package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var quiet = flag.Bool("q", false, "no paths")
var debugAll = flag.Bool("all", false, "the scenarios of the thorough tier as well")
var debugScen = flag.String("scen", "", "run one scenario")

func main() {
	repo := flag.String("repo", "/repo", "")
	prof := flag.String("prof", "", "")
	prop := flag.String("property", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	if *prop != "" {
		os.Exit(checkMain(*prop, *tier, *repo, *verif))
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	P, err := Load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e, err := NewEnv(P)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	var sel []*Scenario
	for _, s := range scenarios() {
		if *debugScen != "" && !anyPrefix(s.Name, strings.Split(*debugScen, ",")) {
			continue
		}
		if s.Thorough && !*debugAll {
			continue
		}
		sel = append(sel, s)
	}
	res := e.runAll(sel, time.Hour)
	for i, s := range sel {
		in := res[i].in
		if res[i].failed != "" {
			fmt.Println("!!", s.Name, res[i].failed)
		}
		if in == nil {
			continue
		}
		fmt.Printf("== %s: %d states, %d steps, %d ends, %d funcs, %v %s\n", s.Name, in.NStates, in.NSteps, in.NEnds, len(in.Funcs), res[i].dur.Round(time.Millisecond), in.Incomplete)
		for _, v := range in.Violations {
			fmt.Println("  VIOL", v.Rule, v.Construct, v.Pos, v.Msg)
			n := len(v.Path)
			if n > 25 && os.Getenv("VERIF_DEBUG") == "" {
				v.Path = v.Path[n-25:]
			}
			if *quiet {
				continue
			}
			for _, p := range v.Path {
				fmt.Println("      ", p)
			}
		}
		for k, t := range in.Tainted {
			fmt.Println("  TAINTED", k, t)
		}
		for k, n := range in.Stopped {
			fmt.Println("  TAINTED", n, "paths given up:", k)
		}
		if *quiet {
			continue
		}
		ks := []string{}
		for k, n := range in.Obl {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(ks)
		fmt.Println("  obl", ks)
		if len(in.Unknown) > 0 {
			fmt.Println("  unknown", in.Unknown)
		}
		if len(in.Cut) > 0 {
			fmt.Println("  cut", in.Cut)
		}
	}
	if os.Getenv("VERIF_COV") != "" {
		printUncovered(P, res)
	}
	vs, pairs := races(allAccesses(res))
	fmt.Println("== races:", pairs, "pairs")
	for _, v := range vs {
		fmt.Println("  VIOL", v.Rule, v.Construct, v.Pos, v.Msg)
	}
}

func (e *Env) runScenario(s *Scenario, in *Interp) {
	in.base = e.base
	in.Scenario = s.Name
	in.Opts = map[string]bool{}
	for _, o := range s.Opts {
		in.Opts[o] = true
	}
	if s.Depth > 0 {
		in.Depth = s.Depth
	}
	if s.Max > 0 {
		in.MaxStates = s.Max
	}
	s.Run(e, in)
}

func scenarios() []*Scenario {
	var r []*Scenario
	r = append(r, graphScenarios()...)
	r = append(r, genScenarios()...)
	r = append(r, runScenarios()...)
	r = append(r, cmdScenarios()...)
	r = append(r, registryScenarios()...)
	r = append(r, lockScenarios()...)
	r = append(r, execScenarios()...)
	r = append(r, busScenarios()...)
	r = append(r, timerScenarios()...)
	r = append(r, memScenarios()...)
	r = append(r, loadScenarios()...)
	r = append(r, eventScenarios()...)
	r = append(r, isoScenarios()...)
	r = append(r, handlerScenarios()...)
	r = append(r, resultScenarios()...)
	r = append(r, diffScenarios()...)
	r = append(r, baseScenarios()...)
	return r
}

func anyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// printUncovered lists the code of the library that no scenario reaches.
func printUncovered(P *Program, res []*result) {
	seen := map[*ssa.BasicBlock]bool{}
	for _, r := range res {
		if r.in != nil {
			for b := range r.in.Blocks {
				seen[b] = true
			}
		}
	}
	var out []string
	for _, f := range P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		any := false
		for _, b := range f.Blocks {
			any = any || seen[b]
		}
		if !any {
			out = append(out, fmt.Sprint("FUNC ", P.Prog.Fset.Position(f.Pos()), " ", f))
			continue
		}
		for _, b := range f.Blocks {
			if !seen[b] && b != f.Recover && len(b.Instrs) > 0 {
				p := b.Instrs[0].Pos()
				for _, i := range b.Instrs {
					if i.Pos().IsValid() {
						p = i.Pos()
						break
					}
				}
				out = append(out, fmt.Sprint("BLOCK ", P.Prog.Fset.Position(p), " ", f, " ", b.Index, " ", b.Comment, " ", b.Instrs[0]))
			}
		}
	}
	sort.Strings(out)
	for _, l := range out {
		fmt.Println(l)
	}
}
