package main

// Results (C03): an error that stands for several ones is found as each of them.

func scenErrList(e *Env, in *Interp) {
	l := newLab(e)
	f := e.Fn("ResultErrors")
	var es []Value
	for _, n := range []string{"a", "b", "c"} {
		es = append(es, extErrV(n))
	}
	mk := func(n int) stepFn {
		return func(in *Interp, st *State, fr *Frame) []*State {
			sl := VSlice{st.freshObj("errs", &Obj{Kind: "slice", T: f.Signature.Params().At(0).Type(), Elems: append([]Value(nil), es[:n]...), NonEmpty: true})}
			return in.CallFn(st, f, "results", sl)
		}
	}
	ck := func(n int) stepFn {
		return func(in *Interp, st *State, fr *Frame) []*State {
			p, ok := fr.loc["ret"].(VPtr)
			if !ok {
				in.Check(st, false, "C03/result", "ResultErrors", f.Pos(), "a list of errors makes no result")
				return nil
			}
			err := field(st, p, l.t("Result"), "Error")
			for _, x := range es[:n] {
				in.Check(st, in.inChain(st, err, x), "C03/result", "ResultErrors", f.Pos(), "errors.Is does not find every error of a list of errors")
			}
			return nil
		}
	}
	var ss []stepFn
	for n := 1; n <= len(es); n++ {
		ss = append(ss, mk(n), ck(n))
	}
	in.H = l
	st := newState()
	in.pushScript(st, &Script{Name: "lab", Steps: guarded(ss)}, nil, retDiscard, 0, "scenario")
	in.Run(st)
}

func extErrV(n string) Value {
	return &VSym{ID: "err:" + n, T: errTypeT, Distinct: true, NonNil: true}
}

func resultScenarios() []*Scenario {
	return []*Scenario{{Name: "result/errors", Props: []string{"C03"}, Run: scenErrList}}
}
