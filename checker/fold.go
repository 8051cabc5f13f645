package main

import "strings"

// Functions of package strings whose arguments are all known are computed.

func foldStrings(c *CallCtx) []Outcome {
	name := strings.TrimPrefix(c.Key, "strings.")
	var s []string
	var n []int
	for _, a := range c.Args {
		if x, ok := constString(a); ok {
			s = append(s, x)
		} else if i, ok := constInt(a); ok {
			n = append(n, i)
		} else {
			return nil
		}
	}
	list := func(l []string) []Outcome {
		var vs []Value
		for _, x := range l {
			vs = append(vs, cStr(x))
		}
		t := c.resT(0)
		if l == nil {
			return ret(VNil{})
		}
		return ret(VSlice{c.St.freshObj("strs:"+c.Pre, &Obj{Kind: "slice", T: t, Elems: vs})})
	}
	switch {
	case len(s) == 1 && len(n) == 0:
		switch name {
		case "ToUpper":
			return ret(cStr(strings.ToUpper(s[0])))
		case "ToLower":
			return ret(cStr(strings.ToLower(s[0])))
		case "TrimSpace":
			return ret(cStr(strings.TrimSpace(s[0])))
		case "Fields":
			return list(strings.Fields(s[0]))
		case "Clone":
			return ret(cStr(s[0]))
		}
	case len(s) == 1 && len(n) == 1:
		switch name {
		case "Repeat":
			if n[0] >= 0 && n[0] < 1000 {
				return ret(cStr(strings.Repeat(s[0], n[0])))
			}
		case "IndexByte", "IndexRune":
			return ret(cInt(strings.IndexRune(s[0], rune(n[0]))))
		}
	case len(s) == 2 && len(n) == 0:
		a, b := s[0], s[1]
		switch name {
		case "HasPrefix":
			return ret(cBool(strings.HasPrefix(a, b)))
		case "HasSuffix":
			return ret(cBool(strings.HasSuffix(a, b)))
		case "Contains":
			return ret(cBool(strings.Contains(a, b)))
		case "ContainsAny":
			return ret(cBool(strings.ContainsAny(a, b)))
		case "EqualFold":
			return ret(cBool(strings.EqualFold(a, b)))
		case "Index":
			return ret(cInt(strings.Index(a, b)))
		case "LastIndex":
			return ret(cInt(strings.LastIndex(a, b)))
		case "Count":
			return ret(cInt(strings.Count(a, b)))
		case "Trim":
			return ret(cStr(strings.Trim(a, b)))
		case "TrimLeft":
			return ret(cStr(strings.TrimLeft(a, b)))
		case "TrimRight":
			return ret(cStr(strings.TrimRight(a, b)))
		case "TrimPrefix":
			return ret(cStr(strings.TrimPrefix(a, b)))
		case "TrimSuffix":
			return ret(cStr(strings.TrimSuffix(a, b)))
		case "Split":
			return list(strings.Split(a, b))
		case "SplitAfter":
			return list(strings.SplitAfter(a, b))
		case "Cut":
			x, y, ok := strings.Cut(a, b)
			return ret(cStr(x), cStr(y), cBool(ok))
		case "CutPrefix":
			x, ok := strings.CutPrefix(a, b)
			return ret(cStr(x), cBool(ok))
		}
	case len(s) == 2 && len(n) == 1 && name == "SplitN":
		return list(strings.SplitN(s[0], s[1], n[0]))
	case len(s) == 3 && len(n) == 0 && name == "ReplaceAll":
		return ret(cStr(strings.ReplaceAll(s[0], s[1], s[2])))
	case len(s) == 3 && len(n) == 1 && name == "Replace":
		return ret(cStr(strings.Replace(s[0], s[1], s[2], n[0])))
	}
	// known, but not computed: what follows from it would be guessed
	c.St.Set(taintKey, c.Key)
	return nil
}
