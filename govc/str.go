package main

import "strings"

// Strings that are put together from parts, such as a name, a hyphen and a number, are taken apart again
// without the help of a solver. Everything here is an equality of the theory of strings.

// strParts are the parts of a string. Literals next to each other are one part, and none is empty.
func strParts(t *Term) []*Term {
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.op == "str.++":
			for _, a := range t.args {
				walk(a)
			}
		case t.op == "strlit" && t.name == "":
		case t.op == "strlit" && len(out) > 0 && out[len(out)-1].op == "strlit":
			out[len(out)-1] = tString(out[len(out)-1].name + t.name)
		default:
			out = append(out, t)
		}
	}
	walk(t)
	return out
}

func tConcat(parts ...*Term) *Term {
	ps := strParts(intern(Term{op: "str.++", args: parts, sort: sStr}))
	switch len(ps) {
	case 0:
		return tString("")
	case 1:
		return ps[0]
	}
	return intern(Term{op: "str.++", args: ps, sort: sStr})
}

func tStrLen(s *Term) *Term {
	n := tZero
	for _, p := range strParts(s) {
		if p.op == "strlit" {
			n = tAdd(n, tInt(int64(len(p.name))))
		} else {
			n = tAdd(n, intern(Term{op: "str.len", args: []*Term{p}, sort: sInt}))
		}
	}
	return n
}

func ascii(t *Term) bool {
	if t.op == "strlit" {
		for i := range len(t.name) {
			if t.name[i] >= 0x80 {
				return false
			}
		}
	}
	if t.op == "str.++" {
		for _, a := range t.args {
			if !ascii(a) {
				return false
			}
		}
	}
	return true
}

// oneChar says if t is a literal of a single byte that no number contains.
func oneChar(t *Term) bool {
	return t.op == "strlit" && len(t.name) == 1 && t.name[0] < 0x80
}

func digit(t *Term) bool { return t.name[0] >= '0' && t.name[0] <= '9' }

// tContains is whether s contains x.
func tContains(s, x *Term) *Term {
	ps := strParts(s)
	for _, p := range ps {
		if p.op == "strlit" && x.op == "strlit" && strings.Contains(p.name, x.name) {
			return tTrue
		}
	}
	if x.op == "strlit" && x.name == "" {
		return tTrue
	}
	if !oneChar(x) {
		return intern(Term{op: "str.contains", args: []*Term{s, x}, sort: sBool})
	}
	res := tFalse
	for _, p := range ps {
		switch {
		case p.op == "strlit":
		case p.op == "str.from_int" && !digit(x):
		default:
			res = tOr(res, intern(Term{op: "str.contains", args: []*Term{p, x}, sort: sBool}))
		}
	}
	return res
}

// simplify handles an operator of strings, if it can.
func strSimplify(op string, args []*Term) *Term {
	for _, a := range args {
		if !ascii(a) {
			return nil // lengths are those of UTF-8
		}
	}
	switch op {
	case "str.++":
		return tConcat(args...)
	case "str.len":
		return tStrLen(args[0])
	case "str.contains":
		return tContains(args[0], args[1])
	case "str.indexof":
		s, x := args[0], args[1]
		if args[2] != tZero || !oneChar(x) {
			return nil
		}
		ps := strParts(s)
		for i, p := range ps {
			if p.op != "strlit" || !strings.Contains(p.name, x.name) {
				continue
			}
			pre := tConcat(ps[:i]...)
			at := tAdd(tStrLen(pre), tInt(int64(strings.Index(p.name, x.name))))
			if i == 0 {
				return at
			}
			c := tContains(pre, x)
			if c == tFalse {
				return at
			}
			return tIte(c, intern(Term{op: "str.indexof", args: []*Term{pre, x, tZero}, sort: sInt}), at)
		}
	case "str.substr":
		s, from, n := args[0], args[1], args[2]
		if from == tZero && n == tStrLen(s) {
			return s
		}
		if from.op == "ite" || n.op == "ite" {
			return nil
		}
		ps := strParts(s)
		if len(ps) == 1 && ps[0].op != "strlit" {
			return nil
		}
		// the places between the parts, and those in literals
		type cut struct {
			pos  *Term
			part int
			in   int
		}
		var cuts []cut
		pos := tZero
		for i, p := range ps {
			cuts = append(cuts, cut{pos, i, 0})
			if p.op == "strlit" {
				for k := 1; k < len(p.name) && len(p.name) < 20; k++ {
					cuts = append(cuts, cut{tAdd(pos, tInt(int64(k))), i, k})
				}
			}
			pos = tAdd(pos, tStrLen(p))
		}
		cuts = append(cuts, cut{pos, len(ps), 0})
		for i, a := range cuts {
			if a.pos != from {
				continue
			}
			for _, b := range cuts[i:] {
				if tSub(b.pos, a.pos) != n && tAdd(from, n) != b.pos {
					continue
				}
				var out []*Term
				for k := a.part; k <= b.part && k < len(ps); k++ {
					p := ps[k]
					lo, hi := 0, len(p.name)
					if k == a.part {
						lo = a.in
					}
					if k == b.part {
						if b.in == 0 {
							break
						}
						hi = b.in
					}
					if p.op == "strlit" {
						p = tString(p.name[lo:hi])
					}
					out = append(out, p)
				}
				return tConcat(out...)
			}
		}
	case "str.prefixof":
		// args: the prefix, the string
		a, b := strParts(args[0]), strParts(args[1])
		if len(a) <= len(b) {
			for i := range a {
				if a[i] != b[i] && !(i == len(a)-1 && a[i].op == "strlit" && b[i].op == "strlit" && strings.HasPrefix(b[i].name, a[i].name)) {
					return nil
				}
			}
			return tTrue
		}
	case "str.to_int":
		if a := args[0]; a.op == "str.from_int" {
			return tIte(tLe(tZero, a.args[0]), a.args[0], tInt(-1))
		}
	case "str.in_re":
		if a := args[0]; a.op == "str.from_int" && args[1] == digits() {
			return tLe(tZero, a.args[0])
		}
	}
	return nil
}

// cutAt is what is before and after the first x in s, and if there is one. Without one, before is s and after
// is empty.
func cutAt(st *State, s, x *Term) (before, after, found *Term) {
	generic := func(s *Term) (*Term, *Term, *Term) {
		ix := tOp("str.indexof", sInt, s, x, tZero)
		ls, lx := tOp("str.len", sInt, s), tOp("str.len", sInt, x)
		has := tOp("str.contains", sBool, s, x)
		return tIte(has, tOp("str.substr", sStr, s, tZero, ix), s), tIte(has, tOp("str.substr", sStr, s, tAdd(ix, lx), tSub(ls, tAdd(ix, lx))), tString("")), has
	}
	ps := strParts(s)
	if !oneChar(x) {
		return generic(s)
	}
	for i, p := range ps {
		if p.op != "strlit" || !strings.Contains(p.name, x.name) {
			continue
		}
		k := strings.Index(p.name, x.name)
		pre, lit, rest := tConcat(ps[:i]...), p.name, ps[i+1:]
		b := tConcat(pre, tString(lit[:k]))
		a := tConcat(append([]*Term{tString(lit[k+1:])}, rest...)...)
		c := tContains(pre, x)
		if c == tFalse || st.must(tNot(c)) {
			return b, a, tTrue
		}
		gb, ga, _ := generic(pre)
		return tIte(c, gb, b), tIte(c, tConcat(append([]*Term{ga, p}, rest...)...), a), tTrue
	}
	if tContains(s, x) == tFalse {
		return s, tString(""), tFalse
	}
	return generic(s)
}
