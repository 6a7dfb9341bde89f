package main

import "fmt"

// Instances of quantified facts. The solvers match patterns; what they miss, because an index or an array is
// an ite for example, is added here: for a fact "for all q: F", where F reads an array at o+q, the instances
// of F for every index that is read anywhere, less o, and one for an unknown q that makes F false if there is
// one. All of them are valid.

const maxInstances = 48

type quantInfo struct {
	foralls []*Term
	idx     []*Term // what arrays are read at
	seen    map[int]bool
}

func (q *quantInfo) add(t *Term) {
	if q.seen[t.id] {
		return
	}
	q.seen[t.id] = true
	switch t.op {
	case "forall":
		q.foralls = append(q.foralls, t)
	case "select":
		if i := t.args[1]; i.sort == sInt && !hasBoundVar(i) {
			q.idx = append(q.idx, i)
		}
	}
	for _, a := range t.args {
		q.add(a)
	}
}

func hasBoundVar(t *Term) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == "var" {
			_, ok := boundVars.Load(t.id)
			return ok
		}
		if v, ok := memo[t.id]; ok {
			return v
		}
		memo[t.id] = false
		for _, a := range t.args {
			if rec(a) {
				memo[t.id] = true
				return true
			}
		}
		return false
	}
	return rec(t)
}

// offsets are the terms o for which the body of a quantifier reads an array at o+q.
func offsets(body, q *Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "select" && t.args[1].sort == sInt {
			o := tSub(t.args[1], q)
			if !hasBoundVar(o) && !have[o] {
				have[o] = true
				out = append(out, o)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	return out
}

func instances(pc *pcNode, extra *Term) []*Term {
	q := &quantInfo{seen: map[int]bool{}}
	for n := pc; n != nil; n = n.parent {
		q.add(n.t)
	}
	if extra != nil {
		q.add(extra)
	}
	var out []*Term
	done := map[*Term]bool{}
	n := len(q.foralls)
	for _, f := range q.foralls {
		if len(f.args) != 2 || f.args[0].sort != sInt || hasBoundVar2(f) {
			continue
		}
		v := f.args[0]
		sk := tVar(fmt.Sprintf("sk!%d", f.id), sInt)
		t := tOr(f, tNot(f.args[1].subst(map[*Term]*Term{v: sk})))
		out = append(out, t)
		q.add(t)
	}
	for _, f := range q.foralls[:n] {
		if len(f.args) != 2 || f.args[0].sort != sInt || hasBoundVar2(f) {
			continue
		}
		v := f.args[0]
		c := 0
		for _, o := range offsets(f.args[1], v) {
			for _, i := range q.idx {
				if c >= maxInstances {
					break
				}
				t := tOr(tNot(f), f.args[1].subst(map[*Term]*Term{v: tSub(i, o)}))
				if t == tTrue || done[t] {
					continue
				}
				done[t] = true
				c++
				out = append(out, t)
			}
		}
	}
	return out
}

// hasBoundVar2 says if a quantifier is inside of another one.
func hasBoundVar2(f *Term) bool {
	v := f.args[0]
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "var" {
			_, ok := boundVars.Load(t.id)
			return ok
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(f.args[1])
}

func withInstances(pc *pcNode, extra *Term) *Term {
	if !(pc != nil && pc.quant || extra != nil && extra.quant) {
		return extra
	}
	l := instances(pc, extra)
	if len(l) == 0 {
		return extra
	}
	if extra != nil {
		l = append(l, extra)
	}
	return tAnd(l...)
}
