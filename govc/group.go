package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The contracts of wait.Group and of the pools for callers in other packages. They are what the contracts
// GroupGo, GroupWait, LimitedNew, LimitedClose and so on prove for the code.

func init() {
	modular["(*"+modPath+"/prim/wait.Group).Go"] = groupGo
	modular["(*"+modPath+"/prim/wait.Group).Wait"] = groupWait
	for _, p := range []string{"limited", "pooled"} {
		p := p
		modular[modPath+"/goroutines/"+p+".New"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			ok := st.clone()
			pt := fn.Signature.Results().At(0).Type()
			v := r.symbolic(ok, pt, "newpool", false)
			ok.assume(tLt(tZero, r.term(ok, v)))
			r.fire(ok, &event{name: "newpool", args: []sval{{v: v, t: pt}, {v: args[1], t: types.Typ[types.Int]}}, pos: pos})
			e := tFresh("newpoolerr", sInt)
			st.assume(tLt(tZero, e))
			r.fire(st, &event{name: "refused", args: []sval{{v: e}}, pos: pos})
			return []outcome{{ok, VTuple{v, tZero}}, {st, VTuple{r.zero(pt), e}}}
		}
		modular["(*"+modPath+"/goroutines/"+p+".Pool).Close"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			r.nilCheck(st, args[0], pos)
			if st.dead {
				return nil
			}
			r.fire(st, &event{name: "poolclose", subj: sval{v: args[0]}, pos: pos})
			return one(st, nil)
		}
	}
}

// groupField reads a field of a wait.Group.
func groupField(r *Run, st *State, p *VPtr, name string) Value {
	en := &env{r: r, st: st, g: tTrue}
	i, _ := en.field(p.T, name)
	if i == nil {
		panic(unsupported("wait.Group has no field " + name))
	}
	return r.load(st, p.Obj, p.Path+fieldPath(i))
}

func groupGo(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	r.nilCheck(st, args[0], pos)
	if st.dead {
		return nil
	}
	g := r.deref(st, args[0], recvElem(fn))
	pool, opts, cancel := groupField(r, st, g, "Pool"), groupField(r, st, g, "PoolOptions"), groupField(r, st, g, "CancelOnErr")
	ctx, f := args[1], args[2]
	r.oblige(st, r.c.auto("safety"), "no nil function is given to a Group", tNot(tEq(r.term(st, f), tZero)), pos)
	if st.dead {
		return nil
	}
	s := fn.Signature
	r.fire(st, &event{name: "group.go", subj: sval{v: args[0]}, args: []sval{{v: pool}, {v: opts}, {v: ctx, t: s.Params().At(0).Type()}, {v: f}, {v: cancel}}, pos: pos})
	if st.dead {
		return nil
	}
	fs := s.Params().At(1).Type().Underlying().(*types.Signature)
	cs := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	key := "donewg:" + r.term(st, args[0]).String()
	r.spawn(st, "function given to a Group at "+r.P.pos(pos), []Value{args[0], f, ctx}, func(c *State) []outcome {
		c.mem[key] = tTrue
		var out []outcome
		cc := canonCtx(r.term(c, ctx))
		can := tFresh("cancelled", sBool)
		c.assume(tImp(r.cancelFlag(c, cc), can))
		a, b := r.fork(c, can)
		if a != nil {
			a.note("%s: skipped because the Context is cancelled", r.P.pos(pos))
			a.mem[memKey("cancelled", cc)] = tTrue
			a.ghosts["grp.any"] = tTrue
			r.fire(a, &event{name: "group.skip", pos: pos})
			if !a.dead {
				out = append(out, outcome{a, nil})
			}
		}
		if b == nil {
			return out
		}
		r.fire(b, &event{name: "group.start", args: []sval{{v: f}}, pos: pos})
		for _, o := range r.callValue(b, f, []Value{ctx}, fs, pos, false) {
			e := r.term(o.st, o.v)
			bad, good := r.fork(o.st, tNot(tEq(e, tZero)))
			if good != nil {
				out = append(out, outcome{good, nil})
			}
			if bad == nil {
				continue
			}
			cn, dl := r.ctxErrs(bad)
			bad.ghosts["grp.any"] = tTrue
			errs := bad.ghosts["grp.errs"].(*Term)
			bad.ghosts["grp.errs"] = tStore(errs, e, tOr(tSelect(errs, e), tNot(tOr(tEq(e, cn), tEq(e, dl)))))
			r.fire(bad, &event{name: "group.fail", args: []sval{{v: e}}, pos: pos})
			ct := r.term(bad, cancel)
			if ct == tZero {
				out = append(out, outcome{bad, nil})
				continue
			}
			yes, no := r.fork(bad, tNot(tEq(ct, tZero)))
			if yes != nil {
				for _, q := range r.callValue(yes, cancel, nil, cs, pos, false) {
					out = append(out, outcome{q.st, nil})
				}
			}
			if no != nil {
				out = append(out, outcome{no, nil})
			}
		}
		return out
	}, pos)
	if st.dead {
		return nil
	}
	return one(st, nil)
}

func groupWait(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	r.nilCheck(st, args[0], pos)
	if st.dead {
		return nil
	}
	g := r.deref(st, args[0], recvElem(fn))
	k := r.term(st, args[0]).String()
	r.fire(st, &event{name: "block", args: []sval{{v: r.strLit("wait")}}, pos: pos, str: "wait"})
	if st.dead {
		return nil
	}
	var rest []*child
	for _, c := range st.live {
		if !c.joins[k] {
			rest = append(rest, c)
		}
	}
	st.live = rest
	st.progress = true
	r.fire(st, &event{name: "group.wait", subj: sval{v: args[0]}, pos: pos})
	if st.dead {
		return nil
	}
	en := &env{r: r, st: st, g: tTrue}
	var sts []*State
	cancel := groupField(r, st, g, "CancelOnErr")
	if ct := r.term(st, cancel); ct != tZero {
		cs := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		yes, no := r.fork(st, tNot(tEq(ct, tZero)))
		if yes != nil {
			for _, q := range r.callValue(yes, cancel, nil, cs, pos, false) {
				sts = append(sts, q.st)
			}
		}
		if no != nil {
			sts = append(sts, no)
		}
	} else {
		sts = append(sts, st)
	}
	i, _ := en.field(g.T, "CancelOnErr")
	var out []outcome
	for _, s := range sts {
		r.store(s, g.Obj, g.Path+fieldPath(i), tZero)
		e := tFresh("grouperr", sInt)
		any, errs := s.ghosts["grp.any"].(*Term), s.ghosts["grp.errs"].(*Term)
		s.assume(tLe(tZero, e))
		s.assume(tEq(tEq(e, tZero), tNot(any)))
		x := tFresh("x", sInt)
		s.assume(tForall([]*Term{x}, tImp(tSelect(errs, x), tOr(tEq(e, x), wraps(e, x)))))
		out = append(out, outcome{s, e})
	}
	return out
}
