package main

import (
	"math/big"
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome

// models are the contracts of functions outside of the module.
var models = map[string]model{}

// modular are functions of the module that have a contract of their own: callers in other packages use that.
var modular = map[string]model{}

// ifaceModels are contracts of methods of interfaces.
var ifaceModels = map[string]func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome{}

// deref1 is the place that a receiver of a sync or atomic type points to.
func (r *Run) recvPlace(st *State, v Value, t types.Type) *VPtr { return r.deref(st, v, t) }

func recvElem(fn *ssa.Function) types.Type {
	rv := fn.Signature.Recv()
	if rv == nil {
		return types.Typ[types.Int]
	}
	if p, ok := rv.Type().Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return rv.Type()
}

func init() {
	lock := func(mode string) model {
		return func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			r.nilCheck(st, args[0], pos)
			k := r.term(st, args[0]).String()
			r.oblige(st, r.c.auto("lock"), "a lock that is already held is not locked again", tBool(st.held[k] == "" || mode == "r" && st.held[k] == "r" && false), pos)
			if st.dead {
				return nil
			}
			r.fire(st, &event{name: "block", args: []sval{{v: r.strLit("lock")}}, pos: pos, str: "lock"})
			st.held[k] = mode
			r.havocGuarded(st, args[0])
			r.fire(st, &event{name: "lock", subj: sval{v: args[0], t: recvType(fn)}, pos: pos})
			st.progress = true
			return one(st, nil)
		}
	}
	unlock := func(mode string) model {
		return func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			k := r.term(st, args[0]).String()
			r.oblige(st, r.c.auto("lock"), "only a lock that is held is unlocked", tBool(st.held[k] == mode), pos)
			if st.dead {
				return nil
			}
			r.fire(st, &event{name: "unlock", subj: sval{v: args[0], t: recvType(fn)}, pos: pos})
			delete(st.held, k)
			return one(st, nil)
		}
	}
	models["(*sync.Mutex).Lock"] = lock("w")
	models["(*sync.Mutex).Unlock"] = unlock("w")
	models["(*sync.RWMutex).Lock"] = lock("w")
	models["(*sync.RWMutex).Unlock"] = unlock("w")
	models["(*sync.RWMutex).RLock"] = lock("r")
	models["(*sync.RWMutex).RUnlock"] = unlock("r")
	trylock := func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		ok := tFresh("trylock", sBool)
		a, b := r.fork(st, ok)
		var out []outcome
		k := r.term(st, args[0]).String()
		if a != nil && a.held[k] == "" {
			a.held[k] = "w"
			r.havocGuarded(a, args[0])
			out = append(out, outcome{a, tTrue})
		}
		if b != nil {
			out = append(out, outcome{b, tFalse})
		}
		return out
	}
	models["(*sync.Mutex).TryLock"] = trylock
	models["(*sync.RWMutex).TryLock"] = trylock

	models["(*sync.Once).Do"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		r.nilCheck(st, args[0], pos)
		if st.dead {
			return nil
		}
		p := r.deref(st, args[0], recvElem(fn))
		v := r.load(st, p.Obj, p.Path).(*Term)
		st.assume(tOr(tEq(v, tZero), tEq(v, tOne)))
		a, b := r.fork(st, tEq(v, tZero))
		var out []outcome
		if a != nil {
			r.store(a, p.Obj, p.Path, tOne)
			sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
			for _, o := range r.callValue(a, args[1], nil, sig, pos, false) {
				out = append(out, outcome{o.st, nil})
			}
		}
		if b != nil {
			out = append(out, outcome{b, nil})
		}
		return out
	}

	wgAdd := func(r *Run, st *State, fn *ssa.Function, place Value, n *Term, pos token.Pos) []outcome {
		r.nilCheck(st, place, pos)
		if st.dead {
			return nil
		}
		k := r.term(st, place).String()
		if isConst(n) && n.val.Sign() < 0 {
			st.mem["donewg:"+k] = tTrue
			r.fire(st, &event{name: "done", subj: sval{v: place, t: recvType(fn)}, pos: pos})
		} else {
			r.fire(st, &event{name: "add", subj: sval{v: place, t: recvType(fn)}, args: []sval{{v: n, t: types.Typ[types.Int]}}, pos: pos})
		}
		if st.dead {
			return nil
		}
		r.credit(st, place, n, pos)
		return one(st, nil)
	}
	models["(*sync.WaitGroup).Add"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return wgAdd(r, st, fn, args[0], args[1].(*Term), pos)
	}
	models["(*sync.WaitGroup).Done"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return wgAdd(r, st, fn, args[0], tInt(-1), pos)
	}
	models["(*sync.WaitGroup).Wait"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		r.nilCheck(st, args[0], pos)
		if st.dead {
			return nil
		}
		k := r.term(st, args[0]).String()
		r.fire(st, &event{name: "block", args: []sval{{v: r.strLit("wait")}}, pos: pos, str: "wait"})
		var rest []*child
		for _, c := range st.live {
			if !c.joins[k] {
				rest = append(rest, c)
			}
		}
		st.live = rest
		st.progress = true
		r.fire(st, &event{name: "wait", subj: sval{v: args[0], t: recvType(fn)}, pos: pos})
		return one(st, nil)
	}
	models["(*sync.WaitGroup).Go"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		if out := wgAdd(r, st, fn, args[0], tOne, pos); len(out) == 0 {
			return nil
		}
		sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		r.fire(st, &event{name: "go", pos: pos})
		r.spawn(st, "goroutine started at "+r.P.pos(pos), args, func(c *State) []outcome {
			var out []outcome
			for _, o := range r.callValue(c, args[1], nil, sig, pos, false) {
				out = append(out, wgAdd(r, o.st, fn, args[0], tInt(-1), pos)...)
			}
			return out
		}, pos)
		return one(st, nil)
	}

	// atomics
	for _, ty := range []string{"Int64", "Int32", "Uint64", "Uint32", "Bool", "Pointer[T]", "Uintptr"} {
		p := "(*sync/atomic." + ty + ")."
		models[p+"Load"] = atomicLoad
		models[p+"Store"] = atomicStore
		models[p+"Swap"] = atomicSwap
		models[p+"CompareAndSwap"] = atomicCAS
		models[p+"Add"] = atomicAdd
	}

	// contexts
	models["context.Background"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tVar("context.Background", sInt)
		st.assume(tLt(tZero, t))
		st.mem[memKey("cancelled", t)] = tFalse
		return one(st, t)
	}
	models["context.TODO"] = models["context.Background"]
	withCancel := func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		p := r.term(st, args[0])
		c := tFresh("ctx", sInt)
		st.assume(tLt(tZero, c))
		st.mem[memKey("ctxparent", c)] = p
		st.mem[memKey("cancelled", c)] = r.cancelFlag(st, p)
		cf := tUF("cancelfn", sInt, c)
		st.assume(tLt(tZero, cf))
		return one(st, VTuple{c, cf})
	}
	models["context.WithCancel"] = withCancel
	models["context.WithTimeout"] = withCancel
	models["context.WithDeadline"] = withCancel
	models["context.WithCancelCause"] = withCancel
	derived := func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		p := r.term(st, args[0])
		var as []*Term
		for _, a := range args {
			as = append(as, r.term(st, a))
		}
		c := tUF("derivedctx", sInt, as...)
		st.assume(tLt(tZero, c))
		_ = p
		return one(st, c)
	}
	models["context.WithValue"] = derived
	models["go.opentelemetry.io/otel/trace.ContextWithSpan"] = derived
	ifaceModels["context.Context.Err"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		c := canonCtx(recv)
		old := r.cancelFlag(st, c)
		b := old
		if old != tTrue && c.name != "context.Background" {
			b = tFresh("cancelled", sBool)
			st.assume(tImp(old, b))
			st.mem[memKey("cancelled", c)] = b
		}
		e := r.ctxErr(st, c)
		res := tIte(b, e, tZero)
		r.fire(st, &event{name: "ctxerr", subj: sval{v: recv}, args: []sval{{v: res, t: sig.Results().At(0).Type()}}, pos: ci.pos()})
		return one(st, res)
	}
	ifaceModels["context.Context.Done"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		t := tUF("ctxdone", sInt, canonCtx(recv))
		st.assume(tLt(tZero, t))
		return one(st, t)
	}
	ifaceModels["context.Context.Value"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		return one(st, tUF("ctxvalue", sInt, recv, r.term(st, args[0])))
	}
	ifaceModels["goroutines.Pool.GetName"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		return one(st, tUF("poolname", r.strSort(), recv))
	}
	ifaceModels["goroutines.Pool.Submit"] = poolSubmit
	ifaceModels["error.Error"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		return one(st, tUF("error.Error", r.strSort(), recv))
	}

	// errors
	newErr := func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		e := tFresh("err", sInt)
		st.assume(tLt(tZero, e))
		st.assume(tLt(tInt(2*freshBase), e))
		r.notContextErr(st, e)
		return one(st, e)
	}
	models["errors.New"] = newErr
	models["fmt.Errorf"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		out := newErr(r, st, fn, args, pos)
		e := out[0].v.(*Term)
		if len(args) > 1 {
			if s, ok := args[1].(*VSlice); ok && isConst(s.Len) {
				if f, ok := literal(r, args[0]); ok && strings.Contains(f, "%w") {
					for i := int64(0); i < s.Len.val.Int64(); i++ {
						v := r.elem(st, s, tInt(i))
						if x, ok := v.(*VIface); ok {
							v = x.V
						}
						if t, ok := v.(*Term); ok && t.sort == sInt {
							r.wrapsAll(st, e, t)
						}
					}
				}
			}
		}
		return out
	}
	models["errors.Join"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s := args[0].(*VSlice)
		if !isConst(s.Len) {
			e := tFresh("joined", sInt)
			st.assume(tLe(tZero, e))
			return one(st, e)
		}
		var es []*Term
		any := tFalse
		for i := int64(0); i < s.Len.val.Int64(); i++ {
			t := r.term(st, r.elem(st, s, tInt(i)))
			es = append(es, t)
			any = tOr(any, tNot(tEq(t, tZero)))
		}
		a, b := r.fork(st, any)
		var out []outcome
		if a != nil {
			e := tFresh("joined", sInt)
			a.assume(tLt(tZero, e))
			r.notContextErr(a, e)
			for _, t := range es {
				r.wrapsAllIf(a, tNot(tEq(t, tZero)), e, t)
			}
			out = append(out, outcome{a, e})
		}
		if b != nil {
			out = append(out, outcome{b, tZero})
		}
		return out
	}
	models["errors.Is"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		a, b := r.term(st, args[0]), r.term(st, args[1])
		return one(st, tOr(tEq(a, b), tAnd(tNot(tEq(a, tZero)), wraps(a, b))))
	}
	models["errors.Unwrap"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		e := tUF("unwrap", sInt, r.term(st, args[0]))
		st.assume(tLe(tZero, e))
		return one(st, e)
	}

	// time
	now := func(r *Run, st *State, pos token.Pos) *Term {
		t := tFresh("now", sInt)
		r.fire(st, &event{name: "now", args: []sval{{v: t, t: types.Typ[types.Int]}}, pos: pos})
		return t
	}
	models["time.Now"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, now(r, st, pos))
	}
	models["(time.Time).UTC"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, args[0])
	}
	sub := func(r *Run, st *State, t, from Value, pos token.Pos) []outcome {
		d := tUF("timesub", sInt, r.term(st, t), r.term(st, from))
		st.assume(tLt(d, tInt(1<<63-1)))
		r.fire(st, &event{name: "since", args: []sval{{v: from, t: types.Typ[types.Int]}, {v: d, t: types.Typ[types.Int64]}, {v: t, t: types.Typ[types.Int]}}, pos: pos})
		return one(st, d)
	}
	models["time.Since"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return sub(r, st, now(r, st, pos), args[0], pos)
	}
	models["(time.Time).Sub"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return sub(r, st, args[0], args[1], pos)
	}
	models["time.Sleep"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		r.fire(st, &event{name: "block", args: []sval{{v: r.strLit("sleep")}}, pos: pos, str: "sleep"})
		st.progress = true
		return one(st, nil)
	}
	models["runtime.NumCPU"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tVar("runtime.NumCPU", sInt)
		st.assume(tLe(tOne, t))
		return one(st, t)
	}
	models["runtime.GOMAXPROCS"] = models["runtime.NumCPU"]

	// pools of objects
	models["(*sync.Pool).Get"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tFresh("pooled", sInt)
		st.assume(tLt(tZero, t))
		st.assume(tLt(t, tInt(freshBase)))
		r.fire(st, &event{name: "poolget", subj: sval{v: args[0]}, args: []sval{{v: t}}, pos: pos})
		return one(st, t)
	}
	models["(*sync.Pool).Put"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		v := args[1]
		if i, ok := v.(*VIface); ok {
			v = i.V
		}
		r.fire(st, &event{name: "poolput", subj: sval{v: args[0]}, args: []sval{{v: v, t: nil}}, pos: pos})
		return one(st, nil)
	}
	models["log.Fatalf"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return nil
	}
	models["log.Fatal"] = models["log.Fatalf"]
	models["os.Exit"] = models["log.Fatalf"]
	quietFn := func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, r.results(st, fn.Signature, fn.Name()))
	}
	models["log.Printf"] = quietFn
	models["log.Println"] = quietFn

	models["slices.Index"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, r.indexOf(st, args[0], args[1]))
	}
	models["slices.Contains"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, tLe(tZero, r.indexOf(st, args[0], args[1])))
	}

	// strings
	models["fmt.Sprintf"] = sprintf
	models["strings.Split"] = split
	models["strings.Cut"] = cut
	models["strconv.Atoi"] = atoi
	models["strconv.Itoa"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, r.itoa(st, args[0].(*Term)))
	}
	models["(*regexp.Regexp).MatchString"] = matchString
	models["strings.Contains"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		r.noSep(st, r.term(st, args[0]), r.term(st, args[1]))
		return strFn(r, st, "str.contains", sBool, args[0], args[1])
	}
	models["strings.HasPrefix"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return strFn(r, st, "str.prefixof", sBool, args[1], args[0])
	}
	models["strings.HasSuffix"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return strFn(r, st, "str.suffixof", sBool, args[1], args[0])
	}
	models["strings.TrimSuffix"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s, x := r.term(st, args[0]), r.term(st, args[1])
		if s.sort != sStr {
			return one(st, tUF("strings.TrimSuffix", s.sort, s, x))
		}
		ls, lx := tOp("str.len", sInt, s), tOp("str.len", sInt, x)
		return one(st, tIte(tOp("str.suffixof", sBool, x, s), tOp("str.substr", sStr, s, tZero, tSub(ls, lx)), s))
	}
	models["strings.TrimPrefix"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s, x := r.term(st, args[0]), r.term(st, args[1])
		if s.sort != sStr {
			return one(st, tUF("strings.TrimPrefix", s.sort, s, x))
		}
		ls, lx := tOp("str.len", sInt, s), tOp("str.len", sInt, x)
		return one(st, tIte(tOp("str.prefixof", sBool, x, s), tOp("str.substr", sStr, s, lx, tSub(ls, lx)), s))
	}
	idx := func(last bool) model {
		return func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			s, x := r.term(st, args[0]), r.term(st, args[1])
			if s.sort == sStr && ascii(s) && ascii(x) {
				r.noSep(st, s, x)
			}
			if s.sort == sStr && !last && oneChar(x) && ascii(s) {
				b, _, has := cutAt(st, s, x)
				if has == tTrue {
					return one(st, tStrLen(b))
				}
			}
			if b, a, has := s, s, tFalse; s.sort == sStr && last && oneChar(x) && ascii(s) {
				// the last one is the first if there is only one
				b, a, has = cutAt(st, s, x)
				if has == tTrue && st.must(tNot(tContains(a, x))) {
					return one(st, tStrLen(b))
				}
			}
			if s.sort != sStr || last {
				i := tFresh("index", sInt)
				st.assume(tLe(tInt(-1), i))
				if s.sort == sStr {
					st.assume(tLe(tAdd(i, tOp("str.len", sInt, x)), tOp("str.len", sInt, s)))
					st.assume(tEq(tEq(i, tInt(-1)), tNot(tOp("str.contains", sBool, s, x))))
					st.assume(tImp(tLe(tZero, i), tAnd(tEq(tOp("str.substr", sStr, s, i, tOp("str.len", sInt, x)), x),
						tNot(tOp("str.contains", sBool, tOp("str.substr", sStr, s, tAdd(i, tOne), tOp("str.len", sInt, s)), x)))))
				}
				return one(st, i)
			}
			return one(st, tOp("str.indexof", sInt, s, x, tZero))
		}
	}
	models["strings.Index"] = idx(false)
	models["strings.LastIndex"] = idx(true)
	// a character that is a constant is a string
	char := func(m model) model {
		return func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			if c, ok := args[1].(*Term); ok && isConst(c) && c.val.Sign() > 0 && c.val.Cmp(big.NewInt(0x80)) < 0 && r.exactStrings {
				return m(r, st, fn, []Value{args[0], tString(string(rune(c.val.Int64())))}, pos)
			}
			return one(st, r.results(st, fn.Signature, "char"))
		}
	}
	models["strings.IndexByte"] = char(idx(false))
	models["strings.IndexRune"] = char(idx(false))
	models["strings.LastIndexByte"] = char(idx(true))
	models["strings.ContainsRune"] = char(models["strings.Contains"])
	models["strings.ContainsAny"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s, x := r.term(st, args[0]), r.term(st, args[1])
		if s.sort != sStr || x.op != "strlit" || !ascii(x) {
			return one(st, r.results(st, fn.Signature, "containsany"))
		}
		res := tFalse
		for _, c := range x.name {
			l := tString(string(c))
			r.noSep(st, s, l)
			res = tOr(res, tOp("str.contains", sBool, s, l))
		}
		return one(st, res)
	}
	models["strings.SplitN"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s, n := r.term(st, args[0]), r.term(st, args[2])
		if isConst(n) && n.val.Sign() < 0 {
			return split(r, st, fn, args[:2], pos)
		}
		if !isConst(n) || n.val.Int64() != 2 || s.sort != sStr {
			return one(st, r.symbolic(st, types.NewSlice(types.Typ[types.String]), "split", false))
		}
		sep := r.term(st, args[1])
		r.noSep(st, s, sep)
		a, b, has := cutAt(st, s, sep)
		return one(st, r.newStrings(st, tIte(has, tInt(2), tOne), a, b))
	}
	models["strings.Join"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s, ok := args[0].(*VSlice)
		sep := r.term(st, args[1])
		if !ok || !r.exactStrings || !isConst(s.Len) || s.Len.val.Cmp(big.NewInt(12)) > 0 {
			return one(st, r.results(st, fn.Signature, "join"))
		}
		var parts []*Term
		for i := int64(0); i < s.Len.val.Int64(); i++ {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, r.term(st, r.elem(st, s, tInt(i))))
		}
		return one(st, tConcat(parts...))
	}
	models["strconv.FormatInt"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		if r.term(st, args[1]) == tInt(10) {
			return one(st, r.itoa(st, r.term(st, args[0])))
		}
		return one(st, r.results(st, fn.Signature, "format"))
	}
	models["strconv.ParseInt"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		bits := r.term(st, args[2])
		if r.term(st, args[1]) == tInt(10) && (bits == tZero || bits == tInt(64)) {
			return atoi(r, st, fn, args[:1], pos)
		}
		return one(st, r.results(st, fn.Signature, "parse"))
	}
	// pure functions
	for _, n := range []string{"reflect.ValueOf", "reflect.TypeOf", "(reflect.Value).Kind", "(reflect.Value).Pointer", "(reflect.Value).Interface", "(*runtime.Func).Name", "(*strings.Builder).String",
		"(time.Duration).String"} {
		n := n
		models[n] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			r.externals[n] = true
			var as []*Term
			for _, a := range args {
				as = append(as, r.term(st, a))
			}
			v := r.build(st, fn.Signature.Results().At(0).Type(), n, false, func(nm, so string) *Term { return tUF("pure:"+n+nm, so, as...) })
			if n == "reflect.ValueOf" {
				st.assume(tEq(tUF("reflected", sInt, r.term(st, v)), as[0]))
			}
			return one(st, v)
		}
	}
	models["runtime.FuncForPC"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tUF("pure:FuncForPC", sInt, r.term(st, args[0]))
		st.assume(tLt(tZero, t))
		return one(st, t)
	}

	// options
	models["github.com/johnsiilver/calloptions.New"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tUF("calloption", sInt, r.term(st, args[0]))
		st.assume(tLt(tZero, t))
		return one(st, t)
	}
	models["github.com/johnsiilver/calloptions.ApplyOptions"] = applyOptions

	// spans
	const sp = "github.com/gostdlib/internals/otel/span."
	models[sp+"Get"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		t := tUF("ctxspan", sInt, r.term(st, args[0]))
		st.assume(tLt(tZero, t))
		return one(st, &VStruct{T: fn.Signature.Results().At(0).Type(), F: []Value{t}})
	}
	models[sp+"New"] = spanNew
	rec := func(r *Run, st *State, s *Term) *Term {
		return tAnd(tNot(tEq(s, tZero)), r.recording(st, s))
	}
	models["("+sp+"Span).IsRecording"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		return one(st, rec(r, st, spanTerm(r, st, args[0])))
	}
	models["("+sp+"Span).End"] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
		s := spanTerm(r, st, args[0])
		r.oblige(st, r.c.auto("safety"), "End is called on a Span", tNot(tEq(s, tZero)), pos)
		if st.dead {
			return nil
		}
		return r.spanEnd(st, s, pos)
	}
	for _, n := range []string{"Event", "Error", "Status"} {
		n := n
		models["("+sp+"Span)."+n] = func(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
			s := spanTerm(r, st, args[0])
			if n == "Status" {
				r.oblige(st, r.c.auto("safety"), "Status is called on a Span", tNot(tEq(s, tZero)), pos)
				if st.dead {
					return nil
				}
			}
			return one(st, r.results(st, fn.Signature, "span."+n))
		}
	}
	ifaceModels["trace.Span.IsRecording"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		return one(st, r.recording(st, recv))
	}
	ifaceModels["trace.Span.End"] = func(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
		return r.spanEnd(st, recv, ci.pos())
	}
}

func spanTerm(r *Run, st *State, v Value) *Term {
	if s, ok := v.(*VStruct); ok {
		return r.term(st, s.F[0])
	}
	if p, ok := v.(*VPtr); ok {
		return r.term(st, r.load(st, p.Obj, p.Path+".0"))
	}
	return tUF("part:span", sInt, r.term(st, v))
}

// recording says if a span records. A span that was started by the code records until it is ended.
func (r *Run) recording(st *State, s *Term) *Term {
	if s.op == "ite" {
		return tIte(s.args[0], r.recording(st, s.args[1]), r.recording(st, s.args[2]))
	}
	if s == tZero {
		return tFalse
	}
	if v, ok := st.mem[memKey("ended", s)]; ok {
		return tAnd(r.recBase(s), tNot(v.(*Term)))
	}
	return r.recBase(s)
}

func (r *Run) recBase(s *Term) *Term { return tUF("recording", sBool, s) }

func spanNew(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	ctx := r.term(st, args[0])
	cur := tUF("ctxspan", sInt, ctx)
	st.assume(tLt(tZero, cur))
	a, b := r.fork(st, r.recording(st, cur))
	var out []outcome
	stT := fn.Signature.Results().At(1).Type()
	if a != nil {
		sp := tFresh("span", sInt)
		nc := tUF("spanctx", sInt, ctx, sp)
		a.assume(tLt(tZero, sp))
		a.assume(tLt(tZero, nc))
		a.assume(r.recBase(sp))
		a.assume(tNot(tEq(sp, cur)))
		for k := range a.mem {
			if o, ok := memTerms.Load(k); ok && strings.HasPrefix(k, "ended:") {
				a.assume(tNot(tEq(sp, o.(*Term)))) // one that was started earlier
			}
		}
		a.assume(tNot(tEq(nc, ctx)))
		a.assume(tEq(tUF("ctxspan", sInt, nc), sp))
		a.assume(tEq(tUF("ctxroot", sInt, nc), ctxRoot(ctx)))
		a.assume(tEq(tUF("spanparent", sInt, sp), cur))
		a.mem[memKey("ended", sp)] = tFalse
		a.note("%s: span started", r.P.pos(pos))
		r.fire(a, &event{name: "spanstart", args: []sval{{v: sp}, {v: cur}, {v: ctx}, {v: nc}}, pos: pos})
		if !a.dead {
			out = append(out, outcome{a, VTuple{nc, &VStruct{T: stT, F: []Value{sp}}}})
		}
	}
	if b != nil {
		out = append(out, outcome{b, VTuple{ctx, &VStruct{T: stT, F: []Value{cur}}}})
	}
	return out
}

func (r *Run) spanEnd(st *State, s *Term, pos token.Pos) []outcome {
	st.note("%s: span ended", r.P.pos(pos))
	r.fire(st, &event{name: "spanend", args: []sval{{v: s}}, pos: pos})
	if st.dead {
		return nil
	}
	st.mem[memKey("ended", s)] = tTrue
	return one(st, nil)
}

// canonCtx is the Context that decides when c is cancelled.
func canonCtx(c *Term) *Term {
	for {
		switch {
		case c.op == "uf" && (c.name == "spanctx" || c.name == "derivedctx"):
			c = c.args[0]
		case c.op == "ite" && canonCtx(c.args[1]) == canonCtx(c.args[2]):
			c = canonCtx(c.args[1])
		default:
			return c
		}
	}
}

func (r *Run) cancelFlag(st *State, c *Term) *Term {
	c = canonCtx(c)
	if v, ok := st.mem[memKey("cancelled", c)]; ok {
		return v.(*Term)
	}
	if c.name == "context.Background" {
		return tFalse
	}
	v := tUF("cancelledatentry", sBool, c)
	r.ctxs["cancelled:"+c.String()] = c
	st.mem[memKey("cancelled", c)] = v
	return v
}

func (r *Run) ctxErr(st *State, c *Term) *Term {
	e := tUF("ctxerr", sInt, canonCtx(c))
	can, dl := r.ctxErrs(st)
	st.assume(tOr(tEq(e, can), tEq(e, dl)))
	return e
}

func (r *Run) ctxErrs(st *State) (*Term, *Term) {
	can, dl := tVar("context.Canceled", sInt), tVar("context.DeadlineExceeded", sInt)
	st.assume(tLt(tZero, can))
	st.assume(tLt(can, dl))
	st.assume(tLt(dl, tInt(freshBase)))
	return can, dl
}

func (r *Run) notContextErr(st *State, e *Term) {
	can, dl := r.ctxErrs(st)
	st.assume(tNot(tEq(e, can)))
	st.assume(tNot(tEq(e, dl)))
}

// wraps is errors.Is for different errors. It is transitive; that is instantiated where errors are joined.
func wraps(a, b *Term) *Term { return tUF("wraps", sBool, a, b) }

func (r *Run) wrapsAll(st *State, outer, inner *Term) { r.wrapsAllIf(st, tTrue, outer, inner) }

func (r *Run) wrapsAllIf(st *State, c *Term, outer, inner *Term) {
	x := tFresh("x", sInt)
	st.assume(tImp(c, wraps(outer, inner)))
	st.assume(tImp(c, tForall([]*Term{x}, tImp(wraps(inner, x), wraps(outer, x)))))
}

func (r *Run) havocGuarded(st *State, mu Value) {
	k := r.term(st, mu)
	for _, g := range r.c.guards {
		if g.mu == nil {
			continue
		}
		m, ok := r.place(st, g.mu)
		if !ok || r.term(st, m) != k {
			continue
		}
		for _, pe := range g.places {
			p, ok := r.place(st, pe)
			if !ok {
				continue
			}
			if p.Obj.fresh && !st.escaped[p.Obj] || st.quiet[p.Obj] {
				continue
			}
			if m, isMap := p.T.Underlying().(*types.Map); isMap {
				ref := r.term(st, r.load(st, p.Obj, p.Path)).String()
				ks, vs := r.mapSorts(m)
				st.mem["has:"+ref] = tFresh("maphas", sArr(ks, sBool))
				st.mem["vals:"+ref] = tFresh("mapvals", sArr(ks, vs))
				continue
			}
			v := r.symbolic(st, p.T, "locked."+pathName(p.Obj.typ, p.Path), false)
			if s, ok := v.(*VSlice); ok && s.Arr == nil && s.Ref != nil {
				// what others stored there is not what only this code knows
				known := false
				for o := range st.escaped {
					known = known || o.fresh
				}
				if !known {
					st.assume(tLt(s.Ref, tInt(freshBase)))
				}
			}
			r.store(st, p.Obj, p.Path, v)
		}
		for _, m := range r.c.monitor {
			if v, ok := r.tryEval(st, m); ok {
				st.assume(v.v.(*Term))
			}
		}
	}
}

// ---- atomics ----

func (r *Run) atomicPlace(st *State, fn *ssa.Function, p Value, pos token.Pos) *VPtr {
	r.nilCheck(st, p, pos)
	if st.dead {
		return nil
	}
	return r.deref(st, p, recvElem(fn))
}

// atomicNow is what is in an atomic place at this moment.
func (r *Run) atomicNow(st *State, q *VPtr, fn *ssa.Function) Value {
	cur := r.load(st, q.Obj, q.Path)
	if q.Obj.fresh && !st.escaped[q.Obj] || st.quiet[q.Obj] {
		return cur
	}
	t, ok := cur.(*Term)
	if !ok {
		t = r.term(st, cur)
	}
	v := tFresh("atomic"+pathName(q.Obj.typ, q.Path), t.sort)
	if strings.Contains(fn.String(), "Pointer[") {
		st.assume(tLe(tZero, v))
	}
	if strings.Contains(fn.String(), "Uint") {
		st.assume(tLe(tZero, v))
	}
	r.store(st, q.Obj, q.Path, v)
	for _, m := range r.c.relies {
		if eq := r.matches(st, m.place, q); eq == tTrue {
			if x, ok := r.evalWith(st, m.body, m.param, sval{v: v, t: types.Typ[types.Int64]}); ok {
				st.assume(x)
			}
		}
	}
	return v
}

func atomicLoad(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	q := r.atomicPlace(st, fn, args[0], pos)
	if q == nil {
		return nil
	}
	v := r.atomicNow(st, q, fn)
	r.fire(st, &event{name: "load", subj: sval{v: q}, args: []sval{{v: v, t: fn.Signature.Results().At(0).Type()}}, pos: pos})
	st.note("%s: atomic load", r.P.pos(pos))
	return one(st, v)
}

func atomicStore(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	q := r.atomicPlace(st, fn, args[0], pos)
	if q == nil {
		return nil
	}
	if !q.Obj.fresh || st.escaped[q.Obj] {
		r.escape(st, args[1])
	}
	r.fire(st, &event{name: "store", subj: sval{v: q}, args: []sval{{v: args[1], t: fn.Signature.Params().At(0).Type()}}, pos: pos})
	if st.dead {
		return nil
	}
	r.store(st, q.Obj, q.Path, args[1])
	r.published(st, args[1])
	return one(st, nil)
}

func atomicSwap(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	q := r.atomicPlace(st, fn, args[0], pos)
	if q == nil {
		return nil
	}
	old := r.atomicNow(st, q, fn)
	t := fn.Signature.Params().At(0).Type()
	if !q.Obj.fresh || st.escaped[q.Obj] {
		r.escape(st, args[1])
	}
	r.fire(st, &event{name: "load", subj: sval{v: q}, args: []sval{{v: old, t: t}}, pos: pos})
	r.fire(st, &event{name: "store", subj: sval{v: q}, args: []sval{{v: args[1], t: t}}, pos: pos})
	if st.dead {
		return nil
	}
	r.store(st, q.Obj, q.Path, args[1])
	r.published(st, args[1])
	return one(st, old)
}

func (r *Run) published(st *State, v Value) {
	if !r.c.freeze {
		return
	}
	if p, ok := v.(*VPtr); ok {
		st.frozen[p.Obj] = true
	}
}

func atomicCAS(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	q := r.atomicPlace(st, fn, args[0], pos)
	if q == nil {
		return nil
	}
	cur := r.atomicNow(st, q, fn)
	eq := r.equal(st, cur, args[1])
	t := fn.Signature.Params().At(0).Type()
	a, b := r.fork(st, eq)
	var out []outcome
	if a != nil {
		a.note("%s: compare and swap succeeds", r.P.pos(pos))
		r.fire(a, &event{name: "cas", subj: sval{v: q}, args: []sval{{v: args[1], t: t}, {v: args[2], t: t}}, pos: pos})
		if !a.dead {
			if !q.Obj.fresh || a.escaped[q.Obj] {
				r.escape(a, args[2])
			}
			r.store(a, q.Obj, q.Path, args[2])
			r.published(a, args[2])
			out = append(out, outcome{a, tTrue})
		}
	}
	if b != nil {
		b.note("%s: compare and swap fails", r.P.pos(pos))
		b.progress = true // another goroutine changed it
		out = append(out, outcome{b, tFalse})
	}
	return out
}

// recvType is the type of the receiver of a method, a pointer.
func recvType(fn *ssa.Function) types.Type {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return fn.Signature.Recv().Type()
}

func atomicAdd(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	q := r.atomicPlace(st, fn, args[0], pos)
	if q == nil {
		return nil
	}
	cur := r.atomicNow(st, q, fn)
	d := args[1].(*Term)
	if strings.Contains(fn.String(), "Uint64") && isConst(d) && d.val.BitLen() == 64 {
		// ^uint64(0) and the like: two's complement
		d = tBig(newBig(d.val))
	}
	if d.op == "uf" && d.name == "bitnot" && isConst(d.args[0]) {
		d = tSub(tNeg(d.args[0]), tOne)
	}
	r.fire(st, &event{name: "add", subj: sval{v: q}, args: []sval{{v: d, t: types.Typ[types.Int64]}}, pos: pos})
	if st.dead {
		return nil
	}
	v := tAdd(r.term(st, cur), d)
	r.store(st, q.Obj, q.Path, v)
	r.credit(st, q, d, pos)
	if st.dead {
		return nil
	}
	return one(st, v)
}

// ---- strings ----

func literal(r *Run, v Value) (string, bool) {
	t, ok := v.(*Term)
	if !ok {
		return "", false
	}
	if t.op == "strlit" {
		return t.name, true
	}
	if t == tZero {
		return "", true
	}
	if isConst(t) {
		termMu.Lock()
		defer termMu.Unlock()
		for s, id := range strTab {
			if t.val.IsInt64() && t.val.Int64() == id {
				return s, true
			}
		}
	}
	return "", false
}

func strFn(r *Run, st *State, op, sort string, a, b Value) []outcome {
	x, y := r.term(st, a), r.term(st, b)
	if x.sort == sStr {
		return one(st, tOp(op, sort, x, y))
	}
	return one(st, tUF(op, sort, x, y))
}

func (r *Run) itoa(st *State, t *Term) *Term {
	if !r.exactStrings {
		return tUF("itoa", sInt, t)
	}
	if isConst(t) {
		return tString(t.val.String())
	}
	if st.must(tLe(tZero, t)) {
		return tOp("str.from_int", sStr, t)
	}
	return tIte(tLe(tZero, t), tOp("str.from_int", sStr, t), tOp("str.++", sStr, tString("-"), tOp("str.from_int", sStr, tNeg(t))))
}

func sprintf(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	f, ok := literal(r, args[0])
	s, ok2 := args[1].(*VSlice)
	unknown := func() []outcome {
		var as []*Term
		as = append(as, r.term(st, args[0]))
		if ok2 && isConst(s.Len) && s.Len.val.Int64() < 12 {
			for i := int64(0); i < s.Len.val.Int64(); i++ {
				as = append(as, r.term(st, r.elem(st, s, tInt(i))))
			}
			return one(st, tUF("sprintf", r.strSort(), as...))
		}
		return one(st, tFresh("sprintf", r.strSort()))
	}
	if !ok || !ok2 || !isConst(s.Len) || !r.exactStrings {
		return unknown()
	}
	var parts []*Term
	k := int64(0)
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, tString(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return unknown()
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= s.Len.val.Int64() {
			return unknown()
		}
		v := r.elem(st, s, tInt(k))
		k++
		x, isI := v.(*VIface)
		if !isI {
			return unknown()
		}
		t, isT := x.V.(*Term)
		if !isT {
			return unknown()
		}
		b, isB := x.T.Underlying().(*types.Basic)
		if !isB {
			return unknown()
		}
		flush()
		switch {
		case (f[i] == 's' || f[i] == 'v') && b.Info()&types.IsString != 0:
			parts = append(parts, t)
		case (f[i] == 'd' || f[i] == 'v') && b.Info()&types.IsInteger != 0:
			parts = append(parts, r.itoa(st, t))
		default:
			return unknown()
		}
	}
	flush()
	switch len(parts) {
	case 0:
		return one(st, tString(""))
	case 1:
		return one(st, parts[0])
	}
	return one(st, tOp("str.++", sStr, parts...))
}

func split(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	s, sep := r.term(st, args[0]), r.term(st, args[1])
	el := types.Typ[types.String]
	if s.sort != sStr {
		return one(st, r.symbolic(st, types.NewSlice(el), "split", false))
	}
	o := r.newObj(el, "split", true, true)
	n := tFresh("splitn", sInt)
	st.assume(tLe(tOne, n))
	r.noSep(st, s, sep)
	first, rest, has := cutAt(st, s, sep)
	second, _, has2 := cutAt(st, rest, sep)
	has2 = tAnd(has, has2)
	st.assume(tEq(tLe(tInt(2), n), has))
	st.assume(tEq(tLe(tInt(3), n), has2))
	v := &VSlice{Arr: o, Ref: o.addr, Off: tZero, Len: n, Cap: n, Elem: el}
	c := tFresh("splitelems", sArr(sInt, sStr))
	r.setContent(st, o, tStore(tStore(c, tZero, first), tOne, second))
	return one(st, v)
}

// newStrings is a new slice of strings, of which the first ones are given.
func (r *Run) newStrings(st *State, n *Term, elems ...*Term) Value {
	el := types.Typ[types.String]
	o := r.newObj(el, "strings", true, true)
	c := tFresh("strings", sArr(sInt, sStr))
	for i, e := range elems {
		c = tStore(c, tInt(int64(i)), e)
	}
	r.setContent(st, o, c)
	return &VSlice{Arr: o, Ref: o.addr, Off: tZero, Len: n, Cap: n, Elem: el}
}

func cut(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	s, sep := r.term(st, args[0]), r.term(st, args[1])
	if s.sort != sStr {
		return one(st, r.results(st, fn.Signature, "cut"))
	}
	r.noSep(st, s, sep)
	a, b, has := cutAt(st, s, sep)
	return one(st, VTuple{a, b, has})
}

// noSep adds what is known about a character in parts of s that were matched with a class of characters.
func (r *Run) noSep(st *State, s, x *Term) {
	if !oneChar(x) {
		return
	}
	for _, p := range strParts(s) {
		for _, m := range r.classes {
			if m.s == p && strings.Contains(m.chars, x.name) {
				st.assume(tImp(tContains(p, x), m.cond))
			}
		}
	}
}

func digits() *Term {
	return tOp("re.+", "RegLan", tOp("re.range", "RegLan", tString("0"), tString("9")))
}

func atoi(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	s := r.term(st, args[0])
	e := tFresh("atoierr", sInt)
	n := tFresh("atoi", sInt)
	st.assume(tLe(tZero, e))
	if s.sort == sStr {
		r.assumptions["numbers are not too big for an int"] = true
		isNum := tOp("str.in_re", sBool, s, digits())
		st.assume(tImp(isNum, tAnd(tEq(e, tZero), tEq(n, tOp("str.to_int", sInt, s)))))
		signed := tOp("str.in_re", sBool, s, tOp("re.++", "RegLan", tOp("re.union", "RegLan", tOp("str.to_re", "RegLan", tString("-")), tOp("str.to_re", "RegLan", tString("+"))), digits()))
		st.assume(tImp(tNot(tOr(isNum, signed)), tLt(tZero, e)))
	}
	st.assume(tImp(tNot(tEq(e, tZero)), tEq(n, tZero)))
	return one(st, VTuple{n, e})
}

// matchString is exact if the pattern is known.
func matchString(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	s := r.term(st, args[1])
	re := r.term(st, args[0])
	pat, ok := r.regexps[re.id]
	if s.sort == sStr && ok {
		if t, ok := r.matchTerm(s, pat); ok {
			return one(st, t)
		}
	}
	return one(st, tUF("regexp.Match", sBool, re, s))
}

// charClass is a string that was looked at for characters of a class.
type charClass struct {
	s     *Term
	chars string // those below 128
	cond  *Term
}

// matchTerm is whether a string matches a pattern.
func (r *Run) matchTerm(s *Term, pat string) (*Term, bool) {
	t, ok := regexTerm(pat)
	if !ok {
		return nil, false
	}
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || x.Op != syntax.OpCharClass {
		return tOp("str.in_re", sBool, s, t), true
	}
	// a string matches a class if one of its parts does
	chars := ""
	for c := rune(0); c < 128; c++ {
		for i := 0; i+1 < len(x.Rune); i += 2 {
			if x.Rune[i] <= c && c <= x.Rune[i+1] {
				chars += string(c)
			}
		}
	}
	res := tFalse
	for _, p := range strParts(s) {
		if p.op == "strlit" {
			if strings.ContainsAny(p.name, chars) {
				return tTrue, true
			}
			ascii := true
			for i := range len(p.name) {
				ascii = ascii && p.name[i] < 0x80
			}
			if ascii {
				continue
			}
		}
		c := tOp("str.in_re", sBool, p, t)
		r.classes = append(r.classes, charClass{p, chars, c})
		res = tOr(res, c)
	}
	return res, true
}

func regexTerm(pat string) (*Term, bool) {
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	re, ok := reTerm(x.Simplify())
	if !ok {
		return nil, false
	}
	all := tOp("re.*", "RegLan", tOp("re.allchar", "RegLan"))
	return tOp("re.++", "RegLan", all, re, all), true
}

func reTerm(x *syntax.Regexp) (*Term, bool) {
	const R = "RegLan"
	sub := func() ([]*Term, bool) {
		var ts []*Term
		for _, s := range x.Sub {
			t, ok := reTerm(s)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
		}
		return ts, true
	}
	switch x.Op {
	case syntax.OpLiteral:
		return tOp("str.to_re", R, tString(string(x.Rune))), true
	case syntax.OpCharClass:
		var us []*Term
		for i := 0; i+1 < len(x.Rune); i += 2 {
			us = append(us, tOp("re.range", R, tString(string(x.Rune[i])), tString(string(x.Rune[i+1]))))
		}
		if len(us) == 0 {
			return nil, false
		}
		if len(us) == 1 {
			return us[0], true
		}
		return tOp("re.union", R, us...), true
	case syntax.OpConcat, syntax.OpAlternate:
		ts, ok := sub()
		if !ok {
			return nil, false
		}
		if x.Op == syntax.OpConcat {
			return tOp("re.++", R, ts...), true
		}
		return tOp("re.union", R, ts...), true
	case syntax.OpCapture:
		return reTerm(x.Sub[0])
	case syntax.OpPlus, syntax.OpStar, syntax.OpQuest:
		t, ok := reTerm(x.Sub[0])
		if !ok {
			return nil, false
		}
		op := map[syntax.Op]string{syntax.OpPlus: "re.+", syntax.OpStar: "re.*", syntax.OpQuest: "re.opt"}[x.Op]
		return tOp(op, R, t), true
	}
	return nil, false
}

// applyOptions: the struct that the options are applied to can have any content afterwards.
func applyOptions(r *Run, st *State, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	i, ok := args[0].(*VIface)
	if !ok {
		t := fn.Signature.Params().At(0).Type()
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			panic(unsupported("ApplyOptions to something unknown"))
		}
		i = &VIface{T: t, V: args[0]}
	}
	p := r.deref(st, i.V, i.T.Underlying().(*types.Pointer).Elem())
	v := r.symbolic(st, p.T, "opts", true)
	r.store(st, p.Obj, p.Path, v)
	e := tFresh("optserr", sInt)
	st.assume(tLe(tZero, e))
	r.fire(st, &event{name: "applyoptions", args: []sval{{v: i.V, t: i.T}, {v: args[1], t: fn.Signature.Params().At(1).Type()}, {v: e, t: nil}}, pos: pos})
	if st.dead {
		return nil
	}
	return one(st, e)
}

// globalFacts records what is known about a package variable.
func (r *Run) globalFacts(st *State, g *ssa.Global, o *Obj) {
	n := g.RelString(nil)
	switch n {
	case "context.Canceled", "context.DeadlineExceeded":
		can, dl := r.ctxErrs(st)
		if n == "context.Canceled" {
			st.cells[cellKey{o.id, ""}] = can
		} else {
			st.cells[cellKey{o.id, ""}] = dl
		}
		return
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return
	}
	if s, ok := o.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if _, isMap := r.P.fieldWrittenOnce(g, i).(*ssa.MakeMap); isMap {
				t := tVar(fmt.Sprintf("map:%s.%d", n, i), sInt)
				st.assume(tLt(tZero, t))
				st.assume(tLt(t, tInt(freshBase)))
				st.cells[cellKey{o.id, fmt.Sprintf(".%d", i)}] = t
			}
		}
		return
	}
	if r.P.writtenOnce(g) == nil {
		return
	}
	v := r.P.writtenOnce(g)
	switch v := v.(type) {
	case *ssa.MakeMap:
		t := tVar("map:"+n, sInt)
		st.assume(tLt(tZero, t))
		st.assume(tLt(t, tInt(freshBase)))
		st.cells[cellKey{o.id, ""}] = t
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && funcName(f) == "regexp.MustCompile" {
			t := tVar("regexp:"+n, sInt)
			st.assume(tLt(tZero, t))
			st.cells[cellKey{o.id, ""}] = t
			if c, ok := v.Call.Args[0].(*ssa.Const); ok {
				r.regexps[t.id] = strings.Trim(constString(c), "\x00")
			}
			return
		}
		if isRefLike(v.Type()) {
			t := tVar("initial:"+n, sInt)
			st.assume(tLt(tZero, t))
			st.cells[cellKey{o.id, ""}] = t
		}
	}
}

// onSymbolicCell is called when something is read that was there before the code ran.
func (r *Run) onSymbolicCell(st *State, o *Obj, path string, t types.Type, v Value) {
	for _, f := range r.c.facts {
		_ = f
	}
}

var _ = fmt.Sprint

// poolSubmit is the contract of goroutines.Pool: C02 is the proof for the pools of the module. The options
// fit the pool and the job is not nil, so that it is accepted and run exactly once with the Context.
func poolSubmit(r *Run, st *State, recv *Term, args []Value, sig *types.Signature, ci *callInfo) []outcome {
	r.assumptions["goroutines.Pool.Submit runs an accepted job exactly once with its Context (verified for limited and pooled: C02) and accepts the options"] = true
	var svs []sval
	for i, a := range args {
		svs = append(svs, sval{v: a, t: sig.Params().At(i).Type()})
	}
	r.fire(st, &event{name: "submit", subj: sval{v: recv}, args: svs, pos: ci.pos()})
	if st.dead {
		return nil
	}
	r.fire(st, &event{name: "block", args: []sval{{v: r.strLit("lock")}}, pos: ci.pos(), str: "lock"})
	if st.dead {
		return nil
	}
	js := sig.Params().At(1).Type().Underlying().(*types.Signature)
	r.spawn(st, "job submitted at "+r.P.pos(ci.pos()), args[1:2], func(c *State) []outcome {
		return r.callValue(c, args[1], []Value{args[0]}, js, ci.pos(), false)
	}, ci.pos())
	if st.dead {
		return nil
	}
	return one(st, tZero)
}

// indexOf is the index of the first element of a slice that is equal to v, -1 if there is none.
func (r *Run) indexOf(st *State, s, v Value) *Term {
	l, ok := s.(*VSlice)
	if !ok {
		panic(unsupported(fmt.Sprintf("slices.Index of %T", s)))
	}
	k := tFresh("index", sInt)
	q := tFresh("q.index", sInt)
	boundVars.Store(q.id, true)
	other := func(end *Term) *Term {
		return tForall([]*Term{q}, tImp(tAnd(tLe(tZero, q), tLt(q, end)), tNot(r.equal(st, r.elem(st, l, q), v))))
	}
	st.assume(tLe(tInt(-1), k))
	st.assume(tLt(k, l.Len))
	st.assume(tImp(tLe(tZero, k), r.equal(st, r.elem(st, l, k), v)))
	st.assume(tImp(tLt(k, tZero), other(l.Len)))
	st.assume(tImp(tLe(tZero, k), other(k)))
	return k
}
