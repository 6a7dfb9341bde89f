package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callInfo is a call that is about to be made.
type callInfo struct {
	common   *ssa.CallCommon
	fn       Value // the callee, or the receiver if it is a method of an interface
	args     []Value
	instr    ssa.Instruction
	deferred bool
}

func (ci *callInfo) pos() token.Pos {
	if ci.instr == nil {
		return token.NoPos
	}
	return ci.instr.Pos()
}

// prepare evaluates the operands of a call.
func (r *Run) prepare(st *State, c *ssa.CallCommon, instr ssa.Instruction) *callInfo {
	ci := &callInfo{common: c, instr: instr}
	ci.fn = r.val(st, c.Value)
	for _, a := range c.Args {
		ci.args = append(ci.args, r.val(st, a))
	}
	return ci
}

func one(st *State, v Value) []outcome { return []outcome{{st, v}} }

// invoke makes a call.
func (r *Run) invoke(st *State, ci *callInfo) []outcome {
	if ci.common.IsInvoke() {
		return r.invokeMethod(st, ci.fn, ci.common.Value.Type(), ci.common.Method, ci.args, ci)
	}
	if b, ok := ci.fn.(*VBuiltin); ok {
		return r.builtin(st, b.Name, ci)
	}
	static := ci.common.StaticCallee() != nil
	return r.callValue(st, ci.fn, ci.args, ci.common.Signature(), ci.pos(), !static)
}

// callValue calls a function value. dynamic is true if it is not known from the text what is called.
func (r *Run) callValue(st *State, fn Value, args []Value, sig *types.Signature, pos token.Pos, dynamic bool) []outcome {
	switch f := fn.(type) {
	case *VClosure:
		if !dynamic {
			return r.callFunc(st, f.Fn, args, f.Bind, sig, pos)
		}
		return r.callKnown(st, f, args, sig, pos)
	case *Term:
		return r.dynCall(st, f, args, sig, pos)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

// callKnown calls a function value with a known body.
func (r *Run) callKnown(st *State, f *VClosure, args []Value, sig *types.Signature, pos token.Pos) []outcome {
	ft := r.term(st, f)
	r.fireCall(st, "call", ft, args, nil, sig, pos)
	if st.dead {
		return nil
	}
	outs := r.callFunc(st, f.Fn, args, f.Bind, sig, pos)
	for _, o := range outs {
		if !o.st.dead {
			r.fireCall(o.st, "ret", ft, args, o.v, sig, pos)
		}
	}
	return outs
}

// sigString is a signature without the names of parameters.
func sigString(sig *types.Signature) string {
	tup := func(t *types.Tuple) string {
		var ss []string
		for i := 0; i < t.Len(); i++ {
			ss = append(ss, typeKey(t.At(i).Type()))
		}
		return strings.Join(ss, ", ")
	}
	s := "func(" + tup(sig.Params()) + ")"
	switch sig.Results().Len() {
	case 0:
	case 1:
		s += " " + tup(sig.Results())
	default:
		s += " (" + tup(sig.Results()) + ")"
	}
	return s
}

// bodyPartition splits st by which of the known closures f is.
func (r *Run) dynCall(st *State, f *Term, args []Value, sig *types.Signature, pos token.Pos) []outcome {
	if f.op == "ite" {
		a, b := r.fork(st, f.args[0])
		var out []outcome
		if a != nil {
			out = append(out, r.dynCall(a, f.args[1], args, sig, pos)...)
		}
		if b != nil {
			out = append(out, r.dynCall(b, f.args[2], args, sig, pos)...)
		}
		return out
	}
	r.fireCall(st, "calling", f, args, nil, sig, pos)
	r.oblige(st, r.c.auto("safety"), "no call of a nil function", tNot(tEq(f, tZero)), pos)
	if st.dead {
		return nil
	}
	if c, ok := r.closures[f.id]; ok {
		return r.callKnown(st, c, args, sig, pos)
	}
	var out []outcome
	ss := sigString(sig)
	for _, id := range sortedInts(r.closures) {
		c := r.closures[id]
		if sigString(c.Fn.Signature) != ss {
			continue
		}
		eq := tEq(f, r.term(st, c))
		if eq == tFalse || !st.may(eq) || !r.cells(st, f) {
			continue
		}
		a, b := r.fork(st, eq)
		if a != nil {
			out = append(out, r.callKnown(a, c, args, sig, pos)...)
		}
		if b == nil {
			return out
		}
		st = b
	}
	for _, a := range args {
		r.escape(st, a)
	}
	r.fireCall(st, "call", f, args, nil, sig, pos)
	if st.dead {
		return out
	}
	st.note("%s: call of a function value", r.P.pos(pos))
	for _, a := range args {
		if p, ok := a.(*VPtr); ok && p.T != nil && !st.quiet[p.Obj] && p.Path != "[]" {
			r.clobber(st, p.Obj, p.Path, p.T)
		}
	}
	r.callbacks(st, args, pos)
	if f.op == "uf" && f.name == "cancelfn" {
		st.mem[memKey("cancelled", canonCtx(f.args[0]))] = tTrue
	}
	res := r.results(st, sig, "dyn")
	r.fireCall(st, "ret", f, args, res, sig, pos)
	if st.dead {
		return out
	}
	return append(out, outcome{st, res})
}

// clobber gives the place that the callee has a pointer to an unknown value.
func (r *Run) clobber(st *State, o *Obj, path string, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return
		}
	}
	if isFlat(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			r.clobber(st, o, fmt.Sprintf("%s.%d", path, i), s.Field(i).Type())
		}
		return
	}
	r.storeT(st, o, path, t, r.symbolic(st, t, "callee."+pathName(o.typ, path), false))
}

// cells says if a function value that is not known may be one that the code made. Parameters
// and what was read from memory on entry are not.
func (r *Run) cells(st *State, f *Term) bool {
	return f.op == "select" || f.op == "ite" || f.op == "var" && strings.HasPrefix(f.name, "loop.")
}

// results makes unknown results.
func (r *Run) results(st *State, sig *types.Signature, name string) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return r.symbolic(st, sig.Results().At(0).Type(), name, false)
	}
	return r.symbolic(st, sig.Results(), name, false)
}

func (r *Run) fireCall(st *State, ev string, f *Term, args []Value, res Value, sig *types.Signature, pos token.Pos) {
	var svs []sval
	for i, a := range args {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		}
		svs = append(svs, sval{v: a, t: t})
	}
	if ev == "ret" {
		svs = append(svs, resultVals(res, sig)...)
	}
	r.fire(st, &event{name: ev, subj: sval{v: f}, sig: sigString(sig), args: svs, pos: pos})
}

// resultVals are the results of a call as arguments of an event.
func resultVals(res Value, sig *types.Signature) []sval {
	var svs []sval
	if tp, ok := res.(VTuple); ok {
		for i, x := range tp {
			svs = append(svs, sval{v: x, t: sig.Results().At(i).Type()})
		}
	} else if sig.Results().Len() == 1 {
		svs = append(svs, sval{v: res, t: sig.Results().At(0).Type()})
	}
	return svs
}

// invokeMethod calls a method of an interface value.
func (r *Run) invokeMethod(st *State, recv Value, it types.Type, m *types.Func, args []Value, ci *callInfo) []outcome {
	sig := m.Type().(*types.Signature)
	switch x := recv.(type) {
	case *VIface:
		fn := r.P.method(x.T, m)
		if fn == nil {
			panic(unsupported("no method " + m.Name() + " of " + x.T.String()))
		}
		return r.callFunc(st, fn, append([]Value{x.V}, args...), nil, sig, ci.pos())
	case *Term:
		if x.op == "ite" {
			a, b := r.fork(st, x.args[0])
			var out []outcome
			if a != nil {
				out = append(out, r.invokeMethod(a, x.args[1], it, m, args, ci)...)
			}
			if b != nil {
				out = append(out, r.invokeMethod(b, x.args[2], it, m, args, ci)...)
			}
			return out
		}
		if v, ok := r.ifaces[x.id]; ok {
			return r.invokeMethod(st, v, it, m, args, ci)
		}
		r.oblige(st, r.c.auto("safety"), "no method call on a nil interface", tNot(tEq(x, tZero)), ci.pos())
		if st.dead {
			return nil
		}
		name := ifaceName(it, m) + "." + m.Name()
		if h, ok := ifaceModels[name]; ok {
			return h(r, st, x, args, sig, ci)
		}
		for _, a := range args {
			r.escape(st, a)
		}
		if strings.HasPrefix(name, "stagedpipe.StateMachine.") {
			if m.Name() == "Start" {
				return r.dynCall(st, tUF("bound:Start", sInt, x), args, sig, ci.pos())
			}
		} else {
			r.externals[name] = true
		}
		var svs []sval
		for i, a := range args {
			svs = append(svs, sval{v: a, t: sig.Params().At(i).Type()})
		}
		r.fire(st, &event{name: "ext:" + name, subj: sval{v: x, t: it}, args: svs, pos: ci.pos()})
		if st.dead {
			return nil
		}
		res := r.results(st, sig, m.Name())
		r.fire(st, &event{name: "extret:" + name, subj: sval{v: x, t: it}, args: append(svs, resultVals(res, sig)...), pos: ci.pos()})
		return one(st, res)
	}
	panic(unsupported(fmt.Sprintf("method call on %T", recv)))
}

// ifaceName is the name of the interface type that a method is called on.
func ifaceName(t types.Type, m *types.Func) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return "interface"
}

// method finds the method that m is in t.
func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

// callFunc calls a known function.
func (r *Run) callFunc(st *State, fn *ssa.Function, args, bind []Value, sig *types.Signature, pos token.Pos) []outcome {
	name := funcName(fn)
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(bind) == 1 {
		if t, ok := bind[0].(*Term); ok && isInterface(fn.FreeVars[0].Type()) {
			if fn.Name() == "Start$bound" {
				return r.dynCallNoEvent(st, tUF("bound:Start", sInt, t), args, sig, pos)
			}
		}
	}
	if h, ok := models[name]; ok {
		return h(r, st, fn, args, pos)
	}
	if h, ok := modular[name]; ok && !r.samePkg(fn) {
		r.assumptions["contract of "+shortName(name)+", which is verified on its own"] = true
		return h(r, st, fn, args, pos)
	}
	if len(r.opaque) > 0 {
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		}
		if n, ok := r.opaque[f]; ok {
			return r.opaqueCall(st, n, fn, args, pos)
		}
	}
	if r.P.inModule(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 {
		f := fn
		if o := fn.Origin(); o != nil {
			f = o
		}
		if len(f.Blocks) > 0 {
			return r.callInline(st, fn, args, bind)
		}
	}
	return r.external(st, name, fn.Signature, args, pos)
}

func (r *Run) dynCallNoEvent(st *State, f *Term, args []Value, sig *types.Signature, pos token.Pos) []outcome {
	for _, a := range args {
		r.escape(st, a)
	}
	return one(st, r.results(st, sig, "dynstage"))
}

func shortName(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }

// samePkg says if fn is in the package of the target.
func (r *Run) samePkg(fn *ssa.Function) bool {
	p := func(f *ssa.Function) *types.Package {
		if o := f.Origin(); o != nil {
			f = o
		}
		for f.Pkg == nil && f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil {
			if f.Object() != nil {
				return f.Object().Pkg()
			}
			return nil
		}
		return f.Pkg.Pkg
	}
	return p(fn) == p(r.target)
}

// opaqueCall is a call of a function that has a contract of its own which says all that matters: anything can
// be the result.
func (r *Run) opaqueCall(st *State, name string, fn *ssa.Function, args []Value, pos token.Pos) []outcome {
	var svs []sval
	for i, a := range args {
		r.escape(st, a)
		svs = append(svs, sval{v: a, t: fn.Params[i].Type()})
	}
	r.fire(st, &event{name: "opaque:" + name, args: svs, pos: pos})
	if st.dead {
		return nil
	}
	res := r.results(st, fn.Signature, name)
	if tp, ok := res.(VTuple); ok {
		for i, x := range tp {
			svs = append(svs, sval{v: x, t: fn.Signature.Results().At(i).Type()})
		}
	} else if res != nil {
		svs = append(svs, sval{v: res, t: fn.Signature.Results().At(0).Type()})
	}
	r.fire(st, &event{name: "opaqueret:" + name, args: svs, pos: pos})
	if st.dead {
		return nil
	}
	return one(st, res)
}

// external is a function whose source is not verified: anything can be the result.
func (r *Run) external(st *State, name string, sig *types.Signature, args []Value, pos token.Pos) []outcome {
	r.externals[shortName(name)] = true
	for _, a := range args {
		r.escape(st, a)
	}
	var svs []sval
	for i, a := range args {
		var t types.Type
		k := i
		if sig.Recv() != nil {
			k--
		}
		if k >= 0 && k < sig.Params().Len() {
			t = sig.Params().At(k).Type()
		} else if k < 0 {
			t = sig.Recv().Type()
		}
		svs = append(svs, sval{v: a, t: t})
	}
	r.fire(st, &event{name: "ext:" + shortName(name), args: svs, pos: pos})
	if st.dead {
		return nil
	}
	res := r.results(st, sig, name)
	r.fire(st, &event{name: "extret:" + shortName(name), args: append(svs, resultVals(res, sig)...), pos: pos})
	return one(st, res)
}

// ---- builtins ----

func (r *Run) builtin(st *State, name string, ci *callInfo) []outcome {
	args := ci.args
	at := func(i int) types.Type { return ci.common.Args[i].Type() }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *VSlice:
			if name == "len" {
				return one(st, x.Len)
			}
			return one(st, x.Cap)
		case *Term:
			switch u := at(0).Underlying().(type) {
			case *types.Chan:
				if name == "cap" {
					t := tUF("chancap", sInt, x)
					st.assume(tLe(tZero, t))
					return one(st, t)
				}
				r.chanTerm(st, x)
				n := tFresh("chanlen", sInt)
				st.assume(tLe(tZero, n))
				st.assume(tLe(n, tUF("chancap", sInt, x)))
				r.fire(st, &event{name: "len", subj: sval{v: x}, args: []sval{{v: n}}, pos: ci.pos()})
				return one(st, n)
			case *types.Basic:
				return one(st, r.strLen(st, x))
			case *types.Map:
				r.mapAccess(st, x, false, ci.pos())
				n := tFresh("maplen", sInt)
				st.assume(tLe(tZero, n))
				return one(st, n)
			case *types.Pointer:
				return one(st, tInt(u.Elem().Underlying().(*types.Array).Len()))
			}
		case *VPtr:
			if a, ok := x.T.Underlying().(*types.Array); ok {
				return one(st, tInt(a.Len()))
			}
		case *VStruct:
			return one(st, tInt(int64(len(x.F))))
		}
		panic(unsupported(name))
	case "append":
		return r.appendTo(st, ci)
	case "close":
		ch := r.chanTerm(st, args[0])
		r.oblige(st, r.c.auto("safety"), "no close of a nil channel", tNot(tEq(ch, tZero)), ci.pos())
		if st.dead {
			return nil
		}
		st.note("%s: close of a channel", r.P.pos(ci.pos()))
		k := "closed:" + ch.String()
		if v, ok := st.mem[k]; ok {
			r.oblige(st, r.c.auto("safety"), "no channel is closed twice", tNot(v.(*Term)), ci.pos())
			if st.dead {
				return nil
			}
		}
		st.mem[k] = tTrue
		r.fire(st, &event{name: "close", subj: sval{v: ch}, pos: ci.pos()})
		return one(st, nil)
	case "delete":
		m := at(0).Underlying().(*types.Map)
		r.mapAccess(st, args[0], true, ci.pos())
		k := r.term(st, args[1])
		r.mapEvent(st, "mapdelete", args[0], []sval{{v: args[1], t: m.Key()}}, ci.pos())
		if st.dead {
			return nil
		}
		r.mapDelete(st, args[0], m, k)
		return one(st, nil)
	case "copy":
		d, ok1 := args[0].(*VSlice)
		s, ok2 := args[1].(*VSlice)
		if !ok1 || !ok2 {
			panic(unsupported("copy"))
		}
		n := tIte(tLe(d.Len, s.Len), d.Len, s.Len)
		r.copyElems(st, d, tZero, s, n)
		return one(st, n)
	case "min", "max":
		v := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				v = tIte(tLe(v, t), v, t)
			} else {
				v = tIte(tLe(v, t), t, v)
			}
		}
		return one(st, v)
	case "print", "println":
		return one(st, nil)
	case "recover":
		return one(st, tZero)
	case "ssa:wrapnilchk":
		r.nilCheck(st, args[0], ci.pos())
		return one(st, args[0])
	case "clear":
		m, ok := at(0).Underlying().(*types.Map)
		if !ok {
			panic(unsupported("clear of a slice"))
		}
		r.mapAccess(st, args[0], true, ci.pos())
		k, _ := r.mapSorts(m)
		st.mem[memKey("has", r.term(st, args[0]))] = tConstArr(sArr(k, sBool), tFalse)
		return one(st, nil)
	}
	panic(unsupported("builtin " + name))
}

// copyElems copies n elements to d[at:].
func (r *Run) copyElems(st *State, d *VSlice, at *Term, s *VSlice, n *Term) {
	do, so := r.sliceObj(st, d), r.sliceObj(st, s)
	if isConst(n) && n.val.IsInt64() && n.val.Int64() <= 16 {
		var vs []Value
		for i := int64(0); i < n.val.Int64(); i++ {
			vs = append(vs, r.elem(st, s, tInt(i)))
		}
		for i, v := range vs {
			r.elemWrite(st, do, tAdd(tAdd(d.Off, at), tInt(int64(i))), v, token.NoPos)
		}
		return
	}
	if !do.backing || !so.backing {
		panic(unsupported("copy of an array"))
	}
	r.frozenCheck(st, do, token.NoPos)
	old, src := r.content(st, do), r.content(st, so)
	na := tFresh("copied", old.sort)
	to := tAdd(d.Off, at)
	for k := range st.cells {
		if k.obj == do.id && strings.HasPrefix(k.path, "@") {
			delete(st.cells, k)
		}
	}
	r.setContent(st, do, na)
	r.mem2[na.id] = copyFact{na, old, src, to, s.Off, n}
}

// copyFact remembers what a copied array consists of.
type copyFact struct{ na, old, src, to, from, n *Term }

func (c copyFact) at(i *Term) *Term {
	in := tAnd(tLe(c.to, i), tLt(i, tAdd(c.to, c.n)))
	return tEq(tSelect(c.na, i), tIte(in, tSelect(c.src, tAdd(tSub(i, c.to), c.from)), tSelect(c.old, i)))
}

// copied assumes what is known about the element of an array that was copied from others. This is done
// for the elements that are read, to avoid quantifiers.
func (r *Run) copied(st *State, a, ix *Term) {
	for a.op == "store" {
		a = a.args[0]
	}
	if a.op == "ite" {
		r.copied(st, a.args[1], ix)
		r.copied(st, a.args[2], ix)
		return
	}
	c, ok := r.mem2[a.id]
	if !ok {
		return
	}
	bound := false
	vars := map[int]bool{}
	newVars(ix, 0, map[int]bool{}, vars)
	for v := range vars {
		if _, b := boundVars.Load(v); b {
			bound = true
		}
	}
	if bound {
		i := tFresh("i", sInt)
		st.assume(tForall([]*Term{i}, c.at(i)))
		return
	}
	f := c.at(ix)
	if st.facts[f.id] {
		return
	}
	st.assume(f)
	r.copied(st, c.src, tAdd(tSub(ix, c.to), c.from))
	r.copied(st, c.old, ix)
}

func (r *Run) elemWrite(st *State, o *Obj, ix *Term, v Value, pos token.Pos) {
	r.frozenCheck(st, o, pos)
	if !o.fresh || st.escaped[o] {
		r.escape(st, v)
	}
	r.setElem(st, o, ix, v)
}

func (r *Run) appendTo(st *State, ci *callInfo) []outcome {
	var add *VSlice
	s, ok := ci.args[0].(*VSlice)
	if !ok {
		panic(unsupported("append to " + fmt.Sprintf("%T", ci.args[0])))
	}
	if len(ci.args) < 2 {
		return one(st, s)
	}
	switch x := ci.args[1].(type) {
	case *VSlice:
		add = x
	case *Term: // a string
		v := r.symbolic(st, types.NewSlice(s.Elem), "append", false)
		return one(st, v)
	}
	if add.Len == tZero {
		return one(st, s)
	}
	n := tAdd(s.Len, add.Len)
	fits := tLe(n, s.Cap)
	if s.Cap == tZero && !isConst(add.Len) {
		// append(nil, x...): a new array unless there is nothing to add
		fits = tEq(add.Len, tZero)
		in, re := r.fork(st, fits)
		var out []outcome
		if in != nil {
			out = append(out, outcome{in, s})
		}
		if re != nil {
			out = append(out, r.regrow(re, s, add, n))
		}
		return out
	}
	in, re := r.fork(st, fits)
	var out []outcome
	if in != nil {
		r.copyElems(in, s, s.Len, add, add.Len)
		if !in.dead {
			out = append(out, outcome{in, &VSlice{Arr: s.Arr, Ref: s.Ref, Off: s.Off, Len: n, Cap: s.Cap, Elem: s.Elem}})
		}
	}
	if re != nil {
		out = append(out, r.regrow(re, s, add, n))
	}
	return out
}

func (r *Run) regrow(st *State, s, add *VSlice, n *Term) outcome {
	o := r.newObj(s.Elem, "append", true, true)
	c := tFresh("cap", sInt)
	st.assume(tLe(n, c))
	v := &VSlice{Arr: o, Ref: o.addr, Off: tZero, Len: n, Cap: c, Elem: s.Elem}
	if s.Len != tZero {
		r.copyElems(st, v, tZero, s, s.Len)
	}
	r.copyElems(st, v, s.Len, add, add.Len)
	return outcome{st, v}
}

// ---- goroutines ----

func (r *Run) goStmt(st *State, i *ssa.Go) {
	ci := r.prepare(st, &i.Call, i)
	r.fire(st, &event{name: "go", pos: i.Pos()})
	if st.dead {
		return
	}
	r.spawn(st, "goroutine started at "+r.P.pos(i.Pos()), append([]Value{ci.fn}, ci.args...), func(c *State) []outcome {
		return r.invoke(c, ci)
	}, i.Pos())
}

// spawn verifies what a new goroutine does and adds its effects on ghost state to st. All places
// that the goroutine writes have unknown values from then on.
func (r *Run) spawn(st *State, what string, shared []Value, body func(c *State) []outcome, pos token.Pos) {
	for _, v := range shared {
		r.escape(st, v)
	}
	mk := func(init map[string]*Term) (*State, []*State) {
		c := st.clone()
		c.frames = nil
		c.ledger = map[string]*Term{}
		for k, v := range init {
			c.ledger[k] = v
		}
		c.acc = map[access]bool{}
		c.held = map[string]string{}
		c.isChild = true
		c.note("-- %s", what)
		base := c.clone()
		var ends []*State
		for _, o := range body(c) {
			if !o.st.dead {
				ends = append(ends, o.st)
			}
		}
		return base, ends
	}
	init := map[string]*Term{}
	if len(r.c.balanced) > 0 {
		r.infer++
		r.dry++
		mark := tFresh("spawn", sInt).id
		r.keepLedger++
		base, ends := mk(nil)
		r.keepLedger--
		r.dry--
		r.infer--
		for i := range r.c.balanced {
			k := balKey(i)
			var d *Term // what it gives back; any choice is sound
			for _, e := range ends {
				v := r.led(e, k)
				if d == nil {
					d = v
				}
				if v == d {
					continue
				}
				var ts []*Term
				for n := e.pc; n != nil && n != base.pc; n = n.parent {
					if !n.t.newer(mark, map[int]bool{}) && !funcFact(n.t) {
						ts = append(ts, n.t)
					}
				}
				d = tIte(tAnd(ts...), v, d)
			}
			if d != nil && d != tZero && !d.newer(mark, map[int]bool{}) {
				init[k] = tNeg(d)
			}
		}
	}
	base, ends := mk(init)
	if len(init) > 0 {
		for k, v := range init {
			st.ledger[k] = tSub(r.led(st, k), v)
		}
	}
	for _, e := range ends {
		r.checkBalance(e, "goroutine", pos)
		r.fire(e, &event{name: "goend", pos: pos})
	}
	// effects
	ch := &child{what: what, accesses: map[access]bool{}, joins: map[string]bool{}}
	type end struct {
		st   *State
		cond *Term
	}
	var es []end
	for _, e := range ends {
		var ts []*Term
		for n := e.pc; n != nil && n != base.pc; n = n.parent {
			if !funcFact(n.t) {
				ts = append(ts, n.t)
			}
		}
		es = append(es, end{e, tAnd(ts...)})
		for a := range e.acc {
			ch.accesses[a] = true
		}
		for k := range e.mem {
			if strings.HasPrefix(k, "donewg:") {
				ch.joins[strings.TrimPrefix(k, "donewg:")] = true
			}
		}
		for o := range e.escaped {
			st.escaped[o] = true
		}
		for o := range e.frozen {
			st.frozen[o] = true
		}
		for _, c := range e.live {
			st.live = appendChild(st.live, c)
		}
	}
	names := map[string]bool{}
	for _, e := range es {
		for k := range e.st.ghosts {
			names[k] = true
		}
	}
	for _, k := range sortedKeys(names) {
		v := st.ghosts[k]
		changed := false
		for _, e := range es {
			if !same(e.st.ghosts[k], base.ghosts[k]) {
				changed = true
			}
		}
		if !changed {
			continue
		}
		for _, e := range es {
			v = r.ite(st, e.cond, e.st.ghosts[k], v)
		}
		st.ghosts[k] = v
	}
	// what else it changed is unknown from here on
	mems := map[string]*Term{}
	cells := map[cellKey]Value{}
	for _, e := range es {
		for k, v := range e.st.mem {
			if !same(v, base.mem[k]) {
				if t, ok := v.(*Term); ok {
					mems[k] = t
				}
			}
		}
		for k, v := range e.st.cells {
			o := r.objs[k.obj]
			w, ok := base.cells[k]
			if o.fresh && !ok && !hasObj(base, o) {
				st.cells[k] = v // made by the goroutine
				continue
			}
			if ok && same(v, w) || !ok && r.isInitial(o, k.path, v) {
				continue
			}
			cells[k] = v
		}
	}
	for _, k := range sortedKeys(mems) {
		if strings.HasPrefix(k, "donewg:") || strings.HasPrefix(k, "ginit:") || strings.HasPrefix(k, "fact:") {
			continue
		}
		old := st.mem[k]
		f := tFresh("child."+k[:strings.Index(k, ":")], mems[k].sort)
		if strings.HasPrefix(k, "cancelled:") {
			if o, ok := old.(*Term); ok {
				st.assume(tImp(o, f))
			}
		}
		st.mem[k] = f
	}
	for k := range cells {
		if strings.HasPrefix(k.path, "@") {
			delete(st.cells, k)
			continue
		}
		o := r.objs[k.obj]
		if k.path == "[]" {
			st.cells[k] = tFresh("child.elems", cells[k].(*Term).sort)
			continue
		}
		st.cells[k] = r.symbolic(st, typeAt(o.typ, k.path), "child."+o.name, false)
	}
	st.live = append(append([]*child(nil), st.live...), ch)
	if len(ends) > 0 {
		// one of the ways to end is taken, if it ends
		var cs []*Term
		for _, e := range es {
			cs = append(cs, e.cond)
		}
		st.assume(tOr(cs...))
	}
}

func hasObj(st *State, o *Obj) bool { return st.escaped[o] }

func balKey(i int) string { return fmt.Sprintf("b%d", i) }

// led is the number of units of something that this goroutine has to give back.
func (r *Run) led(st *State, k string) *Term {
	if v, ok := st.ledger[k]; ok {
		return v
	}
	return tZero
}

// checkBalance: nothing is left to give back at the end.
func (r *Run) checkBalance(st *State, what string, pos token.Pos) {
	for i, b := range r.c.balanced {
		if st.dead {
			return
		}
		r.oblige(st, b.props, b.label+", at the end of the "+what, tEq(r.led(st, balKey(i)), tZero), pos)
	}
}

// credit changes what is to be given back of a place.
func (r *Run) credit(st *State, place Value, n *Term, pos token.Pos) {
	for i, b := range r.c.balanced {
		eq := r.matches(st, b.place, place)
		if eq == tFalse {
			continue
		}
		k := balKey(i)
		v := tAdd(r.led(st, k), n)
		if isConst(n) && n.val.Sign() < 0 && b.strict {
			r.oblige(st, b.props, b.label+", nothing is given back that was not taken", tImp(eq, tLe(tZero, v)), pos)
			if st.dead {
				return
			}
		}
		st.ledger[k] = tIte(eq, v, r.led(st, k))
	}
}

// carry moves credits through a channel.
func (r *Run) carry(st *State, ch *Term, n *Term, pos token.Pos) {
	for _, c := range r.c.carries {
		eq := r.matches(st, c.ch, ch)
		if eq == tFalse {
			continue
		}
		for _, i := range c.idx {
			k := balKey(i)
			st.ledger[k] = tIte(eq, tAdd(r.led(st, k), n), r.led(st, k))
		}
	}
}

// ---- channels ----

// chanTerm is the term of a channel. Terms of channels are never compared with those of other places.
func (r *Run) chanTerm(st *State, v Value) *Term {
	t := r.term(st, v)
	r.chanTerms[t.id] = true
	return t
}

func (r *Run) onMakeChan(st *State, c *Term, t types.Type, n *Term, pos token.Pos) {
	r.chanTerms[c.id] = true
	r.fire(st, &event{name: "makechan", subj: sval{v: c, t: t}, args: []sval{{v: c, t: t}, {v: n, t: types.Typ[types.Int]}}, pos: pos})
}

func (r *Run) blockEvent(st *State, kind string, chs any, pos token.Pos) {
	var list []Value
	switch c := chs.(type) {
	case []Value:
		list = c
	case nil:
	default:
		list = []Value{c}
	}
	old := r.blockOn
	r.blockOn = list
	r.fire(st, &event{name: "block", args: []sval{{v: r.strLit(kind), t: types.Typ[types.String]}}, pos: pos, str: kind})
	r.blockOn = old
	st.progress = true
}

func (r *Run) sendOn(st *State, chv Value, v Value, t types.Type, pos token.Pos) {
	ch := r.chanTerm(st, chv)
	st.assume(tNot(tEq(ch, tZero))) // a send on a nil channel never happens
	if cl, ok := st.mem[memKey("closed", ch)]; ok {
		r.oblige(st, r.c.auto("safety"), "no send on a closed channel", tNot(cl.(*Term)), pos)
	}
	if st.dead {
		return
	}
	r.escape(st, v)
	r.slot(st, ch, tOne, pos)
	r.carry(st, ch, tInt(-1), pos)
	r.fire(st, &event{name: "send", subj: sval{v: ch}, args: []sval{{v: v, t: t}}, pos: pos})
}

// slot counts what is in a channel that is used as a semaphore.
func (r *Run) slot(st *State, ch *Term, n *Term, pos token.Pos) { r.credit(st, ch, n, pos) }

// recvOn receives from a channel: the value and if it was one that was sent.
func (r *Run) recvOn(st *State, chv Value, el types.Type, pos token.Pos) []outcome {
	ch := r.chanTerm(st, chv)
	st.assume(tNot(tEq(ch, tZero)))
	if st.dead {
		return nil
	}
	if ch.op == "uf" && ch.name == "ctxdone" {
		st.mem[memKey("cancelled", ch.args[0])] = tTrue
		st.note("%s: the Context is done", r.P.pos(pos))
		r.fire(st, &event{name: "recvdone", args: []sval{{v: ch.args[0]}}, pos: pos})
		if st.dead {
			return nil
		}
		return one(st, VTuple{r.zero(el), tFalse})
	}
	ok := tFresh("recv.ok", sBool)
	a, b := r.fork(st, ok)
	var out []outcome
	if a != nil {
		v := r.symbolic(a, el, "recv", false)
		r.slot(a, ch, tInt(-1), pos)
		r.carry(a, ch, tOne, pos)
		if !a.dead {
			r.fire(a, &event{name: "recv", subj: sval{v: ch}, args: []sval{{v: v, t: el}, {v: tTrue, t: types.Typ[types.Bool]}}, pos: pos})
		}
		if !a.dead {
			out = append(out, outcome{a, VTuple{v, tTrue}})
		}
	}
	if b != nil && !r.neverClosed(b, ch) {
		z := r.zero(el)
		b.note("%s: receive from a closed channel", r.P.pos(pos))
		r.fire(b, &event{name: "recv", subj: sval{v: ch}, args: []sval{{v: z, t: el}, {v: tFalse, t: types.Typ[types.Bool]}}, pos: pos})
		if !b.dead {
			out = append(out, outcome{b, VTuple{z, tFalse}})
		}
	}
	return out
}

// neverClosed: a semaphore channel is not closed while it is in use.
func (r *Run) neverClosed(st *State, ch *Term) bool {
	for _, e := range r.c.open {
		if eq := r.matches(st, e, ch); eq == tTrue || eq != tFalse && st.must(eq) {
			return true
		}
	}
	return false
}

func (r *Run) recv(st *State, i *ssa.UnOp) []*State {
	ch := r.val(st, i.X)
	r.blockEvent(st, "recv", ch, i.Pos())
	if st.dead {
		return nil
	}
	el := i.X.Type().Underlying().(*types.Chan).Elem()
	var sts []*State
	for _, o := range r.recvOn(st, ch, el, i.Pos()) {
		t := o.v.(VTuple)
		if i.CommaOk {
			o.st.top().env[i] = t
		} else {
			o.st.top().env[i] = t[0]
		}
		o.st.top().ip++
		sts = append(sts, o.st)
	}
	return sts
}

func (r *Run) sel(st *State, i *ssa.Select) []*State {
	var chs []Value
	for _, s := range i.States {
		chs = append(chs, r.val(st, s.Chan))
	}
	if i.Blocking {
		r.blockEvent(st, "select", chs, i.Pos())
		if st.dead {
			return nil
		}
	}
	// the result: index, received ok, and a value for each receive
	mk := func(s *State, idx int, ok *Term, got Value) {
		t := VTuple{tInt(int64(idx)), ok}
		for k, c := range i.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			el := c.Chan.Type().Underlying().(*types.Chan).Elem()
			if k == idx {
				t = append(t, got)
			} else {
				t = append(t, r.zero(el))
			}
		}
		s.top().env[i] = t
		s.top().ip++
	}
	var out []*State
	n := len(i.States)
	if !i.Blocking {
		n++
	}
	cur := st
	for k := 0; k < n; k++ {
		s := cur
		if k < n-1 {
			s = cur.clone()
			ch := tFresh("select", sBool)
			s.assume(ch)
			cur.assume(tNot(ch))
		}
		if k == len(i.States) {
			s.note("%s: nothing is ready", r.P.pos(i.Pos()))
			r.fire(s, &event{name: "default", args: nil, pos: i.Pos()})
			if !s.dead {
				mk(s, -1, tFalse, nil)
				out = append(out, s)
			}
			continue
		}
		c := i.States[k]
		if c.Dir == types.SendOnly {
			s.note("%s: send", r.P.pos(c.Pos))
			r.sendOn(s, chs[k], r.val(s, c.Send), c.Send.Type(), c.Pos)
			if !s.dead {
				mk(s, k, tFalse, nil)
				out = append(out, s)
			}
			continue
		}
		el := c.Chan.Type().Underlying().(*types.Chan).Elem()
		for _, o := range r.recvOn(s, chs[k], el, c.Pos) {
			t := o.v.(VTuple)
			o.st.note("%s: receive", r.P.pos(c.Pos))
			mk(o.st, k, t[1].(*Term), t[0])
			out = append(out, o.st)
		}
	}
	return out
}

// ---- memory accesses of several goroutines ----

func lockSet(st *State) string {
	var ks []string
	for k, m := range st.held {
		ks = append(ks, k+"="+m)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func commonLock(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	for _, x := range strings.Split(a, ";") {
		for _, y := range strings.Split(b, ";") {
			kx, mx, _ := strings.Cut(x, "=")
			ky, my, _ := strings.Cut(y, "=")
			if kx == ky && (mx == "w" || my == "w") {
				return true
			}
		}
	}
	return false
}

func overlap(a, b string) bool {
	return a == b || strings.HasPrefix(a, b) && (b == "" || a[len(b)] == '.' || a[len(b)] == '[') || strings.HasPrefix(b, a) && (a == "" || b[len(a)] == '.' || b[len(a)] == '[')
}

func (r *Run) frozenCheck(st *State, o *Obj, pos token.Pos) {
	if st.frozen[o] {
		r.oblige(st, r.c.auto("frozen"), "what was published is not changed", tFalse, pos)
	}
}

// access checks and records a plain read or write.
func (r *Run) access(st *State, o *Obj, path string, t types.Type, write bool, pos token.Pos) {
	if st.frozen[o] && write {
		r.oblige(st, r.c.auto("frozen"), "what was published is not changed", tFalse, pos)
		if st.dead {
			return
		}
	}
	if o.fresh && !st.escaped[o] {
		return
	}
	for i, g := range r.c.guards {
		for _, pe := range g.places {
			pl, ok := r.place(st, pe)
			if !ok || pl.Obj != o || !overlap(pl.Path, path) {
				continue
			}
			if _, isMap := pl.T.Underlying().(*types.Map); isMap && !write {
				continue // the accesses to the map itself are checked
			}
			if g.mu == nil {
				if write && !o.fresh {
					r.oblige(st, g.props, g.label, tFalse, pos)
				}
				continue
			}
			mu, ok := r.place(st, g.mu)
			if !ok {
				continue
			}
			h := st.held[r.term(st, mu).String()]
			good := h == "w" || h == "r" && !write
			_ = i
			if o.fresh && !r.sharedNow(st, o) {
				good = true
			}
			r.oblige(st, g.props, g.label, tBool(good), pos)
			if st.dead {
				return
			}
		}
	}
	ls := lockSet(st)
	for _, c := range st.live {
		for a := range c.accesses {
			if a.cell.obj != o.id || !overlap(a.cell.path, path) || !write && !a.write || commonLock(a.locks, ls) {
				continue
			}
			st.note("%s: conflicts with an access at %s of the %s", r.P.pos(pos), a.pos, c.what)
			r.oblige(st, r.c.auto("race"), "no data race", tFalse, pos)
			if st.dead {
				return
			}
		}
	}
	st.acc[access{cellKey{o.id, path}, write, ls, r.P.pos(pos)}] = true
}

func (r *Run) sharedNow(st *State, o *Obj) bool { return st.escaped[o] }

func (r *Run) storeElemEvent(st *State, q *VPtr, v Value, pos token.Pos) {
	r.frozenCheck(st, q.Obj, pos)
	if st.dead {
		return
	}
	if !q.Obj.fresh || st.escaped[q.Obj] {
		r.escape(st, v)
	}
	r.fire(st, &event{name: "setelem", subj: sval{v: q.Obj.addr}, args: []sval{{v: q.Idx, t: types.Typ[types.Int]}, {v: v, t: q.T}}, pos: pos})
}

// mapAccess checks an access to a map that is guarded by a lock.
func (r *Run) mapAccess(st *State, m Value, write bool, pos token.Pos) {
	mt := r.term(st, m)
	for _, g := range r.c.guards {
		if g.mu == nil {
			continue
		}
		for _, pe := range g.places {
			v, ok := r.tryEval(st, pe)
			if !ok {
				continue
			}
			x, isT := v.v.(*Term)
			if !isT || x != mt {
				continue
			}
			mu, ok := r.place(st, g.mu)
			if !ok {
				continue
			}
			h := st.held[r.term(st, mu).String()]
			r.oblige(st, g.props, g.label, tBool(h == "w" || h == "r" && !write), pos)
			if st.dead {
				return
			}
		}
	}
	if _, ok := r.byAddr[mt.id]; ok {
		if o := r.byAddr[mt.id]; !st.escaped[o] {
			return
		}
	}
	ls := lockSet(st)
	key := cellKey{-1 - mt.id, "map"}
	for _, c := range st.live {
		for a := range c.accesses {
			if a.cell != key || !write && !a.write || commonLock(a.locks, ls) {
				continue
			}
			r.oblige(st, r.c.auto("race"), "no data race", tFalse, pos)
			if st.dead {
				return
			}
		}
	}
	st.acc[access{key, write, ls, r.P.pos(pos)}] = true
}

func (r *Run) mapEvent(st *State, ev string, m Value, args []sval, pos token.Pos) {
	r.fire(st, &event{name: ev, subj: sval{v: m}, args: args, pos: pos})
}

// callbacks verifies what the functions do that are given to an unknown function: it may call them. Only
// contracts that say what these functions may do (with handlers of callbacks) make use of it.
func (r *Run) callbacks(st *State, args []Value, pos token.Pos) {
	watch := false
	for _, h := range r.c.handlers {
		if h.ev == "callback" {
			watch = true
		}
	}
	if !watch {
		return
	}
	for _, a := range args {
		c, ok := a.(*VClosure)
		if !ok {
			t, isT := a.(*Term)
			if !isT {
				continue
			}
			if c, ok = r.closures[t.id]; !ok {
				continue
			}
		}
		s := st.clone()
		s.note("%s: the function calls back", r.P.pos(pos))
		sig := c.Fn.Signature
		var as []Value
		var svs []sval
		for i := 0; i < sig.Params().Len(); i++ {
			v := r.symbolic(s, sig.Params().At(i).Type(), "callback", false)
			as = append(as, v)
			svs = append(svs, sval{v: v, t: sig.Params().At(i).Type()})
		}
		r.fire(s, &event{name: "callback", subj: sval{v: c}, sig: sigString(sig), args: svs, pos: pos})
		if s.dead {
			continue
		}
		for _, o := range r.callFunc(s, c.Fn, as, c.Bind, sig, pos) {
			r.fire(o.st, &event{name: "callbackret", subj: sval{v: c}, sig: sigString(sig), args: svs, pos: pos})
		}
	}
}
