package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is the verification of one contract.
type Run struct {
	soft   bool // how joinMany compares
	P      *Program
	solver *Solver
	c      *Contract
	target *ssa.Function

	opaque       map[*ssa.Function]string
	exactStrings bool
	strIDs       map[string]bool
	objSeq       int
	symSeq       int // of objects that existed before, whose numbers follow symBase
	pcSeq        int
	objs         map[int]*Obj
	byAddr       map[int]*Obj
	symObjs      map[string]*Obj
	entryObj     map[int]bool
	idxTerms     map[int]*Term

	dry        int // > 0 while it is found out what a goroutine takes over: failing obligations do not end a path
	classes    []charClass
	keepLedger int // states that differ in what is to be given back are not joined
	infer      int // > 0 while loop invariants are inferred: obligations are not reported
	steps      int

	loopCache map[string]map[string]bool

	obls        []*Obligation
	oblIndex    map[string]int
	assumptions map[string]bool
	externals   map[string]bool
	covered     map[string]bool
	functions   map[string]bool
	loopsSeen   map[string]string
	exits       int
	failFast    int

	only       string // the property that is checked
	closures   map[int]*VClosure
	ctxs       map[string]*Term
	ifaces     map[int]*VIface
	mem2       map[int]copyFact
	blockOn    []Value
	curEvent   *event
	ghostTypes map[string]types.Type
	regexps    map[int]string
	chanTerms  map[int]bool
	loops      *loopNode
	epochObj   map[string]*Obj
	second     *secondOpinion
}

// Obligation is one thing that had to be proved.
type Obligation struct {
	Label  string
	Props  []string
	Pos    string
	Result string // proved, refuted, unknown
	Trace  []string
	Goal   string
	Model  []string
}

func newRun(P *Program, c *Contract, timeoutMS int) *Run {
	return &Run{P: P, c: c, solver: newSolver(timeoutMS), strIDs: map[string]bool{}, objs: map[int]*Obj{}, byAddr: map[int]*Obj{},
		symObjs: map[string]*Obj{}, entryObj: map[int]bool{}, idxTerms: map[int]*Term{}, loopCache: map[string]map[string]bool{},
		oblIndex: map[string]int{}, assumptions: map[string]bool{}, externals: map[string]bool{}, covered: map[string]bool{}, functions: map[string]bool{}, loopsSeen: map[string]string{},
		closures: map[int]*VClosure{}, ctxs: map[string]*Term{}, ifaces: map[int]*VIface{}, mem2: map[int]copyFact{}, ghostTypes: map[string]types.Type{}, regexps: map[int]string{}, chanTerms: map[int]bool{}, epochObj: map[string]*Obj{}, opaque: map[*ssa.Function]string{}}
}

// oblige proves goal on the path of st, or records that it could not.
func (r *Run) oblige(st *State, props []string, label string, goal *Term, pos token.Pos) {
	if st.dead || r.dry > 0 && len(props) > 0 && goal == tFalse {
		return
	}
	if r.dry > 0 && len(props) > 0 && (r.keepLedger > 0 || !st.may(goal)) {
		return
	}
	if r.infer == 0 && len(props) > 0 && r.selected(props) {
		r.covered[label] = true
		res := r.solver.prove(st.pc, goal, true)
		o := &Obligation{Label: label, Props: props, Pos: r.P.pos(pos), Result: res}
		if res != "proved" {
			o.Trace = append([]string(nil), st.trace...)
			o.Goal = goal.String()
			if len(o.Goal) > 2000 {
				o.Goal = o.Goal[:2000] + "..."
			}
			if res == "refuted" {
				o.Model = r.model(st, goal)
			}
		}
		r.obls = append(r.obls, o)
		if r.second != nil && res == "proved" && goal != tTrue {
			r.second.add(o, script(r.solver.axioms, st.pc, withInstances(st.pc, tNot(goal))))
		}
		if res == "unknown" && dropFilter == "explain" {
			fmt.Fprintln(os.Stderr, "UNKNOWN", label+"\n"+script(r.solver.axioms, st.pc, tNot(goal)))
		}
		if res == "refuted" {
			if dropFilter == "explain" {
				fmt.Fprintln(os.Stderr, "EXPLAIN", label, r.explain(st, goal))
				fmt.Fprintln(os.Stderr, script(r.solver.axioms, st.pc, tNot(goal)))
			}
			// continue as if it held if that is possible
			if r.solver.check(st.pc, goal) == "unsat" {
				st.dead = true
				return
			}
		}
	}
	st.assume(goal)
}

// model gives the values of the symbols of a refuted obligation.
func (r *Run) model(st *State, goal *Term) []string {
	out := map[string]string{}
	seen := map[int]bool{}
	var vars []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "var" || t.op == "uf" && len(t.args) > 0 && !strings.HasPrefix(t.sort, "(") {
			if t.sort == sInt || t.sort == sBool || t.sort == sStr {
				vars = append(vars, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(goal)
	for n := st.pc; n != nil && len(vars) < 60; n = n.parent {
		if n.t.op == "forall" {
			continue
		}
		rec(n.t)
	}
	if len(vars) > 60 {
		vars = vars[:60]
	}
	res, vals := r.solver.query(st.pc, tNot(goal), vars)
	if res != "sat" {
		return nil
	}
	for i, v := range vars {
		if i < len(vals) {
			out[v.String()] = vals[i]
		}
	}
	var lines []string
	for _, k := range sortedKeys(out) {
		lines = append(lines, k+" = "+out[k])
	}
	return lines
}

var traceOn = os.Getenv("GOVC_TRACE") != ""

const maxSteps = 6000000

// explore runs states, that all have the same top function, until that function returns.
// States that reach the same block and do not differ in anything that matters later are merged.
func (r *Run) explore(init []*State) []*State {
	if len(init) == 0 {
		return nil
	}
	depth := len(init[0].frames)
	var done []*State
	work := map[*ssa.BasicBlock][]*State{}
	fn := init[0].top().fn
	info := r.P.info(fn)
	add := func(st *State) {
		if st.dead {
			return
		}
		if len(st.frames) < depth {
			done = append(done, st)
			return
		}
		b := st.top().block
		work[b] = append(work[b], st)
	}
	for _, st := range init {
		add(st)
	}
	for len(work) > 0 {
		var best *ssa.BasicBlock
		for b := range work {
			if best == nil || info.rpo[b] < info.rpo[best] {
				best = b
			}
		}
		sts := r.merge(work[best], false)
		delete(work, best)
		if l := info.loops[best]; l != nil && sts[0].top().entering {
			// one way into a loop, where possible
			sts = r.joinMany(sts, 1, true)
			var in []*State
			for _, st := range r.splitContexts(sts) {
				st.top().entering = false
				in = append(in, r.enterLoop(st, l)...)
			}
			sts = in
		}
		for _, st := range sts {
			// run to the end of the block
			stack := []*State{st}
			for len(stack) > 0 {
				s := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if s.dead {
					continue
				}
				if len(s.frames) < depth {
					done = append(done, s)
					continue
				}
				r.steps++
				if r.steps > maxSteps {
					panic(unsupported("too many steps"))
				}
				if r.steps%256 == 0 && time.Now().After(deadline) {
					panic(unsupported("not finished in time"))
				}
				b := s.top().block
				next := r.step(s)
				for i := len(next) - 1; i >= 0; i-- {
					n := next[i]
					if n.dead {
						continue
					}
					if len(n.frames) == depth && (n.top().block != b || n.top().entered) {
						n.top().entered = false
						add(n)
						continue
					}
					stack = append(stack, n)
				}
			}
		}
	}
	return r.merge(done, true)
}

// merge joins states that only differ in their path condition.
func (r *Run) merge(sts []*State, returned bool) []*State {
	if len(sts) < 2 {
		return sts
	}
	var out []*State
	for _, st := range sts {
		merged := false
		for k, o := range out {
			if m := r.tryMerge(o, st, returned); m != nil {
				out[k] = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, st)
		}
	}
	if returned && r.c.joinReturns && len(out) > 1 {
		out = r.joinMany(out, 1, true)
	}
	if len(out) > joinLimit {
		out = r.joinMany(out, joinLimit, false)
	}
	return out
}

func (r *Run) tryMerge(a, b *State, returned bool) *State {
	if len(a.frames) != len(b.frames) || !same(a.ret, b.ret) || len(a.live) != len(b.live) || a.progress != b.progress {
		return nil
	}
	for k := range a.live {
		if a.live[k] != b.live[k] {
			return nil
		}
	}
	if !sameVals(a.ghosts, b.ghosts) || !sameVals(a.mem, b.mem) || len(a.ledger) != len(b.ledger) || len(a.held) != len(b.held) || len(a.frozen) != len(b.frozen) || len(a.quiet) != len(b.quiet) {
		return nil
	}
	for k, v := range a.ledger {
		if b.ledger[k] != v {
			return nil
		}
	}
	for k, v := range a.held {
		if b.held[k] != v {
			return nil
		}
	}
	for k := range a.frozen {
		if !b.frozen[k] {
			return nil
		}
	}
	for k := range a.quiet {
		if !b.quiet[k] {
			return nil
		}
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.block != g.block || f.ip != g.ip || len(f.defers) != len(g.defers) || len(f.loops) != len(g.loops) {
			return nil
		}
		for k := range f.loops {
			if f.loops[k] != g.loops[k] {
				return nil
			}
		}
		for k := range f.defers {
			if f.defers[k].pos != g.defers[k].pos || !sameList(f.defers[k].args, g.defers[k].args) || !same(f.defers[k].fn, g.defers[k].fn) {
				return nil
			}
		}
		live := r.P.info(f.fn).live[f.block]
		for v := range live {
			x, ok1 := f.env[v]
			y, ok2 := g.env[v]
			if ok1 != ok2 || ok1 && !same(x, y) {
				return nil
			}
		}
	}
	ra, rb := r.reachable(a), r.reachable(b)
	for o := range ra {
		if !rb[o] {
			return nil
		}
	}
	for o := range rb {
		if !ra[o] {
			return nil
		}
	}
	chk := func(x, y *State) bool {
		for k, v := range x.cells {
			o := r.objs[k.obj]
			if o.fresh && !ra[o] {
				continue
			}
			w, ok := y.cells[k]
			if !ok {
				// not touched there
				if o.fresh || k.path == "[]" || strings.HasPrefix(k.path, "@") {
					return false
				}
				if r.isInitial(o, k.path, v) {
					continue
				}
				return false
			}
			if !same(v, w) {
				return false
			}
		}
		return true
	}
	if !chk(a, b) || !chk(b, a) {
		return nil
	}
	for o := range ra {
		if a.escaped[o] != b.escaped[o] {
			return nil
		}
	}
	// the same in everything: the path condition is the common part and the disjunction of the rest
	var sa, sb []*Term
	x, y := a.pc, b.pc
	for x != y {
		if y == nil || x != nil && x.id > y.id {
			sa = append(sa, x.t)
			x = x.parent
		} else {
			sb = append(sb, y.t)
			y = y.parent
		}
	}
	m := a
	m.pc = x
	inB := map[int]bool{}
	for _, t := range sb {
		inB[t.id] = true
	}
	inA := map[int]bool{}
	var both, onlyA, onlyB []*Term
	for _, t := range sa {
		inA[t.id] = true
		if inB[t.id] || b.facts[t.id] {
			both = append(both, t)
		} else {
			onlyA = append(onlyA, t)
		}
	}
	for _, t := range sb {
		if !inA[t.id] {
			onlyB = append(onlyB, t)
		}
	}
	for _, t := range sa {
		delete(m.facts, t.id)
	}
	for i := len(both) - 1; i >= 0; i-- {
		m.assume(both[i])
	}
	keep := r.relevant(x, a, b)
	m.assume(tOr(tAnd(keep(onlyA)...), tAnd(keep(onlyB)...)))
	for k := range b.acc {
		m.acc[k] = true
	}
	for k, v := range b.cells {
		if _, ok := m.cells[k]; !ok {
			m.cells[k] = v
		}
	}
	return m
}

func (r *Run) isInitial(o *Obj, path string, v Value) bool {
	if path == "[]" {
		t := v.(*Term)
		return t.op == "uf" && strings.HasPrefix(t.name, "elems:") && t.args[0] == o.addr
	}
	for _, l := range r.leafsPure(v) {
		if l == nil || l.op != "uf" || !strings.HasPrefix(l.name, "mem:") || len(l.args) == 0 || l.args[0] != o.addr {
			return false
		}
	}
	return true
}

func (r *Run) leafsPure(v Value) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *VSlice:
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	}
	return []*Term{nil}
}

func sameVals(a, b map[string]Value) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

func sameList(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// reachable is the set of objects allocated by the code that can still be accessed.
func (r *Run) reachable(st *State) map[*Obj]bool {
	out := map[*Obj]bool{}
	cells := map[int][]Value{}
	for k, v := range st.cells {
		cells[k.obj] = append(cells[k.obj], v)
	}
	var visit func(v Value)
	obj := func(o *Obj) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		for _, v := range cells[o.id] {
			visit(v)
		}
	}
	var terms func(t *Term)
	seen := map[int]bool{}
	terms = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if o, ok := r.byAddr[t.id]; ok {
			obj(o)
		}
		for _, a := range t.args {
			terms(a)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case *Term:
			terms(v)
		case *VPtr:
			obj(v.Obj)
		case *VSlice:
			obj(v.Arr)
			terms(v.Ref)
		case *VClosure:
			for _, b := range v.Bind {
				visit(b)
			}
		case *VIface:
			visit(v.V)
		case *VStruct:
			for _, f := range v.F {
				visit(f)
			}
		case VTuple:
			for _, f := range v {
				visit(f)
			}
		case *VMapIter:
			visit(v.Map)
		}
	}
	visit(st.ret)
	for _, f := range st.frames {
		live := r.P.info(f.fn).live[f.block]
		for v := range live {
			if x, ok := f.env[v]; ok {
				visit(x)
			}
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, v := range st.ghosts {
		visit(v)
	}
	for _, v := range st.mem {
		visit(v)
	}
	for _, v := range st.spec {
		visit(v.v)
	}
	for k, v := range st.cells {
		if !r.objs[k.obj].fresh {
			visit(v)
		}
	}
	return out
}

// callInline runs fn's body.
func (r *Run) callInline(st *State, fn *ssa.Function, args, bind []Value) []outcome {
	d := len(st.frames)
	r.push(st, fn, args, bind)
	var out []outcome
	if traceOn {
		fmt.Fprintf(os.Stderr, "%*s> %s\n", d, "", fn.Name())
	}
	res := r.explore([]*State{st})
	if traceOn {
		fmt.Fprintf(os.Stderr, "%*s< %s: %d states, steps %d\n", d, "", fn.Name(), len(res), r.steps)
	}
	for _, s := range res {
		if len(s.frames) != d {
			panic(unsupported("frames"))
		}
		v := s.ret
		s.ret = nil
		out = append(out, outcome{s, v})
	}
	return out
}

// outcome is one way in which a call ends.
type outcome struct {
	st *State
	v  Value
}

// call pushes a frame for fn.
func (r *Run) push(st *State, fn *ssa.Function, args, bind []Value) *Frame {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	if len(st.frames) > 60 {
		panic(unsupported("recursion in " + fn.String()))
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		panic(unsupported("recursion in " + fn.String()))
	}
	r.functions[funcName(fn)] = true
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	st.frames = append(st.frames, f)
	return f
}

// pop returns from the top frame.
func (r *Run) pop(st *State, res Value) {
	st.frames = st.frames[:len(st.frames)-1]
	st.ret = res
}

func (r *Run) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(st, v)
	case *ssa.Function:
		return &VClosure{Fn: v}
	case *ssa.Global:
		return r.global(st, v)
	case *ssa.Builtin:
		return &VBuiltin{v.Name()}
	}
	x, ok := st.top().env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn)))
	}
	return x
}

func (r *Run) global(st *State, g *ssa.Global) Value {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	a := tVar("global:"+g.RelString(nil), sInt)
	st.assume(tLt(tZero, a))
	o := r.objAt(st, a, t, false)
	r.entryObj[o.id] = true
	o.name = g.RelString(nil)
	if st.mem["ginit:"+o.name] == nil {
		st.mem["ginit:"+o.name] = tTrue
		r.globalFacts(st, g, o)
	}
	return &VPtr{Obj: o, T: t}
}

// fork splits on a condition. Either result can be nil.
func (r *Run) fork(st *State, c *Term) (t, f *State) {
	if c == tTrue {
		return st, nil
	}
	if c == tFalse {
		return nil, st
	}
	if st.facts[c.id] {
		return st, nil
	}
	if st.facts[tNot(c).id] {
		return nil, st
	}
	ct := r.solver.check(st.pc, c)
	if ct == "unsat" {
		st.assume(tNot(c))
		return nil, st
	}
	cf := r.solver.check(st.pc, tNot(c))
	if cf == "unsat" {
		st.assume(c)
		return st, nil
	}
	f = st.clone()
	st.assume(c)
	f.assume(tNot(c))
	return st, f
}

func (st *State) note(format string, a ...any) {
	if len(st.trace) < 400 {
		st.trace = append(st.trace, fmt.Sprintf(format, a...))
	}
}

func (r *Run) step(st *State) []*State {
	f := st.top()
	if f.ip >= len(f.block.Instrs) {
		panic(unsupported("fell off a block"))
	}
	ins := f.block.Instrs[f.ip]
	if sts := r.splitOperand(st, ins); sts != nil {
		return sts
	}
	switch i := ins.(type) {
	case *ssa.Jump:
		return r.jump(st, f.block.Succs[0])
	case *ssa.If:
		c := r.val(st, i.Cond).(*Term)
		r.noteBound(st, i)
		a, b := r.fork(st, c)
		var out []*State
		if a != nil && !a.dead {
			if b != nil {
				a.note("%s: branch taken", r.P.pos(condPos(i)))
			}
			out = append(out, r.jump(a, a.top().block.Succs[0])...)
		}
		if b != nil && !b.dead {
			if a != nil {
				b.note("%s: branch not taken", r.P.pos(condPos(i)))
			}
			out = append(out, r.jump(b, b.top().block.Succs[1])...)
		}
		return out
	case *ssa.Return:
		if len(f.defers) > 0 {
			// Return in a function with defers is always after RunDefers.
			panic(unsupported("return with defers"))
		}
		var res Value
		switch len(i.Results) {
		case 0:
		case 1:
			res = r.val(st, i.Results[0])
		default:
			var t VTuple
			for _, x := range i.Results {
				t = append(t, r.val(st, x))
			}
			res = t
		}
		r.pop(st, res)
		return []*State{st}
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.ip++
			return []*State{st}
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		outs := r.invoke(st, &callInfo{common: d.call, fn: d.fn, args: d.args, instr: d.pos, deferred: true})
		var sts []*State
		for _, o := range outs {
			sts = append(sts, o.st)
		}
		return sts
	case *ssa.Panic:
		x := r.val(st, i.X)
		_ = x
		r.oblige(st, r.c.auto("panic"), "no explicit panic is reached", tFalse, i.Pos())
		st.dead = true
		return nil
	case *ssa.Go:
		r.goStmt(st, i)
		f.ip++
		return []*State{st}
	case *ssa.Defer:
		ci := r.prepare(st, &i.Call, i)
		f.defers = append(f.defers, deferred{call: &i.Call, fn: ci.fn, args: ci.args, pos: i})
		f.ip++
		return []*State{st}
	case *ssa.Call:
		ci := r.prepare(st, &i.Call, i)
		outs := r.invoke(st, ci)
		var sts []*State
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			o.st.top().env[i] = o.v
			o.st.top().ip++
			sts = append(sts, o.st)
		}
		return sts
	case *ssa.Select:
		return r.sel(st, i)
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return r.recv(st, i)
		}
	case *ssa.Send:
		ch, v := r.val(st, i.Chan), r.val(st, i.X)
		r.blockEvent(st, "send", ch, i.Pos())
		r.sendOn(st, ch, v, i.X.Type(), i.Pos())
		f.ip++
		return []*State{st}
	}
	if st.dead {
		return nil
	}
	r.simple(st, f, ins)
	if st.dead {
		return nil
	}
	f.ip++
	return []*State{st}
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, x := range i.Block().Instrs {
		if p := x.Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

// jump enters a block: phis are evaluated and loops are cut.
func (r *Run) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	// leaving loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.loop.blocks[to] {
			break
		}
		if l.inferring {
			return nil // the part after the loop is not explored while inferring
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	// phis in parallel
	var phis []*ssa.Phi
	var vals []Value
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, r.val(st, p.Edges[pi]))
	}
	for k, p := range phis {
		f.env[p] = vals[k]
	}
	f.prev, f.block, f.ip, f.entered = from, to, len(phis), true
	if l := r.P.loopAt(f.fn, to); l != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].loop == l {
			return r.backEdge(st, f.loops[len(f.loops)-1])
		}
		f.entering = true // explore enters it
	}
	return []*State{st}
}

func (r *Run) simple(st *State, f *Frame, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := r.newObj(t, i.Comment, true, false)
		o.local = !i.Heap
		f.env[i] = &VPtr{Obj: o, T: t}
	case *ssa.BinOp:
		f.env[i] = r.binop(st, i)
	case *ssa.UnOp:
		x := r.val(st, i.X)
		switch i.Op {
		case token.NOT:
			f.env[i] = tNot(x.(*Term))
		case token.SUB:
			f.env[i] = tNeg(r.term(st, x))
		case token.MUL:
			t := i.Type()
			f.env[i] = r.loadPtr(st, x, t, i.Pos())
		case token.XOR:
			f.env[i] = tUF("bitnot", sInt, r.term(st, x))
		default:
			panic(unsupported("operator " + i.Op.String()))
		}
	case *ssa.Store:
		r.storePtr(st, r.val(st, i.Addr), r.val(st, i.Val), i.Val.Type(), i.Pos())
	case *ssa.FieldAddr:
		x := r.val(st, i.X)
		t := i.X.Type().Underlying().(*types.Pointer).Elem()
		r.nilCheck(st, x, i.Pos())
		p := r.deref(st, x, t)
		ft := i.Type().Underlying().(*types.Pointer).Elem()
		if p.Idx != nil {
			panic(unsupported("field of a slice element"))
		}
		f.env[i] = &VPtr{Obj: p.Obj, Path: fmt.Sprintf("%s.%d", p.Path, i.Field), T: ft}
	case *ssa.Field:
		x := r.val(st, i.X)
		switch x := x.(type) {
		case *VStruct:
			f.env[i] = x.F[i.Field]
		case *Term:
			f.env[i] = r.build(st, i.Type(), typeKey(i.X.Type())+fmt.Sprintf(".%d", i.Field), false, func(n, so string) *Term { return tUF("part:"+n, so, x) })
		}
	case *ssa.IndexAddr:
		r.indexAddr(st, f, i)
	case *ssa.Index:
		x, ix := r.val(st, i.X), r.val(st, i.Index).(*Term)
		if v, ok := x.(*VStruct); ok && isConst(ix) {
			f.env[i] = v.F[ix.val.Int64()]
			return
		}
		f.env[i] = r.build(st, i.Type(), "index", false, func(n, so string) *Term { return tUF("index:"+n, so, r.term(st, x), ix) })
	case *ssa.ChangeType:
		f.env[i] = retype(r.val(st, i.X), i.Type())
	case *ssa.ChangeInterface:
		f.env[i] = r.val(st, i.X)
	case *ssa.Convert:
		f.env[i] = r.convert(st, i)
	case *ssa.MultiConvert:
		f.env[i] = r.build(st, i.Type(), "conv", false, func(n, so string) *Term { return tUF("conv:"+typeKey(i.Type()), so, r.term(st, r.val(st, i.X))) })
	case *ssa.MakeInterface:
		x := r.val(st, i.X)
		if _, ok := x.(*Term); ok && isInterface(i.X.Type()) {
			f.env[i] = x
			return
		}
		f.env[i] = &VIface{T: i.X.Type(), V: x}
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range i.Bindings {
			b = append(b, r.val(st, x))
		}
		f.env[i] = &VClosure{Fn: i.Fn.(*ssa.Function), Bind: b}
	case *ssa.MakeChan:
		n := r.val(st, i.Size).(*Term)
		r.objSeq++
		c := tInt(freshBase + int64(r.objSeq))
		st.assume(tEq(tUF("chancap", sInt, c), n))
		r.oblige(st, r.c.auto("safety"), "channel size is not negative", tLe(tZero, n), i.Pos())
		f.env[i] = c
		r.onMakeChan(st, c, i.Type(), n, i.Pos())
	case *ssa.MakeMap:
		o := r.newObj(i.Type(), "map", true, false)
		r.mapInit(st, o.addr, i.Type().Underlying().(*types.Map))
		f.env[i] = o.addr
	case *ssa.MakeSlice:
		n, c := r.val(st, i.Len).(*Term), r.val(st, i.Cap).(*Term)
		el := i.Type().Underlying().(*types.Slice).Elem()
		r.oblige(st, r.c.auto("safety"), "slice length is valid", tAnd(tLe(tZero, n), tLe(n, c)), i.Pos())
		o := r.newObj(el, "make", true, true)
		f.env[i] = &VSlice{Arr: o, Ref: o.addr, Off: tZero, Len: n, Cap: c, Elem: el}
	case *ssa.Slice:
		r.slice(st, f, i)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Extract:
		t := r.val(st, i.Tuple)
		switch t := t.(type) {
		case VTuple:
			f.env[i] = t[i.Index]
		default:
			panic(unsupported(fmt.Sprintf("extract of %T", t)))
		}
	case *ssa.TypeAssert:
		r.typeAssert(st, f, i)
	case *ssa.Lookup:
		r.lookup(st, f, i)
	case *ssa.MapUpdate:
		r.mapUpdate(st, i)
	case *ssa.Range:
		x := r.val(st, i.X)
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			r.mapAccess(st, x, false, i.Pos())
			f.env[i] = &VMapIter{Map: x, T: m}
			return
		}
		f.env[i] = &VMapIter{Map: x}
	case *ssa.Next:
		it := r.val(st, i.Iter).(*VMapIter)
		tp := i.Type().(*types.Tuple)
		ok := tFresh("range.ok", sBool)
		k := r.symbolicOrUnit(st, tp.At(1).Type(), "range.key")
		v := r.symbolicOrUnit(st, tp.At(2).Type(), "range.val")
		st.progress = true
		if it.T != nil {
			has := r.mapHas(st, it.Map, it.T)
			vals := r.mapVals(st, it.Map, it.T)
			if tp.At(1).Type() == nil || isInvalid(tp.At(1).Type()) {
				k = r.symbolic(st, it.T.Key(), "range.key", false)
			}
			kt := r.term(st, k)
			st.assume(tImp(ok, tSelect(has, kt)))
			if !isInvalid(tp.At(2).Type()) {
				if vt, isT := v.(*Term); isT {
					st.assume(tImp(ok, tEq(vt, tSelect(vals, kt))))
				}
			}
			r.mapAccess(st, it.Map, false, i.Pos())
		}
		f.env[i] = VTuple{ok, k, v}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, f.fn)))
	}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (r *Run) symbolicOrUnit(st *State, t types.Type, n string) Value {
	if t == nil || isInvalid(t) {
		return tZero
	}
	return r.symbolic(st, t, n, false)
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(*VStruct); ok {
		return &VStruct{T: t, F: s.F}
	}
	return v
}

func (r *Run) nilCheck(st *State, p Value, pos token.Pos) {
	if t, ok := p.(*Term); ok {
		if _, known := r.byAddr[t.id]; known {
			return
		}
		r.oblige(st, r.c.auto("safety"), "no nil dereference", tNot(tEq(t, tZero)), pos)
	}
}

func (r *Run) loadPtr(st *State, p Value, t types.Type, pos token.Pos) Value {
	r.nilCheck(st, p, pos)
	if st.dead {
		return r.zero(t)
	}
	q := r.deref(st, p, t)
	if q.Idx != nil {
		return r.elemAt(st, q.Obj, q.Idx)
	}
	r.access(st, q.Obj, q.Path, t, false, pos)
	return r.load(st, q.Obj, q.Path)
}

func (r *Run) storePtr(st *State, p Value, v Value, t types.Type, pos token.Pos) {
	r.nilCheck(st, p, pos)
	if st.dead {
		return
	}
	q := r.deref(st, p, t)
	if q.Idx != nil {
		r.storeElemEvent(st, q, v, pos)
		r.setElem(st, q.Obj, q.Idx, v)
		return
	}
	r.access(st, q.Obj, q.Path, t, true, pos)
	if !q.Obj.fresh || st.escaped[q.Obj] {
		r.escape(st, v)
	}
	r.store(st, q.Obj, q.Path, v)
}

func (r *Run) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) {
	x, ix := r.val(st, i.X), r.val(st, i.Index).(*Term)
	et := i.Type().Underlying().(*types.Pointer).Elem()
	switch x := x.(type) {
	case *VSlice:
		r.oblige(st, r.c.auto("safety"), "index is in range", tAnd(tLe(tZero, ix), tLt(ix, x.Len)), i.Pos())
		o := r.sliceObj(st, x)
		at := tAdd(x.Off, ix)
		if !o.backing {
			if !isConst(at) {
				f.env[i] = &VPtr{Obj: o, Idx: at, T: et}
				return
			}
			f.env[i] = &VPtr{Obj: o, Path: fmt.Sprintf("[%d]", at.val.Int64()), T: et}
			return
		}
		f.env[i] = &VPtr{Obj: o, Idx: at, T: et}
	default:
		p := r.deref(st, x, i.X.Type().Underlying().(*types.Pointer).Elem())
		if isConst(ix) {
			f.env[i] = &VPtr{Obj: p.Obj, Path: fmt.Sprintf("%s[%d]", p.Path, ix.val.Int64()), T: et}
			return
		}
		if p.Path != "" {
			panic(unsupported("symbolic index in an array field"))
		}
		f.env[i] = &VPtr{Obj: p.Obj, Idx: ix, T: et}
	}
}

func (r *Run) slice(st *State, f *Frame, i *ssa.Slice) {
	x := r.val(st, i.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return r.val(st, v).(*Term)
	}
	switch x := x.(type) {
	case *VSlice:
		lo := get(i.Low, tZero)
		hi := get(i.High, x.Len)
		mx := get(i.Max, x.Cap)
		r.oblige(st, r.c.auto("safety"), "slice bounds are in range", tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, x.Cap)), i.Pos())
		f.env[i] = &VSlice{Arr: x.Arr, Ref: x.Ref, Off: tAdd(x.Off, lo), Len: tSub(hi, lo), Cap: tSub(mx, lo), Elem: x.Elem}
	case *Term: // a string
		if isInterface(i.X.Type()) {
			panic(unsupported("slice of an interface"))
		}
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			a := p.Elem().Underlying().(*types.Array)
			q := r.deref(st, x, p.Elem())
			n := tInt(a.Len())
			lo, hi := get(i.Low, tZero), get(i.High, n)
			f.env[i] = &VSlice{Arr: q.Obj, Ref: q.Obj.addr, Off: lo, Len: tSub(hi, lo), Cap: tSub(n, lo), Elem: a.Elem()}
			return
		}
		lo := get(i.Low, tZero)
		hi := get(i.High, r.strLen(st, x))
		if x.sort == sStr {
			r.oblige(st, r.c.auto("safety"), "slice bounds are in range", tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, r.strLen(st, x))), i.Pos())
			f.env[i] = tOp("str.substr", sStr, x, lo, tSub(hi, lo))
			return
		}
		f.env[i] = tUF("substr", x.sort, x, lo, hi)
	case *VPtr:
		a := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := tInt(a.Len())
		lo, hi := get(i.Low, tZero), get(i.High, n)
		if x.Path != "" {
			panic(unsupported("slice of an array field"))
		}
		f.env[i] = &VSlice{Arr: x.Obj, Ref: x.Obj.addr, Off: lo, Len: tSub(hi, lo), Cap: tSub(n, lo), Elem: a.Elem()}
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
}

func (r *Run) strLen(st *State, s *Term) *Term {
	if s.sort == sStr {
		if s.op == "strlit" {
			return tInt(int64(len(s.name)))
		}
		return tOp("str.len", sInt, s)
	}
	if s == tZero {
		return tZero
	}
	n := tUF("strlen", sInt, s)
	st.assume(tLe(tZero, n))
	st.assume(tEq(tEq(n, tZero), tEq(s, tZero)))
	return n
}

func (r *Run) binop(st *State, i *ssa.BinOp) Value {
	a, b := r.val(st, i.X), r.val(st, i.Y)
	switch i.Op {
	case token.EQL:
		return r.equal(st, a, b)
	case token.NEQ:
		return tNot(r.equal(st, a, b))
	}
	x, y := r.term(st, a), r.term(st, b)
	bt, _ := i.X.Type().Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch i.Op {
		case token.ADD:
			if x.sort == sStr {
				return tOp("str.++", sStr, x, y)
			}
			t := tUF("concat", sInt, x, y)
			return t
		case token.LSS:
			return strCmp("str.<", x, y)
		case token.LEQ:
			return strCmp("str.<=", x, y)
		case token.GTR:
			return strCmp("str.<", y, x)
		case token.GEQ:
			return strCmp("str.<=", y, x)
		}
	}
	if bt != nil && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		so := sInt
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			so = sBool
		}
		return tUF("float"+i.Op.String(), so, x, y)
	}
	switch i.Op {
	case token.ADD:
		return tAdd(x, y)
	case token.SUB:
		return tSub(x, y)
	case token.MUL:
		return tMul(x, y)
	case token.QUO:
		r.oblige(st, r.c.auto("safety"), "no division by zero", tNot(tEq(y, tZero)), i.Pos())
		return tQuo(x, y)
	case token.REM:
		r.oblige(st, r.c.auto("safety"), "no division by zero", tNot(tEq(y, tZero)), i.Pos())
		return tRem(x, y)
	case token.LSS:
		return tLt(x, y)
	case token.LEQ:
		return tLe(x, y)
	case token.GTR:
		return tLt(y, x)
	case token.GEQ:
		return tLe(y, x)
	}
	return tUF("op"+i.Op.String(), r.sortOf(i.Type()), x, y)
}

func strCmp(op string, x, y *Term) *Term {
	if x.sort == sStr {
		return tOp(op, sBool, x, y)
	}
	return tUF(op, sBool, x, y)
}

func (r *Run) convert(st *State, i *ssa.Convert) Value {
	x := r.val(st, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return x // machine integers are treated as mathematical
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
	}
	t := r.term(st, x)
	v := r.build(st, i.Type(), "convert", false, func(n, so string) *Term {
		return tUF("convert:"+typeKey(i.X.Type())+">"+typeKey(i.Type())+":"+n, so, t)
	})
	if ok2 && tb.Kind() == types.UnsafePointer || ok1 && fb.Kind() == types.UnsafePointer {
		if c, ok := v.(*Term); ok && c.sort == sInt && t.sort == sInt {
			if nonNil(x) {
				st.assume(tLt(tZero, c))
			} else {
				st.assume(tEq(tEq(t, tZero), tEq(c, tZero)))
			}
		}
	}
	return v
}

func (r *Run) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) {
	x := r.val(st, i.X)
	okv := func(v Value, ok *Term) {
		if i.CommaOk {
			f.env[i] = VTuple{v, ok}
		} else {
			f.env[i] = v
		}
	}
	switch x := x.(type) {
	case *VIface:
		match := false
		var v Value
		if isInterface(i.AssertedType) {
			match = types.Implements(x.T, i.AssertedType.Underlying().(*types.Interface))
			v = x
		} else {
			match = types.Identical(x.T, i.AssertedType)
			v = x.V
		}
		if match {
			okv(v, tTrue)
			return
		}
		if i.CommaOk {
			okv(r.zero(i.AssertedType), tFalse)
			return
		}
		r.oblige(st, r.c.auto("safety"), "type assertion holds", tFalse, i.Pos())
		st.dead = true
	case *Term:
		if isInterface(i.AssertedType) {
			if types.Identical(i.X.Type(), i.AssertedType) || types.AssignableTo(i.X.Type(), i.AssertedType) {
				ok := tNot(tEq(x, tZero))
				if !i.CommaOk {
					r.oblige(st, r.c.auto("safety"), "no nil interface", ok, i.Pos())
					okv(x, ok)
					return
				}
				okv(tIte(ok, x, tZero), ok)
				return
			}
			ok := tAnd(tNot(tEq(x, tZero)), r.isType(x, i.AssertedType))
			if !i.CommaOk {
				r.assumptions["a type assertion to "+typeKey(i.AssertedType)+" holds"] = true
				st.assume(ok)
				okv(x, ok)
				return
			}
			okv(tIte(ok, x, tZero), ok)
			return
		}
		ok := tAnd(tNot(tEq(x, tZero)), r.isType(x, i.AssertedType))
		if !i.CommaOk {
			r.assumptions["a type assertion to "+typeKey(i.AssertedType)+" holds"] = true
			st.assume(ok)
		}
		k := 0
		v := r.build(st, i.AssertedType, "unbox", false, func(n, so string) *Term {
			k++
			return r.unbox(st, x, i.AssertedType, n, so, k-1)
		})
		if _, isP := i.AssertedType.Underlying().(*types.Pointer); isP && !i.CommaOk {
			st.assume(tLt(tZero, v.(*Term)))
		}
		okv(v, ok)
	default:
		panic(unsupported(fmt.Sprintf("type assertion on %T", x)))
	}
}

// isType says if the value in a interface, that is not nil, has a type.
func (r *Run) isType(x *Term, t types.Type) *Term {
	if x.op == "ite" {
		return tIte(x.args[0], r.isType(x.args[1], t), r.isType(x.args[2], t))
	}
	if v, ok := r.ifaces[x.id]; ok {
		if isInterface(t) {
			return tBool(types.Implements(v.T, t.Underlying().(*types.Interface)))
		}
		return tBool(types.Identical(v.T, t))
	}
	return tUF("is:"+typeKey(t), sBool, x)
}

// unbox is the k-th part, named n, of the value of type t in an interface.
func (r *Run) unbox(st *State, x *Term, t types.Type, n, so string, k int) *Term {
	if x.op == "ite" {
		return tIte(x.args[0], r.unbox(st, x.args[1], t, n, so, k), r.unbox(st, x.args[2], t, n, so, k))
	}
	if v, ok := r.ifaces[x.id]; ok && types.Identical(v.T, t) {
		if l := r.leafs(st, v.V); k < len(l) && l[k].sort == so {
			return l[k]
		}
	}
	return tUF("unbox:"+typeKey(t)+n, so, x)
}

// ---- maps: presence and values as arrays, by map reference ----

func (r *Run) mapSorts(m *types.Map) (string, string) { return r.sortOf(m.Key()), r.sortOf(m.Elem()) }

func (r *Run) mapInit(st *State, ref *Term, m *types.Map) {
	k, v := r.mapSorts(m)
	st.mem[memKey("has", ref)] = tConstArr(sArr(k, sBool), tFalse)
	st.mem[memKey("vals", ref)] = tVarArr("novals", sArr(k, v))
}

func tVarArr(n, s string) *Term { return tVar(n+":"+s, s) }

func (r *Run) mapHas(st *State, ref Value, m *types.Map) *Term {
	t := r.term(st, ref)
	if v, ok := st.mem[memKey("has", t)]; ok {
		return v.(*Term)
	}
	k, _ := r.mapSorts(m)
	return tUF("maphas", sArr(k, sBool), t)
}

func (r *Run) mapVals(st *State, ref Value, m *types.Map) *Term {
	t := r.term(st, ref)
	if v, ok := st.mem[memKey("vals", t)]; ok {
		return v.(*Term)
	}
	k, e := r.mapSorts(m)
	return tUF("mapvals", sArr(k, e), t)
}

func (r *Run) lookup(st *State, f *Frame, i *ssa.Lookup) {
	m, ok := i.X.Type().Underlying().(*types.Map)
	x, ix := r.val(st, i.X), r.val(st, i.Index)
	if !ok {
		f.env[i] = tUF("strindex", sInt, r.term(st, x), r.term(st, ix))
		return
	}
	r.mapAccess(st, x, false, i.Pos())
	k := r.term(st, ix)
	has := tSelect(r.mapHas(st, x, m), k)
	if isFlat(m.Elem()) {
		panic(unsupported("map of structs"))
	}
	z, isT := r.zero(m.Elem()).(*Term)
	var v Value
	if isT {
		v = tIte(has, tSelect(r.mapVals(st, x, m), k), z)
	} else {
		v = r.build(st, m.Elem(), "mapval", false, func(n, so string) *Term { return tUF("mapval:"+n, so, r.mapVals(st, x, m), k) })
	}
	if i.CommaOk {
		f.env[i] = VTuple{v, has}
	} else {
		f.env[i] = v
	}
}

func (r *Run) mapUpdate(st *State, i *ssa.MapUpdate) {
	m := i.Map.Type().Underlying().(*types.Map)
	x, k, v := r.val(st, i.Map), r.term(st, r.val(st, i.Key)), r.val(st, i.Value)
	r.nilCheck(st, x, i.Pos())
	r.mapAccess(st, x, true, i.Pos())
	r.mapSet(st, x, m, k, v)
	r.mapEvent(st, "mapset", x, []sval{{v: k, t: m.Key()}, {v: v, t: m.Elem()}}, i.Pos())
}

func (r *Run) mapSet(st *State, x Value, m *types.Map, k *Term, v Value) {
	ref := r.term(st, x).String()
	h, vs := r.mapHas(st, x, m), r.mapVals(st, x, m)
	st.mem["has:"+ref] = tStore(h, k, tTrue)
	st.mem["vals:"+ref] = tStore(vs, k, r.term(st, v))
}

func (r *Run) mapDelete(st *State, x Value, m *types.Map, k *Term) {
	ref := r.term(st, x).String()
	st.mem["has:"+ref] = tStore(r.mapHas(st, x, m), k, tFalse)
	_ = ref
}
