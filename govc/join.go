package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// joinLimit is how many states at one place are kept apart. If there are more of them, states that
// differ in values are joined: such a value is then one or the other, depending on a new constant.
const joinLimit = 4

func (r *Run) joinMany(sts []*State, limit int, soft bool) []*State {
	r.soft = soft
	for len(sts) > limit {
		bi, bj, best := -1, -1, 1<<30
		for i := range sts {
			for j := i + 1; j < len(sts); j++ {
				d := r.distance(sts[i], sts[j])
				if d >= 0 && d < best {
					bi, bj, best = i, j, d
				}
			}
		}
		if bi < 0 {
			return sts
		}
		m := r.join(sts[bi], sts[bj])
		if m == nil {
			panic("join")
		}
		var out []*State
		for k, s := range sts {
			if k == bi {
				out = append(out, m)
			} else if k != bj {
				out = append(out, s)
			}
		}
		sts = out
	}
	return sts
}

func joinable(a, b Value) bool {
	if same(a, b) {
		return true
	}
	ref := func(v Value) bool {
		switch v := v.(type) {
		case *Term:
			return v.sort == sInt
		case *VIface, *VPtr, *VClosure:
			return true
		}
		return false
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return x.sort == y.sort
		}
		return ref(a) && ref(b)
	case *VIface, *VPtr, *VClosure:
		return ref(b)
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !joinable(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && types.Identical(x.Elem, y.Elem)
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !joinable(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ownRef says if v refers to something that was made here, so that knowing it means more than
// any value does.
func ownRef(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return isConst(v) && v.sort == sInt && v.val.BitLen() > 40 && v.val.Sign() > 0
	case *VPtr, *VIface, *VClosure:
		return true
	case *VSlice:
		return v.Arr != nil
	case *VStruct:
		for _, f := range v.F {
			if ownRef(f) {
				return true
			}
		}
	case VTuple:
		for _, f := range v {
			if ownRef(f) {
				return true
			}
		}
	}
	return false
}

// distance is in how many values two states differ, or -1 if they cannot be joined.
func (r *Run) distance(a, b *State) int {
	no := func(why string, args ...any) int {
		if os.Getenv("GOVC_TRACE") == "join" {
			fmt.Fprintf(os.Stderr, "cannot join: "+why+"\n", args...)
		}
		return -1
	}
	n := 0
	val := func(x, y Value) bool {
		if same(x, y) {
			return true
		}
		n++
		return joinable(x, y) && !(r.soft && (ownRef(x) || ownRef(y)))
	}
	if len(a.frames) != len(b.frames) || len(a.live) != len(b.live) || a.progress != b.progress {
		return no("shape %v %v", a.progress, b.progress)
	}
	for k := range a.live {
		if a.live[k] != b.live[k] {
			return no("live")
		}
	}
	if a.ret != nil || b.ret != nil {
		if a.ret == nil || b.ret == nil || !val(a.ret, b.ret) {
			return no("ret %T %T", a.ret, b.ret)
		}
	}
	if len(a.held) != len(b.held) || len(a.frozen) != len(b.frozen) || len(a.quiet) != len(b.quiet) {
		return no("held")
	}
	for k, v := range a.held {
		if b.held[k] != v {
			return no("held")
		}
	}
	for k := range a.frozen {
		if !b.frozen[k] {
			return no("frozen")
		}
	}
	for k := range a.quiet {
		if !b.quiet[k] {
			return no("quiet")
		}
	}
	if len(a.ghosts) != len(b.ghosts) {
		return no("ghosts")
	}
	if r.keepLedger > 0 {
		for i := range r.c.balanced {
			if k := balKey(i); r.led(a, k) != r.led(b, k) {
				return no("ledger")
			}
		}
	}
	for k, v := range a.ghosts {
		w, ok := b.ghosts[k]
		if !ok || !val(v, w) {
			return no("ghost %s", k)
		}
	}
	mem := func(x, y *State) string {
		for k, v := range x.mem {
			w, ok := y.mem[k]
			if !ok {
				if _, isTerm := v.(*Term); isTerm && (strings.HasPrefix(k, "ended:") || strings.HasPrefix(k, "cancelled:") || strings.HasPrefix(k, "ctxparent:")) {
					n++
					continue
				}
				if strings.HasPrefix(k, "ginit:") || strings.HasPrefix(k, "fact:") {
					continue
				}
				return k
			}
			if !val(v, w) {
				return k
			}
		}
		return ""
	}
	if k := mem(a, b); k != "" {
		return no("mem %s", k)
	}
	if k := mem(b, a); k != "" {
		return no("mem %s", k)
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.block != g.block || f.ip != g.ip || len(f.defers) != len(g.defers) || len(f.loops) != len(g.loops) {
			return no("frame %s", f.fn.Name())
		}
		for k := range f.loops {
			if f.loops[k] != g.loops[k] {
				return no("loops")
			}
		}
		for k := range f.defers {
			if f.defers[k].pos != g.defers[k].pos || !sameList(f.defers[k].args, g.defers[k].args) || !same(f.defers[k].fn, g.defers[k].fn) {
				return no("defers")
			}
		}
		for v := range r.P.info(f.fn).live[f.block] {
			x, ok1 := f.env[v]
			y, ok2 := g.env[v]
			if ok1 != ok2 || ok1 && !val(x, y) {
				return no("%s of %s: %T %T", v.Name(), f.fn.Name(), x, y)
			}
		}
	}
	ra, rb := r.reachable(a), r.reachable(b)
	for o := range ra {
		if rb[o] && a.escaped[o] != b.escaped[o] {
			return no("escape of %s", o)
		}
	}
	cells := func(x, y *State) string {
		for k, v := range x.cells {
			o := r.objs[k.obj]
			if o.fresh && !(ra[o] && rb[o]) || strings.HasPrefix(k.path, "@") {
				continue
			}
			w, ok := y.cells[k]
			if !ok {
				if k.path == "[]" {
					w = r.content(y, o)
				} else {
					w = r.load(y, o, k.path)
				}
			}
			if !val(v, w) {
				return fmt.Sprintf("%s%s", o, k.path)
			}
		}
		return ""
	}
	if k := cells(a, b); k != "" {
		return no("cell %s", k)
	}
	if k := cells(b, a); k != "" {
		return no("cell %s", k)
	}
	return n
}

// join makes one state of two that distance says can be joined.
func (r *Run) join(a, b *State) *State {
	ra, rb := r.reachable(a), r.reachable(b)
	x, y := a.pc, b.pc
	var sa, sb []*Term
	for x != y {
		if y == nil || x != nil && x.id > y.id {
			sa = append(sa, x.t)
			x = x.parent
		} else {
			sb = append(sb, y.t)
			y = y.parent
		}
	}
	sel := tFresh("join", sBool)
	// what is assumed while values are converted to terms holds for both
	var conv []*Term
	since := func(st *State, pc *pcNode) (out []*Term) {
		for n := st.pc; n != pc; n = n.parent {
			out = append(out, n.t)
		}
		return
	}
	val := func(v, w Value) Value {
		pc := a.pc
		res := r.ite(a, sel, v, w)
		conv = append(conv, since(a, pc)...)
		return res
	}

	if a.ret != nil {
		a.ret = val(a.ret, b.ret)
	}
	for k, v := range a.ghosts {
		a.ghosts[k] = val(v, b.ghosts[k])
	}
	for k, v := range b.ledger {
		if a.ledger[k] == nil {
			a.ledger[k] = tIte(sel, tZero, v)
		}
	}
	for k, v := range a.ledger {
		w := b.ledger[k]
		if w == nil {
			w = tZero
		}
		if v != w {
			a.ledger[k] = tIte(sel, v, w)
		}
	}
	for k, v := range b.mem {
		if _, ok := a.mem[k]; !ok {
			switch {
			case strings.HasPrefix(k, "cancelled:"):
				a.mem[k] = tFresh("cancelled", sBool)
			case strings.HasPrefix(k, "ended:"), strings.HasPrefix(k, "ctxparent:"):
				a.mem[k] = v // only exists there
			}
		}
	}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok {
			if strings.HasPrefix(k, "ginit:") || strings.HasPrefix(k, "fact:") {
				delete(a.mem, k)
			}
			continue
		}
		a.mem[k] = val(v, w)
	}
	for i, f := range a.frames {
		g := b.frames[i]
		live := r.P.info(f.fn).live[f.block]
		env := map[ssa.Value]Value{}
		for v := range live {
			if p, ok := f.env[v]; ok {
				env[v] = val(p, g.env[v])
			}
		}
		f.env = env
	}
	for k := range a.cells {
		if strings.HasPrefix(k.path, "@") && rb[r.objs[k.obj]] {
			if w, ok := b.cells[k]; !ok || !same(w, a.cells[k]) {
				delete(a.cells, k)
			}
		}
	}
	set := map[cellKey]bool{}
	for k := range a.cells {
		set[k] = true
	}
	for k := range b.cells {
		set[k] = true
	}
	for k := range set {
		o := r.objs[k.obj]
		if o.fresh && !(ra[o] && rb[o]) {
			// only exists in one of the states
			if v, ok := b.cells[k]; ok && rb[o] {
				a.cells[k] = v
			}
			continue
		}
		if strings.HasPrefix(k.path, "@") {
			continue
		}
		get := func(s *State, to *[]*Term) Value {
			if v, ok := s.cells[k]; ok {
				return v
			}
			if k.path == "[]" {
				return r.content(s, o)
			}
			pc := s.pc
			v := r.load(s, o, k.path)
			*to = append(*to, since(s, pc)...)
			return v
		}
		a.cells[k] = val(get(a, &sa), get(b, &sb))
	}

	inB := map[int]bool{}
	for _, t := range sb {
		inB[t.id] = true
	}
	inA := map[int]bool{}
	var both, onlyA, onlyB []*Term
	for _, t := range sa {
		inA[t.id] = true
		if inB[t.id] || b.facts[t.id] {
			both = append(both, t)
		} else {
			onlyA = append(onlyA, t)
		}
	}
	for _, t := range sb {
		if !inA[t.id] {
			onlyB = append(onlyB, t)
		}
	}
	a.pc = x
	for _, t := range sa {
		delete(a.facts, t.id)
	}
	for _, t := range conv {
		delete(a.facts, t.id)
	}
	for i := len(both) - 1; i >= 0; i-- {
		a.assume(both[i])
	}
	for _, t := range conv {
		a.assume(t)
	}
	keep := r.relevant(x, a, b)
	a.assume(tImp(sel, tAnd(keep(onlyA)...)))
	a.assume(tImp(tNot(sel), tAnd(keep(onlyB)...)))
	for k := range b.acc {
		a.acc[k] = true
	}
	for o := range b.escaped {
		a.escaped[o] = true
	}
	return a
}

// splitOperand makes states in which the operands that ins looks into are not one or the other
// of two values. It returns nil if that is so already.
func (r *Run) splitOperand(st *State, ins ssa.Instruction) []*State {
	var vs []ssa.Value
	switch i := ins.(type) {
	case *ssa.FieldAddr:
		vs = []ssa.Value{i.X}
	case *ssa.IndexAddr:
		vs = []ssa.Value{i.X}
	case *ssa.UnOp:
		if i.Op != token.MUL && i.Op != token.ARROW {
			return nil
		}
		vs = []ssa.Value{i.X}
	case *ssa.Store:
		vs = []ssa.Value{i.Addr}
	case *ssa.TypeAssert:
		vs = []ssa.Value{i.X}
	case *ssa.Slice:
		vs = []ssa.Value{i.X}
	case *ssa.Lookup:
		vs = []ssa.Value{i.X}
	case *ssa.MapUpdate:
		vs = []ssa.Value{i.Map}
	case *ssa.Range:
		vs = []ssa.Value{i.X}
	case *ssa.Send:
		vs = []ssa.Value{i.Chan}
	case *ssa.Select:
		for _, s := range i.States {
			vs = append(vs, s.Chan)
		}
	case *ssa.Go:
		vs = r.callOperands(i.Common())
	case *ssa.Defer:
		vs = r.callOperands(i.Common())
	case *ssa.Call:
		vs = r.callOperands(i.Common())
	}
	f := st.top()
	for _, v := range vs {
		x, ok := f.env[v]
		if !ok {
			continue
		}
		var c *Term
		switch y := x.(type) {
		case *Term:
			if y.op == "ite" && y.sort == sInt && isRefLike(v.Type()) {
				c = y.args[0]
			}
		case *VSlice:
			if y.Arr == nil && y.Ref.op == "ite" {
				c = y.Ref.args[0]
			}
		}
		if c == nil {
			continue
		}
		a, b := r.fork(st, c)
		var out []*State
		for k, s := range []*State{a, b} {
			if s == nil || s.dead {
				continue
			}
			s.top().env[v] = arm(x, c, 1+k)
			out = append(out, s)
		}
		return out
	}
	return nil
}

// splitContexts makes states in which the Contexts in local variables are not one or the other of two: a loop
// that looks at its Context again and again has other invariants for each of them.
func (r *Run) splitContexts(sts []*State) []*State {
	var out []*State
	for len(sts) > 0 {
		st := sts[0]
		sts = sts[1:]
		f := st.top()
		var c *Term
		var which ssa.Value
		for v := range r.P.info(f.fn).live[f.block] {
			t, ok := f.env[v].(*Term)
			if ok && t.op == "ite" && types.TypeString(v.Type(), nil) == "context.Context" && (which == nil || v.Pos() < which.Pos() || v.Pos() == which.Pos() && v.Name() < which.Name()) {
				c, which = t.args[0], v
			}
		}
		if c == nil {
			out = append(out, st)
			continue
		}
		x := f.env[which]
		a, b := r.fork(st, c)
		for k, s := range []*State{a, b} {
			if s != nil && !s.dead {
				s.top().env[which] = arm(x, c, 1+k)
				sts = append(sts, s)
			}
		}
	}
	return out
}

func (r *Run) callOperands(c *ssa.CallCommon) []ssa.Value {
	vs := []ssa.Value{c.Value}
	if c.IsInvoke() {
		return append(vs, c.Args...)
	}
	switch x := c.Value.(type) {
	case *ssa.Builtin:
		if x.Name() != "len" && x.Name() != "cap" {
			vs = append(vs, c.Args...)
		}
	case *ssa.Function:
		if !r.P.inModule(x) {
			vs = append(vs, c.Args...)
		}
	}
	return vs
}

// arm is the k-th choice in v if that depends on condition c.
func arm(v Value, c *Term, k int) Value {
	t := func(t *Term) *Term {
		if t.op == "ite" && t.args[0] == c {
			return t.args[k]
		}
		return t
	}
	switch v := v.(type) {
	case *Term:
		return t(v)
	case *VSlice:
		return &VSlice{Ref: t(v.Ref), Off: t(v.Off), Len: t(v.Len), Cap: t(v.Cap), Elem: v.Elem}
	}
	return v
}

// relevant makes a function that drops the conditions that are only about values that came up after
// pc and that are not part of the states any more.
func (r *Run) relevant(pc *pcNode, sts ...*State) func([]*Term) []*Term {
	live := map[int]bool{} // constants
	seen := map[int]bool{}
	mark := 0
	if pc != nil {
		mark = pc.last
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t.id] || t.id <= mark {
			return
		}
		seen[t.id] = true
		if _, ok := freshVars.Load(t.id); ok {
			live[t.id] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	done := false
	collect := func() {
		done = true
		for _, st := range sts {
			r.visitState(st, visit)
		}
	}
	return func(ts []*Term) []*Term {
		var out []*Term
		keep := make([]bool, len(ts))
		vars := make([]map[int]bool, len(ts))
		for i, t := range ts {
			vars[i] = map[int]bool{}
			keep[i] = newVars(t, mark, map[int]bool{}, vars[i]) || len(vars[i]) == 0
			if keep[i] {
				for v := range vars[i] {
					live[v] = true
				}
			}
			if !keep[i] && !done {
				collect()
			}
		}
		for again := true; again; {
			again = false
			for i := range ts {
				if keep[i] {
					continue
				}
				for v := range vars[i] {
					if live[v] {
						keep[i] = true
					}
				}
				if keep[i] {
					again = true
					for v := range vars[i] {
						live[v] = true
					}
				}
			}
		}
		for i, t := range ts {
			if keep[i] {
				out = append(out, t)
			} else if os.Getenv("GOVC_TRACE") == "drop" {
				fmt.Fprintf(os.Stderr, "dropped: %s\n", t)
			}
		}
		return out
	}
}

// newVars collects the constants that are newer than mark and says if there are others.
func newVars(t *Term, mark int, seen, out map[int]bool) bool {
	if t.id <= mark {
		return t.hasVar
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if _, ok := freshVars.Load(t.id); ok {
		out[t.id] = true
	}
	old := false
	for _, a := range t.args {
		if newVars(a, mark, seen, out) {
			old = true
		}
	}
	return old
}

// visitState calls f for all terms in what can still be accessed in st.
func (r *Run) visitState(st *State, f func(*Term)) {
	ra := r.reachable(st)
	var val func(v Value)
	val = func(v Value) {
		switch v := v.(type) {
		case *Term:
			f(v)
		case *VSlice:
			f(v.Ref)
			f(v.Off)
			f(v.Len)
			f(v.Cap)
		case *VStruct:
			for _, x := range v.F {
				val(x)
			}
		case VTuple:
			for _, x := range v {
				val(x)
			}
		case *VIface:
			val(v.V)
		case *VClosure:
			for _, x := range v.Bind {
				val(x)
			}
		case *VPtr:
			if v.Obj != nil {
				f(v.Obj.addr)
			}
			if v.Idx != nil {
				f(v.Idx)
			}
		}
	}
	if st.ret != nil {
		val(st.ret)
	}
	for _, v := range st.ghosts {
		val(v)
	}
	for _, v := range st.ledger {
		f(v)
	}
	for k, v := range st.mem {
		val(v)
		if t, ok := memTerms.Load(k); ok {
			f(t.(*Term))
		}
	}
	for _, v := range st.spec {
		val(v.v)
	}
	for _, fr := range st.frames {
		live := r.P.info(fr.fn).live[fr.block]
		for v := range live {
			if x, ok := fr.env[v]; ok {
				val(x)
			}
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				val(a)
			}
			if d.fn != nil {
				val(d.fn)
			}
		}
		for _, l := range fr.loops {
			f(l.iter)
		}
	}
	for k, v := range st.cells {
		o := r.objs[k.obj]
		if o.fresh && !ra[o] && !st.escaped[o] {
			continue
		}
		f(o.addr)
		val(v)
	}
}
