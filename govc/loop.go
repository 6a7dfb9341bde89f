package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop.
type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	loops map[*ssa.BasicBlock]*loop
	rpo   map[*ssa.BasicBlock]int
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

var (
	infoMu sync.Mutex
	infos  = map[*ssa.Function]*fnInfo{}
)

func (P *Program) info(fn *ssa.Function) *fnInfo {
	infoMu.Lock()
	defer infoMu.Unlock()
	if i, ok := infos[fn]; ok {
		return i
	}
	in := &fnInfo{loops: map[*ssa.BasicBlock]*loop{}, rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := in.loops[h]
				if l == nil {
					l = &loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					in.loops[h] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	// reverse post order without back edges
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			dfs(b)
		}
	}
	for i, b := range post {
		in.rpo[b] = len(post) - i
	}
	// values that are used in a block that can be reached
	for _, b := range fn.Blocks {
		reach := map[*ssa.BasicBlock]bool{}
		var r func(x *ssa.BasicBlock)
		r = func(x *ssa.BasicBlock) {
			if reach[x] {
				return
			}
			reach[x] = true
			for _, s := range x.Succs {
				r(s)
			}
		}
		r(b)
		lv := map[ssa.Value]bool{}
		for x := range reach {
			for _, ins := range x.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					for k, e := range p.Edges {
						if reach[x.Preds[k]] {
							lv[e] = true
						}
					}
					if x == b {
						lv[p] = true
					}
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o != nil {
						lv[*o] = true
					}
				}
			}
		}
		in.live[b] = lv
	}
	infos[fn] = in
	return in
}

func (P *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loop { return P.info(fn).loops[b] }

// loopCtx is a loop that is being executed.
type loopCtx struct {
	loop      *loop
	inferring bool
	backs     []*State
	depth     int
	bounds    map[int]*Term
	iter      *Term
	start     int // objects with a higher number were made in the loop
	node      *loopNode
	since     int // and terms that depend on later constants
}

// loc is a place whose value can change in a loop.
type loc struct {
	kind string // phi, cell, ghost, ledger, mem
	phi  *ssa.Phi
	ck   cellKey
	name string
}

func (l loc) key(r *Run) string {
	switch l.kind {
	case "phi":
		return "phi:" + l.phi.Name() + ":" + l.phi.Comment
	case "cell":
		return fmt.Sprintf("cell:%s:%d%s", r.objs[l.ck.obj].name, l.ck.obj, l.ck.path)
	}
	return l.kind + ":" + l.name
}

func (r *Run) get(st *State, depth int, l loc) Value {
	switch l.kind {
	case "phi":
		return st.frames[depth].env[l.phi]
	case "cell":
		v, ok := st.cells[l.ck]
		if ok {
			return v
		}
		o := r.objs[l.ck.obj]
		if l.ck.path == "[]" {
			return r.content(st, o)
		}
		if strings.HasPrefix(l.ck.path, "@") {
			return nil
		}
		return r.load(st, o, l.ck.path)
	case "ghost":
		return st.ghosts[l.name]
	case "ledger":
		return r.led(st, l.name)
	case "mem":
		return st.mem[l.name]
	}
	return nil
}

func (r *Run) set(st *State, depth int, l loc, v Value) {
	switch l.kind {
	case "phi":
		st.frames[depth].env[l.phi] = v
	case "cell":
		st.cells[l.ck] = v
	case "ghost":
		st.ghosts[l.name] = v
	case "ledger":
		st.ledger[l.name] = v.(*Term)
	case "mem":
		if v == nil {
			delete(st.mem, l.name)
			return
		}
		st.mem[l.name] = v
	}
}

// freshLike is an unknown value of the kind of v.
func (r *Run) freshLike(st *State, l loc, v Value) Value {
	var t types.Type
	switch l.kind {
	case "phi":
		t = l.phi.Type()
	case "cell":
		o := r.objs[l.ck.obj]
		if l.ck.path == "[]" {
			return tFresh("elems", v.(*Term).sort)
		}
		t = typeAt(o.typ, l.ck.path)
	}
	if t != nil {
		return r.symbolic(st, t, "loop."+l.key(r), false)
	}
	switch v := v.(type) {
	case *Term:
		return tFresh("loop."+l.key(r), v.sort)
	case *VStruct:
		return r.symbolic(st, v.T, "loop."+l.key(r), false)
	case *VSlice:
		return r.symbolic(st, types.NewSlice(v.Elem), "loop."+l.key(r), false)
	}
	x := tFresh("loop."+l.key(r), sInt)
	st.assume(tLe(tZero, x))
	return x
}

// cand is a candidate for a loop invariant.
type cand struct {
	key  string
	eval func(st *State, iter *Term) *Term
}

func (r *Run) backEdge(st *State, l *loopCtx) []*State {
	if l.inferring {
		l.backs = append(l.backs, st)
		return nil
	}
	// the invariants have been proved
	if r.infer == 0 {
		r.progressCheck(st, l)
	}
	return nil
}

// numeric says if a leaf of l is a number (and not a reference).
func (r *Run) numeric(l loc) bool {
	switch l.kind {
	case "ghost":
		return !r.c.refGhosts()[l.name]
	case "ledger":
		return true
	case "phi":
		b, ok := l.phi.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	case "cell":
		o := r.objs[l.ck.obj]
		if l.ck.path == "[]" || strings.HasPrefix(l.ck.path, "@") {
			return false
		}
		t := typeAt(o.typ, l.ck.path)
		if pkgPathOf(t) == "sync/atomic" {
			return namedName(t) != "Pointer" && namedName(t) != "Value" && namedName(t) != "Bool"
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	return false
}

// loopNode remembers what was found out about a loop, for when it is entered again in the next round of a loop
// that it is in. There it is a start only: what is modified is looked for again, and all invariants are checked again.
type loopNode struct {
	kids    map[string]*loopNode
	count   map[string]int
	mods    []loc
	dropped map[string]bool
}

func (r *Run) loopNode(st *State, l *loop) *loopNode {
	if r.loops == nil {
		r.loops = &loopNode{}
	}
	p := r.loops
	if p.kids == nil {
		p.kids = map[string]*loopNode{}
	}
	if p.count == nil {
		p.count = map[string]int{}
	}
	var sb strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "%s.%d.%d/", f.fn.Name(), f.block.Index, len(f.defers))
	}
	fmt.Fprintf(&sb, "%d", l.header.Index)
	k := sb.String()
	p.count[k]++
	k += fmt.Sprintf("#%d", p.count[k])
	n := p.kids[k]
	if n == nil {
		n = &loopNode{}
		// in an iteration after the invariants of a loop were found
		for _, f := range st.frames {
			for _, c := range f.loops {
				if c.node != nil && c.node.kids[k] != nil {
					o := c.node.kids[k]
					n = &loopNode{mods: o.mods, dropped: o.dropped, kids: o.kids}
				}
			}
		}
		p.kids[k] = n
	}
	return n
}

// forget drops the objects that were made while a round of a loop was explored.
func (r *Run) forget(startObj int) {
	for id := startObj + 1; id <= r.objSeq; id++ {
		if o := r.objs[id]; o != nil {
			delete(r.objs, id)
			delete(r.byAddr, o.addr.id)
		}
	}
	r.objSeq = startObj
}

func (r *Run) enterLoop(st *State, l *loop) []*State {
	depth := len(st.frames) - 1
	fr := st.top()
	var phis []loc
	for _, x := range l.header.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, loc{kind: "phi", phi: p})
	}
	mods := append([]loc(nil), phis...)
	inMods := map[string]bool{}
	for _, m := range mods {
		inMods[m.key(r)] = true
	}
	base := st.clone()
	startObj := r.objSeq
	startTerm := tFresh("loopentry", sInt).id
	dropped := map[string]bool{}
	bounds := map[int]*Term{}
	var addLive []*child
	addAcc := map[access]bool{}
	addEsc, addFrozen := map[*Obj]bool{}, map[*Obj]bool{}
	loopName := fmt.Sprintf("%s.%s", funcName(fr.fn), l.header.Comment)

	// header makes the state at the loop header after any number of iterations.
	header := func(inferring bool) (*State, *loopCtx, []cand) {
		h := base.clone()
		ctx := &loopCtx{loop: l, inferring: inferring, depth: depth, bounds: bounds, start: startObj, since: startTerm}
		entry := map[string]Value{}
		for _, m := range mods {
			if m.kind == "epoch" {
				r.newEpoch(h, r.epochObj[m.name], m.ck.path, m.name)
				delete(h.cells, m.ck)
			}
		}
		for _, m := range mods {
			if m.kind == "epoch" {
				continue
			}
			if c, ok := r.ctxs[m.name]; ok && m.kind == "mem" && base.mem[m.name] == nil {
				base.mem[m.name] = tUF("cancelledatentry", sBool, c)
				h.mem[m.name] = base.mem[m.name]
			}
			e := r.get(h, depth, m)
			entry[m.key(r)] = e
		}
		for _, m := range mods {
			e := entry[m.key(r)]
			if m.kind == "epoch" {
				continue
			}
			if m.kind == "cell" && strings.HasPrefix(m.ck.path, "@") {
				delete(h.cells, m.ck)
				continue
			}
			if e == nil && m.kind == "mem" {
				// set in the loop only
				v := memSample[m.name]
				if t, ok := v.(*Term); ok {
					h.mem[m.name] = tFresh("loop."+m.name, t.sort)
				}
				continue
			}
			ref := false
			switch e := e.(type) {
			case *Term:
				ref = e.sort == sInt
			case *VPtr:
				ref = e.Idx == nil
			}
			if ref && (m.kind == "cell" || m.kind == "phi") && !r.numeric(m) && !dropped[m.key(r)+"/0==entry"] {
				// a reference that does not change, as far as is known; the candidate for it is checked as all others
				continue
			}
			r.set(h, depth, m, r.freshLike(h, m, e))
		}
		ctx.iter = tFresh("iterations", sInt)
		h.assume(tLe(tZero, ctx.iter))
		for _, c := range addLive {
			h.live = appendChild(h.live, c)
		}
		for a := range addAcc {
			h.acc[a] = true
		}
		for o := range addEsc {
			r.escapeObj(h, o)
		}
		for o := range addFrozen {
			h.frozen[o] = true
		}
		cs := r.candidates(base, h, depth, mods, entry, bounds, ctx)
		var keep []cand
		for _, c := range cs {
			if dropped[c.key] {
				continue
			}
			// it has to hold on entry
			g := c.eval(base, tZero)
			if g != tTrue && !base.must(g) {
				traceDrop(loopName, c.key, "entry", g)
				dropped[c.key] = true
				continue
			}
			keep = append(keep, c)
		}
		for _, c := range keep {
			h.assume(c.eval(h, ctx.iter))
		}
		h.progress = false
		h.top().loops = append(h.top().loops, ctx)
		return h, ctx, keep
	}
	rounds := 0
	node, parent := r.loopNode(st, l), r.loops
	for _, m := range node.mods {
		if m.kind == "cell" && r.objs[m.ck.obj] == nil {
			continue
		}
		k := m.key(r)
		ok := !inMods[k]
		switch m.kind {
		case "cell":
			ok = ok && base.cells[m.ck] != nil && !r.madeIn(m.ck.obj, startObj, startTerm)
		case "ghost":
			ok = ok && base.ghosts[m.name] != nil
		case "mem":
			ok = ok && base.mem[m.name] != nil
		case "phi":
			ok = false
		}
		if ok {
			inMods[k] = true
			mods = append(mods, m)
		}
	}
	for k := range node.dropped {
		dropped[k] = true
	}
	for {
		r.forget(startObj)
		rounds++
		if rounds > 60 {
			panic(unsupported("no loop invariant found for " + loopName))
		}
		h, ctx, cs := header(true)
		if traceOn {
			fmt.Fprintf(os.Stderr, "%*s= loop %s round %d mods %d cands %d\n", depth, "", loopName, rounds, len(mods), len(cs))
		}
		hs := h.clone()
		nb := len(bounds)
		r.infer++
		node.count = map[string]int{}
		r.loops = node
		r.explore([]*State{h})
		r.loops = parent
		r.infer--
		again := len(bounds) != nb
		// what else is modified
		for _, b := range ctx.backs {
			for _, m := range r.modified(hs, b, depth, startObj, startTerm) {
				k := m.key(r)
				if !inMods[k] {
					inMods[k] = true
					if m.kind == "mem" {
						memSampleMu.Lock()
						memSample[m.name] = b.mem[m.name]
						memSampleMu.Unlock()
					}
					mods = append(mods, m)
					again = true
				}
			}
			for _, c := range b.live {
				found := false
				for _, o := range hs.live {
					if o == c || o.same(c) {
						found = true
					}
				}
				n := c.restrict(r, startObj, startTerm)
				for _, o := range addLive {
					if o.same(n) {
						found = true
					}
				}
				if !found {
					addLive = append(addLive, n)
					again = true
				}
			}
			for a := range b.acc {
				if !hs.acc[a] && !r.madeIn(a.cell.obj, startObj, startTerm) {
					addAcc[a] = true
					hs.acc[a] = true
				}
			}
			for o := range b.escaped {
				if !hs.escaped[o] && !r.madeIn(o.id, startObj, startTerm) {
					addEsc[o] = true
					again = true
				}
			}
			for o := range b.frozen {
				if !hs.frozen[o] && !r.madeIn(o.id, startObj, startTerm) {
					addFrozen[o] = true
					again = true
				}
			}
			if len(b.held) != len(hs.held) {
				panic(unsupported("a loop changes which locks are held"))
			}
		}
		if again {
			if rounds > 55 && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "unstable loop", loopName, len(mods), len(bounds), nb, len(addLive), len(addEsc), len(addFrozen))
				for _, c := range addLive {
					fmt.Fprintf(os.Stderr, "  %s %v\n", c.what, c.accesses)
				}
			}
			continue
		}
		drop := r.check(ctx, cs, dropped)
		if !drop {
			break
		}
	}
	node.mods, node.dropped = mods, dropped
	r.forget(startObj)
	h, ctx, cs := header(false)
	ctx.node = node
	if r.infer == 0 {
		var ks []string
		for _, c := range cs {
			ks = append(ks, c.key)
		}
		sort.Strings(ks)
		r.loopsSeen[loopName] = strings.Join(ks, "; ")
	}
	return []*State{h}
}

var (
	memSampleMu sync.Mutex
	memSample   = map[string]Value{}
)

func appendChild(l []*child, c *child) []*child {
	for _, o := range l {
		if o == c {
			return l
		}
	}
	return append(append([]*child(nil), l...), c)
}

func (c *child) same(o *child) bool {
	if c == o {
		return true
	}
	if c.what != o.what || len(c.accesses) != len(o.accesses) {
		return false
	}
	for a := range c.accesses {
		if !o.accesses[a] {
			return false
		}
	}
	return true
}

// restrict drops what is private to the iteration that started the child.
func (c *child) restrict(r *Run, startObj, since int) *child {
	n := &child{what: c.what, accesses: map[access]bool{}, joins: c.joins}
	for a := range c.accesses {
		if !r.madeIn(a.cell.obj, startObj, since) {
			n.accesses[a] = true
		}
	}
	return n
}

// check drops the candidates that are not preserved by the loop body.
func (r *Run) check(ctx *loopCtx, cs []cand, dropped map[string]bool) bool {
	any := false
	next := tAdd(ctx.iter, tOne)
	loopName := ctx.loop.header.Comment
	for _, b := range ctx.backs {
		var rest []cand
		for _, c := range cs {
			if !dropped[c.key] {
				rest = append(rest, c)
			}
		}
		for len(rest) > 0 {
			var gs []*Term
			for _, c := range rest {
				gs = append(gs, c.eval(b, next))
			}
			all := tAnd(gs...)
			if all == tTrue {
				break
			}
			res, vals := r.solver.query(b.pc, tNot(all), gs)
			if res == "unsat" {
				break
			}
			n := len(rest)
			if res == "sat" {
				var keep []cand
				for i, c := range rest {
					if i < len(vals) && vals[i] == "false" {
						traceDrop(loopName, c.key, "model", gs[i])
						dropped[c.key] = true
						continue
					}
					keep = append(keep, c)
				}
				rest = keep
			}
			if len(rest) == n {
				// not decided by the model: one at a time
				var keep []cand
				for i, c := range rest {
					if r.solver.prove(b.pc, gs[i], false) == "proved" {
						keep = append(keep, c)
					} else {
						traceDrop(loopName, c.key, "not proved", gs[i])
						dropped[c.key] = true
					}
				}
				if len(keep) == n {
					break
				}
				rest = keep
			}
			any = true
		}
	}
	return any
}

func sameEpoch(a, b *State, k string) bool {
	x, y := a.mem[k], b.mem[k]
	return x == nil && y == nil || x != nil && y != nil && same(x, y)
}

var dropFilter = os.Getenv("GOVC_DROP")

func traceDrop(loop, key, why string, g *Term) {
	if dropFilter != "" && strings.Contains(key, dropFilter) {
		fmt.Fprintf(os.Stderr, "drop %s %s: %s: %s\n", loop, key, why, g)
	}
}

// modified lists the places that differ at the end of an iteration.
const symBase = 1 << 30

// isAtomic says if what is stored at a place has no influence on what is loaded later, as other goroutines
// can change it.
func (r *Run) isAtomic(o *Obj, path string) bool {
	return !o.backing && !strings.HasPrefix(path, "@") && pkgPathOf(typeAt(o.typ, path)) == "sync/atomic"
}

// madeIn says if an object only exists in the iteration of a loop that was entered when there were
// startObj objects and since terms.
func (r *Run) madeIn(id, startObj, since int) bool {
	o := r.objs[id]
	if o == nil || o.fresh {
		return id > startObj
	}
	return o.addr.newer(since, map[int]bool{})
}

func (r *Run) modified(h, b *State, depth, startObj, since int) []loc {
	var out []loc
	for k, v := range b.cells {
		if r.madeIn(k.obj, startObj, since) {
			if o := r.objs[k.obj]; o != nil && !o.fresh && !r.isAtomic(o, k.path) && !strings.HasPrefix(k.path, "@") {
				// through a pointer that differs in each iteration
				if e := epochKey(o, k.path); !r.isInitial(o, k.path, v) || !sameEpoch(h, b, e) {
					r.epochObj[e] = o
					out = append(out, loc{kind: "epoch", name: e, ck: cellKey{path: k.path}})
				}
			}
			continue
		}
		w, ok := h.cells[k]
		if !ok {
			o := r.objs[k.obj]
			if !o.fresh && r.isInitial(o, k.path, v) {
				continue
			}
			out = append(out, loc{kind: "cell", ck: k})
			continue
		}
		if !same(v, w) {
			out = append(out, loc{kind: "cell", ck: k})
		}
	}
	for k := range h.cells {
		if !r.madeIn(k.obj, startObj, since) {
			if _, ok := b.cells[k]; !ok {
				out = append(out, loc{kind: "cell", ck: k})
			}
		}
	}
	for k, v := range b.ghosts {
		if !same(v, h.ghosts[k]) {
			out = append(out, loc{kind: "ghost", name: k})
		}
	}
	for k, v := range b.ledger {
		if h.ledger[k] != v && !(v == tZero && h.ledger[k] == nil) {
			out = append(out, loc{kind: "ledger", name: k})
		}
	}
	for k, v := range b.mem {
		if w, ok := h.mem[k]; !ok || !same(v, w) {
			if strings.HasPrefix(k, "ginit:") || strings.HasPrefix(k, "fact:") || strings.HasPrefix(k, "epoch:") {
				continue
			}
			if strings.HasPrefix(k, "once:") && !ok {
				continue
			}
			if !ok && madeAfter(k, since) {
				continue // about something that only exists in this iteration
			}
			out = append(out, loc{kind: "mem", name: k})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key(r) < out[j].key(r) })
	return out
}

// candidates generates what may be invariant.
func (r *Run) candidates(base, h *State, depth int, mods []loc, entry map[string]Value, bounds map[int]*Term, ctx *loopCtx) []cand {
	var out []cand
	type leaf struct {
		l    loc
		i    int
		e    *Term
		key  string
		num  bool
		ghst bool
	}
	var ls []leaf
	for _, m := range mods {
		e := entry[m.key(r)]
		if e == nil {
			continue
		}
		if m.kind == "mem" {
			if _, ok := e.(*Term); !ok {
				continue
			}
		}
		es := r.leafs(base, e)
		cur := r.get(h, depth, m)
		if cur == nil {
			continue
		}
		hs := r.leafs(h, cur)
		if len(es) != len(hs) {
			continue
		}
		for i := range es {
			if es[i].sort != hs[i].sort {
				continue
			}
			num := es[i].sort == sInt && (r.numeric(m) && len(es) == 1 || len(es) == 4 && i > 0 && isSlice(e))
			ls = append(ls, leaf{m, i, es[i], fmt.Sprintf("%s/%d", m.key(r), i), num, m.kind == "ghost" || m.kind == "ledger"})
		}
	}
	get := func(st *State, l leaf) *Term {
		v := r.get(st, depth, l.l)
		x := r.leafs(st, v)
		if l.i >= len(x) {
			return l.e
		}
		return x[l.i]
	}
	add := func(key string, f func(st *State, iter *Term) *Term) { out = append(out, cand{key, f}) }
	for _, l := range ls {
		l := l
		add(l.key+"=="+"entry", func(st *State, it *Term) *Term { return tEq(get(st, l), l.e) })
		if l.e.sort == sBool && l.l.kind == "ghost" {
			add(l.key+" stays true", func(st *State, it *Term) *Term { return tImp(l.e, get(st, l)) })
		}
		if l.num {
			add(l.key+">=entry", func(st *State, it *Term) *Term { return tLe(l.e, get(st, l)) })
			add(l.key+"<=entry", func(st *State, it *Term) *Term { return tLe(get(st, l), l.e) })
			add(l.key+"==entry+n", func(st *State, it *Term) *Term { return tEq(get(st, l), tAdd(l.e, it)) })
			add(l.key+"==entry-n", func(st *State, it *Term) *Term { return tEq(get(st, l), tSub(l.e, it)) })
			if !l.ghst {
				for _, id := range sortedInts(bounds) {
					b := bounds[id]
					add(fmt.Sprintf("%s<=%s", l.key, b), func(st *State, it *Term) *Term { return tLe(get(st, l), b) })
					add(fmt.Sprintf("%s<%s", l.key, b), func(st *State, it *Term) *Term { return tLt(get(st, l), b) })
					add(fmt.Sprintf("%s>=%s", l.key, b), func(st *State, it *Term) *Term { return tLe(b, get(st, l)) })
				}
			}
			if !l.ghst {
				for k, iv := range r.c.invs {
					iv := iv
					if !iv.perInt {
						continue
					}
					add(fmt.Sprintf("inv%d(%s)", k, l.key), func(st *State, it *Term) *Term { return r.evalInv(st, iv, get(st, l), it) })
				}
			}
		} else if l.e.sort == sInt && l.e != tZero && l.i == 0 {
			add(l.key+"!=nil", func(st *State, it *Term) *Term { return tNot(tEq(get(st, l), tZero)) })
		}
	}
	type pair struct{ a, b leaf }
	var maybe []pair
	for i, a := range ls {
		for _, b := range ls[i+1:] {
			a, b := a, b
			if a.e.sort != b.e.sort {
				continue
			}
			if a.num && b.num {
				if !(a.ghst || b.ghst || a.l.kind == "phi" && b.l.kind == "phi") {
					continue
				}
				add(a.key+"-"+b.key+" const", func(st *State, it *Term) *Term {
					return tEq(tSub(get(st, a), get(st, b)), tSub(a.e, b.e))
				})
				add(a.key+"+"+b.key+" const", func(st *State, it *Term) *Term {
					return tEq(tAdd(get(st, a), get(st, b)), tAdd(a.e, b.e))
				})
				continue
			}
			if !a.num && !b.num && a.ghst != b.ghst && a.e.sort == sInt {
				if a.e != b.e && !isConst(a.e) && !isConst(b.e) {
					maybe = append(maybe, pair{a, b})
				}
				add(a.key+"=="+b.key+" later", func(st *State, it *Term) *Term {
					return tOr(tEq(it, tZero), tEq(get(st, a), get(st, b)))
				})
				if r.c.roots {
					add(a.key+" is "+b.key, func(st *State, it *Term) *Term {
						return tEq(ctxRoot(get(st, a)), ctxRoot(get(st, b)))
					})
				}
			}
			if a.e == b.e || (a.e.sort != sBool && base.facts[tEq(a.e, b.e).id]) {
				add(a.key+"=="+b.key, func(st *State, it *Term) *Term { return tEq(get(st, a), get(st, b)) })
			}
		}
	}
	// what is equal although the terms differ
	if len(maybe) > 0 {
		var eqs []*Term
		for _, m := range maybe {
			eqs = append(eqs, tEq(m.a.e, m.b.e))
		}
		if res, vals := r.solver.query(base.pc, tNot(tAnd(eqs...)), eqs); res != "sat" || len(vals) == len(eqs) {
			for i, m := range maybe {
				if res == "sat" && vals[i] != "true" {
					continue
				}
				a, b := m.a, m.b
				add(a.key+"=="+b.key, func(st *State, it *Term) *Term { return tEq(get(st, a), get(st, b)) })
			}
		}
	}
	// what is only true when a Context is cancelled
	for _, b := range ls {
		if !b.ghst || b.e.sort != sBool {
			continue
		}
		for _, g := range ls {
			if g.l.kind != "mem" || !strings.HasPrefix(g.l.name, "cancelled:") {
				continue
			}
			b, g := b, g
			add(b.key+" changed => "+g.key, func(st *State, it *Term) *Term {
				return tImp(tNot(tEq(get(st, b), b.e)), get(st, g))
			})
		}
	}
	// what is true when the loop ends because of a comparison
	for _, l := range ls {
		if !l.num || l.l.kind != "phi" || l.l.phi.Comment == "rangeindex" {
			continue
		}
		for _, g := range ls {
			if !g.ghst || g.e.sort != sBool || g.l.kind != "ghost" {
				continue
			}
			for _, id := range sortedInts(bounds) {
				l, g, b := l, g, bounds[id]
				add(fmt.Sprintf("%s<=%s => %s", l.key, b, g.key), func(st *State, it *Term) *Term { return tImp(tLe(get(st, l), b), get(st, g)) })
				add(fmt.Sprintf("%s>=%s => %s", l.key, b, g.key), func(st *State, it *Term) *Term { return tImp(tLe(b, get(st, l)), get(st, g)) })
			}
		}
	}
	// what was counted already, when there is something to do in the next iteration
	for _, b := range ls {
		if b.l.kind != "phi" || b.e.sort != sBool {
			continue
		}
		for _, x := range ls {
			for _, g := range ls {
				if !x.num || x.l.kind != "phi" || !g.num || g.l.kind != "ghost" {
					continue
				}
				for c := range int64(2) {
					b, x, g, c := b, x, g, c
					add(fmt.Sprintf("%s => %s-%s==%d", b.key, g.key, x.key, c), func(st *State, it *Term) *Term {
						return tImp(get(st, b), tEq(tSub(get(st, g), get(st, x)), tInt(c)))
					})
					add(fmt.Sprintf("!%s => %s-%s==%d", b.key, g.key, x.key, c), func(st *State, it *Term) *Term {
						return tOr(get(st, b), tEq(tSub(get(st, g), get(st, x)), tInt(c)))
					})
				}
			}
		}
	}
	// what is only true while something is set, or is not
	for _, g := range ls {
		if !g.ghst || g.e.sort != sBool || g.l.kind != "ghost" {
			continue
		}
		for _, l := range ls {
			if l.ghst || l.num || l.e.sort != sInt {
				continue
			}
			g, l := g, l
			add(g.key+" => "+l.key+" set", func(st *State, it *Term) *Term { return tImp(get(st, g), tNot(tEq(get(st, l), tZero))) })
			add(l.key+" set => "+g.key, func(st *State, it *Term) *Term { return tOr(get(st, g), tEq(get(st, l), tZero)) })
			add(l.key+" not set => "+g.key, func(st *State, it *Term) *Term { return tOr(get(st, g), tNot(tEq(get(st, l), tZero))) })
			add(g.key+" => "+l.key+" not set", func(st *State, it *Term) *Term { return tImp(get(st, g), tEq(get(st, l), tZero)) })
		}
	}
	// what did not change yet as long as something else did not
	for _, b := range ls {
		if b.ghst && b.e.sort != sBool {
			continue
		}
		if b.num && b.l.kind == "phi" {
			// counted in equalities above
		}
		for _, g := range ls {
			if !g.ghst || g.key == b.key {
				continue
			}
			b, g := b, g
			add(b.key+" unchanged => "+g.key+" unchanged", func(st *State, it *Term) *Term {
				return tImp(tEq(get(st, b), b.e), tEq(get(st, g), g.e))
			})
			if g.num && b.e.sort == sBool {
				add(b.key+" changed => "+g.key+"+1", func(st *State, it *Term) *Term {
					return tImp(tNot(tEq(get(st, b), b.e)), tEq(get(st, g), tAdd(g.e, tOne)))
				})
				add(b.key+" changed => "+g.key+"-1", func(st *State, it *Term) *Term {
					return tImp(tNot(tEq(get(st, b), b.e)), tEq(get(st, g), tSub(g.e, tOne)))
				})
			}
			if g.e.sort == sBool && b.e.sort == sBool {
				add(b.key+" changed => "+g.key+" changed", func(st *State, it *Term) *Term {
					return tImp(tNot(tEq(get(st, b), b.e)), tNot(tEq(get(st, g), g.e)))
				})
			}
		}
	}
	for k, iv := range r.c.invs {
		iv := iv
		if iv.perInt {
			continue
		}
		if iv.perTyp != "" {
			seen := map[int]bool{}
			for _, m := range mods {
				m := m
				switch {
				case m.kind == "phi" && typeKey(m.phi.Type()) == iv.perTyp:
					add(fmt.Sprintf("inv%d(%s)", k, m.key(r)), func(st *State, it *Term) *Term {
						return r.evalInvT(st, iv, sval{v: r.get(st, depth, m), t: m.phi.Type()}, it)
					})
				case m.kind == "cell" && !seen[m.ck.obj] && typeKey(r.objs[m.ck.obj].typ) == iv.perTyp && !strings.HasPrefix(m.ck.path, "["):
					seen[m.ck.obj] = true
					o := r.objs[m.ck.obj]
					add(fmt.Sprintf("inv%d(%s)", k, o.name), func(st *State, it *Term) *Term {
						return r.evalInvT(st, iv, sval{v: &VPtr{Obj: o, T: o.typ}, t: types.NewPointer(o.typ)}, it)
					})
				}
			}
			continue
		}
		add(fmt.Sprintf("inv%d", k), func(st *State, it *Term) *Term { return r.evalInv(st, iv, nil, it) })
	}
	return out
}

func isSlice(v Value) bool { _, ok := v.(*VSlice); return ok }

func sortedInts[V any](m map[int]V) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// noteBound remembers what a loop condition compares with.
func (r *Run) noteBound(st *State, i *ssa.If) {
	f := st.top()
	if len(f.loops) == 0 {
		return
	}
	l := f.loops[len(f.loops)-1]
	if !l.inferring || len(l.bounds) > 6 {
		return
	}
	exits := false
	for _, s := range i.Block().Succs {
		if !l.loop.blocks[s] {
			exits = true
		}
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || !exits {
		return
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		bt, ok := x.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		t, ok := r.val(st, x).(*Term)
		if !ok || t.sort != sInt || t.newer(l.since, map[int]bool{}) {
			continue
		}
		l.bounds[t.id] = t
	}
}

func hasLoopVar(t *Term) bool {
	if t.op == "var" && (strings.HasPrefix(t.name, "loop.") || strings.HasPrefix(t.name, "iterations")) {
		return true
	}
	for _, a := range t.args {
		if hasLoopVar(a) {
			return true
		}
	}
	return false
}

// progressCheck: an iteration must wait for something, retry because of another goroutine, or get closer to the end.
func (r *Run) progressCheck(st *State, l *loopCtx) {}

var memTerms sync.Map

// memKey is the key of what is known about a term.
func memKey(kind string, t *Term) string {
	k := kind + ":" + t.String()
	memTerms.Store(k, t)
	return k
}

// madeAfter says if what a key is about contains a constant that is newer than term number id.
func madeAfter(k string, id int) bool {
	t, ok := memTerms.Load(k)
	return ok && t.(*Term).newer(id, map[int]bool{})
}

func (t *Term) newer(id int, seen map[int]bool) bool {
	if t.id <= id || seen[t.id] {
		return false
	}
	seen[t.id] = true
	if _, ok := freshVars.Load(t.id); ok {
		return true
	}
	for _, a := range t.args {
		if a.newer(id, seen) {
			return true
		}
	}
	return false
}
