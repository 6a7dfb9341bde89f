package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cellKey struct {
	obj  int
	path string
}

// Frame is an activation of a function.
type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	ip       int
	defers   []deferred
	loops    []*loopCtx
	entered  bool // the block was just entered
	entering bool // a loop is about to be entered
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = append([]*loopCtx(nil), f.loops...)
	return &n
}

// access is a memory access that is remembered to find races with spawned goroutines.
type access struct {
	cell  cellKey
	write bool
	locks string
	pos   string
}

// child is a goroutine that was started and may still be running.
type child struct {
	what     string
	accesses map[access]bool
	joins    map[string]bool // what the parent has to wait on
}

// State is one point on one path.
type State struct {
	r        *Run
	pc       *pcNode
	facts    map[int]bool
	frames   []*Frame
	cells    map[cellKey]Value
	ghosts   map[string]Value
	ledger   map[string]*Term
	held     map[string]string // locks
	escaped  map[*Obj]bool     // reachable by another goroutine
	frozen   map[*Obj]bool     // published, must not be changed
	quiet    map[*Obj]bool     // nothing else accesses the object any more
	mem      map[string]Value  // model state
	live     []*child
	acc      map[access]bool // accesses of this goroutine
	isChild  bool
	trace    []string
	dead     bool
	ret      Value
	spec     map[string]sval // contract variables
	progress bool
}

func (st *State) clone() *State {
	n := *st
	n.facts = make(map[int]bool, len(st.facts))
	for k := range st.facts {
		n.facts[k] = true
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.cells = make(map[cellKey]Value, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.ghosts = cp(st.ghosts)
	n.ledger = cp(st.ledger)
	n.held = cp(st.held)
	n.mem = cp(st.mem)
	n.escaped = cp(st.escaped)
	n.frozen = cp(st.frozen)
	n.quiet = cp(st.quiet)
	n.acc = cp(st.acc)
	n.spec = cp(st.spec)
	n.live = append([]*child(nil), st.live...)
	n.trace = append([]string(nil), st.trace...)
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// assume adds a fact to the path condition.
func (st *State) assume(t *Term) {
	if t == tTrue || st.facts[t.id] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.facts[t.id] = true
	st.r.pcSeq++
	st.pc = &pcNode{parent: st.pc, id: st.r.pcSeq, t: t, quant: t.quant || st.pc != nil && st.pc.quant, last: lastTerm()}
	if t == tFalse {
		st.dead = true
	}
}

// must says if t holds on every continuation.
func (st *State) must(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	return st.r.solver.prove(st.pc, t, false) == "proved"
}

// may says if t is possible.
func (st *State) may(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	return st.r.solver.check(st.pc, t) != "unsat"
}

// ---- memory ----

func (r *Run) newObj(t types.Type, name string, fresh, backing bool) *Obj {
	r.objSeq++
	o := &Obj{id: r.objSeq, typ: t, fresh: fresh, backing: backing, name: name}
	if fresh {
		o.addr = tInt(freshBase + int64(o.id))
		r.byAddr[o.addr.id] = o
		delete(r.chanTerms, o.addr.id)
	}
	r.objs[o.id] = o
	return o
}

// objAt is the object that a symbolic pointer points to.
func (r *Run) objAt(st *State, p *Term, t types.Type, backing bool) *Obj {
	if o, ok := r.byAddr[p.id]; ok {
		return o
	}
	k := fmt.Sprintf("%d/%s/%v", p.id, typeKey(t), backing)
	if o, ok := r.symObjs[k]; ok {
		return o
	}
	r.symSeq++
	o := &Obj{id: symBase + r.symSeq, typ: t, addr: p, backing: backing, name: typeKey(t)}
	r.objs[o.id] = o
	r.symObjs[k] = o
	return o
}

// typeAt is the type of the place at path in t.
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		if path[0] == '.' {
			i := strings.IndexAny(path[1:], ".[")
			n := path[1:]
			if i >= 0 {
				n = path[1 : i+1]
			}
			k, _ := strconv.Atoi(n)
			t = t.Underlying().(*types.Struct).Field(k).Type()
			path = path[1+len(n):]
			continue
		}
		i := strings.IndexByte(path, ']')
		t = t.Underlying().(*types.Array).Elem()
		path = path[i+1:]
	}
	return t
}

// load reads the place at path.
func (r *Run) load(st *State, o *Obj, path string) Value {
	if o.backing {
		panic(unsupported("load of a whole backing array"))
	}
	return r.loadT(st, o, path, typeAt(o.typ, path))
}

func (r *Run) loadT(st *State, o *Obj, path string, t types.Type) Value {
	if isFlat(t) {
		s := t.Underlying().(*types.Struct)
		v := &VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, r.loadT(st, o, fmt.Sprintf("%s.%d", path, i), s.Field(i).Type()))
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		v := &VStruct{T: t}
		for i := int64(0); i < a.Len(); i++ {
			v.F = append(v.F, r.loadT(st, o, fmt.Sprintf("%s[%d]", path, i), a.Elem()))
		}
		return v
	}
	k := cellKey{o.id, path}
	if v, ok := st.cells[k]; ok {
		return v
	}
	if o.fresh {
		return r.zero(t)
	}
	// A place that existed before: a function of the address.
	base := fmt.Sprintf("%s%s", typeKey(o.typ), pathName(o.typ, path))
	entry := r.entryObj[o.id]
	args := append([]*Term{o.addr}, st.epoch(o, path)...)
	suffix := ""
	if len(args) > 1 {
		suffix = "@"
	}
	v := r.build(st, t, base, entry, func(n, s string) *Term { return tUF("mem:"+n+suffix, s, args...) })
	st.cells[k] = v
	r.onSymbolicCell(st, o, path, t, v)
	v = st.cells[k]
	// unless it was written through another pointer
	for _, p := range r.others(st, o, path) {
		w := st.cells[cellKey{p.id, path}]
		if r.isInitial(p, path, w) || r.isAtomic(p, path) {
			continue
		}
		if eq := tEq(p.addr, o.addr); eq != tFalse && st.may(eq) {
			v = r.ite(st, eq, w, v)
			st.cells[k] = v
		}
	}
	return v
}

// others lists the objects, other than o, that can be the same and of which the place at path is known.
func (r *Run) others(st *State, o *Obj, path string) []*Obj {
	var out []*Obj
	for k := range st.cells {
		if k.obj == o.id || k.path != path {
			continue
		}
		if p := r.objs[k.obj]; !p.fresh && p.backing == o.backing && types.Identical(p.typ, o.typ) {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func epochKey(o *Obj, path string) string {
	return fmt.Sprintf("epoch:%s:%v%s", typeKey(o.typ), o.backing, path)
}

// epoch tells apart the initial value of a place and those after a loop that wrote to unknown objects.
func (st *State) epoch(o *Obj, path string) []*Term {
	if e, ok := st.mem[epochKey(o, path)]; ok {
		return []*Term{e.(*Term)}
	}
	return nil
}

// newEpoch forgets what is known about a place in all objects that o can be.
func (r *Run) newEpoch(st *State, o *Obj, path, key string) {
	for _, p := range r.others(st, o, path) {
		delete(st.cells, cellKey{p.id, path})
	}
	delete(st.cells, cellKey{o.id, path})
	if o.backing {
		for k := range st.cells {
			if p := r.objs[k.obj]; strings.HasPrefix(k.path, "@") && !p.fresh && p.backing && types.Identical(p.typ, o.typ) {
				delete(st.cells, k)
			}
		}
	}
	st.mem[key] = tFresh("epoch", sInt)
}

// pathName is path with the names of the fields.
func pathName(t types.Type, path string) string {
	out := ""
	for path != "" {
		if path[0] == '.' {
			i := strings.IndexAny(path[1:], ".[")
			n := path[1:]
			if i >= 0 {
				n = path[1 : i+1]
			}
			k, _ := strconv.Atoi(n)
			f := t.Underlying().(*types.Struct).Field(k)
			out += "." + f.Name()
			t = f.Type()
			path = path[1+len(n):]
			continue
		}
		i := strings.IndexByte(path, ']')
		t = t.Underlying().(*types.Array).Elem()
		out += path[:i+1]
		path = path[i+1:]
	}
	return out
}

// store writes the place at path.
func (r *Run) store(st *State, o *Obj, path string, v Value) {
	t := typeAt(o.typ, path)
	r.storeT(st, o, path, t, v)
}

func (r *Run) storeT(st *State, o *Obj, path string, t types.Type, v Value) {
	if isFlat(t) {
		s := t.Underlying().(*types.Struct)
		sv, ok := v.(*VStruct)
		if !ok {
			tm := v.(*Term)
			sv = r.build(st, t, "unpacked", false, func(n, so string) *Term { return tUF("part:"+n, so, tm) }).(*VStruct)
		}
		for i := 0; i < s.NumFields(); i++ {
			r.storeT(st, o, fmt.Sprintf("%s.%d", path, i), s.Field(i).Type(), sv.F[i])
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		sv, ok := v.(*VStruct)
		if !ok {
			panic(unsupported("array value"))
		}
		for i := int64(0); i < a.Len(); i++ {
			r.storeT(st, o, fmt.Sprintf("%s[%d]", path, i), a.Elem(), sv.F[i])
		}
		return
	}
	// another pointer may be to the same place
	if !o.fresh {
		for _, p := range r.others(st, o, path) {
			k := cellKey{p.id, path}
			eq := tEq(p.addr, o.addr)
			if eq == tFalse || !st.may(eq) {
				continue
			}
			st.cells[k] = r.ite(st, eq, v, st.cells[k])
		}
	}
	st.cells[cellKey{o.id, path}] = v
}

// content is the array term with the elements of a backing array of single terms.
func (r *Run) content(st *State, o *Obj) *Term {
	k := cellKey{o.id, "[]"}
	if v, ok := st.cells[k]; ok {
		return v.(*Term)
	}
	s := sArr(sInt, r.sortOf(o.typ))
	if o.fresh {
		z := r.zero(o.typ)
		zt, ok := z.(*Term)
		if !ok {
			zt = r.term(st, z)
		}
		return tConstArr(s, zt)
	}
	v := tUF("elems:"+typeKey(o.typ), s, o.addr)
	if e := st.epoch(o, "[]"); e != nil {
		v = tUF("elems:"+typeKey(o.typ)+"@", s, o.addr, e[0])
	}
	// unless it was written through another slice
	for _, p := range r.others(st, o, "[]") {
		w := st.cells[cellKey{p.id, "[]"}].(*Term)
		if eq := tEq(p.addr, o.addr); w != v && eq != tFalse && st.may(eq) {
			v = tIte(eq, w, v)
		}
	}
	if len(r.others(st, o, "[]")) > 0 {
		st.cells[k] = v
	}
	return v
}

func isArrayPath(path string) bool { return strings.Contains(path, "[") }

// sliceObj is the backing array of a slice.
func (r *Run) sliceObj(st *State, s *VSlice) *Obj {
	if s.Arr != nil {
		return s.Arr
	}
	return r.objAt(st, s.Ref, s.Elem, true)
}

// elem reads element i of a slice. Elements written with a constant index keep their exact value.
func (r *Run) elem(st *State, s *VSlice, i *Term) Value {
	if s.Arr == nil && s.Ref.op == "ite" {
		c := s.Ref.args[0]
		return r.ite(st, c, r.elem(st, arm(s, c, 1).(*VSlice), i), r.elem(st, arm(s, c, 2).(*VSlice), i))
	}
	o := r.sliceObj(st, s)
	if !o.backing {
		// a slice of an array object
		at := o.typ.Underlying().(*types.Array)
		ix := tAdd(s.Off, i)
		if isConst(ix) {
			return r.load(st, o, fmt.Sprintf("[%d]", ix.val.Int64()))
		}
		// a symbolic index in a small array
		var v Value
		for k := int64(0); k < at.Len(); k++ {
			e := r.load(st, o, fmt.Sprintf("[%d]", k))
			if v == nil {
				v = e
			} else {
				v = r.ite(st, tEq(ix, tInt(k)), e, v)
			}
		}
		if v == nil {
			return r.symbolic(st, at.Elem(), "elem", false)
		}
		return v
	}
	return r.elemAt(st, o, tAdd(s.Off, i))
}

func (r *Run) elemAt(st *State, o *Obj, ix *Term) Value {
	if v, ok := st.cells[cellKey{o.id, "@" + strconv.Itoa(ix.id)}]; ok {
		return v
	}
	r.copied(st, r.content(st, o), ix)
	if isFlat(o.typ) {
		return r.build(st, o.typ, typeKey(o.typ), false, func(n, so string) *Term {
			return tUF("elemfld:"+n, so, tSelect(r.content(st, o), ix))
		})
	}
	if s, ok := o.typ.Underlying().(*types.Slice); ok {
		_ = s
		e := tSelect(r.content(st, o), ix)
		return r.build(st, o.typ, "elem", false, func(n, so string) *Term { return tUF("elemslice:"+n, so, e) })
	}
	e := tSelect(r.content(st, o), ix)
	r.assumeType(st, o.typ, e, false)
	return e
}

func (r *Run) setElem(st *State, o *Obj, ix *Term, v Value) {
	if !o.backing {
		if !isConst(ix) {
			at := o.typ.Underlying().(*types.Array)
			for k := int64(0); k < at.Len(); k++ {
				p := fmt.Sprintf("[%d]", k)
				r.store(st, o, p, r.ite(st, tEq(ix, tInt(k)), v, r.load(st, o, p)))
			}
			return
		}
		r.store(st, o, fmt.Sprintf("[%d]", ix.val.Int64()), v)
		return
	}
	// exact values at other indexes are only kept if those differ for sure
	for k := range st.cells {
		if k.obj == o.id && strings.HasPrefix(k.path, "@") {
			id, _ := strconv.Atoi(k.path[1:])
			if ot := r.idxTerms[id]; ot == nil || tEq(ot, ix) != tFalse {
				delete(st.cells, k)
			}
		}
	}
	c := r.content(st, o)
	r.setContent(st, o, tStore(c, ix, r.term(st, v)))
	if _, ok := v.(*Term); !ok {
		r.idxTerms[ix.id] = ix
		st.cells[cellKey{o.id, "@" + strconv.Itoa(ix.id)}] = v
	}
}

// setContent changes the elements of a backing array.
func (r *Run) setContent(st *State, o *Obj, c *Term) {
	if !o.fresh {
		for _, p := range r.others(st, o, "[]") {
			k := cellKey{p.id, "[]"}
			if eq := tEq(p.addr, o.addr); eq != tFalse && st.may(eq) {
				st.cells[k] = tIte(eq, c, st.cells[k].(*Term))
				for x := range st.cells {
					if x.obj == p.id && strings.HasPrefix(x.path, "@") {
						delete(st.cells, x)
					}
				}
			}
		}
	}
	st.cells[cellKey{o.id, "[]"}] = c
}

// deref turns a pointer value into a place. ok is false if it is nil on every path.
func (r *Run) deref(st *State, p Value, pointee types.Type) *VPtr {
	switch p := p.(type) {
	case *VPtr:
		return p
	case *Term:
		if o, ok := r.byAddr[p.id]; ok {
			return &VPtr{Obj: o, T: o.typ}
		}
		if p.op == "uf" && strings.HasPrefix(p.name, "addr:") {
			if o := r.byAddr[p.args[0].id]; o != nil {
				v := &VPtr{Obj: o, Path: p.name[strings.IndexByte(p.name, '@')+1:], T: pointee}
				if len(p.args) > 1 {
					v.Idx = p.args[1]
				}
				if v.Path != "" || v.Idx != nil {
					return v
				}
			}
		}
		o := r.objAt(st, p, pointee, false)
		return &VPtr{Obj: o, T: pointee}
	}
	panic(unsupported(fmt.Sprintf("dereference of %T", p)))
}

// escape marks everything that can be reached from v as shared with other goroutines.
func (r *Run) escape(st *State, v Value) {
	switch v := v.(type) {
	case *VPtr:
		r.escapeObj(st, v.Obj)
	case *VClosure:
		for _, b := range v.Bind {
			r.escape(st, b)
		}
	case *VIface:
		r.escape(st, v.V)
	case *VSlice:
		if v.Arr != nil {
			r.escapeObj(st, v.Arr)
		} else {
			r.escape(st, v.Ref)
		}
	case *VStruct:
		for _, f := range v.F {
			r.escape(st, f)
		}
	case VTuple:
		for _, f := range v {
			r.escape(st, f)
		}
	case *Term:
		if o, ok := r.byAddr[v.id]; ok {
			r.escapeObj(st, o)
		}
		if v.op == "ite" {
			r.escape(st, v.args[1])
			r.escape(st, v.args[2])
		}
	}
}

func (r *Run) escapeObj(st *State, o *Obj) {
	if st.escaped[o] {
		return
	}
	st.escaped[o] = true
	for k, v := range st.cells {
		if k.obj == o.id {
			r.escape(st, v)
		}
	}
}

// private says if no other goroutine can access o.
func (st *State) private(o *Obj) bool {
	return (o.fresh && !st.escaped[o]) || st.quiet[o]
}

func placeKey(o *Obj, path string) string { return fmt.Sprintf("%d%s", o.id, path) }
