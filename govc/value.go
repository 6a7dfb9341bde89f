package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is what an SSA register or a memory cell holds: *Term or one of the V types.
type Value interface{}

type (
	// VStruct is a struct by value.
	VStruct struct {
		T types.Type
		F []Value
	}
	// VPtr is a pointer that is known to be to a place in an object.
	VPtr struct {
		Obj  *Obj
		Path string     // ".1.0" or "[3]"
		Idx  *Term      // element of a backing array
		T    types.Type // type of the pointee
	}
	// VSlice is a slice.
	VSlice struct {
		Arr           *Obj // nil if the backing array is only known by Ref
		Ref           *Term
		Off, Len, Cap *Term
		Elem          types.Type
	}
	// VIface is an interface value with a known dynamic type.
	VIface struct {
		T types.Type
		V Value
	}
	// VClosure is a known function.
	VClosure struct {
		Fn   *ssa.Function
		Bind []Value
	}
	// VTuple holds several results.
	VTuple []Value
	// VMapIter is the state of a range over a map.
	VMapIter struct {
		Map Value
		T   *types.Map
	}
	// VBuiltin is a builtin function.
	VBuiltin struct{ Name string }
)

// Obj is a memory object.
type Obj struct {
	id      int
	typ     types.Type // of the whole object
	addr    *Term
	fresh   bool // allocated by the code that is verified
	backing bool // a backing array of elements of typ
	name    string
	local   bool // a variable that stays in its function
}

func (o *Obj) String() string { return fmt.Sprintf("%s#%d", o.name, o.id) }

func pkgPathOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// isFlat says if a struct type is represented by its fields. Structs of other modules are opaque,
// but for those that the code looks into.
func isFlat(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	p := pkgPathOf(t)
	if p == "" || strings.HasPrefix(p, modPath) || strings.HasPrefix(p, "command-line") {
		return true
	}
	return p == "github.com/gostdlib/internals/otel/span"
}

// sortOf is the sort of a value that is a single term.
func (r *Run) sortOf(t types.Type) string {
	if p := pkgPathOf(t); p == "sync/atomic" {
		switch namedName(t) {
		case "Bool":
			return sBool
		}
		return sInt
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return sInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsString != 0:
			return r.strSort()
		}
	}
	return sInt
}

func (r *Run) strSort() string {
	if r.exactStrings {
		return sStr
	}
	return sInt
}

// strLit is the term of a string literal.
func (r *Run) strLit(s string) *Term {
	if r.exactStrings {
		return tString(s)
	}
	if s == "" {
		return tZero
	}
	r.strIDs[s] = true
	return internStr(s)
}

var strTab = map[string]int64{}

func internStr(s string) *Term {
	termMu.Lock()
	id, ok := strTab[s]
	if !ok {
		id = int64(-1000 - len(strTab))
		strTab[s] = id
	}
	termMu.Unlock()
	return tInt(id)
}

func isRefLike(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Map:
		return true
	}
	return false
}

func isInterface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// zero is the zero value of a type.
func (r *Run) zero(t types.Type) Value {
	if isFlat(t) {
		st := t.Underlying().(*types.Struct)
		v := &VStruct{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, r.zero(st.Field(i).Type()))
		}
		return v
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return tVar("zero$"+t.String(), sInt)
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return &VSlice{Ref: tZero, Off: tZero, Len: tZero, Cap: tZero, Elem: s.Elem()}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		v := &VStruct{T: t}
		for i := int64(0); i < a.Len(); i++ {
			v.F = append(v.F, r.zero(a.Elem()))
		}
		return v
	}
	switch r.sortOf(t) {
	case sBool:
		return tFalse
	case sStr:
		return tString("")
	}
	return tZero
}

// assumeType records what holds for every value of a type.
func (r *Run) assumeType(st *State, t types.Type, v *Term, entry bool) {
	if v.sort != sInt {
		return
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return
	}
	if isRefLike(t) {
		st.assume(tLe(tZero, v))
		if entry {
			st.assume(tLt(v, tInt(freshBase)))
		}
		return
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		st.assume(tLe(tZero, v))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		switch b.Kind() {
		case types.Int64, types.Int:
			st.assume(tLe(v, tInt(1<<63-1)))
			st.assume(tLe(tInt(-1<<63), v))
		}
	}
}

// freshBase: objects that are allocated by the code have addresses from here on, those
// that exist on entry have lower ones.
const freshBase = 1 << 40

// symbolic makes an unconstrained value of a type.
func (r *Run) symbolic(st *State, t types.Type, name string, entry bool) Value {
	mk := func(n, s string) *Term { return tFresh(n, s) }
	return r.build(st, t, name, entry, mk)
}

func (r *Run) build(st *State, t types.Type, name string, entry bool, mk func(name, sort string) *Term) Value {
	if isFlat(t) {
		s := t.Underlying().(*types.Struct)
		v := &VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, r.build(st, s.Field(i).Type(), name+"."+s.Field(i).Name(), entry, mk))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		var out VTuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, r.build(st, tp.At(i).Type(), fmt.Sprintf("%s.%d", name, i), entry, mk))
		}
		return out
	}
	if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			v := &VSlice{Ref: mk(name+".arr", sInt), Off: mk(name+".off", sInt), Len: mk(name+".len", sInt), Cap: mk(name+".cap", sInt), Elem: u.Elem()}
			st.assume(tLe(tZero, v.Off))
			st.assume(tLe(tZero, v.Len))
			st.assume(tLe(v.Len, v.Cap))
			st.assume(tLe(tZero, v.Ref))
			// a nil slice has no elements
			st.assume(tImp(tEq(v.Ref, tZero), tEq(v.Cap, tZero)))
			if entry {
				st.assume(tLt(v.Ref, tInt(freshBase)))
			}
			return v
		case *types.Array:
			v := &VStruct{T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.F = append(v.F, r.build(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), entry, mk))
			}
			return v
		}
	}
	v := mk(name, r.sortOf(t))
	r.assumeType(st, t, v, entry)
	return v
}

// constVal converts an SSA constant.
func (r *Run) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return r.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return r.strLit(constant.StringVal(c.Value))
	case constant.Int:
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(unsupported("constant " + c.String()))
		}
		if u, ok := t.Underlying().(*types.Basic); ok && u.Info()&types.IsFloat != 0 {
			return tVar("float:"+c.Value.ExactString(), sInt)
		}
		return tBig(b)
	}
	return tVar("const:"+c.Value.ExactString(), sInt)
}

func typeKey(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), modPath+"/", "")
}

func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// term turns any value into a single term that identifies it.
func (r *Run) term(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *VPtr:
		if v.Path == "" && v.Idx == nil {
			return v.Obj.addr
		}
		args := []*Term{v.Obj.addr}
		if v.Idx != nil {
			args = append(args, v.Idx)
		}
		t := tUF("addr:"+namedName(v.Obj.typ)+"@"+v.Path, sInt, args...)
		st.assume(tLt(tZero, t))
		if v.Obj.fresh {
			st.assume(tLt(tInt(freshBase), t))
		}
		return t
	case *VClosure:
		var as []*Term
		for _, b := range v.Bind {
			as = append(as, r.term(st, b))
		}
		t := tUF("func:"+funcName(v.Fn), sInt, as...)
		if v.Fn.Name() == "Start$bound" && len(as) == 1 && isInterface(v.Fn.FreeVars[0].Type()) {
			t = tUF("bound:Start", sInt, as[0])
		} else {
			r.recordClosure(t, v)
		}
		// tLt would say that this is true of itself, and leave the solver without it
		st.assume(tNot(intern(Term{op: "<=", args: []*Term{t, tZero}, sort: sBool})))
		return t
	case *VIface:
		t := tUF("iface:"+typeKey(v.T), sInt, r.term(st, v.V))
		if r.ifaces[t.id] == nil {
			r.ifaces[t.id] = v
		}
		st.assume(tLt(tZero, t))
		return t
	case *VSlice:
		return tUF("slice", sInt, v.Ref, v.Off, v.Len, v.Cap)
	case *VStruct:
		var as []*Term
		for _, f := range v.F {
			as = append(as, r.term(st, f))
		}
		return tUF("struct:"+typeKey(v.T), sInt, as...)
	case *VMapIter:
		return tVar("mapiter", sInt)
	case *VBuiltin:
		return tVar("builtin:"+v.Name, sInt)
	case nil:
		return tZero
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

// leafs lists the terms that v consists of.
func (r *Run) leafs(st *State, v Value) []*Term {
	switch v := v.(type) {
	case *VStruct:
		var out []*Term
		for _, f := range v.F {
			out = append(out, r.leafs(st, f)...)
		}
		return out
	case *VSlice:
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	case VTuple:
		var out []*Term
		for _, f := range v {
			out = append(out, r.leafs(st, f)...)
		}
		return out
	}
	return []*Term{r.term(st, v)}
}

// equal is the Go comparison a == b.
func (r *Run) equal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			panic(unsupported("comparison with a struct"))
		}
		t := tTrue
		for i := range x.F {
			t = tAnd(t, r.equal(st, x.F[i], y.F[i]))
		}
		return t
	case *VSlice:
		// only comparison with nil compiles
		if y, ok := b.(*VSlice); ok {
			if y.Ref == tZero {
				return tEq(x.Ref, tZero)
			}
			return tEq(y.Ref, tZero)
		}
	}
	if y, ok := b.(*VSlice); ok {
		return tEq(y.Ref, r.term(st, a))
	}
	if nonNil(a) && isNilTerm(b) || nonNil(b) && isNilTerm(a) {
		return tFalse
	}
	// addresses
	if x, ok := a.(*VPtr); ok {
		if y, ok := b.(*VPtr); ok && x.Obj != y.Obj && (x.Obj.fresh && y.Obj.fresh) {
			return tFalse
		}
	}
	// interface against a concrete value of another type
	if x, ok := a.(*VIface); ok {
		if y, ok := b.(*VIface); ok && !types.Identical(x.T, y.T) {
			return tFalse
		}
	}
	return tEq(r.term(st, a), r.term(st, b))
}

func nonNil(v Value) bool {
	switch v.(type) {
	case *VPtr, *VClosure, *VIface:
		return true
	}
	return false
}

func isNilTerm(v Value) bool {
	t, ok := v.(*Term)
	return ok && t == tZero
}

// ite merges two values of the same type.
func (r *Run) ite(st *State, c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *VStruct:
		if y, ok := b.(*VStruct); ok {
			out := &VStruct{T: x.T}
			for i := range x.F {
				out.F = append(out.F, r.ite(st, c, x.F[i], y.F[i]))
			}
			return out
		}
	case *VSlice:
		if y, ok := b.(*VSlice); ok {
			o := &VSlice{Ref: tIte(c, x.Ref, y.Ref), Off: tIte(c, x.Off, y.Off), Len: tIte(c, x.Len, y.Len), Cap: tIte(c, x.Cap, y.Cap), Elem: x.Elem}
			if x.Arr == y.Arr {
				o.Arr = x.Arr
			}
			return o
		}
	case VTuple:
		if y, ok := b.(VTuple); ok {
			var out VTuple
			for i := range x {
				out = append(out, r.ite(st, c, x[i], y[i]))
			}
			return out
		}
	}
	if same(a, b) {
		return a
	}
	ta, tb := r.term(st, a), r.term(st, b)
	if ta == tb {
		return a
	}
	return tIte(c, ta, tb)
}

// same says if two values are represented identically.
func same(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *VPtr:
		y, ok := b.(*VPtr)
		return ok && x.Obj == y.Obj && x.Path == y.Path && x.Idx == y.Idx
	case *VClosure:
		y, ok := b.(*VClosure)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !same(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *VIface:
		y, ok := b.(*VIface)
		return ok && types.Identical(x.T, y.T) && same(x.V, y.V)
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && x.Ref == y.Ref && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !same(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	case *VMapIter:
		y, ok := b.(*VMapIter)
		return ok && x == y
	}
	return a == b
}
