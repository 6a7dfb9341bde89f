package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// z3Path is the solver that runs all the time.
var z3Path = "z3-new"

func newBig(v *big.Int) *big.Int {
	return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), 64))
}

func constString(c *ssa.Const) string {
	if c.Value == nil || c.Value.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(c.Value)
}

// writtenOnce is what a global is initialized with, if nothing else writes to it.
func (P *Program) writtenOnce(g *ssa.Global) ssa.Value {
	P.mu.Lock()
	defer P.mu.Unlock()
	if v, ok := P.once[g]; ok {
		return v
	}
	var val ssa.Value
	n := 0
	var walk func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	walk = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					n++
					val = s.Val
					if fn.Name() != "init" {
						n++
					}
					continue
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o != ssa.Value(g) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					default:
						_ = x
						n++ // its address is taken
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
	}
	P.members(g.Pkg, walk)
	if n != 1 {
		val = nil
	}
	P.once[g] = val
	return val
}

// members calls f with the functions and methods of a package.
func (P *Program) members(p *ssa.Package, f func(fn *ssa.Function)) {
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			f(m)
		case *ssa.Type:
			if nt, ok := m.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if fn := P.prog.FuncValue(nt.Method(i)); fn != nil {
						f(fn)
					}
				}
			}
		}
	}
}

// fieldWrittenOnce is what a field of a global struct is initialized with, if nothing else writes to it.
func (P *Program) fieldWrittenOnce(g *ssa.Global, field int) ssa.Value {
	var val ssa.Value
	n := 0
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) && fn.Name() == "init" {
					// a composite literal
					n++
					l, ok := s.Val.(*ssa.UnOp)
					if !ok {
						continue
					}
					lit, ok := l.X.(*ssa.Alloc)
					if !ok {
						continue
					}
					for _, u := range *lit.Referrers() {
						if fa, ok := u.(*ssa.FieldAddr); ok && fa.Field == field {
							for _, u := range *fa.Referrers() {
								if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
									val = s.Val
								}
							}
						}
					}
					continue
				}
				fa, isField := ins.(*ssa.FieldAddr)
				if !isField || fa.X != ssa.Value(g) {
					for _, o := range ins.Operands(nil) {
						if *o == ssa.Value(g) {
							n = 2
						}
					}
					continue
				}
				if fa.Field != field {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						n++
						val = u.Val
						if u.Addr != ssa.Value(fa) || fn.Name() != "init" {
							n++
						}
					default:
						n = 2
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
	}
	P.members(g.Pkg, walk)
	if n != 1 {
		return nil
	}
	return val
}

// methodByName finds a method of t.
func (P *Program) methodByName(t types.Type, name string) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	try := func(t types.Type) *ssa.Function {
		ms := P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				if f := P.prog.FuncValue(s.Obj().(*types.Func)); f != nil && len(s.Index()) == 1 {
					return f
				}
				return P.prog.MethodValue(s)
			}
		}
		return nil
	}
	if f := try(t); f != nil {
		return f
	}
	return try(types.NewPointer(t))
}

// recordClosure remembers which closure a term stands for.
func (r *Run) recordClosure(t *Term, c *VClosure) {
	if _, ok := r.closures[t.id]; !ok {
		r.closures[t.id] = c
	}
}

// names of the obligations with their results, for the log
func (o *Obligation) String() string {
	return fmt.Sprintf("%-8s %v %s (%s)", o.Result, o.Props, o.Label, o.Pos)
}

func itoaInt(i int) string { return fmt.Sprintf("%d", i) }

// explain writes a term that is false in a model of st with the arms of each ite that were taken.
func (r *Run) explain(st *State, goal *Term) string {
	var conds []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.sort == sBool {
			conds = append(conds, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	res, vals := r.solver.query(st.pc, tNot(goal), conds)
	if res != "sat" || len(vals) != len(conds) {
		return res
	}
	v := map[int]string{}
	for i, c := range conds {
		v[c.id] = vals[i]
	}
	var show func(t *Term, d int) string
	show = func(t *Term, d int) string {
		pre := ""
		if t.sort == sBool {
			pre = v[t.id] + ":"
		}
		if t.op == "ite" && v[t.args[0].id] != "" {
			c := "[" + show(t.args[0], d+1) + "]"
			if d > 3 {
				c = ""
			}
			if v[t.args[0].id] == "true" {
				return c + show(t.args[1], d)
			}
			return c + show(t.args[2], d)
		}
		if len(t.args) == 0 || t.size < 12 {
			return pre + t.String()
		}
		out := pre + "(" + t.op
		for _, a := range t.args {
			out += "\n" + strings.Repeat("  ", d) + show(a, d+1)
		}
		return out + ")"
	}
	return show(goal, 1)
}
