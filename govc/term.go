package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sorts of SMT terms. All references (pointers, interfaces, functions, channels, type
// parameters, opaque structs) are Int; nil is 0.
const (
	sInt  = "Int"
	sBool = "Bool"
	sStr  = "String"
)

func sArr(k, v string) string { return "(Array " + k + " " + v + ")" }

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // "const" (integer), "true", "false", "var", "uf" or an SMT operator
	name   string // for var and uf; literal for strings
	val    *big.Int
	args   []*Term
	sort   string
	size   int  // as a tree, up to a limit
	quant  bool // has a quantifier
	hasVar bool // has a constant
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
	freshN  = map[string]int{}
)

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(t.sort)
	if t.val != nil {
		b.WriteByte('|')
		b.WriteString(t.val.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if e, ok := termTab[k]; ok {
		return e
	}
	termSeq++
	t.id = termSeq
	t.size = 1
	t.quant = t.op == "forall"
	t.hasVar = t.op == "var"
	for _, a := range t.args {
		t.size = min(t.size+a.size, 1<<30)
		t.quant = t.quant || a.quant
		t.hasVar = t.hasVar || a.hasVar
	}
	p := &t
	termTab[k] = p
	return p
}

var (
	tTrue  = intern(Term{op: "true", sort: sBool})
	tFalse = intern(Term{op: "false", sort: sBool})
	tZero  = tInt(0)
	tOne   = tInt(1)
)

func tInt(i int64) *Term     { return tBig(big.NewInt(i)) }
func tBig(v *big.Int) *Term  { return intern(Term{op: "const", val: v, sort: sInt}) }
func tString(s string) *Term { return intern(Term{op: "strlit", name: s, sort: sStr}) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// tFresh makes a new constant.
func tFresh(prefix, sort string) *Term {
	prefix = sanitize(prefix)
	termMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	termMu.Unlock()
	t := intern(Term{op: "var", name: fmt.Sprintf("%s!%d", prefix, n), sort: sort})
	freshVars.Store(t.id, true)
	return t
}

func tVar(name, sort string) *Term { return intern(Term{op: "var", name: sanitize(name), sort: sort}) }

func sanitize(s string) string {
	if !strings.ContainsAny(s, "|\\\n") {
		return s
	}
	return strings.NewReplacer("|", "!", "\\", "!", "\n", "!").Replace(s)
}

// tUF applies an uninterpreted function.
func tUF(name, sort string, args ...*Term) *Term {
	return intern(Term{op: "uf", name: sanitize(name), args: args, sort: sort})
}

func isConst(t *Term) bool { return t.op == "const" }
func isLit(t *Term) bool {
	return t.op == "const" || t.op == "true" || t.op == "false" || t.op == "strlit"
}

func tNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return intern(Term{op: "not", args: []*Term{a}, sort: sBool})
}

func tAnd(as ...*Term) *Term { return nary("and", tTrue, tFalse, as) }
func tOr(as ...*Term) *Term  { return nary("or", tFalse, tTrue, as) }

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[tNot(a).id] {
			return false
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return intern(Term{op: op, args: out, sort: sBool})
}

func tImp(a, b *Term) *Term { return tOr(tNot(a), b) }
func tIff(a, b *Term) *Term { return tEq(a, b) }

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(unsupported(fmt.Sprintf("comparison of sorts %s and %s (%s, %s)", a.sort, b.sort, a, b)))
	}
	if isLit(a) && isLit(b) || a == tZero && isFuncRef(b) || b == tZero && isFuncRef(a) {
		return tFalse
	}
	if a.sort == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return tNot(b)
		case b == tFalse:
			return tNot(a)
		}
	}
	// x + c == d
	if a.sort == sInt {
		if xa, ca := splitAdd(a); true {
			xb, cb := splitAdd(b)
			if xa == xb {
				return tBool(ca.Cmp(cb) == 0)
			}
		}
		// ite with literal branches against a literal
		if isConst(b) && a.op == "ite" && isConst(a.args[1]) && isConst(a.args[2]) {
			return tIte(a.args[0], tEq(a.args[1], b), tEq(a.args[2], b))
		}
		if isConst(a) && b.op == "ite" && isConst(b.args[1]) && isConst(b.args[2]) {
			return tIte(b.args[0], tEq(b.args[1], a), tEq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: "=", args: []*Term{a, b}, sort: sBool})
}

// splitAdd views t as x + c.
func splitAdd(t *Term) (*Term, *big.Int) {
	if isConst(t) {
		return nil, t.val
	}
	if t.op == "+" && len(t.args) == 2 && isConst(t.args[1]) {
		return t.args[0], t.args[1].val
	}
	return t, big.NewInt(0)
}

func tAdd(a, b *Term) *Term {
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	c := new(big.Int).Add(ca, cb)
	var x *Term
	switch {
	case xa == nil:
		x = xb
	case xb == nil:
		x = xa
	default:
		// x + (-x)
		if tNeg(xa) == xb {
			x = nil
			break
		}
		// (y - x) + x and (y + -x) + x
		if xa.op == "+" && len(xa.args) == 2 {
			if xa.args[1] == tNeg(xb) {
				x = xa.args[0]
				break
			}
			if xa.args[0] == tNeg(xb) {
				x = xa.args[1]
				break
			}
		}
		l, r := xa, xb
		x = intern(Term{op: "+", args: []*Term{l, r}, sort: sInt})
		return addConst(x, c)
	}
	if x == nil {
		return tBig(c)
	}
	return addConst(x, c)
}

func addConst(x *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return x
	}
	// keep x + c with x not itself x' + c'
	xx, cc := splitAdd(x)
	if xx == nil {
		return tBig(new(big.Int).Add(cc, c))
	}
	if cc.Sign() != 0 {
		return addConst(xx, new(big.Int).Add(cc, c))
	}
	return intern(Term{op: "+", args: []*Term{x, tBig(c)}, sort: sInt})
}

func tNeg(a *Term) *Term {
	if isConst(a) {
		return tBig(new(big.Int).Neg(a.val))
	}
	if a.op == "neg" {
		return a.args[0]
	}
	if x, c := splitAdd(a); x != nil && c.Sign() != 0 {
		return addConst(tNeg(x), new(big.Int).Neg(c))
	}
	return intern(Term{op: "neg", args: []*Term{a}, sort: sInt})
}

func tSub(a, b *Term) *Term { return tAdd(a, tNeg(b)) }

func tMul(a, b *Term) *Term {
	if isConst(a) && isConst(b) {
		return tBig(new(big.Int).Mul(a.val, b.val))
	}
	if isConst(a) {
		a, b = b, a
	}
	if isConst(b) {
		if b.val.Sign() == 0 {
			return tZero
		}
		if b.val.IsInt64() && b.val.Int64() == 1 {
			return a
		}
	}
	return intern(Term{op: "*", args: []*Term{a, b}, sort: sInt})
}

// tQuo is Go's truncated division.
func tQuo(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.val.Sign() != 0 {
		return tBig(new(big.Int).Quo(a.val, b.val))
	}
	d := func(x, y *Term) *Term { return intern(Term{op: "div", args: []*Term{x, y}, sort: sInt}) }
	return tIte(tLe(tZero, a), d(a, b), tNeg(d(tNeg(a), b)))
}

func tRem(a, b *Term) *Term { return tSub(a, tMul(tQuo(a, b), b)) }

func tLt(a, b *Term) *Term { return tNot(tLe(b, a)) }

// isFuncRef says that t is the reference of a function, which is never nil.
func isFuncRef(t *Term) bool {
	return t.op == "uf" && strings.HasPrefix(t.name, "func:") && t.sort == sInt
}

// funcFact says that t is the fact that a function is not nil.
func funcFact(t *Term) bool {
	return t.op == "not" && t.args[0].op == "<=" && t.args[0].args[1] == tZero && isFuncRef(t.args[0].args[0])
}

func tLe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if b == tZero && isFuncRef(a) {
		return tFalse
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return tBool(ca.Cmp(cb) <= 0)
	}
	return intern(Term{op: "<=", args: []*Term{a, b}, sort: sBool})
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == "not" {
		return tIte(c.args[0], b, a)
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
	}
	return intern(Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}

func arrSorts(sort string) (string, string) {
	s := strings.TrimSuffix(strings.TrimPrefix(sort, "(Array "), ")")
	// keys are always atomic sorts
	i := strings.Index(s, " ")
	return s[:i], s[i+1:]
}

func tSelect(a, i *Term) *Term {
	for a.op == "store" {
		e := tEq(a.args[1], i)
		if e == tTrue {
			return a.args[2]
		}
		if e == tFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	_, v := arrSorts(a.sort)
	return intern(Term{op: "select", args: []*Term{a, i}, sort: v})
}

func tStore(a, i, v *Term) *Term {
	return intern(Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}

func tConstArr(sort string, v *Term) *Term {
	return intern(Term{op: "constarr", args: []*Term{v}, sort: sort})
}

// tForall quantifies over the given variables.
func tForall(vars []*Term, body *Term) *Term {
	for _, v := range vars {
		boundVars.Store(v.id, true)
	}
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(Term{op: "forall", args: append(append([]*Term{}, vars...), body), sort: sBool})
}

func tExists(vars []*Term, body *Term) *Term { return tNot(tForall(vars, tNot(body))) }

// tOp builds another SMT operator.
func tOp(op, sort string, args ...*Term) *Term {
	if strings.HasPrefix(op, "str.") {
		if t := strSimplify(op, args); t != nil {
			return t
		}
	}
	return intern(Term{op: op, args: args, sort: sort})
}

func (t *Term) String() string {
	if t.size > 500 {
		return fmt.Sprintf("%s...#%d", t.op, t.id)
	}
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

func quoteSym(s string) string { return "|" + s + "|" }

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`""`)
		case r < 32 || r > 126 || r == '\\':
			fmt.Fprintf(&b, "\\u{%x}", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// A namer gives names to large terms that are shared, as they would be too large if they were
// written as trees.
type namer struct {
	names  map[int]string
	bound  map[int]bool // terms with bound variables cannot be named
	out    func(string)
	ground bool // quantified terms are unknown constants
}

var boundVars, freshVars sync.Map

func newNamer(out func(string)) *namer {
	return &namer{names: map[int]string{}, bound: map[int]bool{}, out: out}
}

func (n *namer) hasBound(t *Term) bool {
	if b, ok := n.bound[t.id]; ok {
		return b
	}
	b := false
	if t.op == "var" {
		_, b = boundVars.Load(t.id)
	}
	for _, a := range t.args {
		if n.hasBound(a) {
			b = true
		}
	}
	n.bound[t.id] = b
	return b
}

// text is the term in SMT-LIB. Definitions that it needs are output first.
func (n *namer) text(t *Term) string {
	var b strings.Builder
	n.prepare(t)
	t.write(&b, n)
	return b.String()
}

func (n *namer) prepare(t *Term) {
	if t.size <= 40 && !(n.ground && t.quant) {
		return
	}
	if _, ok := n.names[t.id]; ok {
		return
	}
	if n.ground && t.op == "forall" {
		name := fmt.Sprintf("$q%d", t.id)
		n.out(fmt.Sprintf("(declare-fun %s () Bool)", name))
		n.names[t.id] = name
		return
	}
	for _, a := range t.args {
		n.prepare(a)
	}
	if n.hasBound(t) {
		return
	}
	var b strings.Builder
	t.write(&b, n)
	name := fmt.Sprintf("$%d", t.id)
	n.out(fmt.Sprintf("(define-fun %s () %s %s)", name, t.sort, b.String()))
	n.names[t.id] = name
}

func (t *Term) write(b *strings.Builder, n *namer) {
	if n != nil {
		if s, ok := n.names[t.id]; ok {
			b.WriteString(s)
			return
		}
	}
	switch t.op {
	case "const":
		if t.val.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.val))
		} else {
			b.WriteString(t.val.String())
		}
	case "true", "false":
		b.WriteString(t.op)
	case "strlit":
		b.WriteString(smtString(t.name))
	case "var":
		b.WriteString(quoteSym(t.name))
	case "uf":
		if len(t.args) == 0 {
			b.WriteString(quoteSym(t.name))
			return
		}
		b.WriteString("(" + quoteSym(t.name))
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, n)
		}
		b.WriteByte(')')
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		t.args[0].write(b, n)
		b.WriteByte(')')
	case "forall":
		if n != nil && n.ground {
			fmt.Fprintf(b, "$q%d", t.id)
			return
		}
		b.WriteString("(forall (")
		for _, v := range t.args[:len(t.args)-1] {
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.name), v.sort)
		}
		b.WriteString(") ")
		t.args[len(t.args)-1].write(b, n)
		b.WriteByte(')')
	default:
		op := t.op
		if op == "neg" {
			op = "-"
		}
		if len(t.args) == 0 {
			b.WriteString(op)
			return
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, n)
		}
		b.WriteByte(')')
	}
}

// decls collects the symbols in t that need a declaration.
func (t *Term) decls(seen map[int]bool, bound map[string]bool, out map[string]string) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.op {
	case "var":
		if !bound[t.name] {
			out[t.name] = fmt.Sprintf("(declare-fun %s () %s)", quoteSym(t.name), t.sort)
		}
	case "uf":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.sort)
		}
		out[t.name] = fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(t.name), strings.Join(ss, " "), t.sort)
	case "forall":
		for _, v := range t.args[:len(t.args)-1] {
			bound[v.name] = true
		}
	}
	for _, a := range t.args {
		a.decls(seen, bound, out)
	}
}

// contains says if x occurs in t.
func (t *Term) contains(x *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms.
func (t *Term) subst(m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return tAnd(as...)
	case "or":
		return tOr(as...)
	case "not":
		return tNot(as[0])
	case "=":
		return tEq(as[0], as[1])
	case "+":
		return tAdd(as[0], as[1])
	case "neg":
		return tNeg(as[0])
	case "*":
		return tMul(as[0], as[1])
	case "<=":
		return tLe(as[0], as[1])
	case "ite":
		return tIte(as[0], as[1], as[2])
	case "select":
		return tSelect(as[0], as[1])
	}
	return intern(Term{op: t.op, name: t.name, val: t.val, args: as, sort: t.sort})
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// unsupported is panicked with when something is outside of the verified subset of Go.
type unsupported string

func lastTerm() int {
	termMu.Lock()
	defer termMu.Unlock()
	return termSeq
}
