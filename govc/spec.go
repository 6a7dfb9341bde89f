package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// sval is a value in a contract.
type sval struct {
	v Value
	t types.Type
}

// Contract is what is specified for one function.
type Contract struct {
	Name    string
	File    string
	Pkg, Fn string
	Sig     string // to find the function if it was renamed

	params, results []string
	requires        []ast.Expr
	entry           []*letStmt
	ghosts          []*letStmt
	handlers        []*handler
	ensures         []*clause
	invs            []*invariant
	autos           map[string][]string
	guards          []*guard
	balanced        []*balance
	carries         []*carry
	open            []ast.Expr
	monitor         []ast.Expr
	relies          []*rely
	facts           []ast.Expr
	freeze          bool
	exact           bool
	group           bool
	mayNotReturn    bool
	applied         []string    // the function that the target returns is called with these parameters
	opaque          []*Contract // functions that are only known by the event of a call of them
	bounded         []*stand
	joinReturns     bool       // the ways in which a function can return are joined
	quiet           []ast.Expr // nobody else changes these objects
	props           map[string]bool
	decl            *ast.FuncDecl
	refs            map[string]bool
	roots           bool // Contexts are compared
	refOnce         sync.Once
}

// stand is a bounded stand-in for functions that are not verified.
type stand struct {
	props        []string
	funcs, bound string
}

type letStmt struct {
	name string
	expr ast.Expr
	pos  token.Pos
}

type handler struct {
	ev     string
	filter ast.Expr
	sig    string
	params []string
	body   []ast.Stmt
}

type clause struct {
	props []string
	expr  ast.Expr
	label string
}

type invariant struct {
	perInt bool
	perTyp string // for each variable of this type that the loop changes
	param  string
	expr   ast.Expr
}

type guard struct {
	props  []string
	label  string
	mu     ast.Expr
	places []ast.Expr
}

type balance struct {
	props  []string
	place  ast.Expr
	label  string
	text   string
	strict bool
}

type carry struct {
	ch  ast.Expr
	idx []int
}

type rely struct {
	place ast.Expr
	param string
	body  ast.Expr
}

func (c *Contract) auto(kind string) []string { return c.autos[kind] }

// event is something that the code does that handlers react to.
type event struct {
	name string
	subj sval
	sig  string
	str  string
	args []sval
	pos  token.Pos
}

type specError string

func specFail(f string, a ...any) { panic(specError(fmt.Sprintf(f, a...))) }

// loadContracts parses all contracts in dir.
func loadContracts(dir string) ([]*Contract, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	var out []*Contract
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			c, err := parseContract(fs, fd)
			if err != nil {
				return nil, err
			}
			c.File = filepath.Base(f)
			if c.Pkg != "" {
				out = append(out, c)
			}
		}
	}
	return out, nil
}

func parseContract(fs *token.FileSet, fd *ast.FuncDecl) (c *Contract, err error) {
	c = &Contract{Name: fd.Name.Name, decl: fd, autos: map[string][]string{}, props: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specError); ok {
				err = fmt.Errorf("contract %s: %s", c.Name, string(s))
				return
			}
			panic(e)
		}
	}()
	names := func(fl *ast.FieldList) []string {
		var out []string
		if fl == nil {
			return nil
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				out = append(out, n.Name)
			}
		}
		return out
	}
	c.params, c.results = names(fd.Type.Params), names(fd.Type.Results)
	str := func(e ast.Expr) string {
		b, ok := e.(*ast.BasicLit)
		if !ok || b.Kind != token.STRING {
			specFail("%s: a string is expected", fs.Position(e.Pos()))
		}
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	props := func(e ast.Expr) []string {
		var out []string
		for _, p := range strings.Split(str(e), ",") {
			p = strings.TrimSpace(p)
			out = append(out, p)
			c.props[p] = true
		}
		return out
	}
	for _, s := range fd.Body.List {
		switch s := s.(type) {
		case *ast.AssignStmt:
			c.entry = append(c.entry, &letStmt{s.Lhs[0].(*ast.Ident).Name, s.Rhs[0], s.Pos()})
			continue
		case *ast.DeclStmt:
			for _, sp := range s.Decl.(*ast.GenDecl).Specs {
				v := sp.(*ast.ValueSpec)
				c.ghosts = append(c.ghosts, &letStmt{v.Names[0].Name, v.Values[0], v.Pos()})
			}
			continue
		case *ast.ReturnStmt:
			continue
		}
		es, ok := s.(*ast.ExprStmt)
		if !ok {
			specFail("%s: statement", fs.Position(s.Pos()))
		}
		call := es.X.(*ast.CallExpr)
		a := call.Args
		switch n := call.Fun.(*ast.Ident).Name; n {
		case "target":
			c.Pkg, c.Fn = str(a[0]), str(a[1])
			if len(a) > 2 {
				c.Sig = str(a[2])
			}
		case "requires":
			c.requires = append(c.requires, a...)
		case "quiet":
			c.quiet = append(c.quiet, a...)
		case "exactStrings":
			c.exact = true
		case "group":
			c.group = true
		case "mayNotReturn":
			c.mayNotReturn = true
		case "applied":
			for _, x := range a {
				c.applied = append(c.applied, str(x))
			}
		case "joinReturns":
			c.joinReturns = true
		case "bounded":
			c.bounded = append(c.bounded, &stand{props(a[0]), str(a[1]), str(a[2])})
		case "opaque":
			o := &Contract{Pkg: str(a[0]), Fn: str(a[1])}
			if len(a) > 2 {
				o.Sig = str(a[2])
			}
			c.opaque = append(c.opaque, o)
		case "freezePublished":
			c.freeze = true
		case "neverClosed":
			c.open = append(c.open, a...)
		case "monitor":
			c.monitor = append(c.monitor, a...)
		case "rely":
			f := a[1].(*ast.FuncLit)
			c.relies = append(c.relies, &rely{a[0], names(f.Type.Params)[0], f.Body.List[0].(*ast.ReturnStmt).Results[0]})
		case "auto":
			k := str(a[0])
			c.autos[k] = props(a[1])
		case "ensures":
			c.ensures = append(c.ensures, &clause{props(a[0]), a[1], str(a[2])})
		case "guarded":
			c.guards = append(c.guards, &guard{props(a[0]), str(a[1]), a[2], a[3:]})
		case "immutable":
			c.guards = append(c.guards, &guard{props(a[0]), str(a[1]), nil, a[2:]})
		case "balanced", "ledger":
			c.balanced = append(c.balanced, &balance{props: props(a[0]), place: a[1], label: str(a[2]), text: exprText(a[1]), strict: n == "balanced" && len(a) > 3})
		case "carries":
			k := &carry{ch: a[0]}
			for _, p := range a[1:] {
				i := c.balIndex(p)
				if i < 0 {
					specFail("carries of something that is not balanced")
				}
				k.idx = append(k.idx, i)
			}
			c.carries = append(c.carries, k)
		case "inv":
			if len(a) == 2 {
				f := a[1].(*ast.FuncLit)
				c.invs = append(c.invs, &invariant{perTyp: str(a[0]), param: names(f.Type.Params)[0], expr: f.Body.List[0].(*ast.ReturnStmt).Results[0]})
			} else if f, ok := a[0].(*ast.FuncLit); ok {
				c.invs = append(c.invs, &invariant{perInt: true, param: names(f.Type.Params)[0], expr: f.Body.List[0].(*ast.ReturnStmt).Results[0]})
			} else {
				c.invs = append(c.invs, &invariant{expr: a[0]})
			}
		case "on":
			h := &handler{ev: str(a[0])}
			for _, x := range a[1 : len(a)-1] {
				if b, ok := x.(*ast.BasicLit); ok && b.Kind == token.STRING {
					h.sig = str(x)
				} else {
					h.filter = x
				}
			}
			f := a[len(a)-1].(*ast.FuncLit)
			h.params, h.body = names(f.Type.Params), f.Body.List
			ast.Inspect(f, func(n ast.Node) bool {
				if ce, ok := n.(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "assert" {
						props(ce.Args[0])
					}
				}
				return true
			})
			c.handlers = append(c.handlers, h)
		default:
			specFail("%s: %s", fs.Position(s.Pos()), n)
		}
	}
	return c, nil
}

func (c *Contract) balIndex(e ast.Expr) int {
	t := exprText(e)
	for i, b := range c.balanced {
		if b.text == t {
			return i
		}
	}
	return -1
}

func exprText(e ast.Expr) string { return types.ExprString(e) }

// env are the names that are known in an expression.
type env struct {
	r    *Run
	st   *State
	vars map[string]sval
	g    *Term // the condition under which a handler's statement is executed
}

// undefined is panicked with when something does not exist in this state.
type undefined string

func (r *Run) tryEval(st *State, e ast.Expr) (v sval, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, u := x.(undefined); u {
				ok = false
				return
			}
			panic(x)
		}
	}()
	en := &env{r: r, st: st, vars: nil, g: tTrue}
	return en.eval(e), true
}

func (r *Run) evalWith(st *State, e ast.Expr, name string, x sval) (t *Term, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, u := x.(undefined); u {
				ok = false
				return
			}
			panic(x)
		}
	}()
	en := &env{r: r, st: st, vars: map[string]sval{name: x}, g: tTrue}
	return en.eval(e).v.(*Term), true
}

func (r *Run) evalInv(st *State, iv *invariant, x *Term, iter *Term) *Term {
	return r.evalInvT(st, iv, sval{v: x, t: types.Typ[types.Int]}, iter)
}

func (r *Run) evalInvT(st *State, iv *invariant, x sval, iter *Term) *Term {
	vars := map[string]sval{"iter": {v: iter, t: types.Typ[types.Int]}}
	if iv.param != "" {
		vars[iv.param] = x
	}
	var out *Term
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, u := x.(undefined); u {
					out = tTrue
					return
				}
				panic(x)
			}
		}()
		en := &env{r: r, st: st, vars: vars, g: tTrue}
		out = en.eval(iv.expr).v.(*Term)
	}()
	return out
}

// matches is the condition that expression e of the contract denotes v.
func (r *Run) matches(st *State, e ast.Expr, v Value) *Term {
	return r.matchesT(st, e, v, nil)
}

func (r *Run) matchesT(st *State, e ast.Expr, v Value, vt types.Type) *Term {
	x, ok := r.tryEval(st, &ast.CallExpr{Fun: ast.NewIdent("ref"), Args: []ast.Expr{e}})
	if !ok {
		return tFalse
	}
	a, b := r.term(st, x.v), r.term(st, v)
	if a.sort != b.sort {
		return tFalse
	}
	if x.t != nil {
		_, isChan := x.t.Underlying().(*types.Chan)
		if isChan != r.chanTerms[b.id] {
			return tFalse
		}
	}
	eq := tEq(a, b)
	if eq == tTrue || eq == tFalse {
		return eq
	}
	if distinctAddr(a, b) {
		return tFalse
	}
	if p, ok := v.(*VPtr); ok && p.Idx == nil {
		vt = types.NewPointer(p.T)
	}
	if x.t != nil && vt != nil {
		// places of different types
		t, ok1 := x.t.Underlying().(*types.Pointer)
		u, ok2 := vt.Underlying().(*types.Pointer)
		if ok1 && ok2 && otherNamed(t.Elem(), u.Elem()) {
			return tFalse
		}
	}
	if !st.may(eq) {
		return tFalse
	}
	if st.must(eq) {
		return tTrue
	}
	return eq
}

// distinctAddr says that two terms are addresses of different places for sure.
func distinctAddr(a, b *Term) bool {
	f := func(t *Term) (string, bool) {
		if t.op == "uf" && (strings.HasPrefix(t.name, "addr:") || strings.HasPrefix(t.name, "mem:") || strings.HasPrefix(t.name, "bound:")) {
			return t.name, true
		}
		return "", false
	}
	x, ok1 := f(a)
	y, ok2 := f(b)
	if ok1 && ok2 {
		if strings.HasPrefix(x, "addr:") && strings.HasPrefix(y, "addr:") {
			// different fields, or the same field of different objects
			if x == y {
				return len(a.args) > 0 && len(b.args) > 0 && isConst(a.args[0]) && isConst(b.args[0]) && a.args[0] != b.args[0]
			}
			i, j := strings.IndexByte(x, '@'), strings.IndexByte(y, '@')
			if x[:i] != y[:j] && i > 5 && j > 5 {
				return true
			}
			x, y = x[i+1:]+".", y[j+1:]+"."
			return !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x)
		}
	}
	if ok1 && strings.HasPrefix(x, "addr:") && isConst(b) && b.val.IsInt64() && b.val.Int64() >= freshBase {
		return true
	}
	if ok2 && strings.HasPrefix(y, "addr:") && isConst(a) && a.val.IsInt64() && a.val.Int64() >= freshBase {
		return true
	}
	return false
}

// place evaluates e as an addressable place.
func (r *Run) place(st *State, e ast.Expr) (p *VPtr, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, u := x.(undefined); u {
				ok = false
				return
			}
			panic(x)
		}
	}()
	en := &env{r: r, st: st, g: tTrue}
	return en.lvalue(e)
}

// lvalue evaluates x.f to a place.
func (en *env) lvalue(e ast.Expr) (*VPtr, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return en.lvalue(e.X)
	case *ast.StarExpr:
		if p, ok := en.lvalue(e.X); ok {
			if _, isStruct := p.T.Underlying().(*types.Struct); isStruct && !isPointer(atomicContent(p.T)) {
				return p, true // a value in place of a pointer
			}
		}
		v := en.eval(e.X)
		return en.pointee(v)
	case *ast.SelectorExpr:
		if g, ok := en.globalOf(e); ok {
			return g, true
		}
		var base *VPtr
		if p, ok := en.lvalue(e.X); ok {
			base = p
			if ct := atomicContent(base.T); isPointer(ct) {
				v := en.r.load(en.st, base.Obj, base.Path)
				b, ok := en.pointee(sval{v, ct})
				if !ok {
					return nil, false
				}
				base = b
			}
		} else {
			v := en.eval(e.X)
			b, ok := en.pointee(v)
			if !ok {
				return nil, false
			}
			base = b
		}
		i, ft := en.field(base.T, e.Sel.Name)
		if i == nil {
			panic(undefined(e.Sel.Name))
		}
		return &VPtr{Obj: base.Obj, Path: base.Path + fieldPath(i), T: ft}, true
	}
	return nil, false
}

func (en *env) pointee(v sval) (*VPtr, bool) {
	if p, ok := v.v.(*VPtr); ok {
		if p.Idx != nil {
			return nil, false
		}
		return p, true
	}
	if v.t == nil {
		return nil, false
	}
	t, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	if en.st.must(tEq(en.r.term(en.st, v.v), tZero)) {
		panic(undefined("nil"))
	}
	return en.r.deref(en.st, v.v, t.Elem()), true
}

// field finds a field of a struct, by name or, if it was renamed, by its type, or in a struct that is a part
// of this one, if it was moved there.
func (en *env) field(t types.Type, name string) ([]int, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}, s.Field(i).Type()
		}
	}
	base, ok := en.r.P.baseline[baseKey(typeKey(t))]
	if !ok {
		return nil, nil
	}
	want := base[name]
	if want == "" {
		return nil, nil
	}
	found := -1
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, known := base[f.Name()]; known {
			continue
		}
		if typeKey(f.Type()) == want {
			if found >= 0 {
				return nil, nil
			}
			found = i
		}
	}
	if found >= 0 {
		return []int{found}, s.Field(found).Type()
	}
	var path []int
	var ft types.Type
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		part, ok := f.Type().Underlying().(*types.Struct)
		if _, known := base[f.Name()]; known || !ok {
			continue
		}
		for k := 0; k < part.NumFields(); k++ {
			if x := part.Field(k); x.Name() == name && typeKey(x.Type()) == want {
				if path != nil {
					return nil, nil
				}
				path, ft = []int{i, k}, x.Type()
			}
		}
	}
	return path, ft
}

func fieldPath(is []int) string {
	p := ""
	for _, i := range is {
		p += "." + itoaInt(i)
	}
	return p
}

// globalOf finds pkg.Var.
func (en *env) globalOf(e *ast.SelectorExpr) (*VPtr, bool) {
	id, ok := e.X.(*ast.Ident)
	if !ok {
		return nil, false
	}
	if _, ok := en.lookup(id.Name); ok {
		return nil, false
	}
	for _, p := range en.r.P.prog.AllPackages() {
		if p.Pkg.Name() == id.Name {
			if g, ok := p.Members[e.Sel.Name].(*ssa.Global); ok {
				v := en.r.global(en.st, g).(*VPtr)
				return v, true
			}
			if v, ok := en.renamedGlobal(p, e.Sel.Name); ok {
				return v, true
			}
		}
	}
	return nil, false
}

// renamedGlobal finds a global that was renamed or made a field of a struct, by its type.
func (en *env) renamedGlobal(p *ssa.Package, name string) (*VPtr, bool) {
	known := en.r.P.baseline["globals:"+strings.TrimPrefix(p.Pkg.Path(), modPath+"/")]
	want := known[name]
	if want == "" {
		return nil, false
	}
	var found []*VPtr
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if _, k := known[g.Name()]; k {
			continue
		}
		at := en.r.global(en.st, g).(*VPtr)
		if typeKey(g.Type()) == want {
			found = append(found, at)
			continue
		}
		if s, ok := at.T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if typeKey(types.NewPointer(s.Field(i).Type())) == want {
					found = append(found, &VPtr{Obj: at.Obj, Path: fmt.Sprintf("%s.%d", at.Path, i), T: s.Field(i).Type()})
				}
			}
		}
	}
	if len(found) != 1 {
		return nil, false
	}
	return found[0], true
}

func (en *env) lookup(n string) (sval, bool) {
	if v, ok := en.vars[n]; ok {
		return v, true
	}
	if v, ok := en.st.ghosts[n]; ok {
		return sval{v: v, t: en.r.ghostTypes[n]}, true
	}
	if v, ok := en.st.spec[n]; ok {
		return v, true
	}
	return sval{}, false
}

func tint(t *Term) sval  { return sval{v: t, t: types.Typ[types.Int]} }
func tbool(t *Term) sval { return sval{v: t, t: types.Typ[types.Bool]} }

func (en *env) boolean(e ast.Expr) *Term {
	t, ok := en.eval(e).v.(*Term)
	if !ok || t.sort != sBool {
		specFail("%s is not a condition (%v)", exprText(e), t)
	}
	return t
}

func (en *env) tm(e ast.Expr) *Term { return en.r.term(en.st, en.eval(e).v) }

func (en *env) eval(e ast.Expr) sval {
	r, st := en.r, en.st
	switch e := e.(type) {
	case *ast.ParenExpr:
		return en.eval(e.X)
	case *ast.Ident:
		switch e.Name {
		case "true":
			return tbool(tTrue)
		case "false":
			return tbool(tFalse)
		case "nil":
			return sval{v: tZero}
		case "child":
			return tbool(tBool(st.isChild))
		}
		v, ok := en.lookup(e.Name)
		if !ok {
			panic(undefined(e.Name))
		}
		return v
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			t, _ := constInt(e.Value)
			return tint(t)
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return sval{v: r.strLit(s), t: types.Typ[types.String]}
		}
	case *ast.SelectorExpr:
		if p, ok := en.lvalue(e); ok {
			if isSyncValue(p.T) {
				// the same as a pointer to it, which it can be replaced by
				return sval{v: p, t: types.NewPointer(p.T)}
			}
			return sval{v: r.load(st, p.Obj, p.Path), t: atomicContent(p.T)}
		}
		x := en.eval(e.X)
		if isNilTerm(x.v) {
			panic(undefined(exprText(e)))
		}
		if x.t == nil {
			specFail("%s has no type", exprText(e.X))
		}
		i, ft := en.field(x.t, e.Sel.Name)
		if i == nil {
			panic(undefined(fmt.Sprintf("%s (no field in %s)", exprText(e), x.t)))
		}
		v := x.v
		for len(i) > 0 {
			s, ok := v.(*VStruct)
			if !ok {
				break
			}
			v, i = s.F[i[0]], i[1:]
		}
		if len(i) == 0 {
			return sval{v: v, t: ft}
		}
		panic(undefined(fmt.Sprintf("%s (%T of %s)", exprText(e), x.v, x.t)))
	case *ast.StarExpr:
		p, ok := en.lvalue(e)
		if !ok {
			panic(undefined(exprText(e)))
		}
		return sval{v: r.load(st, p.Obj, p.Path), t: p.T}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return tbool(tNot(en.boolean(e.X)))
		case token.SUB:
			return tint(tNeg(en.tm(e.X)))
		case token.AND:
			p, ok := en.lvalue(e.X)
			if !ok {
				panic(undefined(exprText(e)))
			}
			return sval{v: p, t: types.NewPointer(p.T)}
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			a := en.boolean(e.X)
			if a == tFalse {
				return tbool(tFalse)
			}
			return tbool(tAnd(a, en.boolean(e.Y)))
		case token.LOR:
			a := en.boolean(e.X)
			if a == tTrue {
				return tbool(tTrue)
			}
			return tbool(tOr(a, en.boolean(e.Y)))
		case token.EQL:
			return tbool(en.equal(en.eval(e.X), en.eval(e.Y)))
		case token.NEQ:
			return tbool(tNot(en.equal(en.eval(e.X), en.eval(e.Y))))
		}
		a, b := en.tm(e.X), en.tm(e.Y)
		switch e.Op {
		case token.ADD:
			if a.sort == sStr {
				return sval{v: tOp("str.++", sStr, a, b), t: types.Typ[types.String]}
			}
			return tint(tAdd(a, b))
		case token.SUB:
			return tint(tSub(a, b))
		case token.MUL:
			return tint(tMul(a, b))
		case token.QUO:
			return tint(tQuo(a, b))
		case token.LSS:
			return tbool(tLt(a, b))
		case token.LEQ:
			return tbool(tLe(a, b))
		case token.GTR:
			return tbool(tLt(b, a))
		case token.GEQ:
			return tbool(tLe(b, a))
		}
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		if !ok {
			specFail("call of %s", exprText(e.Fun))
		}
		return en.call(id.Name, e.Args)
	}
	specFail("expression %s", exprText(e))
	return sval{}
}

func (en *env) equal(a, b sval) *Term {
	return en.r.specEqual(en.st, a.v, b.v)
}

// theSlice is the slice that v is, or the only one in it if it is a struct.
func theSlice(v Value) (*VSlice, bool) {
	switch v := v.(type) {
	case *VSlice:
		return v, true
	case *VStruct:
		var out *VSlice
		for _, f := range v.F {
			if s, ok := f.(*VSlice); ok {
				if out != nil {
					return nil, false
				}
				out = s
			}
		}
		return out, out != nil
	}
	return nil, false
}

// isSyncValue says that values of type t are not copied: those of package sync, and structs with atomics.
func isSyncValue(t types.Type) bool {
	if t == nil || isPointer(t) {
		return false
	}
	if pkgPathOf(t) == "sync" {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || pkgPathOf(t) == "sync/atomic" {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i).Type(); pkgPathOf(f) == "sync/atomic" && !isPointer(f) {
			return true
		}
	}
	return false
}

// specEqual compares whatever two values, also structs and slices as a whole.
func (r *Run) specEqual(st *State, a, b Value) *Term {
	if isNilTerm(a) || isNilTerm(b) {
		return r.equal(st, a, b)
	}
	if x, ok := a.(*VStruct); ok {
		if y, ok := b.(*VStruct); ok && len(x.F) == len(y.F) {
			t := tTrue
			for i := range x.F {
				t = tAnd(t, r.specEqual(st, x.F[i], y.F[i]))
			}
			return t
		}
	}
	if x, ok := a.(*VSlice); ok {
		if y, ok := b.(*VSlice); ok {
			return tAnd(tEq(x.Ref, y.Ref), tEq(x.Off, y.Off), tEq(x.Len, y.Len))
		}
	}
	ta, tb := r.term(st, a), r.term(st, b)
	if ta.sort != tb.sort {
		specFail("comparison of %s and %s", ta, tb)
	}
	return tEq(ta, tb)
}

func (en *env) str(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		specFail("a string is expected instead of %s", exprText(e))
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

func (en *env) call(name string, a []ast.Expr) sval {
	r, st := en.r, en.st
	switch name {
	case "imp":
		c := en.boolean(a[0])
		if c == tFalse || c != tTrue && !st.may(c) {
			return tbool(tTrue)
		}
		return tbool(tImp(c, en.boolean(a[1])))
	case "iff":
		return tbool(tEq(en.boolean(a[0]), en.boolean(a[1])))
	case "ite":
		c := en.boolean(a[0])
		if c == tTrue {
			return en.eval(a[1])
		}
		if c == tFalse {
			return en.eval(a[2])
		}
		x, y := en.eval(a[1]), en.eval(a[2])
		t := x.t
		if t == nil {
			t = y.t
		}
		return sval{v: r.ite(st, c, x.v, y.v), t: t}
	case "base":
		// the array that a slice is part of
		x := en.eval(a[0])
		sl, ok := x.v.(*VSlice)
		if !ok {
			panic(undefined(exprText(a[0])))
		}
		return sval{v: sl.Ref}
	case "off":
		x := en.eval(a[0])
		sl, ok := x.v.(*VSlice)
		if !ok {
			panic(undefined(exprText(a[0])))
		}
		return tint(sl.Off)
	case "let":
		// let(value, func(x any) bool { return ... })
		x := en.eval(a[0])
		f := a[1].(*ast.FuncLit)
		vars := map[string]sval{}
		for k, v := range en.vars {
			vars[k] = v
		}
		vars[f.Type.Params.List[0].Names[0].Name] = x
		return (&env{r: r, st: st, vars: vars, g: en.g}).eval(f.Body.List[0].(*ast.ReturnStmt).Results[0])
	case "zeroAt":
		// the zero value of what a pointer points to
		x := en.eval(a[0])
		t := x.t.Underlying().(*types.Pointer).Elem()
		return sval{v: r.zero(t), t: t}
	case "defined":
		ok := true
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, u := x.(undefined); u {
						ok = false
						return
					}
					panic(x)
				}
			}()
			en.eval(a[0])
		}()
		return tbool(tBool(ok))
	case "ref":
		// the identity of a place or a reference
		if p, ok := en.lvalue(a[0]); ok {
			switch p.T.Underlying().(type) {
			case *types.Chan, *types.Map, *types.Pointer, *types.Interface, *types.Signature:
				v := r.load(st, p.Obj, p.Path)
				return sval{v: v, t: p.T}
			}
			return sval{v: p, t: types.NewPointer(p.T)}
		}
		return en.eval(a[0])
	case "len":
		x := en.eval(a[0])
		if s, ok := theSlice(x.v); ok {
			return tint(s.Len)
		}
		return tint(r.strLen(st, r.term(st, x.v)))
	case "cap":
		x := en.eval(a[0])
		if s, ok := x.v.(*VSlice); ok {
			return tint(s.Cap)
		}
		return tint(tUF("chancap", sInt, r.term(st, x.v)))
	case "elem":
		x := en.eval(a[0])
		s, ok := theSlice(x.v)
		if !ok {
			panic(undefined(exprText(a[0])))
		}
		v := r.elem(st, s, en.tm(a[1]))
		return sval{v: v, t: s.Elem}
	case "has":
		x := en.eval(a[0])
		m := x.t.Underlying().(*types.Map)
		return tbool(tSelect(r.mapHas(st, x.v, m), en.tm(a[1])))
	case "val":
		x := en.eval(a[0])
		m := x.t.Underlying().(*types.Map)
		return sval{v: tSelect(r.mapVals(st, x.v, m), en.tm(a[1])), t: m.Elem()}
	case "credit":
		i := r.c.balIndex(a[0])
		if i < 0 {
			specFail("credit of %s, which is not balanced", exprText(a[0]))
		}
		return tint(r.led(st, balKey(i)))
	case "made":
		n := en.str(a[0])
		o := r.made(st, n)
		if o == nil {
			panic(undefined("made " + n))
		}
		return sval{v: &VPtr{Obj: o, T: o.typ}, t: types.NewPointer(o.typ)}
	case "wraps":
		x, y := en.tm(a[0]), en.tm(a[1])
		return tbool(tOr(tEq(x, y), tAnd(tNot(tEq(x, tZero)), wraps(x, y))))
	case "isContextErr":
		x := en.tm(a[0])
		can, dl := r.ctxErrs(st)
		return tbool(tOr(tEq(x, can), tEq(x, dl)))
	case "cancelled":
		return tbool(r.cancelFlag(st, en.tm(a[0])))
	case "ctxerr":
		return sval{v: r.ctxErr(st, en.tm(a[0]))}
	case "ctxroot":
		return sval{v: ctxRoot(en.tm(a[0]))}
	case "ctxof":
		// the Context that a channel of Done() is of
		t := en.tm(a[0])
		if t.op == "uf" && t.name == "ctxdone" {
			return sval{v: t.args[0]}
		}
		return sval{v: tInt(-1)}
	case "done":
		return sval{v: tUF("ctxdone", sInt, canonCtx(en.tm(a[0])))}
	case "cancelfn":
		return sval{v: tUF("cancelfn", sInt, canonCtx(en.tm(a[0])))}
	case "derives":
		// a Context that is cancelled when another one is
		return tbool(r.derives(st, en.tm(a[0]), canonCtx(en.tm(a[1]))))
	case "waitsOn":
		// the operation that blocks includes one on this channel
		c := en.tm(a[0])
		res := tFalse
		for _, x := range r.blockOn {
			res = tOr(res, tEq(r.term(st, x), c))
		}
		return tbool(res)
	case "waitsOnCtx":
		// the operation that blocks ends if the Context is cancelled
		p := canonCtx(en.tm(a[0]))
		res := tFalse
		for _, x := range r.blockOn {
			t := r.term(st, x)
			if t.op == "uf" && t.name == "ctxdone" {
				res = tOr(res, r.derives(st, t.args[0], p))
			}
		}
		return tbool(res)
	case "held":
		p, ok := en.lvalue(a[0])
		if !ok {
			panic(undefined(exprText(a[0])))
		}
		return tbool(tBool(st.held[r.term(st, p).String()] == "w"))
	case "heldAny":
		return tbool(tBool(len(st.held) > 0))
	case "joined":
		return tbool(tBool(len(st.live) == 0))
	case "isKind":
		// the kind of a block event
		return tbool(tBool(r.curEvent != nil && r.curEvent.str == en.str(a[0])))
	case "isNew":
		// made by this code and not known to others
		x := en.eval(a[0])
		switch v := x.v.(type) {
		case *VPtr:
			return tbool(tBool(v.Obj.fresh))
		case *VSlice:
			if v.Arr != nil {
				return tbool(tBool(v.Arr.fresh && !st.escaped[v.Arr]))
			}
			return tbool(tOr(tEq(v.Ref, tZero), tLe(tInt(freshBase), v.Ref)))
		}
		t := r.term(st, x.v)
		return tbool(tLe(tInt(freshBase), t))
	case "recorded":
		// the Group recorded this error
		return tbool(tSelect(st.ghosts["grp.errs"].(*Term), en.tm(a[0])))
	case "groupFailed":
		return tbool(st.ghosts["grp.any"].(*Term))
	case "recording":
		return tbool(r.recording(st, spanTerm(r, st, en.eval(a[0]).v)))
	case "records":
		return tbool(r.recBase(en.tm(a[0])))
	case "spanof":
		return sval{v: tUF("ctxspan", sInt, en.tm(a[0]))}
	case "spanparent":
		return sval{v: tUF("spanparent", sInt, en.tm(a[0]))}
	case "bound":
		return sval{v: tUF("bound:Start", sInt, en.tm(a[0]))}
	case "uf":
		var ts []*Term
		for _, x := range a[1:] {
			ts = append(ts, en.tm(x))
		}
		return sval{v: tUF("spec:"+en.str(a[0]), sInt, ts...)}
	case "ufbool":
		var ts []*Term
		for _, x := range a[1:] {
			ts = append(ts, en.tm(x))
		}
		return tbool(tUF("specb:"+en.str(a[0]), sBool, ts...))
	case "unface": // the value in an interface value
		x := en.eval(a[0])
		if i, ok := x.v.(*VIface); ok {
			return sval{v: i.V, t: i.T}
		}
		if t, ok := x.v.(*Term); ok {
			if i, ok := r.ifaces[t.id]; ok {
				return sval{v: i.V, t: i.T}
			}
		}
		panic(undefined(exprText(a[0])))
	case "reflected": // what reflect.ValueOf was given
		return sval{v: tUF("reflected", sInt, en.tm(a[0]))}
	case "itoa":
		return sval{v: r.itoa(st, en.tm(a[0])), t: types.Typ[types.String]}
	case "matchesRE":
		t, ok := r.matchTerm(en.tm(a[0]), en.str(a[1]))
		if !ok {
			specFail("regular expression")
		}
		return tbool(t)
	case "sameHidden":
		// the fields that other packages cannot set are the same
		x, y := en.eval(a[0]), en.eval(a[1])
		s, ok1 := x.v.(*VStruct)
		u, ok2 := y.v.(*VStruct)
		t, ok3 := x.t.Underlying().(*types.Struct)
		if !ok1 || !ok2 || !ok3 || len(s.F) != len(u.F) {
			specFail("sameHidden of something that is not a struct")
		}
		c := tTrue
		for i := range s.F {
			if !t.Field(i).Exported() {
				c = tAnd(c, r.specEqual(st, s.F[i], u.F[i]))
			}
		}
		return tbool(c)
	case "owned":
		// what refers to an owner refers to this one
		x, p := en.eval(a[0]), en.eval(a[1])
		s, ok := x.v.(*VStruct)
		if !ok {
			return tbool(tTrue)
		}
		c := tTrue
		for i, f := range ownerFields(x.t, p.t) {
			if f {
				c = tAnd(c, r.specEqual(st, s.F[i], p.v))
			}
		}
		return tbool(c)
	case "anyInt":
		return tint(tVar("any:"+en.str(a[0]), sInt))
	case "anyString":
		return sval{v: tVar("anys:"+en.str(a[0]), r.strSort()), t: types.Typ[types.String]}
	case "emptySet":
		return sval{v: tConstArr(sArr(sInt, sBool), tFalse)}
	case "emptyMap":
		return sval{v: tConstArr(sArr(sInt, sInt), tZero)}
	case "get":
		return sval{v: tSelect(en.tm(a[0]), en.tm(a[1]))}
	case "put":
		return sval{v: tStore(en.tm(a[0]), en.tm(a[1]), en.tm(a[2]))}
	case "term":
		return sval{v: en.tm(a[0])}
	case "run":
		// runs a method of the code: run(p, "Len", args...)
		return en.run(a)
	case "apply":
		// calls a function value of the code
		return en.apply(a)
	case "funcv":
		f := r.P.lookup(en.str(a[0]), en.str(a[1]))
		if f == nil {
			panic(undefined(en.str(a[1])))
		}
		return sval{v: &VClosure{Fn: f}, t: f.Signature}
	case "index":
		x := en.eval(a[0])
		tp, ok := x.v.(VTuple)
		if !ok {
			specFail("index of %T", x.v)
		}
		k := en.tm(a[1]).val.Int64()
		var t types.Type
		if tt, ok := x.t.(*types.Tuple); ok {
			t = tt.At(int(k)).Type()
		}
		return sval{v: tp[k], t: t}
	case "anyOf":
		// any value of a type: anyOf("pkg", "T")
		ty := r.P.typeNamed(en.str(a[0]), en.str(a[1]))
		if ty == nil {
			panic(undefined(en.str(a[1])))
		}
		t := ty.Type()
		return sval{v: r.build(st, t, "any."+en.str(a[1]), true, func(n, so string) *Term { return tVar(n, so) }), t: t}
	case "iface":
		// a pointer as an interface value
		x := en.eval(a[0])
		if _, ok := x.v.(*VIface); ok {
			return x
		}
		return sval{v: &VIface{T: x.t, V: x.v}, t: x.t}
	case "poolname":
		return sval{v: tUF("poolname", r.strSort(), en.tm(a[0])), t: types.Typ[types.String]}
	case "numbered":
		// x is base, a hyphen and a number
		x, b := en.tm(a[0]), en.tm(a[1])
		pre := tOp("str.++", sStr, b, tString("-"))
		rest := tOp("str.substr", sStr, x, tOp("str.len", sInt, pre), tOp("str.len", sInt, x))
		d := digits()
		return tbool(tAnd(tOp("str.prefixof", sBool, pre, x), tOp("str.in_re", sBool, rest, d)))
	case "optionTarget":
		return en.optionTarget(a)
	case "forall":
		// forall(func(i int) bool)
		f := a[0].(*ast.FuncLit)
		n := f.Type.Params.List[0].Names[0].Name
		x := tFresh("q."+n, sInt)
		boundVars.Store(x.id, true)
		vars := map[string]sval{}
		for k, v := range en.vars {
			vars[k] = v
		}
		vars[n] = tint(x)
		b := (&env{r: r, st: st, vars: vars, g: en.g}).boolean(f.Body.List[0].(*ast.ReturnStmt).Results[0])
		return tbool(tForall([]*Term{x}, b))
	case "progressed":
		return tbool(tBool(st.progress))
	case "implements":
		return en.implements(a)
	}
	specFail("unknown function %s", name)
	return sval{}
}

// made finds the object of a type that the code allocated.
func (r *Run) made(st *State, name string) *Obj {
	has := map[int]bool{}
	for k := range st.cells {
		has[k.obj] = true
	}
	var best *Obj
	for id, o := range r.objs {
		if !o.fresh || o.backing || namedName(o.typ) != name || !has[id] && !st.escaped[o] {
			continue
		}
		// not a variable that it was only built in
		if best == nil || best.local && !o.local || best.local == o.local && o.id > best.id {
			best = o
		}
	}
	return best
}

// otherNamed says if a and b are different named types.
func otherNamed(a, b types.Type) bool {
	x, ok1 := types.Unalias(a).(*types.Named)
	y, ok2 := types.Unalias(b).(*types.Named)
	if ok1 && ok2 {
		return x.Obj() != y.Obj()
	}
	// a type that has a name is not one that has none
	_, tp1 := types.Unalias(a).(*types.TypeParam)
	_, tp2 := types.Unalias(b).(*types.TypeParam)
	return ok1 != ok2 && !tp1 && !tp2
}

// fire runs the handlers of an event.
func (r *Run) fire(st *State, ev *event) {
	old := r.curEvent
	r.curEvent = ev
	defer func() { r.curEvent = old }()
	for _, h := range r.c.handlers {
		if st.dead {
			return
		}
		if h.ev != ev.name && !(strings.HasSuffix(h.ev, "*") && strings.HasPrefix(ev.name, strings.TrimSuffix(h.ev, "*"))) {
			continue
		}
		if h.sig != "" && h.sig != ev.sig && h.sig != ev.str {
			continue
		}
		g := tTrue
		if h.filter != nil {
			if ev.sig != "" && h.sig == "" {
				if x, ok := r.tryEval(st, h.filter); ok && x.t != nil {
					if sg, isF := x.t.Underlying().(*types.Signature); isF && sigString(sg) != ev.sig {
						continue
					}
				}
			}
			if ev.name == "send" || ev.name == "recv" {
				if x, ok := r.tryEval(st, h.filter); ok && x.t != nil {
					if c, isC := x.t.Underlying().(*types.Chan); isC && otherNamed(c.Elem(), ev.args[0].t) {
						continue
					}
				}
			}
			g = r.matchesT(st, h.filter, ev.subj.v, ev.subj.t)
			if g == tFalse {
				continue
			}
		}
		en := &env{r: r, st: st, vars: map[string]sval{}, g: g}
		if ev.subj.v != nil {
			en.vars["subject"] = ev.subj
		}
		for i, p := range h.params {
			if i < len(ev.args) {
				en.vars[p] = ev.args[i]
			}
		}
		en.exec(h.body, ev.pos)
	}
}

func (en *env) exec(body []ast.Stmt, pos token.Pos) {
	r, st := en.r, en.st
	for _, s := range body {
		if st.dead {
			return
		}
		switch s := s.(type) {
		case *ast.AssignStmt:
			n := s.Lhs[0].(*ast.Ident).Name
			v := en.eval(s.Rhs[0])
			if s.Tok == token.DEFINE {
				en.vars[n] = v
				continue
			}
			old, ok := st.ghosts[n]
			if !ok {
				specFail("%s is not a ghost variable", n)
			}
			if s.Tok == token.ADD_ASSIGN {
				v.v = tAdd(old.(*Term), v.v.(*Term))
			}
			if s.Tok == token.SUB_ASSIGN {
				v.v = tSub(old.(*Term), v.v.(*Term))
			}
			st.ghosts[n] = r.ite(st, en.g, v.v, old)
			if v.t != nil {
				r.ghostTypes[n] = v.t
			}
		case *ast.IncDecStmt:
			n := s.X.(*ast.Ident).Name
			d := tOne
			if s.Tok == token.DEC {
				d = tInt(-1)
			}
			old := st.ghosts[n].(*Term)
			st.ghosts[n] = tIte(en.g, tAdd(old, d), old)
		case *ast.IfStmt:
			c := en.boolean(s.Cond)
			g := en.g
			if c != tFalse {
				en.g = tAnd(g, c)
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(undefined); ok && !st.may(en.g) {
								return
							}
							panic(x)
						}
					}()
					en.exec(s.Body.List, pos)
				}()
			}
			if s.Else != nil && c != tTrue {
				en.g = tAnd(g, tNot(c))
				switch x := s.Else.(type) {
				case *ast.BlockStmt:
					en.exec(x.List, pos)
				case *ast.IfStmt:
					en.exec([]ast.Stmt{x}, pos)
				}
			}
			en.g = g
		case *ast.ExprStmt:
			call := s.X.(*ast.CallExpr)
			switch n := call.Fun.(*ast.Ident).Name; n {
			case "assert":
				props := strings.Split(strings.ReplaceAll(en.str(call.Args[0]), " ", ""), ",")
				if !r.selected(props) {
					continue
				}
				var c *Term
				und := ""
				func() {
					defer func() {
						if x := recover(); x != nil {
							if u, ok := x.(undefined); ok {
								und = string(u)
								return
							}
							panic(x)
						}
					}()
					c = en.boolean(call.Args[1])
				}()
				if und != "" {
					specFail("%s in %s is not defined", und, exprText(call.Args[1]))
				}
				r.oblige(st, props, en.str(call.Args[2]), tImp(en.g, c), pos)
			case "assume":
				en.sameHidden(call.Args[0])
				en.owned(call.Args[0])
				st.assume(tImp(en.g, en.boolean(call.Args[0])))
			case "quiet":
				p, ok := en.pointee(en.eval(call.Args[0]))
				if ok && en.g == tTrue {
					st.quiet[p.Obj] = true
				}
			case "unquiet":
				if p, ok := en.pointee(en.eval(call.Args[0])); ok {
					delete(st.quiet, p.Obj)
				}
			case "havoc":
				for _, a := range call.Args {
					if p, ok := en.lvalue(a); ok {
						r.store(st, p.Obj, p.Path, r.symbolic(st, p.T, "havoc."+pathName(p.Obj.typ, p.Path), true))
					} else {
						id, ok := a.(*ast.Ident)
						if !ok {
							specFail("havoc of %s", exprText(a))
						}
						t := st.ghosts[id.Name].(*Term)
						st.ghosts[id.Name] = tFresh("havoc."+id.Name, t.sort)
					}
				}
			case "stop":
				st.assume(tNot(en.g))
			default:
				specFail("statement %s", n)
			}
		default:
			specFail("statement %T", s)
		}
	}
}

// selected says if one of the properties is checked in this run.
func (r *Run) selected(props []string) bool {
	if r.only == "" {
		return true
	}
	for _, p := range props {
		if p == r.only {
			return true
		}
	}
	return false
}

func (en *env) run(a []ast.Expr) sval {
	r, st := en.r, en.st
	recv := en.eval(a[0])
	name := en.str(a[1])
	var args []Value
	args = append(args, recv.v)
	for _, x := range a[2:] {
		args = append(args, en.eval(x).v)
	}
	t := recv.t
	if i, ok := recv.v.(*VIface); ok {
		t = i.T
		args[0] = i.V
	}
	fn := r.P.methodByName(t, name)
	if fn == nil {
		panic(undefined(name))
	}
	return en.outcomes(fn.Signature.Results(), func(c *State) []outcome {
		return r.callFunc(c, fn, args, nil, fn.Signature, token.NoPos)
	}, st)
}

func (en *env) apply(a []ast.Expr) sval {
	r, st := en.r, en.st
	f := en.eval(a[0])
	sig, ok := f.t.Underlying().(*types.Signature)
	if !ok {
		if c, isC := f.v.(*VClosure); isC {
			sig = c.Fn.Signature
		} else {
			specFail("apply of %s", exprText(a[0]))
		}
	}
	var args []Value
	for _, x := range a[1:] {
		args = append(args, en.eval(x).v)
	}
	return en.outcomes(sig.Results(), func(c *State) []outcome {
		return r.callValue(c, f.v, args, sig, token.NoPos, false)
	}, st)
}

// outcomes executes code in the contract and joins the results.
func (en *env) outcomes(res *types.Tuple, f func(c *State) []outcome, st *State) sval {
	r := en.r
	c := st.clone()
	c.frames = nil
	base := c.pc
	hs := r.c.handlers
	r.c.handlers = nil
	r.infer++
	outs := f(c)
	r.infer--
	r.c.handlers = hs
	var v Value
	var any []*Term
	n := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		var ts []*Term
		for p := o.st.pc; p != nil && p != base; p = p.parent {
			ts = append(ts, p.t)
		}
		cond := tAnd(ts...)
		any = append(any, cond)
		if n == 0 {
			v = o.v
		} else {
			v = r.ite(st, cond, o.v, v)
		}
		n++
	}
	if n == 0 {
		panic(undefined("no result"))
	}
	st.assume(tOr(any...))
	var t types.Type
	if res.Len() == 1 {
		t = res.At(0).Type()
	} else {
		t = res
	}
	return sval{v: v, t: t}
}

// optionTarget applies a call option to a value of a struct type and gives the struct:
// optionTarget(option, "T").
func (en *env) optionTarget(a []ast.Expr) sval {
	r, st := en.r, en.st
	opt := en.eval(a[0])
	v := opt.v
	if i, ok := v.(*VIface); ok {
		v = i.V
	}
	s, ok := v.(*VStruct)
	if !ok {
		panic(undefined("option"))
	}
	var f *VClosure
	for _, x := range s.F {
		if t, ok := x.(*Term); ok && t.op == "uf" && t.name == "calloption" {
			f = r.closures[t.args[0].id]
		}
	}
	if f == nil {
		panic(undefined("function of the option"))
	}
	ty := r.P.typeNamed(r.c.Pkg, en.str(a[1]))
	if ty == nil {
		panic(undefined(en.str(a[1])))
	}
	c := st
	o := r.newObj(ty.Type(), "options", true, false)
	c.cells[cellKey{o.id, ".marker"}] = tTrue
	r.store(c, o, "", r.symbolic(c, ty.Type(), "before", true))
	before := r.load(c, o, "")
	ptr := &VIface{T: types.NewPointer(ty.Type()), V: &VPtr{Obj: o, T: ty.Type()}}
	x := c.clone()
	x.frames = nil
	hs := r.c.handlers
	r.c.handlers = nil
	r.infer++
	outs := r.callFunc(x, f.Fn, []Value{ptr}, f.Bind, f.Fn.Signature, token.NoPos)
	r.infer--
	r.c.handlers = hs
	if len(outs) != 1 {
		panic(undefined("option with several results"))
	}
	res := outs[0]
	for p := res.st.pc; p != nil && p != st.pc; p = p.parent {
		st.assume(p.t)
	}
	return sval{v: VTuple{before, r.load(res.st, o, ""), r.term(res.st, res.v)}, t: types.NewTuple(types.NewVar(0, nil, "", ty.Type()), types.NewVar(0, nil, "", ty.Type()), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))}
}

// implements(x, "pkg", "Interface") says if the dynamic type of x implements an interface.
func (en *env) implements(a []ast.Expr) sval {
	v := en.eval(a[0])
	i, ok := v.v.(*VIface)
	if !ok {
		panic(undefined(exprText(a[0])))
	}
	p := en.r.P.types[en.str(a[1])]
	if p == nil {
		panic(undefined(en.str(a[1])))
	}
	o := p.Scope().Lookup(en.str(a[2]))
	if o == nil {
		panic(undefined(en.str(a[2])))
	}
	return tbool(tBool(types.Implements(i.T, o.Type().Underlying().(*types.Interface))))
}

func constInt(s string) (*Term, bool) {
	i, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return nil, false
	}
	return tInt(i), true
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// atomicContent is the type of what is in an atomic, or t itself.
func atomicContent(t types.Type) types.Type {
	if pkgPathOf(t) != "sync/atomic" {
		return t
	}
	switch namedName(t) {
	case "Pointer":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs().Len() == 1 {
			return types.NewPointer(n.TypeArgs().At(0))
		}
	case "Bool":
		return types.Typ[types.Bool]
	case "Int64", "Int32", "Uint64", "Uint32":
		return types.Typ[types.Int64]
	}
	return t
}

// derives says if Context c is cancelled when p is.
func (r *Run) derives(st *State, c, p *Term) *Term {
	if c.op == "ite" {
		return tIte(c.args[0], r.derives(st, c.args[1], p), r.derives(st, c.args[2], p))
	}
	c = canonCtx(c)
	res := tEq(c, p)
	for i := 0; i < 10; i++ {
		par, ok := st.mem[memKey("ctxparent", c)]
		if !ok {
			break
		}
		c = canonCtx(par.(*Term))
		res = tOr(res, tEq(c, p))
	}
	return res
}

// refGhosts are the ghosts that only remember values and are not counted with.
func (c *Contract) refGhosts() map[string]bool {
	c.refOnce.Do(func() {
		set, counted := map[string]bool{}, map[string]bool{}
		ast.Inspect(c.decl, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IncDecStmt:
				if id, ok := n.X.(*ast.Ident); ok {
					counted[id.Name] = true
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "ctxroot" {
					c.roots = true
				}
			case *ast.AssignStmt:
				for i, l := range n.Lhs {
					id, ok := l.(*ast.Ident)
					if !ok || i >= len(n.Rhs) {
						continue
					}
					set[id.Name] = true
					ast.Inspect(n.Rhs[i], func(m ast.Node) bool {
						switch m := m.(type) {
						case *ast.BasicLit:
							counted[id.Name] = true
						case *ast.BinaryExpr:
							switch m.Op {
							case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
								counted[id.Name] = true
							}
						}
						return true
					})
				}
			}
			return true
		})
		c.refs = map[string]bool{}
		for n := range set {
			if !counted[n] {
				c.refs[n] = true
			}
		}
	})
	return c.refs
}

// ctxRoot identifies the Contexts that only differ in their span.
func ctxRoot(c *Term) *Term { return tUF("ctxroot", sInt, canonCtx(c)) }

// sameHidden makes the hidden fields of a new value those that are assumed to be equal to them.
func (en *env) sameHidden(e ast.Expr) {
	call, ok := e.(*ast.CallExpr)
	if !ok || en.g != tTrue || len(call.Args) != 2 {
		return
	}
	if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "sameHidden" {
		return
	}
	x, y := en.eval(call.Args[0]), en.eval(call.Args[1])
	s, ok1 := x.v.(*VStruct)
	u, ok2 := y.v.(*VStruct)
	t, ok3 := x.t.Underlying().(*types.Struct)
	if !ok1 || !ok2 || !ok3 || s == u || len(s.F) != len(u.F) {
		return
	}
	for i := range s.F {
		if !t.Field(i).Exported() && unconstrained(u.F[i]) {
			u.F[i] = s.F[i]
		}
	}
}

// ownerFields says which fields of struct type t are of type owner.
func ownerFields(t, owner types.Type) []bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := make([]bool, s.NumFields())
	for i := range out {
		out[i] = types.Identical(s.Field(i).Type(), owner)
	}
	return out
}

// owned makes the fields of a value that was received those that are assumed to be equal to them.
func (en *env) owned(e ast.Expr) {
	call, ok := e.(*ast.CallExpr)
	if !ok || en.g != tTrue || len(call.Args) != 2 {
		return
	}
	if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "owned" {
		return
	}
	x, p := en.eval(call.Args[0]), en.eval(call.Args[1])
	s, ok := x.v.(*VStruct)
	if !ok {
		return
	}
	for i, f := range ownerFields(x.t, p.t) {
		if t, ok := s.F[i].(*Term); f && ok && t.op == "var" {
			s.F[i] = p.v
		}
	}
}

// unconstrained says if a value is what an unknown function returned.
func unconstrained(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return v.op == "var" && strings.HasPrefix(v.name, "dyn")
	case *VStruct:
		for _, f := range v.F {
			if !unconstrained(f) {
				return false
			}
		}
		return true
	}
	return false
}
