package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// result is what came out of the verification of one contract.
type result struct {
	c           *Contract
	fn          string
	obls        []*Obligation
	problem     string // the contract could not be checked
	functions   []string
	assumptions []string
	externals   []string
	loops       map[string]string
	exits       int
	queries     int
	solver      time.Duration
	fallbacks   map[string]int
	second      map[string]int
	wall        time.Duration
}

// find resolves the target of a contract.
func (P *Program) find(c *Contract) *ssa.Function {
	if fn := P.lookup(c.Pkg, c.Fn); fn != nil {
		return fn
	}
	if c.Sig == "" {
		return nil
	}
	// renamed: the only new function with this signature
	p := P.pkgs[c.Pkg]
	if p == nil {
		return nil
	}
	known := P.baseline["funcs:"+c.Pkg]
	recv := ""
	if i := strings.Index(c.Fn, ")."); i > 0 {
		recv = c.Fn[:i+1]
		name := strings.Trim(recv, "(*)")
		if n := P.renamed[c.Pkg+"."+name]; n != "" {
			recv = strings.Replace(recv, name, n, 1)
		}
	}
	var found []*ssa.Function
	for n, f := range P.packageFuncs(c.Pkg) {
		if _, ok := known[n]; ok || sigString(f.Signature) != c.Sig {
			continue
		}
		if recv != "" && !strings.HasPrefix(n, recv) || recv == "" && strings.HasPrefix(n, "(") {
			continue
		}
		found = append(found, f)
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// packageFuncs lists the functions and methods of a package by the names that contracts use.
func (P *Program) packageFuncs(pkg string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	p := P.pkgs[pkg]
	for n, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			out[n] = m
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				f := P.prog.FuncValue(nt.Method(i))
				if f == nil {
					continue
				}
				star := ""
				if _, ok := nt.Method(i).Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
					star = "*"
				}
				out[fmt.Sprintf("(%s%s).%s", star, n, nt.Method(i).Name())] = f
			}
		}
	}
	return out
}

// verify checks one contract.
func verify(P *Program, c *Contract, only string, timeoutMS int, second chan bool) (res *result) {
	res = &result{c: c, fn: c.Pkg + "." + c.Fn}
	t0 := time.Now()
	r := newRun(P, c, timeoutMS)
	r.only = only
	r.exactStrings = c.exact
	if second != nil {
		r.second = newSecondOpinion(second, t0.Add(200*time.Second))
	}
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				res.problem = "outside of the verifier's reach: " + string(x)
			case specError:
				res.problem = "contract: " + string(x)
			case undefined:
				res.problem = "contract: " + string(x) + " is not defined"
			default:
				res.problem = fmt.Sprintf("internal error: %v", x)
				if os.Getenv("GOVC_DEBUG") != "" {
					res.problem += "\n" + string(debug.Stack())
				}
			}
		}
		res.obls = r.obls
		res.functions = keys(r.functions)
		res.assumptions = keys(r.assumptions)
		res.externals = keys(r.externals)
		res.loops = r.loopsSeen
		res.exits = r.exits
		res.queries = r.solver.queries
		res.solver = r.solver.time
		res.fallbacks = r.solver.fallbacks
		if r.second != nil {
			res.second = r.second.wait()
		}
		res.wall = time.Since(t0)
		r.solver.close()
	}()
	fn := P.find(c)
	if fn == nil {
		res.problem = fmt.Sprintf("contract: there is no function %s in %s", c.Fn, c.Pkg)
		return res
	}
	r.target = fn
	for _, o := range c.opaque {
		of := P.find(o)
		if of == nil {
			res.problem = fmt.Sprintf("contract: there is no function %s in %s", o.Fn, o.Pkg)
			return res
		}
		r.opaque[of] = o.Fn
	}
	r.root()
	if r.exits == 0 && !c.mayNotReturn && res.problem == "" {
		bad := false
		for _, o := range r.obls {
			if o.Result != "proved" {
				bad = true
			}
		}
		if !bad {
			res.problem = "contract: the function never returns"
		}
	}
	return res
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// root verifies the target on its own, for all arguments.
func (r *Run) root() {
	c, fn := r.c, r.target
	st := &State{r: r, facts: map[int]bool{}, cells: map[cellKey]Value{}, ghosts: map[string]Value{}, ledger: map[string]*Term{},
		held: map[string]string{}, escaped: map[*Obj]bool{}, frozen: map[*Obj]bool{}, quiet: map[*Obj]bool{}, mem: map[string]Value{},
		acc: map[access]bool{}, spec: map[string]sval{}}
	var args []Value
	if len(c.params) > 0 && len(c.params) != len(fn.Params) {
		specFail("%s has %d parameters, the contract %d", c.Fn, len(fn.Params), len(c.params))
	}
	for i, p := range fn.Params {
		v := r.symbolic(st, p.Type(), "in."+p.Name(), true)
		if t, ok := v.(*Term); ok {
			if i == 0 && fn.Signature.Recv() != nil {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
					st.assume(tLt(tZero, t))
					o := r.objAt(st, t, pt.Elem(), false)
					r.entryObj[o.id] = true
					v = &VPtr{Obj: o, T: pt.Elem()}
				}
			}
			if n, ok := types.Unalias(p.Type()).(*types.Named); ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" {
				st.assume(tLt(tZero, t)) // a Context is not nil
			}
		}
		args = append(args, v)
		if i < len(c.params) {
			st.spec[c.params[i]] = sval{v: v, t: p.Type()}
		}
	}
	if c.group {
		st.ghosts["grp.any"] = tFalse
		st.ghosts["grp.errs"] = tConstArr(sArr(sInt, sBool), tFalse)
	}
	var later []Value
	if len(c.applied) > 0 {
		sig, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
		if fn.Signature.Results().Len() != 1 || !ok || sig.Params().Len() != len(c.applied) {
			specFail("%s does not return a function with these parameters", c.Fn)
		}
		for i, n := range c.applied {
			t := sig.Params().At(i).Type()
			v := r.symbolic(st, t, "in."+n, true)
			if x, ok := v.(*Term); ok {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					st.assume(tLt(tZero, x))
					o := r.objAt(st, x, pt.Elem(), false)
					r.entryObj[o.id] = true
					v = &VPtr{Obj: o, T: pt.Elem()}
				}
			}
			later = append(later, v)
			st.spec[n] = sval{v: v, t: t}
		}
	}
	let := func(l *letStmt) sval {
		v, ok := r.tryEval(st, l.expr)
		if !ok {
			specFail("%s = %s is not defined", l.name, exprText(l.expr))
		}
		return v
	}
	for _, l := range c.entry {
		st.spec[l.name] = let(l)
	}
	for _, e := range c.requires {
		v, ok := r.tryEval(st, e)
		if !ok {
			specFail("requires %s is not defined", exprText(e))
		}
		st.assume(v.v.(*Term))
		// a string that is put together from parts
		if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if id, ok := b.X.(*ast.Ident); ok {
				for i, n := range c.params {
					if x, isT := args[min(i, len(args)-1)].(*Term); n == id.Name && i < len(args) && isT && x.sort == sStr {
						if y, ok := r.tryEval(st, b.Y); ok {
							args[i] = y.v
							st.spec[n] = sval{v: y.v, t: st.spec[n].t}
						}
					}
				}
			}
		}
	}
	for _, e := range c.quiet {
		en := &env{r: r, st: st, g: tTrue}
		p, ok := en.pointee(en.eval(e))
		if !ok {
			specFail("quiet(%s): not a pointer", exprText(e))
		}
		st.quiet[p.Obj] = true
	}
	if len(c.requires) > 0 && r.solver.check(st.pc, nil) == "unsat" {
		specFail("the precondition is never met")
	}
	for _, l := range c.ghosts {
		v := let(l)
		st.ghosts[l.name] = v.v
		if v.t != nil {
			r.ghostTypes[l.name] = v.t
		}
	}
	rets, sig := r.callInline(st, fn, args, nil), fn.Signature
	if len(c.applied) > 0 {
		sig = sig.Results().At(0).Type().Underlying().(*types.Signature)
		var all []outcome
		for _, o := range rets {
			if o.st.dead {
				continue
			}
			if f, ok := o.v.(*VClosure); ok {
				all = append(all, r.callKnown(o.st, f, later, sig, fn.Pos())...)
			} else {
				all = append(all, r.dynCall(o.st, r.term(o.st, o.v), later, sig, fn.Pos())...)
			}
		}
		rets = all
	}
	for _, o := range rets {
		s := o.st
		if s.dead {
			continue
		}
		r.exits++
		switch {
		case len(c.results) == 0:
		case len(c.results) == 1:
			s.spec[c.results[0]] = sval{v: o.v, t: sig.Results().At(0).Type()}
		default:
			t, ok := o.v.(VTuple)
			if !ok || len(t) != len(c.results) {
				specFail("results")
			}
			for i, n := range c.results {
				s.spec[n] = sval{v: t[i], t: sig.Results().At(i).Type()}
			}
		}
		if len(s.held) > 0 {
			r.oblige(s, c.auto("lock"), "all locks are released on return", tFalse, fn.Pos())
		}
		r.checkBalance(s, "call", fn.Pos())
		for _, e := range c.ensures {
			if s.dead {
				break
			}
			if !r.selected(e.props) {
				continue
			}
			v, ok := r.tryEval(s, e.expr)
			if !ok {
				specFail("postcondition %q is not defined", e.label)
			}
			r.oblige(s, e.props, e.label, v.v.(*Term), fn.Pos())
		}
	}
}

// ---- the command ----

type known struct {
	property, label, text string
}

// readKnown reads the file with the known findings.
func readKnown(f string) []known {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " | ", 3)
		if len(f) == 3 {
			out = append(out, known{strings.TrimSpace(f[0]), strings.TrimSpace(f[1]), strings.TrimSpace(f[2])})
		}
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "the source")
	dir := flag.String("contracts", "/verif/contracts", "the contracts")
	prop := flag.String("prop", "", "the property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("verif", "/verif", "")
	one := flag.String("contract", "", "only this contract")
	verbose := flag.Bool("v", false, "list the obligations")
	noReplay := flag.Bool("noreplay", false, "do not look for a failing run")
	baseline := flag.Bool("baseline", false, "write the names of the fields and functions")
	flag.Parse()
	os.Exit(run(*repo, *dir, *prop, *tier, *root, *one, *verbose, *noReplay, *baseline))
}

// deadline is when a check gives up, so that it has an answer in time.
var deadline = time.Now().Add(420 * time.Second)

func run(repo, dir, prop, tier, root, only string, verbose, noReplay, baseline bool) int {
	t0 := time.Now()
	P, lerr := loadProgram(repo)
	if lerr == nil && baseline {
		return writeBaseline(P, filepath.Join(dir, "names.json"))
	}
	cs, err := loadContracts(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		return 2
	}
	var todo []*Contract
	for _, c := range cs {
		if (prop == "" || c.props[prop]) && (only == "" || c.Name == only) {
			todo = append(todo, c)
		}
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "govc: no contract")
		return 2
	}
	var results []*result
	if lerr != nil {
		results = append(results, &result{c: todo[0], problem: lerr.Error()})
	} else {
		readBaseline(P, filepath.Join(dir, "names.json"))
		timeout := 10000
		if tier == "thorough" {
			timeout = 60000
		}
		var second chan bool
		if tier == "thorough" {
			second = make(chan bool, runtime.NumCPU())
		}
		results = make([]*result, len(todo))
		var wg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		for i, c := range todo {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				results[i] = verify(P, c, prop, timeout, second)
			}()
		}
		wg.Wait()
	}
	return report(results, prop, tier, root, repo, verbose, noReplay, time.Since(t0))
}

func report(results []*result, prop, tier, root, repo string, verbose, noReplay bool, wall time.Duration) int {
	type failure struct {
		contract, fn, label, pos string
		o                        *Obligation
		problem                  string
	}
	var fails []failure
	total, ok := 0, 0
	labels := map[string]bool{}
	var samples []any
	fns, ass, ext := map[string]bool{}, map[string]bool{}, map[string]bool{}
	queries := 0
	var solver time.Duration
	backends := map[string]int{}
	seconds := map[string]int{}
	var perContract []any
	knowns := readKnown(filepath.Join(root, "known-findings.txt"))
	seenKnown := map[string]bool{}
	for _, res := range results {
		n, good := 0, 0
		seen := map[string]bool{}
		for _, o := range res.obls {
			n++
			total++
			labels[res.c.Name+": "+o.Label] = true
			if o.Result == "proved" {
				ok++
				good++
				continue
			}
			isKnown := false
			for _, k := range knowns {
				if k.property == prop && k.label == res.c.Name+": "+o.Label {
					isKnown = true
					if !seenKnown[k.label] {
						seenKnown[k.label] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					}
				}
			}
			if isKnown {
				continue
			}
			key := o.Label
			if seen[key] {
				continue
			}
			seen[key] = true
			fails = append(fails, failure{res.c.Name, res.fn, o.Label, o.Pos, o, ""})
		}
		if res.problem != "" {
			fails = append(fails, failure{contract: res.c.Name, fn: res.fn, problem: res.problem})
		} else if n == 0 {
			fails = append(fails, failure{contract: res.c.Name, fn: res.fn, problem: "the contract generated no obligation: what it is about does not happen in the code any more"})
		}
		for _, f := range res.functions {
			fns[f] = true
		}
		for _, f := range res.assumptions {
			ass[f] = true
		}
		for _, f := range res.externals {
			ext[f] = true
		}
		queries += res.queries
		solver += res.solver
		for k, v := range res.fallbacks {
			backends[k] += v
		}
		for k, v := range res.second {
			seconds[k] += v
		}
		perContract = append(perContract, map[string]any{"contract": res.c.Name, "function": res.fn, "obligations": n, "discharged": good, "paths_to_exit": res.exits, "loop_invariants": res.loops, "wall_s": res.wall.Seconds(), "solver_s": res.solver.Seconds()})
		if verbose {
			fmt.Printf("== %s (%s): %d obligations, %d proved, %d exits, %d queries, %.1fs (solver %.1fs)\n", res.c.Name, res.fn, n, good, res.exits, res.queries, res.wall.Seconds(), res.solver.Seconds())
			for _, l := range sortedKeys(res.loops) {
				fmt.Printf("   loop %s: %s\n", l, res.loops[l])
			}
			printed := map[string]int{}
			for _, o := range res.obls {
				k := o.String()
				if printed[k] == 0 {
					fmt.Println("   ", k)
				}
				printed[k]++
				if o.Result != "proved" && printed[k] == 1 {
					fmt.Println("      goal:", o.Goal)
					if os.Getenv("BRIEF") != "" {
						continue
					}
					for _, t := range o.Trace {
						fmt.Println("      ", t)
					}
					for _, t := range o.Model {
						fmt.Println("         ", t)
					}
				}
			}
			if res.problem != "" {
				fmt.Println("   PROBLEM:", res.problem)
			}
			if len(res.externals) > 0 {
				fmt.Println("   externals:", res.externals)
			}
		}
	}
	for _, l := range sortedKeys(labels) {
		if len(samples) < 12 {
			samples = append(samples, l)
		}
	}
	// bounded stand-ins
	var bounded []any
	boundedFound, boundedOut := false, ""
	for _, res := range results {
		for _, b := range res.c.bounded {
			if !slices.Contains(b.props, prop) || prop == "" {
				continue
			}
			status := "not run"
			if !noReplay {
				rc, out := runScript(root, "bounded", prop, repo)
				status = "held"
				for _, l := range strings.Split(out, "\n") {
					what, ok := strings.CutPrefix(l, "KNOWN ")
					if !ok {
						continue
					}
					isKnown := false
					for _, k := range knowns {
						if k.property == prop && k.label == "bounded: "+what {
							isKnown = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
						}
					}
					if !isKnown {
						rc = 1
					}
				}
				if rc != 0 {
					status = "failed"
					if rc == 1 {
						boundedFound = true
					}
					boundedOut += out
					fails = append(fails, failure{contract: res.c.Name, fn: res.fn, problem: "the bounded check of " + b.funcs + " (" + b.bound + ") failed"})
				}
			}
			bounded = append(bounded, map[string]any{"functions": b.funcs, "bound": b.bound, "result": status, "label": "bounded, not proved"})
		}
	}
	code := 0
	violations := 0
	if len(fails) > 0 && prop != "" {
		code = 1
		violations = len(fails)
		os.MkdirAll(filepath.Join(root, "work", "replay"), 0o755)
		replay := filepath.Join(root, "work", "replay", prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is not proved for the code in %s\n", prop, repo)
		for _, f := range fails {
			fmt.Fprintf(&b, "\ncontract %s of %s\n", f.contract, f.fn)
			if f.problem != "" {
				fmt.Fprintf(&b, "  not checked: %s\n", f.problem)
				continue
			}
			fmt.Fprintf(&b, "  failed obligation: %s\n  at %s, verifier: %s\n  goal: %s\n", f.label, f.pos, f.o.Result, f.o.Goal)
			fmt.Fprintln(&b, "  path:")
			for _, t := range f.o.Trace {
				fmt.Fprintln(&b, "   ", t)
			}
			if len(f.o.Model) > 0 {
				fmt.Fprintln(&b, "  values in the verifier's counterexample:")
				for _, t := range f.o.Model {
					fmt.Fprintln(&b, "   ", t)
				}
			}
		}
		found := boundedFound
		if boundedOut != "" {
			fmt.Fprintf(&b, "\nbounded check on the real code:\n%s\n", boundedOut)
		}
		if !noReplay && !found {
			var out string
			found, out = tryReplay(root, prop, repo)
			if out != "" {
				fmt.Fprintf(&b, "\nreplay against the real code (failing run found: %v):\n%s\n", found, out)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for _, f := range fails {
			if f.problem != "" {
				fmt.Printf("%s: not checked: %s\n", f.contract, f.problem)
			} else {
				fmt.Printf("%s: failed obligation: %s (%s, %s)\n", f.contract, f.label, f.pos, f.o.Result)
			}
		}
		suffix := " no-failing-input-found"
		if found {
			suffix = ""
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	}
	if prop != "" {
		backends["z3 "+z3Path] = total
		for k, v := range backends {
			if !strings.HasPrefix(k, "z3 ") {
				backends["z3 "+z3Path] -= v
			}
		}
		trusted := []string{
			"govc: the symbolic executor in /verif/govc and the models of the standard library in it (models.go)",
			"golang.org/x/tools/go/ssa as the meaning of the source; generic functions are verified once for a type parameter about which nothing is known",
			"z3, cvc5",
		}
		assume := []string{
			"int and int64 are mathematical integers: overflow is not checked",
			"Contexts that are passed in are not nil",
			"goroutines have no data race on what the contracts do not name as guarded (checked separately where a contract says auto(\"race\"))",
			"partial correctness: obligations are about what happens, termination is only covered by the obligations about blocking",
		}
		for _, a := range sortedKeys(ass) {
			assume = append(assume, a)
		}
		for _, a := range sortedKeys(ext) {
			assume = append(assume, "external function, any result: "+a)
		}
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": wall.Seconds(), "violations": violations,
			"coverage": map[string]any{
				"obligations": total, "discharged": ok, "checker_cmd": fmt.Sprintf("/verif/bin/govc -prop %s -tier %s", prop, tier),
				"trusted_base": trusted, "functions": sortedKeys(fns), "functions_under_contract": len(fns), "contracts": perContract,
				"solver_queries": queries, "solver_s": solver.Seconds(), "backends": backends, "samples": samples, "distinct_labels": len(labels), "bounded_stand_ins": bounded, "second_opinion_cvc5": seconds,
			},
			"assumptions": assume,
		}
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "govc:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", prop, total, ok, len(fns), wall.Seconds())
	return code
}

// tryReplay runs the tests that look for a failing run of the property in the real code.
func tryReplay(root, prop, repo string) (bool, string) {
	rc, out := runScript(root, "replay", prop, repo)
	return rc == 1, out
}

func runScript(root, dir, prop, repo string) (int, string) {
	s := filepath.Join(root, dir, "run.sh")
	if _, err := os.Stat(s); err != nil {
		return 3, ""
	}
	c := exec.Command("bash", s, prop, repo)
	c.Env = os.Environ()
	out, err := c.CombinedOutput()
	if len(out) > 20000 {
		out = append(out[:10000], out[len(out)-10000:]...)
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), string(out)
	}
	if err != nil {
		return 3, string(out)
	}
	return 0, string(out)
}

func writeBaseline(P *Program, file string) int {
	out := map[string]map[string]string{}
	for rel, p := range P.pkgs {
		fs := map[string]string{}
		for n, f := range P.packageFuncs(rel) {
			fs[n] = sigString(f.Signature)
		}
		out["funcs:"+rel] = fs
		ts := map[string]string{}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				ts[t.Name()] = shape(t.Name(), t.Type()) + " | " + methods(t.Type())
			}
		}
		out["types:"+rel] = ts
		gs := map[string]string{}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs[g.Name()] = typeKey(g.Type())
			}
		}
		out["globals:"+rel] = gs
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			s, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := map[string]string{}
			for i := 0; i < s.NumFields(); i++ {
				m[s.Field(i).Name()] = typeKey(s.Field(i).Type())
			}
			out[typeKey(t.Type())] = m
		}
	}
	j, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(file, append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func readBaseline(P *Program, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var base map[string]map[string]string
	json.Unmarshal(b, &base)
	P.baseline = map[string]map[string]string{}
	for k, v := range base {
		P.baseline[baseKey(k)] = v
	}
	P.findRenamed()
}

// baseKey is the name of a type without the constraints of its parameters.
func baseKey(k string) string {
	return strings.ReplaceAll(strings.ReplaceAll(k, " any]", "]"), " any,", ",")
}
