package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// pcNode is a path condition: a list of conjuncts that shares prefixes with other paths.
type pcNode struct {
	parent *pcNode
	id     int
	t      *Term
	quant  bool // has a quantifier
	last   int  // terms with larger numbers were made later
}

func (n *pcNode) terms() []*Term {
	var out []*Term
	for ; n != nil; n = n.parent {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (n *pcNode) has(t *Term) bool {
	for ; n != nil; n = n.parent {
		if n.t == t {
			return true
		}
	}
	return false
}

// Solver is an incremental z3 that keeps the path condition of the last query asserted.
//
// There are two: the first one knows nothing about quantified terms, which is fast. If it finds no
// contradiction and there are quantified terms, the second one is asked.
type Solver struct {
	ground   bool
	full     *Solver
	limited  bool // the last query was given up
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	stack    []*pcNode
	axioms   []string // asserted at level 0
	seen     map[int]bool
	nm       *namer
	bound    map[string]bool

	timeoutMS int
	queries   int
	fallbacks map[string]int // discharged by another back end
	time      time.Duration
	dead      bool
	cache     map[string]string
}

// The work on a query is bounded independently of the load of the machine. What is not decided is tried
// again without what is known from earlier queries, which can be faster.
const (
	groundLimit = 3000000
	quantLimit  = 1500000
)

func newSolver(timeoutMS int) *Solver {
	s := &Solver{declared: map[string]bool{}, seen: map[int]bool{}, bound: map[string]bool{}, timeoutMS: timeoutMS, fallbacks: map[string]int{}, cache: map[string]string{}}
	s.ground = true
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start the solver %s: %s", z3Path, err))
	}
	if s.ground {
		fmt.Fprintf(s.in, "(set-option :rlimit %d)\n", groundLimit)
	} else {
		fmt.Fprintf(s.in, "(set-option :rlimit %d)\n", quantLimit)
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n(set-option :smt.mbqi false)\n(set-option :global-declarations true)\n", s.timeoutMS)
	s.stack = nil
	s.nm = newNamer(func(d string) { fmt.Fprintln(s.in, d) })
	s.nm.ground = s.ground
	s.declared = map[string]bool{}
	s.seen = map[int]bool{}
	for _, a := range s.axioms {
		fmt.Fprintln(s.in, a)
	}
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
	if s.full != nil {
		s.full.close()
	}
}

func (s *Solver) declare(t *Term) {
	out := map[string]string{}
	t.decls(s.seen, s.bound, out)
	for _, k := range sortedKeys(out) {
		if !s.declared[k] {
			s.declared[k] = true
			fmt.Fprintln(s.in, out[k])
		}
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc *pcNode) {
	var path []*pcNode
	for n := pc; n != nil; n = n.parent {
		path = append(path, n)
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	c := 0
	for c < len(path) && c < len(s.stack) && path[c] == s.stack[c] {
		c++
	}
	if d := len(s.stack) - c; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
	}
	s.stack = s.stack[:c]
	for _, n := range path[c:] {
		s.declare(n.t)
		x := s.nm.text(n.t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", x)
		s.stack = append(s.stack, n)
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "unknown"
	}
	return strings.TrimSpace(l)
}

// check says if pc and extra are satisfiable: "sat", "unsat" or "unknown".
func (s *Solver) check(pc *pcNode, extra *Term) string {
	r, _ := s.query(pc, extra, nil)
	return r
}

// query also returns the values of the given terms in the model if sat.
func (s *Solver) query(pc *pcNode, extra *Term, vals []*Term) (res string, model []string) {
	if extra == tFalse {
		return "unsat", nil
	}
	key := ""
	if vals == nil {
		id := 0
		if extra != nil {
			id = extra.id
		}
		pid := 0
		if pc != nil {
			pid = pc.id
		}
		key = fmt.Sprintf("%d/%d", pid, id)
		if r, ok := s.cache[key]; ok {
			return r, nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if traceOn && d > time.Second {
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.queries), []byte(script(s.axioms, pc, extra)), 0o600)
			fmt.Fprintf(os.Stderr, "slow query %d: %v\n", s.queries, d)
		}
	}()
	s.queries++
	if s.ground {
		defer func() {
			if res == "unsat" || res == "sat" && !(pc != nil && pc.quant || extra != nil && extra.quant) {
				return
			}
			limited := s.limited
			if pc != nil && pc.quant || extra != nil && extra.quant {
				if s.full == nil {
					s.full = &Solver{declared: map[string]bool{}, seen: map[int]bool{}, bound: map[string]bool{}, timeoutMS: s.timeoutMS, cache: map[string]string{}}
					s.full.start()
				}
				res, model = s.full.query(pc, extra, vals)
				limited = s.full.limited
			}
			if res == "unknown" && limited && len(vals) == 0 {
				res = runSolver(20*time.Second, "(set-option :rlimit 20000000)\n(set-option :smt.mbqi false)\n"+script(s.axioms, pc, extra), z3Path, "-in", "-smt2")
			}
			if key != "" {
				s.cache[key] = res
			}
		}()
	}
	res, model = s.ask(pc, extra, vals)
	if key != "" {
		s.cache[key] = res
	}
	return res, model
}

func (s *Solver) raw(pc *pcNode, extra *Term) string {
	r, _ := s.ask(pc, extra, nil)
	return r
}

// ask is one query.
func (s *Solver) ask(pc *pcNode, extra *Term, vals []*Term) (res string, model []string) {
	s.sync(pc)
	if extra != nil {
		s.declare(extra)
	}
	for _, v := range vals {
		s.declare(v)
	}
	x := ""
	if extra != nil {
		x = s.nm.text(extra)
	}
	fmt.Fprintln(s.in, "(push 1)")
	if extra != nil {
		fmt.Fprintf(s.in, "(assert %s)\n", x)
	}
	fmt.Fprintln(s.in, "(check-sat)")
	r := s.readLine()
	for strings.HasPrefix(r, "(error") {
		panic(unsupported("solver: " + r))
	}
	if r == "sat" && len(vals) > 0 {
		for _, v := range vals {
			fmt.Fprintf(s.in, "(eval %s)\n", s.nm.text(v))
			model = append(model, s.readSexp())
		}
	}
	s.limited = false
	if r == "unknown" {
		fmt.Fprintln(s.in, "(get-info :reason-unknown)")
		why := s.readLine()
		s.limited = strings.Contains(why, "resource") || strings.Contains(why, "cancel") || strings.Contains(why, "timeout")
	}
	fmt.Fprintln(s.in, "(pop 1)")
	if s.dead {
		s.dead = false
		s.close()
		s.start()
		r = "unknown"
	}
	return r, model
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	for {
		l := s.readLine()
		if s.dead {
			return b.String()
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return b.String()
		}
		b.WriteByte(' ')
	}
}

// script is a standalone query.
func script(axioms []string, pc *pcNode, extra *Term) string {
	var b bytes.Buffer
	b.WriteString("(set-logic ALL)\n")
	ts := pc.terms()
	if extra != nil {
		ts = append(ts, extra)
	}
	out := map[string]string{}
	seen, bound := map[int]bool{}, map[string]bool{}
	for _, t := range ts {
		t.decls(seen, bound, out)
	}
	for _, k := range sortedKeys(out) {
		b.WriteString(out[k] + "\n")
	}
	for _, a := range axioms {
		b.WriteString(a + "\n")
	}
	nm := newNamer(func(d string) { b.WriteString(d + "\n") })
	for _, t := range ts {
		x := nm.text(t)
		fmt.Fprintf(&b, "(assert %s)\n", x)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func runSolver(d time.Duration, stdin string, name string, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(stdin)
	o, _ := c.Output()
	f := strings.Fields(string(o))
	if len(f) == 0 {
		return "unknown"
	}
	switch f[0] {
	case "sat", "unsat":
		return f[0]
	}
	return "unknown"
}

// prove says if pc implies goal: "proved", "refuted" or "unknown".
func (s *Solver) prove(pc *pcNode, goal *Term, deep bool) string {
	if goal == tTrue {
		return "proved"
	}
	switch s.check(pc, tNot(goal)) {
	case "unsat":
		return "proved"
	case "sat":
		return "refuted"
	}
	if more := withInstances(pc, tNot(goal)); more != tNot(goal) {
		t0 := time.Now()
		res := s.raw(pc, more)
		s.time += time.Since(t0)
		if res == "unsat" {
			return "proved"
		}
	}
	if !deep && !goal.quant {
		return "unknown"
	}
	if !deep {
		t0 := time.Now()
		r := runSolver(20*time.Second, "(set-option :rlimit 20000000)\n"+script(s.axioms, pc, withInstances(pc, tNot(goal))), z3Path, "-in", "-smt2")
		s.time += time.Since(t0)
		switch r {
		case "unsat":
			return "proved"
		case "sat":
			return "refuted"
		}
		return "unknown"
	}
	sc := script(s.axioms, pc, withInstances(pc, tNot(goal)))
	for _, b := range []struct {
		name string
		args []string
	}{{"cvc5", []string{"--lang=smt2", "--strings-exp"}}, {"z3", []string{"-in", "-smt2"}}} {
		t0 := time.Now()
		r := runSolver(20*time.Second, sc, b.name, b.args...)
		s.time += time.Since(t0)
		switch r {
		case "unsat":
			s.fallbacks[b.name]++
			return "proved"
		case "sat":
			return "refuted"
		}
	}
	return "unknown"
}
