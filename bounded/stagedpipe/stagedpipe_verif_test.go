// package-dir: pipelines/stagedpipe
//
// Bounded stand-ins for functions that contracts leave opaque.

package stagedpipe_test

import (
	"context"
	"fmt"
	"testing"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

type vdata struct {
	ran []int // the Stages that were run
	// next is what follows the i-th Stage that is run, -1 for nothing.
	next []int
	all  []stagedpipe.Stage[*vdata]
}

// to is the Stage that comes next.
func (d *vdata) to() int {
	if k := len(d.ran); k < len(d.next) {
		return d.next[k]
	}
	return -1
}

type vreq = stagedpipe.Request[*vdata]

// step is what every Stage does.
func step(r vreq, me int) vreq {
	d := r.Data
	k := len(d.ran)
	d.ran = append(d.ran, me)
	if k >= len(d.next) || d.next[k] < 0 {
		r.Next = nil
		return r
	}
	r.Next = d.all[d.next[k]]
	return r
}

// Methods with a pointer receiver.
type ptrSM struct{ x int }

func (s *ptrSM) Start(r vreq) vreq  { return step(r, 0) }
func (s *ptrSM) A(r vreq) vreq      { return step(r, 1) }
func (s *ptrSM) B(r vreq) vreq      { return step(r, 2) }
func (s *ptrSM) StartA(r vreq) vreq { return step(r, 3) }
func (s *ptrSM) Close()             {}

// Methods with a value receiver.
type valSM struct{ x int }

func (s valSM) Start(r vreq) vreq  { return step(r, 0) }
func (s valSM) A(r vreq) vreq      { return step(r, 1) }
func (s valSM) B(r vreq) vreq      { return step(r, 2) }
func (s valSM) StartA(r vreq) vreq { return step(r, 3) }
func (s valSM) Close()             {}

// Both, and not a struct.
type mixSM int

func (s *mixSM) Start(r vreq) vreq { return step(r, 0) }
func (s mixSM) A(r vreq) vreq      { return step(r, 1) }
func (s *mixSM) B(r vreq) vreq     { return step(r, 2) }
func (s mixSM) StartA(r vreq) vreq { return step(r, 3) }
func (s *mixSM) Close()            {}

// Start has a value receiver, others do not.
type mix2SM string

func (s mix2SM) Start(r vreq) vreq   { return step(r, 0) }
func (s *mix2SM) A(r vreq) vreq      { return step(r, 1) }
func (s mix2SM) B(r vreq) vreq       { return step(r, 2) }
func (s *mix2SM) StartA(r vreq) vreq { return step(r, 3) }
func (s mix2SM) Close()              {}

// Stages that are functions.
type funcSM struct{}

func (s *funcSM) Start(r vreq) vreq { return step(r, 0) }
func (s *funcSM) Close()            {}

func fA(r vreq) vreq { return step(r, 1) }
func fB(r vreq) vreq { return step(r, 2) }

// A StateMachine that uses Stages of another, with the same names.
type twoSM struct{ other *ptrSM }

func (s *twoSM) Start(r vreq) vreq { return step(r, 0) }
func (s *twoSM) A(r vreq) vreq     { return step(r, 4) }
func (s *twoSM) Close()            {}

// Start is that of an embedded type.
type embSM struct{ *ptrSM }

func (s *embSM) C(r vreq) vreq { return step(r, 1) }

// A generic StateMachine.
type genSM[X any] struct{ x X }

func (s *genSM[X]) Start(r vreq) vreq {
	to := r.Data.to()
	r = step(r, 0)
	if to == 1 {
		r.Next = s.A
	}
	return r
}

func (s *genSM[X]) A(r vreq) vreq {
	to := r.Data.to()
	r = step(r, 1)
	if to == 1 {
		r.Next = s.A
	}
	return r
}
func (s *genSM[X]) Close() {}

type kind struct {
	name string
	sm   stagedpipe.StateMachine[*vdata]
	all  []stagedpipe.Stage[*vdata]
}

func kinds() []kind {
	p, v, m, m2 := &ptrSM{}, valSM{}, new(mixSM), new(mix2SM)
	f, o := &funcSM{}, &ptrSM{}
	w := &twoSM{o}
	return []kind{
		{"pointer receiver", p, []stagedpipe.Stage[*vdata]{p.Start, p.A, p.B, p.StartA}},
		{"value receiver", v, []stagedpipe.Stage[*vdata]{v.Start, v.A, v.B, v.StartA}},
		{"value receiver by pointer", &v, []stagedpipe.Stage[*vdata]{v.Start, v.A, (&v).B, v.StartA}},
		{"both receivers", m, []stagedpipe.Stage[*vdata]{m.Start, m.A, m.B, m.StartA}},
		{"both receivers, Start by value", m2, []stagedpipe.Stage[*vdata]{m2.Start, m2.A, m2.B, m2.StartA}},
		{"functions", f, []stagedpipe.Stage[*vdata]{f.Start, fA, fB, func(r vreq) vreq { return step(r, 3) }}},
		{"two StateMachines", w, []stagedpipe.Stage[*vdata]{w.Start, o.Start, o.A, o.B, w.A}},
	}
}

// routes gives all routes that start at Stage 0 with up to n Stages out of k.
func vroutes(k, n int) [][]int {
	out := [][]int{{0}}
	last := out
	for i := 1; i < n; i++ {
		var nx [][]int
		for _, r := range last {
			for s := 0; s < k; s++ {
				nx = append(nx, append(append([]int{}, r...), s))
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

// check runs all routes of up to n Stages and says which ones are not handled as they should.
func check(t *testing.T, k kind, n int, bad func(route []int, msg string)) {
	p, err := stagedpipe.New("x", 1, k.sm, stagedpipe.DAG[*vdata]())
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	g := p.NewRequestGroup()
	routes := vroutes(len(k.all), n)
	go func() {
		defer g.Close()
		for _, r := range routes {
			d := &vdata{next: append(append([]int{}, r[1:]...), -1), all: k.all}
			if err := g.Submit(vreq{Ctx: context.Background(), Data: d}); err != nil {
				panic(err)
			}
		}
	}()
	seen := 0
	for r := range g.Out() {
		seen++
		route := []int{0}
		for _, x := range r.Data.next {
			if x >= 0 {
				route = append(route, x)
			}
		}
		want, cyclic := len(route), false
		at := map[int]bool{}
		for i, x := range route {
			if at[x] {
				want, cyclic = i, true
				break
			}
			at[x] = true
		}
		switch {
		case len(r.Data.ran) != want:
			bad(route, fmt.Sprintf("%d Stages were run, want %d", len(r.Data.ran), want))
		case stagedpipe.IsErrCyclic(r.Err) != cyclic:
			bad(route, fmt.Sprintf("Err %v", r.Err))
		}
	}
	if seen != len(routes) {
		t.Errorf("%s: %d of %d Requests came out", k.name, seen, len(routes))
	}
}

// methodName() and startName() give the same name to the same Stage and different names to different Stages.
func TestC17StageNames(t *testing.T) {
	for _, k := range kinds() {
		check(t, k, 5, func(route []int, msg string) {
			t.Errorf("%s: route %v: %s", k.name, route, msg)
		})
	}
}

// The known findings: they are reported if they still fail.
func TestC17KnownStageNames(t *testing.T) {
	e, g := &embSM{&ptrSM{}}, &genSM[int]{}
	for _, k := range []kind{
		{"Start of an embedded type", e, []stagedpipe.Stage[*vdata]{e.Start, e.C}},
		{"generic StateMachine", g, []stagedpipe.Stage[*vdata]{g.Start, g.A}},
	} {
		known := false
		check(t, k, 3, func(route []int, msg string) {
			switch fmt.Sprint(route) {
			case "[0 0]", "[0 0 0]", "[0 0 1]", "[0 1 0]":
				known = known || k.sm == stagedpipe.StateMachine[*vdata](e)
			case "[0 1 1]":
				known = known || k.sm == stagedpipe.StateMachine[*vdata](g)
			default:
				t.Errorf("%s: route %v: %s", k.name, route, msg)
			}
		})
		if known {
			fmt.Printf("KNOWN %s\n", k.name)
		}
	}
}
