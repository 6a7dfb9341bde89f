// package-dir: pipelines/stagedpipe
package stagedpipe_test

// These tests look for a run that breaks a property of stagedpipe. They only run when the verifier has refused the code.

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

const long = 20 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<18)
		t.Fatalf("%s: still blocked after %v\n%s", what, long, buf[:runtime.Stack(buf, true)])
	}
}

// data is what the Requests carry: the route they take and what happened to them.
type data struct {
	id     int
	route  string // the Stages to run, S is Start
	fail   int    // the Stage (by position) that sets Err, -1 for none
	cancel int    // the Stage that cancels the Context
	pause  time.Duration
	both   bool // set Next together with Err
	noNext bool // the last Stage leaves Next alone
	pos    int
	ran    []string
	pre    []string
	stop   context.CancelFunc
	ctx    context.Context
	run    func(r req, name string) req
}

type req = stagedpipe.Request[*data]

type sm struct {
	closed  atomic.Int64
	inStage atomic.Int64
	inClose atomic.Int64
	badEnd  atomic.Int64
}

func (s *sm) Close() {
	if s.inStage.Load() != 0 {
		s.badEnd.Add(1)
	}
	s.closed.Add(1)
}

var errStage = errors.New("stage error")

func (s *sm) step(r req, name string) req {
	s.inStage.Add(1)
	defer s.inStage.Add(-1)
	d := r.Data
	if s.closed.Load() != 0 {
		s.badEnd.Add(1)
	}
	d.ran = append(d.ran, name)
	if d.pause > 0 {
		time.Sleep(d.pause)
	}
	if d.run != nil {
		r = d.run(r, name)
	}
	i := d.pos
	d.pos++
	if d.cancel == i && d.stop != nil {
		d.stop()
	}
	if d.fail == i {
		r.Err = errStage
		if !d.both {
			return r
		}
	}
	if i+1 < len(d.route) {
		r.Next = s.stage(d.route[i+1])
	} else if !d.noNext {
		r.Next = nil
	}
	return r
}

func (s *sm) stage(c byte) stagedpipe.Stage[*data] {
	switch c {
	case 'A':
		return s.StageA
	case 'B':
		return s.StageB
	case 'C':
		return s.StageC
	}
	return s.Start
}

func (s *sm) Start(r req) req  { return s.step(r, "S") }
func (s *sm) StageA(r req) req { return s.step(r, "A") }
func (s *sm) StageB(r req) req { return s.step(r, "B") }
func (s *sm) StageC(r req) req { return s.step(r, "C") }

func newData(id int, route string) *data { return &data{id: id, route: route, fail: -1, cancel: -1} }

// send puts the requests through one group and returns what came out.
func send(t *testing.T, g *stagedpipe.RequestGroup[*data], ds []*data) []req {
	var out []req
	done := make(chan struct{})
	go func() {
		defer close(done)
		for r := range g.Out() {
			out = append(out, r)
		}
	}()
	within(t, "requests", func() {
		for _, d := range ds {
			ctx, cancel := context.WithCancel(context.Background())
			d.stop, d.ctx = cancel, ctx
			if err := g.Submit(req{Ctx: ctx, Data: d}); err != nil {
				t.Errorf("Submit: %v", err)
			}
		}
		g.Close()
		<-done
	})
	return out
}

func routes() []string {
	return []string{"S", "SA", "SB", "SAB", "SBA", "SABC", "SCBA", "SAA", "SABA", "SS", "SAS", "SABCABC", "SCCC"}
}

func repeats(route string) int {
	for i := range route {
		if strings.IndexByte(route[:i], route[i]) >= 0 {
			return i
		}
	}
	return -1
}

func TestC16Route(t *testing.T) {
	runRoute(t, false)
	runRoute(t, true)
}

func runRoute(t *testing.T, dag bool) {
	for _, npre := range []int{0, 1, 2, 5} {
		for _, split := range []bool{false, true} {
			m := &sm{}
			var pres []stagedpipe.PreProcesor[*data]
			for i := 0; i < npre; i++ {
				pres = append(pres, func(r req) req {
					if r.Next != nil {
						t.Errorf("a PreProcessor got a Request with Next set")
					}
					r.Data.pre = append(r.Data.pre, fmt.Sprint(len(r.Data.ran), ":", i))
					return r
				})
			}
			opts := []stagedpipe.Option[*data]{}
			if dag {
				opts = append(opts, stagedpipe.DAG[*data]())
			}
			if split {
				for _, p := range pres {
					opts = append(opts, stagedpipe.PreProcessors(p))
				}
			} else {
				opts = append(opts, stagedpipe.PreProcessors(pres...))
			}
			p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](m), opts...)
			if err != nil {
				t.Fatal(err)
			}
			var ds []*data
			for i := 0; i < 200; i++ {
				d := newData(i, routes()[i%len(routes())])
				if n := repeats(d.route); dag && n > 0 {
					d.route = d.route[:n]
				}
				d.noNext = i%3 == 0
				switch i % 5 {
				case 1:
					d.fail = i % len(d.route)
					d.both = i%2 == 0
				case 3:
					d.cancel = i % len(d.route)
				}
				ds = append(ds, d)
			}
			out := send(t, p.NewRequestGroup(), ds)
			if len(out) != len(ds) {
				t.Fatalf("%d of %d requests came out", len(out), len(ds))
			}
			for _, r := range out {
				d := r.Data
				want := d.route
				var werr error
				if d.fail >= 0 {
					want, werr = d.route[:d.fail+1], errStage
				} else if d.cancel >= 0 && d.cancel+1 < len(d.route) {
					want, werr = d.route[:d.cancel+1], context.Canceled
				}
				if got := strings.Join(d.ran, ""); got != want {
					t.Fatalf("route %s, fail %d, cancel %d: ran %s, want %s", d.route, d.fail, d.cancel, got, want)
				}
				if r.Err != werr {
					t.Fatalf("route %s, fail %d, cancel %d: Err %v, want %v", d.route, d.fail, d.cancel, r.Err, werr)
				}
				if r.Ctx != d.ctx {
					t.Fatalf("the Context was changed")
				}
				var pre []string
				for i := range want {
					for j := 0; j < npre; j++ {
						pre = append(pre, fmt.Sprint(i, ":", j))
					}
				}
				if fmt.Sprint(pre) != fmt.Sprint(d.pre) {
					t.Fatalf("PreProcessors ran %v, want %v", d.pre, pre)
				}
			}
			p.Close()
		}
	}
}

// A PreProcessor sets Err or cancels at some stage.
func TestC16PreProcessorErr(t *testing.T) {
	m := &sm{}
	mine := errors.New("pre")
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[*data](m), stagedpipe.PreProcessors(
		func(r req) req { r.Data.pre = append(r.Data.pre, "1"); return r },
		func(r req) req {
			r.Data.pre = append(r.Data.pre, "2")
			if len(r.Data.ran) == r.Data.id%4 {
				r.Err = mine
			}
			return r
		},
		func(r req) req { r.Data.pre = append(r.Data.pre, "3"); return r },
	))
	if err != nil {
		t.Fatal(err)
	}
	var ds []*data
	for i := 0; i < 40; i++ {
		ds = append(ds, newData(i, "SABC"))
	}
	for _, r := range send(t, p.NewRequestGroup(), ds) {
		k := r.Data.id % 4
		if r.Err != mine || len(r.Data.ran) != k || strings.Join(r.Data.pre, "") != strings.Repeat("123", k)+"12" {
			t.Fatalf("error in the PreProcessor of stage %d: ran %v, PreProcessors %v, Err %v", k, r.Data.ran, r.Data.pre, r.Err)
		}
	}
	p.Close()
}

// The Context is cancelled before the Request is processed.
func TestC16Cancelled(t *testing.T) {
	m := &sm{}
	var pre atomic.Int64
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[*data](m), stagedpipe.PreProcessors(func(r req) req {
		if r.Data.id > 0 {
			pre.Add(1)
		}
		return r
	}))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	within(t, "requests", func() {
		release := make(chan struct{})
		n := 4 // all workers
		for i := 0; i < n; i++ {
			d := newData(0, "S")
			d.run = func(r req, _ string) req { <-release; return r }
			g.Submit(req{Ctx: context.Background(), Data: d})
		}
		time.Sleep(5 * time.Millisecond)
		ctx, cancel := context.WithCancelCause(context.Background())
		d := newData(1, "SA")
		if err := g.Submit(req{Ctx: ctx, Data: d}); err != nil {
			t.Fatal(err)
		}
		cancel(errors.New("cause"))
		close(release)
		for i := 0; i <= n; i++ {
			r := <-g.Out()
			if r.Data == d && (len(d.ran) != 0 || pre.Load() != 0 || r.Err != context.Canceled) {
				t.Errorf("cancelled Request: ran %v, %d PreProcessors, Err %v", d.ran, pre.Load(), r.Err)
			}
		}
		g.Close()
		p.Close()
	})
}

func TestC17DAG(t *testing.T) {
	for _, dag := range []bool{true, false, true} {
		m := &sm{}
		var opts []stagedpipe.Option[*data]
		if dag {
			opts = append(opts, stagedpipe.DAG[*data]())
		}
		p, err := stagedpipe.New("x", 3, stagedpipe.StateMachine[*data](m), opts...)
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			var ds []*data
			for i := 0; i < 300; i++ {
				d := newData(i, routes()[(i*(k+1)+k)%len(routes())])
				if i%7 == 3 {
					d.fail = i % len(d.route)
				}
				ds = append(ds, d)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, r := range send(t, p.NewRequestGroup(), ds) {
					d := r.Data
					want, cyclic := d.route, false
					if i := repeats(d.route); dag && i >= 0 && (d.fail < 0 || i <= d.fail) {
						want, cyclic = d.route[:i], true
					} else if d.fail >= 0 {
						want = d.route[:d.fail+1]
					}
					if got := strings.Join(d.ran, ""); got != want || stagedpipe.IsErrCyclic(r.Err) != cyclic {
						t.Errorf("DAG %v, route %s, fail %d: ran %s, want %s, Err %v", dag, d.route, d.fail, got, want, r.Err)
						return
					}
				}
			}()
		}
		within(t, "groups", wg.Wait)
		p.Close()
	}
}

// Output of DAG pipelines goes through other pipelines, with and without DAG.
func TestC17Chained(t *testing.T) {
	mk := func(dag bool) *stagedpipe.Pipelines[*data] {
		var opts []stagedpipe.Option[*data]
		if dag {
			opts = append(opts, stagedpipe.DAG[*data]())
		}
		p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](&sm{}), opts...)
		if err != nil {
			t.Fatal(err)
		}
		return p
	}
	a, b, c := mk(true), mk(false), mk(true)
	ga, gb, gc := a.NewRequestGroup(), b.NewRequestGroup(), c.NewRequestGroup()
	within(t, "chained pipelines", func() {
		go func() {
			for i := 0; i < 200; i++ {
				ga.Submit(req{Ctx: context.Background(), Data: newData(i, "SAB")})
			}
			ga.Close()
		}()
		again := func(from, to *stagedpipe.RequestGroup[*data], route string) {
			for r := range from.Out() {
				if r.Err != nil {
					t.Errorf("Err %v", r.Err)
					r.Err = nil
				}
				r.Data.ran, r.Data.pos, r.Data.route = nil, 0, route
				to.Submit(r)
			}
			to.Close()
		}
		go again(ga, gb, "SABAB")
		go again(gb, gc, "SBA")
		for r := range gc.Out() {
			if r.Err != nil || strings.Join(r.Data.ran, "") != "SBA" {
				t.Errorf("ran %v, Err %v", r.Data.ran, r.Err)
			}
		}
	})
	a.Close()
	b.Close()
	c.Close()
}

// nested is a StateMachine with a Stage that submits the Request it got to other Pipelines.
type nested struct {
	sm
	g *stagedpipe.RequestGroup[*data]
}

func (n *nested) Start(r req) req {
	in := r
	in.Data = newData(r.Data.id, "SABAB")
	if err := n.g.Submit(in); err != nil {
		r.Err = err
	}
	return r
}
func (n *nested) Close() {}

func runNested(t *testing.T) {
	inner, err := stagedpipe.New("in", 2, stagedpipe.StateMachine[*data](&sm{}))
	if err != nil {
		t.Fatal(err)
	}
	gi := inner.NewRequestGroup()
	outer, err := stagedpipe.New("out", 2, stagedpipe.StateMachine[*data](&nested{g: gi}), stagedpipe.DAG[*data]())
	if err != nil {
		t.Fatal(err)
	}
	within(t, "nested pipelines", func() {
		go func() {
			var ds []*data
			for i := 0; i < 100; i++ {
				ds = append(ds, newData(i, "S"))
			}
			for _, r := range send(t, outer.NewRequestGroup(), ds) {
				if r.Err != nil {
					t.Errorf("Err %v", r.Err)
				}
			}
			gi.Close()
		}()
		for r := range gi.Out() {
			if r.Err != nil || strings.Join(r.Data.ran, "") != "SABAB" {
				t.Errorf("Request of Pipelines without DAG: ran %v, Err %v", r.Data.ran, r.Err)
			}
		}
	})
	outer.Close()
	inner.Close()
}

func TestC16Nested(t *testing.T) { runNested(t) }

func groups(t *testing.T, ordered bool, check func(p *stagedpipe.Pipelines[*data])) {
	for round := 0; round < 4; round++ {
		m := &sm{}
		var opts []stagedpipe.Option[*data]
		if ordered {
			opts = append(opts, stagedpipe.Ordered[*data]())
		}
		if round == 3 {
			opts = append(opts, stagedpipe.DelayWarning[*data](time.Hour))
		}
		p, err := stagedpipe.New("x", 1+round, stagedpipe.StateMachine[*data](m), opts...)
		if err != nil {
			t.Fatal(err)
		}
		check(p)
		within(t, "Close", func() {
			p.Close()
			for m.closed.Load() == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		})
		time.Sleep(2 * time.Millisecond)
		if n := m.closed.Load(); n != 1 || m.badEnd.Load() != 0 {
			t.Fatalf("StateMachine.Close was called %d times, %d times while a Stage was executing", n, m.badEnd.Load())
		}
	}
}

func runGroups(t *testing.T, ordered bool) {
	groups(t, ordered, func(p *stagedpipe.Pipelines[*data]) {
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := p.NewRequestGroup()
				const n = 150
				var mu sync.Mutex
				var acc []int
				accepted := map[int]bool{}
				got := map[int]int{}
				var order []int
				done := make(chan struct{})
				go func() {
					defer close(done)
					for r := range g.Out() {
						if r.Data.id/1000 != k {
							t.Errorf("a Request of group %d came out of group %d", r.Data.id/1000, k)
						}
						got[r.Data.id%1000]++
						order = append(order, r.Data.id%1000)
						if k == 2 {
							time.Sleep(10 * time.Microsecond)
						}
					}
				}()
				for i := 0; i < n; i++ {
					d := newData(k*1000+i, routes()[i%6])
					d.pause = time.Duration((i*13+k)%7) * 20 * time.Microsecond
					if i%9 == 5 {
						d.fail = 0
					}
					ctx, cancel := context.WithCancel(context.Background())
					if i%4 == 3 {
						cancel()
					}
					if i%10 == 1 {
						if g.Submit(req{Data: d}) == nil {
							t.Errorf("a Request without Context was accepted")
						}
						continue
					}
					if err := g.Submit(req{Ctx: ctx, Data: d}); err == nil {
						mu.Lock()
						accepted[i] = true
						acc = append(acc, i)
						mu.Unlock()
					} else if ctx.Err() == nil {
						t.Errorf("Submit: %v", err)
					}
					_ = cancel
				}
				g.Close()
				<-done
				for i := 0; i < n; i++ {
					want := 0
					if accepted[i] {
						want = 1
					}
					if got[i] != want {
						t.Errorf("Request %d of group %d came out %d times, want %d", i, k, got[i], want)
						return
					}
				}
				if ordered && fmt.Sprint(order) != fmt.Sprint(acc) {
					t.Errorf("output order %v, submitted %v", order, acc)
				}
			}()
		}
		within(t, "groups", wg.Wait)
	})
}

func TestC18Groups(t *testing.T)        { runGroups(t, false) }
func TestC18OrderedGroups(t *testing.T) { runGroups(t, true) }
func TestC19Groups(t *testing.T)        { runGroups(t, true) }
func TestC20Groups(t *testing.T)        { runGroups(t, false) }
func TestC20OrderedGroups(t *testing.T) { runGroups(t, true) }

// Submits of one group from several goroutines, some of them cancelled while they wait.
func runCancelled(t *testing.T, ordered bool) {
	groups(t, ordered, func(p *stagedpipe.Pipelines[*data]) {
		g := p.NewRequestGroup()
		var acc, got atomic.Int64
		last := map[int]int{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for r := range g.Out() {
				got.Add(1)
				who, i := r.Data.id/1000, r.Data.id%1000
				if l, ok := last[who]; ordered && ok && l >= i {
					t.Errorf("Request %d of goroutine %d came out after %d", i, who, l)
				}
				last[who] = i
			}
		}()
		within(t, "Submit and Close", func() {
			var wg sync.WaitGroup
			for k := 0; k < 5; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 120; i++ {
						d := newData(k*1000+i, "SA")
						d.pause = 30 * time.Microsecond
						ctx, cancel := context.WithCancel(context.Background())
						if i%3 == 1 {
							ctx, cancel = context.WithTimeout(context.Background(), time.Duration(i%5)*10*time.Microsecond)
						}
						if g.Submit(req{Ctx: ctx, Data: d}) == nil {
							acc.Add(1)
						}
						_ = cancel
					}
				}()
			}
			wg.Wait()
			g.Close()
			<-done
		})
		if acc.Load() != got.Load() {
			t.Fatalf("%d Requests were accepted, %d came out", acc.Load(), got.Load())
		}
	})
}

func TestC18Cancelled(t *testing.T) { runCancelled(t, false) }
func TestC19Cancelled(t *testing.T) { runCancelled(t, true) }
func TestC20Cancelled(t *testing.T) { runCancelled(t, true) }

// Submit returns when its Context is cancelled, RequestGroup.Close waits for what is processed.
func TestC18Blocked(t *testing.T) {
	m := &sm{}
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[*data](m))
	if err != nil {
		t.Fatal(err)
	}
	g, h := p.NewRequestGroup(), p.NewRequestGroup()
	release := make(chan struct{})
	var got atomic.Int64
	done := make(chan struct{})
	go func() {
		defer close(done)
		for range g.Out() {
			got.Add(1)
		}
	}()
	within(t, "Submit of cancelled Requests", func() {
		for i := 0; i < 12; i++ {
			d := newData(i, "S")
			d.run = func(r req, _ string) req { <-release; return r }
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
			err := g.Submit(req{Ctx: ctx, Data: d})
			if err != nil && err != context.DeadlineExceeded {
				t.Errorf("Submit: %v", err)
			}
			_ = cancel
		}
	})
	closed := make(chan struct{})
	go func() { g.Close(); close(closed) }()
	select {
	case <-closed:
		t.Fatal("RequestGroup.Close returned before its Requests were processed")
	case <-done:
		t.Fatal("Out was closed before the Requests were processed")
	case <-time.After(30 * time.Millisecond):
	}
	close(release)
	within(t, "RequestGroup.Close", func() { <-closed; <-done })
	within(t, "Close of an unused group", func() {
		h.Close()
		if _, ok := <-h.Out(); ok {
			t.Errorf("an unused group had output")
		}
	})
	p.Close()
}

// With the Ordered option Submit also returns when its Context is cancelled while another Submit waits.
func TestC18OrderedBlocked(t *testing.T) {
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[*data](&sm{}), stagedpipe.Ordered[*data]())
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	release := make(chan struct{})
	got := make(chan int)
	go func() {
		n := 0
		for range g.Out() {
			n++
		}
		got <- n
	}()
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := newData(i, "S")
			d.run = func(r req, _ string) req { <-release; return r }
			if err := g.Submit(req{Ctx: context.Background(), Data: d}); err != nil {
				t.Errorf("Submit: %v", err)
			}
		}()
	}
	time.Sleep(20 * time.Millisecond)
	within(t, "Submit with a cancelled Context", func() {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
		defer cancel()
		if err := g.Submit(req{Ctx: ctx, Data: newData(100, "S")}); err == nil {
			t.Errorf("Submit accepted a Request while others wait")
		}
	})
	close(release)
	within(t, "RequestGroup.Close", func() {
		wg.Wait()
		g.Close()
		if n := <-got; n != 12 {
			t.Errorf("%d of 12 Requests came out", n)
		}
	})
	p.Close()
}

// Groups that are made at the same time.
func TestC18Create(t *testing.T) {
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[*data](&sm{}))
	if err != nil {
		t.Fatal(err)
	}
	for round := 0; round < 2000; round++ {
		var gs [4]*stagedpipe.RequestGroup[*data]
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range gs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				gs[i] = p.NewRequestGroup()
			}()
		}
		close(start)
		within(t, "groups", func() {
			wg.Wait()
			for i, g := range gs {
				if err := g.Submit(req{Ctx: context.Background(), Data: newData(i, "S")}); err != nil {
					t.Errorf("Submit: %v", err)
				}
			}
			for i, g := range gs {
				if r := <-g.Out(); r.Data == nil || r.Data.id != i {
					t.Errorf("the Request of group %d did not come out there", i)
				}
			}
			for _, g := range gs {
				g.Close()
			}
		})
	}
	p.Close()
}

// Groups come and go all the time.
func TestC18Churn(t *testing.T) {
	p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](&sm{}))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				g := p.NewRequestGroup()
				n := 0
				done := make(chan struct{})
				go func() {
					defer close(done)
					for r := range g.Out() {
						if r.Data.id != k*1000+i {
							t.Errorf("a Request of another group")
						}
						n++
					}
				}()
				for j := 0; j < i%4; j++ {
					g.Submit(req{Ctx: context.Background(), Data: newData(k*1000+i, "SA")})
				}
				g.Close()
				<-done
				if n != i%4 {
					t.Errorf("%d of %d Requests came out", n, i%4)
				}
			}
		}()
	}
	within(t, "groups", wg.Wait)
	p.Close()
}

// Pipelines.Close while Requests are being processed.
func TestC20Busy(t *testing.T) {
	for round := 0; round < 30; round++ {
		m := &sm{}
		p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](m))
		if err != nil {
			t.Fatal(err)
		}
		g := p.NewRequestGroup()
		release := make(chan struct{})
		n := 1 + round%6
		within(t, "Submit", func() {
			for i := 0; i < n; i++ {
				d := newData(i, "SA")
				d.run = func(r req, s string) req {
					if s == "A" {
						<-release
					}
					return r
				}
				g.Submit(req{Ctx: context.Background(), Data: d})
			}
		})
		p.Close()
		time.Sleep(time.Millisecond)
		if m.closed.Load() != 0 {
			t.Fatal("StateMachine.Close was called before the Requests were output")
		}
		close(release)
		got := 0
		within(t, "Close", func() {
			done := make(chan struct{})
			go func() {
				defer close(done)
				for range g.Out() {
					got++
				}
			}()
			g.Close()
			<-done
			for m.closed.Load() == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		})
		time.Sleep(time.Millisecond)
		if got != n || m.closed.Load() != 1 || m.badEnd.Load() != 0 {
			t.Fatalf("%d of %d Requests, StateMachine.Close called %d times, %d times too early", got, n, m.closed.Load(), m.badEnd.Load())
		}
	}
}

// Requests that take no time, closed right after the last one.
func TestC20Burst(t *testing.T) {
	for round := 0; round < 3000; round++ {
		m := &sm{}
		p, err := stagedpipe.New("x", 4, stagedpipe.StateMachine[*data](m))
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := p.NewRequestGroup()
				done := make(chan struct{})
				go func() {
					defer close(done)
					for range g.Out() {
					}
				}()
				for i := 0; i < 3; i++ {
					g.Submit(req{Ctx: context.Background(), Data: newData(i, "S")})
				}
				g.Close()
				<-done
			}()
		}
		within(t, "Close", func() {
			wg.Wait()
			p.Close()
			for m.closed.Load() == 0 {
				time.Sleep(10 * time.Microsecond)
			}
		})
		if m.badEnd.Load() != 0 {
			t.Fatal("StateMachine.Close was called while a Stage was executing")
		}
	}
}

func TestC21Stats(t *testing.T) {
	for round := 0; round < 3; round++ {
		p, err := stagedpipe.New("x", 3, stagedpipe.StateMachine[*data](&sm{}))
		if err != nil {
			t.Fatal(err)
		}
		if s := p.Stats(); s != (stagedpipe.Stats{}) {
			t.Fatalf("Stats of new Pipelines: %+v", s)
		}
		total := int64(0)
		for use := 0; use < 3; use++ {
			var ds []*data
			for i := 0; i < 60; i++ {
				d := newData(i, routes()[i%len(routes())])
				d.pause = time.Duration(1+(i*7+use)%5) * time.Millisecond
				if i%5 == 2 {
					d.fail = 0
				}
				if i%6 == 2 {
					d.cancel = 0
				}
				ds = append(ds, d)
			}
			if round > 0 {
				ds = ds[:use]
			}
			var bad atomic.Int64
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(100 * time.Microsecond):
					}
					if n := p.Stats().Running; n < 0 || n > 12 {
						bad.Store(n)
					}
				}
			}()
			lo, hi, sum := 1<<62, 0, 0
			for _, d := range ds {
				n := len(d.route)
				if d.fail == 0 || d.cancel == 0 {
					n = 1
				}
				x := n * int(d.pause)
				lo, hi, sum = min(lo, x), max(hi, x), sum+x
			}
			send(t, p.NewRequestGroup(), ds)
			close(stop)
			total += int64(len(ds))
			s := p.Stats()
			if s.Completed != total || s.Running != 0 || bad.Load() != 0 {
				t.Fatalf("Completed %d of %d, Running %d (%d)", s.Completed, total, s.Running, bad.Load())
			}
			if total == 0 {
				if s != (stagedpipe.Stats{}) {
					t.Fatalf("Stats without Requests: %+v", s)
				}
				continue
			}
			if s.Min <= 0 || s.Min > s.Avg || s.Avg > s.Max {
				t.Fatalf("Min %v, Avg %v, Max %v", s.Min, s.Avg, s.Max)
			}
			i := s.IngestStats
			if i.Min <= 0 || i.Min > i.Avg || i.Avg > i.Max {
				t.Fatalf("IngestStats: Min %v, Avg %v, Max %v", i.Min, i.Avg, i.Max)
			}
			if use == 0 && round == 0 && (int(s.Min) < lo || int(s.Max) < hi || int(s.Avg) < sum/len(ds)) {
				t.Fatalf("Min %v, Avg %v, Max %v, but the Stages took at least %v, %v and %v", s.Min, s.Avg, s.Max, time.Duration(lo), time.Duration(sum/len(ds)), time.Duration(hi))
			}
			if round > 0 && total == 1 && (s.Min != s.Max || s.Avg != s.Min || i.Min != i.Max || i.Avg != i.Min) {
				t.Fatalf("Stats of one Request: %+v", s)
			}
		}
		p.Close()
	}
}

// Many Requests that end at the same time.
func TestC21Many(t *testing.T) {
	for round := 0; round < 5; round++ {
		p, err := stagedpipe.New("x", 8, stagedpipe.StateMachine[*data](&sm{}))
		if err != nil {
			t.Fatal(err)
		}
		const g, n = 8, 2500
		var wg sync.WaitGroup
		for k := 0; k < g; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				grp := p.NewRequestGroup()
				go func() {
					for i := 0; i < n; i++ {
						grp.Submit(req{Ctx: context.Background(), Data: newData(i, "S")})
					}
					grp.Close()
				}()
				for range grp.Out() {
				}
			}()
		}
		within(t, "requests", wg.Wait)
		if s := p.Stats(); s.Completed != g*n || s.Running != 0 {
			t.Fatalf("Completed %d of %d, Running %d", s.Completed, g*n, s.Running)
		}
		p.Close()
	}
}

func TestC21Running(t *testing.T) {
	p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](&sm{}))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	release := make(chan struct{})
	var in atomic.Int64
	n := 5
	within(t, "Submit", func() {
		for i := 0; i < n; i++ {
			d := newData(i, "SA")
			d.run = func(r req, s string) req {
				if s == "A" {
					in.Add(1)
					<-release
				}
				return r
			}
			g.Submit(req{Ctx: context.Background(), Data: d})
		}
		for int(in.Load()) < n {
			time.Sleep(time.Millisecond)
		}
	})
	if s := p.Stats(); s.Running != int64(n) || s.Completed != 0 {
		t.Errorf("Running %d, Completed %d with %d Requests in process", s.Running, s.Completed, n)
	}
	close(release)
	within(t, "output", func() {
		for i := 0; i < n; i++ {
			<-g.Out()
		}
		g.Close()
	})
	if s := p.Stats(); s.Running != 0 || s.Completed != int64(n) {
		t.Errorf("Running %d, Completed %d of %d", s.Running, s.Completed, n)
	}
	p.Close()
}

// recorder is a tracer that notes the spans that it starts.
type recorder struct {
	mu    sync.Mutex
	spans []*recSpan
}

type recSpan struct {
	noop.Span
	r      *recorder
	id     byte
	name   string
	parent trace.Span
	ended  atomic.Int64
}

func (r *recorder) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := &recSpan{r: r, id: byte(len(r.spans) + 1), name: name, parent: trace.SpanFromContext(ctx)}
	r.spans = append(r.spans, s)
	return trace.ContextWithSpan(ctx, s), s
}

type provider struct {
	noop.TracerProvider
	r *recorder
}

type tracer struct {
	noop.Tracer
	r *recorder
}

func (t tracer) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	return t.r.Start(ctx, name, o...)
}

func (p provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{r: p.r} }

func (s *recSpan) IsRecording() bool                    { return s.ended.Load() == 0 }
func (s *recSpan) End(...trace.SpanEndOption)           { s.ended.Add(1) }
func (s *recSpan) TracerProvider() trace.TracerProvider { return provider{r: s.r} }
func (s *recSpan) SpanContext() trace.SpanContext {
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{s.id}, TraceFlags: trace.FlagsSampled})
}

// all returns the spans other than the first one.
func (r *recorder) all() []*recSpan {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*recSpan{}, r.spans[1:]...)
}

func TestC23Spans(t *testing.T) {
	for _, ordered := range []bool{false, true} {
		for _, own := range []bool{false, true} {
			r := &recorder{}
			var opts []stagedpipe.Option[*data]
			if ordered {
				opts = append(opts, stagedpipe.Ordered[*data](), stagedpipe.DAG[*data]())
			}
			p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](&sm{}), opts...)
			if err != nil {
				t.Fatal(err)
			}
			for k := 0; k < 2; k++ {
				ctx, root := r.Start(context.Background(), "root")
				before := len(r.all())
				g := p.NewRequestGroup()
				done := make(chan struct{})
				n := 0
				go func() {
					defer close(done)
					for q := range g.Out() {
						n++
						if own && q.Ctx.Value(ownKey{}) != nil {
							continue
						}
						cur, _ := trace.SpanFromContext(q.Ctx).(*recSpan)
						if cur == nil || strings.Contains(cur.name, "Stage") || strings.Contains(cur.name, ".Start") {
							t.Errorf("the Request came out with the Context of a Stage")
						}
					}
				}()
				within(t, "requests", func() {
					for i := 0; i < 40; i++ {
						d := newData(i, routes()[i%len(routes())])
						c, cancel := context.WithCancel(ctx)
						d.stop = cancel
						if i%4 == 3 {
							cancel()
						}
						if i%5 == 2 {
							d.fail = i % len(d.route)
						}
						if i%6 == 1 {
							d.cancel = 0
						}
						if own && i%7 == 0 {
							d.run = func(q req, _ string) req { q.Ctx = context.WithValue(q.Ctx, ownKey{}, 1); return q }
						}
						g.Submit(req{Ctx: c, Data: d})
					}
					g.Close()
					<-done
				})
				if !root.IsRecording() {
					t.Fatal("the caller's span was ended")
				}
				root.End()
				for _, s := range r.all()[before:] {
					if c := s.ended.Load(); c != 1 {
						t.Fatalf("span %q was ended %d times", s.name, c)
					}
					if own {
						continue
					}
					par, _ := s.parent.(*recSpan)
					stage := strings.Contains(s.name, "sm).")
					if stage && (par == nil || !strings.Contains(par.name, ".Request(")) {
						t.Fatalf("the span of stage %q is a child of %v", s.name, par)
					}
				}
			}
			p.Close()
		}
	}
}

type ownKey struct{}

type odd struct{ C chan int }

type oddSM struct{}

func (oddSM) Start(r stagedpipe.Request[odd]) stagedpipe.Request[odd] { r.Next = nil; return r }
func (oddSM) Close()                                                  {}

// Data that cannot be put into a span.
func TestC23Data(t *testing.T) {
	r := &recorder{}
	p, err := stagedpipe.New("x", 1, stagedpipe.StateMachine[odd](oddSM{}))
	if err != nil {
		t.Fatal(err)
	}
	ctx, root := r.Start(context.Background(), "root")
	g := p.NewRequestGroup()
	within(t, "requests", func() {
		done := make(chan struct{})
		go func() {
			defer close(done)
			for range g.Out() {
			}
		}()
		for i := 0; i < 5; i++ {
			if err := g.Submit(stagedpipe.Request[odd]{Ctx: ctx, Data: odd{make(chan int)}}); err != nil {
				t.Errorf("Submit: %v", err)
			}
		}
		g.Close()
		<-done
	})
	root.End()
	for _, s := range r.all() {
		if c := s.ended.Load(); c != 1 {
			t.Fatalf("span %q was ended %d times", s.name, c)
		}
	}
	p.Close()
}

type empty struct{}

func TestC24Arguments(t *testing.T) {
	before := runtime.NumGoroutine()
	mine := errors.New("mine")
	m := stagedpipe.StateMachine[*data](&sm{})
	bad := func(p *stagedpipe.Pipelines[*data]) error { return mine }
	for i, f := range []func() (*stagedpipe.Pipelines[*data], error){
		func() (*stagedpipe.Pipelines[*data], error) { return stagedpipe.New("x", 0, m) },
		func() (*stagedpipe.Pipelines[*data], error) { return stagedpipe.New("x", -1, m) },
		func() (*stagedpipe.Pipelines[*data], error) { return stagedpipe.New[*data]("x", 1, nil) },
		func() (*stagedpipe.Pipelines[*data], error) { return stagedpipe.New("x", 1, m, bad) },
		func() (*stagedpipe.Pipelines[*data], error) {
			return stagedpipe.New("x", 1, m, stagedpipe.DAG[*data](), bad, stagedpipe.Ordered[*data]())
		},
		func() (*stagedpipe.Pipelines[*data], error) {
			return stagedpipe.New("x", 1, m, stagedpipe.DelayWarning[*data](-1))
		},
	} {
		if _, err := f(); err == nil {
			t.Errorf("bad arguments %d were accepted", i)
		}
	}
	time.Sleep(20 * time.Millisecond)
	// the demuxers may have a goroutine each, workers would be more
	if n := runtime.NumGoroutine(); n > before+8 {
		t.Errorf("%d goroutines were started by New with bad arguments", n-before)
	}
}

type sub struct{}

func (sub) One(r req) req     { return r }
func (sub) Two(r req) req     { return r }
func (sub) private(r req) req { return r }
func (sub) Other(r int) int   { return r }

func TestC24Workers(t *testing.T) {
	for _, num := range []int{1, 2, 5} {
		for subs := 0; subs < 3; subs++ {
			m := &sm{}
			var opts []stagedpipe.Option[*data]
			want := num * (4 + 2*subs)
			switch subs {
			case 1:
				opts = append(opts, stagedpipe.CountSubStages[*data](sub{}))
			case 2:
				opts = append(opts, stagedpipe.CountSubStages[*data](sub{}), stagedpipe.CountSubStages[*data](sub{}))
				if num == 2 {
					opts = []stagedpipe.Option[*data]{stagedpipe.CountSubStages[*data](sub{}, sub{})}
				}
			}
			p, err := stagedpipe.New("x", num, stagedpipe.StateMachine[*data](m), opts...)
			if err != nil {
				t.Fatal(err)
			}
			g := p.NewRequestGroup()
			var in atomic.Int64
			release := make(chan struct{})
			go func() {
				for i := 0; i < want+3; i++ {
					d := newData(i, "S")
					d.run = func(r req, _ string) req { in.Add(1); <-release; return r }
					g.Submit(req{Ctx: context.Background(), Data: d})
				}
				g.Close()
			}()
			within(t, fmt.Sprintf("%d Requests at the same time in %d pipelines", want, num), func() {
				for int(in.Load()) < want {
					time.Sleep(time.Millisecond)
				}
			})
			time.Sleep(5 * time.Millisecond)
			if int(in.Load()) != want {
				t.Fatalf("%d Requests at the same time, want %d", in.Load(), want)
			}
			before := runtime.NumGoroutine()
			close(release)
			within(t, "output", func() {
				for range g.Out() {
				}
			})
			p.Close()
			deadline := time.Now().Add(long)
			for runtime.NumGoroutine() > before-want+2 {
				if time.Now().After(deadline) {
					t.Fatalf("%d goroutines are left after Close, %d before, %d workers", runtime.NumGoroutine(), before, want)
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
}

// Workers with a DelayWarning and slow receivers lose and repeat nothing.
func TestC18DelayWarning(t *testing.T) {
	p, err := stagedpipe.New("x", 2, stagedpipe.StateMachine[*data](&sm{}), stagedpipe.DelayWarning[*data](200*time.Microsecond))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	go func() {
		for i := 0; i < 60; i++ {
			g.Submit(req{Ctx: context.Background(), Data: newData(i, "SA")})
		}
		g.Close()
	}()
	got := map[int]int{}
	within(t, "output", func() {
		for r := range g.Out() {
			got[r.Data.id]++
			time.Sleep(time.Millisecond)
		}
	})
	for i := 0; i < 60; i++ {
		if got[i] != 1 {
			t.Errorf("Request %d came out %d times", i, got[i])
		}
	}
	p.Close()
}
