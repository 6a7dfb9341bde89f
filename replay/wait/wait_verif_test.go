// package-dir: prim/wait
package wait_test

// These tests look for a run that breaks a property of wait.Group. They only run when the verifier has refused the code.

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/wait"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

const long = 15 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: still blocked after %v\n%s", what, long, buf[:runtime.Stack(buf, true)])
	}
}

// configs calls f with Groups of every kind.
func configs(t *testing.T, f func(name string, mk func() *wait.Group)) {
	f("no pool", func() *wait.Group { return &wait.Group{} })
	l, err := limited.New("", 3)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	f("limited", func() *wait.Group { return &wait.Group{Pool: l, Name: "g"} })
	f("limited non blocking", func() *wait.Group {
		return &wait.Group{Pool: l, PoolOptions: []goroutines.SubmitOption{limited.NonBlocking()}}
	})
	p, err := pooled.New("", 3)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	f("pooled", func() *wait.Group { return &wait.Group{Pool: p} })
	f("pooled non blocking", func() *wait.Group {
		return &wait.Group{Pool: p, PoolOptions: []goroutines.SubmitOption{pooled.NonBlocking(), pooled.Caller("x")}}
	})
}

type key struct{}

func TestC08Once(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		g := mk()
		for round := 0; round < 20; round++ {
			const n = 40
			var ran [n]atomic.Int64
			var fin atomic.Int64
			var skipped int
			within(t, name, func() {
				for i := 0; i < n; i++ {
					ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, i))
					defer cancel()
					if i%8 == 7 {
						cancel()
						skipped++
					}
					g.Go(ctx, func(c context.Context) error {
						if c.Value(key{}) != i {
							t.Errorf("%s: another Context", name)
						}
						if i%6 == 0 {
							time.Sleep(time.Duration(i*5) * time.Microsecond)
						}
						ran[i].Add(1)
						fin.Add(1)
						return nil
					})
				}
				err := g.Wait(context.Background())
				if int(fin.Load()) < n-skipped {
					t.Errorf("%s: Wait returned after %d of %d functions", name, fin.Load(), n-skipped)
				}
				if !errors.Is(err, context.Canceled) {
					t.Errorf("%s: functions were skipped, Wait = %v", name, err)
				}
			})
			for i := range ran {
				want := int64(1)
				if i%8 == 7 {
					want = 0
				}
				if ran[i].Load() != want {
					t.Fatalf("%s: function %d was called %d times, want %d", name, i, ran[i].Load(), want)
				}
			}
		}
	})
}

// Wait does not return early, whatever the functions return.
func TestC08Wait(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		for round := 0; round < 20; round++ {
			g := mk()
			ctx, cancel := context.WithCancel(context.Background())
			if round%2 == 1 {
				g.CancelOnErr = cancel
			}
			var started, fin atomic.Int64
			for i := 0; i < 10; i++ {
				g.Go(ctx, func(ctx context.Context) error {
					started.Add(1)
					time.Sleep(time.Duration((i*7)%5) * 200 * time.Microsecond)
					fin.Add(1)
					if i%4 == 1 {
						return fmt.Errorf("%d", i)
					}
					return nil
				})
			}
			within(t, name+": Wait", func() {
				g.Wait(ctx)
				f := fin.Load()
				time.Sleep(2 * time.Millisecond)
				if started.Load() != f || fin.Load() != f {
					t.Errorf("%s: functions were running after Wait returned", name)
				}
				if round%2 == 0 && f != 10 {
					t.Errorf("%s: Wait returned after %d of 10 functions", name, f)
				}
			})
			cancel()
		}
	})
}

// Nothing is skipped without an error, also with CancelOnErr.
func TestC08Skipped(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		g := mk()
		g.CancelOnErr = func() {}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		var called atomic.Bool
		g.Go(ctx, func(context.Context) error { called.Store(true); return nil })
		within(t, name, func() {
			if err := g.Wait(context.Background()); !errors.Is(err, context.Canceled) || called.Load() {
				t.Errorf("%s: cancelled Context: called %v, Wait = %v", name, called.Load(), err)
			}
		})
	})
}

// The Context is cancelled while the function waits for its turn.
func TestC08CancelledLater(t *testing.T) {
	l, _ := limited.New("", 1)
	defer l.Close()
	for round := 0; round < 20; round++ {
		g := wait.Group{Pool: l}
		ctx, cancel := context.WithCancel(context.Background())
		release := make(chan struct{})
		g.Go(context.Background(), func(context.Context) error { <-release; return nil })
		var called atomic.Bool
		go func() { time.Sleep(time.Millisecond); cancel(); close(release) }()
		g.Go(ctx, func(context.Context) error { called.Store(true); return nil })
		within(t, "Wait", func() {
			err := g.Wait(context.Background())
			if !called.Load() && !errors.Is(err, context.Canceled) {
				t.Errorf("skipped, but Wait = %v", err)
			}
		})
		cancel()
	}
	for round := 0; round < 20; round++ {
		g := wait.Group{}
		ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		called := false
		g.Go(ctx, func(context.Context) error { called = true; return nil })
		within(t, "Wait", func() {
			if err := g.Wait(context.Background()); !errors.Is(err, context.DeadlineExceeded) || called {
				t.Errorf("expired Context: called %v, Wait = %v", called, err)
			}
		})
		cancel()
	}
}

func TestC09Errors(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		for round := 0; round < 60; round++ {
			g := mk()
			n := []int{0, 1, 2, 5, 16, 33}[round%6]
			var want []error
			start := make(chan struct{})
			if name == "limited" || name == "pooled" {
				close(start) // they would not all be started
			}
			for i := 0; i < n; i++ {
				var err error
				switch {
				case round%5 == 4:
				case i%3 == 1:
				case i%7 == 3:
					err = fmt.Errorf("wrapped: %w", context.Canceled)
					want = append(want, err)
				default:
					err = fmt.Errorf("error %d", i)
					want = append(want, err)
				}
				g.Go(context.Background(), func(context.Context) error { <-start; return err })
			}
			if name != "limited" && name != "pooled" {
				close(start)
			}
			within(t, name, func() {
				err := g.Wait(context.Background())
				if (err == nil) != (len(want) == 0) {
					t.Fatalf("%s: Wait = %v, want %d errors", name, err, len(want))
				}
				for _, w := range want {
					if !errors.Is(err, w) {
						t.Fatalf("%s: Wait = %q, which does not contain %q", name, err, w)
					}
				}
			})
		}
	})
}

// A bare cancellation is only kept if it came first.
func TestC09Cancelled(t *testing.T) {
	for _, c := range []error{context.Canceled, context.DeadlineExceeded} {
		g := wait.Group{}
		mine := errors.New("mine")
		step := make(chan struct{})
		g.Go(context.Background(), func(context.Context) error { defer close(step); return mine })
		<-step
		time.Sleep(5 * time.Millisecond)
		g.Go(context.Background(), func(context.Context) error { return c })
		if err := g.Wait(context.Background()); !errors.Is(err, mine) {
			t.Errorf("Wait = %v", err)
		}
		g.Go(context.Background(), func(context.Context) error { return c })
		if err := g.Wait(context.Background()); !errors.Is(err, c) {
			t.Errorf("Wait = %v, the only error was %v", err, c)
		}
		s2 := make(chan struct{})
		g.Go(context.Background(), func(context.Context) error { defer close(s2); return c })
		<-s2
		time.Sleep(5 * time.Millisecond)
		g.Go(context.Background(), func(context.Context) error { return mine })
		if err := g.Wait(context.Background()); !errors.Is(err, mine) {
			t.Errorf("Wait = %v, want also %v", err, mine)
		}
	}
}

func TestC10Cancel(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		for round := 0; round < 10; round++ {
			g := mk()
			var calls atomic.Int64
			g.CancelOnErr = func() { calls.Add(1) }
			var seen sync.WaitGroup
			seen.Add(1)
			first := make(chan struct{})
			g.Go(context.Background(), func(context.Context) error { close(first); return errors.New("x") })
			<-first
			within(t, name+": CancelOnErr after an error", func() {
				for calls.Load() == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			})
			g.Wait(context.Background())
			g2 := mk()
			calls.Store(0)
			g2.CancelOnErr = func() { calls.Add(1) }
			g2.Go(context.Background(), func(context.Context) error { return nil })
			g2.Wait(context.Background())
			if calls.Load() == 0 {
				t.Fatalf("%s: CancelOnErr was not called by Wait", name)
			}
			if g2.CancelOnErr != nil {
				t.Fatalf("%s: CancelOnErr is not reset", name)
			}
			g3 := mk()
			calls.Store(0)
			g3.CancelOnErr = func() { calls.Add(1) }
			g3.Wait(context.Background())
			if calls.Load() == 0 {
				t.Fatalf("%s: CancelOnErr was not called by Wait of an empty Group", name)
			}
		}
	})
}

func TestC10Running(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		g := mk()
		for round := 0; round < 40; round++ {
			if n := g.Running(); n != 0 {
				t.Fatalf("%s: Running is %d before the first function", name, n)
			}
			var in atomic.Int64
			var bad atomic.Int64
			stop := make(chan struct{})
			var obs sync.WaitGroup
			obs.Add(1)
			go func() {
				defer obs.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if n := g.Running(); n < 0 {
						bad.Store(int64(n))
					}
					runtime.Gosched()
				}
			}()
			for i := 0; i < 30; i++ {
				ctx, cancel := context.WithCancel(context.Background())
				if i%9 == 8 {
					cancel()
				}
				g.Go(ctx, func(context.Context) error {
					in.Add(1)
					defer in.Add(-1)
					if n := g.Running(); n < 1 {
						bad.Store(int64(n) - 1000)
					}
					if i%4 == 0 {
						return fmt.Errorf("round %d", round)
					}
					return nil
				})
				_ = cancel
			}
			within(t, name, func() { g.Wait(context.Background()) })
			close(stop)
			if n := g.Running(); n != 0 {
				t.Fatalf("%s: Running is %d after Wait", name, n)
			}
			time.Sleep(time.Millisecond)
			if n := g.Running(); n != 0 {
				t.Fatalf("%s: Running is %d some time after Wait", name, n)
			}
			obs.Wait()
			if bad.Load() != 0 {
				t.Fatalf("%s: Running was %d", name, bad.Load())
			}
			// nothing is left of this use
			if err := g.Wait(context.Background()); err != nil {
				t.Fatalf("%s: error of an earlier use: %v", name, err)
			}
			g.Go(context.Background(), func(context.Context) error { return nil })
			within(t, name, func() {
				if err := g.Wait(context.Background()); err != nil {
					t.Fatalf("%s: error of an earlier use: %v", name, err)
				}
			})
		}
	})
}

// While functions run, Running counts at least them.
func TestC10Busy(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		g := mk()
		release := make(chan struct{})
		var in sync.WaitGroup
		n := 3
		in.Add(n)
		for i := 0; i < n; i++ {
			g.Go(context.Background(), func(context.Context) error { in.Done(); <-release; return nil })
		}
		within(t, name, in.Wait)
		if r := g.Running(); r < n {
			t.Errorf("%s: Running is %d with %d functions executing", name, r, n)
		}
		close(release)
		g.Wait(context.Background())
	})
}

// recorder is a tracer that notes the spans that it starts.
type recorder struct {
	mu    sync.Mutex
	spans []*recSpan
}

type recSpan struct {
	noop.Span
	r      *recorder
	id     byte
	name   string
	parent trace.Span
	ended  atomic.Int64
}

func (r *recorder) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := &recSpan{r: r, id: byte(len(r.spans) + 1), name: name, parent: trace.SpanFromContext(ctx)}
	r.spans = append(r.spans, s)
	return trace.ContextWithSpan(ctx, s), s
}

type provider struct {
	noop.TracerProvider
	r *recorder
}

type tracer struct {
	noop.Tracer
	r *recorder
}

func (t tracer) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	return t.r.Start(ctx, name, o...)
}

func (p provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{r: p.r} }

func (s *recSpan) IsRecording() bool                    { return s.ended.Load() == 0 }
func (s *recSpan) End(...trace.SpanEndOption)           { s.ended.Add(1) }
func (s *recSpan) TracerProvider() trace.TracerProvider { return provider{r: s.r} }
func (s *recSpan) SpanContext() trace.SpanContext {
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{s.id}, TraceFlags: trace.FlagsSampled})
}

// all returns the spans other than the first one.
func (r *recorder) all() []*recSpan {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*recSpan{}, r.spans[1:]...)
}

func TestC23Group(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		r := &recorder{}
		ctx, root := r.Start(context.Background(), "root")
		g := mk()
		for round := 0; round < 4; round++ {
			for i := 0; i < round*3; i++ {
				c, cancel := context.WithCancel(ctx)
				if i%3 == 2 {
					cancel()
				}
				g.Go(c, func(context.Context) error {
					if i%4 == 1 {
						return errors.New("x")
					}
					return nil
				})
				_ = cancel
			}
			within(t, name, func() { g.Wait(ctx) })
			if !root.IsRecording() {
				t.Fatalf("%s: the caller's span was ended", name)
			}
			for _, s := range r.all() {
				if n := s.ended.Load(); n != 1 {
					t.Fatalf("%s: span %q was ended %d times after use %d of the Group", name, s.name, n, round)
				}
			}
		}
	})
}

// Go calls with Contexts that have different spans.
func TestC23Contexts(t *testing.T) {
	configs(t, func(name string, mk func() *wait.Group) {
		r := &recorder{}
		ctx, root := r.Start(context.Background(), "root")
		g := mk()
		for round := 0; round < 3; round++ {
			var callers []trace.Span
			for i := 0; i < 6; i++ {
				c, s := r.Start(ctx, "caller")
				callers = append(callers, s)
				g.Go(c, func(context.Context) error { return nil })
			}
			within(t, name, func() { g.Wait(ctx) })
			for _, s := range callers {
				if !s.IsRecording() {
					t.Fatalf("%s: the caller's span was ended", name)
				}
				s.End()
			}
			for _, s := range r.all() {
				if n := s.ended.Load(); n != 1 {
					t.Fatalf("%s: span %q was ended %d times after use %d of the Group", name, s.name, n, round)
				}
			}
		}
		root.End()
	})
}
