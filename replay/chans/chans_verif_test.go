// package-dir: prim/chans
package chans_test

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
)

const long = 15 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: still blocked after %v\n%s", what, long, buf[:runtime.Stack(buf, true)])
	}
}

func optionSets(t *testing.T, f func(name string, stop bool, opts []chans.Option)) {
	l, _ := limited.New("", 2)
	defer l.Close()
	p, _ := pooled.New("", 2)
	defer p.Close()
	f("no options", false, nil)
	f("stop", true, []chans.Option{chans.WithStopOnErr()})
	f("limited", false, []chans.Option{chans.WithPoolOptions(l)})
	f("limited nb", false, []chans.Option{chans.WithPoolOptions(l, limited.NonBlocking())})
	f("pooled", false, []chans.Option{chans.WithPoolOptions(p, pooled.Caller("x"))})
	f("pooled stop", true, []chans.Option{chans.WithStopOnErr(), chans.WithPoolOptions(p)})
	f("stop limited", true, []chans.Option{chans.WithPoolOptions(l), chans.WithStopOnErr()})
}

func feed(n, buf int) chan int {
	in := make(chan int, buf)
	go func() {
		defer close(in)
		for i := 0; i < n; i++ {
			in <- i
			if i%5 == 0 {
				runtime.Gosched()
			}
		}
	}()
	return in
}

func TestC14Once(t *testing.T) {
	optionSets(t, func(name string, stop bool, opts []chans.Option) {
		for _, n := range []int{0, 1, 2, 10, 100} {
			for _, buf := range []int{0, 1, 100} {
				seen := make([]atomic.Int64, n)
				var running atomic.Int64
				within(t, name, func() {
					err := chans.Access(context.Background(), feed(n, buf), func(ctx context.Context, v int) error {
						running.Add(1)
						defer running.Add(-1)
						seen[v].Add(1)
						if v%7 == 0 {
							time.Sleep(100 * time.Microsecond)
						}
						return nil
					}, opts...)
					if running.Load() != 0 {
						t.Errorf("%s: an Accessor is running after Access returned", name)
					}
					if err != nil {
						t.Errorf("%s: %v", name, err)
					}
				})
				for i := range seen {
					if seen[i].Load() != 1 {
						t.Fatalf("%s: value %d was processed %d times", name, i, seen[i].Load())
					}
				}
			}
		}
	})
}

// Values that are equal or zero are values as well.
func TestC14Zero(t *testing.T) {
	in := make(chan *int, 10)
	for i := 0; i < 10; i++ {
		in <- nil
	}
	close(in)
	var n atomic.Int64
	within(t, "Access", func() {
		chans.Access(context.Background(), in, func(ctx context.Context, v *int) error { n.Add(1); return nil })
	})
	if n.Load() != 10 {
		t.Errorf("%d of 10 zero values were processed", n.Load())
	}
}

func TestC14Cancel(t *testing.T) {
	optionSets(t, func(name string, stop bool, opts []chans.Option) {
		for round := 0; round < 8; round++ {
			ctx, cancel := context.WithCancel(context.Background())
			in := make(chan int, 3)
			for i := 0; i < round%4; i++ {
				in <- i
			}
			if round == 7 {
				cancel()
			} else {
				time.AfterFunc(time.Duration(round)*300*time.Microsecond, cancel)
			}
			var running atomic.Int64
			within(t, name+": Access of a cancelled Context", func() {
				err := chans.Access(ctx, in, func(ctx context.Context, v int) error {
					running.Add(1)
					defer running.Add(-1)
					time.Sleep(200 * time.Microsecond)
					return nil
				}, opts...)
				if err == nil {
					t.Errorf("%s: nil though the input was never closed", name)
				}
				if running.Load() != 0 {
					t.Errorf("%s: an Accessor is running after Access returned", name)
				}
			})
			cancel()
		}
	})
}

func TestC13Errors(t *testing.T) {
	optionSets(t, func(name string, stop bool, opts []chans.Option) {
		for round := 0; round < 12; round++ {
			fails := map[int]error{}
			for i := 0; i < round; i++ {
				fails[(i*7+round)%30] = fmt.Errorf("error %d", i)
			}
			for _, modify := range []bool{false, true} {
				var called [30]atomic.Bool
				within(t, name, func() {
					var err error
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					in := make(chan int)
					go func() {
						defer close(in)
						for i := 0; i < 30; i++ {
							select {
							case in <- i:
							case <-ctx.Done():
								return
							}
						}
					}()
					if modify {
						out := make(chan chans.StreamResult[int])
						var wg sync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							for range out {
							}
						}()
						err = chans.Modify(ctx, in, out, func(ctx context.Context, v int) (int, error) {
							called[v].Store(true)
							return v, fails[v]
						}, opts...)
						wg.Wait()
					} else {
						err = chans.Access(ctx, in, func(ctx context.Context, v int) error {
							called[v].Store(true)
							return fails[v]
						}, opts...)
					}
					n, some := 0, false
					for i := range called {
						if called[i].Load() {
							n++
							if fails[i] != nil && errors.Is(err, fails[i]) {
								some = true
							}
						}
					}
					if (err != nil) != (len(fails) > 0) {
						t.Errorf("%s: %d failures, error %v", name, len(fails), err)
					}
					if len(fails) > 0 && !some {
						t.Errorf("%s (Modify %v): the error %v contains none of the failures", name, modify, err)
					}
					if !stop && n != 30 {
						t.Errorf("%s: %d of 30 were processed", name, n)
					}
				})
			}
		}
	})
}

// With the stop option an endless input is given up after a failure.
func TestC13Stop(t *testing.T) {
	p, _ := pooled.New("", 1)
	defer p.Close()
	for _, opts := range [][]chans.Option{
		{chans.WithStopOnErr()},
		{chans.WithStopOnErr(), chans.WithPoolOptions(p)},
	} {
		in := make(chan int)
		end := make(chan struct{})
		go func() {
			for i := 0; ; i++ {
				select {
				case in <- i:
				case <-end:
					return
				}
			}
		}()
		mine := errors.New("mine")
		within(t, "Access WithStopOnErr", func() {
			err := chans.Access(context.Background(), in, func(ctx context.Context, v int) error {
				if v == 3 {
					return mine
				}
				return nil
			}, opts...)
			if !errors.Is(err, mine) {
				t.Errorf("error is %v", err)
			}
		})
		in2 := make(chan int, 1)
		in2 <- 1
		within(t, "Access WithStopOnErr, input silent", func() {
			err := chans.Access(context.Background(), in2, func(ctx context.Context, v int) error { return mine }, opts...)
			if !errors.Is(err, mine) {
				t.Errorf("error is %v", err)
			}
		})
		close(end)
	}
}

type counting struct {
	goroutines.Pool
	n, opts atomic.Int64
}

func (c *counting) Submit(ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	c.n.Add(1)
	c.opts.Add(int64(len(o)))
	return c.Pool.Submit(ctx, j, o...)
}

func TestC13Pool(t *testing.T) {
	l, _ := limited.New("", 2)
	defer l.Close()
	for _, o := range [][]goroutines.SubmitOption{nil, {limited.Caller("x")}, {limited.NonBlocking(), limited.Caller("x")}} {
		for _, stop := range []bool{false, true} {
			for _, modify := range []bool{false, true} {
				c := &counting{Pool: l}
				opts := []chans.Option{chans.WithPoolOptions(c, o...)}
				if stop {
					opts = append(opts, chans.WithStopOnErr())
				}
				within(t, "Access", func() {
					if modify {
						out := make(chan chans.StreamResult[int], 100)
						chans.Modify(context.Background(), feed(7, 0), out, func(ctx context.Context, v int) (int, error) { return v, nil }, opts...)
						return
					}
					chans.Access(context.Background(), feed(7, 0), func(ctx context.Context, v int) error { return nil }, opts...)
				})
				if c.n.Load() != 7 || c.opts.Load() != int64(7*len(o)) {
					t.Errorf("the given pool got %d jobs with %d options, want 7 with %d", c.n.Load(), c.opts.Load(), 7*len(o))
				}
				d := make(chan struct{})
				l.Submit(context.Background(), func(context.Context) { close(d) })
				<-d
			}
		}
	}
}

func TestC15Results(t *testing.T) {
	optionSets(t, func(name string, stop bool, opts []chans.Option) {
		for _, n := range []int{0, 1, 10, 80} {
			for _, failEvery := range []int{0, 3} {
				if stop && failEvery > 0 {
					continue
				}
				errs := map[int]error{}
				var called atomic.Int64
				for i := 0; i < n; i++ {
					if failEvery > 0 && i%failEvery == 0 {
						errs[i] = fmt.Errorf("error %d", i)
					}
				}
				out := make(chan chans.StreamResult[string])
				var err error
				returned := make(chan struct{})
				go func() {
					err = chans.Modify(context.Background(), feed(n, 1), out, func(ctx context.Context, v int) (string, error) {
						called.Add(1)
						if v%5 == 0 {
							time.Sleep(100 * time.Microsecond)
						}
						if e := errs[v]; e != nil {
							return "bad", e
						}
						return fmt.Sprint("v", v), nil
					}, opts...)
					close(returned)
				}()
				vals, es := map[string]int{}, map[error]int{}
				got := 0
				within(t, name+": output", func() {
					for r := range out {
						got++
						if r.Err != nil {
							es[r.Err]++
							if r.Value != "" && r.Value != "bad" {
								t.Errorf("%s: value %q with an error", name, r.Value)
							}
						} else {
							vals[r.Value]++
						}
					}
				})
				if got != n || int(called.Load()) != n {
					t.Fatalf("%s: %d results of %d values", name, got, n)
				}
				within(t, name+": Modify", func() { <-returned })
				if (err != nil) != (len(errs) > 0) {
					t.Errorf("%s: error %v", name, err)
				}
				for i := 0; i < n; i++ {
					if e := errs[i]; e != nil {
						if es[e] != 1 {
							t.Fatalf("%s: error of %d was output %d times", name, i, es[e])
						}
					} else if vals[fmt.Sprint("v", i)] != 1 {
						t.Fatalf("%s: result of %d was output %d times", name, i, vals[fmt.Sprint("v", i)])
					}
				}
			}
		}
	})
}

// Whatever happens, what the Modifier returned without an error is output and the output is closed at the end.
func TestC15Cancel(t *testing.T) {
	optionSets(t, func(name string, stop bool, opts []chans.Option) {
		for round := 0; round < 15; round++ {
			ctx, cancel := context.WithCancel(context.Background())
			in := make(chan int)
			go func() {
				for i := 0; i < 60; i++ {
					select {
					case in <- i:
					case <-ctx.Done():
						return
					case <-time.After(time.Second):
						return
					}
				}
				close(in)
			}()
			var good, bad atomic.Int64
			out := make(chan chans.StreamResult[int], round%3)
			go func() {
				chans.Modify(ctx, in, out, func(c context.Context, v int) (int, error) {
					if v == round*3 && round%2 == 0 {
						cancel()
					}
					if v%8 == 5 {
						bad.Add(1)
						return 0, errors.New("x")
					}
					good.Add(1)
					return v + 1, nil
				}, opts...)
			}()
			g, b := int64(0), int64(0)
			within(t, name+": output", func() {
				for r := range out {
					if r.Err != nil {
						b++
					} else {
						g++
						if r.Value == 0 {
							t.Errorf("%s: a result that the Modifier did not return", name)
						}
					}
					time.Sleep(20 * time.Microsecond)
				}
			})
			if g != good.Load() || b > bad.Load() {
				t.Fatalf("%s: %d values and %d errors output, the Modifier returned %d and %d", name, g, b, good.Load(), bad.Load())
			}
			if round%2 == 1 && !stop && b != bad.Load() {
				t.Fatalf("%s: %d errors output, the Modifier returned %d", name, b, bad.Load())
			}
			cancel()
		}
	})
}

func TestC15Nil(t *testing.T) {
	mod := func(ctx context.Context, v int) (int, error) { return v, nil }
	in := make(chan int, 1)
	in <- 1
	within(t, "Modify with nil channels", func() {
		if err := chans.Modify(context.Background(), in, nil, mod); err == nil {
			t.Errorf("nil output was accepted")
		}
		out := make(chan chans.StreamResult[int], 2)
		if err := chans.Modify(context.Background(), nil, out, mod); err == nil {
			t.Errorf("nil input was accepted")
		}
		select {
		case r, ok := <-out:
			if ok {
				t.Errorf("%v was sent", r)
			}
		default:
		}
	})
	if len(in) != 1 {
		t.Errorf("the input was touched")
	}
}
