// package-dir: prim/slices
package slices_test

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/slices"
)

const long = 15 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: still blocked after %v\n%s", what, long, buf[:runtime.Stack(buf, true)])
	}
}

func optionSets(t *testing.T, f func(name string, opts []slices.SliceOption)) {
	l, _ := limited.New("", 2)
	defer l.Close()
	p, _ := pooled.New("", 2)
	defer p.Close()
	f("no options", nil)
	f("stop", []slices.SliceOption{slices.WithStopOnErr()})
	f("limited", []slices.SliceOption{slices.WithPoolOptions(l)})
	f("limited nb", []slices.SliceOption{slices.WithPoolOptions(l, limited.NonBlocking())})
	f("pooled", []slices.SliceOption{slices.WithPoolOptions(p, pooled.Caller("x"))})
	f("pooled stop", []slices.SliceOption{slices.WithStopOnErr(), slices.WithPoolOptions(p)})
	f("stop limited", []slices.SliceOption{slices.WithPoolOptions(l), slices.WithStopOnErr()})
}

func TestC12Visits(t *testing.T) {
	optionSets(t, func(name string, opts []slices.SliceOption) {
		for _, n := range []int{0, 1, 2, 3, 17, 64, 200} {
			s := make([]int, n)
			for i := range s {
				s[i] = i * 10
			}
			visits := make([]atomic.Int64, n)
			var running atomic.Int64
			within(t, name, func() {
				err := slices.Access(context.Background(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
					running.Add(1)
					defer running.Add(-1)
					if v != i*10 {
						t.Errorf("%s: value %d at index %d", name, v, i)
					}
					visits[i].Add(1)
					if i%5 == 0 {
						time.Sleep(100 * time.Microsecond)
					}
					if i%2 == 0 {
						m(v + 1)
					}
					if i%6 == 0 {
						m(v + 2)
					}
					return nil
				}, opts...)
				if running.Load() != 0 {
					t.Errorf("%s: an Accessor is running after Access returned", name)
				}
				if err != nil {
					t.Errorf("%s: %v", name, err)
				}
			})
			for i := range s {
				if visits[i].Load() != 1 {
					t.Fatalf("%s: index %d of %d was visited %d times", name, i, n, visits[i].Load())
				}
				want := i * 10
				if i%2 == 0 {
					want++
				}
				if i%6 == 0 {
					want = i*10 + 2
				}
				if s[i] != want {
					t.Fatalf("%s: element %d is %d, want %d", name, i, s[i], want)
				}
			}
		}
	})
}

// Slices that are part of a bigger array.
func TestC12Window(t *testing.T) {
	base := make([]string, 20)
	for i := range base {
		base[i] = fmt.Sprint(i)
	}
	w := base[5:12]
	var mu sync.Mutex
	got := map[int]string{}
	within(t, "Access", func() {
		slices.Access(context.Background(), w, func(_ context.Context, i int, v string, m slices.Modifier[string]) error {
			mu.Lock()
			got[i] = v
			mu.Unlock()
			m("n" + v)
			return nil
		})
	})
	if len(got) != 7 {
		t.Fatalf("visited %d of 7", len(got))
	}
	for i, s := range base {
		want := fmt.Sprint(i)
		if i >= 5 && i < 12 {
			if got[i-5] != want {
				t.Errorf("index %d: value %q", i-5, got[i-5])
			}
			want = "n" + want
		}
		if s != want {
			t.Errorf("element %d is %q, want %q", i, s, want)
		}
	}
}

func TestC12Cancelled(t *testing.T) {
	optionSets(t, func(name string, opts []slices.SliceOption) {
		for at := 0; at < 12; at++ {
			s := make([]int, 40)
			visits := make([]atomic.Int64, len(s))
			ctx, cancel := context.WithCancel(context.Background())
			var count, running atomic.Int64
			if at == 0 {
				cancel()
			}
			within(t, name, func() {
				err := slices.Access(ctx, s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
					running.Add(1)
					defer running.Add(-1)
					visits[i].Add(1)
					if int(count.Add(1)) == at*3 {
						cancel()
					}
					time.Sleep(50 * time.Microsecond)
					if at%4 == 3 && i == at {
						return errors.New("x")
					}
					return nil
				}, opts...)
				if running.Load() != 0 {
					t.Errorf("%s: an Accessor is running after Access returned", name)
				}
				all := true
				for i := range visits {
					switch visits[i].Load() {
					case 0:
						all = false
					case 1:
					default:
						t.Errorf("%s: index %d visited %d times", name, i, visits[i].Load())
					}
				}
				if err == nil && !all {
					t.Errorf("%s: Access returned nil but did not visit everything", name)
				}
			})
			cancel()
		}
	})
}

func TestC13Errors(t *testing.T) {
	optionSets(t, func(name string, opts []slices.SliceOption) {
		for round := 0; round < 12; round++ {
			s := make([]int, 30)
			fails := map[int]error{}
			for i := 0; i < round; i++ {
				fails[(i*7+round)%30] = fmt.Errorf("error %d", i)
			}
			var called [30]atomic.Bool
			within(t, name, func() {
				err := slices.Access(context.Background(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
					called[i].Store(true)
					return fails[i]
				}, opts...)
				n, some := 0, false
				for i := range called {
					if called[i].Load() {
						n++
						if fails[i] != nil && errors.Is(err, fails[i]) {
							some = true
						}
					}
				}
				if (err != nil) != (len(fails) > 0) {
					t.Errorf("%s: %d failures, error %v", name, len(fails), err)
				}
				if len(fails) > 0 && !some {
					t.Errorf("%s: the error %v contains none of the failures", name, err)
				}
				stop := name == "stop" || name == "pooled stop" || name == "stop limited"
				if !stop && n != 30 {
					t.Errorf("%s: %d of 30 were processed", name, n)
				}
			})
		}
	})
}

func TestC13Stop(t *testing.T) {
	p, _ := pooled.New("", 1)
	defer p.Close()
	for _, opts := range [][]slices.SliceOption{
		{slices.WithStopOnErr()},
		{slices.WithStopOnErr(), slices.WithPoolOptions(p)},
	} {
		s := make([]int, 5000)
		var after atomic.Int64
		var failed atomic.Bool
		mine := errors.New("mine")
		within(t, "stop", func() {
			err := slices.Access(context.Background(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
				if failed.Load() {
					after.Add(1)
				}
				if i == 3 {
					defer failed.Store(true)
					return mine
				}
				time.Sleep(20 * time.Microsecond)
				return nil
			}, opts...)
			if !errors.Is(err, mine) {
				t.Errorf("error is %v", err)
			}
		})
		if after.Load() > 2500 {
			t.Errorf("%d more elements were processed after a failure with WithStopOnErr", after.Load())
		}
	}
}

func TestC13Cancelled(t *testing.T) {
	optionSets(t, func(name string, opts []slices.SliceOption) {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		within(t, name, func() {
			var n atomic.Int64
			if err := slices.Access(ctx, []int{1, 2, 3}, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error { n.Add(1); return nil }, opts...); err == nil && n.Load() < 3 {
				t.Errorf("%s: no error though the Context was cancelled", name)
			}
		})
	})
}

// counting is a pool that notes how it is used.
type counting struct {
	goroutines.Pool
	n, opts atomic.Int64
}

func (c *counting) Submit(ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	c.n.Add(1)
	c.opts.Add(int64(len(o)))
	return c.Pool.Submit(ctx, j, o...)
}

func TestC13Pool(t *testing.T) {
	l, _ := limited.New("", 2)
	defer l.Close()
	for _, o := range [][]goroutines.SubmitOption{nil, {limited.Caller("x")}, {limited.NonBlocking(), limited.Caller("x")}} {
		for _, stop := range []bool{false, true} {
			c := &counting{Pool: l}
			opts := []slices.SliceOption{slices.WithPoolOptions(c, o...)}
			if stop {
				opts = append(opts, slices.WithStopOnErr())
			}
			within(t, "Access", func() {
				slices.Access(context.Background(), make([]int, 7), func(ctx context.Context, i int, v int, m slices.Modifier[int]) error { return nil }, opts...)
			})
			if c.n.Load() != 7 || c.opts.Load() != int64(7*len(o)) {
				t.Errorf("the given pool got %d jobs with %d options, want 7 with %d", c.n.Load(), c.opts.Load(), 7*len(o))
			}
			// it is still usable
			d := make(chan struct{})
			l.Submit(context.Background(), func(context.Context) { close(d) })
			<-d
		}
	}
}
