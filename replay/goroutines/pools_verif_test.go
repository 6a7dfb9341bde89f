// package-dir: goroutines
package goroutines_test

// These tests look for a run that breaks a property of the pools. They only run when the verifier has refused the code.

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/internal/register"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
)

const long = 15 * time.Second

type kind struct {
	name   string
	mk     func(name string, size int) (goroutines.Pool, error)
	nb     func() goroutines.SubmitOption
	caller func(string) goroutines.SubmitOption
	other  func() goroutines.SubmitOption
	otherC func(string) goroutines.SubmitOption
}

func kinds() []kind {
	return []kind{
		{"limited", func(n string, s int) (goroutines.Pool, error) {
			p, err := limited.New(n, s)
			if p == nil {
				return nil, err
			}
			return p, err
		}, limited.NonBlocking, limited.Caller, pooled.NonBlocking, pooled.Caller},
		{"pooled", func(n string, s int) (goroutines.Pool, error) {
			p, err := pooled.New(n, s)
			if p == nil {
				return nil, err
			}
			return p, err
		}, pooled.NonBlocking, pooled.Caller, limited.NonBlocking, limited.Caller},
	}
}

func mk(t *testing.T, k kind, size int) goroutines.Pool {
	t.Helper()
	p, err := k.mk("", size)
	if err != nil {
		t.Fatalf("%s: New(%d): %v", k.name, size, err)
	}
	return p
}

// within fails the test if f does not return.
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		buf := make([]byte, 1<<16)
		t.Fatalf("%s: still blocked after %v\n%s", what, long, buf[:runtime.Stack(buf, true)])
	}
}

func TestC01Limit(t *testing.T) {
	for _, k := range kinds() {
		for _, size := range []int{1, 2, 5} {
			p := mk(t, k, size)
			var cur, max atomic.Int64
			job := func(ctx context.Context) {
				n := cur.Add(1)
				for {
					m := max.Load()
					if n <= m || max.CompareAndSwap(m, n) {
						break
					}
				}
				time.Sleep(200 * time.Microsecond)
				cur.Add(-1)
			}
			within(t, k.name+": submissions", func() {
				var wg sync.WaitGroup
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 60; i++ {
							switch {
							case g == 3 && i%3 == 0:
								p.Submit(context.Background(), func(context.Context) { time.Sleep(100 * time.Microsecond) }, k.nb())
							case i%7 == 0:
								p.Submit(context.Background(), nil)
								p.Submit(context.Background(), job, k.other())
								p.Submit(context.Background(), job, k.caller("me"))
							case i%11 == 0:
								ctx, cancel := context.WithCancel(context.Background())
								cancel()
								p.Submit(ctx, job)
							default:
								p.Submit(context.Background(), job)
							}
						}
					}()
				}
				wg.Wait()
				p.Wait()
			})
			if m := max.Load(); m > int64(size) {
				t.Fatalf("%s: %d blocking jobs executed at the same time in a pool of size %d", k.name, m, size)
			}
			p.Close()
		}
	}
}

// All of the capacity can be used, also after all kinds of jobs went through the pool.
func TestC01Capacity(t *testing.T) {
	for _, k := range kinds() {
		for _, size := range []int{1, 2, 4, 100, 300} {
			p := mk(t, k, size)
			for round := 0; round < 3; round++ {
				for i := 0; i < 5; i++ {
					p.Submit(context.Background(), nil)
					p.Submit(context.Background(), func(context.Context) {}, k.other())
					p.Submit(context.Background(), func(context.Context) {}, k.nb())
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					p.Submit(ctx, func(context.Context) {})
				}
				within(t, k.name+": Wait", p.Wait)
				release := make(chan struct{})
				var running sync.WaitGroup
				running.Add(size)
				within(t, fmt.Sprintf("%s: %d jobs at the same time in a pool of size %d", k.name, size, size), func() {
					for i := 0; i < size; i++ {
						p.Submit(context.Background(), func(context.Context) { running.Done(); <-release })
					}
					running.Wait()
				})
				close(release)
				within(t, k.name+": Wait", p.Wait)
			}
			p.Close()
		}
	}
}

type key struct{}

func TestC02Once(t *testing.T) {
	for _, k := range kinds() {
		p := mk(t, k, 3)
		const n = 400
		var ran [n]atomic.Int64
		var wrong atomic.Int64
		fail := func(o ...any) goroutines.SubmitOption { return nil }
		_ = fail
		var accepted [n]atomic.Bool
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < n; i += 4 {
					ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, i))
					var opts []goroutines.SubmitOption
					switch i % 9 {
					case 1:
						opts = append(opts, k.nb())
					case 2:
						opts = append(opts, k.other())
					case 3:
						opts = append(opts, k.caller("x"))
					case 4:
						opts = append(opts, k.caller("x"), k.nb())
					case 5:
						opts = append(opts, k.nb(), k.otherC("x"))
					case 6:
						opts = append(opts, k.other(), k.nb())
					case 7:
						cancel()
					case 8:
						opts = append(opts, k.otherC("x"), k.caller("y"))
					}
					err := p.Submit(ctx, func(c context.Context) {
						if c != ctx {
							wrong.Add(1)
						}
						if i%5 == 0 {
							time.Sleep(50 * time.Microsecond)
						}
						ran[i].Add(1)
					}, opts...)
					accepted[i].Store(err == nil)
					bad := i%9 == 2 || i%9 == 5 || i%9 == 6 || i%9 == 8
					if bad != (err != nil) {
						t.Errorf("%s: Submit %d (kind %d): error %v", k.name, i, i%9, err)
					}
					_ = cancel
				}
			}()
		}
		within(t, k.name+": Submit", wg.Wait)
		if err := p.Submit(context.Background(), nil); err == nil {
			t.Errorf("%s: a nil job was accepted", k.name)
		}
		if err := p.Submit(context.Background(), nil, k.nb()); err == nil {
			t.Errorf("%s: a nil NonBlocking job was accepted", k.name)
		}
		within(t, k.name+": Wait", p.Wait)
		time.Sleep(5 * time.Millisecond)
		for i := range ran {
			want := int64(0)
			if accepted[i].Load() {
				want = 1
			}
			if got := ran[i].Load(); got != want {
				t.Errorf("%s: job %d (kind %d) was executed %d times, want %d", k.name, i, i%9, got, want)
			}
		}
		if wrong.Load() > 0 {
			t.Errorf("%s: %d jobs were given another Context", k.name, wrong.Load())
		}
		within(t, k.name+": Close", p.Close)
	}
}

// Jobs submitted while all workers are busy are not mixed up.
func TestC02Busy(t *testing.T) {
	for _, k := range kinds() {
		p := mk(t, k, 1)
		for round := 0; round < 30; round++ {
			release := make(chan struct{})
			started := make(chan struct{})
			var ran [6]atomic.Int64
			p.Submit(context.Background(), func(context.Context) { close(started); <-release })
			<-started
			var wg sync.WaitGroup
			for i := range ran {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var opts []goroutines.SubmitOption
					if i%2 == 0 {
						opts = append(opts, k.nb())
					}
					p.Submit(context.WithValue(context.Background(), key{}, i), func(ctx context.Context) {
						if ctx.Value(key{}) != i {
							t.Errorf("%s: another Context", k.name)
						}
						ran[i].Add(1)
					}, opts...)
				}()
			}
			time.Sleep(time.Millisecond)
			close(release)
			within(t, k.name+": Submit", wg.Wait)
			within(t, k.name+": Wait", p.Wait)
			for i := range ran {
				if n := ran[i].Load(); n != 1 {
					t.Fatalf("%s: job %d executed %d times", k.name, i, n)
				}
			}
		}
		p.Close()
	}
}

func TestC03Wait(t *testing.T) {
	for _, k := range kinds() {
		for round := 0; round < 60; round++ {
			p := mk(t, k, 1+round%3)
			var sub, fin atomic.Int64
			for i := 0; i < 12; i++ {
				var opts []goroutines.SubmitOption
				if (i+round)%3 == 0 {
					opts = append(opts, k.nb())
				}
				if i%5 == 4 {
					opts = append(opts, k.other())
				}
				if p.Submit(context.Background(), func(context.Context) {
					time.Sleep(time.Duration((i*37+round)%5) * 100 * time.Microsecond)
					fin.Add(1)
				}, opts...) == nil {
					sub.Add(1)
				}
			}
			s := sub.Load()
			what := "Wait"
			f := p.Wait
			if round%2 == 1 {
				what, f = "Close", p.Close
			}
			within(t, k.name+": "+what, f)
			if n := fin.Load(); n < s {
				t.Fatalf("%s: %s returned with %d of %d jobs finished", k.name, what, n, s)
			}
			if round%2 == 0 {
				within(t, k.name+": Close", p.Close)
			}
		}
	}
}

// Wait is called right after Submit.
func TestC03Late(t *testing.T) {
	for _, k := range kinds() {
		for round := 0; round < 600; round++ {
			p := mk(t, k, 1)
			var fin atomic.Bool
			busy := make(chan struct{})
			if round%3 == 0 {
				p.Submit(context.Background(), func(context.Context) { <-busy })
			}
			var opts []goroutines.SubmitOption
			if round%2 == 0 || round%3 == 0 {
				opts = append(opts, k.nb())
			}
			if round%5 == 0 {
				opts = append(opts, k.caller("x"))
			}
			p.Submit(context.Background(), func(context.Context) {
				runtime.Gosched()
				fin.Store(true)
			}, opts...)
			close(busy)
			within(t, k.name+": Wait", p.Wait)
			if !fin.Load() {
				t.Fatalf("%s: Wait returned before a job was finished", k.name)
			}
			p.Close()
		}
	}
}

func TestC03Refused(t *testing.T) {
	for _, k := range kinds() {
		p := mk(t, k, 1)
		for i := 0; i < 3; i++ {
			p.Submit(context.Background(), nil)
			p.Submit(context.Background(), func(context.Context) {}, k.other())
			p.Submit(context.Background(), func(context.Context) {}, k.nb(), k.other())
			within(t, k.name+": Wait after refused jobs", p.Wait)
		}
		within(t, k.name+": Close after refused jobs", p.Close)
	}
}

// A Submit with a cancelled Context while all goroutines of the pool are busy.
func TestC03Cancelled(t *testing.T) {
	for _, k := range kinds() {
		p := mk(t, k, 1)
		for i := 0; i < 3; i++ {
			release := make(chan struct{})
			p.Submit(context.Background(), func(context.Context) { <-release })
			ctx, cancel := context.WithCancel(context.Background())
			submitted := make(chan error, 1)
			var ran atomic.Int64
			go func() {
				submitted <- p.Submit(ctx, func(context.Context) { time.Sleep(5 * time.Millisecond); ran.Add(1) })
			}()
			time.Sleep(5 * time.Millisecond)
			cancel()
			time.Sleep(5 * time.Millisecond)
			close(release)
			within(t, k.name+": Wait after a Submit that was cancelled", func() {
				err := <-submitted
				p.Wait()
				if n := ran.Load(); err == nil && n != 1 {
					t.Errorf("%s: Wait returned and an accepted job ran %d times", k.name, n)
				}
			})
			if n := p.Running(); n != 0 {
				t.Errorf("%s: Running is %d after Wait", k.name, n)
			}
		}
		within(t, k.name+": Close", p.Close)
	}
}

// The goroutines of a pool end with Close.
func TestC03Goroutines(t *testing.T) {
	for _, k := range kinds() {
		before := runtime.NumGoroutine()
		for i := 0; i < 20; i++ {
			p := mk(t, k, 8)
			for j := 0; j < 10; j++ {
				p.Submit(context.Background(), func(context.Context) {})
				p.Submit(context.Background(), func(context.Context) {}, k.nb())
			}
			p.Close()
		}
		deadline := time.Now().Add(long)
		for runtime.NumGoroutine() > before+10 {
			if time.Now().After(deadline) {
				t.Fatalf("%s: %d goroutines are left after Close, %d before", k.name, runtime.NumGoroutine(), before)
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func TestC04NonBlocking(t *testing.T) {
	for _, k := range kinds() {
		for _, size := range []int{1, 3} {
			for round := 0; round < 5; round++ {
				p := mk(t, k, size)
				release := make(chan struct{})
				var busy sync.WaitGroup
				busy.Add(size)
				for i := 0; i < size; i++ {
					p.Submit(context.Background(), func(context.Context) { busy.Done(); <-release })
				}
				within(t, k.name+": start", busy.Wait)
				// More NonBlocking jobs than capacity, all at the same time.
				const n = 12
				var running sync.WaitGroup
				running.Add(n)
				within(t, k.name+": NonBlocking with all workers busy", func() {
					for i := 0; i < n; i++ {
						opts := []goroutines.SubmitOption{k.nb()}
						if i%2 == 0 {
							opts = append(opts, k.caller("c"))
						}
						p.Submit(context.Background(), func(context.Context) { running.Done(); <-release }, opts...)
					}
				})
				within(t, k.name+": NonBlocking jobs start with all workers busy", running.Wait)
				close(release)
				within(t, k.name+": Wait", p.Wait)
				// Nested: a job waits for the NonBlocking job that it submits.
				within(t, k.name+": nested NonBlocking", func() {
					for i := 0; i < size*3; i++ {
						p.Submit(context.Background(), func(ctx context.Context) {
							d := make(chan struct{})
							p.Submit(ctx, func(context.Context) { close(d) }, k.nb())
							<-d
						})
					}
					p.Wait()
				})
				// NonBlocking jobs right after others finished or are about to.
				within(t, k.name+": NonBlocking, racing", func() {
					for i := 0; i < 100; i++ {
						p.Submit(context.Background(), func(context.Context) {})
						d := make(chan struct{})
						p.Submit(context.Background(), func(context.Context) { close(d) }, k.nb())
						<-d
					}
				})
				p.Close()
			}
		}
	}
}

// NonBlocking jobs use no capacity of a limited pool.
func TestC04Capacity(t *testing.T) {
	k := kinds()[0]
	p := mk(t, k, 2)
	release := make(chan struct{})
	within(t, "limited: NonBlocking", func() {
		for i := 0; i < 10; i++ {
			p.Submit(context.Background(), func(context.Context) { <-release }, k.nb())
		}
	})
	within(t, "limited: blocking jobs next to NonBlocking ones", func() {
		var r sync.WaitGroup
		r.Add(2)
		for i := 0; i < 2; i++ {
			p.Submit(context.Background(), func(context.Context) { r.Done(); <-release })
		}
		r.Wait()
	})
	close(release)
	p.Close()
}

func TestC05Running(t *testing.T) {
	type ln interface{ Len() int }
	for _, k := range kinds() {
		for _, size := range []int{1, 2, 7} {
			p := mk(t, k, size)
			if n := p.(ln).Len(); n != size {
				t.Fatalf("%s: Len of a new pool of size %d is %d", k.name, size, n)
			}
			release := make(chan struct{})
			accepted := 0
			sub := func(nb bool) {
				var opts []goroutines.SubmitOption
				if nb {
					opts = append(opts, k.nb())
				}
				if p.Submit(context.Background(), func(context.Context) { <-release }, opts...) == nil {
					accepted++
				}
				p.Submit(context.Background(), nil)
				p.Submit(context.Background(), func(context.Context) { <-release }, k.other())
				p.Submit(context.Background(), func(context.Context) { <-release }, k.nb(), k.other())
				if n := p.Running(); n != accepted {
					t.Fatalf("%s: Running is %d with %d unfinished jobs", k.name, n, accepted)
				}
				if n := p.(ln).Len(); n != size {
					t.Fatalf("%s: Len of a busy pool of size %d is %d", k.name, size, n)
				}
			}
			within(t, k.name+": Submit", func() {
				for i := 0; i < size; i++ {
					sub(false)
				}
				for i := 0; i < 5; i++ {
					sub(true)
				}
			})
			close(release)
			within(t, k.name+": Wait", p.Wait)
			if n := p.Running(); n != 0 {
				t.Fatalf("%s: Running is %d after Wait", k.name, n)
			}
			p.Close()
			if n := p.(ln).Len(); n != size {
				t.Fatalf("%s: Len of a closed pool of size %d is %d", k.name, size, n)
			}
		}
		// immediately after Wait, many times
		p := mk(t, k, 4)
		var min atomic.Int64
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				if n := int64(p.Running()); n < min.Load() {
					min.Store(n)
				}
			}
		}()
		for i := 0; i < 3000; i++ {
			var opts []goroutines.SubmitOption
			if i%3 == 0 {
				opts = append(opts, k.nb())
			}
			p.Submit(context.Background(), func(context.Context) {
				if n := p.Running(); n < 1 {
					t.Errorf("%s: Running is %d in a job", k.name, n)
				}
			}, opts...)
			p.Wait()
			if n := p.Running(); n != 0 {
				t.Fatalf("%s: Running is %d right after Wait", k.name, n)
			}
		}
		close(stop)
		if min.Load() < 0 {
			t.Fatalf("%s: Running was %d", k.name, min.Load())
		}
		p.Close()
	}
}

// A queued job counts as well.
func TestC05Queued(t *testing.T) {
	for _, k := range kinds() {
		p := mk(t, k, 1)
		release := make(chan struct{})
		p.Submit(context.Background(), func(context.Context) { <-release })
		for i := 0; i < 3; i++ {
			go p.Submit(context.Background(), func(context.Context) {})
		}
		time.Sleep(20 * time.Millisecond)
		if n := p.Running(); n < 1 || n > 4 {
			t.Errorf("%s: Running is %d", k.name, n)
		}
		close(release)
		time.Sleep(20 * time.Millisecond)
		within(t, k.name+": Wait", p.Wait)
		if n := p.Running(); n != 0 {
			t.Errorf("%s: Running is %d after Wait", k.name, n)
		}
		p.Close()
	}
}

func TestC06Arguments(t *testing.T) {
	for _, k := range kinds() {
		for _, size := range []int{0, -1} {
			if _, err := k.mk("", size); err == nil {
				t.Errorf("%s: size %d was accepted", k.name, size)
			}
		}
		for _, n := range []string{"a b", "a\tb", "a1", "1", "a-b", "-", "x-1", "a\n", " a", "pool٣", "tab\u00a0x"} {
			p, err := k.mk(n, 1)
			if err == nil && !strings.ContainsAny(n, "٣\u00a0") {
				t.Errorf("%s: name %q was accepted", k.name, n)
			}
			if p != nil && err == nil {
				p.Close()
			}
		}
	}
}

func TestC06Unique(t *testing.T) {
	for round := 0; round < 3; round++ {
		names := map[string]bool{}
		var mu sync.Mutex
		var pools []goroutines.Pool
		within(t, "New with the same name", func() {
			var wg sync.WaitGroup
			for _, k := range kinds() {
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 8; i++ {
							p, err := k.mk("samename", 1)
							if err != nil {
								t.Errorf("%s: %v", k.name, err)
								return
							}
							n := p.GetName()
							mu.Lock()
							if names[n] {
								t.Errorf("%s: two open pools are called %q", k.name, n)
							}
							names[n] = true
							pools = append(pools, p)
							mu.Unlock()
							if rest, ok := strings.CutPrefix(n, "samename"); !ok || rest != "" && !number(rest) {
								t.Errorf("%s: name %q", k.name, n)
							}
						}
					}()
				}
			}
			wg.Wait()
		})
		for i, p := range pools {
			if i%2 == round%2 {
				p.Close()
			}
		}
		for i, p := range pools {
			if i%2 != round%2 {
				p.Close()
			}
		}
	}
}

func number(s string) bool {
	d, ok := strings.CutPrefix(s, "-")
	if !ok || d == "" {
		return false
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// A name is given out again only after its pool was closed; others stay.
func TestC06Reuse(t *testing.T) {
	for _, k := range kinds() {
		open := map[string]goroutines.Pool{}
		within(t, "New and Close", func() {
			for i := 0; i < 60; i++ {
				p, err := k.mk("reuse", 1)
				if err != nil {
					t.Errorf("%v", err)
					return
				}
				if open[p.GetName()] != nil {
					t.Errorf("%s: %q is the name of another open pool", k.name, p.GetName())
				}
				open[p.GetName()] = p
				if i%3 == 2 {
					j := i % len(open)
					for n, p := range open {
						if j == 0 {
							p.Close()
							delete(open, n)
							break
						}
						j--
					}
				}
			}
		})
		for _, p := range open {
			p.Close()
		}
	}
}

func TestC07Errors(t *testing.T) {
	var e goroutines.Errors
	if e.Error() != nil || len(e.Errors()) != 0 {
		t.Fatal("a new Errors is not empty")
	}
	var want []error
	for i := 0; i < 40; i++ {
		err := fmt.Errorf("error %d", i)
		if i%5 == 4 {
			err = want[i-1]
		}
		want = append(want, err)
		e.Record(err)
		got := e.Errors()
		check(t, got, want)
		if e.Error() != want[0] {
			t.Fatalf("Error() = %v", e.Error())
		}
		// what was returned is not shared
		for j := range got {
			got[j] = errors.New("changed")
		}
		_ = append(got, errors.New("appended"))
		check(t, e.Errors(), want)
	}
	snap := e.Errors()
	keep := append([]error{}, snap...)
	for i := 0; i < 40; i++ {
		e.Record(errors.New("later"))
	}
	check(t, snap, keep)
}

func check(t *testing.T, got, want []error) {
	t.Helper()
	if len(got) != len(want) {
		t.Fatalf("Errors() has %d errors, want %d", len(got), len(want))
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("Errors()[%d] = %v, want %v", i, got[i], want[i])
		}
	}
}

func TestC07Concurrent(t *testing.T) {
	for round := 0; round < 30; round++ {
		var e goroutines.Errors
		const g, n = 8, 60
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					e.Record(fmt.Errorf("%d:%d", i, j))
					if j%4 == 0 {
						s := e.Errors()
						for k := range s {
							if s[k] == nil {
								t.Errorf("nil error in Errors()")
							}
							s[k] = nil
						}
						if e.Error() == nil {
							t.Errorf("Error() is nil after Record")
						}
					}
				}
			}()
		}
		wg.Wait()
		all := e.Errors()
		if len(all) != g*n {
			t.Fatalf("%d errors, want %d", len(all), g*n)
		}
		next := make([]int, g)
		for _, err := range all {
			var i, j int
			fmt.Sscanf(err.Error(), "%d:%d", &i, &j)
			if next[i] != j {
				t.Fatalf("goroutine %d: error %d is recorded as number %d", i, j, next[i])
			}
			next[i]++
		}
		if e.Error() != all[0] {
			t.Fatalf("Error() is not the first error")
		}
	}
}

func TestC06Names(t *testing.T) {
	open := func() map[string]goroutines.Pool {
		m := map[string]goroutines.Pool{}
		for p := range register.Pools() {
			if _, ok := m[p.GetName()]; ok {
				t.Fatalf("two registered pools are named %q", p.GetName())
			}
			m[p.GetName()] = p
		}
		return m
	}
	create := func(k kind, name string, size int) (p goroutines.Pool, err error) {
		ok := make(chan struct{})
		go func() {
			defer close(ok)
			p, err = k.mk(name, size)
		}()
		select {
		case <-ok:
		case <-time.After(long):
			t.Fatalf("%s: New(%q) does not return", k.name, name)
		}
		return p, err
	}
	for _, bad := range []string{"a1", "1", "a-b", "-", "a b", " ", "a\tb", "a\n", "\r", "a\f", "0", "9x"} {
		for _, k := range kinds() {
			if _, err := create(k, bad, 1); err == nil {
				t.Errorf("%s: name %q is accepted", k.name, bad)
			}
		}
	}
	for _, k := range kinds() {
		for _, n := range []int{0, -1} {
			if _, err := create(k, "size", n); err == nil {
				t.Errorf("%s: size %d is accepted", k.name, n)
			}
		}
		for _, good := range []string{"", "abc", "A.b_c", "é", "x/y", "(a+b)*"} {
			p, err := create(k, good, 1)
			if err != nil || p == nil {
				t.Fatalf("%s: New(%q): %v", k.name, good, err)
			}
			if p.GetName() != good {
				t.Errorf("%s: New(%q) makes a pool named %q", k.name, good, p.GetName())
			}
			got := open()[good]
			if good == "" && got != nil {
				t.Errorf("%s: a pool without a name is registered", k.name)
			}
			if good != "" && got != p {
				t.Errorf("%s: pool %q is not registered", k.name, good)
			}
			p.Close()
			if open()[good] != nil {
				t.Errorf("%s: pool %q is registered after Close", k.name, good)
			}
		}
	}
	// many of a name, at the same time
	for round := 0; round < 20; round++ {
		var mu sync.Mutex
		var all []goroutines.Pool
		var wg sync.WaitGroup
		for i := 0; i < 24; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, err := kinds()[i%2].mk("same", 1)
				if err != nil || p == nil {
					t.Errorf("New: %v", err)
					return
				}
				mu.Lock()
				all = append(all, p)
				mu.Unlock()
			}()
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(long):
			t.Fatal("New of many pools with the same name does not return")
		}
		m := open()
		seen := map[string]bool{}
		for _, p := range all {
			n := p.GetName()
			if seen[n] {
				t.Fatalf("two pools are named %q", n)
			}
			seen[n] = true
			if m[n] != p {
				t.Fatalf("the registry has another pool under %q", n)
			}
			num := strings.TrimPrefix(n, "same-")
			if n != "same" && (num == n || num == "" || strings.Trim(num, "0123456789") != "") {
				t.Fatalf("a pool asked for as \"same\" is named %q", n)
			}
		}
		for i, p := range all {
			p.Close()
			m := open()
			if m[p.GetName()] != nil {
				t.Fatalf("pool %q is registered after Close", p.GetName())
			}
			for _, q := range all[i+1:] {
				if m[q.GetName()] != q {
					t.Fatalf("pool %q is gone from the registry after Close of %q", q.GetName(), p.GetName())
				}
			}
		}
		if t.Failed() {
			return
		}
	}
}
