// package-dir: prim/atomics
package atomics_test

import (
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/prim/atomics"
)

const long = 15 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		t.Fatalf("%s: still blocked after %v", what, long)
	}
}

func TestC11Sequential(t *testing.T) {
	within(t, "sequence", func() {
		var v atomics.RWValue[int]
		if v.Load() != 0 {
			t.Errorf("Load of an unset value = %d", v.Load())
		}
		mine := errors.New("mine")
		want := 0
		for i := 1; i < 200; i++ {
			calls := 0
			switch i % 5 {
			case 0:
				v.Store(i)
				want = i
			case 1, 2:
				w := want
				if err := v.LoadReplace(func(c int) (int, error) {
					calls++
					if c != w {
						t.Errorf("LoadReplace was given %d, current value %d", c, w)
					}
					if v.Load() != w {
						t.Errorf("Load in LoadReplace")
					}
					return i * 3, nil
				}); err != nil {
					t.Errorf("LoadReplace: %v", err)
				}
				want = i * 3
			default:
				w := want
				if err := v.LoadReplace(func(c int) (int, error) {
					calls++
					if c != w {
						t.Errorf("LoadReplace was given %d, current value %d", c, w)
					}
					return i * 7, mine
				}); err != mine {
					t.Errorf("LoadReplace = %v", err)
				}
			}
			if i%5 != 0 && calls != 1 {
				t.Errorf("the function was called %d times", calls)
			}
			if v.Load() != want {
				t.Errorf("Load = %d, want %d", v.Load(), want)
			}
		}
		// zero values and errors on unset values
		var p atomics.RWValue[*int]
		if err := p.LoadReplace(func(c *int) (*int, error) { return new(int), mine }); err != mine || p.Load() != nil {
			t.Errorf("failed LoadReplace of an unset value changed it")
		}
		p.Store(new(int))
		p.Store(nil)
		if p.Load() != nil {
			t.Errorf("nil was not stored")
		}
		if err := p.LoadReplace(func(c *int) (*int, error) { return nil, nil }); err != nil {
			t.Errorf("%v", err)
		}
	})
}

func TestC11Lost(t *testing.T) {
	for round := 0; round < 40; round++ {
		var v atomics.RWValue[int]
		const g, n = 8, 100
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := 0
				for j := 0; j < n; j++ {
					v.LoadReplace(func(c int) (int, error) {
						if j%10 == 9 {
							return -1, errors.New("x")
						}
						return c + 1, nil
					})
					if c := v.Load(); c < last {
						t.Errorf("Load went back from %d to %d", last, c)
					} else {
						last = c
					}
				}
			}()
		}
		within(t, "LoadReplace", wg.Wait)
		if v.Load() != g*n*9/10 {
			t.Fatalf("%d updates, want %d", v.Load(), g*n*9/10)
		}
	}
}

// No writer changes the value while the function of LoadReplace runs, and Load does not wait.
func TestC11Exclusive(t *testing.T) {
	for round := 0; round < 20; round++ {
		var v atomics.RWValue[int]
		v.Store(1)
		in, release := make(chan struct{}), make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			v.LoadReplace(func(c int) (int, error) {
				close(in)
				<-release
				if v.Load() != c {
					t.Errorf("the value changed from %d to %d during LoadReplace", c, v.Load())
				}
				if round%2 == 0 {
					return 100, errors.New("x")
				}
				return 2, nil
			})
		}()
		<-in
		within(t, "Load during LoadReplace", func() {
			if v.Load() != 1 {
				t.Errorf("Load = %d", v.Load())
			}
		})
		stored := make(chan struct{})
		go func() { v.Store(3); close(stored) }()
		time.Sleep(time.Millisecond)
		close(release)
		within(t, "Store", func() { <-done; <-stored })
		if v.Load() != 3 {
			t.Errorf("Load = %d after Store(3) was the last write", v.Load())
		}
	}
}

func TestC11Struct(t *testing.T) {
	type pair struct{ a, b int }
	var v atomics.RWValue[pair]
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				if i%2 == 0 {
					v.Store(pair{i*1000 + j, i*1000 + j})
				} else {
					v.LoadReplace(func(p pair) (pair, error) { return pair{p.a + 1, p.b + 1}, nil })
				}
				if p := v.Load(); p.a != p.b {
					t.Errorf("torn value %v", p)
				}
			}
		}()
	}
	within(t, "writers", wg.Wait)
}
