// package-dir: pipelines/stagedpipe/internal/queue
package queue_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
)

const long = 15 * time.Second

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(long):
		t.Fatalf("%s: still blocked after %v", what, long)
	}
}

func TestC22Fifo(t *testing.T) {
	for _, size := range []int{-1, 0, 1, 3, 100} {
		q := queue.New[int](size)
		n := 50
		if size > 0 {
			n = size
		}
		next, want := 0, 0
		for round := 0; round < 10; round++ {
			within(t, "Push", func() {
				for i := 0; i < n; i++ {
					q.Push(next)
					next++
				}
			})
			within(t, "Pop", func() {
				for i := 0; i < n; i++ {
					if v, ok := q.Pop(); !ok || v != want {
						t.Errorf("Pop = %d, %v, want %d", v, ok, want)
					}
					want++
				}
			})
		}
		q.Push(7)
		q.Close()
		within(t, "Pop after Close", func() {
			if v, ok := q.Pop(); !ok || v != 7 {
				t.Errorf("Pop after Close = %d, %v", v, ok)
			}
			for i := 0; i < 3; i++ {
				if v, ok := q.Pop(); ok || v != 0 {
					t.Errorf("Pop of a closed, empty queue = %d, %v", v, ok)
				}
			}
		})
	}
}

func TestC22Concurrent(t *testing.T) {
	for round := 0; round < 60; round++ {
		size := []int{0, 1, 2, 10}[round%4]
		q := queue.New[[2]int](size)
		const pushers, poppers, n = 4, 4, 100
		var push, pop sync.WaitGroup
		var mu sync.Mutex
		seen := map[[2]int]int{}
		var pushed atomic.Int64
		for i := 0; i < pushers; i++ {
			push.Add(1)
			go func() {
				defer push.Done()
				for j := 0; j < n; j++ {
					q.Push([2]int{i, j})
					pushed.Add(1)
				}
			}()
		}
		for i := 0; i < poppers; i++ {
			pop.Add(1)
			go func() {
				defer pop.Done()
				last := map[int]int{}
				for {
					v, ok := q.Pop()
					if !ok {
						return
					}
					if l, ok := last[v[0]]; ok && l >= v[1] {
						t.Errorf("popped %d of pusher %d after %d", v[1], v[0], l)
					}
					last[v[0]] = v[1]
					mu.Lock()
					seen[v]++
					mu.Unlock()
				}
			}()
		}
		within(t, "Push", push.Wait)
		q.Close()
		within(t, "Pop", pop.Wait)
		if len(seen) != pushers*n {
			t.Fatalf("%d of %d values were popped", len(seen), pushers*n)
		}
		for v, c := range seen {
			if c != 1 {
				t.Fatalf("%v was popped %d times", v, c)
			}
		}
	}
}

// The last values and Close race with Pop.
func TestC22Close(t *testing.T) {
	for round := 0; round < 3000; round++ {
		q := queue.New[int](round % 3)
		done := make(chan int)
		go func() {
			n := 0
			for {
				if _, ok := q.Pop(); !ok {
					break
				}
				n++
			}
			done <- n
		}()
		for i := 0; i < round%4; i++ {
			q.Push(i)
		}
		q.Close()
		select {
		case n := <-done:
			if n != round%4 {
				t.Fatalf("popped %d of %d values", n, round%4)
			}
		case <-time.After(long):
			t.Fatal("Pop of a closed queue blocks")
		}
	}
}

func TestC22Limit(t *testing.T) {
	for _, size := range []int{1, 2, 5} {
		for round := 0; round < 5; round++ {
			q := queue.New[int](size)
			var pushed atomic.Int64
			go func() {
				for i := 0; i < size+10; i++ {
					q.Push(i)
					pushed.Add(1)
				}
			}()
			for popped := int64(0); popped < 10; popped++ {
				want := int64(size) + popped
				within(t, "Push with room in the queue", func() {
					for pushed.Load() < want {
						time.Sleep(50 * time.Microsecond)
					}
				})
				time.Sleep(time.Millisecond)
				if n := pushed.Load(); n > want {
					t.Fatalf("a queue of size %d took %d values with %d popped", size, n, popped)
				}
				q.Pop()
			}
		}
	}
}

// A Pop that finds nothing makes no room.
func TestC22LimitClose(t *testing.T) {
	const size = 2
	for round := 0; round < 300; round++ {
		q := queue.New[int](size)
		q.Close()
		var pushed atomic.Int64
		const pushers, n = 4, 50
		var wg sync.WaitGroup
		for i := 0; i < pushers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					q.Push(j)
					pushed.Add(1)
				}
			}()
		}
		within(t, "Pop", func() {
			for popped := int64(0); popped < pushers*n; {
				if _, ok := q.Pop(); ok {
					popped++
				}
				if held := pushed.Load() - popped; held > size {
					t.Errorf("a queue of size %d holds %d values", size, held)
				}
			}
		})
		within(t, "Push", wg.Wait)
	}
}
