package main

import (
	"sync"
	"time"
)

// secondOpinion asks another solver about the obligations that were discharged (the thorough tier).
type secondOpinion struct {
	wg   sync.WaitGroup
	mu   sync.Mutex
	sem  chan bool
	end  time.Time
	seen map[string]bool
	res  map[string]int
	bad  []*Obligation
}

func newSecondOpinion(sem chan bool, end time.Time) *secondOpinion {
	return &secondOpinion{sem: sem, end: end, seen: map[string]bool{}, res: map[string]int{}}
}

func (s *secondOpinion) add(o *Obligation, sc string) {
	if s.seen[sc] {
		return
	}
	s.seen[sc] = true
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		s.sem <- true
		defer func() { <-s.sem }()
		res := "not asked"
		if time.Now().Before(s.end) {
			res = runSolver(10*time.Second, sc, "cvc5", "--lang=smt2", "--strings-exp")
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		s.res[res]++
		if res == "sat" {
			s.bad = append(s.bad, o)
		}
	}()
}

// wait marks what the solvers do not agree on.
func (s *secondOpinion) wait() map[string]int {
	s.wg.Wait()
	for _, o := range s.bad {
		o.Result = "unknown"
		o.Goal = "z3 and cvc5 do not agree"
	}
	return s.res
}
