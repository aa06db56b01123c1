package xsched

import (
	"fmt"
	"unsafe"
)

func ptr(t *Task) unsafe.Pointer { return unsafe.Pointer(t) }

const (
	maxTasks = 4
	stNew    = iota
	stReady
	stBlocked
	stDone
)

// Sched runs tasks one at a time; who runs next is a choice at every point. Leaving a task which could
// go on is a preemption; at most Bound of them are made.
type Sched struct {
	run      *Run
	Bound    int
	used     int
	n        int
	state    [maxTasks]int
	waitFor  [maxTasks]unsafe.Pointer // the lock a blocked task waits for
	wake     [maxTasks]chan struct{}
	panics   [maxTasks]interface{}
	Dead     bool
	Steps    int
	MaxSteps int
	Clock    int
	allDone  chan struct{}
	aborted  bool
}

type abort struct{}

// RunTasks executes the tasks under the choices of r. It returns "" or what went wrong.
func RunTasks(r *Run, bound int, tasks []func()) (s *Sched, problem string) {
	s = &Sched{run: r, Bound: bound, n: len(tasks), MaxSteps: 200000, allDone: make(chan struct{})}
	done := make(chan struct{}, len(tasks))
	for i := range tasks {
		s.wake[i] = make(chan struct{}, 1)
		s.state[i] = stReady
	}
	for i := range tasks {
		t := &Task{run: r, sched: s, id: i}
		f := tasks[i]
		go func() {
			defer func() { done <- struct{}{} }()
			setLabel(ptr(t))
			t.start()
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(abort); !ok {
							s.setPanic(t.id, x)
						}
					}
				}()
				f()
			}()
			setLabel(nil)
			t.finish()
		}()
	}
	s.kick(s.pick(-1))
	for range tasks {
		<-done
	}
	if s.Dead {
		return s, "deadlock: every unfinished caller waits for a lock"
	}
	for i := 0; i < s.n; i++ {
		if s.panics[i] != nil {
			return s, fmt.Sprintf("caller %d panics: %v", i, s.panics[i])
		}
	}
	if s.aborted {
		return s, "too many steps"
	}
	return s, ""
}

//go:norace
func (s *Sched) setPanic(i int, x interface{}) { s.panics[i] = x }

// pick chooses the next task to run; from is the running one, or -1.
//
//go:norace
func (s *Sched) pick(from int) int {
	var cand [maxTasks]int
	n := 0
	canStay := from >= 0 && s.state[from] == stReady
	if canStay {
		cand[n] = from
		n++
		if s.used >= s.Bound {
			return from
		}
	}
	for i := 0; i < s.n; i++ {
		if i != from && s.state[i] == stReady {
			cand[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	c := cand[s.run.Choose(n)]
	if canStay && c != from {
		s.used++
	}
	return c
}

//go:norace
func (s *Sched) kick(i int) {
	if i < 0 {
		return
	}
	raceOff()
	s.wake[i] <- struct{}{}
	raceOn()
}

//go:norace
func (t *Task) start() {
	raceOff()
	<-t.sched.wake[t.id]
	raceOn()
}

// yield lets another task run when it is chosen.
//
//go:norace
func (t *Task) yield() {
	s := t.sched
	if s.aborted {
		panic(abort{})
	}
	s.Steps++
	if s.Steps > s.MaxSteps {
		s.stopAll()
		panic(abort{})
	}
	next := s.pick(t.id)
	if next == t.id {
		return
	}
	if next < 0 { // blocked, and nobody can go on
		s.Dead = true
		s.stopAll()
		panic(abort{})
	}
	raceOff()
	s.wake[next] <- struct{}{}
	<-s.wake[t.id]
	raceOn()
	if s.aborted {
		panic(abort{})
	}
}

// stopAll makes every other task end at its next point.
//
//go:norace
func (s *Sched) stopAll() {
	s.aborted = true
	raceOff()
	for i := 0; i < s.n; i++ {
		select {
		case s.wake[i] <- struct{}{}:
		default:
		}
	}
	raceOn()
}

//go:norace
func (t *Task) finish() {
	s := t.sched
	s.state[t.id] = stDone
	if s.aborted {
		return
	}
	next := s.pick(t.id)
	if next >= 0 {
		s.kick(next)
		return
	}
	for i := 0; i < s.n; i++ {
		if s.state[i] == stBlocked {
			s.Dead = true
			s.stopAll()
			return
		}
	}
}

// Point is a place where the running task may be interrupted.
//
//go:norace
func Point() {
	if t := cur(); t != nil && t.sched != nil {
		t.yield()
	}
}

// Now is a logical clock: it orders the calls and returns of operations.
//
//go:norace
func Now() int {
	if t := cur(); t != nil && t.sched != nil {
		t.sched.Clock++
		return t.sched.Clock
	}
	return 0
}

// block makes the running task wait until Unblock of the same lock.
//
//go:norace
func (t *Task) block(l unsafe.Pointer) {
	t.sched.state[t.id] = stBlocked
	t.sched.waitFor[t.id] = l
	t.yield()
}

//go:norace
func (t *Task) unblock(l unsafe.Pointer) {
	s := t.sched
	for i := 0; i < s.n; i++ {
		if s.state[i] == stBlocked && s.waitFor[i] == l {
			s.state[i] = stReady
		}
	}
}
