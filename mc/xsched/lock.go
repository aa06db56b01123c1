package xsched

import (
	"sync"
	"unsafe"
)

// RWLock is a reader/writer lock under the control of the scheduler. Outside a controlled task it is a
// plain sync.RWMutex.
type RWLock struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int // writers which wait: a new reader waits behind them, as in sync.RWMutex
	w, r    byte // addresses for the race detector
}

//go:norace
func (l *RWLock) Lock() {
	t := cur()
	if t == nil || t.sched == nil {
		l.real.Lock()
		return
	}
	t.yield()
	l.waiting++
	for l.writer || l.readers > 0 {
		t.block(unsafe.Pointer(l))
	}
	l.waiting--
	l.writer = true
	raceAcquire(unsafe.Pointer(&l.w))
	raceAcquire(unsafe.Pointer(&l.r))
}

//go:norace
func (l *RWLock) TryLock() bool {
	t := cur()
	if t == nil || t.sched == nil {
		return l.real.TryLock()
	}
	t.yield()
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	raceAcquire(unsafe.Pointer(&l.w))
	raceAcquire(unsafe.Pointer(&l.r))
	return true
}

//go:norace
func (l *RWLock) Unlock() {
	t := cur()
	if t == nil || t.sched == nil {
		l.real.Unlock()
		return
	}
	if !l.writer {
		if t.sched.aborted {
			return
		}
		panic("unlock of a lock which is not locked")
	}
	raceRelease(unsafe.Pointer(&l.w))
	l.writer = false
	t.unblock(unsafe.Pointer(l))
	if !t.sched.aborted {
		t.yield()
	}
}

//go:norace
func (l *RWLock) RLock() {
	t := cur()
	if t == nil || t.sched == nil {
		l.real.RLock()
		return
	}
	t.yield()
	for l.writer || l.waiting > 0 {
		t.block(unsafe.Pointer(l))
	}
	l.readers++
	raceAcquire(unsafe.Pointer(&l.w))
}

//go:norace
func (l *RWLock) TryRLock() bool {
	t := cur()
	if t == nil || t.sched == nil {
		return l.real.TryRLock()
	}
	t.yield()
	if l.writer || l.waiting > 0 {
		return false
	}
	l.readers++
	raceAcquire(unsafe.Pointer(&l.w))
	return true
}

//go:norace
func (l *RWLock) RUnlock() {
	t := cur()
	if t == nil || t.sched == nil {
		l.real.RUnlock()
		return
	}
	if l.readers <= 0 {
		if t.sched.aborted {
			return
		}
		panic("unlock of a lock which is not read locked")
	}
	raceReleaseM(unsafe.Pointer(&l.r))
	l.readers--
	t.unblock(unsafe.Pointer(l))
	if !t.sched.aborted {
		t.yield()
	}
}
