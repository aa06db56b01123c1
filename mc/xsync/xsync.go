// Package xsync replaces the sync package in the instrumented library.
package xsync

import (
	"sync"

	"xmc/xsched"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool
type Cond = sync.Cond
type WaitGroup = sync.WaitGroup

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type RWMutex struct{ xsched.RWLock }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Mutex struct{ l xsched.RWLock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

// Once as in sync: others wait until f has returned.
type Once struct {
	l    xsched.RWLock
	done bool
}

func (o *Once) Do(f func()) {
	o.l.Lock()
	defer o.l.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
