// Package sync stands for the standard package in rewritten code.
package sync

import (
	std "sync"

	"verif/mc/sched"
)

type (
	Locker = std.Locker
	Map    = std.Map
	Pool   = std.Pool
)

type Mutex struct{ l sched.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

type RWMutex struct{ l sched.Lock }

func (m *RWMutex) Lock()           { m.l.Lock() }
func (m *RWMutex) Unlock()         { m.l.Unlock() }
func (m *RWMutex) TryLock() bool   { return m.l.TryLock() }
func (m *RWMutex) RLock()          { m.l.RLock() }
func (m *RWMutex) RUnlock()        { m.l.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rl{m} }

type rl struct{ m *RWMutex }

func (r rl) Lock()   { r.m.RLock() }
func (r rl) Unlock() { r.m.RUnlock() }

type WaitGroup struct{ g sched.Group }

func (w *WaitGroup) Add(n int) { w.g.Add(n) }
func (w *WaitGroup) Done()     { w.g.Add(-1) }
func (w *WaitGroup) Wait()     { w.g.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Cond struct {
	L       Locker
	waiters []chan bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := sched.Reg(make(chan bool, 1))
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	sched.Recv(w)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		sched.Send(w, true)
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiters) > 0 {
		c.Signal()
	}
}
