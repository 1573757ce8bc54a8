package sched

// Lock state, also of read-write locks.
type Lock struct {
	w       bool
	readers int
	e, re   edge
}

type lockWait struct {
	l    *Lock
	read bool
}

//go:norace
func (w lockWait) Ready() bool { return !w.l.w && (w.read || w.l.readers == 0) }

//go:norace
func (l *Lock) Lock() {
	Until(lockWait{l, false}, "lock")
	l.w = true
	acquire(&l.e.b)
	acquire(&l.re.b)
}

//go:norace
func (l *Lock) TryLock() bool {
	Point("try lock")
	if l.w || l.readers > 0 {
		return false
	}
	l.w = true
	acquire(&l.e.b)
	acquire(&l.re.b)
	return true
}

//go:norace
func (l *Lock) Unlock() {
	Point("unlock")
	if !l.w {
		panic("unlock of unlocked mutex")
	}
	release(&l.e.b)
	l.w = false
}

//go:norace
func (l *Lock) RLock() {
	Until(lockWait{l, true}, "read lock")
	l.readers++
	acquire(&l.e.b)
}

//go:norace
func (l *Lock) RUnlock() {
	Point("read unlock")
	if l.readers == 0 {
		panic("unlock of unlocked mutex")
	}
	releaseMerge(&l.re.b)
	l.readers--
}

// Group is a wait group.
type Group struct {
	n int
	e edge
}

//go:norace
func (g *Group) Ready() bool { return g.n == 0 }

//go:norace
func (g *Group) Add(d int) {
	Point("wait group add")
	if d < 0 {
		releaseMerge(&g.e.b)
	}
	g.n += d
	if g.n < 0 {
		panic("negative wait group counter")
	}
}

//go:norace
func (g *Group) Wait() {
	Until(g, "wait group wait")
	acquire(&g.e.b)
}

// GoClose closes a channel in a goroutine of its own.
func GoClose[T any](c chan<- T) { Go(func() { Close(c) }) }
