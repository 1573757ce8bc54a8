// Package sched runs rewritten code under a scheduler that decides every
// interleaving. Exactly one goroutine runs at a time; it gives control back
// before every operation on a channel, lock, wait group or pipe, and the next
// one is chosen by a fixed policy unless the plan says otherwise.
//
// What the scheduler does itself is hidden from the race detector, and only
// the happens-before edges of the Go memory model are told to it: so every
// explored schedule is also checked for data races.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
)

type op uint8

const (
	opRun op = iota // can go on
	opSend
	opRecv
	opSelect
	opPred // waits for a state of a lock, wait group or pipe
	opForeign
	opDone
)

// edge carries happens-before information.
type edge struct{ b byte }

// Edge is for what is made once and read ever after.
type Edge struct{ e edge }

func (x *Edge) Release() { release(&x.e.b) }
func (x *Edge) Acquire() { acquire(&x.e.b) }

type msg struct {
	v    any // *T
	from edge
	next *msg
}

type gor struct {
	id    int
	wake  chan struct{}
	op    op
	ch    *Chn
	since int // arrival at the operation
	m     *msg
	got   *msg
	ok    bool
	back  edge // released by a receiver when it arrives
	peer  *gor
	cases []Case
	pick  int
	wait  Waiter
	site  [8]uintptr
	what  string
	at    [8]uintptr
}

// Chn is the state of a channel under the scheduler.
type Chn struct {
	key      uintptr
	real     any // keeps the address in use
	capacity int
	n        int
	head     *msg
	tail     *msg
	closed   bool
	closer   edge
	slots    *msg // slots given back, oldest first (capacity > 0)
	slotTail *msg
	given    int // slots never used yet
}

// Waiter is something that can be waited for.
type Waiter interface{ Ready() bool }

const (
	maxGor   = 512
	maxSteps = 1 << 18
	tabSize  = 1 << 14
)

// Dev makes the scheduler take a different choice at one step.
type Dev struct{ Step, Choice int }

// S is one execution.
type S struct {
	gs       [maxGor]*gor
	n        int
	cur      *gor
	clock    int
	steps    int
	alts     []uint8
	plan     []Dev
	robin    bool
	tab      []*Chn
	fin      chan struct{}
	panicked any
	stack    string
	over     bool
	stuck    bool
	mapDesc  bool
	rootDone bool
}

var cur *S

// Outcome is what an execution came to.
type Outcome struct {
	Steps    int
	Alts     []uint8 // number of choices at every step
	Deadlock bool    // root did not finish
	Leak     bool    // something else did not finish
	Long     bool
	Panic    any
	Blocked  []string
}

// Config of an execution.
type Config struct {
	Robin   bool // policy: switch at every operation, otherwise only when blocked
	MapDesc bool // maps are ranged over in descending order
}

var altsBuf = make([]uint8, maxSteps)
var tabBuf = make([]*Chn, tabSize)

// Run executes root under the scheduler.
//
//go:norace
func Run(root func(), plan []Dev, conf Config) Outcome {
	s := &S{plan: plan, robin: conf.Robin, mapDesc: conf.MapDesc, fin: make(chan struct{}), alts: altsBuf, tab: tabBuf}
	for i := range s.tab {
		s.tab[i] = nil
	}
	cur = s
	g := s.newG()
	s.cur = g
	done := make(chan struct{})
	go s.body(g, root, done)
	raceOff()
	g.wake <- struct{}{}
	<-s.fin
	raceOn()
	o := Outcome{Steps: s.steps, Long: s.over, Panic: s.panicked}
	o.Alts = make([]uint8, s.steps)
	copy(o.Alts, s.alts[:s.steps])
	if s.rootDone {
		<-done
	} else {
		o.Deadlock = s.panicked == nil && !s.over
	}
	for i := 0; i < s.n; i++ {
		if s.gs[i].op != opDone {
			o.Leak = true
			o.Blocked = append(o.Blocked, fmt.Sprintf("goroutine started at %s: %s at %s", where(&s.gs[i].site), s.gs[i].what, where(&s.gs[i].at)))
		}
	}
	if s.panicked != nil {
		o.Blocked = []string{s.stack}
	}
	cur = nil
	return o
}

//go:norace
func (s *S) newG() *gor {
	g := &gor{id: s.n, wake: make(chan struct{}, 1), what: "not started"}
	runtime.Callers(3, g.site[:])
	if s.n >= maxGor {
		panic("too many goroutines")
	}
	s.gs[s.n] = g
	s.n++
	return g
}

//go:norace
func (s *S) body(g *gor, f func(), done chan struct{}) {
	raceOff()
	<-g.wake
	raceOn()
	defer func() {
		if e := recover(); e != nil {
			s.panicked = e
			buf := make([]byte, 4000)
			s.stack = string(buf[:runtime.Stack(buf, false)])
			s.finish()
			return
		}
		g.op = opDone
		if done != nil {
			s.rootDone = true
			close(done)
		}
		s.next(g)
	}()
	f()
}

//go:norace
func (s *S) finish() {
	raceOff()
	close(s.fin)
	raceOn()
}

// enabled lists who can go on, in the order of the policy.
//
//go:norace
func (s *S) enabled(g *gor, list *[maxGor]*gor) int {
	k := 0
	if !s.robin && g.can(s) {
		list[k] = g
		k++
	}
	for i := 1; i <= s.n; i++ {
		x := s.gs[(g.id+i)%s.n]
		if x == g && !s.robin {
			continue
		}
		if x.can(s) {
			list[k] = x
			k++
		}
	}
	if k == 0 {
		for i := 0; i < s.n; i++ {
			if s.gs[i].op == opForeign {
				list[k] = s.gs[i]
				k++
			}
		}
	}
	return k
}

var listBuf [maxGor]*gor

// next gives control to the next goroutine.
//
//go:norace
func (s *S) next(g *gor) {
	k := s.enabled(g, &listBuf)
	if k == 0 {
		s.stuck = true
		s.finish()
		if g.op != opDone {
			select {}
		}
		return
	}
	if s.steps >= maxSteps {
		s.over = true
		s.finish()
		if g.op != opDone {
			select {}
		}
		return
	}
	choice := 0
	for i := 0; i < len(s.plan); i++ {
		if s.plan[i].Step == s.steps {
			choice = s.plan[i].Choice
		}
	}
	if choice >= k {
		choice = 0
	}
	s.alts[s.steps] = uint8(k)
	s.steps++
	x := listBuf[choice]
	s.cur = x
	if x == g {
		return
	}
	raceOff()
	x.wake <- struct{}{}
	if g.op != opDone {
		<-g.wake
	}
	raceOn()
}

//go:norace
func (s *S) self() *gor { return s.cur }

//go:norace
func (g *gor) can(s *S) bool {
	switch g.op {
	case opRun:
		return true
	case opSend:
		return g.ch != nil && s.canSend(g.ch)
	case opRecv:
		return g.ch != nil && s.canRecv(g.ch)
	case opSelect:
		for i := range g.cases {
			if s.caseReady(&g.cases[i]) {
				return true
			}
		}
		return false
	case opPred:
		return g.wait.Ready()
	}
	return false
}

//go:norace
func (s *S) canSend(c *Chn) bool {
	return c.closed || (c.capacity > 0 && c.n < c.capacity) || (c.capacity == 0 && s.receiver(c) != nil)
}

//go:norace
func (s *S) canRecv(c *Chn) bool {
	return c.n > 0 || c.closed || (c.capacity == 0 && s.sender(c) != nil)
}

// receiver is the goroutine that waits longest to receive.
//
//go:norace
func (s *S) receiver(c *Chn) *gor {
	var r *gor
	for i := 0; i < s.n; i++ {
		x := s.gs[i]
		w := x.op == opRecv && x.ch == c
		if x.op == opSelect {
			for j := range x.cases {
				w = w || (!x.cases[j].send && x.cases[j].ch == c)
			}
		}
		if w && (r == nil || x.since < r.since) {
			r = x
		}
	}
	return r
}

//go:norace
func (s *S) sender(c *Chn) *gor {
	var r *gor
	for i := 0; i < s.n; i++ {
		x := s.gs[i]
		w := x.op == opSend && x.ch == c
		if x.op == opSelect {
			for j := range x.cases {
				w = w || (x.cases[j].send && x.cases[j].ch == c)
			}
		}
		if w && (r == nil || x.since < r.since) {
			r = x
		}
	}
	return r
}

// find returns the state of a channel, nil if it is not one made here.
//
//go:norace
func (s *S) find(p uintptr) *Chn {
	for i := p >> 4; ; i++ {
		c := s.tab[i%tabSize]
		if c == nil || c.key == p {
			return c
		}
	}
}

// Reg registers a channel with the scheduler.
//
//go:norace
func Reg[C any](c C) C {
	if s := cur; s != nil {
		v := reflect.ValueOf(c)
		s.reg(v.Pointer(), v.Cap(), c)
	}
	return c
}

//go:norace
func (s *S) reg(p uintptr, capacity int, real any) {
	i := p >> 4
	for s.tab[i%tabSize] != nil && s.tab[i%tabSize].key != p {
		i++
	}
	s.tab[i%tabSize] = &Chn{key: p, real: real, capacity: capacity, given: capacity}
}

//go:norace
func (s *S) arrive(g *gor, o op, c *Chn, what string) {
	g.op, g.ch, g.what = o, c, what
	g.at = [8]uintptr{}
	runtime.Callers(3, g.at[:])
	s.clock++
	g.since = s.clock
}

// where is the first place outside of this package.
func where(pcs *[8]uintptr) string {
	fr := runtime.CallersFrames(pcs[:])
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.HasPrefix(f.Function, "verif/mc/sched") {
			n := f.File
			if i := strings.LastIndex(n, "/ripsrc/"); i >= 0 {
				n = n[i+1:]
			}
			return fmt.Sprintf("%s:%d", n, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	s := cur
	if s == nil {
		go f()
		return
	}
	g := s.newG()
	go s.body(g, f, nil)
	s.point("start of a goroutine")
}

// point lets another goroutine go first.
//
//go:norace
func (s *S) point(what string) {
	g := s.self()
	s.arrive(g, opRun, nil, what)
	s.next(g)
}

// Point is a scheduling point before an operation that never blocks.
//
//go:norace
func Point(what string) {
	if s := cur; s != nil {
		s.point(what)
	}
}

// Until waits for w.
//
//go:norace
func Until(w Waiter, what string) {
	s := cur
	if s == nil {
		if !w.Ready() {
			panic("would block outside of the scheduler: " + what)
		}
		return
	}
	g := s.self()
	s.arrive(g, opPred, nil, what)
	g.wait = w
	s.next(g)
	g.op, g.wait = opRun, nil
}

//go:norace
func (s *S) deliver(r *gor, c *Chn, m *msg, ok bool) {
	if r.op == opSelect {
		for j := range r.cases {
			if !r.cases[j].send && r.cases[j].ch == c {
				r.pick = j
				break
			}
		}
	}
	r.got, r.ok, r.op = m, ok, opRun
}

// doSend performs a send that can be done.
//
//go:norace
func (s *S) doSend(g *gor, c *Chn, m *msg) {
	g.op = opRun
	if c.closed {
		panic("send on closed channel")
	}
	if c.capacity == 0 {
		r := s.receiver(c)
		acquire(&r.back.b)
		s.deliver(r, c, m, true)
		return
	}
	if c.given > 0 {
		c.given--
	} else {
		x := c.slots
		c.slots = x.next
		acquire(&x.from.b)
	}
	c.n++
	if c.head == nil {
		c.head = m
	} else {
		c.tail.next = m
	}
	c.tail = m
}

// doRecv performs a receive that can be done.
//
//go:norace
func (s *S) doRecv(g *gor, c *Chn) (*msg, bool) {
	g.op = opRun
	if c.n > 0 {
		m := c.head
		c.head = m.next
		m.next = nil
		c.n--
		x := &msg{}
		release(&x.from.b)
		if c.slots == nil {
			c.slots = x
		} else {
			c.slotTail.next = x
		}
		c.slotTail = x
		return m, true
	}
	if c.closed {
		return nil, false
	}
	w := s.sender(c)
	m := w.m
	if w.op == opSelect {
		for j := range w.cases {
			if w.cases[j].send && w.cases[j].ch == c {
				w.pick = j
				m = w.cases[j].m
				break
			}
		}
	}
	// the sender acquires what this receiver has released when it goes on
	w.peer = g
	w.op = opRun
	return m, true
}

//go:norace
func (s *S) send(p uintptr, v any, what string) {
	g := s.self()
	c := s.find(p)
	m := &msg{v: v}
	release(&m.from.b)
	g.m, g.peer = m, nil
	s.arrive(g, opSend, c, what)
	s.next(g)
	if g.op == opRun { // a receiver took it
		if g.peer != nil {
			acquire(&g.peer.back.b)
		}
		return
	}
	s.doSend(g, c, m)
}

//go:norace
func (s *S) recv(p uintptr, what string) (any, bool) {
	g := s.self()
	c := s.find(p)
	release(&g.back.b)
	g.got = nil
	s.arrive(g, opRecv, c, what)
	s.next(g)
	m, ok := g.got, g.ok
	if g.op == opRecv {
		m, ok = s.doRecv(g, c)
	}
	if m != nil {
		acquire(&m.from.b)
		return m.v, ok
	}
	acquire(&c.closer.b)
	return nil, false
}

// Send is ch <- v.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	s := cur
	p := reflect.ValueOf(ch).Pointer()
	if s == nil || (p != 0 && s.find(p) == nil) {
		foreign(s)
		ch <- v
		return
	}
	x := new(T)
	*x = v
	s.send(p, x, "send")
}

//go:norace
func foreign(s *S) {
	if s != nil {
		g := s.self()
		s.arrive(g, opForeign, nil, "operation on a channel of a library")
		s.next(g)
		g.op = opRun
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s := cur
	p := reflect.ValueOf(ch).Pointer()
	if s == nil || (p != 0 && s.find(p) == nil) {
		foreign(s)
		v, ok = <-ch
		return
	}
	x, ok := s.recv(p, "receive")
	if x != nil {
		v = *x.(*T)
	}
	return v, ok
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	s := cur
	p := reflect.ValueOf(ch).Pointer()
	if s == nil || s.find(p) == nil {
		close(ch)
		return
	}
	s.point("close")
	c := s.find(p)
	if c.closed {
		panic("close of closed channel")
	}
	release(&c.closer.b)
	c.closed = true
	// those waiting to receive find it closed when they go on
}

// Len is len(ch).
//
//go:norace
func Len[T any](ch <-chan T) int {
	s := cur
	p := reflect.ValueOf(ch).Pointer()
	if s == nil || s.find(p) == nil {
		return len(ch)
	}
	return s.find(p).n
}

// Zero is the zero value of what ch carries.
func Zero[T any](ch <-chan T) (v T) { return }

// Case of a select.
type Case struct {
	ch    *Chn
	send  bool
	m     *msg
	real  reflect.Value
	isNil bool
}

// Sel is the outcome of a select.
type Sel struct {
	I  int
	v  any
	ok bool
}

//go:norace
func caseOf(ch any, send bool, v any) Case {
	r := reflect.ValueOf(ch)
	p := r.Pointer()
	c := Case{send: send, real: r, isNil: p == 0}
	if p != 0 && cur != nil {
		c.ch = cur.find(p)
	}
	if send {
		c.m = &msg{v: v}
		release(&c.m.from.b)
	}
	return c
}

// R is a receive case.
func R[T any](ch <-chan T) Case { return caseOf(ch, false, nil) }

// SC is a send case.
func SC[T any](ch chan<- T, v T) Case { return caseOf(ch, true, &v) }

//go:norace
func (s *S) caseReady(c *Case) bool {
	if c.isNil {
		return false
	}
	if c.ch == nil {
		// channel of a library: only contexts and timers, ready when closed or fired
		return !c.send && c.real.Len() > 0
	}
	if c.send {
		return s.canSend(c.ch)
	}
	return s.canRecv(c.ch)
}

// Select is a select statement.
//
//go:norace
func Select(def bool, cases ...Case) Sel {
	s := cur
	if s == nil {
		panic("select outside of the scheduler")
	}
	g := s.self()
	if def {
		s.point("select")
	} else {
		release(&g.back.b)
		g.cases, g.got, g.pick, g.peer = cases, nil, -1, nil
		s.arrive(g, opSelect, nil, "select")
		s.next(g)
	}
	cs := g.cases
	g.cases = nil
	if !def && g.op == opRun && g.pick >= 0 {
		if cs[g.pick].send {
			if g.peer != nil {
				acquire(&g.peer.back.b)
			}
			return Sel{I: g.pick}
		}
		if g.got != nil {
			acquire(&g.got.from.b)
			return Sel{I: g.pick, v: g.got.v, ok: g.ok}
		}
		return Sel{I: g.pick}
	}
	for i := range cases {
		c := &cases[i]
		if !s.caseReady(c) {
			continue
		}
		g.op = opRun
		if c.ch == nil {
			v, ok := c.real.Recv()
			p := reflect.New(c.real.Type().Elem())
			if ok {
				p.Elem().Set(v)
			}
			return Sel{I: i, v: p.Interface(), ok: ok}
		}
		if c.send {
			s.doSend(g, c.ch, c.m)
			return Sel{I: i}
		}
		m, ok := s.doRecv(g, c.ch)
		if m == nil {
			acquire(&c.ch.closer.b)
			return Sel{I: i}
		}
		acquire(&m.from.b)
		return Sel{I: i, v: m.v, ok: ok}
	}
	g.op = opRun
	return Sel{I: -1}
}

// Got is what a receive case of a select got.
func Got[T any](s Sel, ch <-chan T) T {
	v, _ := Got2(s, ch)
	return v
}

// Got2 is Got with the second result.
func Got2[T any](s Sel, ch <-chan T) (v T, ok bool) {
	if s.v != nil {
		v = *s.v.(*T)
	}
	return v, s.ok
}

// MapDesc says in which order maps are ranged over.
//
//go:norace
func MapDesc() bool { return cur != nil && cur.mapDesc }
