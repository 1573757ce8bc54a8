package props

import (
	"sync"
)

// Choose is a stream of bounded choices. Enumerating a function of a Choose
// visits every sequence of choices the function can make.
type Choose struct {
	fixed  []uint8
	pos    int
	taken  []uint8
	widths []uint8
	pruned bool
}

// Pick returns a number below n.
func (c *Choose) Pick(n int) int {
	if n <= 0 {
		panic("Pick of nothing")
	}
	if n > 255 {
		panic("Pick too wide")
	}
	v := uint8(0)
	if c.pos < len(c.fixed) {
		v = c.fixed[c.pos]
	}
	c.pos++
	c.taken = append(c.taken, v)
	c.widths = append(c.widths, uint8(n))
	return int(v)
}

// Bool is a choice of two.
func (c *Choose) Bool() bool { return c.Pick(2) == 1 }

// Prune drops this sequence: symmetric to another or not meaningful.
func (c *Choose) Prune() { c.pruned = true }

// vectors enumerates all the choice sequences of f that are not pruned.
func vectors(f func(c *Choose)) (res []string) {
	var cur []uint8
	for {
		c := &Choose{fixed: cur}
		f(c)
		if !c.pruned {
			res = append(res, string(c.taken))
		}
		// next
		t := append([]uint8{}, c.taken...)
		i := len(t) - 1
		for i >= 0 && t[i]+1 >= c.widths[i] {
			i--
		}
		if i < 0 {
			return
		}
		t = t[:i+1]
		t[i]++
		cur = t
	}
}

// lazyVectors is vectors computed at first use.
type lazyVectors struct {
	once sync.Once
	f    func(c *Choose)
	v    []string
}

func (l *lazyVectors) get() []string {
	l.once.Do(func() { l.v = vectors(l.f) })
	return l.v
}

func (l *lazyVectors) at(i int) *Choose {
	return &Choose{fixed: []uint8(l.get()[i])}
}
