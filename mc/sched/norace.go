//go:build !race

package sched

func raceOff()             {}
func raceOn()              {}
func acquire(p *byte)      {}
func release(p *byte)      {}
func releaseMerge(p *byte) {}

// Racy says whether the race detector is on.
const Racy = false
