//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

func raceOff()             { runtime.RaceDisable() }
func raceOn()              { runtime.RaceEnable() }
func acquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func releaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Racy says whether the race detector is on.
const Racy = true
