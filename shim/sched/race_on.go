//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// Acquire/Release publish the happens-before edges of a shimmed operation to
// the race detector (which does not see the scheduler's own hand-offs).
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }
