//go:build !race

package sched

import "unsafe"

const RaceBuild = false

func raceDisable()                  {}
func raceEnable()                   {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int               { return 0 }
