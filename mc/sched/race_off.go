//go:build !race

package sched

import "unsafe"

// RaceBuild reports that the race monitor is compiled in.
const RaceBuild = false

func RaceErrors() int            { return 0 }
func raceQuiet()                 {}
func raceHear()                  {}
func Acquire(p unsafe.Pointer)   {}
func Release(p unsafe.Pointer)   {}
func ReleaseIn(p unsafe.Pointer) {}
