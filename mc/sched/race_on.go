//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// The scheduler's own hand-overs must not order the threads in the eyes of the race
// monitor; only the operations of the code under test do. This package and the lock shims
// are therefore compiled without the monitor's instrumentation (see run.sh), hand-overs are
// hidden from it, and the shims report the order that each operation really creates.

const RaceBuild = true

func RaceErrors() int            { return runtime.RaceErrors() }
func raceQuiet()                 { runtime.RaceDisable() }
func raceHear()                  { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)   { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)   { runtime.RaceRelease(p) }
func ReleaseIn(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
