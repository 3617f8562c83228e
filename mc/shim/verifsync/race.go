//go:build race

package verifsync

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the race detector watches this build.
const RaceEnabled = true

// The hand-offs of the scheduler must not order the accesses of the threads for the race detector.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
