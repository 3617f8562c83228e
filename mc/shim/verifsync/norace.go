//go:build !race

package verifsync

import "unsafe"

// RaceEnabled reports whether the race detector watches this build.
const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
