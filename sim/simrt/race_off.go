//go:build !race

package simrt

import "unsafe"

// RaceEnabled reports whether this is the race-detector build.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
