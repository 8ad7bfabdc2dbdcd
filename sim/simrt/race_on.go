//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether this is the race-detector build.
const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceAcquire and friends give simsync the happens-before edges the real
// primitives have.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
