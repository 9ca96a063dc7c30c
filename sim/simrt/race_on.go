//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the Go race detector is compiled in.
const RaceBuild = true

func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
func RaceErrors() int               { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)  { runtime.RaceReleaseMerge(p) }
func RaceReleaseX(p unsafe.Pointer) { runtime.RaceRelease(p) }

// RaceWrite tells the race detector about a write made by the simulator on
// behalf of a device, into memory owned by the code under test.
func RaceWrite(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
