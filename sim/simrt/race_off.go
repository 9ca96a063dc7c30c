//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether the Go race detector is compiled in.
const RaceBuild = false

func raceDisable()                  {}
func raceEnable()                   {}
func RaceErrors() int               { return 0 }
func RaceAcquire(p unsafe.Pointer)  {}
func RaceRelease(p unsafe.Pointer)  {}
func RaceReleaseX(p unsafe.Pointer) {}

func RaceWrite(p unsafe.Pointer, n int) {}
