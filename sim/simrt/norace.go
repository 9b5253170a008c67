//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether the race detector is part of this build.
const RaceBuild = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceErrors() int              { return 0 }
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
