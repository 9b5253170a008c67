//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the race detector is part of this build.
const RaceBuild = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceErrors() int              { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
