//go:build race

package xsched

import (
	"runtime"
	"unsafe"
)

const Race = true

func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)  { runtime.RaceRelease(p) }
func raceReleaseM(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int               { return runtime.RaceErrors() }
