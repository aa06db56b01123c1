//go:build !race

package xsched

import "unsafe"

const Race = false

func raceOff()                    {}
func raceOn()                     {}
func raceAcquire(unsafe.Pointer)  {}
func raceRelease(unsafe.Pointer)  {}
func raceReleaseM(unsafe.Pointer) {}
func RaceErrors() int             { return 0 }
