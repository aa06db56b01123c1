// Package xsched controls what a run of the instrumented library may do nondeterministically: the order
// of map iteration and the interleaving of goroutines. A run is a function of a list of choices, so that
// all runs can be enumerated depth first.
package xsched

import "unsafe"

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// task is what the running goroutine belongs to; nil when it is not controlled.
//
//go:norace
func cur() *Task { return (*Task)(getLabel()) }
