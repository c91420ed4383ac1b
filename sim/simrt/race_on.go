//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// Edge is a place where tasks synchronise, for the race detector only.
type Edge struct{ b byte }

// Acquire sees what was released here before.
//
//go:norace
func (e *Edge) Acquire() { runtime.RaceAcquire(unsafe.Pointer(&e.b)) }

// Release makes what the task did so far visible to those that acquire.
//
//go:norace
func (e *Edge) Release() { runtime.RaceReleaseMerge(unsafe.Pointer(&e.b)) }

// Both acquires and releases.
//
//go:norace
func (e *Edge) Both() { e.Acquire(); e.Release() }
