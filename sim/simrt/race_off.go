//go:build !race

package simrt

func raceDisable() {}
func raceEnable()  {}

// Edge is a place where tasks synchronise, for the race detector only.
type Edge struct{ b byte }

// Acquire sees what was released here before.
func (e *Edge) Acquire() {}

// Release makes what the task did so far visible to those that acquire.
func (e *Edge) Release() {}

// Both acquires and releases.
func (e *Edge) Both() {}
