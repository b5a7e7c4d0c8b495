//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// The hand-overs of the scheduler are hidden from the race detector, which is
// told of the synchronisation of the code under test instead.
func disable() { runtime.RaceDisable() }
func enable()  { runtime.RaceEnable() }

func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
