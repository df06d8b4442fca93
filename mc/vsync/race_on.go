//go:build race && go1.22

package vsync

import (
	"runtime"
	"unsafe"
)

const RaceOn = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceRead(p unsafe.Pointer)         { runtime.RaceRead(p) }
func raceWrite(p unsafe.Pointer)        { runtime.RaceWrite(p) }
func raceOff()                          { runtime.RaceDisable() }
func raceBack()                         { runtime.RaceEnable() }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
