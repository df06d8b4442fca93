//go:build !race && go1.22

package vsync

import "unsafe"

const RaceOn = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceRead(p unsafe.Pointer)         {}
func raceWrite(p unsafe.Pointer)        {}
func raceOff()                          {}
func raceBack()                         {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
