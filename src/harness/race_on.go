//go:build race

package main

import (
	"runtime"
	"unsafe"
)

var raceVar [8]byte

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
func raceRelease()    { runtime.RaceReleaseMerge(unsafe.Pointer(&raceVar[0])) }
func raceAcquire()    { runtime.RaceAcquire(unsafe.Pointer(&raceVar[0])) }
