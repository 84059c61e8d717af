//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// Race tells that the race detector is on.
const Race = true

// The scheduler hands over between tasks through channels. These must not
// count as synchronisation of the tasks.
func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceRelease(p any) {
	switch x := p.(type) {
	case *task:
		runtime.RaceReleaseMerge(unsafe.Pointer(x))
	case *Sim:
		runtime.RaceReleaseMerge(unsafe.Pointer(x))
	}
}

func raceAcquire(p any) {
	switch x := p.(type) {
	case *task:
		runtime.RaceAcquire(unsafe.Pointer(x))
	case *Sim:
		runtime.RaceAcquire(unsafe.Pointer(x))
	}
}

// RaceRelease and RaceAcquire order what simulated synchronisation orders.
func RaceRelease[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func RaceAcquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
