//go:build !race

package simrt

const Race = false

func raceDisable()      {}
func raceEnable()       {}
func raceRelease(p any) {}
func raceAcquire(p any) {}

// RaceRelease and RaceAcquire order what simulated synchronisation orders.
func RaceRelease[T any](p *T) {}
func RaceAcquire[T any](p *T) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
