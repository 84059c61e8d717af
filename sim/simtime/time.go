// Package simtime replaces time: the clock is the simulator's.
//
// Terminal runs use testing/synctest, which fakes the real package; there the
// functions below pass through.
package simtime

import (
	std "time"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// Passthrough is set while the run lives in a synctest bubble.
var Passthrough bool

var epoch = std.Date(2024, 7, 15, 12, 0, 0, 0, std.UTC)

func Now() std.Time {
	if Passthrough || simrt.S == nil {
		if simrt.S == nil {
			return epoch
		}
		return std.Now()
	}
	simrt.S.Clock += std.Microsecond
	return epoch.Add(simrt.S.Clock)
}

func Since(t std.Time) std.Duration { return Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(Now()) }

func Sleep(d std.Duration) {
	if Passthrough {
		std.Sleep(d)
		return
	}
	simrt.Sleep(d)
}
