// Package simrandv2 replaces math/rand/v2: the global source is the simulator's.
package simrandv2

import (
	std "math/rand/v2"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

type src struct{}

func (src) Uint64() uint64 {
	if simrt.S == nil {
		return 4
	}
	hi := uint64(simrt.S.Draw(simrt.Sched, 1<<31))
	lo := uint64(simrt.S.Draw(simrt.Sched, 1<<31))
	return hi<<33 | lo<<2
}

var g = std.New(src{})

func Int64() int64                       { return g.Int64() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Uint() uint                         { return g.Uint() }
func Int32() int32                       { return g.Int32() }
func Int() int                           { return g.Int() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	return Int(g.Uint64N(uint64(n)))
}
