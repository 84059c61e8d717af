// Package simrand replaces math/rand: the global source is the simulator's.
package simrand

import (
	std "math/rand"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

type src struct{}

func (src) Int63() int64 {
	if simrt.S == nil {
		return 4
	}
	hi := uint64(simrt.S.Draw(simrt.Sched, 1<<31))
	lo := uint64(simrt.S.Draw(simrt.Sched, 1<<31))
	return int64((hi<<32 | lo) & (1<<63 - 1))
}
func (src) Seed(int64) {}

var g = std.New(src{})

func Seed(seed int64)                    { _ = seed }
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Read(p []byte) (int, error)         { return g.Read(p) }
