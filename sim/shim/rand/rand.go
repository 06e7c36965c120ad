package rand

import (
	rrand "math/rand"

	"github.com/innerr/ticat/zsim/rt"
)

func g() *rrand.Rand {
	return *rt.PV("math/rand", func() *rrand.Rand { return rrand.New(rrand.NewSource(rt.ProcSeed())) })
}

func Seed(n int64)                      { g().Seed(n) }
func Int() int                          { return g().Int() }
func Intn(n int) int                    { return g().Intn(n) }
func Int31() int32                      { return g().Int31() }
func Int31n(n int32) int32              { return g().Int31n(n) }
func Int63() int64                      { return g().Int63() }
func Int63n(n int64) int64              { return g().Int63n(n) }
func Uint32() uint32                    { return g().Uint32() }
func Uint64() uint64                    { return g().Uint64() }
func Float64() float64                  { return g().Float64() }
func Float32() float32                  { return g().Float32() }
func Perm(n int) []int                  { return g().Perm(n) }
func Shuffle(n int, f func(i, j int))   { g().Shuffle(n, f) }
func Read(b []byte) (int, error)        { return g().Read(b) }
func NormFloat64() float64              { return g().NormFloat64() }
func ExpFloat64() float64               { return g().ExpFloat64() }
