// Package rand stands in for package math/rand/v2 in instrumented code.
package rand

import (
	"math/rand/v2"

	"verifsim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

func New(s Source) *Rand                               { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                          { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8                   { return rand.NewChaCha8(s) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }

type src struct{}

func (src) Uint64() uint64 { return simrt.Random() }

func r() *rand.Rand { return rand.New(src{}) }

func Int64() int64                    { return r().Int64() }
func Uint32() uint32                  { return r().Uint32() }
func Uint64() uint64                  { return r().Uint64() }
func Int32() int32                    { return r().Int32() }
func Int() int                        { return r().Int() }
func Uint() uint                      { return r().Uint() }
func Int64N(n int64) int64            { return r().Int64N(n) }
func Uint64N(n uint64) uint64         { return r().Uint64N(n) }
func Int32N(n int32) int32            { return r().Int32N(n) }
func Uint32N(n uint32) uint32         { return r().Uint32N(n) }
func IntN(n int) int                  { return r().IntN(n) }
func UintN(n uint) uint               { return r().UintN(n) }
func Float64() float64                { return r().Float64() }
func Float32() float32                { return r().Float32() }
func Perm(n int) []int                { return r().Perm(n) }
func Shuffle(n int, f func(i, j int)) { r().Shuffle(n, f) }
func NormFloat64() float64            { return r().NormFloat64() }
func ExpFloat64() float64             { return r().ExpFloat64() }

// N is rand.N.
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(r().Uint64N(uint64(n)))
}
