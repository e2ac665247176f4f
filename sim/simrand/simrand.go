// Package simrand stands in for math/rand and math/rand/v2: the global
// functions draw from the seed of the run.
package simrand

import (
	"math/rand"
	v2 "math/rand/v2"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var g = rand.New(rand.NewSource(1))

// Reset starts a run.
func Reset(seed uint64) { g = rand.New(rand.NewSource(int64(seed))) }

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(int64)                                       {}
func Int() int                                         { return g.Int() }
func Intn(n int) int                                   { return g.Intn(n) }
func Int31() int32                                     { return g.Int31() }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Int63() int64                                     { return g.Int63() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Float32() float32                                 { return g.Float32() }
func Float64() float64                                 { return g.Float64() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)                       { return g.Read(p) }

// names of math/rand/v2
type (
	PCG     = v2.PCG
	ChaCha8 = v2.ChaCha8
)

func NewPCG(a, b uint64) *PCG        { return v2.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8 { return v2.NewChaCha8(s) }
func IntN(n int) int                 { return g.Intn(n) }
func Int32() int32                   { return g.Int31() }
func Int32N(n int32) int32           { return g.Int31n(n) }
func Int64() int64                   { return g.Int63() }
func Int64N(n int64) int64           { return g.Int63n(n) }
func Uint32N(n uint32) uint32        { return uint32(g.Int63n(int64(n))) }
func Uint64N(n uint64) uint64        { return g.Uint64() % n }
func UintN(n uint) uint              { return uint(g.Uint64() % uint64(n)) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(g.Uint64() % uint64(n))
}
