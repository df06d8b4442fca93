//go:build go1.22

// Package vrand replaces math/rand in the instrumented code. Draws are
// deterministic by default; in enumeration mode every outcome of every draw is
// a decision of the scheduler.
package vrand

import (
	"math/rand"

	"github.com/alexander-yu/stream/zzverif/vsync"
)

// Enum switches to enumeration of the top-level draws and of generators made
// with New; Grid is the number of equally likely values standing for a draw
// from a continuous or huge range; Inexact is set when such a draw happened.
var (
	Enum    bool
	Grid    = 12
	Inexact bool
)

type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf

// NewSource: seeds that look like the clock are replaced by a constant.
func NewSource(seed int64) Source {
	if seed > 1<<32 || seed < 0 {
		seed = 1
	}
	return rand.NewSource(seed)
}

type Rand struct{ r *rand.Rand }

func New(src Source) *Rand { return &Rand{rand.New(src)} }

// shared is the source of the top-level functions, which may be used by any
// number of goroutines: every thread of a schedule draws its own sequence, so
// that a draw does not depend on the order of the threads.
type shared struct{}

func (shared) Int63() int64   { return int64(vsync.Rand64() >> 1) }
func (shared) Uint64() uint64 { return vsync.Rand64() }
func (shared) Seed(int64)     {}

var global = &Rand{rand.New(shared{})}

// Reset restarts the deterministic default generator.
func Reset() { vsync.ResetRand() }

// Chooser, when set, decides the outcome of every enumerated draw.
var Chooser func(n int) int

func pick(n int) int {
	if Chooser != nil {
		return Chooser(n)
	}
	return vsync.Choose(n)
}

func grid() int { Inexact = true; return pick(Grid) }

func (r *Rand) Seed(s int64) { r.r.Seed(s) }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if Enum {
		return pick(n)
	}
	return r.r.Intn(n)
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	if Enum {
		return int32(pick(int(n)))
	}
	return r.r.Int31n(n)
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	if Enum {
		return int64(pick(int(n)))
	}
	return r.r.Int63n(n)
}
func (r *Rand) Int() int {
	if Enum {
		return grid()
	}
	return r.r.Int()
}
func (r *Rand) Int31() int32 {
	if Enum {
		return int32(grid())
	}
	return r.r.Int31()
}
func (r *Rand) Int63() int64 {
	if Enum {
		return int64(grid())
	}
	return r.r.Int63()
}
func (r *Rand) Uint32() uint32 {
	if Enum {
		return uint32(grid())
	}
	return r.r.Uint32()
}
func (r *Rand) Uint64() uint64 {
	if Enum {
		return uint64(grid())
	}
	return r.r.Uint64()
}
func (r *Rand) Float64() float64 {
	if Enum {
		return (float64(grid()) + 0.5) / float64(Grid)
	}
	return r.r.Float64()
}
func (r *Rand) Float32() float32 {
	if Enum {
		return (float32(grid()) + 0.5) / float32(Grid)
	}
	return r.r.Float32()
}
func (r *Rand) NormFloat64() float64 { Inexact = true; return r.r.NormFloat64() }
func (r *Rand) ExpFloat64() float64  { Inexact = true; return r.r.ExpFloat64() }
func (r *Rand) Read(p []byte) (int, error) {
	Inexact = true
	return r.r.Read(p)
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := r.Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Seed(s int64)                       {}
func Intn(n int) int                     { return global.Intn(n) }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int() int                           { return global.Int() }
func Int31() int32                       { return global.Int31() }
func Int63() int64                       { return global.Int63() }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func NormFloat64() float64               { return global.NormFloat64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
func Read(p []byte) (int, error)         { return global.Read(p) }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
