//go:build go1.22

// Package vrand2 replaces math/rand/v2 in the instrumented code (see vrand).
package vrand2

import (
	"math/rand/v2"

	"github.com/alexander-yu/stream/zzverif/vrand"
)

type Source = rand.Source
type PCG = rand.PCG
type ChaCha8 = rand.ChaCha8

func NewPCG(a, b uint64) *PCG           { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8 { return rand.NewChaCha8(seed) }

type wrap struct{ s Source }

func (w wrap) Int63() int64   { return int64(w.s.Uint64() >> 1) }
func (w wrap) Uint64() uint64 { return w.s.Uint64() }
func (w wrap) Seed(int64)     {}

type Rand struct{ r *vrand.Rand }

func New(s Source) *Rand { return &Rand{vrand.New(wrap{s})} }

func (r *Rand) IntN(n int) int                     { return r.r.Intn(n) }
func (r *Rand) Int32N(n int32) int32               { return r.r.Int31n(n) }
func (r *Rand) Int64N(n int64) int64               { return r.r.Int63n(n) }
func (r *Rand) Uint32N(n uint32) uint32            { return uint32(r.r.Int63n(int64(n))) }
func (r *Rand) Uint64N(n uint64) uint64            { return uint64(r.r.Int63n(int64(n))) }
func (r *Rand) UintN(n uint) uint                  { return uint(r.r.Int63n(int64(n))) }
func (r *Rand) Int() int                           { return r.r.Int() }
func (r *Rand) Int32() int32                       { return r.r.Int31() }
func (r *Rand) Int64() int64                       { return r.r.Int63() }
func (r *Rand) Uint32() uint32                     { return r.r.Uint32() }
func (r *Rand) Uint64() uint64                     { return r.r.Uint64() }
func (r *Rand) Float64() float64                   { return r.r.Float64() }
func (r *Rand) Float32() float32                   { return r.r.Float32() }
func (r *Rand) Perm(n int) []int                   { return r.r.Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.r.Shuffle(n, swap) }

func IntN(n int) int                     { return vrand.Intn(n) }
func Int32N(n int32) int32               { return vrand.Int31n(n) }
func Int64N(n int64) int64               { return vrand.Int63n(n) }
func Uint32N(n uint32) uint32            { return uint32(vrand.Int63n(int64(n))) }
func Uint64N(n uint64) uint64            { return uint64(vrand.Int63n(int64(n))) }
func UintN(n uint) uint                  { return uint(vrand.Int63n(int64(n))) }
func Int() int                           { return vrand.Int() }
func Int32() int32                       { return vrand.Int31() }
func Int64() int64                       { return vrand.Int63() }
func Uint32() uint32                     { return vrand.Uint32() }
func Uint64() uint64                     { return vrand.Uint64() }
func Float64() float64                   { return vrand.Float64() }
func Float32() float32                   { return vrand.Float32() }
func Perm(n int) []int                   { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { vrand.Shuffle(n, swap) }

func N[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](n T) T {
	return T(vrand.Int63n(int64(n)))
}
