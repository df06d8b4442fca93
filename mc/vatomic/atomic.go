//go:build go1.22

// Package vatomic replaces sync/atomic in the instrumented code: every
// operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/alexander-yu/stream/zzverif/vsync"
)

func p(a unsafe.Pointer, w string) { vsync.Point(a, w) }

func LoadInt32(a *int32) int32     { p(unsafe.Pointer(a), "atomic.Load"); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32) { p(unsafe.Pointer(a), "atomic.Store"); atomic.StoreInt32(a, v) }
func AddInt32(a *int32, v int32) int32 {
	p(unsafe.Pointer(a), "atomic.Add")
	return atomic.AddInt32(a, v)
}
func SwapInt32(a *int32, v int32) int32 {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapInt32(a, v)
}
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AndInt32(a *int32, m int32) int32 {
	p(unsafe.Pointer(a), "atomic.And")
	return atomic.AndInt32(a, m)
}
func OrInt32(a *int32, m int32) int32 { p(unsafe.Pointer(a), "atomic.Or"); return atomic.OrInt32(a, m) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Int32) Store(v int32)      { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { p(unsafe.Pointer(x), "atomic.Add"); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Int32) And(v int32) int32  { p(unsafe.Pointer(x), "atomic.And"); return x.v.And(v) }
func (x *Int32) Or(v int32) int32   { p(unsafe.Pointer(x), "atomic.Or"); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(a *int64) int64     { p(unsafe.Pointer(a), "atomic.Load"); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64) { p(unsafe.Pointer(a), "atomic.Store"); atomic.StoreInt64(a, v) }
func AddInt64(a *int64, v int64) int64 {
	p(unsafe.Pointer(a), "atomic.Add")
	return atomic.AddInt64(a, v)
}
func SwapInt64(a *int64, v int64) int64 {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapInt64(a, v)
}
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AndInt64(a *int64, m int64) int64 {
	p(unsafe.Pointer(a), "atomic.And")
	return atomic.AndInt64(a, m)
}
func OrInt64(a *int64, m int64) int64 { p(unsafe.Pointer(a), "atomic.Or"); return atomic.OrInt64(a, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Int64) Store(v int64)      { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { p(unsafe.Pointer(x), "atomic.Add"); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Int64) And(v int64) int64  { p(unsafe.Pointer(x), "atomic.And"); return x.v.And(v) }
func (x *Int64) Or(v int64) int64   { p(unsafe.Pointer(x), "atomic.Or"); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(a *uint32) uint32     { p(unsafe.Pointer(a), "atomic.Load"); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32) { p(unsafe.Pointer(a), "atomic.Store"); atomic.StoreUint32(a, v) }
func AddUint32(a *uint32, v uint32) uint32 {
	p(unsafe.Pointer(a), "atomic.Add")
	return atomic.AddUint32(a, v)
}
func SwapUint32(a *uint32, v uint32) uint32 {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapUint32(a, v)
}
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AndUint32(a *uint32, m uint32) uint32 {
	p(unsafe.Pointer(a), "atomic.And")
	return atomic.AndUint32(a, m)
}
func OrUint32(a *uint32, m uint32) uint32 {
	p(unsafe.Pointer(a), "atomic.Or")
	return atomic.OrUint32(a, m)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { p(unsafe.Pointer(x), "atomic.Add"); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Uint32) And(v uint32) uint32  { p(unsafe.Pointer(x), "atomic.And"); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32   { p(unsafe.Pointer(x), "atomic.Or"); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(a *uint64) uint64     { p(unsafe.Pointer(a), "atomic.Load"); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64) { p(unsafe.Pointer(a), "atomic.Store"); atomic.StoreUint64(a, v) }
func AddUint64(a *uint64, v uint64) uint64 {
	p(unsafe.Pointer(a), "atomic.Add")
	return atomic.AddUint64(a, v)
}
func SwapUint64(a *uint64, v uint64) uint64 {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapUint64(a, v)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AndUint64(a *uint64, m uint64) uint64 {
	p(unsafe.Pointer(a), "atomic.And")
	return atomic.AndUint64(a, m)
}
func OrUint64(a *uint64, m uint64) uint64 {
	p(unsafe.Pointer(a), "atomic.Or")
	return atomic.OrUint64(a, m)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { p(unsafe.Pointer(x), "atomic.Add"); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Uint64) And(v uint64) uint64  { p(unsafe.Pointer(x), "atomic.And"); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64   { p(unsafe.Pointer(x), "atomic.Or"); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(a *uintptr) uintptr {
	p(unsafe.Pointer(a), "atomic.Load")
	return atomic.LoadUintptr(a)
}
func StoreUintptr(a *uintptr, v uintptr) {
	p(unsafe.Pointer(a), "atomic.Store")
	atomic.StoreUintptr(a, v)
}
func AddUintptr(a *uintptr, v uintptr) uintptr {
	p(unsafe.Pointer(a), "atomic.Add")
	return atomic.AddUintptr(a, v)
}
func SwapUintptr(a *uintptr, v uintptr) uintptr {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapUintptr(a, v)
}
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AndUintptr(a *uintptr, m uintptr) uintptr {
	p(unsafe.Pointer(a), "atomic.And")
	return atomic.AndUintptr(a, m)
}
func OrUintptr(a *uintptr, m uintptr) uintptr {
	p(unsafe.Pointer(a), "atomic.Or")
	return atomic.OrUintptr(a, m)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { p(unsafe.Pointer(x), "atomic.Add"); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Uintptr) And(v uintptr) uintptr  { p(unsafe.Pointer(x), "atomic.And"); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr   { p(unsafe.Pointer(x), "atomic.Or"); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer {
	p(unsafe.Pointer(a), "atomic.Load")
	return atomic.LoadPointer(a)
}
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	p(unsafe.Pointer(a), "atomic.Store")
	atomic.StorePointer(a, v)
}
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	p(unsafe.Pointer(a), "atomic.Swap")
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	p(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapPointer(a, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Bool) Store(v bool)     { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Value) Store(v any)    { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Value) Swap(v any) any { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { p(unsafe.Pointer(x), "atomic.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { p(unsafe.Pointer(x), "atomic.Store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { p(unsafe.Pointer(x), "atomic.Swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	p(unsafe.Pointer(x), "atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
