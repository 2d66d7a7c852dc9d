// Package vatomic replaces package sync/atomic under the controlled scheduler:
// a scheduling point before each (then indivisible) operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mbv/vsched"
)

func y() { vsched.Yield() }

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { y(); return atomic.LoadInt32(p) }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { y(); atomic.StoreInt32(p, v) }

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 { y(); return atomic.AddInt32(p, d) }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 { y(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool { y(); return atomic.CompareAndSwapInt32(p, o, n) }

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, m int32) int32 { y(); return atomic.AndInt32(p, m) }

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, m int32) int32 { y(); return atomic.OrInt32(p, m) }

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

// Load loads.
func (x *Int32) Load() int32 { y(); return x.v.Load() }

// Store stores.
func (x *Int32) Store(v int32) { y(); x.v.Store(v) }

// Add adds.
func (x *Int32) Add(d int32) int32 { y(); return x.v.Add(d) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, n int32) bool { y(); return x.v.CompareAndSwap(o, n) }

// And ands.
func (x *Int32) And(m int32) int32 { y(); return x.v.And(m) }

// Or ors.
func (x *Int32) Or(m int32) int32 { y(); return x.v.Or(m) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { y(); return atomic.LoadInt64(p) }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { y(); atomic.StoreInt64(p, v) }

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 { y(); return atomic.AddInt64(p, d) }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 { y(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool { y(); return atomic.CompareAndSwapInt64(p, o, n) }

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, m int64) int64 { y(); return atomic.AndInt64(p, m) }

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, m int64) int64 { y(); return atomic.OrInt64(p, m) }

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

// Load loads.
func (x *Int64) Load() int64 { y(); return x.v.Load() }

// Store stores.
func (x *Int64) Store(v int64) { y(); x.v.Store(v) }

// Add adds.
func (x *Int64) Add(d int64) int64 { y(); return x.v.Add(d) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, n int64) bool { y(); return x.v.CompareAndSwap(o, n) }

// And ands.
func (x *Int64) And(m int64) int64 { y(); return x.v.And(m) }

// Or ors.
func (x *Int64) Or(m int64) int64 { y(); return x.v.Or(m) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { y(); return atomic.LoadUint32(p) }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { y(); atomic.StoreUint32(p, v) }

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 { y(); return atomic.AddUint32(p, d) }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 { y(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, m uint32) uint32 { y(); return atomic.AndUint32(p, m) }

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, m uint32) uint32 { y(); return atomic.OrUint32(p, m) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { y(); return x.v.Load() }

// Store stores.
func (x *Uint32) Store(v uint32) { y(); x.v.Store(v) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { y(); return x.v.Add(d) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, n uint32) bool { y(); return x.v.CompareAndSwap(o, n) }

// And ands.
func (x *Uint32) And(m uint32) uint32 { y(); return x.v.And(m) }

// Or ors.
func (x *Uint32) Or(m uint32) uint32 { y(); return x.v.Or(m) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { y(); return atomic.LoadUint64(p) }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { y(); atomic.StoreUint64(p, v) }

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 { y(); return atomic.AddUint64(p, d) }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 { y(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, m uint64) uint64 { y(); return atomic.AndUint64(p, m) }

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, m uint64) uint64 { y(); return atomic.OrUint64(p, m) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { y(); return x.v.Load() }

// Store stores.
func (x *Uint64) Store(v uint64) { y(); x.v.Store(v) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { y(); return x.v.Add(d) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, n uint64) bool { y(); return x.v.CompareAndSwap(o, n) }

// And ands.
func (x *Uint64) And(m uint64) uint64 { y(); return x.v.And(m) }

// Or ors.
func (x *Uint64) Or(m uint64) uint64 { y(); return x.v.Or(m) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { y(); return atomic.LoadUintptr(p) }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { y(); atomic.StoreUintptr(p, v) }

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr { y(); return atomic.AddUintptr(p, d) }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); return atomic.SwapUintptr(p, v) }

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, m uintptr) uintptr { y(); return atomic.AndUintptr(p, m) }

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, m uintptr) uintptr { y(); return atomic.OrUintptr(p, m) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { y(); return x.v.Load() }

// Store stores.
func (x *Uintptr) Store(v uintptr) { y(); x.v.Store(v) }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { y(); return x.v.Add(d) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { y(); return x.v.CompareAndSwap(o, n) }

// And ands.
func (x *Uintptr) And(m uintptr) uintptr { y(); return x.v.And(m) }

// Or ors.
func (x *Uintptr) Or(m uintptr) uintptr { y(); return x.v.Or(m) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { y(); return atomic.LoadPointer(p) }

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v) }

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { y(); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { y(); x.v.Store(v) }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load loads.
func (x *Pointer[T]) Load() *T { y(); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { y(); x.v.Store(v) }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); return x.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() any { y(); return x.v.Load() }

// Store stores.
func (x *Value) Store(v any) { y(); x.v.Store(v) }

// Swap swaps.
func (x *Value) Swap(v any) any { y(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(o, n any) bool { y(); return x.v.CompareAndSwap(o, n) }
