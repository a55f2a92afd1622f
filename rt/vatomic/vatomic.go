// Package atomic replaces sync/atomic in the instrumented copy: a scheduling point, then the operation.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/rmera/boo/zzverif/vsched"
)

func r(p unsafe.Pointer) { vsched.Point(p, false) }
func w(p unsafe.Pointer) { vsched.Point(p, true) }

func LoadInt32(p *int32) int32          { r(unsafe.Pointer(p)); return ra.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { w(unsafe.Pointer(p)); ra.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { w(unsafe.Pointer(p)); return ra.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { w(unsafe.Pointer(p)); return ra.SwapInt32(p, v) }
func AndInt32(p *int32, v int32) int32  { w(unsafe.Pointer(p)); return ra.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32   { w(unsafe.Pointer(p)); return ra.OrInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(v int32) int32              { return AddInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32              { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32               { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64          { r(unsafe.Pointer(p)); return ra.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { w(unsafe.Pointer(p)); ra.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { w(unsafe.Pointer(p)); return ra.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { w(unsafe.Pointer(p)); return ra.SwapInt64(p, v) }
func AndInt64(p *int64, v int64) int64  { w(unsafe.Pointer(p)); return ra.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64   { w(unsafe.Pointer(p)); return ra.OrInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(v int64) int64              { return AddInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64              { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64               { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { r(unsafe.Pointer(p)); return ra.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { w(unsafe.Pointer(p)); ra.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { w(unsafe.Pointer(p)); return ra.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { w(unsafe.Pointer(p)); return ra.SwapUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { w(unsafe.Pointer(p)); return ra.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { w(unsafe.Pointer(p)); return ra.OrUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(v uint32) uint32             { return AddUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32             { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32              { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { r(unsafe.Pointer(p)); return ra.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { w(unsafe.Pointer(p)); ra.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { w(unsafe.Pointer(p)); return ra.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { w(unsafe.Pointer(p)); return ra.SwapUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64  { w(unsafe.Pointer(p)); return ra.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64   { w(unsafe.Pointer(p)); return ra.OrUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(v uint64) uint64             { return AddUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64             { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64              { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { r(unsafe.Pointer(p)); return ra.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { w(unsafe.Pointer(p)); ra.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { w(unsafe.Pointer(p)); return ra.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { w(unsafe.Pointer(p)); return ra.SwapUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr  { w(unsafe.Pointer(p)); return ra.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr   { w(unsafe.Pointer(p)); return ra.OrUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { return AddUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { r(unsafe.Pointer(p)); return ra.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { w(unsafe.Pointer(p)); ra.StorePointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	w(unsafe.Pointer(p))
	return ra.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)                  { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { w(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)                  { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any               { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { w(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T     { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
