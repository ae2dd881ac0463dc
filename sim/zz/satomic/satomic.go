// Package satomic replaces sync/atomic: every operation is a scheduling point
// and synchronises.
package satomic

import (
	"unsafe"

	"zzsim.local/rt"
)

// one clock for the functions on plain variables
var global rt.VC

func point(vc *rt.VC) {
	if rt.Active() == nil || rt.Dead() {
		return
	}
	rt.Y(-1)
	vc.Acquire()
	vc.Release()
}

type Value struct {
	v  any
	vc rt.VC
}

func (x *Value) Load() any { point(&x.vc); return x.v }
func (x *Value) Store(v any) {
	point(&x.vc)
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v any) any { point(&x.vc); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	point(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v  *T
	vc rt.VC
}

func (x *Pointer[T]) Load() *T     { point(&x.vc); return x.v }
func (x *Pointer[T]) Store(v *T)   { point(&x.vc); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { point(&x.vc); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	point(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Bool struct {
	v  bool
	vc rt.VC
}

func (x *Bool) Load() bool       { point(&x.vc); return x.v }
func (x *Bool) Store(v bool)     { point(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) bool { point(&x.vc); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	point(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type number[T num] struct {
	v  T
	vc rt.VC
}

func (x *number[T]) Load() T   { point(&x.vc); return x.v }
func (x *number[T]) Store(v T) { point(&x.vc); x.v = v }
func (x *number[T]) Add(d T) T { point(&x.vc); x.v += d; return x.v }
func (x *number[T]) And(m T) T { point(&x.vc); o := x.v; x.v &= m; return o }
func (x *number[T]) Or(m T) T  { point(&x.vc); o := x.v; x.v |= m; return o }
func (x *number[T]) Swap(v T) T {
	point(&x.vc)
	o := x.v
	x.v = v
	return o
}
func (x *number[T]) CompareAndSwap(o, n T) bool {
	point(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Int32 struct{ number[int32] }
type Int64 struct{ number[int64] }
type Uint32 struct{ number[uint32] }
type Uint64 struct{ number[uint64] }
type Uintptr struct{ number[uintptr] }

func add[T num](p *T, d T) T  { point(&global); *p += d; return *p }
func load[T num](p *T) T      { point(&global); return *p }
func store[T num](p *T, v T)  { point(&global); *p = v }
func swap[T num](p *T, v T) T { point(&global); o := *p; *p = v; return o }
func cas[T num](p *T, o, n T) bool {
	point(&global)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { point(&global); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { point(&global); *p = v }
