// Package verifatomic is package sync/atomic with scheduling points.
package verifatomic

import (
	real "sync/atomic"
	"unsafe"

	vs "github.com/breml/logstash-config/internal/verifsync"
)

func pt() { vs.Point(vs.KindSync) }

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                        { pt(); return x.v.Load() }
func (x *Int32) Store(n int32)                      { pt(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32                 { pt(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool     { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32                  { pt(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32                  { pt(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32                   { pt(); return x.v.Or(m) }
func LoadInt32(a *int32) int32                      { pt(); return real.LoadInt32(a) }
func StoreInt32(a *int32, n int32)                  { pt(); real.StoreInt32(a, n) }
func SwapInt32(a *int32, n int32) int32             { pt(); return real.SwapInt32(a, n) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { pt(); return real.CompareAndSwapInt32(a, o, n) }
func AddInt32(a *int32, d int32) int32              { pt(); return real.AddInt32(a, d) }
func AndInt32(a *int32, m int32) int32              { pt(); return real.AndInt32(a, m) }
func OrInt32(a *int32, m int32) int32               { pt(); return real.OrInt32(a, m) }

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                        { pt(); return x.v.Load() }
func (x *Int64) Store(n int64)                      { pt(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64                 { pt(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool     { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64                  { pt(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64                  { pt(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64                   { pt(); return x.v.Or(m) }
func LoadInt64(a *int64) int64                      { pt(); return real.LoadInt64(a) }
func StoreInt64(a *int64, n int64)                  { pt(); real.StoreInt64(a, n) }
func SwapInt64(a *int64, n int64) int64             { pt(); return real.SwapInt64(a, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { pt(); return real.CompareAndSwapInt64(a, o, n) }
func AddInt64(a *int64, d int64) int64              { pt(); return real.AddInt64(a, d) }
func AndInt64(a *int64, m int64) int64              { pt(); return real.AndInt64(a, m) }
func OrInt64(a *int64, m int64) int64               { pt(); return real.OrInt64(a, m) }

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { pt(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { pt(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { pt(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { pt(); return x.v.Or(m) }
func LoadUint32(a *uint32) uint32                 { pt(); return real.LoadUint32(a) }
func StoreUint32(a *uint32, n uint32)             { pt(); real.StoreUint32(a, n) }
func SwapUint32(a *uint32, n uint32) uint32       { pt(); return real.SwapUint32(a, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	pt()
	return real.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32 { pt(); return real.AddUint32(a, d) }
func AndUint32(a *uint32, m uint32) uint32 { pt(); return real.AndUint32(a, m) }
func OrUint32(a *uint32, m uint32) uint32  { pt(); return real.OrUint32(a, m) }

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { pt(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { pt(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { pt(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { pt(); return x.v.Or(m) }
func LoadUint64(a *uint64) uint64                 { pt(); return real.LoadUint64(a) }
func StoreUint64(a *uint64, n uint64)             { pt(); real.StoreUint64(a, n) }
func SwapUint64(a *uint64, n uint64) uint64       { pt(); return real.SwapUint64(a, n) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	pt()
	return real.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64 { pt(); return real.AddUint64(a, d) }
func AndUint64(a *uint64, m uint64) uint64 { pt(); return real.AndUint64(a, m) }
func OrUint64(a *uint64, m uint64) uint64  { pt(); return real.OrUint64(a, m) }

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { pt(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { pt(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { pt(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { pt(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { pt(); return x.v.Or(m) }
func LoadUintptr(a *uintptr) uintptr                { pt(); return real.LoadUintptr(a) }
func StoreUintptr(a *uintptr, n uintptr)            { pt(); real.StoreUintptr(a, n) }
func SwapUintptr(a *uintptr, n uintptr) uintptr     { pt(); return real.SwapUintptr(a, n) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	pt()
	return real.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { pt(); return real.AddUintptr(a, d) }
func AndUintptr(a *uintptr, m uintptr) uintptr { pt(); return real.AndUintptr(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr  { pt(); return real.OrUintptr(a, m) }

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { pt(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { pt(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { pt(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { pt(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v real.Value }

func (x *Value) Load() any                    { pt(); return x.v.Load() }
func (x *Value) Store(n any)                  { pt(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { pt(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { pt(); return real.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, n unsafe.Pointer) { pt(); real.StorePointer(a, n) }
func SwapPointer(a *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	pt()
	return real.SwapPointer(a, n)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return real.CompareAndSwapPointer(a, o, n)
}
