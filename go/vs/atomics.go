package vs

import "unsafe"

func atom(p unsafe.Pointer) {
	if S == nil || S.killing {
		return
	}
	S.point("atomic", nil)
	v := S.atoms[uintptr(p)]
	if v == nil {
		v = &VC{}
		S.atoms[uintptr(p)] = v
	}
	acq(v)
	rel(v)
}

type intLike interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func aAdd[T intLike](p *T, d T) T { atom(unsafe.Pointer(p)); *p += d; return *p }
func aLoad[T any](p *T) T         { atom(unsafe.Pointer(p)); return *p }
func aStore[T any](p *T, v T)     { atom(unsafe.Pointer(p)); *p = v }
func aSwap[T any](p *T, v T) T    { atom(unsafe.Pointer(p)); o := *p; *p = v; return o }
func aCAS[T comparable](p *T, o, n T) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                 { return aAdd(p, d) }
func AddInt64(p *int64, d int64) int64                 { return aAdd(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return aAdd(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return aAdd(p, d) }
func LoadInt32(p *int32) int32                         { return aLoad(p) }
func LoadInt64(p *int64) int64                         { return aLoad(p) }
func LoadUint32(p *uint32) uint32                      { return aLoad(p) }
func LoadUint64(p *uint64) uint64                      { return aLoad(p) }
func StoreInt32(p *int32, v int32)                     { aStore(p, v) }
func StoreInt64(p *int64, v int64)                     { aStore(p, v) }
func StoreUint32(p *uint32, v uint32)                  { aStore(p, v) }
func StoreUint64(p *uint64, v uint64)                  { aStore(p, v) }
func SwapInt32(p *int32, v int32) int32                { return aSwap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return aSwap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return aSwap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return aSwap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return aCAS(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return aCAS(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return aCAS(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return aCAS(p, o, n) }

type num[T intLike] struct{ v T }

func (a *num[T]) Add(d T) T                  { return aAdd(&a.v, d) }
func (a *num[T]) Load() T                    { return aLoad(&a.v) }
func (a *num[T]) Store(v T)                  { aStore(&a.v, v) }
func (a *num[T]) Swap(v T) T                 { return aSwap(&a.v, v) }
func (a *num[T]) CompareAndSwap(o, n T) bool { return aCAS(&a.v, o, n) }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct{ v bool }

func (a *Bool) Load() bool                    { return aLoad(&a.v) }
func (a *Bool) Store(v bool)                  { aStore(&a.v, v) }
func (a *Bool) Swap(v bool) bool              { return aSwap(&a.v, v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { return aCAS(&a.v, o, n) }

type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() *T                    { return aLoad(&a.v) }
func (a *Pointer[T]) Store(v *T)                  { aStore(&a.v, v) }
func (a *Pointer[T]) Swap(v *T) *T                { return aSwap(&a.v, v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { return aCAS(&a.v, o, n) }

// Value mirrors atomic.Value.
type Value struct{ v any }

func (a *Value) Load() any { return aLoad(&a.v) }
func (a *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	aStore(&a.v, v)
}
func (a *Value) Swap(v any) any               { return aSwap(&a.v, v) }
func (a *Value) CompareAndSwap(o, n any) bool { return aCAS(&a.v, o, n) }
