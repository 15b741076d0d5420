// Package atomic provides atomics of the controlled scheduler.
package atomic

import (
	"github.com/ftl/sdrainer/zzverif/vsched"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func pt(o *vsched.Obj, write bool, f func()) { vsched.Point(vsched.Label("atomic"), o, write, f) }

type num[T integer] struct {
	o vsched.Obj
	v T
}

func (n *num[T]) Load() (r T) {
	pt(&n.o, false, func() { r = n.v })
	return
}
func (n *num[T]) Store(v T) { pt(&n.o, true, func() { n.v = v }) }
func (n *num[T]) Add(d T) (r T) {
	pt(&n.o, true, func() { n.v += d; r = n.v })
	return
}
func (n *num[T]) Swap(v T) (r T) {
	pt(&n.o, true, func() { r = n.v; n.v = v })
	return
}
func (n *num[T]) CompareAndSwap(a, b T) (r bool) {
	pt(&n.o, true, func() {
		if n.v == a {
			n.v = b
			r = true
		}
	})
	return
}

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct {
	o vsched.Obj
	v bool
}

func (b *Bool) Load() (r bool) {
	pt(&b.o, false, func() { r = b.v })
	return
}
func (b *Bool) Store(v bool) { pt(&b.o, true, func() { b.v = v }) }
func (b *Bool) Swap(v bool) (r bool) {
	pt(&b.o, true, func() { r = b.v; b.v = v })
	return
}
func (b *Bool) CompareAndSwap(x, y bool) (r bool) {
	pt(&b.o, true, func() {
		if b.v == x {
			b.v = y
			r = true
		}
	})
	return
}

type Pointer[T any] struct {
	o vsched.Obj
	v *T
}

func (p *Pointer[T]) Load() (r *T) {
	pt(&p.o, false, func() { r = p.v })
	return
}
func (p *Pointer[T]) Store(v *T) { pt(&p.o, true, func() { p.v = v }) }
func (p *Pointer[T]) Swap(v *T) (r *T) {
	pt(&p.o, true, func() { r = p.v; p.v = v })
	return
}
func (p *Pointer[T]) CompareAndSwap(a, b *T) (r bool) {
	pt(&p.o, true, func() {
		if p.v == a {
			p.v = b
			r = true
		}
	})
	return
}

type Value struct {
	o vsched.Obj
	v any
}

func (p *Value) Load() (r any) {
	pt(&p.o, false, func() { r = p.v })
	return
}
func (p *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	pt(&p.o, true, func() { p.v = v })
}
func (p *Value) Swap(v any) (r any) {
	pt(&p.o, true, func() { r = p.v; p.v = v })
	return
}
func (p *Value) CompareAndSwap(a, b any) (r bool) {
	pt(&p.o, true, func() {
		if p.v == a {
			p.v = b
			r = true
		}
	})
	return
}

// the function API works on plain variables: one object stands for all of them
func obj(p any) *vsched.Obj {
	m := vsched.Value("atomics", func() map[any]*vsched.Obj { return map[any]*vsched.Obj{} })
	o, ok := m[p]
	if !ok {
		o = &vsched.Obj{}
		m[p] = o
	}
	return o
}

func load[T any](p *T) (r T) { pt(obj(p), false, func() { r = *p }); return }
func store[T any](p *T, v T) { pt(obj(p), true, func() { *p = v }) }
func add[T integer](p *T, d T) (r T) {
	pt(obj(p), true, func() { *p += d; r = *p })
	return
}
func cas[T comparable](p *T, a, b T) (r bool) {
	pt(obj(p), true, func() {
		if *p == a {
			*p = b
			r = true
		}
	})
	return
}
func swap[T any](p *T, v T) (r T) {
	pt(obj(p), true, func() { r = *p; *p = v })
	return
}

func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool    { return cas(p, a, b) }
func CompareAndSwapInt64(p *int64, a, b int64) bool    { return cas(p, a, b) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool { return cas(p, a, b) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool { return cas(p, a, b) }
