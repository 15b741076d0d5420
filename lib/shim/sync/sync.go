// Package sync provides locks of the controlled scheduler.
package sync

import (
	"github.com/ftl/sdrainer/zzverif/vsched"
)

type Mutex struct {
	o      vsched.Obj
	locked bool
}

func (m *Mutex) Lock() {
	vsched.Block(vsched.Label("lock"), &m.o, func() bool { return !m.locked }, func() { m.locked = true })
}

func (m *Mutex) TryLock() bool {
	ok := false
	vsched.Point(vsched.Label("trylock"), &m.o, true, func() {
		if !m.locked {
			m.locked = true
			ok = true
		}
	})
	return ok
}

func (m *Mutex) Unlock() {
	if vsched.Killing() {
		return
	}
	if !m.locked {
		vsched.Crash("fatal", "sync: unlock of unlocked mutex")
	}
	vsched.Note(&m.o, 1)
	m.locked = false
}

type RWMutex struct {
	o       vsched.Obj
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	vsched.Block(vsched.Label("lock"), &m.o, func() bool { return !m.writer && m.readers == 0 }, func() { m.writer = true })
}

func (m *RWMutex) TryLock() bool {
	ok := false
	vsched.Point(vsched.Label("trylock"), &m.o, true, func() {
		if !m.writer && m.readers == 0 {
			m.writer = true
			ok = true
		}
	})
	return ok
}

func (m *RWMutex) Unlock() {
	if vsched.Killing() {
		return
	}
	if !m.writer {
		vsched.Crash("fatal", "sync: unlock of unlocked mutex")
	}
	vsched.Note(&m.o, 2)
	m.writer = false
}

func (m *RWMutex) RLock() {
	vsched.Block(vsched.Label("rlock"), &m.o, func() bool { return !m.writer }, func() { m.readers++ })
}

func (m *RWMutex) TryRLock() bool {
	ok := false
	vsched.Point(vsched.Label("tryrlock"), &m.o, true, func() {
		if !m.writer {
			m.readers++
			ok = true
		}
	})
	return ok
}

func (m *RWMutex) RUnlock() {
	if vsched.Killing() {
		return
	}
	if m.readers <= 0 {
		vsched.Crash("fatal", "sync: RUnlock of unlocked mutex")
	}
	vsched.Note(&m.o, 3)
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct {
	o vsched.Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	vsched.Note(&w.o, 4)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	vsched.Block(vsched.Label("wait"), &w.o, func() bool { return w.n == 0 }, nil)
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue and OnceValues call f once and keep what it returns.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L       Locker
	o       vsched.Obj
	tickets int
	woken   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	my := c.tickets
	c.tickets++
	vsched.Note(&c.o, 5)
	c.L.Unlock()
	vsched.Block(vsched.Label("cond wait"), &c.o, func() bool { return c.woken > my }, nil)
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Note(&c.o, 6)
	if c.woken < c.tickets {
		c.woken++
	}
}

func (c *Cond) Broadcast() {
	vsched.Note(&c.o, 7)
	c.woken = c.tickets
}

type Pool struct {
	New  func() any
	o    vsched.Obj
	free []any
}

func (p *Pool) Get() any {
	var res any
	vsched.Note(&p.o, 8)
	if n := len(p.free); n > 0 {
		res = p.free[n-1]
		p.free = p.free[:n-1]
		return res
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsched.Note(&p.o, 9)
	p.free = append(p.free, x)
}

type Map struct {
	o vsched.Obj
	m map[any]any
	k []any
}

func (m *Map) op(f func()) { vsched.Point(vsched.Label("sync.Map"), &m.o, true, f) }

func (m *Map) Load(key any) (value any, ok bool) {
	m.op(func() { value, ok = m.m[key] })
	return
}

func (m *Map) Store(key, value any) {
	m.op(func() { m.put(key, value) })
}

func (m *Map) put(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.k = append(m.k, key)
	}
	m.m[key] = value
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.op(func() {
		actual, loaded = m.m[key]
		if !loaded {
			m.put(key, value)
			actual = value
		}
	})
	return
}

func (m *Map) del(key any) {
	delete(m.m, key)
	for i, k := range m.k {
		if k == key {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			break
		}
	}
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.op(func() {
		value, loaded = m.m[key]
		m.del(key)
	})
	return
}

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.op(func() {
		previous, loaded = m.m[key]
		m.put(key, value)
	})
	return
}

func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	m.op(func() {
		if v, ok := m.m[key]; ok && v == old {
			m.put(key, new)
			swapped = true
		}
	})
	return
}

func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	m.op(func() {
		if v, ok := m.m[key]; ok && v == old {
			m.del(key)
			deleted = true
		}
	})
	return
}

func (m *Map) Clear() { m.op(func() { m.m, m.k = nil, nil }) }

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Range(f func(key, value any) bool) {
	var keys []any
	m.op(func() { keys = append(keys, m.k...) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			break
		}
	}
}
