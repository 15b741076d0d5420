package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

type message struct {
	v  any
	vc vclock
}

type chanState struct {
	obj     Obj
	cap     int
	buf     []message
	recvVC  []vclock
	closed  bool
	foreign func() (any, bool, bool)
	keep    any
}

func (c *chanState) pollForeign() {
	if c.foreign == nil || c.closed || len(c.buf) > 0 {
		return
	}
	v, ok, ready := c.foreign()
	if !ready {
		return
	}
	if ok {
		c.buf = append(c.buf, message{v, nil})
	} else {
		c.closed = true
	}
}

func chanPtr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (x *exec) chanOf(p unsafe.Pointer, capacity int, keep any) *chanState {
	if p == nil {
		return nil
	}
	c, ok := x.chans[p]
	if !ok {
		c = &chanState{cap: capacity, keep: keep}
		c.obj.init(x.running)
		x.chans[p] = c
	}
	return c
}

// Made registers a channel.
func Made[T any](ch chan T) chan T {
	if cur != nil && !cur.killing {
		cur.chanOf(chanPtr(ch), cap(ch), ch)
	}
	return ch
}

func sendState[T any](ch chan<- T) *chanState {
	return cur.chanOf(chanPtr(ch), cap(ch), ch)
}

func recvState[T any](ch <-chan T) *chanState {
	p := chanPtr(ch)
	if p == nil {
		return nil
	}
	if c, ok := cur.chans[p]; ok {
		return c
	}
	c := cur.chanOf(p, cap(ch), ch)
	c.foreign = func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
	return c
}

// chanLabel names an operation; the function is only looked up when a trace is recorded.
func chanLabel(kind string) string {
	if cur == nil || !cur.trace {
		return kind
	}
	return kind + " in " + repoCaller()
}

// repoCaller names the innermost function of the repository on the stack.
func repoCaller() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	key := pcs
	if s, ok := callerCache[key]; ok {
		return s
	}
	frames := runtime.CallersFrames(pcs[:n])
	res := "harness"
	const mod = "github.com/ftl/sdrainer/"
	for {
		f, more := frames.Next()
		if len(f.Function) > len(mod) && f.Function[:len(mod)] == mod {
			rest := f.Function[len(mod):]
			if len(rest) < 8 || rest[:8] != "zzverif/" {
				res = rest
				break
			}
		}
		if !more {
			break
		}
	}
	callerCache[key] = res
	return res
}

var callerCache = map[[16]uintptr]string{}

// SendTo returns a function that sends on ch: the channel is evaluated before the value.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if cur == nil {
			ch <- v
			return
		}
		if cur.killing {
			runtime.Goexit()
		}
		c := &scase{send: true, ch: sendState(ch), v: v}
		post(&op{name: chanLabel("send"), cases: []*scase{c}})
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	if cur.killing {
		runtime.Goexit()
	}
	var rv T
	var rok bool
	c := &scase{ch: recvState(ch), recv: func(v any, ok bool) {
		if v != nil {
			rv = v.(T)
		}
		rok = ok
	}}
	post(&op{name: chanLabel("receive"), cases: []*scase{c}})
	return rv, rok
}

func Close[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	x := cur
	if x.killing {
		return
	}
	if ch == nil {
		panic(runtimeError("close of nil channel"))
	}
	c := sendState(ch)
	post(&op{name: chanLabel("close"), exec: func() {
		t := x.running
		t.touch(&c.obj, true, 40)
		if c.closed {
			return
		}
		c.obj.vc = c.obj.vc.join(t.vc)
		t.tick()
	}})
	if c.closed {
		panic(runtimeError("close of closed channel"))
	}
	c.closed = true
}

func Len[T any](ch <-chan T) int {
	if cur == nil {
		return len(ch)
	}
	if cur.killing || ch == nil {
		return 0
	}
	x := cur
	c := recvState(ch)
	n := 0
	post(&op{name: chanLabel("len"), exec: func() {
		x.running.touch(&c.obj, true, 41)
		n = len(c.buf)
	}})
	return n
}

type selCase interface{ sc() *scase }

type RecvOp[T any] struct {
	V  T
	OK bool
	c  *scase
	ch <-chan T
}

func (r *RecvOp[T]) sc() *scase { return r.c }

func RecvCase[T any](ch <-chan T) *RecvOp[T] {
	r := &RecvOp[T]{ch: ch}
	if cur == nil || cur.killing {
		r.c = &scase{}
		return r
	}
	r.c = &scase{ch: recvState(ch), recv: func(v any, ok bool) {
		if v != nil {
			r.V = v.(T)
		}
		r.OK = ok
	}}
	return r
}

func (r *RecvOp[T]) native() (reflect.SelectCase, func(reflect.Value, bool)) {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}, func(v reflect.Value, ok bool) {
		r.OK = ok
		if ok {
			r.V = v.Interface().(T)
		}
	}
}

type SendOp[T any] struct {
	c  *scase
	ch chan<- T
	v  T
}

func (s *SendOp[T]) sc() *scase { return s.c }

func SendCase[T any](ch chan<- T) func(T) *SendOp[T] {
	return func(v T) *SendOp[T] {
		s := &SendOp[T]{ch: ch, v: v}
		if cur == nil || cur.killing {
			s.c = &scase{send: true}
			return s
		}
		s.c = &scase{send: true, ch: sendState(ch), v: v}
		return s
	}
}

// Select performs a select statement and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...selCase) int {
	if cur == nil {
		panic("vsched: select outside of an execution")
	}
	if cur.killing {
		runtime.Goexit()
	}
	o := &op{name: chanLabel("select"), nonblk: hasDefault, cases: make([]*scase, len(cases))}
	for i, c := range cases {
		o.cases[i] = c.sc()
	}
	post(o)
	return o.chosen
}

func BlockForever() {
	if cur == nil {
		select {}
	}
	post(&op{name: chanLabel("select{}"), enabled: func() bool { return false }})
}

type MapKey[K comparable, V any] struct {
	Map map[K]V
	Key K
}

// MapKeys lists the keys of m in an order the explorer chooses.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []MapKey[K, V] {
	keys := make([]MapKey[K, V], 0, len(m))
	for k := range m {
		keys = append(keys, MapKey[K, V]{m, k})
	}
	sort.Slice(keys, func(i, j int) bool { return lessKey(keys[i].Key, keys[j].Key) })
	if cur == nil || cur.killing || !cur.cfg.MapOrder || len(keys) < 2 {
		return keys
	}
	n := len(keys)
	perm := make([]MapKey[K, V], 0, n)
	for n > 1 && len(perm) < 3 {
		i := Choose(n, "map order")
		perm = append(perm, keys[i])
		keys = append(keys[:i:i], keys[i+1:]...)
		n--
	}
	return append(perm, keys...)
}

// KeyOf remembers the order in which keys without an order of their own were put into maps.
func KeyOf[K comparable](key K) K {
	if cur != nil && !cur.killing {
		id := identity(key)
		if _, ok := cur.mapKeys[id]; !ok {
			if cur.mapKeys == nil {
				cur.mapKeys = map[any]int{}
			}
			cur.mapKeys[id] = len(cur.mapKeys)
			cur.kept = append(cur.kept, key)
		}
	}
	return key
}

func identity(key any) any {
	switch v := reflect.ValueOf(key); v.Kind() {
	case reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return v.Pointer()
	}
	return key
}

func lessKey(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	if cur != nil && cur.mapKeys != nil {
		i, ok1 := cur.mapKeys[identity(a)]
		j, ok2 := cur.mapKeys[identity(b)]
		if ok1 && ok2 {
			return i < j
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
