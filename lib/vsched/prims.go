package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Point is a visible operation on o that is always enabled.
func Point(name string, o *Obj, write bool, f func()) {
	if cur == nil {
		if f != nil {
			f()
		}
		return
	}
	x := cur
	if x.killing {
		runtime.Goexit()
	}
	post(&op{name: name, exec: func() {
		t := x.running
		t.touch(o, write, 50)
		t.acquire(o)
		if f != nil {
			f()
		}
		if write {
			t.release(o)
		}
	}})
}

// Block is a visible operation on o that waits for a condition.
func Block(name string, o *Obj, cond func() bool, f func()) {
	if cur == nil {
		if f != nil {
			f()
		}
		return
	}
	x := cur
	if x.killing {
		runtime.Goexit()
	}
	post(&op{name: name, enabled: cond, exec: func() {
		t := x.running
		t.touch(o, true, 51)
		t.acquire(o)
		if f != nil {
			f()
		}
		t.release(o)
	}})
}

// Note updates o without a scheduling point (e.g. an unlock).
func Note(o *Obj, tag uint64) {
	if cur == nil || cur.killing {
		return
	}
	t := cur.running
	t.touch(o, true, tag)
	t.acquire(o)
	t.release(o)
}

// Killing is true while the leftovers of an execution are removed.
func Killing() bool { return cur != nil && cur.killing }

// Label names an operation after the repository function that performs it.
func Label(kind string) string { return chanLabel(kind) }

// Choose lets the explorer pick one of n values, at no cost.
func Choose(n int, label string) int { return choose(n, label, 0) }

// Fault lets the explorer pick one of n values; every value but 0 counts as a deviation.
func Fault(n int, label string) int { return choose(n, label, 16) }

func choose(n int, label string, cost uint8) int {
	x := cur
	if x == nil || n < 2 {
		return 0
	}
	if x.killing {
		runtime.Goexit()
	}
	t := x.running
	costs := make([]uint8, n)
	for i := 1; i < n; i++ {
		costs[i] = cost
	}
	k := x.choose(costs, mix(t.key, hashString(label)))
	if k < 0 {
		x.end()
		<-t.wake
		runtime.Goexit()
	}
	t.h = mix(t.h, uint64(k)+100)
	if x.trace {
		x.traceLog = append(x.traceLog, fmt.Sprintf("%s: choose %s = %d of %d", t.name, label, k, n))
	}
	return k
}

// Observe makes the order of observable events part of the explored state.
func Observe(format string, args ...any) {
	x := cur
	if x == nil {
		return
	}
	s := fmt.Sprintf(format, args...)
	Point(s, &x.obs, true, func() { x.obsHash = mix(x.obsHash, hashString(s)) })
}

// Event is Observe without a scheduling point.
func Event(format string, args ...any) {
	x := cur
	if x == nil || x.killing {
		return
	}
	s := fmt.Sprintf(format, args...)
	x.obsHash = mix(x.obsHash, hashString(s))
	x.running.touch(&x.obs, true, hashString(s))
	if x.trace {
		x.traceLog = append(x.traceLog, fmt.Sprintf("%s: * %s", x.running.name, s))
	}
}

// Fail reports a violation of the property and ends the execution.
func Fail(format string, args ...any) {
	x := cur
	if x == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if x.killing {
		runtime.Goexit()
	}
	x.violate("property", fmt.Sprintf(format, args...))
	panic(failure{})
}

// Crash reports that the program would have been terminated.
func Crash(kind, format string, args ...any) {
	x := cur
	if x == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if x.killing {
		runtime.Goexit()
	}
	x.violate(kind, fmt.Sprintf(format, args...))
	panic(failure{})
}

// Outcome counts distinct results of executions, to show that the exploration is not vacuous.
func Outcome(format string, args ...any) {
	if cur == nil || cur.killing {
		return
	}
	if cur.stat.Outcomes == nil {
		cur.stat.Outcomes = map[string]int{}
	}
	cur.stat.Outcomes[fmt.Sprintf(format, args...)]++
}

// WaitQuiescent blocks the harness until no other thread can run.
func WaitQuiescent() {
	if cur == nil || cur.killing {
		return
	}
	x := cur
	post(&op{name: "wait until quiescent", low: true, exec: func() {
		// the harness inspects the program state: order it after everything
		t := x.running
		for _, u := range x.threads {
			t.vc = t.vc.join(u.vc)
			u.tick()
		}
		t.tick()
	}})
	// later operations of others are not ordered with the harness' inspection on purpose
}

// Quiet runs f with the default schedule only: for preparations that are not under test.
func Quiet(f func()) {
	x := cur
	if x == nil || x.killing {
		f()
		return
	}
	x.quiet++
	f()
	WaitQuiescent()
	x.quiet--
}

// QuietFair is Quiet with a schedule in which all threads make progress at the same pace.
func QuietFair(f func()) {
	x := cur
	if x == nil || x.killing {
		f()
		return
	}
	x.fair++
	Quiet(f)
	x.fair--
}

// WaitDone blocks the harness until thread t has ended.
func WaitDone(ts ...*Thread) {
	if cur == nil || cur.killing {
		return
	}
	x := cur
	post(&op{name: "join", enabled: func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	}, exec: func() {
		m := x.running
		for _, t := range ts {
			m.vc = m.vc.join(t.vc)
			m.h = mix(m.h, t.h)
		}
	}})
}

// Done tells whether the thread has ended.
func (t *Thread) Done() bool { return t.done }

// Daemon marks the current thread as one that may stay alive.
func Daemon() {
	if cur != nil {
		cur.running.daemon = true
	}
}

// Live lists the operations on which threads of the repository are blocked.
func Live() []string {
	var res []string
	if cur == nil {
		return nil
	}
	for _, t := range cur.threads {
		if t.done || t == cur.running || t.daemon {
			continue
		}
		n := "running"
		if t.op != nil {
			n = t.op.name
		}
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

// --- time ---

type timer struct {
	at     time.Time
	period time.Duration
	ch     *chanState
	f      func()
	active bool
	cond   bool // only a wake up time
	seq    int
}

// Now is the virtual time.
func Now() time.Time {
	x := cur
	if x == nil {
		return time.Now()
	}
	if x.killing {
		return x.now
	}
	t := x.running
	t.touch(&x.clock, false, 60)
	return x.now
}

type Timer struct{ t *timer }

// NewTimer creates a timer: it sends the time on ch or calls f in a new thread.
func NewTimer(d time.Duration, period time.Duration, ch chan time.Time, f func()) *Timer {
	x := cur
	tm := &timer{at: x.now.Add(d), period: period, f: f, active: true, seq: len(x.timers)}
	if ch != nil {
		tm.ch = x.chanOf(chanPtr(ch), cap(ch), ch)
	}
	x.running.touch(&x.clock, true, 61)
	x.timers = append(x.timers, tm)
	return &Timer{tm}
}

func (t *Timer) Stop() bool {
	if cur == nil || cur.killing {
		return false
	}
	cur.running.touch(&cur.clock, true, 62)
	was := t.t.active
	t.t.active = false
	return was
}

func (t *Timer) Reset(d time.Duration, period time.Duration) bool {
	if cur == nil || cur.killing {
		return false
	}
	cur.running.touch(&cur.clock, true, 63)
	was := t.t.active
	t.t.active = true
	t.t.at = cur.now.Add(d)
	t.t.period = period
	return was
}

func (x *exec) nextTimer() *timer {
	var best *timer
	for _, t := range x.timers {
		if t.active && (best == nil || t.at.Before(best.at)) {
			best = t
		}
	}
	return best
}

func (x *exec) fire(until time.Time) {
	for {
		t := x.nextTimer()
		if t == nil || t.at.After(until) {
			break
		}
		if t.at.After(x.now) {
			x.now = t.at
		}
		if t.period > 0 {
			t.at = t.at.Add(t.period)
		} else {
			t.active = false
		}
		if t.ch != nil && len(t.ch.buf) < t.ch.cap {
			x.running.touch(&t.ch.obj, true, 64)
			t.ch.buf = append(t.ch.buf, message{x.now, x.running.vc.clone()})
			x.running.tick()
		}
		if t.f != nil {
			f := t.f
			n := x.newThread(x.running, fmt.Sprintf("T%d(timer)", len(x.threads)))
			go x.body(n, func() {
				Point("timer", &x.clock, false, nil)
				f()
			})
			// runs up to its first operation when the scheduler gets there
			x.resumeQ = append(x.resumeQ, n)
		}
	}
	if until.After(x.now) {
		x.now = until
	}
}

// Advance moves the virtual clock.
func Advance(d time.Duration) {
	x := cur
	if x == nil || x.killing {
		return
	}
	Point("advance", &x.clock, true, func() { x.fire(x.now.Add(d)) })
}

// Deadline registers a wake up time, so that the automatic advance of the clock stops there.
func Deadline(at time.Time) func() {
	x := cur
	tm := &timer{at: at, active: true, cond: true}
	x.timers = append(x.timers, tm)
	return func() { tm.active = false }
}

const maxAutoAdvance = 40

func (x *exec) autoAdvance() bool {
	t := x.nextTimer()
	if t == nil {
		return false
	}
	x.autoTotal()
	if x.vals["autoadv"].(int) > maxAutoAdvance {
		return false
	}
	x.running.touch(&x.clock, true, 65)
	x.fire(t.at)
	if x.trace {
		x.traceLog = append(x.traceLog, "time: "+x.now.Format("15:04:05.000"))
	}
	return true
}

func (x *exec) autoTotal() {
	n, _ := x.vals["autoadv"].(int)
	x.vals["autoadv"] = n + 1
}

// Sleep blocks until the virtual time has passed.
func Sleep(d time.Duration) {
	x := cur
	if x == nil {
		time.Sleep(d)
		return
	}
	if x.killing {
		runtime.Goexit()
	}
	at := x.now.Add(d)
	stop := Deadline(at)
	Block(chanLabel("sleep"), &x.clock, func() bool { return !x.now.Before(at) }, nil)
	stop()
}

// PolledReady tells whether a channel that the thread polled in vain has become ready since.
func PolledReady() (ready bool, polled bool) {
	return polledReady(cur.running)
}

func polledReady(t *Thread) (bool, bool) {
	for _, c := range t.polled {
		if len(c.buf) > 0 || c.closed {
			return true, true
		}
		if c.cap == 0 {
			for _, u := range cur.threads {
				if u != t && !u.done && u.op != nil && !u.op.nonblk {
					for _, d := range u.op.cases {
						if d.ch == c && d.send {
							return true, true
						}
					}
				}
			}
		}
	}
	return false, len(t.polled) > 0
}

// Me returns the running thread.
func Me() *Thread { return me() }

// PolledBy is PolledReady for a given thread.
func PolledBy(t *Thread) (bool, bool) { return polledReady(t) }

// Steps is the number of visible operations so far.
func Steps() int { return cur.steps }

// Value stores per-execution data of shims.
func Value[T any](key string, mk func() T) T {
	if cur == nil {
		return mk()
	}
	if v, ok := cur.vals[key]; ok {
		return v.(T)
	}
	v := mk()
	cur.vals[key] = v
	return v
}

// --- shared variables ---

type shadow struct {
	obj   Obj
	keep  any
	wt    int
	wc    uint32
	wsite int
	reads map[int]uint32
	rsite int
	ptr   unsafe.Pointer
}

var promoted = map[int]bool{} // by site
var promotedKeys = map[string]bool{}

func siteKey(site int) string {
	s := Sites[site]
	if i := strings.IndexByte(s, '|'); i >= 0 {
		return s[:i]
	}
	return s
}

func sitePos(site int) string {
	s := Sites[site]
	if i := strings.IndexByte(s, '|'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func promote(key string) {
	promotedKeys[key] = true
	for i := range Sites {
		if siteKey(i) == key {
			promoted[i] = true
		}
	}
}

func access(p unsafe.Pointer, keep any, site int, write bool) {
	x := cur
	if x.killing {
		return
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{keep: keep, wt: -1, ptr: p}
		s.obj.init(x.running)
		x.shadow[p] = s
	}
	if promoted[site] {
		name := ""
		if x.trace {
			if write {
				name = "write " + Sites[site]
			} else {
				name = "read " + Sites[site]
			}
		}
		post(&op{name: name, exec: func() { x.running.touch(&s.obj, write, 70) }})
		return
	}
	t := x.running
	if s.wt >= 0 && s.wt != t.id && s.wc > t.vc.get(s.wt) {
		x.race(s, site, keep)
	}
	if write {
		for u, c := range s.reads {
			if u != t.id && c > t.vc.get(u) {
				x.race(s, site, keep)
				break
			}
		}
		clear(s.reads)
		s.wt, s.wc, s.wsite = t.id, t.vc[t.id], site
		return
	}
	if s.reads == nil {
		s.reads = map[int]uint32{}
	}
	s.reads[t.id] = t.vc[t.id]
	s.rsite = site
}

func (x *exec) race(s *shadow, site int, keep any) {
	key := siteKey(site)
	if _, ok := x.racy[key]; ok {
		return
	}
	other := s.rsite
	if s.wt >= 0 {
		other = s.wsite
	}
	x.racy[key] = sitePos(site) + " / " + sitePos(other)
	switch reflect.TypeOf(keep).Elem().Kind() {
	case reflect.Map:
		x.racy[key] = "concurrent map access: " + x.racy[key]
	case reflect.String, reflect.Slice, reflect.Interface:
		// these have more than one word, a reader may see half of the new value, like a nil pointer with a length
		x.racy[key] = "torn value: " + x.racy[key]
	}
}

// harmful tells if a race has consequences beyond the interleavings that are explored anyway.
func harmful(race string) (string, bool) {
	for _, k := range []string{"concurrent map access", "torn value"} {
		if strings.HasPrefix(race, k+": ") {
			return k, true
		}
	}
	return "", false
}

// Fill is called when somebody else than the program writes to the memory at p on behalf of the running thread, like a
// read from a connection. Two threads must not do this at the same time.
func Fill(p *byte) {
	x := cur
	if x == nil || x.killing {
		return
	}
	s := x.shadow[unsafe.Pointer(p)]
	if s == nil {
		s = &shadow{keep: p, wt: -1, ptr: unsafe.Pointer(p)}
		s.obj.init(x.running)
		x.shadow[unsafe.Pointer(p)] = s
	}
	t := x.running
	if s.wt >= 0 && s.wt != t.id && s.wc > t.vc.get(s.wt) {
		x.violate("data race", "two threads read from connections into the same buffer: "+t.name+", "+x.threads[s.wt].name)
	}
	s.wt, s.wc = t.id, t.vc[t.id]
}

// R is called before *p is read.
func R[T any](p *T, site int) *T {
	if cur != nil {
		access(unsafe.Pointer(p), p, site, false)
	}
	return p
}

// W is called before *p is written.
func W[T any](p *T, site int) *T {
	if cur != nil {
		access(unsafe.Pointer(p), p, site, true)
	}
	return p
}

type Ptr[T any] struct{ p *T }

// P(p).Set(v) writes after the value has been evaluated.
func P[T any](p *T) Ptr[T] { return Ptr[T]{p} }

func (p Ptr[T]) Set(v T, site int) {
	if cur != nil {
		access(unsafe.Pointer(p.p), p.p, site, true)
	}
	*p.p = v
}

// Tracing is true if the current execution is recorded.
func Tracing() bool { return cur != nil && cur.trace && !cur.killing }

// TraceNote adds a line to the record.
func TraceNote(s string) {
	if Tracing() {
		cur.traceLog = append(cur.traceLog, cur.running.name+": "+strings.TrimSpace(s))
	}
}

// PeekNow is Now without an effect on the explored state: for conditions.
func PeekNow() time.Time {
	if cur == nil {
		return time.Now()
	}
	return cur.now
}
