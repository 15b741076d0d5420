// Package vsched is a controlled scheduler with an exhaustive explorer.  Instrumented code calls
// it for every channel operation, lock, spawn, clock access and shared variable.  Exactly one
// goroutine runs at a time; at every visible operation the explorer decides who continues.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Used keeps the import alive in files without hooks.
const Used = true

// Sites is filled by generated code: "pkg.Type.field|file:line".
var Sites []string

type vclock []uint32

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, c := range o {
		if v[i] < c {
			v[i] = c
		}
	}
	return v
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func mix(a, b uint64) uint64 {
	h := a*0x9E3779B97F4A7C15 ^ (b + 0x632BE59BD9B4E019 + (a << 7) + (a >> 3))
	h ^= h >> 32
	h *= 0xD6E8FEB86659FD93
	h ^= h >> 29
	return h
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Obj is the bookkeeping of a shared object: its identity, its version hash and its clock.
type Obj struct {
	epoch uint64
	id    uint64
	wh    uint64 // hash of the last write
	racc  uint64 // accumulated reads since then
	vc    vclock
}

func (o *Obj) init(t *Thread) {
	if o.epoch != cur.epoch {
		t.nobj++
		*o = Obj{epoch: cur.epoch, id: mix(t.h, t.nobj)}
		o.wh = o.id
	}
}

// Thread is a controlled goroutine.
type Thread struct {
	id     int
	name   string
	key    uint64
	h      uint64
	nspawn uint64
	nobj   uint64
	vc     vclock
	wake   chan struct{}
	op     *op
	done   bool
	daemon bool
	ran    uint64 // the last turn
	polled []*chanState
	dead   bool
}

type scase struct {
	send bool
	ch   *chanState
	v    any
	recv func(v any, ok bool)
}

type op struct {
	name    string
	cases   []*scase // channel operations
	nonblk  bool     // select with default
	chosen  int      // result of a channel operation (-1 default)
	panics  string
	enabled func() bool
	exec    func()
	low     bool // only when nothing else can run
	local   bool // harness-only: no preemption cost
}

type alt struct {
	t *Thread
	c int     // case index, -1 default, -2 plain op
	p *Thread // partner of a rendezvous
	q int     // partner's case
}

// Config of an exploration.
type Config struct {
	Preemptions int // bound on preemptions; -1: unbounded
	Faults      int // bound on injected faults / deviations
	MaxSteps    int // horizon of one execution
	MapOrder    bool
	NoPromote   bool
	Deadline    time.Time
	MaxExec     int
	NoCache     bool
	// Known returns true if the violation is a listed known finding: exploration goes on.
	Known func(v *Violation) bool
	// AllowRace lists racy map variables (by site key) that are not reported.
	RaceViolation func(key string) bool
}

type Violation struct {
	Kind        string   `json:"kind"`
	Message     string   `json:"message"`
	Choices     []int    `json:"choices"`
	Trace       []string `json:"trace,omitempty"`
	Promoted    []string `json:"promoted,omitempty"`
	Preemptions int      `json:"preemptions"`
}

func (v *Violation) Signature() string { return v.Kind + ": " + v.Message }

type point struct {
	n      int
	costs  []uint8 // 1 preemption, 16 fault
	cost   [2]int  // before
	chosen int
	fp     uint64
}

type exec struct {
	epoch    uint64
	cfg      *Config
	ex       *Explorer
	threads  []*Thread
	running  *Thread
	lastRun  *Thread
	free     map[*Thread]bool
	quiet    int
	fair     int
	turn     uint64
	resumeQ  []*Thread
	chans    map[unsafe.Pointer]*chanState
	shadow   map[unsafe.Pointer]*shadow
	now      time.Time
	clock    Obj
	timers   []*timer
	obs      Obj
	obsHash  uint64
	steps    int
	prefix   []int
	points   []point
	cost     [2]int
	pruned   bool
	killing  bool
	finished chan struct{}
	ended    bool
	viol     *Violation
	trace    bool
	traceLog []string
	racy     map[string]string
	stat     Stats
	main     *Thread
	cleanups []func()
	diverged string
	vals     map[any]any
	mapKeys  map[any]int // see KeyOf
	kept     []any
}

// Stats of an exploration.
type Stats struct {
	Executions      int            `json:"executions"`
	Complete        int            `json:"complete"`
	Steps           int            `json:"steps"`
	States          int            `json:"states"`
	MaxPoints       int            `json:"max_points"`
	MaxThreads      int            `json:"max_threads"`
	Outcomes        map[string]int `json:"outcomes"`
	Exhaustive      bool           `json:"exhaustive"`
	BoundHit        bool           `json:"bound_hit"`
	PreemptionBound int            `json:"preemption_bound"`
	Promoted        []string       `json:"promoted"`
	Validated       int            `json:"validated"`
	Samples         []string       `json:"samples,omitempty"`
	Horizon         int            `json:"horizon_hits"`
	KnownHits       map[string]int `json:"known_hits,omitempty"`
	Unconfirmed     int            `json:"unconfirmed,omitempty"`
	LastUnconfirmed string         `json:"last_unconfirmed,omitempty"`
}

var cur *exec

// localZone is far from UTC, so that a time in the wrong zone is noticed.
var localZone = time.FixedZone("local", 5*3600+1800)

func init() { time.Local = localZone }

var epochs uint64
var progress atomic.Int64

// Active tells whether an execution is under control.
func Active() bool { return cur != nil }

func me() *Thread { return cur.running }

func (x *exec) step(t *Thread, name string) {
	x.steps++
	progress.Add(1)
	if x.trace {
		x.traceLog = append(x.traceLog, fmt.Sprintf("%s: %s", t.name, name))
	}
	if x.steps > x.cfg.MaxSteps && x.viol == nil {
		x.stat.Horizon++
		x.violate("livelock", fmt.Sprintf("no end after %d steps", x.cfg.MaxSteps))
	}
}

func (x *exec) violate(kind, msg string) {
	if x.viol == nil && !x.pruned {
		x.viol = &Violation{Kind: kind, Message: msg}
	}
}

// touch records that t accessed o.
func (t *Thread) touch(o *Obj, write bool, tag uint64) {
	o.init(t)
	if write {
		t.h = mix(mix(t.h, tag), mix(o.wh, o.racc))
		o.wh = mix(t.h, o.id)
		o.racc = 0
	} else {
		t.h = mix(mix(t.h, tag), o.wh)
		o.racc += mix(t.h, 77)
	}
}

func (t *Thread) tick() { t.vc[t.id]++ }

// acquire and release order t with o.
func (t *Thread) acquire(o *Obj) { t.vc = t.vc.join(o.vc) }
func (t *Thread) release(o *Obj) {
	o.vc = o.vc.join(t.vc)
	t.tick()
}

func (x *exec) newThread(parent *Thread, name string) *Thread {
	t := &Thread{id: len(x.threads), name: name, wake: make(chan struct{}, 1)}
	if parent == nil {
		t.key = 1
	} else {
		parent.nspawn++
		t.key = mix(parent.h, parent.nspawn+1000)
		t.vc = parent.vc.clone()
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	t.h = t.key
	if parent != nil {
		parent.tick()
		parent.h = mix(parent.h, 31)
	}
	x.threads = append(x.threads, t)
	if len(x.threads) > x.stat.MaxThreads {
		x.stat.MaxThreads = len(x.threads)
	}
	return t
}

// body runs f as thread t in its own goroutine.
func (x *exec) body(t *Thread, f func()) {
	<-t.wake
	normal := false
	defer func() {
		if x.killing {
			recover()
			t.dead = true
			x.finished <- struct{}{}
			return
		}
		if !normal {
			if r := recover(); r != nil {
				if _, ok := r.(failure); !ok {
					msg := fmt.Sprint(r)
					x.violate("panic", msg+" @ "+panicSite(string(debug.Stack())))
				}
			}
			// runtime.Goexit called by the product is a normal end
		}
		t.done = true
		t.dead = true
		t.op = nil
		if x.viol != nil || x.pruned {
			x.end()
			return
		}
		if t == x.main {
			x.end()
			return
		}
		nxt := x.dispatch(t)
		if nxt != nil {
			x.running = nxt
			nxt.wake <- struct{}{}
		}
	}()
	if x.killing {
		return
	}
	f()
	normal = true
}

// panicSite extracts the first frames that belong to the repository.
func panicSite(stack string) string {
	var frames []string
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "github.com/ftl/sdrainer/") && !strings.Contains(l, "/zzverif/") {
			name := l[strings.Index(l, "github.com/ftl/sdrainer/")+len("github.com/ftl/sdrainer/"):]
			if p := strings.LastIndex(name, "("); p > 0 {
				name = name[:p]
			}
			frames = append(frames, name)
			if len(frames) == 2 {
				break
			}
		}
	}
	return strings.Join(frames, " < ")
}

type failure struct{}

// end hands control to the explorer; only the running thread calls it.
func (x *exec) end() {
	if !x.ended {
		x.ended = true
		x.finished <- struct{}{}
	}
}

// post publishes the operation of the running thread, and returns after it was executed.
func post(o *op) {
	x := cur
	if x.killing {
		runtime.Goexit()
	}
	t := x.running
	t.op = o
	x.wait(t, x.dispatch(t))
	if o.panics != "" {
		panic(runtimeError(o.panics))
	}
}

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

// wait gives control to next and returns when t is to continue.
func (x *exec) wait(t *Thread, next *Thread) {
	if next == t {
		x.running = t
		return
	}
	if next != nil {
		x.running = next
		next.wake <- struct{}{}
	}
	<-t.wake
	if x.killing {
		runtime.Goexit()
	}
}

// Go starts f as a new thread; it runs up to its first visible operation.
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	GoNamed("", f)
}

// GoNamed is Go with a name for the trace.
func GoNamed(name string, f func()) *Thread {
	x := cur
	if x.killing {
		runtime.Goexit()
	}
	t := x.running
	if name == "" {
		name = callerName(3)
	}
	n := x.newThread(t, fmt.Sprintf("T%d(%s)", len(x.threads), name))
	x.step(t, "go "+n.name)
	go x.body(n, f)
	x.resumeQ = append(x.resumeQ, t)
	x.wait(t, n)
	return n
}

func callerName(skip int) string {
	if cur != nil && !cur.trace {
		return ""
	}
	pc, _, line, ok := runtime.Caller(skip)
	if !ok {
		return ""
	}
	n := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, line)
}

func (x *exec) alts(t *Thread, buf []alt) []alt {
	o := t.op
	if o == nil || t.done || o.low {
		return buf
	}
	if o.cases == nil && !o.nonblk {
		if o.enabled == nil || o.enabled() {
			buf = append(buf, alt{t, -2, nil, 0})
		}
		return buf
	}
	definite := false
	for i, c := range o.cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || len(c.ch.buf) < c.ch.cap {
				buf = append(buf, alt{t, i, nil, 0})
				definite = true
				continue
			}
			if c.ch.cap == 0 && o.nonblk {
				buf = x.partners(t, i, c, buf, false)
			}
			continue
		}
		c.ch.pollForeign()
		if len(c.ch.buf) > 0 || c.ch.closed {
			buf = append(buf, alt{t, i, nil, 0})
			definite = true
			continue
		}
		if c.ch.cap == 0 {
			buf = x.partners(t, i, c, buf, true)
		}
	}
	if o.nonblk && !definite {
		buf = append(buf, alt{t, -1, nil, 0})
	}
	return buf
}

// partners lists the threads parked with the opposite operation on the channel of c.
func (x *exec) partners(t *Thread, i int, c *scase, buf []alt, wantSend bool) []alt {
	for _, u := range x.threads {
		if u == t || u.done || u.op == nil || u.op.nonblk {
			continue
		}
		for j, d := range u.op.cases {
			if d.ch == c.ch && d.send == wantSend {
				buf = append(buf, alt{t, i, u, j})
			}
		}
	}
	return buf
}

// dispatch decides who runs next and executes its operation.  It returns nil if the execution
// has ended.
func (x *exec) dispatch(t *Thread) *Thread {
	for {
		if x.viol != nil {
			x.end()
			return nil
		}
		if n := len(x.resumeQ); n > 0 {
			r := x.resumeQ[n-1]
			x.resumeQ = x.resumeQ[:n-1]
			return r
		}
		var buf [16]alt
		alts := buf[:0]
		last := x.lastRun
		if last != nil {
			alts = x.alts(last, alts)
		}
		nLast := len(alts)
		for _, u := range x.threads {
			if u != last {
				alts = x.alts(u, alts)
			}
		}
		low := false
		if len(alts) == 0 {
			for _, u := range x.threads {
				if u.op != nil && u.op.low && !u.done && (u.op.enabled == nil || u.op.enabled()) {
					alts = append(alts, alt{u, -2, nil, 0})
					low = true
				}
			}
		}
		if len(alts) == 0 {
			if x.autoAdvance() {
				continue
			}
			x.violate("deadlock", x.blocked())
			x.end()
			return nil
		}
		k := 0
		if len(alts) > 1 && x.quiet == 0 {
			costs := make([]uint8, len(alts))
			if !low && nLast > 0 {
				for i := nLast; i < len(alts); i++ {
					if !x.free[alts[i].t] {
						costs[i] = 1
					}
				}
			}
			var lk uint64
			if last != nil {
				lk = last.key
				if nLast == 0 {
					lk = 0
				}
			}
			k = x.choose(costs, lk)
			if k < 0 {
				x.end()
				return nil
			}
		}
		if x.quiet > 0 && x.fair > 0 {
			for i := range alts {
				if alts[i].t.ran < alts[k].t.ran {
					k = i
				}
			}
		}
		a := alts[k]
		x.turn++
		a.t.ran = x.turn
		clear(x.free)
		x.lastRun = a.t
		x.execute(a)
		return a.t
	}
}

func (x *exec) blocked() string {
	var parts []string
	for _, u := range x.threads {
		if !u.done && u.op != nil {
			parts = append(parts, u.op.name)
		}
	}
	sort.Strings(parts)
	return "blocked forever: " + strings.Join(parts, ", ")
}

func (x *exec) fingerprint(extra uint64) uint64 {
	var f uint64
	for _, u := range x.threads {
		g := u.h
		if u.done {
			g = mix(g, 5)
		}
		f += mix(g, u.key)
	}
	return mix(f, mix(extra, x.obsHash))
}

// choose is a choice point with len(costs) options; it returns -1 if the execution is to be pruned.
func (x *exec) choose(costs []uint8, extra uint64) int {
	n := len(costs)
	i := len(x.points)
	fp := x.fingerprint(extra)
	p := point{n: n, costs: costs, cost: x.cost, fp: fp}
	if i < len(x.prefix) {
		p.chosen = x.prefix[i]
		if p.chosen >= n {
			x.diverged = fmt.Sprintf("replay diverged at point %d: choice %d of %d", i, p.chosen, n)
			x.pruned = true
			return -1
		}
		if x.ex != nil && i < len(x.ex.stack) && x.ex.stack[i].fp != 0 && (x.ex.stack[i].fp != fp || x.ex.stack[i].n != n) {
			x.diverged = fmt.Sprintf("replay diverged at point %d: fingerprint %x/%d instead of %x/%d", i, fp, n, x.ex.stack[i].fp, x.ex.stack[i].n)
			x.pruned = true
			return -1
		}
	} else if x.ex != nil && !x.ex.visit(x, fp) {
		x.pruned = true
		return -1
	}
	x.points = append(x.points, p)
	if len(x.points) > x.stat.MaxPoints {
		x.stat.MaxPoints = len(x.points)
	}
	c := costs[p.chosen]
	x.cost[0] += int(c & 15)
	x.cost[1] += int(c >> 4)
	return p.chosen
}

func (x *exec) execute(a alt) {
	t, o := a.t, a.t.op
	t.op = nil
	if a.c == -2 {
		x.step(t, o.name)
		if o.low {
			t.h = mix(t.h, x.fingerprint(9))
		}
		if o.exec != nil {
			prev := x.running
			x.running = t
			o.exec()
			x.running = prev
		}
		return
	}
	if a.c == -1 {
		x.step(t, o.name+" default")
		t.polled = t.polled[:0]
		for _, c := range o.cases {
			if c.ch != nil {
				t.touch(&c.ch.obj, true, 11)
				t.polled = append(t.polled, c.ch)
			}
		}
		t.h = mix(t.h, 13)
		o.chosen = -1
		return
	}
	c := o.cases[a.c]
	o.chosen = a.c
	if x.trace {
		x.step(t, fmt.Sprintf("%s #%d", o.name, a.c))
	} else {
		x.step(t, "")
	}
	if a.p != nil {
		// rendezvous
		s, r, sc, rc := t, a.p, c, a.p.op.cases[a.q]
		if !c.send {
			s, r, sc, rc = a.p, t, a.p.op.cases[a.q], c
		}
		a.p.op.chosen = a.q
		a.p.op = nil
		s.touch(&c.ch.obj, true, 20)
		r.touch(&c.ch.obj, true, 21)
		s.h = mix(s.h, r.h)
		svc := s.vc.clone()
		s.vc = s.vc.join(r.vc)
		r.vc = r.vc.join(svc)
		s.tick()
		r.tick()
		if a.q != 0 || a.c != 0 {
			s.h = mix(s.h, uint64(a.c))
			r.h = mix(r.h, uint64(a.c))
			a.p.h = mix(a.p.h, uint64(a.q))
		}
		rc.recv(sc.v, true)
		x.resumeQ = append(x.resumeQ, a.p)
		x.free[a.p] = true
		if x.trace {
			x.traceLog = append(x.traceLog, "   with "+a.p.name)
		}
		return
	}
	ch := c.ch
	t.touch(&ch.obj, true, 22+uint64(a.c))
	if c.send {
		if ch.closed {
			o.panics = "send on closed channel"
			return
		}
		if ch.cap > 0 && len(ch.recvVC) >= ch.cap {
			t.vc = t.vc.join(ch.recvVC[0])
			ch.recvVC = ch.recvVC[1:]
		}
		ch.buf = append(ch.buf, message{c.v, t.vc.clone()})
		t.tick()
		return
	}
	if len(ch.buf) > 0 {
		m := ch.buf[0]
		ch.buf = ch.buf[1:]
		if len(ch.buf) == 0 {
			ch.buf = nil
		}
		t.vc = t.vc.join(m.vc)
		ch.recvVC = append(ch.recvVC, t.vc.clone())
		t.tick()
		c.recv(m.v, true)
		return
	}
	t.vc = t.vc.join(ch.obj.vc)
	c.recv(nil, false)
}

// Watchdog ends the process if the scheduler makes no progress: an endless local loop.
func (x *exec) await() {
	last := int64(-1)
	idle := 0
	for {
		select {
		case <-x.finished:
			return
		case <-time.After(5 * time.Second):
			p := progress.Load()
			if p == last {
				idle++
			} else {
				idle = 0
			}
			last = p
			if idle >= 6 {
				if OnStuck != nil {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					OnStuck(x.choices(), string(buf[:n]))
				}
				os.Exit(2)
			}
		}
	}
}

// OnStuck is called if an execution neither ends nor reaches another visible operation.
var OnStuck func(choices []int, stack string)

func (x *exec) choices() []int {
	r := make([]int, len(x.points))
	for i, p := range x.points {
		r[i] = p.chosen
	}
	return r
}

// runExec runs one execution of body.
func runExec(cfg *Config, ex *Explorer, prefix []int, body func(), trace bool) *exec {
	epochs++
	x := &exec{
		epoch: epochs, cfg: cfg, ex: ex, prefix: prefix,
		chans: map[unsafe.Pointer]*chanState{}, shadow: map[unsafe.Pointer]*shadow{},
		free: map[*Thread]bool{}, finished: make(chan struct{}),
		now:   time.Date(2024, 1, 1, 12, 7, 38, 456789012, localZone),
		trace: trace, racy: map[string]string{}, vals: map[any]any{},
	}
	cur = x
	x.main = x.newThread(nil, "main")
	x.running = x.main
	x.lastRun = x.main
	for _, f := range resets {
		f()
	}
	for _, f := range inits {
		f()
	}
	go x.body(x.main, body)
	x.main.wake <- struct{}{}
	x.await()
	x.killing = true
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		if t.dead {
			continue
		}
		x.running = t
		t.wake <- struct{}{}
		x.await()
	}
	cur = nil
	return x
}

var resets []func()

// OnReset registers a function that is called at the start of every execution.
func OnReset(f func()) { resets = append(resets, f) }

var inits []func()

// OnInit registers an init function that is called at the start of every execution, after all
// resets.
func OnInit(f func()) { inits = append(inits, f) }
