// Harness for the bookkeeping of the receiver: the peak table and the listener pool.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/rand"
)

var t0 = time.Date(2024, 1, 1, 12, 34, 56, 789012345, time.UTC)

type (
	peak  = dsp.Peak[float32, int]
	table = rx.PeaksTable[float32, int]
)

func main() {
	peakJobs()
	poolJobs()
	mcrun.Main()
}

// sequences calls f for every sequence of n numbers in [0,k); the first one is in the given part.
func sequences(c *mcrun.Ctx, k, n, part, parts int, f func(seq []int)) {
	seq := make([]int, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			f(seq)
			c.Trace()
			return c.Result.Traces%4096 != 0 || !c.Expired()
		}
		for v := 0; v < k; v++ {
			if i == 0 && v%parts != part {
				continue
			}
			seq[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// --- C01 ---

const bins = 6

// inside of the table, and reaching beyond its end
var inside = [][2]int{{0, 0}, {0, 2}, {1, 1}, {2, 3}, {3, 5}, {5, 5}}
var beyond = [][2]int{{0, 9}, {2, 3}, {3, 6}, {4, 7}, {5, 5}, {6, 8}}

type mpeak struct {
	p     *peak
	state string
	since time.Time
}

// mtable is the reference: a set of disjoint peaks.
type mtable struct{ peaks []*mpeak }

func overlap(a, b *peak) bool { return a.From <= b.To && b.From <= a.To }

func (m *mtable) put(p *peak, force bool, now time.Time) {
	if p.From >= bins {
		return
	}
	var keep []*mpeak
	for _, q := range m.peaks {
		if !overlap(p, q.p) {
			keep = append(keep, q)
		} else if q.state != "new" && !force {
			return
		}
	}
	m.peaks = append(keep, &mpeak{p, "new", now})
}

func (m *mtable) at(bin int) *mpeak {
	for _, q := range m.peaks {
		if q.p.From <= bin && bin <= q.p.To {
			return q
		}
	}
	return nil
}

func (m *mtable) find(p *peak) *mpeak {
	for _, q := range m.peaks {
		if q.p == p {
			return q
		}
	}
	return nil
}

func (m *mtable) cleanup(now time.Time) {
	var keep []*mpeak
	for _, q := range m.peaks {
		if q.state == "active" || now.Sub(q.since) < 2*time.Minute {
			keep = append(keep, q)
		}
	}
	m.peaks = keep
}

func (m *mtable) String() string {
	var parts []string
	for _, q := range m.peaks {
		parts = append(parts, fmt.Sprintf("%d-%d:%s", q.p.From, q.p.To, q.state))
	}
	sort.Strings(parts)
	return strings.Join(parts, " ")
}

type op struct {
	name string
	// do acts on both sides and returns a complaint
	do func(s *peakSystem) string
}

type peakSystem struct {
	t    *table
	m    *mtable
	now  time.Time
	last *peak // of the last put
	next *peak // found by the last FindNext
	n    int
}

func (s *peakSystem) check() string {
	for b := -1; b <= bins; b++ {
		var want *peak
		if q := s.m.at(b); q != nil && b < bins {
			want = q.p
		}
		if got := s.t.Get(b); got != want {
			return fmt.Sprintf("bin %d contains %s, expected %s", b, show(got), show(want))
		}
	}
	return ""
}

func show(p *peak) string {
	if p == nil {
		return "nothing"
	}
	return fmt.Sprintf("peak %d-%d #%d", p.From, p.To, p.SignalFrequency)
}

func peakOps(intervals [][2]int) []op {
	var ops []op
	for _, iv := range intervals {
		iv := iv
		mk := func(s *peakSystem) *peak {
			s.n++
			s.last = &peak{From: iv[0], To: iv[1], SignalFrequency: s.n}
			return s.last
		}
		ops = append(ops, op{fmt.Sprintf("put %d-%d", iv[0], iv[1]), func(s *peakSystem) string {
			p := mk(s)
			s.t.Put(p)
			s.m.put(p, false, s.now)
			return ""
		}})
		if iv[0] == iv[1] || iv[1] == 3 || iv[1] > 5 {
			ops = append(ops, op{fmt.Sprintf("force %d-%d", iv[0], iv[1]), func(s *peakSystem) string {
				p := mk(s)
				s.t.ForcePut(p)
				s.m.put(p, true, s.now)
				return ""
			}})
		}
	}
	for _, bin := range []int{0, 3} {
		bin := bin
		ops = append(ops, op{fmt.Sprintf("activate bin %d", bin), func(s *peakSystem) string {
			if q := s.m.at(bin); q != nil {
				s.t.Activate(q.p)
				q.state = "active"
			}
			return ""
		}}, op{fmt.Sprintf("deactivate bin %d", bin), func(s *peakSystem) string {
			if q := s.m.at(bin); q != nil {
				s.t.Deactivate(q.p)
				if q.state == "active" {
					q.state = "inactive"
				}
			}
			return ""
		}})
	}
	for _, r := range []int{0, 1, 4} {
		r := r
		ops = append(ops, op{fmt.Sprintf("find next, random %d", r), func(s *peakSystem) string {
			k := r
			rand.Next = func(n int) int { k = (k*5 + r + 1) % n; return k }
			p := s.t.FindNext()
			var fresh int
			for _, q := range s.m.peaks {
				if q.state == "new" {
					fresh++
				}
			}
			if p == nil {
				if fresh > 0 {
					return fmt.Sprintf("no next peak, but there are %d new ones", fresh)
				}
				return ""
			}
			q := s.m.find(p)
			if q == nil {
				return fmt.Sprintf("the next peak %s is not in the table", show(p))
			}
			if q.state != "new" {
				return fmt.Sprintf("the next peak %s is %s", show(p), q.state)
			}
			// this is what the receiver does with it
			s.t.Activate(p)
			q.state = "active"
			return ""
		}})
	}
	ops = append(ops, op{"61 seconds pass", func(s *peakSystem) string {
		s.now = s.now.Add(61 * time.Second)
		return ""
	}}, op{"cleanup", func(s *peakSystem) string {
		s.t.Cleanup()
		s.m.cleanup(s.now)
		return ""
	}}, op{"two minutes later, cleanup", func(s *peakSystem) string {
		s.now = s.now.Add(121 * time.Second)
		s.t.Cleanup()
		s.m.cleanup(s.now)
		return ""
	}}, op{"reset", func(s *peakSystem) string {
		s.t.Reset()
		s.m.peaks = nil
		return ""
	}})
	return ops
}

func peakJobs() {
	for name, intervals := range map[string][][2]int{"operation sequences": inside, "peaks beyond the end": beyond} {
		name := name
		ops := peakOps(intervals)
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			mcrun.Job("C01", fmt.Sprintf("%s, part %d", name, part), func(c *mcrun.Ctx) {
				c.Watch()
				depth := mcrun.Tier(c, 5, 6)
				c.Result.Bound = fmt.Sprintf("all sequences of %d of %d operations on %d bins", depth, len(ops), bins)
				seen := map[string]bool{}
				sequences(c, len(ops), depth, part, parts, func(seq []int) {
					s := &peakSystem{m: &mtable{}, now: t0}
					s.t = rx.NewPeaksTable[float32, int](bins, rx.ClockFunc(func() time.Time { return s.now }))
					names := func() string {
						var n []string
						for _, i := range seq {
							n = append(n, ops[i].name)
						}
						return strings.Join(n, "; ")
					}
					c.Guard(names, func() {
						for i, k := range seq {
							bad := ops[k].do(s)
							c.Step()
							if bad == "" && (i == len(seq)-1 || ops[k].name == "cleanup") {
								bad = s.check()
							}
							if bad != "" {
								c.Fail("the peak table differs from the reference", "after %s: %s", names(), bad)
							}
						}
					})
					st := s.m.String()
					if !seen[st] {
						seen[st] = true
						c.State()
						c.Sample("%s => {%s}", names(), st)
					}
				})
				c.Outcome(fmt.Sprintf("%d different tables", len(seen)))
			})
		}
	}
	// few operations, but long sequences: one peak is handled several times while time passes
	var long []op
	for _, o := range peakOps([][2]int{{0, 1}, {1, 1}}) {
		switch o.name {
		case "put 0-1", "force 1-1", "activate bin 0", "deactivate bin 0", "cleanup", "find next, random 1":
			long = append(long, o)
		}
	}
	long = append(long, op{"one minute passes", func(s *peakSystem) string {
		s.now = s.now.Add(time.Minute)
		return ""
	}})
	for part := range long {
		mcrun.Job("C01", fmt.Sprintf("long sequences, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			depth := mcrun.Tier(c, 8, 9)
			c.Result.Bound = fmt.Sprintf("all sequences of %d of %d operations, steps of one minute", depth, len(long))
			seen := map[string]bool{}
			sequences(c, len(long), depth, part, len(long), func(seq []int) {
				s := &peakSystem{m: &mtable{}, now: t0}
				s.t = rx.NewPeaksTable[float32, int](bins, rx.ClockFunc(func() time.Time { return s.now }))
				names := func() string {
					var n []string
					for _, i := range seq {
						n = append(n, long[i].name)
					}
					return strings.Join(n, "; ")
				}
				c.Guard(names, func() {
					for i, k := range seq {
						bad := long[k].do(s)
						c.Step()
						if bad == "" && (i == len(seq)-1 || long[k].name == "cleanup") {
							bad = s.check()
						}
						if bad != "" {
							c.Fail("the peak table differs from the reference", "after %s: %s", names(), bad)
						}
					}
				})
				st := s.m.String()
				if !seen[st] {
					seen[st] = true
					c.State()
					c.Sample("%s => {%s}", names(), st)
				}
			})
			c.Outcome(fmt.Sprintf("%d different tables", len(seen)))
		})
	}
	mcrun.Job("C01", "real size, all single peaks", func(c *mcrun.Ctx) {
		// the table of a receiver has 512 bins
		c.Watch()
		c.Result.Bound = "all peaks of one or two bins in tables of 1 to 512 bins"
		for size := 1; size <= 512; size++ {
			if size > 40 && size < 500 && !c.Thorough {
				continue
			}
			for from := 0; from < size; from++ {
				for to := from; to <= min(from+1, size-1); to++ {
					what := func() string { return fmt.Sprintf("peak %d-%d in %d bins", from, to, size) }
					c.Guard(what, func() {
						now := t0
						t := rx.NewPeaksTable[float32, int](size, rx.ClockFunc(func() time.Time { return now }))
						rand.Next = func(n int) int { return (size - from) % n }
						p := &peak{From: from, To: to}
						t.Put(p)
						if t.FindNext() != p || t.Get(from) != p || t.Get(to) != p {
							c.Fail("a peak is not found", "%s", what())
						}
						t.Activate(p)
						if t.FindNext() != nil {
							c.Fail("an active peak is found", "%s", what())
						}
						now = now.Add(time.Hour)
						t.Cleanup()
						if t.Get(from) != p {
							c.Fail("an active peak is removed", "%s", what())
						}
						t.Deactivate(p)
						if t.FindNext() != nil {
							c.Fail("an inactive peak is found", "%s", what())
						}
						t.Cleanup()
						if t.Get(from) != nil || t.Get(to) != nil {
							c.Fail("an old peak is not removed", "%s", what())
						}
					})
					c.Step()
					c.State()
					c.Trace()
				}
			}
			if c.Expired() {
				return
			}
		}
	})
}

// --- C02 ---

type (
	listener = rx.Listener[float32, int]
	pool     = rx.ListenerPool[float32, int]
)

type nullReporter struct{}

func (nullReporter) ListenerActivated(string, int)                 {}
func (nullReporter) ListenerDeactivated(string, int)               {}
func (nullReporter) CallsignDecoded(string, string, int, int, int) {}
func (nullReporter) CallsignSpotted(string, string, int)           {}
func (nullReporter) SpotTimeout(string, string, int)               {}

func poolJobs() {
	for size := 1; size <= 4; size++ {
		size := size
		mcrun.Job("C02", fmt.Sprintf("pool of %d", size), func(c *mcrun.Ctx) {
			c.Watch()
			names := []string{"bind", "bind and attach", "release the first", "release the last", "release the one in the middle", "release two", "release a former one", "release all but one", "reset"}
			depth := mcrun.Tier(c, 6, 8)
			c.Result.Bound = fmt.Sprintf("all sequences of %d of %d operations", depth, len(names))
			seen := map[string]bool{}
			// the listeners are made once, to keep the enumeration fast
			factory := func(id string) *listener {
				return rx.NewListener[float32, int](id, nil, rx.WallClock, nullReporter{}, 48000, 512)
			}
			sequences(c, len(names), depth, 0, 1, func(seq []int) {
				p := rx.NewListenerPool[float32, int](size, "rx", factory)
				var bound, former []*listener
				var oldest *listener // of those that are bound since there were none, as long as none of them is released
				what := func() string {
					var n []string
					for _, i := range seq {
						n = append(n, names[i])
					}
					return strings.Join(n, "; ")
				}
				detach := func(l *listener) {
					if l.Attached() {
						l.Detach()
					}
				}
				release := func(is ...int) {
					var ls []*listener
					for _, i := range is {
						ls = append(ls, bound[i])
						detach(bound[i])
						former = append(former, bound[i])
					}
					p.Release(ls...)
					oldest = nil
					var keep []*listener
					for i, l := range bound {
						gone := false
						for _, k := range is {
							gone = gone || i == k
						}
						if !gone {
							keep = append(keep, l)
						}
					}
					bound = keep
				}
				c.Guard(what, func() {
					trace := ""
					for _, k := range seq {
						c.Step()
						switch k {
						case 0, 1:
							if got := p.Available(); got != (len(bound) < size) {
								c.Fail("wrong availability", "%s: available %t with %d of %d bound", what(), got, len(bound), size)
							}
							l, ok := p.BindNext()
							if ok != (len(bound) < size) || (l != nil) != ok {
								c.Fail("wrong capacity", "%s: bind %t with %d of %d bound", what(), ok, len(bound), size)
							}
							if ok {
								if k == 1 {
									l.Attach(&peak{From: 1, To: 1})
								}
								bound = append(bound, l)
								if len(bound) == 1 {
									oldest = l
								}
							}
						case 2:
							if len(bound) > 0 {
								release(0)
							}
						case 3:
							if len(bound) > 0 {
								release(len(bound) - 1)
							}
						case 4:
							if len(bound) > 2 {
								release(1)
							}
						case 5:
							if len(bound) > 1 {
								release(0, len(bound)-1)
							}
						case 6:
							if len(former) > 0 {
								p.Release(former[len(former)-1])
							}
						case 7:
							if len(bound) > 2 {
								var is []int
								for i := 1; i < len(bound); i++ {
									is = append(is, i)
								}
								release(is...)
							}
						case 8:
							p.Reset()
							for _, l := range bound {
								if l.Attached() {
									c.Fail("a listener is still attached after the reset", "%s", what())
								}
								former = append(former, l)
							}
							bound, oldest = nil, nil
						}
						trace += fmt.Sprint(len(bound))
						// the bound listeners, each with its own id
						got := map[*listener]bool{}
						ids := map[string]bool{}
						count := 0
						p.ForEach(func(l *listener) {
							got[l] = true
							ids[l.ID()] = true
							count++
						})
						for _, l := range bound {
							if !got[l] {
								c.Fail("a bound listener is lost", "%s: %s after %s", what(), l.ID(), trace)
							}
						}
						if len(ids) != len(bound) || count != len(bound) {
							c.Fail("wrong listeners", "%s: %d listeners with %d ids, expected %d", what(), count, len(ids), len(bound))
						}
						for id := range ids {
							if !validID(id, size) {
								c.Fail("unknown id", "%s: %s", what(), id)
							}
						}
						first, ok := p.First()
						if ok != (len(bound) > 0) || ok && !got[first] || oldest != nil && first != oldest {
							c.Fail("wrong first listener", "%s", what())
						}
						if p.Available() != (len(bound) < size) || p.Size() != size {
							c.Fail("wrong availability", "%s", what())
						}
					}
					if !seen[trace] {
						seen[trace] = true
						c.State()
						c.Sample("%s => %s bound", what(), trace)
					}
				})
				for _, l := range bound {
					detach(l)
				}
			})
			c.Outcome(fmt.Sprintf("%d different histories", len(seen)))
		})
	}
	mcrun.Job("C02", "real size", func(c *mcrun.Ctx) {
		c.Watch()
		c.Result.Bound = "bind k of 30 listeners, release those at every distance d, bind again"
		var spare []*listener
		for i := 0; i < 31; i++ {
			spare = append(spare, rx.NewListener[float32, int](fmt.Sprint(i+1), nil, rx.WallClock, nullReporter{}, 48000, 512))
		}
		byID := map[string]*listener{}
		for _, l := range spare {
			byID[l.ID()] = l
		}
		for k := 0; k <= 30; k++ {
			for d := 1; d <= 8; d++ {
				what := func() string { return fmt.Sprintf("%d bound, every %d. released", k, d) }
				c.Guard(what, func() {
					p := rx.NewListenerPool[float32, int](30, "", func(id string) *listener { return byID[id] })
					var ls []*listener
					for i := 0; i < k; i++ {
						l, ok := p.BindNext()
						if !ok {
							c.Fail("wrong capacity", "%s: no listener %d", what(), i)
						}
						ls = append(ls, l)
					}
					var rel []*listener
					for i := d - 1; i < k; i += d {
						rel = append(rel, ls[i])
					}
					p.Release(rel...)
					n := k - len(rel)
					for p.Available() {
						if _, ok := p.BindNext(); !ok {
							c.Fail("wrong capacity", "%s: available but not bound", what())
						}
						n++
						if n > 30 {
							break
						}
					}
					ids := map[string]bool{}
					p.ForEach(func(l *listener) { ids[l.ID()] = true })
					if n != 30 || len(ids) != 30 {
						c.Fail("wrong capacity", "%s: %d listeners, %d ids", what(), n, len(ids))
					}
					c.Step()
					c.State()
					c.Trace()
				})
			}
		}
	})
}

func validID(id string, size int) bool {
	for i := 1; i <= size; i++ {
		if id == fmt.Sprintf("rx%d", i) {
			return true
		}
	}
	return false
}
