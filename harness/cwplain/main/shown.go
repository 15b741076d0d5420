package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	dcw "github.com/ftl/digimodes/cw"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
)

// C37: what the scope shows is what the demodulator does.

var codes = func() map[string]rune {
	res := map[string]rune{}
	for r, symbols := range dcw.Code {
		s := ""
		for _, x := range symbols {
			if x == dcw.Dit {
				s += "."
			} else {
				s += "-"
			}
		}
		res[s] = r
	}
	return res
}()

// reader derives the text from the frames that are shown.
type reader struct {
	text    strings.Builder
	char    string
	invalid bool
	last    bool
	active  bool
	now     float64
	start   float64 // of the current signal or gap
}

func (r *reader) end() {
	switch c, ok := codes[r.char]; {
	case r.char == "":
	case r.invalid || !ok:
		r.text.WriteRune(unknown)
	default:
		r.text.WriteRune(c)
	}
	r.char, r.invalid = "", false
}

func (r *reader) symbol(s string) {
	if len(r.char) == 8 {
		r.end()
	}
	r.char += s
}

// tick reads the frames of one tick.
func (r *reader) tick(on bool, frames map[scope.StreamID]map[scope.ChannelID]float64) string {
	r.now++
	level := 0.0
	if on {
		level = 1
	}
	for _, s := range []scope.StreamID{"decode", "signal_timing", "gap_timing", "signal"} {
		f, ok := frames[s]
		if !ok {
			return fmt.Sprintf("no frame of %s", s)
		}
		if f["state"] != level {
			return fmt.Sprintf("%s shows the state %v", s, f["state"])
		}
	}
	marks, gaps := frames["signal_timing"], frames["gap_timing"]
	if d := marks["on_threshold"]; d != frames["decode"]["on_threshold"] {
		return "two different thresholds"
	}
	for i, f := range []map[scope.ChannelID]float64{marks, gaps} {
		p := []scope.ChannelID{"on_threshold", "off_threshold"}[i]
		if low, high, t := f[p+"_low"], f[p+"_high"], f[p]; low <= 0 || math.Abs(t*t-low*high) > 1e-6*t*t {
			return fmt.Sprintf("%s %v is not between %v and %v", p, t, low, high)
		}
	}
	if marks["on_threshold_high_2"] != 2*marks["on_threshold_high"] {
		return "the upper threshold is wrong"
	}
	duration := r.now - r.start
	if on != r.last {
		r.start = r.now
		switch {
		case duration < 2:
		case !on && duration >= marks["on_threshold_high_2"]:
			r.invalid = true
		case !on && duration >= marks["on_threshold"]:
			r.symbol("-")
		case !on:
			r.symbol(".")
		case duration >= 4.5*gaps["off_threshold_low"]:
			r.end()
			r.text.WriteRune(' ')
		case duration >= gaps["off_threshold"]:
			r.end()
		}
		r.last, r.active = on, true
	}
	duration = r.now - r.start
	want := map[scope.StreamID]map[scope.ChannelID]float64{"decode": {"duration": duration}, "signal_timing": {"on_duration": 0}, "gap_timing": {"off_duration": 0}}
	if on {
		want["signal_timing"]["on_duration"] = duration
	} else {
		want["gap_timing"]["off_duration"] = duration
	}
	for s, v := range want {
		for ch, d := range v {
			if frames[s][ch] != d {
				return fmt.Sprintf("%s shows %v as %s instead of %v", s, frames[s][ch], ch, d)
			}
		}
	}
	if r.active && duration > 10*gaps["off_threshold"] {
		r.active = false
		r.end()
	}
	return ""
}

// collector is a scope that collects the frames since the last look.
type collector struct {
	on     bool
	frames map[scope.StreamID]map[scope.ChannelID]float64
	wrong  string
	n      int
}

func (s *collector) Active() bool { return s.on }
func (s *collector) ShowTimeFrame(f *scope.TimeFrame) {
	s.n++
	if !s.on {
		s.wrong = "a scope that is not active is shown a frame"
	}
	if _, ok := s.frames[f.Stream]; ok {
		s.wrong = fmt.Sprintf("two frames of %s at the same tick", f.Stream)
	}
	if d := time.Since(f.Timestamp); d < 0 || d > time.Hour {
		s.wrong = fmt.Sprintf("time stamp %v", f.Timestamp)
	}
	s.frames[f.Stream] = f.Values
}
func (s *collector) ShowSpectralFrame(f *scope.SpectralFrame) { s.wrong = "a spectral frame" }

func shownJobs() {
	prop := "C37"
	decode := func(c *mcrun.Ctx, b *bench, s *collector, r *reader, what func() string, durations ...int) {
		for _, d := range durations {
			for k := max(d, -d); k > 0; k-- {
				clear(s.frames)
				b.d.Tick(d > 0)
				msg := s.wrong
				if msg == "" {
					msg = r.tick(d > 0, s.frames)
				}
				if msg != "" {
					c.Fail("a wrong frame", "%s, at %d: %s", what(), d, msg)
				}
				if got := b.take(); got != r.text.String() {
					c.Fail("the frames do not explain the text", "%s, at %d: %q instead of %q", what(), d, got, r.text.String())
				}
				r.text.Reset()
			}
		}
	}
	durations := []int{1, 2, 3, 5, 7, 9, 14, 21, 40, 80}
	const parts = 4
	for part := 0; part < parts; part++ {
		part := part
		mcrun.Job(prop, fmt.Sprintf("decoder, all key sequences, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			depth := mcrun.Tier(c, 4, 6)
			for _, preset := range []int{3, 6} {
				b := newBench(preset)
				s := &collector{on: true, frames: map[scope.StreamID]map[scope.ChannelID]float64{}}
				b.d.SetScope(s)
				seq := make([]int, depth)
				var rec func(i int) bool
				rec = func(i int) bool {
					if i == depth {
						what := func() string { return fmt.Sprintf("%v, expected are %d ticks per dit", seq, preset) }
						c.Guard(what, func() {
							b.d.Reset()
							b.take()
							decode(c, b, s, &reader{}, what, append(append([]int{}, seq...), -90, preset, -90)...)
						})
						c.Trace()
						return c.Result.Traces%256 != 0 || !c.Expired()
					}
					for x, d := range durations {
						if i == 0 && x%parts != part {
							continue
						}
						seq[i] = d
						if i%2 == 1 {
							seq[i] = -d
						}
						if !rec(i + 1) {
							return false
						}
					}
					c.State()
					return true
				}
				if !rec(0) {
					return
				}
			}
		})
	}
	mcrun.Job(prop, "decoder, text", func(c *mcrun.Ctx) {
		c.Watch()
		for _, sp := range append(append([]speed{}, near...), far...) {
			for _, text := range []string{"paris 73 k7x/p", "e e e t t t 5 0 5 0 m", "cq cq de dl1abc ?"} {
				b := newBench(sp.preset)
				s := &collector{on: true, frames: map[scope.StreamID]map[scope.ChannelID]float64{}}
				b.d.SetScope(s)
				r := &reader{}
				what := func() string {
					return fmt.Sprintf("%q with %d ticks per dit, expected are %d", text, sp.dit, sp.preset)
				}
				// signals without a character in between
				keyed := append(morse(text, sp.dit), -7*sp.dit, sp.dit, -sp.dit, 30*sp.dit, -sp.dit, sp.dit, -7*sp.dit)
				for i := 0; i < 12; i++ {
					keyed = append(keyed, sp.dit, -sp.dit)
				}
				keyed = append(append(keyed, -7*sp.dit), morse(text, sp.dit)...)
				c.Guard(what, func() { decode(c, b, s, r, what, append(keyed, -60*sp.dit)...) })
				c.Trace()
			}
			c.State()
		}
	})
	for _, subject := range []string{"decoder", "spectral demodulator"} {
		subject := subject
		mcrun.Job(prop, subject+", change of the scope", func(c *mcrun.Ctx) {
			// frames go to the scope that is set, if it is active
			c.Watch()
			depth := mcrun.Tier(c, 7, 9)
			seq := make([]int, depth)
			for {
				c.Guard(func() string { return fmt.Sprint(seq) }, func() {
					b := newBench(3)
					tick, setScope, frames := b.d.Tick, b.d.SetScope, 4
					if subject != "decoder" {
						d := cw.NewSpectralDemodulator[float32, int](&b.out, 3000, 60)
						tick, setScope, frames = func(on bool) { d.Tick(map[bool]float32{true: -50, false: -100}[on], -80) }, d.SetScope, 5
					}
					scopes := []*collector{{on: true}, {on: true}, {}}
					for _, s := range scopes {
						s.frames = map[scope.StreamID]map[scope.ChannelID]float64{}
					}
					var set *collector
					for i, k := range seq {
						switch k {
						case 0:
							tick(i%3 == 0)
							for j, s := range scopes {
								want := 0
								if s == set && s.on {
									want = frames
								}
								if len(s.frames) != want || s.wrong != "" {
									c.Fail("frames for the wrong scope", "%v: %d frames for scope %d instead of %d %s", seq[:i+1], len(s.frames), j, want, s.wrong)
								}
								clear(s.frames)
							}
						case 1, 2:
							set = scopes[k-1]
							setScope(set)
						case 3:
							set = scopes[2]
							setScope(set)
						case 4:
							scopes[2].on = !scopes[2].on
						}
					}
				})
				c.Trace()
				i := depth - 1
				for ; i >= 0; i-- {
					seq[i]++
					if seq[i] < 5 {
						break
					}
					seq[i] = 0
				}
				if i < 0 || c.Result.Traces%1024 == 0 && c.Expired() {
					return
				}
				if i < depth-3 {
					c.State()
				}
			}
		})
	}
	mcrun.Job(prop, "spectral demodulator", func(c *mcrun.Ctx) {
		c.Watch()
		depth := mcrun.Tier(c, 9, 11)
		values := []float32{-130.5, -90, -80.25}
		thresholds := []float32{-90, -100}
		for n := range pow(len(values), depth) {
			debounce := n%4 + 1
			c.Guard(func() string { return fmt.Sprint("sequence ", n) }, func() {
				b := &bench{}
				d := cw.NewSpectralDemodulator[float32, int](&b.out, 3000, 60)
				s := &collector{on: true, frames: map[scope.StreamID]map[scope.ChannelID]float64{}}
				d.SetScope(s)
				d.SetSignalDebounce(debounce)
				reset := n / 5 % (depth + 2)
				last, count, effective := false, 0, false
				for i, rest := 0, n; i < depth; i, rest = i+1, rest/len(values) {
					value, threshold := values[rest%len(values)], thresholds[(i+n/7)%2]
					if i == reset {
						// as good as new
						d.Reset()
						last, count, effective = false, 0, false
					}
					clear(s.frames)
					d.Tick(value, threshold)
					f := s.frames["demod"]
					state := value > threshold
					if state == last {
						count++
					} else {
						count = 1
					}
					last = state
					if count >= debounce {
						effective = state
					}
					if s.wrong != "" || len(s.frames) != 5 {
						c.Fail("a wrong frame", "sequence %d, debounce %d, tick %d: %s, %d frames", n, debounce, i, s.wrong, len(s.frames))
					}
					if f["value"] != float64(value) || f["threshold"] != float64(threshold) || f["state"] > 0 != state || f["debounced"] > 0 != effective || s.frames["signal"]["state"] > 0 != effective {
						c.Fail("a wrong frame", "sequence %d, debounce %d, tick %d: value %v threshold %v state %v debounced %v: %v %v", n, debounce, i, value, threshold, state, effective, f, s.frames["signal"])
					}
				}
			})
			c.Trace()
			if n%1024 == 1023 {
				c.State()
				if c.Expired() {
					return
				}
			}
		}
	})
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
