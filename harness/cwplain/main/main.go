// Harness for the CW decoder: all texts, timings and key sequences within bounds.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	dcw "github.com/ftl/digimodes/cw"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
)

const unknown = '¦'

func main() {
	textJobs()
	robustnessJobs()
	shownJobs()
	mcrun.Main()
}

// bench is a decoder with its output. The speed of 20 wpm, which the decoder expects, has the given number of ticks per dit.
type bench struct {
	d   *cw.Decoder
	out bytes.Buffer
}

func newBench(preset int) *bench {
	b := &bench{}
	b.d = cw.NewDecoder(&b.out, 1000*preset, 60)
	return b
}

// key lets the decoder hear signals (> 0) and gaps (< 0) of a number of ticks.
func (b *bench) key(durations ...int) {
	for _, k := range durations {
		for ; k > 0; k-- {
			b.d.Tick(true)
		}
		for ; k < 0; k++ {
			b.d.Tick(false)
		}
	}
}

func (b *bench) take() string {
	s := b.out.String()
	b.out.Reset()
	return s
}

// morse returns the durations of a text, it ends with the last signal.
func morse(text string, dit int) []int {
	var res []int
	gap := 0
	for _, r := range text {
		if r == ' ' {
			gap = 7
			continue
		}
		symbols, ok := dcw.Code[r]
		if !ok {
			panic("no code for " + string(r))
		}
		for _, s := range symbols {
			if len(res) > 0 {
				res = append(res, -gap*dit)
			}
			gap = 1
			if s == dcw.Dit {
				res = append(res, dit)
			} else {
				res = append(res, 3*dit)
			}
		}
		gap = 3
	}
	return res
}

var alphabet = func() []rune {
	var res []rune
	for r := range dcw.Code {
		res = append(res, r)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}()

// scratch keeps the cost of the enumeration low.
func (b *bench) decode(durations []int, dit int) string {
	b.key(durations...)
	b.key(-(40 * dit))
	return b.take()
}

type speed struct{ preset, dit int }

// near the preset the very first character has to be right
var near = []speed{{3, 3}, {3, 4}, {4, 4}, {4, 5}, {5, 4}, {5, 5}, {5, 6}, {5, 7}, {6, 5}, {6, 6}, {6, 7}, {6, 8}, {7, 6}, {7, 7}, {7, 8}, {7, 9}, {8, 7}, {8, 8}, {8, 9}, {8, 10}, {2, 2}}

// far from the preset the decoder needs a word to adapt
var far = []speed{{2, 3}, {3, 2}, {3, 5}, {3, 6}, {3, 7}, {4, 3}, {4, 6}, {4, 8}, {4, 10}, {5, 3}, {5, 8}, {5, 10}, {5, 12}, {6, 4}, {6, 10}, {6, 12}, {6, 15}, {7, 5}, {7, 12}, {7, 17}, {8, 5}, {8, 6}, {8, 16}, {8, 20}, {12, 8}, {12, 24}}

func textJobs() {
	prop := "C11"
	n := len(alphabet)
	const parts = 4
	for part := 0; part < parts; part++ {
		part := part
		mcrun.Job(prop, fmt.Sprintf("all texts at the expected speed, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			for _, s := range near {
				b := newBench(s.preset)
				try := func(text string) {
					c.Guard(func() string { return text }, func() {
						b.d.Reset()
						if got := b.decode(morse(text, s.dit), s.dit); got != text {
							c.Fail("a text is not decoded", "%q with %d ticks per dit, expected are %d: %q", text, s.dit, s.preset, got)
						}
					})
					c.Trace()
				}
				for i := part; i < n; i += parts {
					try(string(alphabet[i]))
					for j := 0; j < n; j++ {
						x := string(alphabet[i])
						y := string(alphabet[j])
						try(x + y)
						try(x + " " + y)
						if s.preset != 3 && s.preset != 5 && !c.Thorough {
							continue
						}
						for k := 0; k < n; k++ {
							z := string(alphabet[k])
							try(x + y + z)
							if c.Thorough && s.dit >= s.preset {
								try(x + " " + y + z)
								try(x + y + " " + z)
								try(x + " " + y + " " + z)
							}
						}
					}
					if c.Expired() {
						return
					}
				}
				c.State()
				c.Outcome(fmt.Sprintf("%d/%d ticks per dit", s.dit, s.preset))
			}
		})
		mcrun.Job(prop, fmt.Sprintf("all texts at another speed, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			for _, s := range far {
				b := newBench(s.preset)
				for _, word := range []string{"vvv", "paris", "abc"} {
					intro := morse(word, s.dit)
					try := func(text string) {
						c.Guard(func() string { return text }, func() {
							b.d.Reset()
							b.key(intro...)
							b.key(-7 * s.dit)
							if got := b.decode(morse(text, s.dit), s.dit); !strings.HasSuffix(got, " "+text) {
								c.Fail("a text is not decoded", "%q after %q with %d ticks per dit, expected are %d: %q", text, word, s.dit, s.preset, got)
							}
						})
						c.Trace()
					}
					for i := part; i < n; i += parts {
						x := string(alphabet[i])
						for j := 0; j < n; j++ {
							y := string(alphabet[j])
							try(x + y)
							try(x + " " + y)
							if c.Thorough {
								for k := 0; k < n; k += 3 {
									try(x + y + string(alphabet[k]))
								}
							}
						}
						if c.Expired() {
							return
						}
					}
				}
				c.State()
				c.Outcome(fmt.Sprintf("%d/%d ticks per dit", s.dit, s.preset))
			}
		})
	}
	mcrun.Job(prop, "the speed changes", func(c *mcrun.Ctx) {
		c.Watch()
		for _, preset := range []int{3, 4, 6} {
			lo, hi := (preset*2+2)/3, preset*5/2
			b := newBench(preset)
			for d1 := lo; d1 <= hi; d1++ {
				for d2 := max(lo, (d1*3+4)/5); d2 <= min(hi, d1*2); d2++ {
					for d3 := max(lo, (d2*3+4)/5); d3 <= min(hi, d2*2); d3++ {
						for _, text := range []string{"cq", "dl1abc", "e", "t", "599", "= k"} {
							b.d.Reset()
							for _, d := range []int{d1, d2, d3} {
								b.key(morse("paris paris", d)...)
								b.key(-7 * d)
							}
							if got := b.decode(morse(text, d3), d3); !strings.HasSuffix(got, " "+text) {
								c.Fail("a text is not decoded after the speed changed", "%q after %d, %d and %d ticks per dit, expected are %d: %q", text, d1, d2, d3, preset, got)
							}
							c.Trace()
						}
						c.State()
					}
				}
			}
		}
	})
	mcrun.Job(prop, "imprecise timing", func(c *mcrun.Ctx) {
		c.Watch()
		texts := []string{"an", "k", "de", "pse", "ab", "e t", "ie", "u6", "r ee"}
		for _, s := range near {
			if s.preset < 5 || s.dit < s.preset {
				continue
			}
			b := newBench(s.preset)
			for _, text := range texts {
				exact := morse(text, s.dit)
				if len(exact) > mcrun.Tier(c, 11, 13) {
					continue
				}
				seq := make([]int, len(exact))
				var rec func(i int)
				rec = func(i int) {
					if i == len(seq) {
						b.d.Reset()
						if got := b.decode(seq, s.dit); got != text {
							c.Fail("a text with imprecise timing is not decoded", "%q with %v, %d ticks per dit, expected are %d: %q", text, seq, s.dit, s.preset, got)
						}
						c.Trace()
						return
					}
					for d := -1; d <= 1; d++ {
						seq[i] = exact[i] + d
						rec(i + 1)
					}
				}
				rec(0)
				c.State()
				if c.Expired() {
					return
				}
			}
		}
	})
	mcrun.Job(prop, "silence before, between and after", func(c *mcrun.Ctx) {
		c.Watch()
		for preset := 3; preset <= 7; preset++ {
			b := newBench(preset)
			dit := preset
			for _, text := range []string{"e", "t", "ab", "cq", "k9", "=", "dl 1", "599 5"} {
				for lead := 0; lead < 400; lead++ {
					b.d.Reset()
					b.key(-lead)
					if got := b.decode(morse(text, dit), dit); strings.TrimLeft(got, " ") != text {
						c.Fail("a text is not decoded after silence", "%q after %d ticks of silence, %d ticks per dit: %q", text, lead, dit, got)
					}
					c.Trace()
				}
				for _, second := range []string{"e", "t", "ab", "73", "/p", "k"} {
					for pause := 6 * dit; pause < 80*dit; pause++ {
						b.d.Reset()
						b.key(morse(text, dit)...)
						b.key(-pause)
						if got := b.decode(morse(second, dit), dit); got != text+" "+second {
							c.Fail("a text is not decoded after a pause", "%q and %q with %d ticks in between, %d ticks per dit: %q", text, second, pause, dit, got)
						}
						c.Trace()
					}
				}
				// the last character appears without another signal, after some silence, once
				b.d.Reset()
				b.key(morse(text, dit)...)
				b.key(-30 * dit)
				if got := b.take(); got != text {
					c.Fail("the last character is missing", "%q, %d ticks per dit: %q", text, dit, got)
				}
				for i := 0; i < 2000; i++ {
					b.key(-1)
				}
				if got := b.take(); got != "" {
					c.Fail("text in the silence", "%q, %d ticks per dit: %q", text, dit, got)
				}
				c.State()
			}
		}
	})
	mcrun.Job(prop, "all combinations of signals", func(c *mcrun.Ctx) {
		c.Watch()
		known := map[string]rune{}
		for r, symbols := range dcw.Code {
			k := ""
			for _, s := range symbols {
				if s == dcw.Dit {
					k += "."
				} else {
					k += "-"
				}
			}
			known[k] = r
		}
		for _, s := range near {
			if s.preset < 3 {
				continue
			}
			b := newBench(s.preset)
			for l := 1; l <= 8; l++ {
				for x := 0; x < 1<<l; x++ {
					for _, before := range []string{"", "e", "t", "ab", "cq cq "} {
						for _, after := range []string{"", "e", "t", "k", " cq"} {
							if s.dit < s.preset && !strings.HasPrefix(before, "cq") {
								continue // too little to adapt
							}
							ks := morse(before, s.dit)
							if len(ks) > 0 {
								if strings.HasSuffix(before, " ") {
									ks = append(ks, -7*s.dit)
								} else {
									ks = append(ks, -3*s.dit)
								}
							}
							k := ""
							for i := 0; i < l; i++ {
								if i > 0 {
									ks = append(ks, -s.dit)
								}
								if x>>i&1 == 0 {
									k += "."
									ks = append(ks, s.dit)
								} else {
									k += "-"
									ks = append(ks, 3*s.dit)
								}
							}
							if after != "" {
								if strings.HasPrefix(after, " ") {
									ks = append(ks, -7*s.dit)
								} else {
									ks = append(ks, -3*s.dit)
								}
								ks = append(ks, morse(strings.TrimSpace(after), s.dit)...)
							}
							r, ok := known[k]
							if !ok {
								r = unknown
							}
							want := before + string(r) + after
							b.d.Reset()
							if got := b.decode(ks, s.dit); got != want {
								c.Fail("a combination of signals is not decoded", "%s between %q and %q, %d ticks per dit, expected are %d: %q", k, before, after, s.dit, s.preset, got)
							}
							c.Trace()
						}
					}
					c.State()
				}
			}
		}
	})
	mcrun.Job(prop, "signals that are no characters", func(c *mcrun.Ctx) {
		// too many, too long or too short signals do not affect the characters around them
		c.Watch()
		for preset := 3; preset <= 8; preset++ {
			dit := preset
			b := newBench(preset)
			try := func(what string, garbage []int, valid func(s string) bool) {
				for _, before := range []string{"", "cq", "ab k"} {
					for _, after := range []string{"e", "t", "cq", "73"} {
						for _, gap := range []int{7, 12, 40} {
							var ks []int
							if before != "" {
								ks = append(morse(before, dit), -7*dit)
							}
							ks = append(ks, garbage...)
							ks = append(ks, -gap*dit)
							ks = append(ks, morse(after, dit)...)
							b.d.Reset()
							got := b.decode(ks, dit)
							f := strings.Split(strings.TrimPrefix(got, before), " ")
							if !strings.HasPrefix(got, before) || f[len(f)-1] != after || !valid(strings.Join(f[:len(f)-1], " ")) {
								c.Fail("text around signals that are no characters", "%s between %q and %q (%d dits), %d ticks per dit: %q", what, before, after, gap, dit, got)
							}
							c.Trace()
						}
					}
				}
				c.State()
			}
			for k := 12 * dit; k <= 100*dit; k++ {
				try(fmt.Sprintf("a signal of %d ticks", k), []int{k}, func(s string) bool { return strings.Trim(s, " ") == "" })
			}
			for k := 12 * dit; k <= 30*dit; k++ {
				try(fmt.Sprintf("a dit and a signal of %d ticks", k), []int{dit, -dit, k}, func(s string) bool { return strings.Trim(s, " ") == string(unknown) || strings.Trim(s, " ") == "e" })
			}
			for k := 9; k <= 40; k++ {
				var g []int
				for i := 0; i < k; i++ {
					g = append(g, dit, -dit)
				}
				try(fmt.Sprintf("%d dits", k), g[:len(g)-1], func(s string) bool { return strings.HasPrefix(strings.Trim(s, " "), "§") })
			}
			// a much too long signal in the middle of a character spoils this character only
			for before := 0; before <= 3; before++ {
				for after := 0; before+after <= 8; after++ {
					for _, k := range []int{12, 16, 25, 40, 80} {
						for x := 0; x < 4; x++ { // which kinds of signals are around it
							var g []int
							for i := 0; i < before+1+after; i++ {
								switch {
								case i == before:
									g = append(g, k*dit, -dit)
								case (x>>(i%2))&1 == 0:
									g = append(g, dit, -dit)
								default:
									g = append(g, 3*dit, -dit)
								}
							}
							try(fmt.Sprintf("a signal of %d dits after %d and before %d others", k, before, after), g[:len(g)-1], func(s string) bool {
								s = strings.Trim(s, " ")
								return len([]rune(s)) <= 2 && (after == 0 || strings.HasSuffix(s, string(unknown)))
							})
						}
					}
				}
			}
			try("a signal of 1 tick", []int{1}, func(s string) bool { return strings.Trim(s, " ") == "" })
		}
	})
}

// --- C12 ---

var durations = []int{1, 2, 3, 4, 6, 9, 12, 18, 30, 59, 150}

func valid(r rune) bool {
	_, ok := dcw.Code[r]
	return ok || r == ' ' || r == unknown
}

// writes records the writes of the decoder.
type writes struct{ list []string }

func (w *writes) Write(b []byte) (int, error) {
	w.list = append(w.list, string(b))
	return len(b), nil
}

func robustnessJobs() {
	prop := "C12"
	const parts = 8
	each := func(c *mcrun.Ctx, part, depth int, f func(seq []int)) {
		seq := make([]int, depth)
		k := len(durations)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == depth {
				c.Guard(func() string { return fmt.Sprint(seq) }, func() { f(seq) })
				c.Trace()
				return c.Result.Traces%1024 != 0 || !c.Expired()
			}
			for x := 0; x < k; x++ {
				if i == 1 && x%parts != part {
					continue
				}
				seq[i] = durations[x]
				if i%2 == 1 {
					seq[i] = -seq[i]
				}
				if !rec(i + 1) {
					return false
				}
			}
			c.State()
			return true
		}
		rec(0)
	}
	for part := 0; part < parts; part++ {
		part := part
		mcrun.Job(prop, fmt.Sprintf("all key sequences, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			for _, preset := range []int{2, 3, 6} {
				w := &writes{}
				d := cw.NewDecoder(w, 1000*preset, 60)
				b := &bench{d: d}
				each(c, part, mcrun.Tier(c, 5, 6), func(seq []int) {
					w.list = w.list[:0]
					d.Reset()
					signals, chars := 0, 0
					check := func() {
						for _, s := range w.list {
							for _, r := range s {
								if !valid(r) {
									c.Fail("unexpected output", "%v, expected are %d ticks per dit: %q", seq, preset, s)
								}
								if r != ' ' {
									chars++
								}
							}
						}
						w.list = w.list[:0]
						if chars > signals {
							c.Fail("more characters than signals", "%v, expected are %d ticks per dit: %d", seq, preset, chars)
						}
					}
					for _, s := range seq {
						if s > 1 {
							signals++
						}
						b.key(s)
						check()
					}
					// after the silence nothing is left
					b.key(-1000)
					check()
					b.key(-1000)
					if strings.Join(w.list, "") != "" {
						c.Fail("text in the silence", "%v, expected are %d ticks per dit: %q", seq, preset, w.list)
					}
				})
			}
		})
		mcrun.Job(prop, fmt.Sprintf("reset and clear, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			for _, preset := range []int{3, 6} {
				b := newBench(preset)
				tails := [][]int{}
				for _, t := range []string{"e", "paris", "e t", "k"} {
					tails = append(tails, morse(t, preset))
				}
				tails = append(tails, morse("an", preset*2), morse("an", (preset+1)/2), []int{-2, 3, -5, 9}, []int{-60, preset}, []int{59})
				want := []string{}
				for _, t := range tails {
					f := newBench(preset)
					want = append(want, f.decode(t, 20))
				}
				each(c, part, mcrun.Tier(c, 4, 6), func(seq []int) {
					for i, t := range tails {
						b.key(seq...)
						b.take()
						b.d.Reset()
						if got := b.decode(t, 20); got != want[i] {
							c.Fail("a decoder behaves different after a reset", "%v, reset, %v: %q instead of %q, %d ticks per dit are expected", seq, t, got, want[i], preset)
						}
					}
					// what was heard before a clear is not written anymore
					b.d.Reset()
					b.key(seq...)
					b.take()
					b.d.Clear()
					b.key(-1000)
					if got := b.take(); got != "" {
						c.Fail("text after a clear", "%v, clear: %q", seq, got)
					}
				})
			}
		})
		mcrun.Job(prop, fmt.Sprintf("recovery, part %d", part), func(c *mcrun.Ctx) {
			c.Watch()
			for _, s := range []speed{{2, 2}, {3, 2}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {4, 5}, {5, 4}, {5, 5}, {5, 6}, {6, 4}, {6, 5}, {6, 6}, {6, 7}} {
				b := newBench(s.preset)
				text := morse("paris paris paris cq dl1abc", s.dit)
				each(c, part, mcrun.Tier(c, 3, 5), func(seq []int) {
					for _, pause := range []int{3, 7, 60} {
						b.d.Reset()
						for r := 0; r < 3; r++ {
							b.key(seq...)
							b.key(-pause)
						}
						b.key(-50 * s.dit)
						b.take()
						if got := b.decode(text, s.dit); !strings.HasSuffix(got, " cq dl1abc") {
							c.Fail("the decoder does not recover", "%v three times with pauses of %d, then text with %d ticks per dit, expected are %d: %q", seq, pause, s.dit, s.preset, got)
						}
					}
				})
			}
		})
	}
	mcrun.Job(prop, "cleared at a known speed", func(c *mcrun.Ctx) {
		// clear keeps the speed, even when it happens in the middle of a text
		c.Watch()
		for _, s := range append(append([]speed{}, near...), far...) {
			if s.preset < 3 {
				continue
			}
			b := newBench(s.preset)
			before := append(append(morse("vvv paris", s.dit), -7*s.dit), morse("cq dl1abc", s.dit)...)
			n := 0
			for _, d := range before {
				n += max(d, -d)
			}
			start := 0
			for _, d := range append(morse("vvv paris", s.dit), -7*s.dit) {
				start += max(d, -d)
			}
			for at := start; at <= n; at++ {
				for _, text := range []string{"e", "t", "k9a b"} {
					b.d.Reset()
					left := at
					for _, d := range before {
						k := min(left, max(d, -d))
						left -= k
						if d < 0 {
							k = -k
						}
						b.key(k)
					}
					b.take()
					b.d.Clear()
					if got := b.decode(morse(text, s.dit), s.dit); got != text {
						c.Fail("a text is not decoded after a clear", "%q with %d ticks per dit, expected are %d, cleared after %d ticks: %q", text, s.dit, s.preset, at, got)
					}
					c.Trace()
				}
				c.State()
			}
		}
	})
	for i, what := range []string{"silence", "a carrier", "text"} {
		i := i
		mcrun.Job(prop, "days of "+what, func(c *mcrun.Ctx) {
			c.Watch()
			for _, preset := range []int{3, 6} {
				b := newBench(preset)
				text := morse("paris paris cq dl1abc", preset)
				length := 20 * preset
				for _, d := range text {
					length += max(d, -d)
				}
				n := mcrun.Tier(c, 1<<24+1<<20, 1<<31+1<<27) // more than a float32 can count
				done := 0
				for done < n {
					k := min(n-done, 1<<22)
					switch i {
					case 0:
						b.key(-k)
					case 1:
						b.key(k)
					case 2:
						for k = 0; k < 1<<22; k += length {
							b.key(text...)
							b.key(-20 * preset)
							// also in between nothing is lost
							if got := strings.TrimSpace(b.take()); got != "paris paris cq dl1abc" && done+k > 0 {
								c.Fail("a text is not decoded in between", "%d ticks, %d ticks per dit: %q", done+k, preset, got)
							}
						}
					}
					done += k
					b.take()
					c.Step()
					c.Doing(fmt.Sprint(what, " ", done))
					if c.Expired() {
						return
					}
				}
				b.key(-50 * preset)
				b.take()
				if got := b.decode(text, preset); !strings.HasSuffix(got, " cq dl1abc") {
					c.Fail("a text is not decoded after days of "+what, "%d ticks, %d ticks per dit: %q", done, preset, got)
				}
				c.State()
				c.Trace()
			}
		})
	}
	mcrun.Job(prop, "short noise", func(c *mcrun.Ctx) {
		// fast noise must not make the decoder deaf for signals with a fine resolution, 5 ms per tick
		c.Watch()
		for _, s := range []speed{{8, 8}, {10, 10}, {12, 12}} {
			b := newBench(s.preset)
			each := []int{3, 4, 6, 9, 15}
			seq := make([]int, 5)
			for x := 0; x < 3125; x++ {
				y := x
				for i := range seq {
					seq[i] = each[y%5] * (1 - i%2*2)
					y /= 5
				}
				b.d.Reset()
				for r := 0; r < 3; r++ {
					b.key(seq...)
					b.key(-7)
				}
				b.key(-40 * s.dit)
				b.take()
				if got := b.decode(morse("paris paris paris paris paris paris paris paris cq", s.dit), s.dit); !strings.HasSuffix(got, " cq") {
					c.Fail(fmt.Sprintf("noise %v makes the decoder deaf at %d ticks per dit", seq, s.dit), "%q", got)
				}
				c.Trace()
			}
			c.State()
		}
	})
	mcrun.Job(prop, "the scope does not matter", func(c *mcrun.Ctx) {
		c.Watch()
		for _, preset := range []int{3, 6} {
			b := newBench(preset)
			b2 := newBench(preset)
			s := &watcher{}
			b2.d.SetScope(s)
			each(c, 0, 3, func(seq []int) {
				b.d.Reset()
				b2.d.Reset()
				for _, d := range append(append([]int{}, seq...), -100) {
					b.key(d)
					n := max(d, -d)
					s.frames = s.frames[:0]
					b2.key(d)
					if g, w := b2.take(), b.take(); g != w {
						c.Fail("the scope changes the text", "%v: %q instead of %q", seq, g, w)
					}
					streams := map[scope.StreamID]int{}
					for _, f := range s.frames {
						streams[f.Stream]++
						state := 0.0
						if d > 0 {
							state = 1
						}
						if f.Values["state"] != state {
							c.Fail("the scope shows another state", "%v: %v", seq, f)
						}
					}
					for stream, k := range streams {
						if k != n {
							c.Fail("the scope does not show every tick", "%v: %s shows %d of %d", seq, stream, k, n)
						}
					}
				}
			})
		}
	})
}

type watcher struct{ frames []*scope.TimeFrame }

func (w *watcher) Active() bool                             { return true }
func (w *watcher) ShowTimeFrame(f *scope.TimeFrame)         { w.frames = append(w.frames, f) }
func (w *watcher) ShowSpectralFrame(f *scope.SpectralFrame) {}
