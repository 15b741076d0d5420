package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/shim/pulse"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// --- C36: from the signal to the output ---

// transmission of a text on a tone.
type transmission struct {
	start     float64 // seconds
	pitch     float64
	amplitude float64
	wpm       float64
	text      string
}

// sound is the sum of transmissions and the time of their end.
func sound(ts ...transmission) (func(t float64) float64, float64) {
	type part struct {
		transmission
		dit  float64
		keys []bool
	}
	var parts []part
	end := 0.0
	for _, t := range ts {
		p := part{transmission: t, dit: 1.2 / t.wpm, keys: iq.Keying(t.text, 1)}
		parts = append(parts, p)
		end = math.Max(end, t.start+p.dit*float64(len(p.keys)))
	}
	return func(t float64) float64 {
		v := 0.0
		for _, p := range parts {
			i := int(math.Floor((t - p.start) / p.dit))
			if i >= 0 && i < len(p.keys) && p.keys[i] {
				v += p.amplitude * math.Sin(2*math.Pi*p.pitch*t)
			}
		}
		return v
	}, end
}

// listen lets the record stream deliver some seconds.
func (p *program) listen(seconds float64) {
	cs := p.sound.Clients
	if len(cs) != 1 || len(cs[0].Streams) != 1 {
		vsched.Fail("the program does not record")
	}
	s := cs[0].Streams[0]
	end := s.Seconds() + seconds
	for s.Seconds() < end {
		if !s.Deliver() {
			vsched.Fail("the record stream does not run")
		}
		vsched.WaitQuiescent() // a viewer must not be late
	}
}

// decoded is the output without the spaces.
func (p *program) decoded() string { return p.decodedSince(0) }

func (p *program) decodedSince(at int) string {
	return strings.Join(strings.Fields(p.out.String()[at:]), "")
}

// audio runs the pulse command with sources.
func audio(args []string, seconds float64, sources ...*pulse.Source) *program {
	p := prepare()
	p.sound = &pulse.Server{Sources: sources}
	pulse.Current = p.sound
	p.start(append([]string{"decode", "pulse"}, args...)...)
	vsched.WaitQuiescent()
	if p.fatal != "" {
		vsched.Fail("%v: %s", args, p.fatal)
	}
	p.listen(seconds)
	return p
}

func (p *program) finish(what any) {
	p.interrupt()
	p.over(what)
}

func source(name string, rate, chans int, signal func(t float64) float64) *pulse.Source {
	return &pulse.Source{Ident: name, Rate: rate, Chans: chans, Signal: signal}
}

func once(prop, name string, steps int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		vsched.Check(c, vsched.Config{MaxSteps: steps}, func() {
			reset()
			body(c)
		})
	})
}

var rates = []int{8000, 16000, 44100, 48000}

func pulseJobs() {
	for _, rate := range rates {
		rate := rate
		once("C36", fmt.Sprintf("decode pulse, sources and channels, %d Hz", rate), 20000000, func(c *mcrun.Ctx) {
			other := rates[vsched.Choose(len(rates), "rate of the other source")]
			chans := 1 + vsched.Choose(2, "channels")
			selected := vsched.Choose(2, "selected") == 1
			vsched.QuietFair(func() {
				one, end := sound(transmission{0.1, 700, 0.9, 30, "n"})
				two, end2 := sound(transmission{0.1, 700, 0.9, 30, "a"})
				args, want := []string{"--wpm=30"}, "n"
				sources := []*pulse.Source{source("one", rate, chans, one), source("two", other, 1, two)}
				if selected {
					sources[0], sources[1] = sources[1], sources[0]
					args = append(args, "--source=one")
				}
				p := audio(args, math.Max(end, end2)+0.6, sources...)
				if got := p.decoded(); got != want {
					vsched.Fail("%v, %d Hz, %d channels, other source %d Hz: %q instead of %q", args, rate, chans, other, got, want)
				}
				p.finish(args)
			})
			vsched.Outcome("ok")
		})
	}
	pitches := []int{400, 500, 600, 700, 800, 1000}
	once("C36", "decode pulse, pitch", 20000000, func(c *mcrun.Ctx) {
		n := vsched.Choose(len(pitches)+1, "pitch")
		rate := rates[vsched.Choose(2, "rate")]
		vsched.QuietFair(func() {
			pitch, args := 700, []string{"--wpm=30"}
			if n < len(pitches) {
				pitch = pitches[n]
				args = append(args, fmt.Sprintf("--pitch=%d", pitch))
			}
			signal, end := sound(
				transmission{0.1, float64(pitch), 0.9, 30, "ra"},
				transmission{1.6, float64(pitch) + 400, 0.9, 30, "k"})
			p := audio(args, end+0.6, source("one", rate, 1, signal))
			if got := p.decoded(); got != "ra" {
				vsched.Fail("%v, %d Hz: %q instead of %q", args, rate, got, "ra")
			}
			p.finish(args)
		})
		vsched.Outcome("ok")
	})
}

// station on the air.
type station struct {
	bin  int
	call string
}

// onAir lets stations call at the same time.
func (p *program) onAir(repeat int, stations ...station) {
	var keys [][]bool
	n := 0
	for _, s := range stations {
		text := "vvv vvv " + strings.Repeat("de "+s.call+" "+s.call+" ", repeat) + "k e"
		k := iq.Keying(text, p.dit())
		keys = append(keys, k)
		n = max(n, len(k))
	}
	for i := 0; i < n; i++ {
		var bins []int
		for j, k := range keys {
			if i < len(k) && k[i] {
				bins = append(bins, stations[j].bin)
			}
		}
		p.feed(1, bins...)
	}
}

// expect that a client has got spots for stations, at least one of each since a position, and no others.
func (p *program) expect(what any, got []spot, by string, center float64, stations ...station) {
	seen := map[string]bool{}
	for _, s := range got {
		ok := false
		for _, st := range stations {
			if strings.EqualFold(s.call, st.call) && near(s.khz*1000, center+p.offset(st.bin), p.offset(1)-p.offset(0)+50) {
				ok = true
				seen[st.call] = true
			}
		}
		if !ok || s.by != by {
			vsched.Fail("%v: spot %q", what, s.line)
		}
	}
	for _, st := range stations {
		if !seen[st.call] {
			vsched.Fail("%v: no spot for %v on bin %d, center %.0f: %v", what, st.call, st.bin, center, got)
		}
	}
}

// printed are the spots on the standard output.
func (p *program) printed(what any, center float64, stations ...station) {
	for _, st := range stations {
		found := false
		for _, l := range strings.Split(p.out.String(), "\n") {
			if !strings.Contains(l, "spotted") || !strings.Contains(strings.ToLower(l), st.call) {
				continue
			}
			for _, f := range strings.FieldsFunc(l, func(r rune) bool { return (r < '0' || r > '9') && r != '.' }) {
				khz, err := strconv.ParseFloat(f, 64)
				found = found || err == nil && near(khz*1000, center+p.offset(st.bin), p.offset(1)-p.offset(0)+10)
			}
		}
		if !found {
			vsched.Fail("%v: the spot of %s is not printed: %q", what, st.call, p.out.String())
		}
	}
}

func strainJobs() {
	grid := []int{2, 20, 61, 130, 199, 231, 251, 262, 300, 333, 410, 450, 489, 509}
	for _, what := range []string{"tci", "kiwi"} {
		what := what
		for i, name := range []string{"before", "after", "much later"} {
			later := i
			once("C36", fmt.Sprintf("strain %s, signals, second client %s", what, name), 4000000, func(c *mcrun.Ctx) {
				grid := grid
				if later > 0 {
					grid = mcrun.Tier(c, grid[len(grid)-4:], grid)
				}
				a := vsched.Choose(len(grid), "bin")
				b := (a + vsched.Choose(mcrun.Tier(c, 2, len(grid)), "distance")) % len(grid)
				vsched.QuietFair(func() {
					p := prepare()
					p.start("strain", what, "--busy=5m")
					vsched.WaitQuiescent()
					clients := []*net.Peer{cluster(7373)}
					p.connect()
					p.feed(100)
					if later == 0 {
						clients = append(clients, cluster(7373))
					}
					stations := []station{{grid[a], "dl1abc"}}
					if b != a {
						stations = append(stations, station{grid[b], "k1a"})
					}
					p.onAir(3, stations...)
					p.feed(100)
					desc := fmt.Sprintf("%s, bins %d %d", what, grid[a], grid[b])
					for _, cl := range clients {
						p.expect(desc, spots(cl), "local-#", center, stations...)
					}
					if later > 0 {
						late := cluster(7373)
						n := 7
						if later == 2 {
							n = 8
						}
						for i := 0; i < n; i++ {
							vsched.Advance(8 * time.Second) // shorter than the silence timeout
							p.onAir(1, stations...)
							p.feed(100)
						}
						// spots are repeated after one minute
						if later == 1 {
							stations = nil
						}
						p.expect(desc, spots(late), "local-#", center, stations...)
					}
					if what == "tci" {
						p.printed(desc, center, stations...)
					}
					p.finish(desc)
				})
				vsched.Outcome("ok")
			})
		}
	}

	once("C36", "strain kiwi, center frequencies", 4000000, func(c *mcrun.Ctx) {
		centers := []int{7020000, 3530123, 14040500, 475600, 28060999, 137000}
		centers = centers[:mcrun.Tier(c, 5, 6)]
		f := centers[vsched.Choose(len(centers), "center")]
		bin := []int{61, 231, 300, 450}[vsched.Choose(mcrun.Tier(c, 2, 4), "bin")]
		vsched.QuietFair(func() {
			p := prepare()
			p.start("strain", "kiwi", fmt.Sprintf("--center=%d", f))
			vsched.WaitQuiescent()
			cl := cluster(7373)
			p.connect()
			p.feed(100)
			// the frequency the KiwiSDR is told
			tuned := 0.0
			for _, m := range p.conn.Sent {
				if _, khz, ok := strings.Cut(string(m.Data), " freq="); ok && strings.Contains(string(m.Data), "mod=iq") {
					khz, _, _ = strings.Cut(khz, " ")
					tuned, _ = strconv.ParseFloat(khz, 64)
				}
			}
			if !near(tuned*1000, float64(f), 0.5) {
				vsched.Fail("center %d: the KiwiSDR is tuned to %.3f kHz", f, tuned)
			}
			st := station{bin, "dl1abc"}
			p.onAir(3, st)
			p.feed(100)
			p.expect(fmt.Sprintf("center %d, bin %d", f, bin), spots(cl), "local-#", float64(f), st)
			p.finish(f)
		})
		vsched.Outcome("ok")
	})

	once("C36", "strain tci, center frequencies", 4000000, func(c *mcrun.Ctx) {
		centers := []int{7020000, 3530000, 14040100, 28060000}
		n := mcrun.Tier(c, 2, 3)
		seq := make([]int, n)
		for i := range seq {
			seq[i] = vsched.Choose(mcrun.Tier(c, 3, len(centers)), "center")
		}
		reconnect := vsched.Choose(n+1, "reconnect")
		vsched.QuietFair(func() {
			p := prepare()
			p.start("strain", "tci", "--spot_every=1s")
			vsched.WaitQuiescent()
			cl := cluster(7373)
			p.connect()
			for i, k := range seq {
				if i == reconnect {
					p.dev.SetConnected(false)
					vsched.Advance(5 * time.Second)
					p.dev.SetConnected(true)
				}
				p.dds(1, 10106000)
				p.dds(0, centers[k])
				p.feed(120)
				before := len(spots(cl))
				st := station{200 + 20*i, []string{"dl1abc", "k1a", "g3xyz"}[i]}
				p.onAir(3, st)
				p.feed(100)
				p.expect(fmt.Sprint(seq, reconnect, i), spots(cl)[before:], "local-#", float64(centers[k]), st)
				vsched.Advance(15 * time.Second)
				p.feed(100)
			}
			p.finish(seq)
		})
		vsched.Outcome("ok")
	})
}

func vfoJobs() {
	once("C36", "decode tci, VFO", 4000000, func(c *mcrun.Ctx) {
		offsets := []int{0, 2000, -5000, 20040, -15005}
		n := mcrun.Tier(c, 2, 3)
		seq := make([]int, n)
		for i := range seq {
			seq[i] = vsched.Choose(len(offsets), "offset")
		}
		early := vsched.Choose(2, "VFO before the connection") == 1
		vsched.QuietFair(func() {
			p := prepare()
			p.start("decode", "tci")
			vsched.WaitQuiescent()
			if early {
				p.vfo(0, orig.VFOA, offsets[seq[0]])
			}
			p.connect()
			if net.Listening(7373) {
				vsched.Fail("there is a cluster")
			}
			for i, k := range seq {
				if i > 0 || !early {
					p.vfo(0, orig.VFOA, offsets[k])
				}
				p.vfo(1, orig.VFOA, 1000)
				p.vfo(0, orig.VFOB, 3000)
				bin := int(math.Round(float64(offsets[k])*block/tciRate)) + block/2
				p.feed(300)
				at := p.out.Len()
				text := []string{"paris paris", "london", "berlin berlin"}[i]
				// somebody else is on the air too
				keys, other := iq.Keying(text, p.dit()), iq.Keying("test test test test", p.dit())
				for j := range keys {
					var bins []int
					if keys[j] {
						bins = append(bins, bin)
					}
					if other[j%len(other)] {
						bins = append(bins, (bin+30)%block)
					}
					p.feed(1, bins...)
				}
				p.feed(100)
				got := p.decodedSince(at)
				if got != strings.ReplaceAll(text, " ", "") {
					vsched.Fail("VFO %d of %v, early %v: %q instead of %q", i, seq, early, got, text)
				}
			}
			p.finish(seq)
		})
		vsched.Outcome("ok")
	})
}

func receptionJobs() {
	pulseJobs()
	strainJobs()
	vfoJobs()
}
