package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	"github.com/ftl/sdrainer/zzverif/shim/rand"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

func receptionJobs() {
	settingsJobs()
	decodeJobs()
	endToEndJobs()
}

// testScope records what it is shown.
type testScope struct {
	spectral []scope.SpectralFrame
	demod    []scope.TimeFrame
}

func (s *testScope) Active() bool { return true }
func (s *testScope) ShowTimeFrame(f *scope.TimeFrame) {
	if _, ok := f.Values["debounced"]; ok {
		s.demod = append(s.demod, *f)
	}
}
func (s *testScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.spectral = append(s.spectral, *f) }

// listening returns the bins with a listener.
func (g *rig) listening() string {
	var bins []int
	for _, f := range pairs(g.rec.events) {
		bins = append(bins, g.bin(f))
	}
	sort.Ints(bins)
	return fmt.Sprint(bins)
}

// --- C08 ---

func settingsJobs() {
	prop := "C08"
	// every history of settings ends with one of several examinations of what they do
	silences := []time.Duration{10 * time.Second, 40 * time.Second}
	attachments := []time.Duration{30 * time.Second, 60 * time.Second}
	debounces := []int{1, 2, 4}
	for _, exam := range []string{"silence", "attachment", "debounce"} {
		exam := exam
		check(prop, "settings before the "+exam, 0, 0, func(c *mcrun.Ctx) {
			g := newRig(rx.StrainMode, 32)
			sc := &testScope{}
			silence, attachment, debounce := 20*time.Second, 2*time.Minute, 1
			running, active, scoped := false, 0, false
			tones := []int{5, 10, 20, 25}
			hist := ""
			for i := 0; i < mcrun.Tier(c, 3, 5); i++ {
				k := vsched.Choose(7, "step")
				hist += []string{"silence; ", "attachment; ", "debounce; ", "scope; ", "start; ", "next listener; ", "restart; "}[k]
				switch k {
				case 0:
					silence = silences[vsched.Choose(2, "silence")]
					g.r.SetSilenceTimeout(silence)
				case 1:
					attachment = attachments[vsched.Choose(2, "attachment")]
					g.r.SetAttachmentTimeout(attachment)
				case 2:
					debounce = debounces[vsched.Choose(3, "debounce")]
					g.r.SetSignalDebounce(debounce)
				case 3:
					if exam != "debounce" || scoped {
						return
					}
					scoped = true
					g.r.SetScope(sc)
				case 4:
					if running {
						return
					}
					running = true
					g.start()
				case 5:
					if !running || active == len(tones)-1 {
						return
					}
					g.feed(100, tones[:active+1]...)
					active++
				case 6:
					if !running {
						return
					}
					g.r.Stop()
					g.start()
					active = 0
				}
			}
			if !running {
				g.start()
			}
			if n := len(pairs(g.rec.events)); n != active {
				vsched.Fail("%s: %d listeners, expected %d", hist, n, active)
			}
			if active < 2 {
				g.feed(100, tones[:active+1]...)
				active++
			}
			signals := tones[:active]
			if n := len(pairs(g.rec.events)); n != active {
				vsched.Fail("%s: %d listeners, expected %d", hist, n, active)
			}
			g.feed(1, signals...)
			switch exam {
			case "silence", "attachment":
				limit := silence
				if exam == "attachment" {
					// something is decoded all the time
					limit = attachment
				}
				limit = min(limit, attachment)
				for t := time.Duration(0); t <= limit; t += 10 * time.Second {
					if t > 0 {
						g.clk.add(10 * time.Second)
					}
					if exam == "attachment" {
						vsched.Quiet(func() {
							for j, on := range keying("ee", 6) { // longer than every debounce
								if on {
									g.send(signals...)
								} else {
									g.send()
								}
								if j%20 == 19 {
									vsched.WaitQuiescent()
								}
							}
							g.feed(40)
						})
					} else {
						g.feed(1, signals...)
					}
					if n := len(pairs(g.rec.events)); n != active {
						vsched.Fail("%s: %d of %d listeners after %v, silence %v, attachment %v", hist, n, active, t, silence, attachment)
					}
				}
				g.clk.add(time.Second)
				g.feed(1, signals...)
				if n := len(pairs(g.rec.events)); n != 0 {
					vsched.Fail("%s: %d listeners, silence %v, attachment %v", hist, n, silence, attachment)
				}
			case "debounce":
				if !scoped {
					g.r.SetScope(sc)
				}
				g.feed(10)
				sc.demod = nil
				var pattern []bool
				for _, n := range []int{1, 1, 2, 3, 3, 4, 1, 2, 5, 1, 1, 6, 4} {
					for j := 0; j < n; j++ {
						pattern = append(pattern, len(pattern) == 0 || j == 0 != pattern[len(pattern)-1])
						if j > 0 {
							pattern[len(pattern)-1] = pattern[len(pattern)-2]
						}
					}
				}
				state, count := false, 0
				raw := false
				for j, on := range pattern {
					if on {
						g.feed(1, signals...)
					} else {
						g.feed(1)
					}
					if on == raw {
						count++
					} else {
						count = 1
					}
					raw = on
					if count >= debounce {
						state = on
					}
					if len(sc.demod) != active {
						vsched.Fail("%s: %d listeners are visible, expected %d", hist, len(sc.demod), active)
					}
					for _, f := range sc.demod {
						if on != (f.Values["state"] > 0) {
							vsched.Fail("%s: signal %v, state %v", hist, on, f.Values["state"])
						}
						if state != (f.Values["debounced"] > 0) {
							vsched.Fail("%s: debounced state %v in step %d, expected %v with a debounce of %d", hist, f.Values["debounced"], j, state, debounce)
						}
					}
					sc.demod = nil
				}
			}
			vsched.Outcome("%d active, silence %v, attachment %v, debounce %d", active, silence, attachment, debounce)
		})
	}
	check(prop, "threshold", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 32)
		sc := &testScope{}
		g.r.SetScope(sc)
		// signals of 10, 20, 30 and 40 dB over noise
		levels := []int{10, 20, 30, 40}
		thresholds := []int{5, 15, 25, 35, 45}
		threshold := 15
		when := vsched.Choose(5, "when")
		k := vsched.Choose(len(thresholds)+1, "threshold")
		level := levels[vsched.Choose(len(levels), "level")]
		bin := []int{0, 5, 20, 31}[vsched.Choose(4, "bin")]
		set := func() {
			if k < len(thresholds) {
				threshold = thresholds[k]
				g.r.SetPeakThreshold(float32(threshold))
			}
		}
		send := func(n int, level int) {
			for i := 0; i < n; i++ {
				g.i++
				g.r.IQData(g.rate, flatFrame(g.n, g.i%16, bin, level))
				vsched.WaitQuiescent()
			}
		}
		if when == 0 || when == 4 {
			set()
		}
		if when == 4 {
			// it is still in effect when the receiver is started for other data
			n := g.n
			g.n = 64
			g.start()
			send(100, 0)
			g.r.Stop()
			g.n = n
		}
		g.start()
		if when == 3 {
			// what counts is the threshold at the end of the period
			send(100, 0)
			send(90, level)
			set()
			send(10, level)
			if got, want := len(pairs(g.rec.events)) == 1, level > threshold; got != want {
				vsched.Fail("signal of %d dB, threshold %d set during the period: listening %v", level, threshold, got)
			}
		}
		if when == 1 {
			set()
		}
		if when == 2 {
			send(70, 0)
			send(20, 0)
			set()
			send(10, 0)
		}
		send(100, level)
		want := level > threshold
		if got := len(pairs(g.rec.events)) == 1; got != want {
			vsched.Fail("signal of %d dB, threshold %d: listening %v", level, threshold, got)
		}
		f := sc.spectral[len(sc.spectral)-1]
		noise := f.Values[(bin+16)%32]
		if d := f.MagnitudeMarkers["threshold"] - noise; math.Abs(d-float64(threshold)) > 3 {
			vsched.Fail("the threshold is shown %.1f dB over noise instead of %d", d, threshold)
		}
		if d := f.Values[bin] - noise; math.Abs(d-float64(level)) > 2 {
			vsched.Fail("the signal is shown %.1f dB over noise instead of %d", d, level)
		}
		marker := -1.0
		if want {
			marker = float64(bin)
		}
		if got := f.FrequencyMarkers["signal_bin"]; got != marker {
			vsched.Fail("the signal bin is shown as %v instead of %v", got, marker)
		}
		vsched.Outcome("level %d threshold %d", level, threshold)
	})
	check(prop, "edge", 0, 0, func(c *mcrun.Ctx) {
		// the band edges are attenuated, the noise floor has to be measured in between
		n := 64
		g := newRig(rx.StrainMode, n)
		sc := &testScope{}
		g.r.SetScope(sc)
		width := []int{0, 8, 12}[vsched.Choose(3, "edge width")]
		attenuated := []int{0, 8, 12}[vsched.Choose(3, "attenuated")]
		send := func(count int) {
			for i := 0; i < count; i++ {
				g.r.IQData(g.rate, edgeFrame(g.n, i%16, attenuated))
				vsched.WaitQuiescent()
			}
		}
		switch when := vsched.Choose(4, "when"); when {
		case 0:
			g.r.SetEdgeWidth(width)
			g.start()
		case 1:
			g.start()
			g.r.SetEdgeWidth(width)
		case 2:
			g.start()
			g.r.SetEdgeWidth([]int{0, 10}[vsched.Choose(2, "before")])
			send(130)
			g.r.SetEdgeWidth(width)
			send(70)
		case 3:
			g.r.SetEdgeWidth(width)
			g.n = 32
			g.start()
			send(130)
			g.r.Stop()
			g.n = n
			g.start()
		}
		send(100)
		f := sc.spectral[len(sc.spectral)-1]
		want := f.Values[n/2] + 15
		if attenuated > width {
			want -= 40
		}
		if d := f.MagnitudeMarkers["threshold"] - want; math.Abs(d) > 6 {
			vsched.Fail("edge width %d, %d bins attenuated: threshold %.1f dB, expected %.1f", width, attenuated, f.MagnitudeMarkers["threshold"], want)
		}
		vsched.Outcome("%d %d", width, attenuated)
	})
}

var specials = map[string][]float32{}

// synth makes a frame out of a spectrum, with phases that depend on the variant.
func synth(key string, n, variant int, amplitude func(bin int) float64) []float32 {
	key = fmt.Sprint(key, n, variant)
	if f, ok := specials[key]; ok {
		return f
	}
	res := make([]float32, 2*n)
	seed := uint32(variant*7919 + 4711)
	for b := 0; b < n; b++ {
		seed = seed*1664525 + 1013904223
		phase := float64(seed>>8) / float64(1<<24) * 2 * math.Pi
		a := amplitude(b)
		for i := 0; i < n; i++ {
			w := 2*math.Pi*float64((b-n/2)*i)/float64(n) + phase
			res[2*i] += float32(a * math.Cos(w))
			res[2*i+1] += float32(a * math.Sin(w))
		}
	}
	specials[key] = res
	return res
}

// flatFrame has flat noise and a signal on one bin that is level dB above it.
func flatFrame(n, variant, bin, level int) []float32 {
	return synth(fmt.Sprint("flat", bin, level), n, variant, func(b int) float64 {
		if b == bin {
			return 0.001 * math.Pow(10, float64(level)/20)
		}
		return 0.001
	})
}

func edgeFrame(n, variant, width int) []float32 {
	return synth(fmt.Sprint("edge", width), n, variant, func(b int) float64 {
		if b < width || b >= n-width {
			return 0.00001
		}
		return 0.001
	})
}

// --- C09 ---

func decodeJobs() {
	prop := "C09"
	type phase struct{ tune, keyed int }
	for _, mode := range []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode} {
		mode := mode
		check(prop, "tuning and text/"+string(mode), 0, 0, func(c *mcrun.Ctx) {
			g := newRig(mode, 32)
			out := ""
			os.OnStdout = func(b []byte) { out += string(b) }
			defer func() { os.OnStdout = nil }()
			g.r.SetSilenceTimeout(time.Hour)
			g.r.SetAttachmentTimeout(time.Hour)
			bins := []int{10, 20, 26}
			g.start()
			if mode == rx.StrainMode {
				vsched.Quiet(func() {
					rand.Next = func(n int) int { return 0 }
					g.feed(100, 10, 20)
					g.feed(100, 10, 20)
				})
				if g.listening() != "[10 20]" {
					vsched.Fail("listening on %s", g.listening())
				}
			}
			if out != "" {
				vsched.Fail("text without tuning: %q", out)
			}
			g.feed(80)
			active := 0
			hist := ""
			for i := 0; i < mcrun.Tier(c, 2, 3); i++ {
				out = ""
				if k := vsched.Choose(len(bins)+1, "tune"); k > 0 {
					b := bins[k-1]
					n := len(g.rec.events)
					offset := g.freq(b) - center + []int{0, 20, -20}[vsched.Choose(mcrun.Tier(c, 1, 3)+2*max(0, 1-i)*mcrun.Tier(c, 1, 0), "offset")]
					hist += fmt.Sprintf("tune to %d Hz on bin %d; ", offset, b)
					g.r.SetVFOOffset(offset)
					vsched.WaitQuiescent()
					events := g.rec.events[n:]
					if mode == rx.DecodeMode {
						active = b
						last := events[len(events)-1]
						if last.kind != "activated" || last.freq != center+offset || len(events) > 2 {
							vsched.Fail("%s: reported %s", hist, str(events))
						}
						if n := len(pairs(g.rec.events)); n != 1 {
							vsched.Fail("%s: %d listeners", hist, n)
						}
					} else {
						active = 0
						for _, f := range pairs(g.rec.events) {
							if g.bin(f) == b {
								active = b
							}
						}
						if len(events) > 0 {
							vsched.Fail("%s: reported %s", hist, str(events))
						}
						if active != 0 != (out == "\n") || strings.Trim(out, "\n") != "" {
							vsched.Fail("%s: text %q", hist, out)
						}
					}
				}
				out = ""
				switch k := vsched.Choose(6, "then"); k {
				case 0, 1, 2:
					b := bins[k]
					hist += fmt.Sprintf("text on bin %d; ", b)
					for _, s := range keying("e e paris e e", 3) {
						if s {
							g.feed(1, b)
						} else {
							g.feed(1)
						}
					}
					g.feed(100)
					text := strings.TrimSpace(out)
					if b != active && text != "" {
						vsched.Fail("%s: text %q, active is bin %d", hist, out, active)
					}
					if b == active && len(text) < 5 {
						vsched.Fail("%s: no text (%q), active is bin %d", hist, out, active)
					}
				case 3:
					if mode == rx.DecodeMode {
						return
					}
					// all the listeners end, and the next one has another signal
					hist += "end of the signals; "
					g.clk.add(2 * time.Hour)
					g.feed(1)
					second()
					if g.listening() != "[]" {
						vsched.Fail("%s: still listening on %s", hist, g.listening())
					}
					g.feed(200)
					vsched.Quiet(func() { g.feed(200, 26) })
					if g.listening() != "[26]" {
						vsched.Fail("%s: listening on %s", hist, g.listening())
					}
					g.feed(80)
					active = 0
				case 4:
					hist += "restart; "
					g.r.Stop()
					g.start()
					active = 0
					if len(pairs(g.rec.events)) != 0 {
						vsched.Fail("%s: listening on %s", hist, g.listening())
					}
				case 5:
					if mode == rx.DecodeMode {
						return
					}
					// the signals are on other frequencies, there and back again
					hist += "center frequency; "
					g.r.SetCenterFrequency(center + 1000)
					vsched.WaitQuiescent()
					if a := pairs(g.rec.events); len(a) != 0 {
						vsched.Fail("%s: still listening: %v", hist, a)
					}
					g.r.SetCenterFrequency(center)
					vsched.Quiet(func() { g.feed(300, bins...) })
					if a := pairs(g.rec.events); len(a) != 3 {
						vsched.Fail("%s: listening on %s", hist, g.listening())
					}
					g.feed(80)
					active = 0
				}
			}
			vsched.Outcome("%s active %d", mode, active)
			g.r.Stop()
		})
	}
	check(prop, "another listener ends", 0, 0, func(c *mcrun.Ctx) {
		// two listeners, one of them is tuned; the other one times out, the text goes on
		out := ""
		os.OnStdout = func(b []byte) { out += string(b) }
		defer func() { os.OnStdout = nil }()
		g := newRig(rx.StrainMode, 32)
		rand.Next = func(n int) int { return 0 }
		bins := []int{10, 20}
		tuned := vsched.Choose(2, "tuned")
		vsched.Quiet(func() {
			g.r.SetSilenceTimeout(10 * time.Second)
			g.r.SetAttachmentTimeout(time.Hour)
			g.start()
			g.feed(100, bins[vsched.Choose(2, "first listener")])
			g.feed(100, bins...)
			if g.listening() != "[10 20]" && g.listening() != "[20 10]" {
				vsched.Fail("listening on %s", g.listening())
			}
			g.r.SetVFOOffset(g.freq(bins[tuned]) - center)
			talk := func() string {
				out = ""
				g.feed(20)
				for _, s := range keying("e paris e", 3) {
					if s {
						g.feed(1, bins[tuned])
					} else {
						g.feed(1)
					}
				}
				g.feed(80)
				return out
			}
			talk()
			for i := 0; i < 4; i++ {
				text := talk()
				if !strings.Contains(text, "paris") {
					vsched.Fail("text %q after %d s, listening on %s", text, 4*i, g.listening())
				}
				g.clk.add(4 * time.Second)
			}
			if want := fmt.Sprint([]int{bins[tuned]}); g.listening() != want {
				vsched.Fail("listening on %s, expected %s", g.listening(), want)
			}
			// the next listener gets the id that has become free, its text is not written
			g.feed(100, bins[tuned])
			g.feed(100, bins[tuned], 26)
			g.feed(60)
			out = ""
			for _, s := range keying("e paris e", 3) {
				if s {
					g.feed(1, 26)
				} else {
					g.feed(1)
				}
			}
			g.feed(80)
			if strings.TrimSpace(out) != "" {
				vsched.Fail("text of another signal: %q", out)
			}
			g.r.Stop()
		})
		vsched.Outcome("ok")
	})
	check(prop, "all offsets", 0, 0, func(c *mcrun.Ctx) {
		n := []int{32, 64}[vsched.Choose(2, "size")]
		g := newRig(rx.DecodeMode, n)
		sc := &testScope{}
		g.r.SetScope(sc)
		g.start()
		bin := vsched.Choose(n, "bin")
		part := []int{-24, -10, 0, 10, 24}[vsched.Choose(5, "part")]
		offset := (bin-n/2)*50 + part
		g.r.SetVFOOffset(offset)
		g.feed(70, bin)
		g.feed(20)
		sc.demod = nil
		for i := 0; i < 10; i++ {
			g.feed(1, bin)
			g.feed(1)
			g.feed(1, (bin+2)%n)
		}
		if len(sc.demod) != 30 {
			vsched.Fail("%d ticks", len(sc.demod))
		}
		for i, f := range sc.demod {
			if on := f.Values["state"] > 0; on != (i%3 == 0) {
				vsched.Fail("offset %d, signal on bin %d: state %v in step %d", offset, bin, on, i)
			}
		}
		if f := sc.spectral[len(sc.spectral)-1].FrequencyMarkers["signal_bin"]; f != float64(bin) {
			vsched.Fail("offset %d: the signal bin is shown as %v instead of %d", offset, f, bin)
		}
		if e := g.rec.events; len(e) != 1 || e[0].freq != center+offset {
			vsched.Fail("offset %d: %s", offset, str(e))
		}
		vsched.Outcome("%d", part)
		g.r.Stop()
	})
}

// --- C10 ---

func endToEndJobs() {
	prop := "C10"
	// spots returns the spots by callsign with their frequencies
	spots := func(events []event) map[string]int {
		res := map[string]int{}
		for _, e := range events {
			if e.kind == "spotted" {
				res[e.call] = e.freq
			}
		}
		return res
	}
	transmit := func(g *rig, dit int, texts map[int]string) {
		patterns := map[int][]bool{}
		n := 0
		for b, t := range texts {
			patterns[b] = keying(t, dit)
			n = max(n, len(patterns[b]))
		}
		var order []int
		for b := range texts {
			order = append(order, b)
		}
		sort.Ints(order)
		for i := 0; i < n; i++ {
			var on []int
			for _, b := range order {
				if i < len(patterns[b]) && patterns[b][i] {
					on = append(on, b)
				}
			}
			vsched.Quiet(func() { g.feed(1, on...) })
		}
		vsched.Quiet(func() { g.feed(80) })
	}
	text := strings.Repeat("cq de dl1abc dl1abc pse k ", 2)
	for part := 0; part < 4; part++ {
		part := part
		check(prop, fmt.Sprintf("one signal on each bin, part %d", part), 0, 0, func(c *mcrun.Ctx) {
			g := newRig(rx.StrainMode, 64)
			dit := []int{3, 2, 4, 5}[vsched.Choose(mcrun.Tier(c, 2, 4), "speed")]
			bin := vsched.Choose(16, "bin")*4 + part
			g.start()
			g.feed(20)
			transmit(g, dit, map[int]string{bin: "vvv vvv " + text})
			s := spots(g.rec.events)
			f, ok := s["DL1ABC"]
			if !ok || len(s) != 1 {
				vsched.Fail("signal on bin %d with %d frames per dit: spots %v: %s", bin, dit, s, g.rec.text())
			}
			if d := f - g.freq(bin); d < -25 || d > 25 {
				vsched.Fail("signal on %d is spotted on %d", g.freq(bin), f)
			}
			g.r.Stop()
			vsched.Outcome("dit %d", dit)
		})
	}
	check(prop, "two signals", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 64)
		choice := vsched.Choose(2, "random")
		rand.Next = func(n int) int { return choice * 40 % n }
		a := vsched.Choose(6, "first bin")*11 + 2
		b := (a + []int{2, 30, 3, 10}[vsched.Choose(mcrun.Tier(c, 2, 4), "distance")]) % 64
		g.start()
		g.feed(20)
		transmit(g, 3, map[int]string{a: "vvv vvv vvv " + text + text, b: "test test test " + strings.ReplaceAll(text+text, "dl1abc", "k9zz")})
		s := spots(g.rec.events)
		if len(s) != 2 || g.bin(s["DL1ABC"]) != a || g.bin(s["K9ZZ"]) != b {
			vsched.Fail("signals on bins %d and %d: spots %v: %s", a, b, s, g.rec.text())
		}
		g.r.Stop()
		vsched.Outcome("%d", b-a)
	})
	check(prop, "the callsign is the last word", 0, 0, func(c *mcrun.Ctx) {
		// of up to three signals, nothing else is keyed after it
		g := newRig(rx.StrainMode, 64)
		n := vsched.Choose(3, "signals") + 1
		choice := vsched.Choose(2, "random")
		dit := []int{3, 4, 5, 2}[vsched.Choose(mcrun.Tier(c, 2, 4), "speed")]
		same := vsched.Choose(2, "at the same time") == 1
		rand.Next = func(n int) int { return choice * 40 % n }
		bins := []int{20, 30, 45}[:n]
		calls := []string{"DL1ABC", "K9ZZ", "OH2AA"}[:n]
		texts := map[int]string{}
		for i, b := range bins {
			v := "vvv vvv vvv vvv vvv vvv "
			if !same {
				v = strings.Repeat("vvv ", 6+2*i)
			}
			call := strings.ToLower(calls[i])
			texts[b] = v + call + " " + call + " " + call
		}
		g.start()
		vsched.Quiet(func() {
			g.feed(20)
			g.feed(100*n, bins...)
		})
		transmit(g, dit, texts)
		vsched.Quiet(func() {
			for i := 0; i < 8; i++ {
				g.clk.add(time.Second)
				g.feed(30)
				second()
			}
		})
		s := spots(g.rec.events)
		for i, b := range bins {
			if len(s) != n || g.bin(s[calls[i]]) != b {
				vsched.Fail("signals on bins %v: spots %v: %s", bins, s, g.rec.text())
			}
		}
		g.r.Stop()
		vsched.Outcome("%d", n)
	})
	check(prop, "silence before and in between", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 64)
		g.start()
		zero := make([]float32, 2*g.n)
		k := []int{0, 1, 59, 60, 61, 100, 150}[vsched.Choose(7, "silent frames")]
		at := vsched.Choose(3, "when")
		silent := func() {
			for i := 0; i < k; i++ {
				g.r.IQData(g.rate, zero)
				vsched.WaitQuiescent()
			}
		}
		if at == 0 {
			silent()
		}
		g.feed(100)
		if at == 1 {
			silent()
			g.feed(60)
		}
		g.feed(100, 40)
		if at == 2 {
			silent()
			g.feed(60)
			g.clk.add(time.Second)
		}
		transmit(g, 3, map[int]string{40: "vvv vvv " + text})
		s := spots(g.rec.events)
		if len(s) != 1 || g.bin(s["DL1ABC"]) != 40 {
			vsched.Fail("%d frames of complete silence (%d): spots %v: %s", k, at, s, g.rec.text())
		}
		g.r.Stop()
		vsched.Outcome("ok")
	})
	check(prop, "damaged blocks", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 64)
		g.start()
		v := []float32{1, 1e10, 1e15, 1e20, math.MaxFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}[vsched.Choose(8, "value")]
		whole := vsched.Choose(2, "one sample, all samples") == 1
		k := []int{1, 3}[vsched.Choose(2, "blocks")]
		at := vsched.Choose(3, "when")
		damaged := func() {
			for i := 0; i < k; i++ {
				block := make([]float32, 2*g.n)
				for j := range block {
					if whole || j == 5 {
						block[j] = v
					}
				}
				g.r.IQData(g.rate, block)
				vsched.WaitQuiescent()
			}
		}
		g.feed(100)
		if at == 1 {
			g.feed(50, 40)
		}
		if at == 2 {
			g.feed(250, 40)
			if g.listening() != "[40]" {
				vsched.Fail("nobody listens")
			}
		}
		damaged()
		g.feed(200)
		g.feed(100, 40)
		transmit(g, 3, map[int]string{40: "vvv vvv vvv vvv " + text})
		s := spots(g.rec.events)
		if g.bin(s["DL1ABC"]) != 40 {
			vsched.Fail("%d blocks with %v (all samples: %t), afterwards %d s of good blocks: spots %v: %s", k, v, whole, len(text), s, g.rec.text())
		}
		g.r.Stop()
		vsched.Outcome("%v", v)
	})
	check(prop, "the center frequency changes", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 64)
		g.start()
		shift := []int{0, 50, 500, -1000, 100000}[vsched.Choose(5, "shift")]
		first := []int{0, 30, 100, 150, 700}[vsched.Choose(5, "after")]
		second := []int{20, 40, 44}[vsched.Choose(3, "second")]
		g.feed(20)
		n := 0
		g.feed(first, 40)
		g.r.SetCenterFrequency(center + shift)
		n = len(g.rec.events)
		vsched.WaitQuiescent()
		transmit(g, 3, map[int]string{second: "vvv vvv vvv vvv " + text})
		for _, e := range g.rec.events[n:] {
			if e.kind == "spotted" {
				if d := e.freq - g.freq(second) - shift; d < -25 || d > 25 {
					vsched.Fail("center frequency changed by %d: signal on %d is spotted on %d", shift, g.freq(second)+shift, e.freq)
				}
			}
		}
		if len(spots(g.rec.events[n:])) != 1 {
			vsched.Fail("center frequency changed by %d after %d frames: no spot: %s", shift, first, g.rec.text())
		}
		g.r.Stop()
		vsched.Outcome("%d", shift)
	})
	check(prop, "signals between the bins", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 64)
		sc := &testScope{}
		_ = sc
		g.start()
		hz := vsched.Choose(11, "part")*5 - 25
		bin := []int{7, 31, 32, 50}[vsched.Choose(4, "bin")]
		for i := 0; i < 200; i++ {
			g.r.IQData(g.rate, toneFrame(g.n, i%16, float64(bin)+float64(hz)/50))
			vsched.WaitQuiescent()
		}
		for _, f := range pairs(g.rec.events) {
			if d := f - g.freq(bin) - hz; d < -25 || d > 25 {
				vsched.Fail("signal on %d: listening on %d", g.freq(bin)+hz, f)
			}
		}
		if len(pairs(g.rec.events)) == 0 {
			vsched.Fail("signal on %d: nobody is listening", g.freq(bin)+hz)
		}
		g.r.Stop()
		vsched.Outcome("%d", hz)
	})
}

// toneFrame has a signal on a fraction of a bin.
func toneFrame(n, variant int, at float64) []float32 {
	key := fmt.Sprint("tone", n, variant, at)
	if f, ok := specials[key]; ok {
		return f
	}
	base := synth("weak noise", n, variant, func(b int) float64 { return 0.002 * (0.6 + float64(b*variant%8)/10) })
	res := append([]float32(nil), base...)
	for i := 0; i < n; i++ {
		w := 2 * math.Pi * (at - float64(n/2)) * float64(i) / float64(n)
		res[2*i] += float32(0.02 * math.Cos(w))
		res[2*i+1] += float32(0.02 * math.Sin(w))
	}
	specials[key] = res
	return res
}
