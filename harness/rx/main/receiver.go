package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	"github.com/ftl/sdrainer/zzverif/shim/rand"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

func receiverJobs() {
	lifecycleJobs()
	strainJobs()
}

// loudly is a frame with more of everything.
func loudly(frame []float32) []float32 {
	res := make([]float32, len(frame))
	for i, v := range frame {
		res[i] = 1000 * v
	}
	return res
}

// --- C06 ---

func lifecycleJobs() {
	prop := "C06"
	// a running receiver with a listener on bin 20 of 32
	running := func(mode rx.ReceiverMode) *rig {
		var g *rig
		vsched.Quiet(func() {
			g = newRig(mode, 32)
			g.start()
			if mode == rx.StrainMode {
				g.feed(100, 20)
			} else {
				g.r.SetVFOOffset(g.freq(20) - center)
				vsched.WaitQuiescent()
			}
		})
		if n := len(pairs(g.rec.events)); n != 1 {
			vsched.Fail("%d listeners active: %s", n, g.rec.text())
		}
		g.rec.yield = true
		return g
	}
	stopped := func(g *rig) {
		g.rec.after = true
		if a := pairs(g.rec.events); len(a) > 0 {
			vsched.Fail("active after the stop: %v", a)
		}
		vsched.WaitQuiescent()
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running after the stop: %v", l)
		}
	}
	for _, mode := range []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode} {
		mode := mode
		check(prop, "stop while data arrives/"+string(mode), 2, 3, func(c *mcrun.Ctx) {
			g := running(mode)
			t := vsched.GoNamed("radio", func() {
				g.send(20)
				g.send(20)
			})
			g.r.Stop()
			stopped(g)
			vsched.WaitDone(t)
			g.send(20)
			vsched.WaitQuiescent()
			vsched.Outcome("%d events", len(g.rec.events))
		})
		check(prop, "stop while the radio is tuned/"+string(mode), 2, 3, func(c *mcrun.Ctx) {
			g := running(mode)
			t := vsched.GoNamed("radio", func() {
				g.r.SetVFOOffset(100)
				g.r.SetCenterFrequency(center + 1000)
			})
			g.r.Stop()
			stopped(g)
			vsched.WaitDone(t)
			if f := g.r.CenterFrequency(); f != center+1000 {
				vsched.Fail("center frequency %d", f)
			}
			vsched.Outcome("%d events", len(g.rec.events))
		})
		check(prop, "two stops/"+string(mode), 2, 3, func(c *mcrun.Ctx) {
			g := running(mode)
			t := vsched.GoNamed("other", func() { g.r.Stop() })
			g.r.Stop()
			vsched.WaitDone(t)
			stopped(g)
			g.r.Stop()
			vsched.Outcome("%d events", len(g.rec.events))
		})
		check(prop, "restart/"+string(mode), 1, 2, func(c *mcrun.Ctx) {
			g := running(mode)
			t := vsched.GoNamed("radio", func() { g.send(20) })
			g.r.Stop()
			n := len(g.rec.events)
			if a := pairs(g.rec.events); len(a) > 0 {
				vsched.Fail("active after the stop: %v", a)
			}
			g.start()
			vsched.WaitDone(t)
			bin := []int{20, 10}[vsched.Choose(2, "signal")]
			vsched.Quiet(func() {
				if mode == rx.StrainMode {
					g.feed(100, bin)
				} else {
					g.r.SetVFOOffset(g.freq(bin) - center)
					vsched.WaitQuiescent()
				}
			})
			if a := pairs(g.rec.events[n:]); len(a) != 1 {
				vsched.Fail("%d listeners after the restart: %s", len(a), g.rec.text())
			}
			g.r.Stop()
			stopped(g)
			vsched.Outcome("%d events", len(g.rec.events))
		})
	}
	check(prop, "stop during the regular cleanup", 2, 3, func(c *mcrun.Ctx) {
		g := running(rx.StrainMode)
		g.clk.add(6 * time.Second)
		vsched.Advance(time.Second)
		t := vsched.GoNamed("radio", func() { g.send(20) })
		g.r.Stop()
		stopped(g)
		vsched.WaitDone(t)
		vsched.Advance(3 * time.Second)
		vsched.Outcome("%d events", len(g.rec.events))
	})
	check(prop, "stop while a listener times out", 2, 3, func(c *mcrun.Ctx) {
		g := running(rx.StrainMode)
		g.clk.add(time.Hour)
		t := vsched.GoNamed("radio", func() { g.send(20) })
		g.r.Stop()
		stopped(g)
		vsched.WaitDone(t)
		vsched.Outcome("%d events", len(g.rec.events))
	})
	check(prop, "stop while a text is decoded", 1, 2, func(c *mcrun.Ctx) {
		var g *rig
		vsched.Quiet(func() {
			g = newRig(rx.DecodeMode, 32)
			g.start()
			g.r.SetVFOOffset(g.freq(20) - center)
			keys := keying("e e1e e", 3)
			for i, s := range keys[:len(keys)-20] {
				if s {
					g.send(20)
				} else {
					g.send()
				}
				if i%20 == 0 {
					vsched.WaitQuiescent()
				}
			}
		})
		g.rec.yield = true
		for _, s := range []bool{false, false, false, false, false, false, false, false, true, true, true, false} {
			if s {
				g.send(20)
			} else {
				g.send()
			}
		}
		g.r.Stop()
		stopped(g)
		vsched.Outcome("%d events", len(g.rec.events))
	})
	check(prop, "settings from two sides", 2, 3, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 32)
		g.start()
		t := vsched.GoNamed("radio", func() {
			g.r.SetCenterFrequency(center + 100)
			if f := g.r.CenterFrequency(); f != center+100 && f != center+200 {
				vsched.Fail("center frequency %d", f)
			}
			g.send(20)
		})
		g.r.SetPeakThreshold(20)
		g.r.SetCenterFrequency(center + 200)
		if f := g.r.CenterFrequency(); f != center+100 && f != center+200 {
			vsched.Fail("center frequency %d", f)
		}
		vsched.WaitDone(t)
		g.r.Stop()
		stopped(g)
		vsched.Outcome("%d", g.r.CenterFrequency()-center)
	})
	// everything in any order
	names := []string{"start", "stop", "center frequency", "VFO", "data", "timeouts", "debounce", "other sample rate", "start with other parameters"}
	for _, mode := range []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode} {
		mode := mode
		check(prop, "all sequences/"+string(mode), 0, 0, func(c *mcrun.Ctx) {
			g := newRig(mode, 32)
			running, f := false, center
			hist := ""
			for i := 0; i < mcrun.Tier(c, 4, 5); i++ {
				k := vsched.Choose(len(names), "call")
				hist += names[k] + "; "
				switch k {
				case 0:
					g.start()
					running = true
				case 1:
					g.r.Stop()
					if a := pairs(g.rec.events); len(a) > 0 {
						vsched.Fail("active after the stop: %v", a)
					}
					if l := vsched.Live(); len(l) > 0 {
						vsched.Fail("still running after the stop: %v", l)
					}
					running = false
				case 2:
					f += 1000
					g.r.SetCenterFrequency(f)
				case 3:
					g.r.SetVFOOffset(100)
				case 4:
					g.feed(2, 20)
				case 5:
					g.r.SetSilenceTimeout(time.Minute)
					g.r.SetAttachmentTimeout(time.Minute)
				case 6:
					g.r.SetSignalDebounce(2)
				case 7:
					g.r.IQData(g.rate*2, frame(g.n, 0, 0.5))
					g.r.IQData(g.rate, frame(g.n*2, 0, 0.5))
					g.r.IQData(g.rate, nil)
				case 8:
					// without effect while it is running
					if !running {
						g.n = 48 - g.n
						g.rate = g.n * 50
						g.start()
						running = true
					} else {
						g.r.Start(g.rate*2, g.n)
						g.r.Start(g.rate, g.n*2)
					}
				}
				if got := g.r.CenterFrequency(); got != f {
					vsched.Fail("%s: center frequency %d instead of %d", hist, got, f)
				}
			}
			vsched.WaitQuiescent()
			a := pairs(g.rec.events)
			if !running && len(a) > 0 {
				vsched.Fail("%s: active although stopped: %v", hist, a)
			}
			g.r.Stop()
			stopped(g)
			vsched.Outcome("%d active", len(a))
		})
	}
	for _, mode := range []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode} {
		mode := mode
		check(prop, "restarts with other parameters/"+string(mode), 0, 0, func(c *mcrun.Ctx) {
			g := newRig(mode, 32)
			hist := ""
			for i := 0; i < mcrun.Tier(c, 3, 4); i++ {
				// frames of 20 ms, or twice as wide bins
				g.n = []int{32, 64, 16}[vsched.Choose(3, "block size")]
				width := []int{50, 100}[vsched.Choose(2, "sample rate")]
				g.rate = g.n * width
				bin := []int{5, 12}[vsched.Choose(2, "signal")]
				hist += fmt.Sprintf("bin %d of %d, %d Hz each; ", bin, g.n, width)
				want := center + (bin-g.n/2)*width
				g.start()
				if mode == rx.StrainMode {
					g.feed(100, bin)
				} else {
					g.r.SetVFOOffset(want - center)
					g.feed(10, bin)
				}
				a := pairs(g.rec.take())
				if len(a) != 1 {
					vsched.Fail("%s: %d listeners are active", hist, len(a))
				}
				for _, f := range a {
					if f < want-width/2 || f > want+width/2 {
						vsched.Fail("%s: the listener is active on %d, expected %d", hist, f, want)
					}
				}
				g.r.Stop()
				if e := g.rec.take(); len(e) != 1 || e[0].kind != "deactivated" {
					vsched.Fail("%s: reported at the stop: %s", hist, str(e))
				}
			}
			stopped(g)
			vsched.Outcome("ok")
		})
	}
	for _, mode := range []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode} {
		mode := mode
		long(prop, "many restarts/"+string(mode), func(c *mcrun.Ctx) {
			// the last one is like the first one
			g := newRig(mode, 32)
			cycles := mcrun.Tier(c, 300, 5000)
			pause := vsched.Choose(2, "pause") == 1
			vsched.Quiet(func() {
				for i := 0; i < cycles; i++ {
					bin := 5 + i%20
					g.start()
					if mode == rx.StrainMode {
						g.feed(100, bin)
					} else {
						g.r.SetVFOOffset(g.freq(bin) - center)
						g.feed(3, bin)
					}
					if e := g.rec.take(); len(e) != 1 || e[0].kind != "activated" || g.bin(e[0].freq) != bin {
						vsched.Fail("start %d, signal on bin %d: %s", i, bin, str(e))
					}
					g.r.Stop()
					if e := g.rec.take(); len(e) != 1 || e[0].kind != "deactivated" || g.bin(e[0].freq) != bin {
						vsched.Fail("stop %d, signal on bin %d: %s", i, bin, str(e))
					}
					if pause {
						g.clk.add(time.Minute)
						second()
					}
				}
			})
			stopped(g)
			vsched.Outcome("ok")
		})
	}
	for _, mode := range []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode} {
		mode := mode
		check(prop, "a restarted receiver is like a new one/"+string(mode), 0, 0, func(c *mcrun.Ctx) {
			// whatever was received before the restart makes no difference
			frames := []int{1, 30, 60, 99, 100, 101, 150}[vsched.Choose(7, "frames before")]
			before := [][]int{{}, {10}, {20}, {10, 20}}[vsched.Choose(4, "signals before")]
			queued := []int{0, 1, 40}[vsched.Choose(3, "frames that wait")]
			loud := vsched.Choose(2, "loud noise before") == 1
			size := []int{32, 64}[vsched.Choose(2, "block size before")]
			keying := iq.Keying("ee test de ", 3)
			hear := func(g *rig) string {
				g.n, g.rate, g.i = 32, 32*50, 0
				g.rec.take()
				res := ""
				os.OnStdout = func(b []byte) { res += fmt.Sprintf("%q; ", b) }
				defer func() { os.OnStdout = nil }()
				g.start()
				if mode == rx.DecodeMode {
					g.r.SetVFOOffset(g.freq(20) - center)
					vsched.WaitQuiescent()
				}
				for i := 0; i < 330; i++ {
					on := keying[i%len(keying)]
					if mode == rx.StrainMode {
						if i == 150 {
							g.r.SetVFOOffset(g.freq(20) - center)
						}
						on = i >= 20 && (i < 150 || on)
					}
					if on {
						g.feed(1, 20)
					} else {
						g.feed(1)
					}
					for _, e := range g.rec.take() {
						res += fmt.Sprintf("%d: %s %d; ", i, e.kind, e.freq)
					}
				}
				g.r.Stop()
				for _, e := range g.rec.take() {
					res += fmt.Sprintf("stop: %s %d; ", e.kind, e.freq)
				}
				return res
			}
			vsched.Quiet(func() {
				want := hear(newRig(mode, 32))
				g := newRig(mode, size)
				g.start()
				if mode == rx.DecodeMode {
					g.r.SetVFOOffset(g.freq(20) - center)
				}
				for i := 0; i < frames; i++ {
					if loud {
						g.i++
						g.r.IQData(g.rate, loudly(frame(g.n, g.i%16, 0.5, before...)))
						vsched.WaitQuiescent()
					} else {
						g.feed(1, before...)
					}
				}
				for i := 0; i < queued; i++ {
					g.send(before...)
				}
				g.r.Stop()
				vsched.WaitQuiescent()
				if got := hear(g); got != want {
					vsched.Fail("%d frames with signals on %v, %d waiting, loud noise: %t, block size %d, then a restart: %s instead of %s", frames, before, queued, loud, size, got, want)
				}
				stopped(g)
			})
			vsched.Outcome("ok")
		})
	}
	check(prop, "data is never waited for", 0, 1, func(c *mcrun.Ctx) {
		// the receiver is busy with a report, the radio goes on
		g := newRig(rx.StrainMode, 32)
		g.start()
		g.rec.hold = true
		vsched.Quiet(func() {
			for i := 0; i < 100; i++ {
				g.send(20)
				if i%50 == 49 {
					vsched.WaitQuiescent()
				}
			}
		})
		if !g.rec.held {
			vsched.Fail("no listener is activated")
		}
		begin := vsched.Now()
		for i := 0; i < 150; i++ {
			g.send(20)
		}
		if d := vsched.Now().Sub(begin); d > 0 {
			vsched.Fail("the radio had to wait for %v", d)
		}
		g.rec.release()
		vsched.WaitQuiescent()
		if a := pairs(g.rec.events); len(a) != 1 {
			vsched.Fail("active: %v", a)
		}
		g.r.Stop()
		stopped(g)
		vsched.Outcome("ok")
	})
	settings := []string{"center frequency", "attachment timeout", "silence timeout", "threshold", "scope", "VFO", "stop"}
	check(prop, "settings while a report takes a long time", 0, 1, func(c *mcrun.Ctx) {
		op := vsched.Choose(len(settings), "setting")
		pause := []time.Duration{time.Millisecond, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		g := newRig(rx.StrainMode, 32)
		g.start()
		g.rec.hold = true
		vsched.Quiet(func() {
			for i := 0; i < 100; i++ {
				g.send(20)
				if i%50 == 49 {
					vsched.WaitQuiescent()
				}
			}
		})
		if !g.rec.held {
			vsched.Fail("no listener is activated")
		}
		shown := &testScope{}
		t := vsched.GoNamed("setting", func() {
			switch op {
			case 0:
				g.r.SetCenterFrequency(center + 1000)
				if f := g.r.CenterFrequency(); f != center+1000 {
					vsched.Fail("center frequency %d after %v", f, pause)
				}
			case 1:
				g.r.SetAttachmentTimeout(5 * time.Second)
			case 2:
				g.r.SetSilenceTimeout(5 * time.Second)
			case 3:
				g.r.SetPeakThreshold(200)
			case 4:
				g.r.SetScope(shown)
			case 5:
				g.r.SetVFOOffset(g.freq(20) - center)
			case 6:
				g.r.Stop()
			}
		})
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			vsched.WaitQuiescent()
		})
		g.rec.release()
		vsched.WaitDone(t)
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			want := "[20]"
			switch op {
			case 0, 6:
				want = "[]"
			case 1, 2:
				g.clk.add(6 * time.Second)
				g.feed(1, 20)
				want = "[]"
			case 3:
				g.feed(100, 10, 20)
			case 4:
				g.feed(100, 20)
				if len(shown.spectral) == 0 {
					vsched.Fail("nothing is shown after %v", pause)
				}
			}
			if got := g.listening(); got != want {
				vsched.Fail("%s during a report of %v: listening to %s, expected %s", settings[op], pause, got, want)
			}
			g.r.Stop()
			stopped(g)
		})
		vsched.Outcome("%s", settings[op])
	})
	check(prop, "more data than can be processed", 0, 1, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 32)
		g.start()
		for i := 0; i < 150; i++ {
			g.send(20)
		}
		vsched.WaitQuiescent()
		g.feed(100, 20)
		vsched.WaitQuiescent()
		if a := pairs(g.rec.events); len(a) != 1 {
			vsched.Fail("active: %v", a)
		}
		g.r.Stop()
		stopped(g)
		vsched.Outcome("ok")
	})
}

// --- C07 ---

type mpeak struct {
	state string
	since time.Time
	last  time.Time // attached
	keyed bool      // the signal was switched while the listener was attached
	on    bool
}

// strain is what is expected of a receiver in strain mode.
type strain struct {
	g     *rig
	peaks map[int]*mpeak
	hist  string
}

type phase struct {
	tones []int
	pass  time.Duration
}

type timeouts struct {
	name                string
	silence, attachment time.Duration
}

// step lets the time pass, sends the tones for one evaluation of the spectrum and compares the listeners.
// It returns the number of listeners and of signals nobody listens to.
func (w *strain) step(cf timeouts, s phase) (int, int) {
	g := w.g
	w.hist += fmt.Sprintf("%v after %v; ", s.tones, s.pass)
	g.clk.add(s.pass)
	second()
	now := g.clk.now
	for b, p := range w.peaks {
		if p.state != "active" && now.Sub(p.since) >= 2*time.Minute {
			delete(w.peaks, b)
		}
	}
	g.feed(100, s.tones...)
	events := g.rec.take()
	// who had to leave?
	var gone, want []string
	for b, p := range w.peaks {
		if p.state != "active" {
			continue
		}
		if on := slices.Contains(s.tones, b); on != p.on {
			p.on, p.keyed = on, true
		}
		// a keyed signal is decoded to something, it is not silent
		silent := now.Sub(p.last) > cf.silence
		if p.keyed {
			silent = silent && slices.ContainsFunc(events, func(e event) bool { return e.kind == "deactivated" && g.bin(e.freq) == b })
		}
		if silent || now.Sub(p.last) > cf.attachment {
			p.state = "inactive"
			want = append(want, fmt.Sprint(b))
		}
	}
	added := -1
	for _, e := range events {
		b := g.bin(e.freq)
		switch e.kind {
		case "deactivated":
			gone = append(gone, fmt.Sprint(b))
		case "activated":
			if added >= 0 {
				vsched.Fail("%s: two activations: %s", w.hist, str(events))
			}
			added = b
		default:
			vsched.Fail("%s: %s", w.hist, str(events))
		}
	}
	sort.Strings(gone)
	sort.Strings(want)
	if strings.Join(gone, " ") != strings.Join(want, " ") {
		vsched.Fail("%s: deactivated on bins %v, expected %v", w.hist, gone, want)
	}
	// who is new?
	fresh := map[int]bool{}
	for _, b := range s.tones {
		if p := w.peaks[b]; p == nil || p.state == "new" {
			w.peaks[b] = &mpeak{state: "new", since: now}
		}
	}
	for b, p := range w.peaks {
		if p.state == "new" {
			fresh[b] = true
		}
	}
	if added < 0 && len(fresh) > 0 {
		vsched.Fail("%s: nobody listens to one of %v", w.hist, fresh)
	}
	if added >= 0 {
		if !fresh[added] {
			vsched.Fail("%s: listening to bin %d, expected one of %v", w.hist, added, fresh)
		}
		w.peaks[added].state = "active"
		w.peaks[added].last, w.peaks[added].on, w.peaks[added].keyed = now, slices.Contains(s.tones, added), false
	}
	n := 0
	for _, p := range w.peaks {
		if p.state == "active" {
			n++
		}
	}
	return n, len(fresh)
}

func strainJobs() {
	prop := "C07"
	tones := [][]int{{}, {5}, {20}, {5, 20}, {5, 8, 20}}
	passes := []time.Duration{0, 31 * time.Second, 121 * time.Second, 7 * time.Second}
	configs := []timeouts{
		{"silence after 10 s", 10 * time.Second, 5 * time.Minute},
		{"attached for 30 s", 10 * time.Minute, 30 * time.Second},
	}
	check(prop, "settings that do not change", 0, 0, func(c *mcrun.Ctx) {
		// the center frequency, the width of the edge etc. are set again while there are listeners
		g := newRig(rx.StrainMode, 32)
		rand.Next = func(n int) int { return 0 }
		g.r.SetEdgeWidth(2)
		g.r.SetPeakThreshold(20)
		g.r.SetSilenceTimeout(time.Hour)
		g.r.SetAttachmentTimeout(time.Hour)
		g.start()
		what := vsched.Choose(6, "setting")
		at := []int{1, 50, 99, 100, 101, 150, 199, 200, 250}[vsched.Choose(9, "frame")]
		again := vsched.Choose(2, "again and again") == 1
		vsched.Quiet(func() {
			for i := 1; i <= 700; i++ {
				g.feed(1, 10, 20)
				if i == at || again && i > at && i%7 == 0 {
					switch what {
					case 0:
						g.r.SetCenterFrequency(center)
					case 1:
						g.r.SetEdgeWidth(2)
					case 2:
						g.r.SetPeakThreshold(20)
					case 3:
						g.r.SetSilenceTimeout(time.Hour)
					case 4:
						g.r.SetAttachmentTimeout(time.Hour)
					case 5:
						g.r.SetSignalDebounce(1)
					}
					vsched.WaitQuiescent()
				}
			}
		})
		if e := g.rec.events; len(e) != 2 || g.listening() != "[10 20]" {
			vsched.Fail("setting %d again after frame %d (again: %t): %s", what, at, again, str(e))
		}
		g.r.Stop()
		vsched.Outcome("ok")
	})
	for _, cf := range configs {
		for first := 1; first < len(tones); first++ {
			cf, first := cf, first
			check(prop, fmt.Sprintf("phases/%s, tones %v first", cf.name, tones[first]), 0, 0, func(c *mcrun.Ctx) {
				g := newRig(rx.StrainMode, 32)
				g.r.SetSilenceTimeout(cf.silence)
				g.r.SetAttachmentTimeout(cf.attachment)
				g.start()
				choice := 0
				rand.Next = func(n int) int { return choice * 20 % n }
				w := &strain{g: g, peaks: map[int]*mpeak{}}
				for i := 0; i < mcrun.Tier(c, 3, 4); i++ {
					var s phase
					s.tones = tones[first]
					if i > 0 {
						s.tones = tones[vsched.Choose(len(tones), "tones")]
						s.pass = passes[vsched.Choose(mcrun.Tier(c, 3, 4), "pause")]
					}
					if i > 0 || len(s.tones) > 1 {
						choice = vsched.Choose(2, "random")
					}
					n, fresh := w.step(cf, s)
					vsched.Outcome("%d active, %d new", n, fresh)
				}
				g.r.Stop()
			})
		}
	}
	for _, cf := range configs {
		for _, pass := range passes[:3] {
			cf, pass := cf, pass
			check(prop, fmt.Sprintf("repeated phases/%s, first pause %v", cf.name, pass), 0, 0, func(c *mcrun.Ctx) {
				// nothing wears out, there is always a free listener
				g := newRig(rx.StrainMode, 32)
				g.r.SetSilenceTimeout(cf.silence)
				g.r.SetAttachmentTimeout(cf.attachment)
				choice := vsched.Choose(mcrun.Tier(c, 1, 2), "random")
				rand.Next = func(n int) int { return choice * 20 % n }
				w := &strain{g: g, peaks: map[int]*mpeak{}}
				pattern := []phase{{tones[4-vsched.Choose(mcrun.Tier(c, 2, 4), "first tones")], pass}}
				for n := mcrun.Tier(c, 2, 3); len(pattern) < n; {
					k := vsched.Choose(mcrun.Tier(c, 3, len(tones))+1, "tones")
					if k == mcrun.Tier(c, 3, len(tones)) {
						break
					}
					pattern = append(pattern, phase{tones[k], passes[vsched.Choose(3, "pause")]})
				}
				vsched.Quiet(func() {
					g.start()
					for i := 0; i < 70/len(pattern); i++ {
						w.hist = fmt.Sprintf("round %d: ", i)
						for _, s := range pattern {
							w.step(cf, s)
						}
					}
					g.r.Stop()
				})
				vsched.Outcome("ok")
			})
		}
	}
	// a listener stays as long as there is something to hear, but not too long
	check(prop, "silence after text", 0, 0, func(c *mcrun.Ctx) {
		var g *rig
		vsched.Quiet(func() {
			g = newRig(rx.StrainMode, 32)
			g.r.SetSilenceTimeout(10 * time.Second)
			g.r.SetAttachmentTimeout(30 * time.Second)
			g.start()
			g.feed(100, 20)
		})
		attached, write := g.clk.now, g.clk.now
		if n := len(pairs(g.rec.events)); n != 1 {
			vsched.Fail("%d listeners active: %s", n, g.rec.text())
		}
		hist := ""
		g.feed(30) // ends the tone
		for i := 0; i < mcrun.Tier(c, 4, 6); i++ {
			pause := []time.Duration{9 * time.Second, 10 * time.Second, 11 * time.Second}[vsched.Choose(3, "pause")]
			keyed := vsched.Choose(2, "text") == 1
			hist += fmt.Sprintf("%v; ", pause)
			g.clk.add(pause)
			g.feed(3)
			if g.clk.now.Sub(attached) > 30*time.Second || g.clk.now.Sub(write) > 10*time.Second {
				if len(pairs(g.rec.events)) != 0 {
					vsched.Fail("%s: still listening, attached for %v, silent for %v", hist, g.clk.now.Sub(attached), g.clk.now.Sub(write))
				}
				vsched.Outcome("released after %v", g.clk.now.Sub(attached))
				return
			}
			if len(pairs(g.rec.events)) != 1 {
				vsched.Fail("%s: not listening anymore, attached for %v, silent for %v", hist, g.clk.now.Sub(attached), g.clk.now.Sub(write))
			}
			if keyed {
				hist += "text; "
				write = g.clk.now
				for j, s := range keying("e e", 3) {
					if s {
						g.send(20)
					} else {
						g.send()
					}
					if j%20 == 19 {
						vsched.WaitQuiescent()
					}
				}
				g.feed(30)
			}
		}
		vsched.Outcome("listening")
	})
	// a strong signal covers several bins, only the strongest one matters
	check(prop, "wide signals", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 32)
		g.start()
		from := []int{0, 10, 27}[vsched.Choose(3, "position")]
		width := []int{1, 2, 3, 5}[vsched.Choose(4, "width")]
		listening := map[int]bool{}
		hist := ""
		for i := 0; i < mcrun.Tier(c, 2, 3); i++ {
			strongest := from + vsched.Choose(width, "strongest bin")
			wide := vsched.Choose(2, "wide") == 1
			hist += fmt.Sprintf("%d of %d-%d, wide %v; ", strongest, from, from+width-1, wide)
			for j := 0; j < 100; j++ {
				g.r.IQData(g.rate, synth(fmt.Sprint("wide", from, width, strongest, wide), g.n, j%16, func(b int) float64 {
					switch {
					case b == strongest:
						return 0.4
					case wide && from <= b && b < from+width:
						return 0.1
					}
					return 0.0001
				}))
				if j%50 == 49 {
					vsched.WaitQuiescent()
				}
			}
			events := g.rec.take()
			switch {
			case listening[strongest]:
				if len(events) != 0 {
					vsched.Fail("%s: there is a listener already: %s", hist, str(events))
				}
			default:
				if len(events) != 1 || events[0].kind != "activated" || g.bin(events[0].freq) != strongest {
					vsched.Fail("%s: expected a listener on bin %d: %s", hist, strongest, str(events))
				}
				listening[strongest] = true
			}
		}
		vsched.Outcome("%d listeners", len(listening))
	})
	check(prop, "all listeners busy", 0, 0, func(c *mcrun.Ctx) {
		// what happened while there was no listener left does not matter afterwards
		g := newRig(rx.StrainMode, 128)
		var tones []int
		for i := 0; i < 30; i++ {
			tones = append(tones, 30+3*i)
		}
		early := vsched.Choose(2, "early signal") == 1
		rounds := []int{1, 3, 40}[vsched.Choose(mcrun.Tier(c, 2, 3), "rounds")]
		late := []int{20, 127}[vsched.Choose(mcrun.Tier(c, 1, 2), "late signal")]
		cleanups := []int{125, 0, 1}[vsched.Choose(mcrun.Tier(c, 2, 3), "seconds")]
		tick := vsched.Choose(2, "cleanup after the timeout") == 1
		shown := vsched.Choose(mcrun.Tier(c, 1, 2), "scope") == 1
		hist := fmt.Sprintf("early signal %v, %d rounds, then bin %d, %d s later, cleanup %v, scope %v", early, rounds, late, cleanups, tick, shown)
		vsched.Quiet(func() {
			if shown {
				g.r.SetScope(&testScope{})
			}
			g.r.SetSilenceTimeout(time.Hour)
			g.r.SetAttachmentTimeout(time.Hour)
			g.start()
			// the one on bin 123 has no listener and is gone when they are all busy
			rand.Next = func(n int) int { return 0 }
			for i := range tones {
				present := tones[:i+1]
				if early && i == 28 {
					present = append(append([]int(nil), tones[:i+1]...), 123)
				}
				g.feed(100, present...)
				if n := len(pairs(g.rec.events)); n != i+1 {
					vsched.Fail("%s: %d listeners after %d rounds", hist, n, i+1)
				}
			}
			if slices.Contains(strings.Fields(g.listening()), "123]") {
				vsched.Fail("%s: listening on %s", hist, g.listening())
			}
			// all the listeners are busy, a strong signal on another bin comes and goes
			g.feed(100*rounds, append([]int{late}, tones...)...)
			if n := len(pairs(g.rec.events)); n != 30 {
				vsched.Fail("%s: %d listeners", hist, n)
			}
			for i := 0; i < cleanups; i++ {
				g.clk.add(time.Second)
				second()
			}
			g.rec.take()
			// they all end at once and nobody transmits anymore
			g.clk.add(61 * time.Minute)
			g.feed(1)
			if e := g.rec.take(); len(e) != 30 {
				vsched.Fail("%s: after the timeout: %s", hist, str(e))
			}
			if tick {
				second() // there is nothing left in the table of signals
			}
			g.feed(300)
			for _, e := range g.rec.take() {
				if b := g.bin(e.freq); e.kind == "activated" && (tick || cleanups == 125 || b != 123) {
					vsched.Fail("%s: listening on bin %d, there is no signal", hist, b)
				}
			}
			g.r.Stop()
		})
		vsched.Outcome("ok")
	})
	check(prop, "more signals than listeners", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 128)
		g.r.SetSilenceTimeout(time.Hour)
		g.r.SetAttachmentTimeout(time.Hour)
		g.start()
		var tones []int
		for i := 0; i < 40; i++ {
			tones = append(tones, 26+2*i)
		}
		for i := 0; i < 33; i++ {
			g.feed(100, tones...)
			if n := len(pairs(g.rec.events)); n != min(i+1, 30) {
				vsched.Fail("%d listeners after %d rounds", n, i+1)
			}
		}
		// a signal that is gone before there is a listener for it
		g.feed(100*vsched.Choose(3, "rounds"), append([]int{20}, tones...)...)
		if n := len(pairs(g.rec.events)); n != 30 {
			vsched.Fail("%d listeners", n)
		}
		at := []int{1, 37, 98, 99}[vsched.Choose(4, "frame of the timeout")]
		g.feed(at-1, tones...)
		g.clk.add(61 * time.Minute)
		g.feed(1, tones...)
		if n := len(pairs(g.rec.events)); n != 0 {
			vsched.Fail("%d listeners after the timeout in frame %d", n, at)
		}
		g.feed(99-at, tones...)
		for i := 0; i < 3; i++ {
			if n := len(pairs(g.rec.events)); n != i {
				vsched.Fail("%d listeners %d rounds after the timeout in frame %d", n, i, at)
			}
			g.feed(1, tones...)
			active := pairs(g.rec.events)
			if n := len(active); n != i+1 {
				vsched.Fail("%d listeners %d rounds after the timeout in frame %d", n, i+1, at)
			}
			for l, f := range active {
				if !slices.Contains(tones, g.bin(f)) {
					vsched.Fail("listener %s is on %d, there is no signal", l, f)
				}
			}
			g.feed(99, tones...)
		}
		g.r.Stop()
		if n := len(pairs(g.rec.events)); n != 0 {
			vsched.Fail("%d listeners after the stop", n)
		}
		vsched.Outcome("ok")
	})
}
