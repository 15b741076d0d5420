package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// --- C29: reception ---

func (b *bench) limits(lo, hi int) { b.dev.MinIFFrequency, b.dev.MaxIFFrequency = lo, hi }

func receptionJobs() {
	prop := "C29"
	for _, dit := range []int{4, 5} {
		dit := dit
		check(prop, fmt.Sprintf("a callsign on each frequency, %d blocks per dit", dit), 0, 0, func(c *mcrun.Ctx) {
			bin := []int{256, 20, 100, 255, 257, 300, 492}[vsched.Choose(7, "bin")]
			limit := []int{24000, 48000, 0, 96000, 23000, 78125}[vsched.Choose(mcrun.Tier(c, 2, 6), "limits")]
			b := open(0, rx.StrainMode, nil, func(b *bench) { b.limits(-limit, limit) })
			vsched.Quiet(func() {
				b.dds(0, center)
				b.dev.SetConnected(true)
				b.feed(100)
				b.key(qso, dit, bin)
				b.feed(100)
			})
			b.checkSpots(fmt.Sprintf("signal on bin %d, IF limits %d", bin, limit), "DL1ABC", freqOf(bin))
			if s := b.iqState(); s != "on" {
				vsched.Fail("IQ data is %s", s)
			}
			b.finish()
			vsched.Outcome("ok")
		})
	}
	check(prop, "devices with other limits", 0, 0, func(c *mcrun.Ctx) {
		// there is less noise beyond the limits, and another device is there after a lost connection
		limits := []int{24000, 20000, 12000, 6000}
		first := limits[vsched.Choose(4, "first limit")]
		second := limits[vsched.Choose(4, "second limit")]
		times := vsched.Choose(mcrun.Tier(c, 1, 2), "times") + 1
		bin := []int{256, 310, 200}[vsched.Choose(mcrun.Tier(c, 2, 3), "bin")]
		dev := func(b *bench, limit int) {
			b.limits(-limit, limit)
			b.edge = (24000 - limit) * block / rate
		}
		b := open(0, rx.StrainMode, nil, func(b *bench) { dev(b, first) })
		vsched.Quiet(func() {
			b.dds(0, center)
			b.dev.SetConnected(true)
			b.feed(100)
			for i := 0; i < times; i++ {
				b.dev.SetConnected(false)
				vsched.WaitQuiescent()
				dev(b, second)
				b.dev.SetConnected(true)
				vsched.WaitQuiescent()
			}
			b.feed(200)
			b.key(qso, 4, bin)
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("signal on bin %d, IF limits %d, then %d", bin, first, second), "DL1ABC", freqOf(bin))
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "the center frequency moves", 0, 0, func(c *mcrun.Ctx) {
		when := vsched.Choose(4, "when")
		by := []int{5000, 7000000, 10482530123, 0, -12000}[vsched.Choose(mcrun.Tier(c, 3, 5), "by")]
		bin := []int{200, 300}[vsched.Choose(2, "bin")]
		trx := when % 2
		if c.Thorough {
			trx = vsched.Choose(2, "trx")
		}
		b := open(trx, rx.StrainMode, nil, nil)
		vsched.Quiet(func() {
			move := func(i int) {
				if i == when {
					b.dds(trx, center+by)
					b.dds(1-trx, center-77777)
					b.vfo(1-trx, orig.VFOA, 100)
				}
			}
			b.dds(trx, center)
			move(0)
			b.dev.SetConnected(true)
			move(1)
			b.feed(100)
			move(2)
			b.feed(100, bin)
			move(3)
			b.feed(100)
			b.key(qso, 4, bin)
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("center moved by %d", by), "DL1ABC", freqOf(bin)+float64(by))
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "strange messages in between", 0, 0, func(c *mcrun.Ctx) {
		// they belong to another TRX, or have another rate or size
		kind := vsched.Choose(8, "kind")
		every := []int{1, 40, 5}[vsched.Choose(mcrun.Tier(c, 2, 3), "every")]
		b := open(0, rx.StrainMode, nil, nil)
		loud := message(iq.Frame(block, 0, 100), iq.Frame(block, 1, 100), iq.Frame(block, 2, 100), iq.Frame(block, 3, 100))
		n := 0
		vsched.Quiet(func() {
			b.dds(0, center)
			b.dev.SetConnected(true)
			b.feed(100)
			for _, on := range iq.Keying(qso, 4) {
				if on {
					b.feed(1, 200)
				} else {
					b.feed(1)
				}
				n++
				if n%every != 0 {
					continue
				}
				switch kind {
				case 0:
					b.data(1, rate, loud)
				case 1:
					b.data(0, 96000, loud)
				case 2:
					b.data(0, rate, nil)
				case 3:
					b.data(0, rate, loud[:1])
				case 4:
					b.data(0, rate, loud[:4095])
				case 5:
					b.data(0, rate, loud[:1024])
				case 6:
					b.data(0, rate, append(append([]float32(nil), loud...), loud...))
				case 7:
					b.data(0, 0, loud)
				}
			}
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("message %d after every %d blocks", kind, every), "DL1ABC", freqOf(200))
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "the text on the VFO frequency", 0, 0, func(c *mcrun.Ctx) {
		// in decode mode, for all orders of center frequency, VFO, and connect
		order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vsched.Choose(6, "order")]
		bin := []int{256, 200, 301}[vsched.Choose(3, "bin")]
		other := vsched.Choose(4, "other")
		trx := other % 2
		if c.Thorough {
			trx = vsched.Choose(2, "trx")
		}
		b := open(trx, rx.DecodeMode, nil, nil)
		vsched.Quiet(func() {
			for _, o := range order {
				switch o {
				case 0:
					b.dds(trx, center)
				case 1:
					switch other {
					case 1:
						b.vfo(trx, orig.VFOA, -7000)
						b.vfo(trx, orig.VFOA, 7000)
					case 2:
						b.vfo(trx, orig.VFOB, 7000)
					}
					b.vfo(trx, orig.VFOA, int(freqOf(bin))-center)
					switch other {
					case 2:
						b.vfo(trx, orig.VFOB, 9000)
					case 3:
						b.vfo(1-trx, orig.VFOA, 9000)
						b.dds(1-trx, 14000000)
					}
				case 2:
					b.dev.SetConnected(true)
				}
			}
			b.feed(100)
			b.key("vvv vvv", 4, bin)
			b.feed(40)
			b.key("paris k", 4, bin)
			b.feed(100)
		})
		if got := strings.TrimSpace(b.out.String()); !strings.HasSuffix(got, "vvv paris k") {
			vsched.Fail("order %v, bin %d, other %d: %q", order, bin, other, got)
		}
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "attempts to connect", 0, 0, func(c *mcrun.Ctx) {
		b := open(vsched.Choose(2, "trx"), []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode}[vsched.Choose(2, "mode")], nil, nil)
		if b.dev.Retry < time.Millisecond || b.dev.Retry > time.Minute {
			vsched.Fail("when the device is not there, it is looked for again after %v", b.dev.Retry)
		}
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "tuned by something else", 0, 0, func(c *mcrun.Ctx) {
		// the VFO of this TRX is not known (yet)
		mode := []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode}[vsched.Choose(2, "mode")]
		when := vsched.Choose(3, "when")
		other := vsched.Choose(3, "other")
		again := vsched.Choose(2, "known later") == 1
		bin := []int{200, 300}[vsched.Choose(2, "bin")]
		b := open(0, mode, nil, nil)
		offset := int(freqOf(bin)) - center
		tune := func(i int) {
			if i != when {
				return
			}
			switch other {
			case 0:
				b.vfo(0, orig.VFOB, offset)
			case 1:
				b.vfo(1, orig.VFOA, offset)
			case 2:
				b.vfo(1, orig.VFOA, offset)
				b.vfo(0, orig.VFOB, offset)
			}
		}
		text := ""
		vsched.Quiet(func() {
			b.dds(0, center)
			tune(0)
			b.dev.SetConnected(true)
			tune(1)
			b.feed(100)
			b.feed(110, bin)
			b.feed(20)
			tune(2)
			b.key("vvv paris k", 4, bin)
			b.feed(100)
			text = b.out.String()
			if again {
				b.vfo(0, orig.VFOA, offset)
				b.key("vvv vvv", 4, bin)
				b.feed(40)
				b.key("paris k", 4, bin)
				b.feed(100)
			}
		})
		if strings.TrimSpace(text) != "" {
			vsched.Fail("mode %s, other %d at %d: the receiver is not tuned, but %q is printed", mode, other, when, text)
		}
		if again && !strings.HasSuffix(strings.TrimSpace(b.out.String()), "vvv paris k") {
			vsched.Fail("mode %s, other %d at %d: the receiver is tuned to the signal, %q", mode, other, when, b.out.String())
		}
		b.finish()
		vsched.Outcome("%s", mode)
	})
	check(prop, "the text on the VFO frequency in strain mode", 0, 0, func(c *mcrun.Ctx) {
		// the VFO is tuned to a signal that has a listener, whatever it was tuned to before
		bins := []int{200, 301}
		before := vsched.Choose(4, "before the listener")
		again := vsched.Choose(3, "afterwards")
		trx := vsched.Choose(2, "trx")
		b := open(trx, rx.StrainMode, nil, nil)
		var text string
		vsched.Quiet(func() {
			b.dds(trx, center)
			tune := func(bin int) { b.vfo(trx, orig.VFOA, int(freqOf(bin))-center) }
			switch before {
			case 1:
				tune(bins[0])
			case 2:
				tune(bins[1])
			case 3:
				tune(bins[0])
				tune(bins[0])
			}
			b.dev.SetConnected(true)
			if before == 3 {
				tune(bins[0])
			}
			b.feed(100)
			b.key("vvv vvv", 4, bins[0])
			switch again {
			case 0:
				tune(bins[0])
			case 1:
				tune(bins[1])
				tune(bins[0])
			case 2:
				tune(bins[0])
				tune(bins[0])
			}
			b.feed(40)
			b.out.Reset()
			b.key("paris k", 4, bins[0])
			b.feed(100)
			text = strings.TrimSpace(b.out.String())
			tune(bins[1])
			b.feed(40)
			b.out.Reset()
			b.key("paris k", 4, bins[0])
			b.feed(100)
		})
		if !strings.HasSuffix(text, "paris k") {
			vsched.Fail("before %d, again %d: text %q", before, again, text)
		}
		if got := strings.TrimSpace(b.out.String()); got != "" {
			vsched.Fail("before %d, again %d: text %q of another frequency", before, again, got)
		}
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "the connection is lost for a while", 0, 0, func(c *mcrun.Ctx) {
		mode := []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode}[vsched.Choose(2, "mode")]
		moved := vsched.Choose(2, "moved")
		times := vsched.Choose(2, "times") + 1
		lost := []time.Duration{10 * time.Second, 30 * time.Second}[vsched.Choose(2, "lost for")]
		b := open(0, mode, nil, nil)
		vsched.Quiet(func() {
			b.dev.SetConnected(true)
			for i := 0; i < times; i++ {
				b.dds(0, center)
				b.vfo(0, orig.VFOA, int(freqOf(150))-center)
				b.feed(100)
				b.key("vvv", 4, 150)
				b.dev.SetConnected(false)
				vsched.Advance(lost)
				b.dev.SetConnected(true)
				if lost > 20*time.Second { // the listener times out, its peak is available again after a while
					b.feed(4)
					vsched.Advance(125 * time.Second)
				}
			}
			bin := 150
			if moved == 1 {
				bin = 300
				b.vfo(0, orig.VFOA, int(freqOf(bin))-center)
			}
			b.feed(100)
			b.key("vvv vvv", 4, bin)
			b.feed(100)
			b.out.Reset()
			b.key(qso, 4, bin)
			b.feed(100)
			if mode == rx.DecodeMode && !strings.Contains(b.out.String(), "dl1abc dl1abc k") {
				vsched.Fail("moved %d: text %q", moved, b.out.String())
			}
			if mode == rx.StrainMode {
				b.checkSpots("after the connection was lost", "DL1ABC", freqOf(bin))
			}
		})
		if s := b.iqState(); s != "on" {
			vsched.Fail("IQ data is %s", s)
		}
		if n := b.iqCount(); n != times+1 {
			vsched.Fail("IQ data started %d times", n)
		}
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "the connection is lost again and again", 0, 0, func(c *mcrun.Ctx) {
		times := mcrun.Tier(c, 40, 400)
		data := vsched.Choose(2, "data in between")
		b := open(0, rx.StrainMode, nil, nil)
		vsched.Quiet(func() {
			b.dev.SetConnected(true)
			b.dds(0, center)
			for i := 0; i < times; i++ {
				b.feed(data * 3)
				b.dev.SetConnected(false)
				vsched.Advance(3 * time.Second)
				if s := b.iqCount(); s != i+1 {
					vsched.Fail("connection %d: IQ data started %d times", i, s)
				}
				b.dev.SetConnected(true)
			}
			b.feed(100)
			b.key("vvv vvv "+qso, 4, 300)
			b.feed(100)
			b.checkSpots("after the connection was lost", "DL1ABC", freqOf(300))
		})
		if s := b.iqState(); s != "on" {
			vsched.Fail("IQ data is %s", s)
		}
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "two callsigns", 0, 0, func(c *mcrun.Ctx) {
		x := []int{100, 255, 300}[vsched.Choose(mcrun.Tier(c, 2, 3), "first")]
		y := x + []int{-20, 12, 100}[vsched.Choose(mcrun.Tier(c, 2, 3), "second")]
		b := open(0, rx.StrainMode, nil, nil)
		vsched.Quiet(func() {
			b.dds(0, center)
			b.dev.SetConnected(true)
			b.feed(100)
			first, second := iq.Keying("vvv vvv vvv "+qso, 4), iq.Keying("vvv vvv vvv "+strings.ReplaceAll(qso, "dl1abc", "k9zz"), 4)
			for i := 0; i < max(len(first), len(second)); i++ {
				var bins []int
				if i < len(first) && first[i] {
					bins = append(bins, x)
				}
				if i < len(second) && second[i] {
					bins = append(bins, y)
				}
				b.feed(1, bins...)
			}
			b.feed(100)
		})
		seen := map[string]bool{}
		for _, s := range b.sp.spots {
			seen[s.call] = true
			want := map[string]int{"DL1ABC": x, "K9ZZ": y}[s.call]
			if math.Abs(s.freq-freqOf(want)) > binHz/2+1 {
				vsched.Fail("bins %d and %d: %+v", x, y, s)
			}
		}
		if len(seen) != 2 {
			vsched.Fail("bins %d and %d: %+v", x, y, b.sp.spots)
		}
		b.finish()
		vsched.Outcome("ok")
	})
}

// --- C29: settings ---

type settings struct {
	threshold, debounce int
	silence, attachment time.Duration
}

var floor float64

// noiseLevel measures the noise floor, 15 dB below the default threshold.
func noiseLevel() {
	vsched.Explore(vsched.Config{MaxSteps: 2000000, Deadline: time.Now().Add(time.Minute)}, func() {
		vsched.Quiet(func() {
			b := open(0, rx.StrainMode, nil, nil)
			sc := &testScope{}
			b.p.SetScope(sc)
			b.dev.SetConnected(true)
			b.feed(200)
			floor = sc.spectral[len(sc.spectral)-1].MagnitudeMarkers["threshold"] - 15
			b.p.Close()
		})
	})
}

// examine checks the effect of all settings.
func (b *bench) examine(what any, sc *testScope, s settings, exam int) {
	signal := func() int { return int(sc.spectral[len(sc.spectral)-1].FrequencyMarkers["signal_bin"]) }
	vsched.Quiet(func() {
		b.feed(200)
		if len(sc.spectral) == 0 {
			vsched.Fail("%v: nothing on the scope", what)
		}
		if got := sc.spectral[len(sc.spectral)-1].MagnitudeMarkers["threshold"]; math.Abs(got-floor-float64(s.threshold)) > 0.5 {
			vsched.Fail("%v: threshold %v, expected %v", what, got, floor+float64(s.threshold))
		}
		b.feed(200, 200)
		if signal() != 200 {
			vsched.Fail("%v: no listener", what)
		}
		switch exam {
		case 0: // debounce
			for n := 1; n <= 4; n++ {
				b.feed(16)
				sc.demod = nil
				b.feed(n, 200)
				b.feed(20 - n)
				on := 0
				for _, f := range sc.demod {
					if f.Values["debounced"] > 0 {
						on++
					}
				}
				if (on > 0) != (n >= s.debounce) {
					vsched.Fail("%v: a signal of %d blocks has %d debounced ones, threshold %d", what, n, on, s.debounce)
				}
			}
		case 1: // silence
			b.feed(20)
			vsched.Advance(s.silence - time.Second)
			b.feed(100)
			if signal() != 200 {
				vsched.Fail("%v: the listener is gone before %v", what, s.silence)
			}
			vsched.Advance(1500 * time.Millisecond)
			b.feed(100)
			if signal() != -1 {
				vsched.Fail("%v: the listener is not gone after %v", what, s.silence)
			}
		case 2: // attachment
			b.p.SetSilenceTimeout(time.Hour)
			waited := time.Duration(0)
			step := 4 * time.Second
			for waited+step < s.attachment {
				vsched.Advance(step)
				waited += step
				b.feed(20, 200)
			}
			b.feed(100, 200)
			if signal() != 200 {
				vsched.Fail("%v: the listener is gone after %v, before %v", what, waited, s.attachment)
			}
			for i := 0; i < 3; i++ {
				vsched.Advance(step)
				b.feed(100, 200)
				if signal() == -1 {
					return
				}
			}
			vsched.Fail("%v: the listener is not gone after %v", what, s.attachment)
		}
	})
}

func settingsJobs() {
	prop := "C29"
	examName := []string{"debounce", "silence", "attachment"}
	for exam := 0; exam < 3; exam++ {
		exam := exam
		checkLevels(prop, "settings while the client connects, "+examName[exam], 1, 2, func(c *mcrun.Ctx) {
			b := open(0, rx.StrainMode, nil, nil)
			sc := &testScope{}
			vsched.WaitQuiescent()
			t := vsched.GoNamed("settings", func() {
				switch exam {
				case 0:
					b.p.SetSignalDebounce(3)
				case 1:
					b.p.SetSilenceTimeout(7 * time.Second)
				case 2:
					b.p.SetAttachmentTimeout(33 * time.Second)
				}
				b.p.SetThreshold(25)
				b.p.SetScope(sc)
			})
			b.dev.SetConnected(true)
			vsched.WaitDone(t)
			vsched.WaitQuiescent()
			s := settings{threshold: 25, debounce: 1, silence: 20 * time.Second, attachment: 2 * time.Minute}
			switch exam {
			case 0:
				s.debounce = 3
			case 1:
				s.silence = 7 * time.Second
			case 2:
				s.attachment = 33 * time.Second
			}
			b.examine("meanwhile", sc, s, exam)
			vsched.Quiet(b.p.Close)
			vsched.Outcome("ok")
		})
		checkLevels(prop, "all sequences of settings, "+examName[exam], 0, 0, func(c *mcrun.Ctx) {
			sc := &testScope{}
			s := settings{threshold: 15, debounce: 1, silence: 20 * time.Second, attachment: 2 * time.Minute}
			n := mcrun.Tier(c, 2, 4)
			at := vsched.Choose(n+2, "connect")
			var ops []int
			for i := 0; i < n; i++ {
				ops = append(ops, vsched.Choose(3, "operation"))
			}
			b := open(0, rx.StrainMode, nil, nil)
			vsched.Quiet(func() {
				if at == n+1 { // the connection is lost, and there again at the end
					b.dev.SetConnected(true)
					b.feed(4, 100)
					b.dev.SetConnected(false)
				}
				for i := 0; i <= n; i++ {
					if i == at {
						b.dev.SetConnected(true)
						b.feed(4, 100)
					}
					if i == n {
						break
					}
					switch ops[i] {
					case 0:
						s.threshold = 10 + 5*i
						b.p.SetThreshold(s.threshold)
					case 1:
						b.p.SetScope(sc)
					case 2:
						switch exam {
						case 0:
							s.debounce = i + 2
							b.p.SetSignalDebounce(s.debounce)
						case 1:
							s.silence = time.Duration(i+3) * 3 * time.Second
							b.p.SetSilenceTimeout(s.silence)
						case 2:
							s.attachment = time.Duration(i+3) * 10 * time.Second
							b.p.SetAttachmentTimeout(s.attachment)
						}
					}
				}
				b.p.SetScope(sc)
				if at == n+1 {
					b.dev.SetConnected(true)
				}
			})
			b.examine(fmt.Sprint(ops, " connected at ", at), sc, s, exam)
			vsched.Quiet(b.p.Close)
			vsched.Outcome("ok")
		})
	}
}

// --- C30: lifecycle ---

// checkEnd checks the state after the process was closed.
func (b *bench) checkEnd() {
	b.end()
	for id := range b.markers() {
		if !strings.HasPrefix(id, ">") {
			vsched.Fail("marker of the listener %s is left: %v", id, b.dev.Commands)
		}
	}
	if s := b.iqState(); s == "on" {
		vsched.Fail("IQ data is still on: %v", b.dev.Commands)
	}
	n := len(b.dev.Commands)
	// the device lives on
	b.dev.SetConnected(true)
	b.dds(0, center+1)
	b.vfo(0, orig.VFOA, 100)
	b.feed(8, 200)
	vsched.WaitQuiescent()
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("running again: %s", l)
	}
	for _, c := range b.dev.Commands[n:] {
		if strings.HasPrefix(c, "start_iq") || strings.HasPrefix(c, "spot ") {
			vsched.Fail("command %q after the end", c)
		}
	}
}

func closeJobs() {
	prop := "C30"
	for m, name := range []string{"connects", "sends data", "is tuned", "disconnects", "reconnects", "has never been there",
		"connects (decode)", "sends data (decode)", "is tuned (decode)", "disconnects (decode)", "reconnects (decode)"} {
		k, mode := m, rx.StrainMode
		if m > 5 {
			k, mode = m-6, rx.DecodeMode
		}
		device := func(b *bench) {
			switch k {
			case 0:
				b.dev.SetConnected(true)
			case 1:
				b.data(0, rate, message(b.frame(200), b.frame(200), b.frame(200), b.frame(200)))
			case 2:
				b.dds(0, center+1000)
				b.vfo(0, orig.VFOA, 500)
			case 3:
				b.dev.SetConnected(false)
			case 4:
				b.dev.SetConnected(false)
				b.dev.SetConnected(true)
			}
		}
		start := func(listening bool) *bench {
			var b *bench
			vsched.Quiet(func() {
				b = open(0, mode, nil, nil)
				b.p.SetShow(true, true)
				b.vfo(0, orig.VFOA, 1000)
				if k >= 1 && k <= 4 {
					b.dev.SetConnected(true)
				}
				if listening {
					b.feed(100, 200)
				}
			})
			return b
		}
		if m >= 1 && m <= 4 {
			check(prop, "close with a listener while the device "+name, 0, 3, func(c *mcrun.Ctx) {
				b := start(true)
				vsched.GoNamed("device", func() { device(b) })
				b.p.Close()
				b.checkEnd()
				vsched.Outcome("closed")
			})
		}
		check(prop, "close while the device "+name, 2, 20, func(c *mcrun.Ctx) {
			b := start(false)
			vsched.GoNamed("device", func() { device(b) })
			b.p.Close()
			b.checkEnd()
			b.p.Close()
			vsched.Outcome("closed")
		})
		quick := 1
		if k == 1 || m == 8 {
			quick = 0
		}
		check(prop, "close twice while the device "+name, quick, 3, func(c *mcrun.Ctx) {
			b := start(false)
			vsched.GoNamed("device", func() { device(b) })
			vsched.GoNamed("settings", func() {
				b.p.SetThreshold(20)
				b.p.SetShow(true, false)
			})
			t := vsched.GoNamed("closer", func() { b.p.Close() })
			b.p.Close()
			vsched.WaitDone(t)
			b.checkEnd()
			vsched.Outcome("closed")
		})
	}
	check(prop, "close a busy process", 0, 2, func(c *mcrun.Ctx) {
		// the device is slow, many operations are pending
		pending := []int{101, 102, 99, 100, 1, 150}[vsched.Choose(mcrun.Tier(c, 3, 6), "pending")]
		var b *bench
		var t *vsched.Thread
		vsched.Quiet(func() {
			b = open(0, rx.DecodeMode, nil, nil)
			b.p.SetShow(true, true)
			b.dev.SetConnected(true)
			b.dds(0, center)
			b.vfo(0, orig.VFOA, 1000)
			vsched.WaitQuiescent()
			if len(b.markers()) != 1 {
				vsched.Fail("no listener")
			}
			b.dev.Stall(true)
			t = vsched.GoNamed("source", func() {
				for i := 0; i < pending; i++ {
					b.p.CallsignSpotted("-1", "DL1ABC", center+i)
				}
			})
		})
		vsched.GoNamed("device", func() { b.dev.Stall(false) })
		b.p.Close()
		vsched.WaitDone(t)
		b.checkEnd()
		vsched.Outcome("closed")
	})
	check(prop, "close while the device does not answer", 0, 0, func(c *mcrun.Ctx) {
		pending := []int{0, 1, 99, 150}[vsched.Choose(4, "pending")]
		pause := []time.Duration{0, 3 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		closes := vsched.Choose(2, "closes") + 1
		vsched.Quiet(func() {
			b := open(0, rx.DecodeMode, nil, nil)
			b.p.SetShow(true, true)
			b.dev.SetConnected(true)
			b.dds(0, center)
			b.vfo(0, orig.VFOA, 1000)
			vsched.WaitQuiescent()
			b.dev.Stall(true)
			ts := []*vsched.Thread{vsched.GoNamed("source", func() {
				for i := 0; i < pending; i++ {
					b.p.CallsignSpotted("-1", "DL1ABC", center+i)
				}
			})}
			vsched.WaitQuiescent()
			stalled := true
			for i := 0; i < closes; i++ {
				ts = append(ts, vsched.GoNamed("close", func() {
					b.p.Close()
					if stalled || b.iqState() == "on" {
						vsched.Fail("closed before the device answers after %v: %v", pause, b.dev.Commands)
					}
				}))
			}
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			vsched.WaitQuiescent()
			stalled = false
			b.dev.Stall(false)
			vsched.WaitDone(ts...)
			b.checkEnd()
		})
		vsched.Outcome("closed")
	})
	check(prop, "open", 3, 6, func(c *mcrun.Ctx) {
		// the client may connect immediately
		b := open(0, rx.StrainMode, nil, func(b *bench) {
			vsched.GoNamed("device", func() {
				b.dds(0, center)
				b.vfo(0, orig.VFOA, 0)
				b.dev.SetConnected(true)
			})
		})
		b.p.SetThreshold(20)
		vsched.WaitQuiescent()
		if s := b.iqState(); s != "on" {
			vsched.Fail("IQ data is %s", s)
		}
		vsched.Quiet(func() {
			b.feed(100)
			b.p.SetShow(true, false)
			b.feed(100, 200)
		})
		if m := b.markers(); len(m) != 1 {
			vsched.Fail("markers %v", m)
		}
		b.p.Close()
		b.checkEnd()
		vsched.Outcome("closed")
	})
}
