// Harness for the audio demodulator.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	dcw "github.com/ftl/digimodes/cw"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

func main() {
	lifecycleJobs()
	audioJobs()
	shownJobs()
	mcrun.Main()
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 2000000}
		vsched.Check(c, cfg, func() { body(c) })
	})
}

// watcher is a scope that records the frames of the audio signal.
type watcher struct{ frames []scope.TimeFrame }

func (w *watcher) Active() bool { return true }
func (w *watcher) ShowTimeFrame(f *scope.TimeFrame) {
	if _, ok := f.Values["magnitude_threshold"]; ok {
		w.frames = append(w.frames, *f)
	}
}
func (w *watcher) ShowSpectralFrame(f *scope.SpectralFrame) {}

func (w *watcher) text() string {
	res := ""
	for _, f := range w.frames {
		res += fmt.Sprintf("%.5f %v %v %v; ", f.Values["magnitude"], f.Values["magnitude_threshold"], f.Values["state"], f.Values["debounced"])
	}
	return res
}

// output is written by the demodulator and read by the test.
type output struct {
	o   vsched.Obj
	buf bytes.Buffer
}

func (w *output) Write(b []byte) (int, error) {
	vsched.Point("output", &w.o, true, nil)
	return w.buf.Write(b)
}

func (w *output) String() string {
	vsched.Point("text", &w.o, false, nil)
	return w.buf.String()
}

func (w *output) Len() int { return len(w.String()) }

const (
	pitch = 700
	rate  = 2800 // blocks of 16 samples, 5.7 ms
)

// tone has a duration in seconds
func tone(buf []float32, freq float64, rate int, amplitude float64, n int) []float32 {
	from := len(buf)
	for i := from; i < from+n; i++ {
		buf = append(buf, float32(amplitude*math.Sin(2*math.Pi*freq*float64(i)/float64(rate)+0.4)))
	}
	return buf
}

// morse are the samples of a text.
func morse(text string, wpm int, freq float64, rate int, amplitude float64) []float32 {
	dit := rate * 6 / (5 * wpm)
	buf := make([]float32, 0, len(text)*12*dit)
	buf = tone(buf, freq, rate, 0, 3*dit)
	for _, r := range text {
		if r == ' ' {
			buf = tone(buf, freq, rate, 0, 4*dit)
			continue
		}
		for _, s := range dcw.Code[r] {
			if s == dcw.Dit {
				buf = tone(buf, freq, rate, amplitude, dit)
			} else {
				buf = tone(buf, freq, rate, amplitude, 3*dit)
			}
			buf = tone(buf, freq, rate, 0, dit)
		}
		buf = tone(buf, freq, rate, 0, 2*dit)
	}
	return tone(buf, freq, rate, 0, 25*dit)
}

// slowOutput does not take the text until it is released.
type slowOutput struct {
	o              vsched.Obj
	held, released bool
}

func (w *slowOutput) Write(b []byte) (int, error) {
	w.held = true
	vsched.Block("output", &w.o, func() bool { return w.released }, nil)
	return len(b), nil
}

func (w *slowOutput) release() { vsched.Point("release", &w.o, true, func() { w.released = true }) }

func lifecycleJobs() {
	prop := "C13"
	// the samples of a dit
	key := tone(tone(nil, pitch, rate, 0.9, 16*12), pitch, rate, 0, 16*5)
	check(prop, "close/nothing to do", 3, 4, func(c *mcrun.Ctx) {
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, 4)
		done := 0
		for i := 0; i < 2; i++ {
			vsched.GoNamed("closer", func() { d.Close(); done++ })
		}
		d.Close()
		vsched.WaitQuiescent()
		if n := vsched.Live(); len(n) > 0 || done != 2 {
			vsched.Fail("still running: %s, %d closed", n, done)
		}
		d.Close()
		vsched.Outcome("closed")
	})
	check(prop, "close/settings", 2, 3, func(c *mcrun.Ctx) {
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, 4)
		op := vsched.Choose(12, "operation")
		vsched.GoNamed("settings", func() {
			operate(d, op)
		})
		vsched.GoNamed("other settings", func() {
			d.SetMaxScale(3)
			d.MaxScale()
		})
		d.Close()
		vsched.WaitQuiescent()
		if n := vsched.Live(); len(n) > 0 {
			vsched.Fail("operation %d: still running: %s", op, n)
		}
		operate(d, op)
		vsched.Outcome("closed")
	})
	check(prop, "close/data", 2, 3, func(c *mcrun.Ctx) {
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, []int{1, 4}[vsched.Choose(2, "buffer")])
		buf := make([]float32, 8)
		n, stopped := 0, false
		vsched.GoNamed("writer", func() {
			for i := 0; i < 4; i++ {
				k, err := d.Write(buf)
				n += k
				if (k == len(buf)) != (err == nil) {
					vsched.Fail("wrote %d of %d, error %v", k, len(buf), err)
				}
				if stopped && err == nil && k == len(buf) && i > 1 {
					vsched.Observe("written")
				}
			}
		})
		d.Close()
		stopped = true
		vsched.WaitQuiescent()
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %s", l)
		}
		vsched.Outcome("closed")
	})
	check(prop, "the last character", 1, 1, func(c *mcrun.Ctx) {
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, len(key)+16)
		rest := []int{0, 1, 15}[vsched.Choose(3, "samples of a block that is not complete")]
		vsched.Quiet(func() {
			d.Write(key)
			d.Write(make([]float32, rest))
			vsched.WaitQuiescent()
		})
		if out.Len() > 0 {
			vsched.Fail("too early: %q", out.String())
		}
		vsched.GoNamed("closer", func() {
			d.Close()
			if out.String() != "e" {
				vsched.Fail("text after close: %q", out.String())
			}
		})
		d.Close()
		if out.String() != "e" {
			vsched.Fail("text after close: %q", out.String())
		}
		vsched.WaitQuiescent()
		vsched.Outcome("e")
	})
	check(prop, "the output takes a long time", 0, 1, func(c *mcrun.Ctx) {
		// everything waits until the text is taken
		out := &slowOutput{}
		d := cw.NewAudioDemodulator(out, pitch, rate, 2*len(key)+16*400)
		op := vsched.Choose(6, "operation")
		pause := []time.Duration{0, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		vsched.Quiet(func() {
			d.Write(key)
			d.Write(make([]float32, 16*400)) // "e" is written
			vsched.WaitQuiescent()
		})
		if !out.held {
			vsched.Fail("nothing is written")
		}
		done := false
		t := vsched.GoNamed("operation", func() {
			switch op {
			case 0:
				d.Close()
			case 1:
				d.SetMaxScale(3)
				if v := d.MaxScale(); v != 3 {
					vsched.Fail("scale %v", v)
				}
			case 2:
				d.SetDebounceThreshold(2)
				if v := d.DebounceThreshold(); v != 2 {
					vsched.Fail("debounce %v", v)
				}
			case 3:
				d.PresetWPM(25)
				if v := d.WPM(); v != 25 {
					vsched.Fail("speed %v", v)
				}
			case 4:
				d.SetMagnitudeThreshold(0.4)
				if v := d.MagnitudeThreshold(); v != 0.4 {
					vsched.Fail("threshold %v", v)
				}
			case 5:
				if v := d.MaxScale(); v != 12 {
					vsched.Fail("scale %v", v)
				}
			}
			done = true
		})
		vsched.Quiet(func() {
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			vsched.WaitQuiescent()
		})
		if done && op == 0 {
			vsched.Fail("closed while the text is written for %v", pause)
		}
		vsched.Quiet(func() {
			out.release()
			vsched.WaitDone(t)
			d.Close()
			vsched.WaitQuiescent()
		})
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %s", l)
		}
		vsched.Outcome("ok")
	})
	check(prop, "the last character, more samples", 1, 2, func(c *mcrun.Ctx) {
		// there are samples that are not processed when it is closed
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, len(key)+64)
		more := []int{1, 15, 16, 48}[vsched.Choose(4, "samples")]
		vsched.Quiet(func() {
			d.Write(key)
			vsched.WaitQuiescent()
		})
		d.Write(make([]float32, more))
		d.Close()
		if out.String() != "e" {
			vsched.Fail("text after %d more samples and close: %q", more, out.String())
		}
		vsched.WaitQuiescent()
		vsched.Outcome("e")
	})
	for i := 0; i < 4; i++ {
		i := i
		check(prop, fmt.Sprintf("values/two sides %d", i), 1, 2, func(c *mcrun.Ctx) {
			d := cw.NewAudioDemodulator(&output{}, pitch, rate, 2)
			switch vsched.Choose(2, "meanwhile") {
			case 0:
				vsched.GoNamed("writer", func() { d.Write(make([]float32, 3)) })
			case 1:
				vsched.GoNamed("settings", func() { operate(d, vsched.Choose(6, "operation")*2) })
			}
			switch i {
			case 0:
				d.SetMaxScale(3)
				if v := d.MaxScale(); v != 3 {
					vsched.Fail("max scale %v", v)
				}
			case 1:
				d.SetDebounceThreshold(2)
				if v := d.DebounceThreshold(); v != 2 {
					vsched.Fail("debounce threshold %v", v)
				}
			case 2:
				d.PresetWPM(30)
				if v := d.WPM(); v != 30 {
					vsched.Fail("WPM %v", v)
				}
			case 3:
				d.SetMagnitudeThreshold(0.5)
				if v := d.MagnitudeThreshold(); v != 0.5 {
					vsched.Fail("magnitude threshold %v", v)
				}
			}
			vsched.WaitQuiescent()
			d.Close()
			vsched.Outcome("ok")
		})
	}
	check(prop, "values/all sequences", 0, 0, func(c *mcrun.Ctx) {
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, 64)
		maxScale, debounce, wpm, magnitude := 12.0, 3, 20, 0.75
		var hist []string
		for i := 0; i < mcrun.Tier(c, 4, 5); i++ {
			op := vsched.Choose(6, "operation")
			hist = append(hist, fmt.Sprint(op))
			vsched.Quiet(func() {
				switch op {
				case 0:
					maxScale = float64(i + 2)
					d.SetMaxScale(maxScale)
				case 1:
					debounce = i
					d.SetDebounceThreshold(debounce)
				case 2:
					wpm = 10 + 7*i
					d.PresetWPM(wpm)
				case 3:
					magnitude = 0.1 * float64(i+1)
					d.SetMagnitudeThreshold(magnitude)
				case 4:
					d.SetScale(float64(i))
				case 5:
					d.Write(make([]float32, 40))
				}
				if a, b, w, m := d.MaxScale(), d.DebounceThreshold(), d.WPM(), d.MagnitudeThreshold(); a != maxScale || b != debounce || w != wpm || m != magnitude {
					vsched.Fail("%v: max scale %v (%v), debounce %v (%v), wpm %v (%v), magnitude threshold %v (%v)", hist, a, maxScale, b, debounce, w, wpm, m, magnitude)
				}
			})
		}
		d.Close()
		vsched.Outcome("ok")
	})
}

func operate(d *cw.AudioDemodulator, op int) {
	switch op {
	case 0:
		d.SetScope(&watcher{})
	case 1:
		d.SetMaxScale(2)
	case 2:
		d.MaxScale()
	case 3:
		d.SetScale(2)
	case 4:
		d.SetChannelCount(2)
	case 5:
		d.SetDebounceThreshold(2)
	case 6:
		d.DebounceThreshold()
	case 7:
		d.PresetWPM(25)
	case 8:
		d.WPM()
	case 9:
		d.SetMagnitudeThreshold(0.4)
	case 10:
		d.MagnitudeThreshold()
	case 11:
		d.Blocksize()
	}
}

func audioJobs() {
	prop := "C14"
	run := func(d *cw.AudioDemodulator, samples []float32) {
		vsched.Quiet(func() {
			for len(samples) > 0 {
				n := min(len(samples), 4096)
				if k, err := d.Write(samples[:n]); k != n || err != nil {
					vsched.Fail("wrote %d of %d: %v", k, n, err)
				}
				samples = samples[n:]
				vsched.WaitQuiescent()
			}
		})
	}
	type signal struct {
		pitch float64
		rate  int
	}
	signals := []signal{{700, 2800}, {600, 8000}, {400, 4000}, {1000, 8000}, {700, 11025}, {550, 6000}}
	for i, s := range signals {
		s := s
		if i > 3 {
			continue
		}
		check(prop, fmt.Sprintf("text on %.0f Hz, %d samples per second", s.pitch, s.rate), 0, 0, func(c *mcrun.Ctx) {
			var out output
			d := cw.NewAudioDemodulator(&out, s.pitch, s.rate, 1<<16)
			wpm := []int{20, 16, 25, 12, 30}[vsched.Choose(mcrun.Tier(c, 3, 5), "wpm")]
			amplitude := []float64{0.9, 0.09, 0.4}[vsched.Choose(3, "amplitude")]
			if amplitude == 0.9 {
				if vsched.Choose(2, "scale") == 1 {
					d.SetScale(0)
				}
			} else if amplitude == 0.09 {
				d.SetScale(0)
			} else {
				d.SetScale(2.4)
			}
			switch vsched.Choose(3, "preset") {
			case 1:
				d.PresetWPM(wpm)
			case 2:
				d.SetDebounceThreshold(2)
			}
			text := "paris paris cq dl1abc k"
			run(d, morse(text, wpm, s.pitch, s.rate, amplitude))
			d.Close()
			got := strings.TrimSpace(out.String())
			if !strings.HasSuffix(got, text[6:]) {
				vsched.Fail("%d wpm, amplitude %v: %q", wpm, amplitude, got)
			}
			vsched.Outcome("%d wpm", wpm)
		})
	}
	check(prop, "damaged samples", 0, 0, func(c *mcrun.Ctx) {
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, 1<<16)
		v := []float32{0, 5, 1e10, 1e20, math.MaxFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}[vsched.Choose(8, "value")]
		n := []int{1, 20, 500}[vsched.Choose(3, "samples")]
		at := vsched.Choose(2, "before the first text, between the texts")
		// with the scale 1 the samples are taken as they are
		d.SetScale([]float64{0, 1.1}[vsched.Choose(2, "scale")])
		var samples []float32
		if at == 1 {
			samples = append(samples, morse("paris paris k", 20, pitch, rate, 0.9)...)
		}
		for i := 0; i < n; i++ {
			samples = append(samples, v)
		}
		samples = append(samples, make([]float32, 3*rate)...)
		samples = append(samples, morse("paris paris cq dl1abc k", 20, pitch, rate, 0.9)...)
		run(d, samples)
		d.Close()
		if got := strings.TrimSpace(out.String()); !strings.HasSuffix(got, "paris cq dl1abc k") {
			vsched.Fail("%d samples of %v (%d): %q", n, v, at, got)
		}
		vsched.Outcome("%v", v)
	})
	check(prop, "the speed", 0, 0, func(c *mcrun.Ctx) {
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, 1<<16)
		wpm := 12 + vsched.Choose(19, "wpm")
		run(d, morse("paris paris paris paris paris", wpm, pitch, rate, 0.9))
		got := d.WPM()
		d.Close()
		if math.Abs(float64(got-wpm)) > float64(wpm)/5 {
			vsched.Fail("%d wpm are shown as %d wpm", wpm, got)
		}
		vsched.Outcome("%d wpm", wpm)
	})
	check(prop, "channels", 0, 0, func(c *mcrun.Ctx) {
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, 1<<16)
		n := vsched.Choose(4, "channels") + 1
		other := vsched.Choose(3, "other channels")
		size := []int{1, 7, 64, 4095}[vsched.Choose(4, "size of the pieces")]
		d.SetChannelCount(n)
		d.SetChannelCount(0) // makes no sense
		samples := morse("paris k", 20, pitch, rate, 0.9)
		second := morse("the other channel", 25, pitch, rate, 0.9)
		var all []float32
		for i, s := range samples {
			all = append(all, s)
			for j := 1; j < n; j++ {
				switch other {
				case 0:
					all = append(all, 0)
				case 1:
					all = append(all, second[(i+j)%len(second)])
				case 2:
					all = append(all, float32(1-2*(i%2)))
				}
			}
		}
		vsched.Quiet(func() {
			for i := 0; i < len(all); i += size {
				if k, err := d.Write(all[i:min(i+size, len(all))]); k != min(size, len(all)-i) || err != nil {
					vsched.Fail("%d channels: wrote %d of %d: %v", n, k, min(size, len(all)-i), err)
				}
				if i/4096 != (i+size)/4096 {
					vsched.WaitQuiescent()
				}
			}
			vsched.WaitQuiescent()
		})
		d.Close()
		if got := strings.TrimSpace(out.String()); got != "paris k" {
			vsched.Fail("%d channels (%d) in pieces of %d: %q", n, other, size, got)
		}
		vsched.Outcome("%d channels", n)
	})
	check(prop, "all partitions", 0, 0, func(c *mcrun.Ctx) {
		// blocks of 6 samples
		n := vsched.Choose(2, "channels") + 1
		w := &watcher{}
		d := cw.NewAudioDemodulator(&output{}, 500, 1000, 64)
		if d.Blocksize() != 6 {
			panic("unexpected block size")
		}
		d.SetScope(w)
		d.SetChannelCount(n)
		d.SetDebounceThreshold(1)
		all := []float32{0.1, 0.9, 1, -1, -0.3, 0.8, 0.7, 0.4, -0.2, 0.3, -0.9, 0.5, 0.2}
		var mono []float32
		for i := 0; i < len(all); i += n {
			mono = append(mono, all[i])
		}
		from := 0
		var cuts []int
		for i := 1; i < len(all); i++ {
			if vsched.Choose(2, "cut") == 1 {
				if k, err := d.Write(all[from:i]); k != i-from || err != nil {
					vsched.Fail("%d channels: wrote %d of %d: %v", n, k, i-from, err)
				}
				from = i
				cuts = append(cuts, i)
			}
		}
		d.Write(all[from:])
		vsched.WaitQuiescent()
		want := map[int]string{}
		if v, ok := expected[n]; ok {
			want[n] = v
		} else {
			w2 := &watcher{}
			d2 := cw.NewAudioDemodulator(&output{}, 500, 1000, 64)
			d2.SetScope(w2)
			d2.SetDebounceThreshold(1)
			d2.Write(mono)
			vsched.WaitQuiescent()
			expected[n] = w2.text()
			want[n] = w2.text()
			d2.Close()
		}
		if len(w.frames) != len(mono)/6 || w.text() != want[n] {
			vsched.Fail("%d channels, cut at %v: %s instead of %s", n, cuts, w.text(), want[n])
		}
		d.Close()
		vsched.Outcome("%d frames", len(w.frames))
	})
	check(prop, "other tones", 0, 0, func(c *mcrun.Ctx) {
		var out output
		d := cw.NewAudioDemodulator(&out, 700, 8000, 1<<16)
		freq := []float64{0, 100, 200, 300, 1100, 1300, 1500, 2000, 3000}[vsched.Choose(9, "tone")]
		if vsched.Choose(2, "scale") == 1 {
			d.SetScale(0)
		}
		run(d, morse("paris", 20, freq, 8000, 0.9))
		run(d, tone(nil, freq, 8000, 0.9, 4000))
		run(d, morse("k", 20, 700, 8000, 0.9))
		d.Close()
		if got := strings.TrimSpace(out.String()); got != "k" {
			vsched.Fail("tone on %v Hz: %q", freq, got)
		}
		vsched.Outcome("%v", freq)
	})
	check(prop, "silence", 0, 0, func(c *mcrun.Ctx) {
		// silence has nothing to amplify, and it does not last
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, 1<<16)
		scale := vsched.Choose(2, "scale")
		d.SetScale(float64(scale))
		noise := []float64{0, 0.0001, 0.01}[vsched.Choose(3, "noise")]
		seconds := []int{0, 1, 3}[vsched.Choose(3, "seconds")]
		run(d, tone(nil, pitch, rate, noise, seconds*rate))
		run(d, morse("k", 20, pitch, rate, 0.9))
		run(d, tone(nil, pitch, rate, noise, seconds*rate))
		run(d, morse("p", 20, pitch, rate, 0.9))
		d.Close()
		if got := strings.TrimSpace(out.String()); got != "k p" {
			vsched.Fail("noise %v for %d s, scale %d: %q", noise, seconds, scale, got)
		}
		vsched.Outcome("ok")
	})
	check(prop, "fading", 0, 0, func(c *mcrun.Ctx) {
		// the automatic gain follows the signal
		var out output
		d := cw.NewAudioDemodulator(&out, pitch, rate, 1<<16)
		d.SetScale(0)
		want, levels := "", []float64{}
		for i := 0; i < mcrun.Tier(c, 3, 5); i++ {
			l := []float64{0.9, 0.1, 0.3}[vsched.Choose(3, "amplitude")]
			word := []string{"k", "paris", "rk"}[i%3]
			levels = append(levels, l)
			want += word + " "
			samples := morse(word, 20, pitch, rate, l)
			if i == 0 && vsched.Choose(2, "begin") == 1 {
				samples = samples[3*rate*6/(5*20):] // no silence before the first signal
			}
			run(d, samples)
		}
		d.Close()
		if got := strings.TrimSpace(out.String()); got != strings.TrimSpace(want) {
			vsched.Fail("amplitudes %v: %q instead of %q", levels, got, want)
		}
		vsched.Outcome("ok")
	})
	check(prop, "thresholds", 0, 0, func(c *mcrun.Ctx) {
		w := &watcher{}
		d := cw.NewAudioDemodulator(&output{}, pitch, rate, 1<<16)
		d.SetScope(w)
		threshold := []float64{0.75, 0.2, 0.5, 0.9}[vsched.Choose(4, "threshold")]
		debounce := vsched.Choose(5, "debounce") + 1
		scale := []float64{1, 0, 2, 20}[vsched.Choose(4, "scale")]
		maxScale := []float64{12, 1, 3}[vsched.Choose(3, "max scale")]
		d.SetMagnitudeThreshold(threshold)
		d.SetDebounceThreshold(debounce)
		d.SetScale(scale)
		d.SetMaxScale(maxScale)
		levels := []float64{1, 1, 0, 0.5, 0.5, 0.5, 0, 0, 0.2, 0.2, 0.2, 0.2, 0.05, 0.05, 0.7, 0.7, 0.7, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0}
		var samples []float32
		for _, l := range levels {
			samples = tone(samples, pitch, rate, l, 16)
		}
		run(d, samples)
		if len(w.frames) != len(levels) {
			vsched.Fail("%d frames for %d blocks", len(w.frames), len(levels))
		}
		state, raw, count := false, false, 0
		for i, f := range w.frames {
			m := f.Values["magnitude"] / 50
			on := f.Values["state"] > 0
			if on != (m > threshold) || math.Abs(f.Values["magnitude_threshold"]/50-threshold) > 1e-9 {
				vsched.Fail("block %d: magnitude %v, threshold %v, state %v", i, m, threshold, on)
			}
			// the magnitude is the one of the scaled samples in relation to the strongest signals
			s := scale
			peak := 0.0
			for _, x := range samples[16*i : 16*i+16] {
				peak = max(peak, math.Abs(float64(x)))
			}
			if s == 0 {
				s = maxScale
				if peak > 0 {
					s = min(1/peak, maxScale)
				}
			}
			if levels[i] == 0 && m > 1e-6 {
				vsched.Fail("block %d: magnitude %v of silence", i, m)
			}
			if full := peak * s; full >= 1 && i > 25 && i < 27 && m < 0.9 {
				vsched.Fail("block %d: magnitude %v of a full signal", i, m)
			} else if full < threshold*0.5 && on {
				vsched.Fail("block %d: signal with a level of %v, threshold %v", i, full, threshold)
			}
			if on == raw {
				count++
			} else {
				count = 1
			}
			raw = on
			if count >= debounce {
				state = on
			}
			if state != (f.Values["debounced"] > 0) {
				vsched.Fail("block %d: debounced %v", i, f.Values["debounced"])
			}
		}
		d.Close()
		vsched.Outcome("debounce %d", debounce)
	})
}

var expected = map[int]string{}
