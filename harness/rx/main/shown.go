package main

import (
	"fmt"
	"math"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// spectra is a scope that keeps the spectral frames and copies of them.
type spectra struct {
	on       bool
	frames   []*scope.SpectralFrame
	values   [][]float64
	inactive int
	times    []time.Time
}

func (s *spectra) Active() bool { return s.on }
func (s *spectra) ShowTimeFrame(f *scope.TimeFrame) {
	if !s.on {
		s.inactive++
	}
}
func (s *spectra) ShowSpectralFrame(f *scope.SpectralFrame) {
	if !s.on {
		s.inactive++
	}
	s.frames = append(s.frames, f)
	s.values = append(s.values, append([]float64(nil), f.Values...))
	s.times = append(s.times, vsched.Now())
}

var spectrumCache = map[string][]float64{}

func spectrumOf(key string, f []float32) []float64 {
	if v, ok := spectrumCache[key]; ok {
		return v
	}
	s := make([]float32, len(f)/2)
	dsp.NewFFT[float32]().IQToSpectrum(s, append([]float32(nil), f...), dsp.MagnitudeIndB[float32])
	res := make([]float64, len(s))
	for i := range s {
		res[i] = float64(s[i])
	}
	spectrumCache[key] = res
	return res
}

func shownJobs() {
	const n = 32
	for _, mode := range []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode} {
		mode := mode
		check("C37", "spectra/"+string(mode), 0, 0, func(c *mcrun.Ctx) {
			g := newRig(mode, n)
			s, other := &spectra{on: true}, &spectra{on: true}
			shown := 0
			groups := mcrun.Tier(c, 2, 3)
			tuned := -1
			var hist []string
			vsched.Quiet(func() {
				g.r.SetScope(s)
				g.start()
			})
			// what is sent in each group of 100 frames: bin and level of the signal in even and odd frames
			patterns := [][4]int{{5, 0, 5, 0}, {5, 30, 5, 30}, {31, 40, 31, 0}, {0, 20, 5, 30}}
			var offset float64
			for k := 0; k < groups; k++ {
				p := patterns[vsched.Choose(len(patterns), "pattern")]
				event := vsched.Choose(6, "event")
				hist = append(hist, fmt.Sprint(p, event))
				vsched.Quiet(func() {
					send := func(i int) {
						p := p[i%2*2:][:2]
						g.i++
						g.r.IQData(g.rate, flatFrame(n, g.i%16, p[0], p[1]))
						vsched.WaitQuiescent()
					}
					switch event {
					case 1: // part of a group gets lost by a restart
						for i := 0; i < 37; i++ {
							send(i)
						}
						g.r.Stop()
						tuned = -1
						g.start()
					case 2: // other data does not count
						g.r.IQData(g.rate+1, flatFrame(n, 0, 9, 50))
						g.r.IQData(g.rate, flatFrame(16, 0, 9, 50))
						g.r.IQData(g.rate, nil)
						vsched.WaitQuiescent()
					case 3:
						tuned = []int{7, 0, 31, 20}[k]
						g.r.SetVFOOffset(g.freq(tuned) - center)
					case 4: // the scope is not active for some frames
						s.on = false
						for i := 0; i < 10; i++ {
							send(i)
						}
						s.on = true
						for i := 0; i < 90; i++ {
							send(i)
						}
						shown++
					case 5: // another scope for one group
						g.r.SetScope(other)
						for i := 0; i < 100; i++ {
							send(i)
						}
						if len(other.frames) == 0 {
							vsched.Fail("%v: nothing is shown on another scope", hist)
						}
						other.frames = nil
						g.r.SetScope(s)
					}
					want := make([]float64, n)
					for i := 0; i < 100; i++ {
						if len(s.frames) != shown {
							vsched.Fail("%v: %d frames after %d blocks instead of %d", hist, len(s.frames), i, shown)
						}
						send(i)
						p := p[i%2*2:][:2]
						for b, v := range spectrumOf(fmt.Sprint(g.i%16, p), flatFrame(n, g.i%16, p[0], p[1])) {
							want[b] += v / 100
						}
					}
					shown++
					if len(s.frames) != shown || len(other.frames) > 0 || s.inactive > 0 {
						vsched.Fail("%v: %d frames instead of %d, %d on another scope, %d on an inactive one", hist, len(s.frames), shown, len(other.frames), s.inactive)
					}
					f := s.frames[shown-1]
					if !f.Timestamp.Equal(s.times[shown-1]) {
						vsched.Fail("%v: time stamp %v at %v", hist, f.Timestamp, s.times[shown-1])
					}
					if len(f.Values) != n || f.FromFrequency >= f.ToFrequency {
						vsched.Fail("%v: %d values from %v to %v", hist, len(f.Values), f.FromFrequency, f.ToFrequency)
					}
					if k == 0 && event == 0 || offset == 0 {
						offset = f.Values[3] - want[3]
					}
					for b, v := range f.Values {
						if math.Abs(v-want[b]-offset) > 0.05 {
							vsched.Fail("%v: bin %d is shown with %.2f instead of %.2f", hist, b, v, want[b]+offset)
						}
					}
					// the marker is on a bin that has a listener
					marker, ok := f.FrequencyMarkers["signal_bin"]
					active := pairs(g.rec.events)
					valid := len(active) == 0 && marker == -1
					for _, freq := range active {
						valid = valid || float64(g.bin(freq)) == marker
					}
					if mode == rx.DecodeMode {
						valid = marker == float64(tuned)
					}
					if first, is := longest(g.rec.events); is && float64(g.bin(first)) != marker && mode == rx.StrainMode {
						valid = false
					}
					if !ok || !valid {
						vsched.Fail("%v: the signal bin is %v, listeners %v, tuned to %d", hist, marker, active, tuned)
					}
					vsched.Advance(700 * time.Millisecond)
				})
			}
			vsched.Quiet(func() {
				g.r.Stop()
				for i, f := range s.frames {
					for b, v := range f.Values {
						if v != s.values[i][b] {
							vsched.Fail("%v: frame %d was modified afterwards", hist, i)
						}
					}
				}
			})
			vsched.Outcome("%d frames", shown)
		})
	}
	check("C37", "spectra, all listeners are busy", 0, 0, func(c *mcrun.Ctx) {
		g := newRig(rx.StrainMode, 128)
		s := &spectra{on: true}
		vsched.Quiet(func() {
			g.r.SetSilenceTimeout(time.Hour)
			g.r.SetAttachmentTimeout(time.Hour)
			g.r.SetScope(s)
			g.start()
			var tones []int
			for i := 0; i < 31; i++ {
				tones = append(tones, 26+2*i)
			}
			for i := 0; i < 33; i++ {
				g.feed(99, tones...)
				if len(s.frames) != i {
					vsched.Fail("%d frames after %d blocks", len(s.frames), 100*i+99)
				}
				g.feed(1, tones...)
				if len(s.frames) != i+1 {
					vsched.Fail("%d frames after %d blocks", len(s.frames), 100*(i+1))
				}
				f := s.frames[i]
				for b, v := range f.Values {
					if i > 0 && math.Abs(v-s.frames[0].Values[b]) > 3 {
						vsched.Fail("round %d: bin %d is shown with %.2f instead of %.2f", i, b, v, s.frames[0].Values[b])
					}
				}
				marker, valid := f.FrequencyMarkers["signal_bin"], false
				for _, freq := range pairs(g.rec.events) {
					valid = valid || float64(g.bin(freq)) == marker
				}
				if first, is := longest(g.rec.events); is && float64(g.bin(first)) != marker {
					valid = false
				}
				if !valid {
					vsched.Fail("round %d: the signal bin is %v", i, marker)
				}
			}
			g.r.Stop()
		})
		vsched.Outcome("%d frames", len(s.frames))
	})
}

// longest returns the frequency of the first of the active listeners, as long as there is no doubt: none was deactivated since it was activated.
func longest(events []event) (int, bool) {
	active, is, freq := 0, false, 0
	for _, e := range events {
		switch e.kind {
		case "activated":
			active++
			if active == 1 {
				is, freq = true, e.freq
			}
		case "deactivated":
			active--
			is = false
		}
	}
	return freq, is
}
