package main

import (
	"fmt"
	"math"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// all is a scope that collects all frames since the last look.
type all struct {
	frames map[scope.StreamID]map[scope.ChannelID]float64
	wrong  string
}

func (s *all) Active() bool { return true }
func (s *all) ShowTimeFrame(f *scope.TimeFrame) {
	if _, ok := s.frames[f.Stream]; ok {
		s.wrong = fmt.Sprintf("two frames of %s", f.Stream)
	}
	if !f.Timestamp.Equal(vsched.Now()) {
		s.wrong = fmt.Sprintf("time stamp %v at %v", f.Timestamp, vsched.Now())
	}
	s.frames[f.Stream] = f.Values
}
func (s *all) ShowSpectralFrame(f *scope.SpectralFrame) { s.wrong = "a spectral frame" }

func shownJobs() {
	check("C37", "audio demodulator", 0, 0, func(c *mcrun.Ctx) {
		depth := mcrun.Tier(c, 5, 7)
		threshold := []float64{0.75, 0.3}[vsched.Choose(2, "threshold")]
		debounce := vsched.Choose(3, "debounce") + 1
		kinds := make([]int, depth)
		for i := range kinds {
			kinds[i] = vsched.Choose(4, "block")
		}
		change := vsched.Choose(depth+1, "another scope")
		vsched.Quiet(func() {
			one, two := &all{}, &all{}
			d := cw.NewAudioDemodulator(&output{}, pitch, rate, 64)
			d.SetScope(one)
			d.SetMagnitudeThreshold(threshold)
			d.SetDebounceThreshold(debounce)
			filter := dsp.NewDefaultGoertzel(pitch, rate)
			filter.SetMagnitudeThreshold(threshold)
			n := filter.Blocksize()
			set, not := one, two
			raw, count, effective := false, 0, false
			for i, k := range kinds {
				if i == change {
					d.SetScope(two)
					set, not = two, one
				}
				one.frames, two.frames = map[scope.StreamID]map[scope.ChannelID]float64{}, map[scope.StreamID]map[scope.ChannelID]float64{}
				block := tone(nil, []float64{pitch, pitch, pitch, 1050}[k], rate, []float64{0, 1, 0.4, 0.9}[k], n)
				d.Write(block)
				vsched.WaitQuiescent()
				what := fmt.Sprintf("blocks %v, threshold %v, debounce %d, another scope at %d: block %d", kinds, threshold, debounce, change, i)
				if len(not.frames) > 0 || len(set.frames) != 5 || one.wrong != "" || two.wrong != "" {
					vsched.Fail("%s: %d frames and %d on another scope %s %s", what, len(set.frames), len(not.frames), one.wrong, two.wrong)
				}
				magnitude, state, _, _ := filter.Detect(block)
				if state == raw {
					count++
				} else {
					count = 1
				}
				raw = state
				if count >= debounce {
					effective = state
				}
				f := set.frames["audio"]
				// the threshold is shown in the scale of the magnitude
				if m, t := f["magnitude"], f["magnitude_threshold"]; t <= 0 || math.Abs(m/t-magnitude/threshold) > 1e-5 {
					vsched.Fail("%s: magnitude %v of %v is shown as %v of %v", what, magnitude, threshold, m, t)
				}
				if f["state"] > 0 != state || f["debounced"] > 0 != effective || set.frames["signal"]["state"] > 0 != effective {
					vsched.Fail("%s: state %v debounced %v: %v %v", what, state, effective, f, set.frames["signal"])
				}
				vsched.Advance(1000)
			}
			d.Close()
		})
		vsched.Outcome("ok")
	})
}
