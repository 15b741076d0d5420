// Harness for the signal processing: all inputs within bounds against naive implementations.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/cmplx"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/zzverif/mcrun"
)

func main() {
	debounceJobs()
	spectrumJobs()
	mappingJobs()
	peakJobs()
	noiseJobs()
	rollingJobs()
	goertzelJobs()
	mcrun.Main()
}

func near(a, b, tolerance float64) bool {
	return math.Abs(a-b) <= tolerance*(1+math.Abs(a)+math.Abs(b))
}

// --- C15 ---

// debounced is the state after a history of raw states and the thresholds that are valid for each of them.
func debounced(raw []bool, thresholds []int) bool {
	state := false
	for i := range raw {
		stable := 0
		for j := i; j >= 0 && raw[j] == raw[i]; j-- {
			stable++
		}
		if stable >= thresholds[i] {
			state = raw[i]
		}
	}
	return state
}

func debounceJobs() {
	prop := "C15"
	for threshold := -1; threshold <= 6; threshold++ {
		mcrun.Job(prop, fmt.Sprintf("all raw states, threshold %d", threshold), func(c *mcrun.Ctx) {
			n := mcrun.Tier(c, 20, 24)
			thresholds := make([]int, n)
			for i := range thresholds {
				thresholds[i] = threshold
			}
			for x := 0; x < 1<<n; x++ {
				d := dsp.NewBoolDebouncer(threshold)
				// every threshold of 1 or less passes the raw states
				state, stable := false, 0
				for i := 0; i < n; i++ {
					raw := x>>i&1 == 1
					if i > 0 && raw == (x>>(i-1)&1 == 1) {
						stable++
					} else {
						stable = 1
					}
					if stable >= threshold {
						state = raw
					}
					if got := d.Debounce(raw); got != state {
						c.Fail("the debounced state is wrong", "%0*b (the last bit is the first one), threshold %d: %v after %d", n, x, threshold, got, i+1)
					}
				}
				if d.Threshold() != threshold {
					c.Fail("the threshold is wrong", "%d instead of %d", d.Threshold(), threshold)
				}
				c.Trace()
				if x%4096 == 0 {
					c.State()
					if c.Expired() {
						return
					}
				}
			}
		})
	}
	mcrun.Job(prop, "large thresholds", func(c *mcrun.Ctx) {
		// all sequences of up to three runs around the threshold
		for _, threshold := range []int{7, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, mcrun.Tier(c, 40000, 70000)} {
			lengths := []int{1, threshold / 2, threshold - 1, threshold, threshold + 1, 2 * threshold, 5*threshold + 3}
			for _, a := range lengths {
				for _, b := range lengths {
					for _, e := range lengths {
						d := dsp.NewBoolDebouncer(threshold)
						raw, state, at := true, false, 0
						for _, n := range []int{a, b, e} {
							for i := 1; i <= n; i++ {
								if i >= threshold {
									state = raw
								}
								at++
								if got := d.Debounce(raw); got != state {
									c.Fail("the debounced state is wrong", "threshold %d, runs of %d, %d, %d: %v after %d", threshold, a, b, e, got, at)
								}
							}
							raw = !raw
						}
						c.Trace()
					}
				}
				if c.Expired() {
					return
				}
			}
			c.State()
		}
	})
	mcrun.Job(prop, "the threshold changes", func(c *mcrun.Ctx) {
		// all raw states, all positions of two changes
		n := mcrun.Tier(c, 12, 14)
		raw := make([]bool, n)
		thresholds := make([]int, n)
		for x := 0; x < 1<<n; x++ {
			for i := range raw {
				raw[i] = x>>i&1 == 1
			}
			for t := 0; t < 4*4*4; t++ {
				t1, t2, t3 := t&3+1, t>>2&3+1, t>>4&3+1
				for a := 0; a <= n; a++ {
					for b := a; b <= n; b++ {
						if b > a+3 && b < n {
							continue
						}
						d := dsp.NewBoolDebouncer(t1)
						var got bool
						for i := range raw {
							thresholds[i] = t1
							if i >= a {
								thresholds[i] = t2
							}
							if i >= b {
								thresholds[i] = t3
							}
							if i == a {
								d.SetThreshold(t2)
							}
							if i == b {
								d.SetThreshold(t3)
							}
							got = d.Debounce(raw[i])
						}
						if got != debounced(raw, thresholds) {
							c.Fail("the debounced state is wrong after changes of the threshold", "%v, thresholds %v: %v", raw, thresholds, got)
						}
						c.Trace()
					}
				}
			}
			c.State()
			if c.Expired() {
				return
			}
		}
	})
}

// --- C16 ---

func naiveSpectrum(iq []float64) []complex128 {
	n := len(iq) / 2
	res := make([]complex128, n)
	for k := range res {
		bin := k - n/2 // the zero frequency is in the middle
		for i := 0; i < n; i++ {
			res[k] += complex(iq[2*i], iq[2*i+1]) * cmplx.Rect(1, -2*math.Pi*float64(bin*i)/float64(n))
		}
	}
	return res
}

func spectrumJobs() {
	prop := "C16"
	values := []float64{0, 1, -1}
	mcrun.Job(prop, "all samples of small blocks", func(c *mcrun.Ctx) {
		f := dsp.NewFFT[float64]()
		for _, n := range []int{2, 4} {
			all := 1
			for i := 0; i < 2*n; i++ {
				all *= len(values)
			}
			for x := 0; x < all; x++ {
				iq := make([]float64, 2*n)
				y := x
				for i := range iq {
					iq[i] = values[y%len(values)]
					y /= len(values)
				}
				compare(c, f, iq)
			}
			c.State()
		}
	})
	mcrun.Job(prop, "all positions in blocks", func(c *mcrun.Ctx) {
		// the transformation is linear: one sample is enough, two show that it is linear
		f := dsp.NewFFT[float64]()
		for _, n := range []int{2, 4, 8, 16, 32, 64, 128} {
			for i := 0; i < 2*n; i++ {
				for j := i; j < 2*n; j++ {
					if n >= mcrun.Tier(c, 64, 256) && j > i+2 {
						break
					}
					iq := make([]float64, 2*n)
					iq[i] += 0.5
					iq[j] -= 0.25
					compare(c, f, iq)
				}
				if c.Expired() {
					return
				}
			}
			c.State()
		}
	})
	mcrun.Job(prop, "tones", func(c *mcrun.Ctx) {
		f := dsp.NewFFT[float32]()
		for n := 16; n <= mcrun.Tier(c, 2048, 4096); n *= 2 {
			iq := make([]float32, 2*n)
			spectrum, psd, only := make([]float32, n), make([]float32, n), make([]float32, n)
			for bin := 0; bin < n; bin++ {
				for _, amplitude := range []float64{1, 0.01} {
					phase := float64(bin%7) / 7
					for i := 0; i < n; i++ {
						s := cmplx.Rect(amplitude, 2*math.Pi*(phase+float64((bin-n/2)*i)/float64(n)))
						iq[2*i], iq[2*i+1] = float32(real(s)), float32(imag(s))
					}
					f.IQToSpectrumAndPSD(spectrum, psd, iq, dsp.MagnitudeIndB[float32])
					f.IQToSpectrum(only, iq, dsp.MagnitudeIndB[float32])
					best := 0
					for i := range spectrum {
						if spectrum[i] != only[i] {
							c.Fail("the spectrum is different without PSD", "bin %d of %d: %v instead of %v", i, n, only[i], spectrum[i])
						}
						if psd[i] > psd[best] {
							best = i
						}
						if math.IsNaN(float64(spectrum[i])) || math.IsInf(float64(spectrum[i]), 0) {
							c.Fail("the spectrum is not finite", "bin %d of %d: %v", i, n, spectrum[i])
						}
						if i != bin && spectrum[i] > spectrum[bin]-60 {
							c.Fail("a tone in other bins", "tone in bin %d of %d, %v dB in bin %d: %v dB", bin, n, spectrum[bin], i, spectrum[i])
						}
						if back := dsp.PSDValueIndB(psd[i], n); i == bin && !near(float64(back), float64(spectrum[i]), 1e-4) {
							c.Fail("the PSD shows another value", "tone in bin %d of %d: %v dB instead of %v dB", bin, n, back, spectrum[bin])
						}
					}
					if best != bin {
						c.Fail("a tone in the wrong bin", "tone in bin %d of %d: %d", bin, n, best)
					}
					// the level does not depend on the block size
					if want := 10 * math.Log10(20*amplitude*amplitude); !near(float64(spectrum[bin]), want, 1e-3) {
						c.Fail("a tone with the wrong level", "bin %d of %d: %v dB instead of %v dB", bin, n, spectrum[bin], want)
					}
					if want := math.Pow(amplitude*float64(n), 2); !near(float64(psd[bin]), want, 1e-3) {
						c.Fail("a tone with the wrong PSD", "bin %d of %d: %v instead of %v", bin, n, psd[bin], want)
					}
					c.Trace()
				}
				if c.Expired() {
					return
				}
			}
			c.State()
		}
	})
	mcrun.Job(prop, "block sizes change", func(c *mcrun.Ctx) {
		// all sequences of block sizes with one FFT
		sizes := []int{2, 4, 8, 16}
		n := mcrun.Tier(c, 4, 6)
		for x := 0; x < 1<<(2*n); x++ {
			f := dsp.NewFFT[float64]()
			for i := 0; i < n; i++ {
				size := sizes[x>>(2*i)&3]
				iq := make([]float64, 2*size)
				iq[i%len(iq)] = 1
				iq[len(iq)-1] += 0.5
				compare(c, f, iq)
			}
			c.State()
			if c.Expired() {
				return
			}
		}
	})
	mcrun.Job(prop, "levels", func(c *mcrun.Ctx) {
		for _, n := range []int{1, 2, 16, 512, 2048} {
			last := math.Inf(-1)
			for e := -30; e <= 12; e++ {
				for m := 1; m < 10; m++ {
					a := float64(m) * math.Pow10(e)
					v := complex(a*0.6, -a*0.8)
					if got := dsp.Magnitude[float64](v, n); !near(got, a, 1e-9) {
						c.Fail("the magnitude is wrong", "%v: %v", v, got)
					}
					if got := dsp.PSD[float64](v, n); math.Abs(got-a*a) > 1e-9*a*a {
						c.Fail("the PSD is wrong", "%v: %v", v, got)
					}
					got := dsp.MagnitudeIndB[float64](v, n)
					want := max(-200, 10*math.Log10(20*a*a/float64(n*n)))
					if !near(got, want, 1e-9) {
						c.Fail("the level is wrong", "%v, %d bins: %v instead of %v", v, n, got, want)
					}
					if got < last-1e-9 {
						c.Fail("a stronger signal has a lower level", "%v, %d bins: %v after %v", v, n, got, last)
					}
					last = got
					if got := dsp.PSDValueIndB(a*a, n); !near(got, want, 1e-9) {
						c.Fail("the level of a PSD value is wrong", "%v, %d bins: %v instead of %v", a*a, n, got, want)
					}
					c.Trace()
				}
			}
			if a, b := dsp.MagnitudeIndB[float32](0, n), dsp.PSDValueIndB[float32](0, n); math.IsInf(float64(a), 0) || math.IsInf(float64(b), 0) || a != b || a > -150 {
				c.Fail("the level of silence is wrong", "%v, %v", a, b)
			}
			c.State()
		}
	})
}

func compare(c *mcrun.Ctx, f *dsp.FFT[float64], iq []float64) {
	n := len(iq) / 2
	before := fmt.Sprint(iq)
	spectrum, psd := make([]float64, n), make([]float64, n)
	for i := range spectrum {
		spectrum[i], psd[i] = 77, 77
	}
	blockSizes := 0
	c.Guard(func() string { return before }, func() {
		f.IQToSpectrumAndPSD(spectrum, psd, iq, func(v complex128, blockSize int) float64 {
			blockSizes += blockSize
			return dsp.Magnitude[float64](v, blockSize)
		})
	})
	if blockSizes != n*n {
		c.Fail("the projection gets the wrong block size", "%v", iq)
	}
	want := naiveSpectrum(iq)
	for i, v := range want {
		if !near(spectrum[i], cmplx.Abs(v), 1e-9) {
			c.Fail("the spectrum is wrong", "%v, bin %d: %v instead of %v", iq, i, spectrum[i], cmplx.Abs(v))
		}
		if !near(psd[i], real(v)*real(v)+imag(v)*imag(v), 1e-9) {
			c.Fail("the PSD is wrong", "%v, bin %d: %v instead of %v", iq, i, psd[i], real(v)*real(v)+imag(v)*imag(v))
		}
	}
	if fmt.Sprint(iq) != before {
		c.Fail("the samples are changed", "%s: %v", before, iq)
	}
	c.Trace()
}

// --- C17 ---

func mappingJobs() {
	prop := "C17"
	sampleRates := []int{12000, 24000, 48000, 96000, 192000, 384000}
	centers := []int{0, 7020000, 14040123, 1, 144300000, -5, 2400000000, 10489550000}
	for _, n := range []int{16, 32, 128, 512, 2048} {
		n := n
		mcrun.Job(prop, fmt.Sprintf("all bins of %d", n), func(c *mcrun.Ctx) {
			for _, sampleRate := range sampleRates {
				for _, center := range centers {
					m := dsp.NewFrequencyMapping(sampleRate, n, 0)
					m.SetCenterFrequency(center)
					checkMapping(c, m, sampleRate, n, center)
					m64 := dsp.NewFrequencyMapping(sampleRate, n, float64(center))
					for bin := 0; bin < n; bin++ {
						for _, l := range []dsp.BinLocation{dsp.BinFrom, dsp.BinCenter, dsp.BinTo, 0.25, -0.3} {
							if a, b := m.BinToFrequency(bin, l), m64.BinToFrequency(bin, l); math.Abs(float64(a)-b) > 1 {
								c.Fail("the type of the frequency makes a difference", "bin %d, %v: %v and %v", bin, l, a, b)
							}
						}
					}
					c.State()
					if c.Expired() {
						return
					}
				}
			}
		})
	}
	mcrun.Job(prop, "all frequencies", func(c *mcrun.Ctx) {
		for _, sampleRate := range []int{12000, 48000} {
			for _, n := range []int{64, 512} {
				center := 7020000
				m := dsp.NewFrequencyMapping(sampleRate, n, center)
				m64 := dsp.NewFrequencyMapping(sampleRate, n, float64(center))
				binSize := float64(sampleRate) / float64(n)
				step := 1
				last := 0
				for f := center - sampleRate; f <= center+sampleRate; f += step {
					exact := (float64(f) - float64(center)) / binSize // distance from the center in bins
					got := m.FrequencyToBin(f)
					if got < 0 || got >= n {
						c.Fail("a bin outside of the spectrum", "%d Hz, %d Hz with %d bins: %d", f, sampleRate, n, got)
					}
					if got < last {
						c.Fail("a higher frequency has a lower bin", "%d Hz, %d Hz with %d bins: %d", f, sampleRate, n, got)
					}
					last = got
					want := math.Max(0, math.Min(float64(n-1), exact+float64(n/2)))
					if math.Abs(float64(got)-want) > 0.5+1e-9 {
						c.Fail("a frequency is not in the nearest bin", "%d Hz, %d Hz with %d bins: %d instead of %v", f, sampleRate, n, got, want)
					}
					if b := m64.FrequencyToBin(float64(f)); b != got {
						c.Fail("the type of the frequency makes a difference", "%d Hz: %d and %d", f, got, b)
					}
					if exact > -float64(n)/2 && exact < float64(n)/2-1 {
						// the frequency is between the borders of its bin
						if from, to := m.BinToFrequency(got, dsp.BinFrom), m.BinToFrequency(got, dsp.BinTo); f < from-1 || f > to+1 {
							c.Fail("a frequency is not between the borders of its bin", "%d Hz, bin %d from %d to %d", f, got, from, to)
						}
					}
					c.Trace()
				}
				c.State()
			}
		}
	})
	mcrun.Job(prop, "all sequences of center frequencies", func(c *mcrun.Ctx) {
		n := mcrun.Tier(c, 4, 5)
		all := 1
		for i := 0; i < n; i++ {
			all *= len(centers)
		}
		for x := 0; x < all; x++ {
			m := dsp.NewFrequencyMapping(48000, 16, centers[x%len(centers)])
			for y := x; y > 0; y /= len(centers) {
				center := centers[y%len(centers)]
				m.SetCenterFrequency(center)
				checkMapping(c, m, 48000, 16, center)
			}
			c.State()
		}
	})
}

func checkMapping(c *mcrun.Ctx, m *dsp.FrequencyMapping[int], sampleRate, n, center int) {
	binSize := float64(sampleRate) / float64(n)
	for bin := 0; bin < n; bin++ {
		f := m.BinToFrequency(bin, dsp.BinCenter)
		exact := float64(center) + float64(bin-n/2)*binSize
		if math.Abs(float64(f)-exact) > 1 {
			c.Fail("the frequency of a bin is wrong", "bin %d of %d, %d Hz around %d Hz: %d instead of %v", bin, n, sampleRate, center, f, exact)
		}
		if back := m.FrequencyToBin(f); back != bin {
			c.Fail("the frequency of a bin is in another bin", "bin %d of %d, %d Hz around %d Hz: %d Hz is in bin %d", bin, n, sampleRate, center, f, back)
		}
		if from := m.BinToFrequency(bin, dsp.BinFrom); math.Abs(float64(from)-(exact-binSize/2)) > 1 {
			c.Fail("the lower border of a bin is wrong", "bin %d of %d, %d Hz around %d Hz: %d", bin, n, sampleRate, center, from)
		}
		if to := m.BinToFrequency(bin, dsp.BinTo); math.Abs(float64(to)-(exact+binSize/2)) > 1 {
			c.Fail("the upper border of a bin is wrong", "bin %d of %d, %d Hz around %d Hz: %d", bin, n, sampleRate, center, to)
		}
		c.Step()
	}
	if sampleRate%2 == 0 && m.FrequencyToBin(center) != n/2 {
		c.Fail("the center frequency is not in the center", "%d Hz: bin %d of %d", center, m.FrequencyToBin(center), n)
	}
	c.Trace()
}

// --- C18 ---

type peak struct{ from, to, signal, value int }

func naivePeaks(spectrum []int, cumulation, threshold int) []peak {
	above := func(i int) bool {
		return i >= 0 && i < len(spectrum) && float64(spectrum[i])/float64(cumulation) > float64(threshold)
	}
	var res []peak
	for from := range spectrum {
		for to := from; to < len(spectrum); to++ {
			inside := true
			for i := from; i <= to; i++ {
				inside = inside && above(i)
			}
			if !inside || above(from-1) || above(to+1) {
				continue
			}
			p := peak{from: from, to: to, signal: from}
			for i := from; i <= to; i++ {
				if spectrum[i] > spectrum[p.signal] {
					p.signal = i
				}
			}
			p.value = spectrum[p.signal]
			res = append(res, p)
		}
	}
	return res
}

func peakJobs() {
	prop := "C18"
	for _, offset := range []int{0, -20, 5} {
		offset := offset
		mcrun.Job(prop, fmt.Sprintf("all spectra, values from %d", offset), func(c *mcrun.Ctx) {
			var peaks []dsp.Peak[float64, int]
			var peaks32 []dsp.Peak[float32, float32]
			for n := 1; n <= mcrun.Tier(c, 9, 11); n++ {
				m := dsp.NewFrequencyMapping(100*n, n, 7000000)
				m32 := dsp.NewFrequencyMapping(100*n, n, float32(70000))
				all := 1
				for i := 0; i < n; i++ {
					all *= 4
				}
				ints := make([]int, n)
				block, block32 := make(dsp.Block[float64], n), make(dsp.Block[float32], n)
				for x := 0; x < all; x++ {
					y := x
					for i := range ints {
						ints[i] = y%4*4 + offset
						block[i] = float64(ints[i])
						block32[i] = float32(ints[i])
						y /= 4
					}
					for _, cumulation := range []int{1, 4} {
						for level := -1; level <= 3; level++ {
							// at, between and beyond the values
							threshold := float64(level*4+offset) / float64(cumulation)
							if cumulation == 4 && (level*4+offset)%4 != 0 {
								threshold = float64(level) // between the values
							}
							peaks = dsp.FindPeaks(peaks, block, cumulation, threshold, m)
							want := referencePeaks(ints, cumulation, threshold)
							ok := len(peaks) == len(want)
							for i := 0; ok && i < len(want); i++ {
								w, p := want[i], peaks[i]
								ok = p.From == w.from && p.To == w.to && p.SignalBin == w.signal && near(p.SignalValue, float64(w.value)/float64(cumulation), 1e-9)
								checkPeak(c, m, block, p, n)
							}
							if !ok {
								c.Fail("the peaks are wrong", "%v, cumulation %d, threshold %v: %v instead of %v", ints, cumulation, threshold, peaks, want)
							}
							peaks32 = dsp.FindPeaks(peaks32, block32, cumulation, float32(threshold), m32)
							if len(peaks32) != len(want) {
								c.Fail("the peaks are wrong", "%v, cumulation %d, threshold %v: %v instead of %v", ints, cumulation, threshold, peaks32, want)
							}
							c.Trace()
						}
					}
				}
				c.State()
				if c.Expired() {
					return
				}
			}
		})
	}
	mcrun.Job(prop, "the center of a signal", func(c *mcrun.Ctx) {
		// three neighbors decide about the frequency of a signal
		values := []float64{-120, -100.5, -60, -1, -0.001, 0, 1e-6, 3e-6, 0.0002, 0.001, 1, 3, 5, 60, 60.0001, 100}
		for _, a := range values {
			for _, b := range values {
				for _, d := range values {
					block := dsp.Block[float64]{0, a, b, d, 0}
					got := float64(dsp.PeakCenterCorrection[float64, float64](2, block))
					if math.IsNaN(got) || math.IsInf(got, 0) {
						c.Fail("the center of a signal is not finite", "%v: %v", block, got)
					}
					if b >= a && b >= d {
						if math.Abs(got) > 0.5+1e-9 {
							c.Fail("the center of a signal is outside of its bin", "%v: %v", block, got)
						}
						if (d > a && got <= 0) || (d < a && got >= 0) || (a == d && got != 0) {
							c.Fail("the center of a signal is on the wrong side", "%v: %v", block, got)
						}
						if b > a || b > d {
							// the vertex of the parabola through the three values
							vertex := (a - d) / (2 * (a - 2*b + d))
							if !near(got, vertex, 1e-9) {
								c.Fail("the center of a signal is not the vertex", "%v: %v instead of %v", block, got, vertex)
							}
						}
					}
					c.Trace()
				}
			}
			c.State()
		}
		for _, n := range []int{1, 2, 3} {
			for bin := 0; bin < n; bin++ {
				block := make(dsp.Block[float64], n)
				block[bin] = 1
				if got := dsp.PeakCenterCorrection[float64, float64](bin, block); got != 0 {
					c.Fail("the center of a signal is on the wrong side", "%v: %v", block, got)
				}
			}
		}
	})
	mcrun.Job(prop, "tones between the bins", func(c *mcrun.Ctx) {
		// the frequency of a signal is found better than the resolution of the spectrum
		n := 64
		sampleRate := 6400
		f := dsp.NewFFT[float64]()
		m := dsp.NewFrequencyMapping(sampleRate, n, 7000000.0)
		spectrum, psd := make([]float64, n), make([]float64, n)
		var peaks []dsp.Peak[float64, float64]
		for hz := -3150; hz <= 3050; hz += mcrun.Tier(c, 5, 1) {
			iq := make([]float64, 2*n)
			for i := 0; i < n; i++ {
				s := cmplx.Rect(0.5, 2*math.Pi*float64(hz)*float64(i)/float64(sampleRate))
				iq[2*i], iq[2*i+1] = real(s), imag(s)
			}
			f.IQToSpectrumAndPSD(spectrum, psd, iq, dsp.MagnitudeIndB[float64])
			level := -3.0
			peaks = dsp.FindPeaks(peaks, spectrum, 1, level, m)
			if len(peaks) != 1 {
				c.Fail("a tone is not one peak", "%d Hz: %v", hz, peaks)
			}
			p := peaks[0]
			if d := math.Abs(p.SignalFrequency - (7000000 + float64(hz))); d > 51 {
				c.Fail("the frequency of a tone is wrong", "%d Hz: %v", hz, p.SignalFrequency)
			}
			if p.FromFrequency-1 > 7000000+float64(hz) || p.ToFrequency+1 < 7000000+float64(hz) {
				c.Fail("a tone is not in its peak", "%d Hz: %v", hz, p)
			}
			c.Trace()
		}
	})
	mcrun.Job(prop, "all sections of blocks", func(c *mcrun.Ctx) {
		for n := 1; n <= mcrun.Tier(c, 6, 8); n++ {
			all := 1
			for i := 0; i < n; i++ {
				all *= 4
			}
			block := make(dsp.Block[int], n)
			for x := 0; x < all; x++ {
				y := x
				for i := range block {
					block[i] = []int{-3, 0, 2, 7}[y%4]
					y /= 4
				}
				if block.Size() != n {
					c.Fail("the size of a block is wrong", "%v: %d", block, block.Size())
				}
				for from := 0; from < n; from++ {
					sum, best := 0, from
					for to := from; to < n; to++ {
						sum += block[to]
						if block[to] > block[best] {
							best = to
						}
						if got := block.Sum(from, to); got != sum {
							c.Fail("the sum is wrong", "%v, %d to %d: %d", block, from, to, got)
						}
						if got := block.Mean(from, to); got != sum/(to-from+1) {
							c.Fail("the mean is wrong", "%v, %d to %d: %d", block, from, to, got)
						}
						if v, i := block.Max(from, to); v != block[best] || i != best {
							c.Fail("the maximum is wrong", "%v, %d to %d: %d at %d", block, from, to, v, i)
						}
						if s := block.Subblock(from, to); fmt.Sprint([]int(s)) != fmt.Sprint([]int(block[from:to+1])) {
							c.Fail("the section is wrong", "%v, %d to %d: %v", block, from, to, s)
						}
						p := dsp.Peak[int, int]{From: from, To: to, FromFrequency: from * 100, ToFrequency: to*100 + 100}
						if p.Width() != to-from+1 || p.WidthHz() != p.Width()*100 || p.CenterFrequency() != (from+to+1)*50 || p.Center() != (from+to)/2 {
							c.Fail("the dimensions of a peak are wrong", "%+v: %d, %d, %d, %d", p, p.Width(), p.WidthHz(), p.CenterFrequency(), p.Center())
						}
						for bin := -1; bin <= n; bin++ {
							if p.ContainsBin(bin) != (bin >= from && bin <= to) {
								c.Fail("the bins of a peak are wrong", "%+v, bin %d: %v", p, bin, p.ContainsBin(bin))
							}
						}
						c.Step()
					}
				}
				c.Trace()
			}
			c.State()
		}
	})
}

func referencePeaks(spectrum []int, cumulation int, threshold float64) []peak {
	// twice the value avoids fractions of the threshold
	scaled := make([]int, len(spectrum))
	for i, v := range spectrum {
		scaled[i] = 16 * v
	}
	res := naivePeaks(scaled, cumulation, int(math.Round(16*threshold)))
	for i := range res {
		res[i].value /= 16
	}
	return res
}

func checkPeak(c *mcrun.Ctx, m *dsp.FrequencyMapping[int], block dsp.Block[float64], p dsp.Peak[float64, int], n int) {
	// bins of 100 Hz
	frequency := func(bin int) int { return 7000000 - 100*n/2 + bin*100 }
	if math.Abs(float64(p.FromFrequency-(frequency(p.From)-50))) > 1 || math.Abs(float64(p.ToFrequency-(frequency(p.To)+50))) > 1 {
		c.Fail("the frequencies of a peak are wrong", "%v: %+v", block, p)
	}
	if math.Abs(float64(p.SignalFrequency-frequency(p.SignalBin))) > 51 {
		c.Fail("the frequency of a signal is not in its bin", "%v: %+v", block, p)
	}
	if d := p.SignalFrequency - dsp.SignalFrequency(p.SignalBin, block, m); d < -1 || d > 1 {
		c.Fail("the frequency of a signal depends on where it is calculated", "%v: %+v", block, p)
	}
	if i := p.SignalBin; i > 0 && i < n-1 {
		if l, r := block[i-1], block[i+1]; (l > r && p.SignalFrequency > frequency(i)) || (l < r && p.SignalFrequency < frequency(i)) || (l == r && p.SignalFrequency != frequency(i)) {
			c.Fail("the frequency of a signal is on the wrong side", "%v: %+v", block, p)
		}
	}
}

func noiseJobs() {
	prop := "C18"
	mcrun.Job(prop, "the noise floor", func(c *mcrun.Ctx) {
		// ten windows of one or two values
		for _, size := range []int{10, 20, 12, 27} {
			for edge := 0; edge <= 3; edge++ {
				n := size + 2*edge
				bitCount := mcrun.Tier(c, 18, 21)
				window := size / 10
				for x := 0; x < 1<<min(size, bitCount); x++ {
					psd := make(dsp.Block[float64], n)
					for i := range psd {
						psd[i] = 1000 // the edges are no noise
						if i >= edge && i < n-edge {
							j := i - edge
							psd[i] = 2 + float64(j%3)
							if x>>(j%bitCount)&1 == 1 {
								psd[i] = 50 + float64(j%5)
							}
						}
					}
					best, variance := math.Inf(1), 0.0
					for w := 0; w+window <= size; w += window {
						mean, v := 0.0, 0.0
						for i := 0; i < window; i++ {
							mean += psd[edge+w+i] / float64(window)
						}
						for i := 0; i < window; i++ {
							v += math.Pow(psd[edge+w+i]-mean, 2) / float64(window)
						}
						if mean < best-1e-9 {
							best, variance = mean, v
						}
					}
					floor, v := dsp.FindNoiseFloor(psd, edge)
					if !near(floor, best, 1e-9) || !near(v, variance, 1e-9) {
						c.Fail("the noise floor is wrong", "%v, edges of %d: %v, variance %v instead of %v, %v", psd, edge, floor, v, best, variance)
					}
					c.Trace()
				}
				c.State()
				if c.Expired() {
					return
				}
			}
		}
	})
}

// --- C19 ---

func rollingJobs() {
	prop := "C19"
	values := []float64{0, 1, -2, 4.5}
	mcrun.Job(prop, "rolling mean and variance", func(c *mcrun.Ctx) {
		for n := 1; n <= 4; n++ {
			depth := mcrun.Tier(c, 9, 11)
			all := 1
			for i := 0; i < depth; i++ {
				all *= 5
			}
			for x := 0; x < all; x++ {
				mean, variance := dsp.NewRollingMean[float64](n), dsp.NewRollingVariance[float64](n)
				window := make([]float64, n)
				y := x
				var hist []int
				for i := 0; i < depth; i++ {
					hist = append(hist, y%5)
					if y%5 == 4 {
						mean.Reset()
						variance.Reset()
						window = make([]float64, n)
					} else {
						v := values[y%5]
						window = append(window[1:], v)
						a, b := mean.Put(v), variance.Put(v)
						if a != mean.Get() || b != variance.Get() {
							c.Fail("get and put are different", "%v, window of %d: %v and %v, %v and %v", hist, n, a, mean.Get(), b, variance.Get())
						}
					}
					var sum, squares float64
					for _, v := range window {
						sum += v
					}
					for _, v := range window {
						squares += math.Pow(v-sum/float64(n), 2)
					}
					if !near(mean.Get(), sum/float64(n), 1e-9) {
						c.Fail("the rolling mean is wrong", "%v, window of %d: %v instead of %v", hist, n, mean.Get(), sum/float64(n))
					}
					if !near(variance.Get(), squares/float64(n), 1e-9) {
						c.Fail("the rolling variance is wrong", "%v, window of %d: %v instead of %v", hist, n, variance.Get(), squares/float64(n))
					}
					c.Step()
					y /= 5
				}
				c.Trace()
				if x%4096 == 0 && c.Expired() {
					return
				}
			}
			c.State()
		}
	})
	mcrun.Job(prop, "long windows", func(c *mcrun.Ctx) {
		// with values of any size, which leave no trace when they are out of the window
		extreme := []float64{0, 1e3, 1e8, 1e16, 1e20, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN()}
		for _, n := range []int{1, 2, 3, 7, 60, 64, 65, 100, mcrun.Tier(c, 200, 1000)} {
			for _, v := range extreme {
				for _, at := range []int{0, 1, n / 2, n - 1, n, n + 1, 3*n + 1} {
					for _, reset := range []int{-1, at, at + 1, at + n/2 + 1} {
						mean, variance, history := dsp.NewRollingMean[float64](n), dsp.NewRollingVariance[float64](n), dsp.NewRollingHistory[float64](n)
						window := make([]float64, n)
						clean := n
						for i := 0; i < at+2*n+3; i++ {
							if i == reset {
								mean.Reset()
								variance.Reset()
								history.Reset()
								window = make([]float64, n)
								clean = n
							}
							x := float64((i*7)%13) / 4
							clean++
							if i == at {
								x = v
								clean = 0
							}
							window = append(window[1:], x)
							gotMean, gotVariance := mean.Put(x), variance.Put(x)
							history.Put(x)
							if i%13 != 0 && i < at+n && i > 5 {
								continue
							}
							if clean < n && !(math.Abs(v) < 1e9) {
								continue
							}
							var sum, squares float64
							for _, w := range window {
								sum += w
							}
							for _, w := range window {
								squares += math.Pow(w-sum/float64(n), 2)
							}
							if !near(gotMean, sum/float64(n), 1e-9) || !near(mean.Get(), sum/float64(n), 1e-9) {
								c.Fail("the rolling mean is wrong", "window of %d, %v at %d, reset at %d: %v instead of %v at %d", n, v, at, reset, gotMean, sum/float64(n), i)
							}
							if !near(gotVariance, squares/float64(n), 1e-9) || !near(variance.Get(), squares/float64(n), 1e-9) {
								c.Fail("the rolling variance is wrong", "window of %d, %v at %d, reset at %d: %v instead of %v at %d", n, v, at, reset, gotVariance, squares/float64(n), i)
							}
							for _, k := range []int{1, n/2 + 1, n} {
								if history.Get(k) != window[n-k] {
									c.Fail("the history is wrong", "length %d, %v at %d, reset at %d: the %dth last is %v instead of %v at %d", n, v, at, reset, k, history.Get(k), window[n-k], i)
								}
							}
							if !near(history.Mean(n), sum/float64(n), 1e-9) || !near(history.Variance(n), squares/float64(n), 1e-9) {
								c.Fail("a function of the history is wrong", "length %d, %v at %d, reset at %d: %v, %v at %d", n, v, at, reset, history.Mean(n), history.Variance(n), i)
							}
							c.Step()
						}
						c.Trace()
					}
				}
				if c.Expired() {
					return
				}
			}
			c.State()
		}
	})
	mcrun.Job(prop, "rolling history", func(c *mcrun.Ctx) {
		for n := 1; n <= 5; n++ {
			depth := mcrun.Tier(c, 8, 10)
			all := 1
			for i := 0; i < depth; i++ {
				all *= 5
			}
			for x := 0; x < all; x++ {
				h := dsp.NewRollingHistory[float64](n)
				window := make([]float64, n)
				y := x
				var hist []int
				for i := 0; i < depth; i++ {
					hist = append(hist, y%5)
					if y%5 == 4 {
						h.Reset()
						window = make([]float64, n)
					} else {
						h.Put(values[y%5])
						window = append(window[1:], values[y%5])
					}
					y /= 5
				}
				for k := 1; k <= n; k++ {
					last := window[n-k:]
					if got := h.Get(k); got != last[0] {
						c.Fail("the history is wrong", "%v, length %d: the %dth last is %v", hist, n, k, got)
					}
					lo, hi, sum := last[0], last[0], 0.0
					for _, v := range last {
						lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
					}
					variance := 0.0
					for _, v := range last {
						variance += math.Pow(v-sum/float64(k), 2) / float64(k)
					}
					if h.Min(k) != lo || h.Max(k) != hi || !near(h.Sum(k), sum, 1e-9) || !near(h.Mean(k), sum/float64(k), 1e-9) || !near(h.Variance(k), variance, 1e-9) || !near(h.SDev(k), math.Sqrt(variance), 1e-6) {
						c.Fail("a function of the history is wrong", "%v, the last %d of %d: %v %v %v %v %v %v", hist, k, n, h.Min(k), h.Max(k), h.Sum(k), h.Mean(k), h.Variance(k), h.SDev(k))
					}
					c.Step()
				}
				// all subsets of the positions
				for s := 1; s < 1<<n; s++ {
					var at []int
					lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
					for k := 1; k <= n; k++ {
						if s>>(k-1)&1 == 1 {
							v := window[n-k]
							at = append(at, k)
							lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
						}
					}
					if bits.OnesCount(uint(s)) > 1 && x%2 == 0 {
						at[0], at[len(at)-1] = at[len(at)-1], at[0]
					}
					if h.MinAt(at...) != lo || h.MaxAt(at...) != hi || !near(h.SumAt(at...), sum, 1e-9) {
						c.Fail("a function of positions of the history is wrong", "%v, %v of %d: %v %v %v", hist, at, n, h.MinAt(at...), h.MaxAt(at...), h.SumAt(at...))
					}
				}
				c.Trace()
				if x%4096 == 0 && c.Expired() {
					return
				}
			}
			c.State()
		}
	})
}

func sine(n int, amplitude, frequency, phase float64, sampleRate int) dsp.FilterBlock {
	res := make(dsp.FilterBlock, n)
	for i := range res {
		res[i] = float32(amplitude * math.Sin(2*math.Pi*(phase+frequency*float64(i)/float64(sampleRate))))
	}
	return res
}

func goertzelJobs() {
	prop := "C19"
	sampleRates := []int{4000, 8000, 11025, 12000, 16000, 44100, 48000}
	mcrun.Job(prop, "all pitches", func(c *mcrun.Ctx) {
		for _, sampleRate := range sampleRates {
			for pitch := 20; pitch <= 1500; pitch += 1 {
				f := dsp.NewDefaultGoertzel(float64(pitch), sampleRate)
				n := f.Blocksize()
				period := float64(sampleRate) / float64(pitch)
				if n <= 0 || math.Abs(float64(n)-0.005*float64(sampleRate)) > math.Max(period/2+1, period-0.005*float64(sampleRate)+1) {
					c.Fail("the block size is wrong", "%d Hz, %d samples per second: %d", pitch, sampleRate, n)
				}
				if t := f.Tick().Seconds(); !near(t, float64(n)/float64(sampleRate), 1e-6) {
					c.Fail("the duration of a block is wrong", "%d Hz, %d samples per second: %v", pitch, sampleRate, t)
				}
				for phase := 0.0; phase < 1; phase += 0.25 {
					m := f.Magnitude(sine(n, 1, float64(pitch), phase, sampleRate))
					if m < 0.6*float64(n)/2 || m > 1.4*float64(n)/2 {
						// few samples per period leave some error
						if period > 4 {
							c.Fail("the magnitude of the pitch is wrong", "%d Hz, %d samples per second, phase %v: %v, block size %d", pitch, sampleRate, phase, m, n)
						}
					}
					c.Trace()
				}
				c.State()
				if c.Expired() {
					return
				}
			}
		}
	})
	mcrun.Job(prop, "all samples of small blocks", func(c *mcrun.Ctx) {
		// the filter is the absolute value of one DFT bin
		for _, k := range []int{4, 5, 8} {
			f := dsp.NewGoertzel(1000, 1000*k, 0.001)
			n := f.Blocksize()
			if n != k {
				c.Fail("the block size is wrong", "%d instead of %d", n, k)
			}
			all := 1
			for i := 0; i < n; i++ {
				all *= 3
			}
			for x := 0; x < all; x++ {
				block := make(dsp.FilterBlock, n)
				var want complex128
				top := float32(0)
				y := x
				for i := range block {
					block[i] = []float32{0, 1, -0.5}[y%3]
					top = max(top, block[i], -block[i])
					y /= 3
					want += complex(float64(block[i]), 0) * cmplx.Rect(1, -2*math.Pi*float64(i)/float64(n))
				}
				if got := f.Magnitude(block); !near(got, cmplx.Abs(want), 1e-5) && !(math.IsNaN(got) && cmplx.Abs(want) < 1e-6) {
					c.Fail("the magnitude is wrong", "%v: %v instead of %v", block, got, cmplx.Abs(want))
				}
				if got := block.Max(); got != top {
					c.Fail("the maximum of a block is wrong", "%v: %v", block, got)
				}
				c.Trace()
			}
			c.State()
		}
	})
	mcrun.Job(prop, "all sequences of blocks", func(c *mcrun.Ctx) {
		// the detection follows the strength of the signal, and a signal is detected again after any history
		f0 := dsp.NewDefaultGoertzel(700, 8000)
		n := f0.Blocksize()
		blocks := []dsp.FilterBlock{make(dsp.FilterBlock, n), sine(n, 1, 700, 0.1, 8000), sine(n, 0.3, 700, 0.2, 8000), sine(n, 3, 700, 0.3, 8000), sine(n, 1, 1400, 0, 8000), sine(n, 1.7, 700, 0.4, 8000)}
		depth := mcrun.Tier(c, 8, 10)
		all := 1
		for i := 0; i < depth; i++ {
			all *= len(blocks)
		}
		for _, threshold := range []float64{0.3, 0.75} {
			for x := 0; x < all; x++ {
				f := dsp.NewDefaultGoertzel(700, 8000)
				f.SetMagnitudeThreshold(threshold)
				if f.MagnitudeThreshold() != threshold {
					c.Fail("the threshold is wrong", "%v", f.MagnitudeThreshold())
				}
				var hist []int
				y := x
				limit := 0.0
				low := float64(n) / 2
				for i := 0; i < depth; i++ {
					b := blocks[y%len(blocks)]
					hist = append(hist, y%len(blocks))
					buf := append(append(dsp.FilterBlock{}, b...), 7, 7, 7)
					m := f.Magnitude(b)
					if m > low {
						limit += (m - limit) / 6
					}
					limit = max(limit, low)
					got, state, k, err := f.Detect(buf)
					if err != nil || k != n {
						c.Fail("a block is not accepted", "%v: %d of %d samples, %v", hist, k, n, err)
					}
					if !near(got, m/limit, 1e-9) {
						c.Fail("the normalized magnitude is wrong", "%v: %v instead of %v", hist, got, m/limit)
					}
					if state != (got > threshold) {
						c.Fail("the detected state is wrong", "%v: %v, magnitude %v, threshold %v", hist, state, got, threshold)
					}
					y /= len(blocks)
				}
				for k := 0; k < n; k++ {
					if x > 0 {
						break
					}
					if _, state, used, err := f.Detect(make([]float32, k)); err == nil || state || used != 0 {
						c.Fail("a short block is accepted", "%d samples: %v, %d, %v", k, state, used, err)
					}
				}
				c.Trace()
			}
			c.State()
		}
	})
}
