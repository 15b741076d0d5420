// Package iq synthesizes IQ data: noise, tones and keyed texts.
package iq

import (
	"fmt"
	"math"
	"strings"

	"github.com/ftl/digimodes/cw"
)

var cache = map[string][]float32{}

// Frame has n IQ samples with noise of a constant level and tones on bins (amplitude 0.5).
func Frame(n, variant int, bins ...int) []float32 {
	return LevelFrame(n, variant, 0.5, bins...)
}

// LevelFrame has tones with the given amplitude.
func LevelFrame(n, variant int, amplitude float64, bins ...int) []float32 {
	return BandFrame(n, variant, 0, amplitude, bins...)
}

// BandFrame has much less noise on the outer bins than in the passband.
func BandFrame(n, variant, edge int, amplitude float64, bins ...int) []float32 {
	variant %= 4
	key := fmt.Sprint(n, variant, edge, amplitude, bins)
	if f, ok := cache[key]; ok {
		return f
	}
	res := make([]float32, 2*n)
	tone := func(bin int, a, phase float64) {
		for i := 0; i < n; i++ {
			w := 2*math.Pi*float64((bin-n/2)*i%n)/float64(n) + phase
			res[2*i] += float32(a * math.Cos(w))
			res[2*i+1] += float32(a * math.Sin(w))
		}
	}
	seed := uint32(variant*7919 + 4711)
	for b := 0; b < n; b++ {
		seed = seed*1664525 + 1013904223
		phase := float64(seed>>8) / float64(1<<24) * 2 * math.Pi
		level := 0.0003
		if b < edge || b >= n-edge {
			level /= 30
		}
		tone(b, level*(0.9+0.2*float64(seed>>20)/4096), phase)
	}
	for _, b := range bins {
		tone(b, amplitude, float64(b))
	}
	cache[key] = res
	return res
}

// Keying returns the state of the key for every frame.
func Keying(text string, dit int) []bool {
	var res []bool
	add := func(state bool, n int) {
		for i := 0; i < n*dit; i++ {
			res = append(res, state)
		}
	}
	for _, w := range strings.Fields(text) {
		for _, r := range w {
			for _, s := range cw.Code[r] {
				if s == cw.Dit {
					add(true, 1)
				} else {
					add(true, 3)
				}
				add(false, 1)
			}
			add(false, 2)
		}
		add(false, 4)
	}
	return res
}
