package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const center = 7010000

// rig is a receiver with frames of 20 ms.
type rig struct {
	r    *rx.Receiver[float32, int]
	rec  *rxRecorder
	clk  *clock
	n    int
	rate int
	i    int
}

func newRig(mode rx.ReceiverMode, n int) *rig {
	g := &rig{rec: &rxRecorder{}, clk: &clock{t0}, n: n, rate: n * 50}
	g.r = rx.NewReceiver[float32, int]("", mode, g.clk)
	g.r.AddReporter(g.rec)
	g.r.SetEdgeWidth(0)
	g.r.SetCenterFrequency(center)
	return g
}

func (g *rig) start() { g.r.Start(g.rate, g.n) }

// freq is the frequency of the middle of a bin.
func (g *rig) freq(bin int) int { return center + (bin-g.n/2)*50 }

// bin is the bin that contains a frequency.
func (g *rig) bin(freq int) int {
	return int(math.Round(float64(freq-center)/50)) + g.n/2
}

var frameCache = map[string][]float32{}

// frame has noise and a tone on each of the given bins.
func frame(n, variant int, amplitude float64, bins ...int) []float32 {
	key := fmt.Sprint(n, variant, amplitude, bins)
	if f, ok := frameCache[key]; ok {
		return f
	}
	// the noise does not vary much, there are no bursts that are mistaken for signals
	seed := uint32(variant*7919 + 12345)
	res := append([]float32(nil), synth("noise", n, variant, func(int) float64 {
		seed = seed*1664525 + 1013904223
		return 0.00005 * (0.6 + 0.8*float64(seed>>8)/float64(1<<24))
	})...)
	for i := 0; i < n; i++ {
		var v complex128
		for _, b := range bins {
			v += cmplx.Rect(amplitude, 2*math.Pi*float64(b-n/2)*float64(i)/float64(n)+float64(b))
		}
		res[2*i] += float32(real(v))
		res[2*i+1] += float32(imag(v))
	}
	frameCache[key] = res
	return res
}

// send gives one frame to the receiver.
func (g *rig) send(bins ...int) {
	g.i++
	g.r.IQData(g.rate, frame(g.n, g.i%16, 0.5, bins...))
}

// feed lets the receiver process k frames.
func (g *rig) feed(k int, bins ...int) {
	for i := 0; i < k; i++ {
		g.send(bins...)
		if i%50 == 49 || i == k-1 {
			vsched.WaitQuiescent()
		}
	}
}

// second lets the clock of the program run, for the regular cleanup.
func second() {
	vsched.Advance(time.Second)
	vsched.WaitQuiescent()
}

// pairs checks that activations and deactivations alternate and returns what is active.
func pairs(events []event) map[string]int {
	active := map[string]int{}
	for _, e := range events {
		f, is := active[e.listener]
		switch e.kind {
		case "activated":
			if is {
				vsched.Fail("listener %s is activated twice: %s", e.listener, str(events))
			}
			for l, f := range active {
				if f == e.freq {
					vsched.Fail("listener %s is activated on the frequency of %s: %s", e.listener, l, str(events))
				}
			}
			active[e.listener] = e.freq
		case "deactivated":
			if !is || f != e.freq {
				vsched.Fail("listener %s is deactivated on %d, but not active there: %s", e.listener, e.freq, str(events))
			}
			delete(active, e.listener)
		default:
			if !is || f != e.freq {
				vsched.Fail("%s, but the listener is not active there: %s", e, str(events))
			}
		}
	}
	return active
}
