// Harness for TCI: markers, reception, connection. The TCI client is replaced by an in-memory version.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/tci"
	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	client "github.com/ftl/sdrainer/zzverif/shim/tciclient"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const (
	center = 7020000
	block  = 512
	rate   = 48000
	binHz  = float64(rate) / block
)

func main() {
	markerJobs()
	receptionJobs()
	settingsJobs()
	closeJobs()
	mcrun.Main()
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 2000000}
		vsched.Check(c, cfg, func() {
			client.OnKeepOpen, os.OnStdout = nil, nil
			body(c)
		})
	})
}

// checkLevels is a check that needs the noise level.
func checkLevels(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		noiseLevel()
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 2000000}
		vsched.Check(c, cfg, func() {
			client.OnKeepOpen, os.OnStdout = nil, nil
			body(c)
		})
	})
}

type spot struct {
	call string
	freq float64
	msg  string
	at   time.Time
}

// spotter records the spots.
type spotter struct {
	spots []spot
	after bool
}

func (s *spotter) Spot(call string, freq float64, msg string, at time.Time) {
	if s.after {
		vsched.Fail("a spot after the end: %s", call)
	}
	vsched.Observe("spot %s on %.0f", call, freq)
	s.spots = append(s.spots, spot{call, freq, msg, at})
}

// testScope records what it is shown.
type testScope struct {
	spectral []scope.SpectralFrame
	demod    []scope.TimeFrame
}

func (s *testScope) Active() bool { return true }
func (s *testScope) ShowTimeFrame(f *scope.TimeFrame) {
	if _, ok := f.Values["debounced"]; ok {
		s.demod = append(s.demod, *f)
	}
}
func (s *testScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.spectral = append(s.spectral, *f) }

// bench is a process with a device.
type bench struct {
	p     *tci.Process
	dev   *client.Client
	sp    *spotter
	out   strings.Builder
	i     int
	queue [][]float32
	trx   int
	edge  int // bins with less noise on both ends of the spectrum
}

// open starts the process. setup is called with the new client.
func open(trx int, mode rx.ReceiverMode, reporter rx.Reporter[int], setup func(b *bench)) *bench {
	b := &bench{sp: &spotter{}, trx: trx}
	os.OnStdout = func(s []byte) { b.out.Write(s) }
	client.OnKeepOpen = func(c *client.Client) {
		b.dev = c
		if setup != nil {
			setup(b)
		}
	}
	p, err := tci.New("localhost:40001", trx, mode, b.sp, reporter, false)
	if err != nil {
		vsched.Fail("cannot open the client: %v", err)
	}
	b.p = p
	return b
}

func (b *bench) dds(trx, f int) {
	b.dev.Deliver(func(l any) {
		if l, ok := l.(orig.DDSListener); ok {
			l.SetDDS(trx, f)
		}
	})
}

func (b *bench) vfo(trx int, vfo orig.VFO, f int) {
	b.dev.Deliver(func(l any) {
		if l, ok := l.(orig.IFListener); ok {
			l.SetIF(trx, vfo, f)
		}
	})
}

func (b *bench) data(trx, rate int, data []float32) {
	b.dev.Deliver(func(l any) {
		if l, ok := l.(orig.IQDataListener); ok {
			l.IQData(trx, orig.IQSampleRate(rate), data)
		}
	})
}

var messages = map[string][]float32{}

// message puts several blocks into one message.
func message(blocks ...[]float32) []float32 {
	key := ""
	for _, f := range blocks {
		key += fmt.Sprintf("%p ", &f[0])
	}
	if p, ok := messages[key]; ok {
		return p
	}
	var res []float32
	for _, f := range blocks {
		res = append(res, f...)
	}
	messages[key] = res
	return res
}

func (b *bench) frame(bins ...int) []float32 {
	b.i++
	return iq.BandFrame(block, b.i, b.edge, 0.5, bins...)
}

// feed lets the process receive k frames with tones on the given bins, 4 of them in each message.
func (b *bench) feed(k int, bins ...int) {
	for i := 0; i < k; i++ {
		b.queue = append(b.queue, b.frame(bins...))
		if len(b.queue) == 4 {
			b.data(b.trx, rate, message(b.queue...))
			b.queue = nil
		}
		if i%48 == 47 || i == k-1 {
			vsched.WaitQuiescent()
		}
	}
}

// key lets the process hear a text.
func (b *bench) key(text string, dit, bin int) {
	for _, on := range iq.Keying(text, dit) {
		if on {
			b.feed(1, bin)
		} else {
			b.feed(1)
		}
	}
}

func freqOf(bin int) float64 { return center + float64(bin-block/2)*binHz }

// finish closes the process in the default schedule.
func (b *bench) finish() {
	vsched.Quiet(func() {
		b.p.Close()
		b.end()
	})
}

func (b *bench) end() {
	b.sp.after = true
	vsched.WaitQuiescent()
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("still running: %s", l)
	}
}

// markers follows the commands and returns the markers on the device by name.
func (b *bench) markers() map[string]string {
	res := map[string]string{}
	for _, c := range b.dev.Commands {
		switch {
		case c == "disconnected":
			clear(res)
		case c == "spot_clear":
			clear(res)
		case strings.HasPrefix(c, "spot_delete "):
			delete(res, strings.TrimPrefix(c, "spot_delete "))
		case strings.HasPrefix(c, "spot "):
			p := strings.SplitN(strings.TrimPrefix(c, "spot "), ",", 5)
			if len(p) != 5 || p[0] == "" || p[1] != "cw" || p[3] == "0" {
				vsched.Fail("strange command %q", c)
			}
			if old := res[p[0]]; old != "" && !strings.HasPrefix(p[0], ">") {
				vsched.Fail("the listener %s has a second marker on %s, the first is on %s", p[0], p[2], old)
			}
			res[p[0]] = p[2]
		}
	}
	return res
}

// iqState tells what is going on with the IQ data.
func (b *bench) iqState() string {
	state := "off"
	for _, c := range b.dev.Commands {
		switch {
		case strings.HasPrefix(c, "iq_samplerate "):
			if c != "iq_samplerate 48000" {
				vsched.Fail("command %q", c)
			}
			if state == "off" {
				state = "off 48000"
			}
		case c == fmt.Sprintf("start_iq %d", b.trx):
			if state == "off" {
				vsched.Fail("started with an unknown sample rate: %v", b.dev.Commands)
			}
			state = "on"
		case c == "disconnected":
			state = "off"
		case c == fmt.Sprintf("stop_iq %d", b.trx):
			state = "off"
		case strings.HasPrefix(c, "start_iq"), strings.HasPrefix(c, "stop_iq"):
			vsched.Fail("command %q, the TRX is %d", c, b.trx)
		}
	}
	return state
}

// iqCount tells how often the IQ data was started.
func (b *bench) iqCount() int {
	n := 0
	for _, c := range b.dev.Commands {
		if c == "start_iq 0" {
			n++
		}
	}
	return n
}

func (b *bench) checkSpots(what, call string, freq float64) {
	if len(b.sp.spots) == 0 {
		vsched.Fail("%s: no spot", what)
	}
	for _, s := range b.sp.spots {
		if s.call != call || math.Abs(s.freq-freq) > binHz/2+1 || s.msg != "cw" || s.at.Location() != time.UTC {
			vsched.Fail("%s: %+v, expected %s on %.0f", what, s, call, freq)
		}
	}
}

const qso = "vvv vvv cq de dl1abc dl1abc pse k cq de dl1abc dl1abc k "

// --- C28: markers and spots ---

// world is what is expected of the markers.
type world struct {
	listeners, spots bool
	connected        bool
	markers          map[string]string
	reported         []string
	compared         int
}

func markerJobs() {
	prop := "C28"
	type event struct {
		name string
		do   func(b *bench, w *world)
	}
	var events []event
	add := func(name string, do func(b *bench, w *world)) { events = append(events, event{name, do}) }
	for i := 0; i < 2; i++ {
		id := fmt.Sprint("-", i+1)
		freq := center + 1000*i
		add("activate "+id, func(b *bench, w *world) {
			b.p.ListenerActivated(id, freq)
			if w.listeners && w.connected {
				w.markers[id] = fmt.Sprint(freq)
			}
		})
		add("deactivate "+id, func(b *bench, w *world) {
			b.p.ListenerDeactivated(id, freq)
			if w.connected {
				delete(w.markers, id)
			}
		})
	}
	add("activate -1 elsewhere", func(b *bench, w *world) {
		b.p.ListenerActivated("-1", center-3000)
		if w.listeners && w.connected {
			w.markers["-1"] = fmt.Sprint(center - 3000)
		}
	})
	for i, call := range []string{"DL1ABC", "K9ZZ"} {
		freq := center + 1000*i
		add("spot "+call, func(b *bench, w *world) {
			b.p.CallsignSpotted("-1", call, freq)
			if w.spots && w.connected {
				w.markers[">"+call+"<"] = fmt.Sprint(freq)
			}
			w.reported = append(w.reported, fmt.Sprint(call, freq))
		})
		add("timeout "+call, func(b *bench, w *world) {
			b.p.SpotTimeout("-1", call, freq)
			if w.connected {
				delete(w.markers, ">"+call+"<")
			}
		})
	}
	add("decoded", func(b *bench, w *world) { b.p.CallsignDecoded("-1", "W1AW", center, 1, 3) })
	for i := 0; i < 4; i++ {
		l, s := i&1 != 0, i&2 != 0
		add(fmt.Sprintf("show %v %v", l, s), func(b *bench, w *world) {
			b.p.SetShow(l, s)
			w.listeners, w.spots = l, s
		})
	}
	add("connection", func(b *bench, w *world) {
		w.connected = !w.connected
		if w.connected {
			b.dev.SetConnected(true)
		} else {
			b.dev.SetConnected(false)
			clear(w.markers)
		}
	})
	compare := func(b *bench, w *world, show int, names []string) {
		if got := b.markers(); fmt.Sprint(got) != fmt.Sprint(w.markers) {
			vsched.Fail("show %d, %v: markers %v, expected %v", show, names, got, w.markers)
		}
		if len(b.sp.spots) != len(w.reported) {
			vsched.Fail("show %d, %v: spots %v, expected %v", show, names, b.sp.spots, w.reported)
		}
		for i := w.compared; i < len(b.sp.spots); i++ {
			s := b.sp.spots[i]
			if got := fmt.Sprintf("%s%.0f", s.call, s.freq); got != w.reported[i] {
				vsched.Fail("show %d, %v: spot %d is %v, expected %v", show, names, i, got, w.reported[i])
			}
			if s.msg != "cw" || !s.at.Equal(vsched.Now()) || s.at.Location() != time.UTC {
				vsched.Fail("spot %v", s)
			}
		}
		w.compared = len(b.sp.spots)
	}
	for first := range events {
		first := first
		check(prop, "all periodic histories from "+events[first].name, 0, 0, func(c *mcrun.Ctx) {
			// nothing wears out
			b := open(0, rx.StrainMode, nil, nil)
			w := &world{markers: map[string]string{}, connected: true, listeners: true, spots: true}
			b.dev.SetConnected(true)
			b.p.SetShow(true, true)
			pattern := []int{first}
			names := []string{events[first].name}
			for n := mcrun.Tier(c, 3, 4); len(pattern) < n; {
				e := vsched.Choose(len(events)+1, "event")
				if e == len(events) {
					break
				}
				pattern = append(pattern, e)
				names = append(names, events[e].name)
			}
			vsched.Quiet(func() {
				for i := 0; i < 60; i++ {
					for _, e := range pattern {
						events[e].do(b, w)
						vsched.WaitQuiescent()
					}
					compare(b, w, i, names)
				}
			})
			vsched.Outcome("ok")
		})
		check(prop, "all sequences of events after "+events[first].name, 0, 0, func(c *mcrun.Ctx) {
			b := open(0, rx.StrainMode, nil, nil)
			w := &world{markers: map[string]string{}, connected: true}
			b.dev.SetConnected(true)
			show := vsched.Choose(4, "show")
			w.listeners, w.spots = show&1 != 0, show&2 != 0
			b.p.SetShow(w.listeners, w.spots)
			var names []string
			n := mcrun.Tier(c, 4, 5)
			for i := 0; i < n; i++ {
				e := first
				if i > 0 {
					e = vsched.Choose(len(events)+1, "event")
				}
				if e == len(events) {
					break
				}
				names = append(names, events[e].name)
				vsched.Quiet(func() { events[e].do(b, w) })
				compare(b, w, show, names)
			}
			vsched.Outcome("ok")
		})
	}
	for name, n := range map[string]int{"few": 3, "many": 55} {
		n := n
		bound := 2 - n/50*2
		check(prop, "events of several sources, "+name, bound, bound+1, func(c *mcrun.Ctx) {
			// the order of the events of each source is kept, whatever the device does meanwhile
			b := open(0, rx.StrainMode, nil, nil)
			vsched.Quiet(func() {
				b.dev.SetConnected(true)
				b.p.SetShow(true, true)
			})
			x := vsched.GoNamed("listener", func() {
				for i := 0; i < n; i++ {
					b.p.ListenerActivated("-1", center+i)
					b.p.ListenerDeactivated("-1", center+i)
				}
				b.p.ListenerActivated("-1", center-1)
			})
			y := vsched.GoNamed("spots", func() {
				for i := 0; i < n; i++ {
					b.p.CallsignSpotted("-2", "DL1ABC", center+i)
					b.p.SpotTimeout("-2", "DL1ABC", center+i)
				}
			})
			vsched.WaitDone(x, y)
			vsched.WaitQuiescent()
			if got := b.markers(); len(got) != 1 || got["-1"] != fmt.Sprint(center-1) {
				vsched.Fail("markers %v", got)
			}
			if len(b.sp.spots) != n {
				vsched.Fail("%d spots instead of %d", len(b.sp.spots), n)
			}
			for i, s := range b.sp.spots {
				if s.freq != float64(center+i) {
					vsched.Fail("spot %d: %v", i, s)
				}
			}
			vsched.Outcome("ok")
		})
	}
	check(prop, "a slow device", 0, 1, func(c *mcrun.Ctx) {
		// the device does not answer for some time, more and more events have to wait
		b := open(0, rx.StrainMode, nil, nil)
		n := []int{1, 30, 49, 51, 52, 80}[vsched.Choose(6, "events")]
		before := vsched.Choose(3, "events before")
		pause := []time.Duration{0, time.Second, 4 * time.Second, time.Minute, time.Hour}[vsched.Choose(5, "pause")]
		vsched.Quiet(func() {
			b.dev.SetConnected(true)
			b.p.SetShow(true, true)
		})
		b.dev.Stall(true)
		x := vsched.GoNamed("source", func() {
			for i := 0; i < before; i++ {
				b.p.SpotTimeout("-3", "K9ZZ", center)
			}
			for i := 0; i < n; i++ {
				b.p.CallsignSpotted("-1", "DL1ABC", center+i)
				b.p.ListenerDeactivated("-1", center+i)
				b.p.ListenerActivated("-1", center+i+1)
			}
			b.p.ListenerActivated("-2", center)
		})
		vsched.WaitQuiescent()
		vsched.Advance(pause)
		vsched.WaitQuiescent()
		b.dev.Stall(false)
		vsched.WaitDone(x)
		vsched.WaitQuiescent()
		if len(b.sp.spots) != n {
			vsched.Fail("%d events, %s: %d spots", n, pause, len(b.sp.spots))
		}
		for i, s := range b.sp.spots {
			if s.freq != float64(center+i) {
				vsched.Fail("event %d of %d, %s: spot %v", i, n, pause, s)
			}
		}
		if got := b.markers(); len(got) != 3 || got["-1"] != fmt.Sprint(center+n) || got["-2"] != fmt.Sprint(center) {
			vsched.Fail("%d events, %s: markers %v", n, pause, got)
		}
		vsched.Outcome("ok")
	})
	check(prop, "the markers of a reception", 0, 0, func(c *mcrun.Ctx) {
		// from the first signal to the end of the listener
		show := vsched.Choose(4, "show")
		bin := []int{200, 300}[vsched.Choose(2, "bin")]
		b := open(0, rx.StrainMode, nil, nil)
		vsched.Quiet(func() {
			b.dev.SetConnected(true)
			b.dds(0, center)
			b.p.SetShow(show&1 != 0, show&2 != 0)
			b.feed(100)
			b.feed(100, bin)
			if got := len(b.markers()); got != show&1 {
				vsched.Fail("show %d: %v after the signal", show, b.markers())
			}
			b.key(qso, 4, bin)
			b.feed(20)
			want := map[string]bool{}
			if show&2 != 0 {
				want[">DL1ABC<"] = true
			}
			got := b.markers()
			for id, f := range got {
				var n float64
				fmt.Sscan(f, &n)
				if math.Abs(n-freqOf(bin)) > binHz/2+1 {
					vsched.Fail("show %d: %v instead of %v", show, got, freqOf(bin))
				}
				if want[id] {
					delete(want, id)
				} else if strings.HasPrefix(id, ">") {
					vsched.Fail("show %d: %v", show, got)
				}
			}
			if len(want) > 0 || len(got) != show&1+show>>1 {
				vsched.Fail("show %d: %v", show, got)
			}
			vsched.Advance(21 * time.Second)
			b.feed(100)
			if got := b.markers(); len(got) != show>>1 {
				vsched.Fail("show %d: %v after the signal has gone", show, got)
			}
			vsched.Advance(125 * time.Second) // the peak is available again
			b.feed(200, bin)
			if got := b.markers(); len(got) != show&1+show>>1 {
				vsched.Fail("show %d: %v after the signal has returned", show, got)
			}
		})
		b.finish()
		if got := b.markers(); len(got) != show>>1 {
			vsched.Fail("show %d: %v after the end", show, got)
		}
		if s := b.iqState(); s != "off" {
			vsched.Fail("IQ data is %s after the end", s)
		}
		vsched.Outcome("ok")
	})
}
