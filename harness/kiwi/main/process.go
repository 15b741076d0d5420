package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	"github.com/ftl/sdrainer/zzverif/shim/websocket"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const (
	center = 7020000
	block  = 512
	rate   = 25600 // bins of 50 Hz, 20 ms per block
)

type spot struct {
	call string
	freq float64
	msg  string
	at   time.Time
}

// spotter records the spots.
type spotter struct {
	spots []spot
	after bool
}

func (s *spotter) Spot(call string, freq float64, msg string, at time.Time) {
	if s.after {
		vsched.Fail("a spot after the end: %s", call)
	}
	vsched.Observe("spot %s on %.0f", call, freq)
	s.spots = append(s.spots, spot{call, freq, msg, at})
}

// testScope records what it is shown.
type testScope struct {
	spectral []scope.SpectralFrame
	demod    []scope.TimeFrame
}

func (s *testScope) Active() bool { return true }
func (s *testScope) ShowTimeFrame(f *scope.TimeFrame) {
	if _, ok := f.Values["debounced"]; ok {
		s.demod = append(s.demod, *f)
	}
}
func (s *testScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.spectral = append(s.spectral, *f) }

// bench is a process with a server.
type bench struct {
	p    *kiwi.Process
	conn *websocket.Conn
	sp   *spotter
	out  strings.Builder
	i    int
	edge int // there is less noise on the outer bins
}

func newBench() *bench {
	b := &bench{sp: &spotter{}, conn: websocket.NewConn()}
	websocket.OnDial = func(string) (*websocket.Conn, error) { return b.conn, nil }
	os.OnStdout = func(s []byte) { b.out.Write(s) }
	return b
}

func (b *bench) open(center float64, bandwidth int) {
	p, err := kiwi.New("localhost:8073", "me", "secret", center, bandwidth, b.sp)
	if err != nil {
		vsched.Fail("cannot connect: %v", err)
	}
	b.p = p
}

func (b *bench) connected() { b.conn.Push(binmsg, []byte(fmt.Sprintf("MSG audio_rate=%d", rate))) }

var packets = map[string][]byte{}

// packet is an IQ message of several frames.
func packet(frames ...[]float32) []byte {
	key := ""
	for _, f := range frames {
		key += fmt.Sprintf("%p ", &f[0])
	}
	if p, ok := packets[key]; ok {
		return p
	}
	res := append([]byte("SND"), make([]byte, 17)...)
	for _, f := range frames {
		for _, v := range f {
			res = binary.BigEndian.AppendUint16(res, uint16(int16(v*32767)))
		}
	}
	packets[key] = res
	return res
}

func (b *bench) frame(bins ...int) []float32 {
	b.i++
	return iq.BandFrame(block, b.i, b.edge, 0.5, bins...)
}

// feed lets the process receive k frames with tones on the given bins.
func (b *bench) feed(k int, bins ...int) {
	for i := 0; i < k; i++ {
		b.conn.Push(binmsg, packet(b.frame(bins...)))
		if i%50 == 49 || i == k-1 {
			vsched.WaitQuiescent()
		}
	}
}

// key lets the process hear a text.
func (b *bench) key(text string, dit, bin int) {
	for _, on := range iq.Keying(text, dit) {
		if on {
			b.feed(1, bin)
		} else {
			b.feed(1)
		}
	}
}

// finish closes the process in the default schedule.
func (b *bench) finish() {
	vsched.Quiet(func() {
		b.p.Close()
		b.end()
	})
}

func (b *bench) end() {
	b.sp.after = true
	vsched.WaitQuiescent()
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("still running: %s", l)
	}
	if !b.conn.Closed() {
		vsched.Fail("the connection is still open")
	}
}

func (b *bench) checkSpots(what, call string, freq float64) {
	if len(b.sp.spots) == 0 {
		vsched.Fail("%s: no spot", what)
	}
	for _, s := range b.sp.spots {
		if s.call != call || math.Abs(s.freq-freq) > 26 || s.msg != "cw" || s.at.Location() != time.UTC {
			vsched.Fail("%s: %+v, expected %s on %.0f", what, s, call, freq)
		}
	}
}

const message = "vvv vvv cq de dl1abc dl1abc pse k cq de dl1abc dl1abc k "

func processJobs() {
	receptionJobs()
	settingsJobs()
	closeJobs()
}

// --- C27 ---

func receptionJobs() {
	prop := "C27"
	for _, dit := range []int{3, 4} {
		dit := dit
		check(prop, fmt.Sprintf("a callsign on each frequency, %d blocks per dit", dit), 0, 0, func(c *mcrun.Ctx) {
			b := newBench()
			freq := []float64{3533000.7, center, 14040000}[vsched.Choose(mcrun.Tier(c, 1, 3), "center frequency")]
			bin := []int{256, 43, 47, 128, 255, 257, 300, 468}[vsched.Choose(8, "bin")]
			bandwidth := []int{10000, 12000, 2000}[vsched.Choose(mcrun.Tier(c, 1, 3), "bandwidth")]
			vsched.Quiet(func() {
				b.open(freq, bandwidth)
				b.connected()
				b.feed(100)
				b.key(message, dit, bin)
				b.feed(100)
			})
			b.checkSpots(fmt.Sprintf("signal on bin %d", bin), "DL1ABC", freq+float64(bin-block/2)*50)
			b.finish()
			vsched.Outcome("ok")
		})
	}
	check(prop, "the passband", 0, 0, func(c *mcrun.Ctx) {
		// the server only sends what is in the passband
		b := newBench()
		bandwidth := []int{12000, 11000, 8000, 6000, 4000, 2000, 1000, 500}[vsched.Choose(8, "bandwidth")]
		width := bandwidth * block / 12000
		bin := block/2 + []int{0, -1, 1}[vsched.Choose(3, "side")]*(width/2-6)
		vsched.Quiet(func() {
			b.edge = (block - width) / 2
			b.open(center, bandwidth)
			b.connected()
			b.feed(300)
			b.key(message, 3, bin)
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("bandwidth %d, signal on bin %d", bandwidth, bin), "DL1ABC", float64(center+(bin-block/2)*50))
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "messages of several blocks", 0, 0, func(c *mcrun.Ctx) {
		b := newBench()
		per := []int{1, 2, 3, 4, 7, 20}[vsched.Choose(6, "blocks per message")]
		strange := []int{0, 513, 1, 2, 511, 800, 256}[vsched.Choose(mcrun.Tier(c, 2, 7), "samples in between")]
		tail := vsched.Choose(2, "odd byte")
		vsched.Quiet(func() {
			b.open(center, 10000)
			b.connected()
			b.feed(100)
			var frames [][]float32
			n := 0
			for _, on := range iq.Keying(message, 3) {
				if on {
					frames = append(frames, b.frame(200))
				} else {
					frames = append(frames, b.frame())
				}
				if len(frames) == per {
					b.conn.Push(binmsg, append(append([]byte(nil), packet(frames...)...), make([]byte, tail)...))
					frames = nil
					if n%7 == 0 {
						b.conn.Push(binmsg, append([]byte("SND"), make([]byte, 17+4*strange)...))
					}
					vsched.WaitQuiescent()
					n++
				}
			}
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("%d blocks per message, messages with %d samples in between", per, strange), "DL1ABC", center-56*50)
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "the receiver is late", 0, 0, func(c *mcrun.Ctx) {
		// several messages arrive before the first of them is processed
		b := newBench()
		burst := []int{1, 2, 3, 5, 10, 50, 90}[vsched.Choose(7, "messages at once")]
		vsched.Quiet(func() {
			b.open(center, 10000)
			b.connected()
			b.feed(100)
			n := 0
			for _, on := range iq.Keying(message, 3) {
				f := b.frame()
				if on {
					f = b.frame(200)
				}
				b.conn.Push(binmsg, packet(f))
				n++
				if n%burst == 0 {
					vsched.WaitQuiescent()
				}
			}
			vsched.WaitQuiescent()
			b.feed(100)
		})
		b.checkSpots(fmt.Sprintf("%d messages at once", burst), "DL1ABC", center-56*50)
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "strange sample rates", 0, 0, func(c *mcrun.Ctx) {
		b := newBench()
		rate := []string{"1", "511", "513", "12000", "48000", "192000", "2000000000", "x", ""}[vsched.Choose(9, "sample rate")]
		vsched.Quiet(func() {
			b.open(center, 10000)
			b.conn.Push(binmsg, []byte("MSG audio_rate="+rate))
			b.feed(200, 200)
			b.key("vvv", 3, 200)
		})
		b.finish()
		vsched.Outcome("ok")
	})
	check(prop, "two callsigns", 0, 0, func(c *mcrun.Ctx) {
		b := newBench()
		x := []int{100, 255, 300}[vsched.Choose(3, "first")]
		y := x + []int{-20, 12, 100}[vsched.Choose(3, "second")]
		vsched.Quiet(func() {
			b.open(center, 10000)
			b.connected()
			b.feed(100)
			first, second := iq.Keying("vvv vvv vvv "+message, 3), iq.Keying("vvv vvv vvv "+strings.ReplaceAll(message, "dl1abc", "k9zz"), 3)
			for i := 0; i < max(len(first), len(second)); i++ {
				var bins []int
				if i < len(first) && first[i] {
					bins = append(bins, x)
				}
				if i < len(second) && second[i] {
					bins = append(bins, y)
				}
				b.feed(1, bins...)
			}
			b.feed(100)
		})
		seen := map[string]bool{}
		for _, s := range b.sp.spots {
			seen[s.call] = true
			want := map[string]int{"DL1ABC": x, "K9ZZ": y}[s.call]
			if math.Abs(s.freq-float64(center+(want-block/2)*50)) > 26 {
				vsched.Fail("bins %d and %d: %+v", x, y, s)
			}
		}
		if len(seen) != 2 {
			vsched.Fail("bins %d and %d: %+v", x, y, b.sp.spots)
		}
		b.finish()
		vsched.Outcome("ok")
	})
}

// settings of a process
type settings struct {
	threshold, debounce         int
	silence, attachment, during time.Duration
}

var floor float64

// noiseLevel measures the noise floor, 15 dB below the default threshold.
func noiseLevel() {
	vsched.Explore(vsched.Config{MaxSteps: 2000000, Deadline: time.Now().Add(time.Minute)}, func() {
		vsched.Quiet(func() {
			websocket.OnDial, os.OnStdout = nil, nil
			b := newBench()
			sc := &testScope{}
			b.open(center, 10000)
			b.p.SetScope(sc)
			b.connected()
			b.feed(200)
			floor = sc.spectral[len(sc.spectral)-1].MagnitudeMarkers["threshold"] - 15
			b.p.Close()
		})
	})
}

// examine checks the effect of all settings.
func (b *bench) examine(what any, sc *testScope, s settings, exam int) {
	signal := func() int { return int(sc.spectral[len(sc.spectral)-1].FrequencyMarkers["signal_bin"]) }
	vsched.Quiet(func() {
		b.feed(200)
		if len(sc.spectral) == 0 {
			vsched.Fail("%v: nothing on the scope", what)
		}
		if got := sc.spectral[len(sc.spectral)-1].MagnitudeMarkers["threshold"]; math.Abs(got-floor-float64(s.threshold)) > 0.5 {
			vsched.Fail("%v: threshold %v, expected %v", what, got, floor+float64(s.threshold))
		}
		b.feed(200, 200)
		if signal() != 200 {
			vsched.Fail("%v: no listener", what)
		}
		switch exam {
		case 0: // debounce
			for n := 1; n <= 4; n++ {
				b.feed(10)
				sc.demod = nil
				b.feed(n, 200)
				b.feed(10)
				on := 0
				for _, f := range sc.demod {
					if f.Values["debounced"] > 0 {
						on++
					}
				}
				if (on > 0) != (n >= s.debounce) {
					vsched.Fail("%v: a signal of %d blocks has %d debounced ones, threshold %d", what, n, on, s.debounce)
				}
			}
		case 1: // silence
			b.feed(10)
			vsched.Advance(s.silence - time.Second)
			b.feed(100)
			if signal() != 200 {
				vsched.Fail("%v: the listener is gone before %v", what, s.silence)
			}
			vsched.Advance(1500 * time.Millisecond)
			b.feed(100)
			if signal() != -1 {
				vsched.Fail("%v: the listener is not gone after %v", what, s.silence)
			}
		case 2: // attachment
			b.p.SetSilenceTimeout(time.Hour)
			waited := time.Duration(0)
			step := 4 * time.Second
			for waited+step < s.attachment {
				vsched.Advance(step)
				waited += step
				b.feed(10, 200)
			}
			b.feed(100, 200)
			if signal() != 200 {
				vsched.Fail("%v: the listener is gone after %v, before %v", what, waited, s.attachment)
			}
			for i := 0; i < 3; i++ {
				vsched.Advance(step)
				b.feed(100, 200)
				if signal() == -1 {
					return
				}
			}
			vsched.Fail("%v: the listener is not gone after %v", what, s.attachment)
		}
	})
}

func settingsJobs() {
	prop := "C27"
	examName := []string{"debounce", "silence", "attachment"}
	for exam := 0; exam < 3; exam++ {
		exam := exam
		checkLevels(prop, "settings while the client connects, "+examName[exam], 1, 2, func(c *mcrun.Ctx) {
			b := newBench()
			sc := &testScope{}
			b.open(center, 10000)
			vsched.WaitQuiescent()
			t := vsched.GoNamed("settings", func() {
				switch exam {
				case 0:
					b.p.SetSignalDebounce(3)
				case 1:
					b.p.SetSilenceTimeout(7 * time.Second)
				case 2:
					b.p.SetAttachmentTimeout(33 * time.Second)
				}
				b.p.SetThreshold(25)
				b.p.SetScope(sc)
			})
			b.connected()
			vsched.WaitDone(t)
			vsched.WaitQuiescent()
			s := settings{threshold: 25, debounce: 1, silence: 20 * time.Second, attachment: 2 * time.Minute}
			switch exam {
			case 0:
				s.debounce = 3
			case 1:
				s.silence = 7 * time.Second
			case 2:
				s.attachment = 33 * time.Second
			}
			b.examine("meanwhile", sc, s, exam)
			vsched.Quiet(b.p.Close)
			vsched.Outcome("ok")
		})
		checkLevels(prop, "all sequences of settings, "+examName[exam], 0, 0, func(c *mcrun.Ctx) {
			b := newBench()
			sc := &testScope{}
			s := settings{threshold: 15, debounce: 1, silence: 20 * time.Second, attachment: 2 * time.Minute}
			n := mcrun.Tier(c, 2, 4)
			at := vsched.Choose(n+1, "connect")
			var ops []int
			for i := 0; i < n; i++ {
				ops = append(ops, vsched.Choose(3, "operation"))
			}
			vsched.Quiet(func() {
				b.open(center, 10000)
				vsched.WaitQuiescent()
				for i := 0; i <= n; i++ {
					if i == at {
						b.connected()
						vsched.WaitQuiescent()
						b.feed(5, 100)
					}
					if i == n {
						break
					}
					switch ops[i] {
					case 0:
						s.threshold = 10 + 5*i
						b.p.SetThreshold(s.threshold)
					case 1:
						b.p.SetScope(sc)
					case 2:
						switch exam {
						case 0:
							s.debounce = i + 2
							b.p.SetSignalDebounce(s.debounce)
						case 1:
							s.silence = time.Duration(i+3) * 3 * time.Second
							b.p.SetSilenceTimeout(s.silence)
						case 2:
							s.attachment = time.Duration(i+3) * 10 * time.Second
							b.p.SetAttachmentTimeout(s.attachment)
						}
					}
				}
				b.p.SetScope(sc)
			})
			b.examine(fmt.Sprint(ops, " connected at ", at), sc, s, exam)
			vsched.Quiet(b.p.Close)
			vsched.Outcome("ok")
		})
	}
	check(prop, "the text of the rx frequency", 0, 0, func(c *mcrun.Ctx) {
		b := newBench()
		offset := []int{0, 24, -24, 400}[vsched.Choose(4, "offset")]
		bin := []int{200, 256, 257}[vsched.Choose(3, "bin")]
		again := vsched.Choose(3, "again")
		center := []float64{center, center + 500, 3533000.7}[vsched.Choose(mcrun.Tier(c, 2, 3), "center")]
		vsched.Quiet(func() {
			b.open(center, 10000)
			b.connected()
			b.feed(100)
			b.feed(100, bin)
			b.key("vvv", 3, bin)
			b.feed(100)
			b.out.Reset()
			freq := center + float64((bin-block/2)*50+offset)
			b.p.SetRXFrequency(freq)
			switch again {
			case 1:
				b.p.SetRXFrequency(0) // no change
			case 2:
				b.p.SetRXFrequency(freq + 1000)
				b.p.SetRXFrequency(freq)
			}
			b.key("k", 3, bin)
			b.feed(100)
		})
		got := strings.TrimSpace(b.out.String())
		want := "k"
		if offset == 400 {
			want = ""
		}
		if got != want {
			vsched.Fail("tuned %d Hz beside of the signal: %q", offset, got)
		}
		vsched.Quiet(b.p.Close)
		vsched.Outcome("%s", got)
	})
}

func closeJobs() {
	prop := "C26"
	for k, name := range []string{"connects", "sends data", "breaks", "is busy"} {
		k := k
		check(prop, "close the process while the server "+name, 4, 20, func(c *mcrun.Ctx) {
			b := newBench()
			vsched.Quiet(func() {
				b.open(center, 10000)
				if k == 1 {
					b.connected()
					b.feed(2)
				}
			})
			vsched.GoNamed("server", func() {
				switch k {
				case 0:
					b.connected()
				case 1:
					b.conn.Push(binmsg, packet(b.frame(200)))
					b.conn.Push(binmsg, packet(b.frame(200)))
				case 2:
					b.conn.Fail(fmt.Errorf("connection reset"))
				case 3:
					b.conn.Push(binmsg, []byte("MSG too_busy=1"))
				}
			})
			b.p.Close()
			b.end()
			b.p.Close()
			vsched.Outcome("closed")
		})
		check(prop, "close the process twice while the server "+name, 2, 20, func(c *mcrun.Ctx) {
			b := newBench()
			vsched.Quiet(func() {
				b.open(center, 10000)
				if k == 1 {
					b.connected()
				}
			})
			vsched.GoNamed("server", func() {
				switch k {
				case 0:
					b.connected()
				case 1:
					b.conn.Push(binmsg, packet(b.frame(200)))
				case 2:
					b.conn.Fail(fmt.Errorf("connection reset"))
				case 3:
					b.conn.Push(binmsg, []byte("MSG too_busy=1"))
				}
			})
			vsched.GoNamed("settings", func() {
				b.p.SetThreshold(20)
				b.p.SetRXFrequency(center + 100)
			})
			t := vsched.GoNamed("closer", func() { b.p.Close() })
			b.p.Close()
			vsched.WaitDone(t)
			b.end()
			vsched.Outcome("closed")
		})
	}
}
