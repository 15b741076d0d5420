package main

import (
	"errors"
	"fmt"
	"math"
	orignet "net"
	"strings"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/shim/pulse"
	"github.com/ftl/sdrainer/zzverif/shim/websocket"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// --- C34: settings ---

// settings of the strain commands.
type settings struct {
	threshold, debounce  int
	silence, busy, every time.Duration
	port                 int
	call                 string

	trx                  int
	showListeners, spots bool

	center, rx float64
	bandwidth  int
	user, pass string
}

var strainDefaults = settings{
	threshold: 15, debounce: 1, silence: 10 * time.Second, busy: time.Minute, every: time.Minute, port: 7373, call: "local-#",
	center: center, bandwidth: 10000,
}

type option struct {
	arg   string
	apply func(s *settings)
}

var strainOptions = []option{
	{"--threshold=22", func(s *settings) { s.threshold = 22 }},
	{"--debounce=3", func(s *settings) { s.debounce = 3 }},
	{"--silence=25s", func(s *settings) { s.silence = 25 * time.Second }},
	{"--busy=90s", func(s *settings) { s.busy = 90 * time.Second }},
	{"--spot_every=5m", func(s *settings) { s.every = 5 * time.Minute }},
	{"--telnet_port=7300", func(s *settings) { s.port = 7300 }},
	{"--telnet_call=dl0xx-#", func(s *settings) { s.call = "dl0xx-#" }},
}

var tciOptions = []option{
	{"--trx=1", func(s *settings) { s.trx = 1 }},
	{"--show_spots", func(s *settings) { s.spots = true }},
	{"--show_listeners", func(s *settings) { s.showListeners = true }},
}

var kiwiOptions = []option{
	{"--center=14040000", func(s *settings) { s.center = 14040000 }},
	{"--rx=7021000", func(s *settings) { s.rx = 7021000 }},
	{"--bandwidth=6000", func(s *settings) { s.bandwidth = 6000 }},
	{"--username=me", func(s *settings) { s.user = "me" }},
	{"--password=secret", func(s *settings) { s.pass = "secret" }},
}

// examine runs a strain command and looks for the effects of all settings.
func examine(what string, args []string, s settings, exam int) {
	level := floors[what]
	p := prepare()
	p.trx = s.trx
	desc := strings.Join(args, " ")
	vsched.QuietFair(func() {
		command := []string{"strain", what}
		if exam != 3 {
			command = append(command, "--scope")
		}
		p.start(append(command, args...)...)
		vsched.WaitQuiescent()
		if p.fatal != "" {
			vsched.Fail("%s: %s", desc, p.fatal)
		}
		v := &viewer{}
		if exam != 3 {
			v = watch(":35369")
		}
		for _, port := range []int{7373, 7300} {
			if net.Listening(port) != (port == s.port) {
				vsched.Fail("%s: port %d listening: %v", desc, port, !(port == s.port))
			}
		}
		c := cluster(s.port)
		if what == "kiwi" {
			p.login(desc, s)
		}
		p.connect()
		if what == "tci" {
			if got := p.commands("start_iq"); len(got) != 1 || got[0] != fmt.Sprintf("start_iq %d", s.trx) {
				vsched.Fail("%s: %v", desc, got)
			}
			loud := message(frames(100)...)
			for i := 0; i < 10; i++ {
				p.data(1-s.trx, loud) // not ours
			}
		}
		if exam == 3 {
			p.spotting(desc, c, s)
			p.interrupt()
			p.over(desc)
			return
		}
		p.feed(200)
		if !near(v.threshold, level+float64(s.threshold), 0.5) {
			vsched.Fail("%s: threshold %v, expected %v", desc, v.threshold, level+float64(s.threshold))
		}
		bin := 240
		p.feed(200, bin)
		if v.signal != float64(bin) {
			vsched.Fail("%s: no listener on the signal, signal bin %v", desc, v.signal)
		}
		switch exam {
		case 0:
			p.debounce(desc, v, s, bin)
		case 1:
			p.feed(20)
			vsched.Advance(s.silence - time.Second)
			p.feed(100)
			if v.signal != float64(bin) {
				vsched.Fail("%s: the listener is gone before %v", desc, s.silence)
			}
			vsched.Advance(1500 * time.Millisecond)
			p.feed(100)
			if v.signal == float64(bin) {
				vsched.Fail("%s: the listener is not gone after %v", desc, s.silence)
			}
		case 2:
			waited, step := time.Duration(0), 4*time.Second
			for waited+step < s.busy {
				vsched.Advance(step)
				waited += step
				p.key("es", p.dit()+s.debounce-1, bin)
			}
			if v.signal != float64(bin) {
				vsched.Fail("%s: the listener is gone after %v, before %v", desc, waited, s.busy)
			}
			gone := false
			for i := 0; i < 3 && !gone; i++ {
				vsched.Advance(step)
				p.key("es", p.dit()+s.debounce-1, bin)
				p.feed(100)
				gone = v.signal != float64(bin)
			}
			if !gone {
				vsched.Fail("%s: the listener is not gone after %v", desc, s.busy)
			}
		}
		p.interrupt()
		p.over(desc)
	})
	vsched.Outcome("ok")
}

func frames(bin int) [][]float32 {
	p := &program{}
	var res [][]float32
	for i := 0; i < 4; i++ {
		p.i++
		res = append(res, iq.Frame(block, p.i, bin))
	}
	return res
}

func (p *program) debounce(desc string, v *viewer, s settings, bin int) {
	for n := 1; n <= 4; n++ {
		p.feed(16)
		v.demod, v.debounced = 0, 0
		p.feed(n, bin)
		p.feed(20 - n)
		if v.demod == 0 || (v.debounced > 0) != (n >= s.debounce) {
			vsched.Fail("%s: a signal of %d blocks has %d debounced ones of %d, threshold %d", desc, n, v.debounced, v.demod, s.debounce)
		}
	}
}

// spotting checks the spots on the cluster and on the device.
func (p *program) spotting(desc string, c *net.Peer, s settings) {
	bin := 245 // and bin+4: the same kilohertz
	if p.dev == nil {
		bin = 250
	}
	call := func(want, bin int) {
		before := len(spots(c))
		p.feed(100)
		at := vsched.Now().UTC().Format("1504")
		p.key("vvv vvv k1a k1a k1a k1a e", p.dit()+s.debounce-1, bin)
		p.feed(100)
		got := spots(c)
		if len(got) != want {
			vsched.Fail("%s: %d spots instead of %d: %v", desc, len(got), want, got)
		}
		if want == before {
			return
		}
		last := got[want-1]
		if last.by != s.call || last.call != "K1A" || !near(last.khz*1000, s.center+p.offset(bin), 160) {
			vsched.Fail("%s: spot %q on bin %d", desc, last.line, bin)
		}
		if !strings.HasSuffix(strings.TrimSpace(last.line), at+"z") {
			vsched.Fail("%s: spot %q at %s", desc, last.line, at)
		}
	}
	call(1, bin)
	vsched.Advance(s.every - 1*time.Second)
	p.feed(100)
	call(1, bin+4)
	vsched.Advance(s.silence + time.Second)
	p.feed(100)
	call(2, bin-3)
	if p.dev != nil {
		listeners, marks := 0, 0
		for _, m := range p.commands("spot ") {
			if strings.HasPrefix(m, "spot >K1A<,") {
				marks++
			} else {
				listeners++
			}
		}
		if (marks > 0) != s.spots || (listeners > 0) != s.showListeners {
			vsched.Fail("%s: %d spots and %d listeners are shown", desc, marks, listeners)
		}
	}
}

// login checks what the KiwiSDR is told.
func (p *program) login(desc string, s settings) {
	var sent []string
	for _, m := range p.conn.Sent {
		sent = append(sent, string(m.Data))
	}
	half := s.bandwidth / 2
	want := []string{
		"SET auth t=kiwi p=" + s.pass, "SET ident_user=" + s.user,
		fmt.Sprintf("SET mod=iq low_cut=%d high_cut=%d freq=%.3f", -half, half, s.center/1000),
	}
	for _, w := range want {
		found := false
		for _, m := range sent {
			found = found || m == w
		}
		if !found {
			vsched.Fail("%s: no %q in %q", desc, w, sent)
		}
	}
}

func settingsJobs() {
	prop := "C34"
	exams := []string{"debounce", "silence", "busy", "spots"}
	for _, what := range []string{"tci", "kiwi"} {
		what := what
		options := append(append([]option(nil), strainOptions...), tciOptions...)
		if what == "kiwi" {
			options = append(append([]option(nil), strainOptions...), kiwiOptions...)
		}
		for exam, name := range exams {
			exam := exam
			for kind, kindName := range []string{"defaults", "one option", "all options but one", "two options"} {
				kind := kind
				register := mcrun.Job
				if kind == 3 {
					register = mcrun.ThoroughJob
				}
				register(prop, fmt.Sprintf("strain %s, %s, %s", what, kindName, name), func(c *mcrun.Ctx) {
					floor(what)
					vsched.Check(c, vsched.Config{MaxSteps: 4000000}, func() {
						reset()
						s := strainDefaults
						var args []string
						n := len(options)
						switch kind {
						case 1:
							n = vsched.Choose(len(options), "option")
						case 2:
							n = vsched.Choose(len(options)+1, "option")
						}
						m := n
						if kind == 3 {
							n = vsched.Choose(len(options), "first option")
							m = vsched.Choose(len(options), "second option")
						}
						for i, o := range options {
							set := i == n
							if kind == 2 {
								set = !set
							}
							if kind == 3 {
								set = i == n || i == m
							}
							if set {
								o.apply(&s)
								args = append(args, o.arg)
							}
						}
						examine(what, args, s, exam)
					})
				})
			}
		}
	}
	pulseSettings()
	decodeSettings()
	addresses()
	failures()
}

// refused checks that a command ends at once with a message.
func refused(what string, args ...string) {
	p := prepare().start(args...)
	vsched.WaitQuiescent()
	if p.fatal == "" && !p.after {
		vsched.Fail("%s: %v: the program goes on", what, args)
	}
	if p.fatal == "" {
		vsched.Fail("%s: %v: no error", what, args)
	}
}

func failures() {
	ports := [][]string{
		{"strain", "tci"}, {"strain", "kiwi"}, {"strain", "tci", "--telnet_port=7300"}, {"strain", "kiwi", "--telnet_port=7300"},
		{"strain", "tci", "--scope"}, {"strain", "kiwi", "--scope"}, {"decode", "tci", "--scope"}, {"decode", "pulse", "--scope"},
		{"strain", "tci", "--scope", "--scope-address=:4000"}, {"decode", "tci", "--scope", "--scope-address=:4000"},
	}
	used := []int{7373, 7373, 7300, 7300, 35369, 35369, 35369, 35369, 4000, 4000}
	once("C34", "failures, port in use", 1000000, func(c *mcrun.Ctx) {
		n := vsched.Choose(len(ports), "command")
		free := vsched.Choose(2, "free") == 1
		vsched.QuietFair(func() {
			net.FailListen = func(a *orignet.TCPAddr) bool { return (a.Port == used[n]) != free }
			if free {
				net.FailListen = func(a *orignet.TCPAddr) bool { return a.Port == used[n]+1 }
				p := prepare()
				p.sound = &pulse.Server{Sources: []*pulse.Source{source("one", 8000, 1, nil)}}
				pulse.Current = p.sound
				p.start(ports[n]...)
				vsched.WaitQuiescent()
				if p.fatal != "" || p.after {
					vsched.Fail("%v: %s", ports[n], p.fatal)
				}
				if !net.Listening(used[n]) {
					vsched.Fail("%v: port %d not in use", ports[n], used[n])
				}
				p.finish(ports[n])
				return
			}
			refused("port in use", ports[n]...)
		})
		vsched.Outcome("ok")
	})
	once("C34", "failures, devices", 1000000, func(c *mcrun.Ctx) {
		n := vsched.Choose(10, "failure")
		vsched.QuietFair(func() {
			server := &pulse.Server{Sources: []*pulse.Source{source("one", 8000, 1, nil)}}
			pulse.Current = server
			switch n {
			case 0:
				refused("bad host", "strain", "tci", "--host=nowhere.invalid")
			case 1:
				refused("bad host", "decode", "tci", "--host=nowhere.invalid")
			case 2:
				refused("bad host", "strain", "kiwi", "--host=nowhere.invalid")
			case 3:
				p := prepare()
				websocket.OnDial = func(url string) (*websocket.Conn, error) { return nil, errors.New("connection refused") }
				p.start("strain", "kiwi")
				vsched.WaitQuiescent()
				if p.fatal == "" {
					vsched.Fail("KiwiSDR unreachable: no error")
				}
			case 4:
				server.Refuse = true
				refused("no sound server", "decode", "pulse")
			case 5:
				server.Sources = nil
				refused("no source", "decode", "pulse")
			case 6:
				refused("unknown source", "decode", "pulse", "--source=two")
			case 7:
				server.Fails = true
				refused("no stream", "decode", "pulse")
			case 8:
				refused("unknown option", "strain", "tci", "--unknown")
			case 9:
				refused("bad value", "strain", "tci", "--silence=long")
			}
		})
		vsched.Outcome("ok")
	})
}

// addresses of the devices and of the scope.
func addresses() {
	hosts := []struct{ arg, host string }{
		{"", "127.0.0.1"}, {"localhost", "127.0.0.1"}, {"10.0.0.7", "10.0.0.7"}, {"10.0.0.7:1234", "10.0.0.7:1234"}, {":1234", "127.0.0.1:1234"},
		{"localhost:50001", "127.0.0.1:50001"}, {"[::1]:1234", "[::1]:1234"}, {"[::1]", "[::1]"},
	}
	once("C34", "addresses, devices", 1000000, func(c *mcrun.Ctx) {
		n := vsched.Choose(len(hosts), "host")
		kind := vsched.Choose(3, "command")
		trace := vsched.Choose(2, "trace") == 1
		vsched.QuietFair(func() {
			args := [][]string{{"strain", "tci"}, {"decode", "tci"}, {"strain", "kiwi"}}[kind]
			want := hosts[n].host
			if strings.Count(want, ":") == 0 || strings.HasSuffix(want, "]") {
				want += []string{":40001", ":40001", ":8073"}[kind]
			}
			if hosts[n].arg != "" {
				args = append(args, "--host="+hosts[n].arg)
			}
			if kind < 2 && trace {
				args = append(args, "--trace_tci")
			}
			p := prepare().start(args...)
			vsched.WaitQuiescent()
			got := ""
			if kind < 2 && p.dev != nil {
				got = p.dev.Host
				if p.dev.Trace != trace {
					vsched.Fail("%v: trace %v", args, p.dev.Trace)
				}
			}
			if kind == 2 {
				got = strings.TrimPrefix(p.url, "ws://")
				got, _, _ = strings.Cut(got, "/")
			}
			if got != want || p.fatal != "" {
				vsched.Fail("%v: connects to %q instead of %q %s", args, got, want, p.fatal)
			}
			p.finish(args)
		})
		vsched.Outcome("ok")
	})
	once("C34", "addresses, scope", 1000000, func(c *mcrun.Ctx) {
		kind := vsched.Choose(4, "command")
		n := vsched.Choose(5, "scope")
		vsched.QuietFair(func() {
			args := append([]string(nil), [][]string{{"strain", "tci"}, {"decode", "tci"}, {"strain", "kiwi"}, {"decode", "pulse"}}[kind]...)
			args = append(args, [][]string{nil, {"--scope"}, {"--scope", "--scope-address=:4000"}, {"--scope-address=:4000"}, {"--scope", "--debug", "--pprof"}}[n]...)
			port := []int{0, 35369, 4000, 0, 35369}[n]
			p := prepare()
			p.sound = &pulse.Server{Sources: []*pulse.Source{source("one", 8000, 1, func(float64) float64 { return 0 })}}
			pulse.Current = p.sound
			p.start(args...)
			vsched.WaitQuiescent()
			for _, x := range []int{35369, 4000} {
				if net.Listening(x) != (x == port) {
					vsched.Fail("%v: port %d", args, x)
				}
			}
			if port != 0 {
				v := watch(fmt.Sprintf(":%d", port))
				vsched.WaitQuiescent()
				switch kind {
				case 0, 1, 2:
					p.connect()
					p.vfoOn(1000)
					p.feed(120)
				case 3:
					p.listen(0.5)
				}
				if v.frames == 0 {
					vsched.Fail("%v: no frames", args)
				}
			}
			p.finish(args)
			if port != 0 && net.Listening(port) {
				vsched.Fail("%v: port %d is still in use", args, port)
			}
		})
		vsched.Outcome("ok")
	})
}

// vfoOn tunes the VFO of a TCI device.
func (p *program) vfoOn(offset int) {
	if p.dev != nil {
		p.vfo(p.trx, orig.VFOA, offset)
	}
}

// decodeSettings are the options of decode tci.
func decodeSettings() {
	const bin = block/2 + 40
	options := []option{
		{"--trx=1", func(s *settings) { s.trx = 1 }},
		{"--threshold=22", func(s *settings) { s.threshold = 22 }},
		{"--debounce=3", func(s *settings) { s.debounce = 3 }},
	}
	decode := func(c *mcrun.Ctx) {
		level := floors["tci"]
		s := strainDefaults
		args := []string{"decode", "tci"}
		for _, o := range options {
			if vsched.Choose(2, o.arg) == 1 {
				o.apply(&s)
				args = append(args, o.arg)
			}
		}
		scoped := vsched.Choose(2, "scope") == 1
		if scoped {
			args = append(args, "--scope")
		}
		vsched.QuietFair(func() {
			p := prepare()
			p.trx = s.trx
			p.start(args...)
			vsched.WaitQuiescent()
			v := &viewer{}
			if scoped {
				v = watch(":35369")
			}
			p.connect()
			p.vfo(1-s.trx, orig.VFOA, 1000)
			p.vfo(s.trx, orig.VFOA, 40*tciRate/block)
			loud := message(frames(100)...)
			for i := 0; i < 10; i++ {
				p.data(1-s.trx, loud)
			}
			p.feed(300)
			if got := p.commands("start_iq"); len(got) != 1 || got[0] != fmt.Sprintf("start_iq %d", s.trx) {
				vsched.Fail("%v: %v", args, got)
			}
			if scoped {
				if !near(v.threshold, level+float64(s.threshold), 0.5) {
					vsched.Fail("%v: threshold %v, expected %v", args, v.threshold, level+float64(s.threshold))
				}
				p.debounce(fmt.Sprint(args), v, s, bin)
			}
			p.feed(300)
			at := p.out.Len()
			p.key("paris paris", p.dit()+s.debounce-1, bin)
			p.feed(100)
			if got := p.decodedSince(at); got != "parisparis" {
				vsched.Fail("%v: %q", args, got)
			}
			p.finish(args)
			if got := p.commands("stop_iq"); len(got) != 1 || got[0] != fmt.Sprintf("stop_iq %d", s.trx) {
				vsched.Fail("%v: %v", args, got)
			}
		})
		vsched.Outcome("ok")
	}
	mcrun.Job("C34", "decode tci", func(c *mcrun.Ctx) {
		floor("tci")
		vsched.Check(c, vsched.Config{MaxSteps: 4000000}, func() {
			reset()
			decode(c)
		})
	})
}

// pulseSettings are the options of decode pulse.
func pulseSettings() {
	magnitudes := []float64{0, 0.2, 0.5, 0.75, 0.9}
	scales := []float64{-1, 0, 1, 2, 5}
	once("C34", "decode pulse, scale and magnitude", 20000000, func(c *mcrun.Ctx) {
		m := magnitudes[vsched.Choose(len(magnitudes), "magnitude")]
		scale := scales[vsched.Choose(len(scales), "scale")]
		amplitude := []float64{0.02, 0.06, 0.12, 0.3, 0.6, 0.97}[vsched.Choose(6, "amplitude")]
		rate := []int{8000, 48000}[mcrun.Tier(c, 0, vsched.Choose(mcrun.Tier(c, 1, 2), "rate"))]
		args := []string{"--wpm=30"}
		if m > 0 {
			args = append(args, fmt.Sprintf("--magnitude=%g", m))
		} else {
			m = 0.75
		}
		if scale >= 0 {
			args = append(args, fmt.Sprintf("--scale=%g", scale))
		} else {
			scale = 0
		}
		// the level in relation to full scale
		level := amplitude * scale
		if scale == 0 {
			level = amplitude * math.Min(12, 1/amplitude)
		}
		if level > 1 {
			level = 1
		}
		vsched.QuietFair(func() {
			signal, end := sound(transmission{0.1, 700, amplitude, 30, "ra"})
			p := audio(args, end+0.6, source("one", rate, 1, signal))
			got := p.decoded()
			switch {
			case level > m*1.12 && got != "ra", level < m*0.88 && got != "":
				vsched.Fail("%v, amplitude %v, level %v: %q", args, amplitude, level, got)
			}
			p.finish(args)
		})
		vsched.Outcome("ok")
	})
	speeds := []int{0, 12, 15, 18, 20, 25, 30, 40}
	once("C34", "decode pulse, speed", 20000000, func(c *mcrun.Ctx) {
		wpm := speeds[vsched.Choose(len(speeds), "speed")]
		text := []string{"e", "t", "s", "o", "ra", "de"}[vsched.Choose(6, "text")]
		args := []string{}
		if wpm > 0 {
			args = append(args, fmt.Sprintf("--wpm=%d", wpm))
		} else {
			wpm = 20
		}
		vsched.QuietFair(func() {
			signal, end := sound(transmission{0.1, 700, 0.9, float64(wpm), text})
			p := audio(args, end+2, source("one", 8000, 1, signal))
			if got := p.decoded(); got != text {
				vsched.Fail("%v: %q instead of %q", args, got, text)
			}
			p.finish(args)
		})
		vsched.Outcome("ok")
	})
	once("C34", "decode pulse, debounce", 20000000, func(c *mcrun.Ctx) {
		d := vsched.Choose(4, "debounce")
		n := 1 + vsched.Choose(6, "blocks")
		args := []string{"--scope"}
		if d > 0 {
			args = append(args, fmt.Sprintf("--debounce=%d", d))
		} else {
			d = 1
		}
		vsched.QuietFair(func() {
			on := false
			p := prepare()
			p.sound = &pulse.Server{Sources: []*pulse.Source{source("one", 8000, 1, func(t float64) float64 {
				if !on {
					return 0
				}
				return 0.9 * math.Sin(2*math.Pi*700*t)
			})}}
			pulse.Current = p.sound
			p.start(append([]string{"decode", "pulse"}, args...)...)
			vsched.WaitQuiescent()
			v := watch(":35369")
			vsched.WaitQuiescent()
			p.listen(0.5)
			// the fragments are not aligned to the blocks: at least n-1 and at most n+1 blocks with a signal
			s := p.sound.Clients[0].Streams[0]
			v.demod, v.debounced, v.raw = 0, 0, 0
			on = true
			for v.raw < n {
				if !s.Deliver() {
					vsched.Fail("the record stream does not run")
				}
				vsched.WaitQuiescent()
				if v.demod > 3*n+10 || v.ended {
					vsched.Fail("%v: the signal is not detected", args)
				}
			}
			on = false
			p.listen(0.5)
			if (v.debounced > 0) != (v.raw >= d) {
				vsched.Fail("%v: a signal of %d blocks has %d debounced ones of %d", args, v.raw, v.debounced, v.demod)
			}
			p.finish(args)
		})
		vsched.Outcome("ok")
	})
}
