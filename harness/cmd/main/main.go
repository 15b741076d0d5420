// Harness for the whole program: cmd.Execute with a command line, in a world in memory.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	realos "os"
	"strconv"
	"strings"
	"syscall"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/cmd"
	"github.com/ftl/sdrainer/scope/pb"
	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/grpc"
	"github.com/ftl/sdrainer/zzverif/shim/log"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/shim/os"
	"github.com/ftl/sdrainer/zzverif/shim/pulse"
	"github.com/ftl/sdrainer/zzverif/shim/signal"
	client "github.com/ftl/sdrainer/zzverif/shim/tciclient"
	"github.com/ftl/sdrainer/zzverif/shim/websocket"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const (
	center   = 7020000
	block    = 512
	tciRate  = 48000
	kiwiRate = 25600 // bins of 50 Hz, 20 ms per block
	binmsg   = 2
	qso      = "vvv vvv cq de dl1abc dl1abc pse k cq de dl1abc dl1abc k "
)

func main() {
	settingsJobs()
	receptionJobs()
	endJobs()
	mcrun.Main()
}

func reset() {
	client.OnKeepOpen, websocket.OnDial, os.OnStdout, os.OnExit, log.OnFatal, pulse.Current, net.FailListen = nil, nil, nil, nil, nil, nil, nil
	grpc.StreamCapacity = 100000
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	checkWith(mcrun.Job, prop, name, quick, thorough, body)
}

func checkWith(register func(prop, name string, run func(*mcrun.Ctx)), prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	register(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 4000000}
		vsched.Check(c, cfg, func() {
			reset()
			body(c)
		})
	})
}

// program is a running instance.
type program struct {
	t     *vsched.Thread
	fatal string // reason of an exit
	out   strings.Builder
	after bool
	last  []string // all commands to the device before the end

	dev   *client.Client // TCI
	trx   int
	queue [][]float32
	i     int

	conn *websocket.Conn // KiwiSDR
	url  string

	sound *pulse.Server

	o vsched.Obj
}

// prepare connects the world; start runs the program in it.
func prepare() *program {
	p := &program{conn: websocket.NewConn()}
	os.OnStdout = func(b []byte) {
		if p.after {
			return
		}
		p.out.Write(b)
	}
	os.OnExit = func(code int) {
		if p.fatal == "" {
			p.fatal = fmt.Sprintf("exit %d", code)
		}
	}
	log.OnFatal = func(msg string) {
		if p.fatal == "" {
			p.fatal = "fatal: " + msg
		}
	}
	client.OnKeepOpen = func(c *client.Client) { p.dev = c }
	websocket.OnDial = func(url string) (*websocket.Conn, error) {
		p.url = url
		return p.conn, nil
	}
	return p
}

func (p *program) start(args ...string) *program {
	realos.Args = append([]string{"sdrainer"}, args...)
	p.t = vsched.GoNamed("program", func() {
		cmd.Execute()
		vsched.Point("main returns", &p.o, true, func() {
			p.after = true
			if p.dev != nil {
				p.last = append(p.last, p.dev.Commands...)
			}
		})
	})
	return p
}

// over waits for the end of the program.
func (p *program) over(what any) {
	vsched.WaitQuiescent()
	switch {
	case p.fatal != "":
		vsched.Fail("%v: the program ends with %q", what, p.fatal)
	case !p.after:
		vsched.Fail("%v: the program does not end: %s", what, vsched.Live())
	}
}

func (p *program) interrupt() {
	if !signal.Raise(syscall.SIGINT) {
		vsched.Fail("nobody waits for the signal")
	}
}

// --- devices ---

func (p *program) dds(trx, f int) {
	p.dev.Deliver(func(l any) {
		if l, ok := l.(orig.DDSListener); ok {
			l.SetDDS(trx, f)
		}
	})
}

func (p *program) vfo(trx int, vfo orig.VFO, f int) {
	p.dev.Deliver(func(l any) {
		if l, ok := l.(orig.IFListener); ok {
			l.SetIF(trx, vfo, f)
		}
	})
}

var messages = map[string][]float32{}

func message(blocks ...[]float32) []float32 {
	key := ""
	for _, f := range blocks {
		key += fmt.Sprintf("%p ", &f[0])
	}
	if m, ok := messages[key]; ok {
		return m
	}
	var res []float32
	for _, f := range blocks {
		res = append(res, f...)
	}
	messages[key] = res
	return res
}

var packets = map[*float32][]byte{}

func packet(frame []float32) []byte {
	if b, ok := packets[&frame[0]]; ok {
		return b
	}
	res := append([]byte("SND"), make([]byte, 17)...)
	for _, v := range frame {
		res = binary.BigEndian.AppendUint16(res, uint16(int16(v*32767)))
	}
	packets[&frame[0]] = res
	return res
}

// feed lets the program receive k blocks with tones on the given bins.
func (p *program) feed(k int, bins ...int) {
	for i := 0; i < k; i++ {
		p.i++
		f := iq.Frame(block, p.i, bins...)
		if p.dev == nil {
			p.conn.Push(binmsg, packet(f))
		} else {
			p.queue = append(p.queue, f)
			if len(p.queue) == 4 {
				m := message(p.queue...)
				p.queue = nil
				p.data(p.trx, m)
			}
		}
		if i%48 == 47 || i == k-1 {
			vsched.WaitQuiescent()
		}
	}
}

func (p *program) data(trx int, m []float32) {
	p.dev.Deliver(func(l any) {
		if l, ok := l.(orig.IQDataListener); ok {
			l.IQData(trx, tciRate, m)
		}
	})
}

// key lets the program hear a text.
func (p *program) key(text string, dit, bin int) {
	for _, on := range iq.Keying(text, dit) {
		if on {
			p.feed(1, bin)
		} else {
			p.feed(1)
		}
	}
}

// dit is the length of a dit in blocks.
func (p *program) dit() int {
	if p.dev == nil {
		return 3
	}
	return 4
}

// offset of a bin from the center.
func (p *program) offset(bin int) float64 {
	if p.dev == nil {
		return float64(bin-block/2) * kiwiRate / block
	}
	return float64(bin-block/2) * tciRate / block
}

// connect lets the device answer.
func (p *program) connect() {
	if p.dev == nil {
		p.conn.Push(binmsg, []byte(fmt.Sprintf("MSG audio_rate=%d", kiwiRate)))
		return
	}
	p.dds(p.trx, center)
	p.dev.SetConnected(true)
}

// commands to the TCI device that begin with a prefix.
func (p *program) commands(prefix string) []string {
	var res []string
	for _, c := range p.dev.Commands {
		if strings.HasPrefix(c, prefix) {
			res = append(res, c)
		}
	}
	return res
}

// --- clients ---

// cluster is a client of the cluster server.
func cluster(port int) *net.Peer {
	c, err := net.Connect(port, 100000)
	if err != nil {
		vsched.Fail("cannot connect to the cluster on port %d: %v", port, err)
	}
	return c
}

type spot struct {
	by, call string
	khz      float64
	line     string
}

// spots are the spots a client has got.
func spots(c *net.Peer) []spot {
	var res []spot
	for _, l := range strings.Split(c.Received(), "\n") {
		i := strings.Index(l, "DX de ")
		if i < 0 {
			continue
		}
		l = l[i:]
		s := spot{line: l}
		by, rest, ok := strings.Cut(strings.TrimPrefix(l, "DX de "), ":")
		f := strings.Fields(rest)
		if !ok || len(f) != 4 || f[2] != "cw" {
			vsched.Fail("spot %q", l)
		}
		s.by, s.call = by, f[1]
		s.khz, _ = strconv.ParseFloat(f[0], 64)
		if at, now := f[3], vsched.Now().UTC().Format("1504z"); at > now || at < "0630z" {
			vsched.Fail("spot %q, it is %s", l, now) // the virtual day begins at 06:30 UTC
		}
		res = append(res, s)
	}
	return res
}

// viewer looks at the scope.
type viewer struct {
	threshold, signal float64
	spectra           int
	demod             int // number of demodulator frames
	debounced         int // with a signal
	raw               int // with a signal before the debouncing
	frames            int
	ended             bool
}

func watch(address string) *viewer {
	v := &viewer{}
	conn, _ := grpc.NewClient(address)
	stream, err := pb.NewScopeClient(conn).GetFrames(context.Background(), nil)
	if err != nil {
		vsched.Fail("cannot connect to the scope: %v", err)
	}
	vsched.GoNamed("viewer", func() {
		for {
			f, err := stream.Recv()
			if err != nil {
				v.ended = true
				return
			}
			v.frames++
			switch f := f.Frame.(type) {
			case *pb.Frame_TimeFrame:
				if d, ok := f.TimeFrame.Values["debounced"]; ok {
					v.demod++
					if f.TimeFrame.Values["state"] > 0 {
						v.raw++
					}
					if d > 0 {
						v.debounced++
					}
				}
			case *pb.Frame_SpectralFrame:
				if t, ok := f.SpectralFrame.MagnitudeMarkers["threshold"]; ok {
					v.threshold = float64(t)
					v.signal = float64(f.SpectralFrame.FrequencyMarkers["signal_bin"])
					v.spectra++
				}
			}
		}
	})
	return v
}

var floors = map[string]float64{}

// floor is the noise level of a device, 15 dB below the default threshold.
func floor(what string) float64 {
	if f, ok := floors[what]; ok {
		return f
	}
	var f float64
	vsched.Explore(vsched.Config{MaxSteps: 2000000, Deadline: time.Now().Add(time.Minute)}, func() {
		reset()
		vsched.QuietFair(func() {
			p := prepare().start("strain", what, "--scope", "--threshold=15")
			vsched.WaitQuiescent()
			v := watch(":35369")
			p.connect()
			p.feed(200)
			f = v.threshold - 15
			p.interrupt()
		})
	})
	floors[what] = f
	return f
}

func near(a, b, d float64) bool { return math.Abs(a-b) <= d }
