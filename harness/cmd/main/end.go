package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/zzverif/iq"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/shim/pulse"
	"github.com/ftl/sdrainer/zzverif/shim/signal"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// --- C35: the end of the program ---

var signals = []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT}

var commands = [][]string{
	{"strain", "tci", "--show_listeners"}, {"strain", "kiwi"}, {"decode", "tci"}, {"decode", "pulse"},
}

// world has all devices.
func world() *program {
	p := prepare()
	p.sound = &pulse.Server{Sources: []*pulse.Source{source("one", 8000, 1, func(float64) float64 { return 0.1 })}}
	pulse.Current = p.sound
	return p
}

// ended checks the end of the program after the first signal.
func (p *program) ended(desc string) {
	vsched.WaitQuiescent()
	if p.fatal != "" {
		vsched.Fail("%s: the program ends with %q after the first signal", desc, p.fatal)
	}
	if !p.after {
		vsched.Fail("%s: the program does not end: %s", desc, vsched.Live())
	}
	p.off(desc)
}

// off checks that the device does not send IQ data any more and shows no listeners.
func (p *program) off(desc string) {
	if p.dev != nil {
		running, markers := false, map[string]bool{}
		for _, c := range p.last {
			op, arg, _ := strings.Cut(c, " ")
			name, _, _ := strings.Cut(arg, ",")
			switch op {
			case "start_iq":
				running = true
			case "stop_iq", "disconnected":
				running = false
			case "spot":
				if !strings.HasPrefix(name, ">") {
					markers[name] = true
				}
			case "spot_delete":
				delete(markers, name)
			case "spot_clear":
				clear(markers)
			}
		}
		if running || len(markers) > 0 {
			vsched.Fail("%s: after the end, IQ data is sent: %v, markers %v: %q", desc, running, markers, p.last)
		}
	}
	if p.url != "" && !p.conn.Closed() {
		vsched.Fail("%s: after the end, the connection to the KiwiSDR is open", desc)
	}
	if p.sound != nil {
		for _, c := range p.sound.Clients {
			for _, s := range c.Streams {
				if s.Running() {
					vsched.Fail("%s: after the end, the sound is recorded", desc)
				}
			}
		}
	}
	for _, port := range []int{7373, 35369} {
		if net.Listening(port) {
			vsched.Fail("%s: after the end, the port %d is in use", desc, port)
		}
	}
}

// life of the device: it connects and sends data.
func (p *program) life(kind int) {
	switch kind {
	case 0, 2:
		if p.dev != nil {
			p.dev.SetConnected(true)
			p.vfo(0, orig.VFOA, 1000)
			p.data(0, message(iq.Frame(block, 1), iq.Frame(block, 2), iq.Frame(block, 3), iq.Frame(block, 0)))
		}
	case 1:
		p.conn.Push(binmsg, []byte(fmt.Sprintf("MSG audio_rate=%d", kiwiRate)))
		p.conn.Push(binmsg, packet(iq.Frame(block, 1)))
	case 3:
		for _, c := range p.sound.Clients {
			for _, s := range c.Streams {
				s.Deliver()
			}
		}
	}
}

// more data from the device.
func (p *program) more(kind int) {
	switch kind {
	case 0, 2:
		p.data(0, message(iq.Frame(block, 1), iq.Frame(block, 2), iq.Frame(block, 3), iq.Frame(block, 0)))
	case 1:
		p.conn.Push(binmsg, packet(iq.Frame(block, 1)))
	case 3:
		p.life(kind)
	}
}

func endJobs() {
	for kind, command := range commands {
		for _, scoped := range []bool{false, true} {
			kind, command, scoped := kind, command, scoped
			name := strings.Join(command[:2], " ")
			if scoped {
				command = append(append([]string(nil), command...), "--scope")
				name += " with scope"
			}
			connecting := 1
			if scoped {
				connecting = 0
			}
			check("C35", "signal at the start, "+name, 1, 2, func(c *mcrun.Ctx) {
				n := len(signals)
				if scoped {
					n = mcrun.Tier(c, 1, n)
				}
				sig := signals[vsched.Choose(n, "signal")]
				p := world().start(command...)
				killed := false
				user := vsched.GoNamed("user", func() { killed = !signal.Raise(sig) })
				vsched.WaitDone(user)
				if killed {
					vsched.Outcome("killed")
					return
				}
				p.ended(sig.String())
				vsched.Outcome("ended")
			})
			check("C35", "signal while the device connects, "+name, connecting, 2, func(c *mcrun.Ctx) {
				p := world()
				vsched.QuietFair(func() {
					p.start(command...)
					vsched.WaitQuiescent()
				})
				sig := signals[vsched.Choose(mcrun.Tier(c, 1, len(signals)), "signal")]
				device := vsched.GoNamed("device", func() { p.life(kind) })
				user := vsched.GoNamed("user", func() {
					if !signal.Raise(sig) {
						vsched.Fail("nobody waits for the signal")
					}
				})
				vsched.WaitDone(user, device)
				p.ended(sig.String())
				vsched.Outcome("ended")
			})
			register := mcrun.Job
			if scoped && kind < 3 {
				register = mcrun.ThoroughJob
			}
			checkWith(register, "C35", "signal while receiving, "+name, 0, 1, func(c *mcrun.Ctx) {
				p := world()
				vsched.QuietFair(func() {
					p.start(command...)
					vsched.WaitQuiescent()
					if kind < 2 {
						cluster(7373)
						stuck, _ := net.Connect(7373, 0)
						_ = stuck
					}
					if scoped {
						watch(":35369")
						vsched.WaitQuiescent()
					}
					if kind < 3 {
						p.connect()
						p.vfoOn(0)
						p.feed(104, block/2)
					}
					vsched.WaitQuiescent()
				})
				sig := signals[vsched.Choose(mcrun.Tier(c, 1, len(signals)), "signal")]
				device := vsched.GoNamed("device", func() { p.more(kind) })
				user := vsched.GoNamed("user", func() {
					if !signal.Raise(sig) {
						vsched.Fail("nobody waits for the signal")
					}
				})
				vsched.WaitDone(user, device)
				p.ended(sig.String())
				vsched.Outcome("ended")
			})
			check("C35", "two signals, "+name, 1, 2, func(c *mcrun.Ctx) {
				p := world()
				stalled := vsched.Choose(2, "device stalls") == 1
				vsched.QuietFair(func() {
					p.start(command...)
					vsched.WaitQuiescent()
					if kind < 3 {
						p.connect()
					}
					if p.dev != nil && stalled {
						p.dev.Stall(true)
					}
				})
				first, second := signals[vsched.Choose(mcrun.Tier(c, 2, len(signals)), "first")], signals[vsched.Choose(mcrun.Tier(c, 2, len(signals)), "second")]
				if !signal.Raise(first) {
					vsched.Fail("nobody waits for the signal")
				}
				if stalled {
					// the program waits for the device
					vsched.WaitQuiescent()
				}
				late := p.after
				if !signal.Raise(second) {
					vsched.Outcome("killed")
					return
				}
				vsched.WaitQuiescent()
				if p.fatal == "" && !p.after {
					vsched.Fail("%v, %v: the program does not end: %s", first, second, vsched.Live())
				}
				switch {
				case late:
					vsched.Outcome("ended before")
				case p.fatal != "":
					vsched.Outcome("at once")
				default:
					vsched.Outcome("in order")
				}
			})
		}
	}
	once("C35", "every signal", 4000000, func(c *mcrun.Ctx) {
		kind := vsched.Choose(len(commands), "command")
		sig := signals[vsched.Choose(len(signals), "signal")]
		feed := vsched.Choose(2, "data") == 1
		args := commands[kind]
		if vsched.Choose(2, "scope") == 1 {
			args = append(append([]string(nil), args...), "--scope")
		}
		vsched.QuietFair(func() {
			p := world().start(args...)
			vsched.WaitQuiescent()
			var cl *net.Peer
			if kind < 2 {
				cl = cluster(7373)
			}
			if feed && kind < 3 {
				p.connect()
				p.feed(100)
			} else if feed {
				p.life(kind)
			}
			if !signal.Raise(sig) {
				vsched.Fail("%v: nobody waits for the signal %s", args, sig)
			}
			p.ended(fmt.Sprintf("%v, %s", args, sig))
			if cl != nil && !cl.ClosedByServer() {
				vsched.Fail("%v, %s: after the end, the client of the cluster is connected", args, sig)
			}
		})
		vsched.Outcome("ok")
	})
	once("C35", "no end without a signal", 4000000, func(c *mcrun.Ctx) {
		kind := vsched.Choose(len(commands), "command")
		what := vsched.Choose(4, "event")
		vsched.QuietFair(func() {
			p := world().start(commands[kind]...)
			vsched.WaitQuiescent()
			if kind < 3 {
				p.connect()
				p.feed(100)
			}
			switch what {
			case 1:
				p.life(kind)
			case 2: // the device goes away
				switch kind {
				case 0, 2:
					p.dev.SetConnected(false)
				}
			case 3:
				if kind < 2 {
					cl := cluster(7373)
					vsched.WaitQuiescent()
					cl.Close()
				}
			}
			vsched.WaitQuiescent()
			if p.fatal != "" || p.after {
				vsched.Fail("%v: the program ends %s", commands[kind], p.fatal)
			}
			p.finish(commands[kind])
		})
		vsched.Outcome("ok")
	})
}
