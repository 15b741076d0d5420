// Harness for the telnet cluster server.
package main

import (
	"fmt"
	"math"
	"strings"
	"syscall"
	"time"

	"github.com/ftl/sdrainer/telnet"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const (
	port    = 7373
	welcome = "SDRainer Version v1\n"
	prompt  = "Enter your callsign: "
)

var t0 = time.Date(2024, 1, 1, 12, 34, 56, 789012345, time.UTC)

func newServer() *telnet.Server {
	net.AcceptErrors, net.AcceptTakesTime = nil, false
	s, err := telnet.NewServer("127.0.0.1:7373", "dl0xx-#", "v1")
	if err != nil {
		vsched.Fail("cannot start the server: %v", err)
	}
	return s
}

func connect(capacity int) *net.Peer {
	p, err := net.Connect(port, capacity)
	if err != nil {
		vsched.Fail("cannot connect: %v", err)
	}
	return p
}

// line is the expected cluster line.
func line(call string, freq float64, msg string, ts time.Time) string {
	return lineOf("dl0xx-#", call, freq, msg, ts)
}

func lineOf(mycall, call string, freq float64, msg string, ts time.Time) string {
	khz := " " + fmt.Sprintf("%.1f", freq/1000)
	l := pad("DX de "+mycall+":", 16)
	for len(khz) < 6 {
		khz = " " + khz
	}
	return l + khz + "  " + pad(call, 13) + pad(msg, 31) + pad(ts.Format("1504"), 4) + "z\n"
}

func pad(s string, n int) string {
	for len([]rune(s)) < n {
		s += " "
	}
	return s
}

func spotLine(call string) string { return line(call, 7010000, "", t0) }

// session checks what a client has got: the greeting, then the spots and the answers, each whole
// and in order.  It returns the number of spots and answers.
func session(who, got string, spots, answers []string) (int, int) {
	rest, ok := strings.CutPrefix(got, welcome)
	if !ok {
		if strings.HasPrefix(welcome, got) {
			return 0, 0
		}
		vsched.Fail("%s: no greeting: %q", who, got)
	}
	ns, na := 0, 0
	prompted := false
	for rest != "" {
		if !prompted {
			if r, ok := strings.CutPrefix(rest, prompt); ok {
				rest = r
				prompted = true
				continue
			}
		}
		if ns < len(spots) {
			if r, ok := strings.CutPrefix(rest, spots[ns]); ok {
				rest = r
				ns++
				continue
			}
		}
		if prompted && na < len(answers) {
			if r, ok := strings.CutPrefix(rest, answers[na]); ok {
				rest = r
				na++
				continue
			}
		}
		vsched.Fail("%s: unexpected output %q after %d spots and %d answers", who, got, ns, na)
	}
	return ns, na
}

// suffixSession is session for a client that may have missed the first spots.
func suffixSession(who, got string, spots []string) int {
	for i := range spots {
		if strings.Contains(got, spots[i]) {
			ns, _ := session(who, got, spots[i:], nil)
			if ns != len(spots)-i {
				vsched.Fail("%s: got spot %d but only %d of the %d from there on: %q", who, i, ns, len(spots)-i, got)
			}
			return ns
		}
	}
	session(who, got, nil, nil)
	return 0
}

// sequential: one thread acts at a time.
var sequential = vsched.Config{Preemptions: 0}

func main() {
	dedupeJobs()
	distributionJobs()
	dialogJobs()
	lifecycleJobs()
	formatJobs()
	mcrun.Main()
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 60000}
		vsched.Check(c, cfg, func() { body(c) })
	})
}

// --- C20 ---

func dedupeJobs() {
	type spot struct {
		call string
		freq float64
	}
	calls := []spot{{"DL1ABC", 7010000}, {"DL1ABC", 7010300}, {"DL1ABC", 7011000}, {"DL1AB", 7010000}}
	deltas := []time.Duration{0, 59 * time.Second, 60 * time.Second, 61 * time.Second, -30 * time.Second}
	for _, mode := range []string{"default period", "one minute", "changed period", "zero period"} {
		mode := mode
		mcrun.Job("C20", "history/"+mode, func(c *mcrun.Ctx) {
			depth := mcrun.Tier(c, 3, 4)
			vsched.Check(c, sequential, func() {
				s := newServer()
				p := connect(1000)
				vsched.WaitQuiescent()
				period := 4 * time.Minute
				scale := time.Duration(4)
				if mode != "default period" {
					period = time.Minute
					scale = 1
					if mode == "zero period" {
						period = 0
					}
					s.SetSilencePeriod(period)
				}
				last := map[string]time.Time{}
				now := t0
				var want []string
				announced := ""
				for i := 0; i < depth; i++ {
					if mode == "changed period" && i > 0 && vsched.Choose(2, "change") == 1 {
						period = 30 * time.Second
						s.SetSilencePeriod(period)
					}
					sp := calls[vsched.Choose(len(calls), "spot")]
					if i > 0 {
						now = now.Add(deltas[vsched.Choose(len(deltas), "delta")] * scale)
					}
					key := fmt.Sprintf("%s@%.0f", sp.call, sp.freq/1000)
					l, known := last[key]
					if !known || now.Sub(l) > period {
						want = append(want, line(sp.call, sp.freq, "x", now))
						last[key] = now
						announced += "A"
					} else {
						announced += "-"
					}
					s.Spot(sp.call, sp.freq, "x", now)
				}
				vsched.WaitQuiescent()
				got := p.Received()
				if exp := welcome + prompt + strings.Join(want, ""); got != exp {
					vsched.Fail("client got %q, expected %q", got, exp)
				}
				vsched.Outcome("%s", announced)
			})
		})
	}
	mcrun.Job("C20", "frequencies", func(c *mcrun.Ctx) {
		freqs := []float64{7009400, 7009600, 7009900, 7009999, 7010000, 7010100, 7010400, 7010600, 7010900, 7011100, 14010000, 701000, 400, 100, 2400000600, 10489501000, 10489501400, 10489502000, 72546000, 7010000 + 1<<32, 7010000 + 1<<31}
		vsched.Check(c, sequential, func() {
			s := newServer()
			p := connect(1000)
			vsched.WaitQuiescent()
			want := ""
			known := map[float64]bool{}
			for i := 0; i < 3; i++ {
				f := freqs[vsched.Choose(len(freqs), "frequency")]
				if k := math.Round(f / 1000); !known[k] {
					known[k] = true
					want += line("DL1ABC", f, "x", t0)
				}
				s.Spot("DL1ABC", f, "x", t0)
			}
			vsched.WaitQuiescent()
			if got := strings.TrimPrefix(p.Received(), welcome+prompt); got != want {
				vsched.Fail("client got %q, expected %q", got, want)
			}
			vsched.Outcome("%d announced", len(known))
		})
	})
	mcrun.Job("C20", "similar callsigns", func(c *mcrun.Ctx) {
		calls := []string{"K1A", "K1AA", "AK1A", "DL1ABC", "DL1ABD", "DL/K1A", "DL/K1A/P", "DL/K1A/M", "K1A/P", "VP2V/DL1ABCD/P", "VP2V/DL1ABCD/MM", "VP2V/DL1ABCE/P", "DL1ABCDEFGHIJK", "DL1ABCDEFGHIJKL"}
		vsched.Check(c, sequential, func() {
			s := newServer()
			p := connect(1000)
			vsched.WaitQuiescent()
			want := ""
			known := map[string]bool{}
			for i := 0; i < 3; i++ {
				call := calls[vsched.Choose(len(calls), "callsign")]
				if !known[call] {
					known[call] = true
					want += line(call, 7010000, "x", t0)
				}
				s.Spot(call, 7010000, "x", t0)
			}
			vsched.WaitQuiescent()
			if got := strings.TrimPrefix(p.Received(), welcome+prompt); got != want {
				vsched.Fail("client got %q, expected %q", got, want)
			}
			vsched.Outcome("%d announced", len(known))
		})
	})
	mcrun.Job("C20", "many spots", func(c *mcrun.Ctx) {
		// the server remembers all spots as long as it has to
		vsched.Check(c, vsched.Config{MaxSteps: 4000000}, func() {
			period := []time.Duration{0, time.Minute, time.Hour, 24 * time.Hour}[vsched.Choose(4, "period")]
			n := []int{1, 60, 400, 12000}[vsched.Choose(4, "number of spots")]
			part := vsched.Choose(4, "part of the period until the others")
			late := vsched.Choose(2, "repeated late")
			if n > 400 && !c.Thorough && (period != time.Hour || part != 1) {
				return
			}
			s := newServer()
			effective := period
			if period > 0 {
				s.SetSilencePeriod(period)
			} else {
				effective = 4 * time.Minute
			}
			p := connect(100000)
			vsched.WaitQuiescent()
			calls := []string{"K1A", "DL1ABC"}
			want := ""
			vsched.Quiet(func() {
				for _, call := range calls {
					s.Spot(call, 7010000, "", t0)
					want += line(call, 7010000, "", t0)
				}
				others := t0.Add(effective * time.Duration(part) / 4)
				for i := 0; i < n; i++ {
					call, f := fmt.Sprintf("K%dX", i), float64(14000000+i*1700)
					s.Spot(call, f, "", others)
					want += line(call, f, "", others)
					if i%40 == 39 {
						vsched.WaitQuiescent() // the client reads
						if n > 400 {
							p.Read()
						}
					}
				}
				at := t0.Add(effective)
				if late == 1 {
					at = at.Add(time.Second)
				}
				for i := 0; i < 2; i++ {
					for _, call := range calls {
						s.Spot(call, 7010000, "", at)
						if late == 1 && i == 0 {
							want += line(call, 7010000, "", at)
						}
					}
				}
				vsched.WaitQuiescent()
			})
			if got := strings.TrimPrefix(p.Received(), welcome+prompt); got != want {
				vsched.Fail("period %v, %d other spots, part %d, repeated late %d: %d lines instead of %d", period, n, part, late, strings.Count(got, "\n"), strings.Count(want, "\n"))
			}
			vsched.Outcome("%d", strings.Count(want, "\n"))
		})
	})
	check("C20", "another server", 0, 0, func(c *mcrun.Ctx) {
		// what one server has announced does not matter to another one
		ports := []int{7373, 7374}
		var servers [2]*telnet.Server
		var clients [2]*net.Peer
		var want [2]string
		names := []string{"A1A", "B1B"}
		seen := map[string]bool{}
		var hist []string
		start := func(i int) {
			s, err := telnet.NewServer(fmt.Sprintf("127.0.0.1:%d", ports[i]), "dl0xx-#", "v1")
			if err != nil {
				vsched.Fail("cannot start server %d: %v", i, err)
			}
			p, err := net.Connect(ports[i], 1000)
			if err != nil {
				vsched.Fail("cannot connect to server %d: %v", i, err)
			}
			servers[i], clients[i], want[i] = s, p, welcome+prompt
			for _, n := range names {
				delete(seen, fmt.Sprint(i, n))
			}
			vsched.WaitQuiescent()
		}
		verify := func(i int) {
			if got := clients[i].Received(); got != want[i] {
				vsched.Fail("%v: the client of server %d got %q, expected %q", hist, i, got, want[i])
			}
		}
		vsched.Quiet(func() {
			start(0)
			start(1)
		})
		for k := 0; k < mcrun.Tier(c, 5, 7); k++ {
			op := vsched.Choose(6, "event")
			vsched.Quiet(func() {
				i := op % 2
				if op < 4 {
					n := names[op/2]
					hist = append(hist, fmt.Sprintf("%s on %d", n, i))
					servers[i].Spot(n, 7010000, "", t0)
					if key := fmt.Sprint(i, n); !seen[key] {
						seen[key] = true
						want[i] += spotLine(n)
					}
				} else {
					hist = append(hist, fmt.Sprintf("restart %d", i))
					verify(i)
					servers[i].Stop()
					vsched.WaitQuiescent()
					start(i)
				}
				vsched.WaitQuiescent()
				verify(0)
				verify(1)
			})
		}
		vsched.Quiet(func() {
			servers[0].Stop()
			servers[1].Stop()
			vsched.WaitQuiescent()
		})
		vsched.Outcome("ok")
	})
	check("C20", "two sources, same spot", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		a := vsched.GoNamed("source1", func() { s.Spot("A1A", 7010000, "", t0) })
		b := vsched.GoNamed("source2", func() { s.Spot("A1A", 7010200, "", t0) })
		vsched.WaitDone(a, b)
		vsched.WaitQuiescent()
		rest := strings.TrimPrefix(p.Received(), welcome+prompt)
		if rest != line("A1A", 7010000, "", t0) && rest != line("A1A", 7010200, "", t0) {
			vsched.Fail("one spot expected, got %q", rest)
		}
		vsched.Outcome("%s", rest)
	})
	check("C20", "two sources, three spots", 2, 2, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		a := vsched.GoNamed("source1", func() {
			s.Spot("A1A", 7010000, "", t0)
			s.Spot("B1B", 7010000, "", t0)
		})
		b := vsched.GoNamed("source2", func() { s.Spot("B1B", 7010000, "", t0) })
		vsched.WaitDone(a, b)
		vsched.WaitQuiescent()
		rest := strings.TrimPrefix(p.Received(), welcome+prompt)
		la, lb := spotLine("A1A"), spotLine("B1B")
		if rest != la+lb && rest != lb+la {
			vsched.Fail("each spot once expected, got %q", rest)
		}
		vsched.Outcome("%s", rest)
	})
}

// --- C21 ---

func distributionJobs() {
	A, B, C, D := spotLine("A1A"), spotLine("B1B"), spotLine("C1C"), spotLine("D1D")
	spot := func(s *telnet.Server, call string) { s.Spot(call, 7010000, "", t0) }

	check("C21", "one client leaves", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		p, q := connect(100), connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("leaving", func() { q.Close() })
		spot(s, "A1A")
		spot(s, "B1B")
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		if n, _ := session("staying client", p.Received(), []string{A, B}, nil); n != 2 {
			vsched.Fail("staying client got %d of 2 spots", n)
		}
		n, _ := session("leaving client", q.Received(), []string{A, B}, nil)
		vsched.Outcome("leaving client got %d", n)
	})
	check("C21", "client joins", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		var q *net.Peer
		t := vsched.GoNamed("joining", func() { q = connect(100) })
		spot(s, "A1A")
		spot(s, "B1B")
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		spot(s, "C1C")
		vsched.WaitQuiescent()
		if n, _ := session("first client", p.Received(), []string{A, B, C}, nil); n != 3 {
			vsched.Fail("first client got %d of 3 spots", n)
		}
		n := suffixSession("joining client", q.Received(), []string{A, B, C})
		if n < 1 {
			vsched.Fail("joined client does not get spots")
		}
		vsched.Outcome("joining client got %d", n)
	})
	// every subset of the clients leaves
	for _, nClients := range []int{3, 4} {
		nClients := nClients
		mcrun.Job("C21", fmt.Sprintf("subset of %d leaves", nClients), func(c *mcrun.Ctx) {
			vsched.Check(c, vsched.Config{Preemptions: mcrun.Tier(c, 0, 1)}, func() {
				s := newServer()
				var ps []*net.Peer
				for i := 0; i < nClients; i++ {
					ps = append(ps, connect(100))
				}
				vsched.WaitQuiescent()
				spot(s, "A1A")
				vsched.WaitQuiescent()
				mask := vsched.Choose(1<<nClients, "leaving")
				for i, p := range ps {
					if mask>>i&1 == 1 {
						p.Close()
					}
				}
				vsched.WaitQuiescent()
				mask2 := 0
				for _, call := range []string{"B1B", "C1C", "D1D"} {
					spot(s, call)
					vsched.WaitQuiescent()
					if call == "B1B" {
						if k := vsched.Choose(nClients+1, "then"); k > 0 {
							mask2 = 1 << (k - 1)
							ps[k-1].Close()
							vsched.WaitQuiescent()
						}
					}
				}
				q := connect(100)
				vsched.WaitQuiescent()
				spot(s, "E1E")
				vsched.WaitQuiescent()
				E := spotLine("E1E")
				for i, p := range ps {
					n, _ := session(fmt.Sprintf("client %d", i), p.Received(), []string{A, B, C, D, E}, nil)
					if (mask|mask2)>>i&1 == 0 && n != 5 {
						vsched.Fail("client %d stays, but got only %d of 5 spots", i, n)
					}
				}
				if n, _ := session("new client", q.Received(), []string{E}, nil); n != 1 {
					vsched.Fail("new client does not get spots")
				}
				vsched.Outcome("%x %x", mask, mask2)
			})
		})
	}
	// clients come, go, type and stop reading in any order
	type client struct {
		*net.Peer
		spots, answers []string
	}
	names := []string{"client 0 comes or goes", "client 1 comes or goes", "slow client comes or goes", "client 0 types", "slow client reads", "spot", "three spots", "all leave"}
	play := func(pattern []int, repeat int) {
		s := newServer()
		var clients, old []*client
		clients = make([]*client, 3)
		var hist []string
		spots := 0
		leave := func(k int) {
			clients[k].Close()
			old = append(old, clients[k])
			clients[k] = nil
		}
		verify := func(k int, cl *client) {
			who := fmt.Sprintf("%q: client %d", hist, k)
			ns, na := session(who, cl.Received(), cl.spots, cl.answers)
			if k < 2 && (ns != len(cl.spots) || na != len(cl.answers)) {
				vsched.Fail("%s got %d of %d spots and %d of %d answers", who, ns, len(cl.spots), na, len(cl.answers))
			}
			if k < 2 && cl.ClosedByServer() {
				vsched.Fail("%s is disconnected", who)
			}
		}
		for i := 0; i < repeat; i++ {
			for _, op := range pattern {
				hist = append(hist, names[op])
				switch op {
				case 0, 1, 2:
					if clients[op] != nil {
						leave(op)
					} else {
						clients[op] = &client{Peer: connect([]int{1000, 1000, 2}[op])}
					}
				case 3:
					if cl := clients[0]; cl != nil {
						cl.Send("x\n")
						answer := "\n"
						if len(cl.answers) == 0 {
							answer = "welcome x\n"
						}
						cl.answers = append(cl.answers, answer)
					}
				case 4:
					if clients[2] != nil {
						clients[2].Read()
					}
				case 5, 6:
					for n := 0; n < 2*op-9; n++ {
						call := fmt.Sprintf("A%dA", spots)
						spots++
						spot(s, call)
						for _, cl := range clients {
							if cl != nil {
								cl.spots = append(cl.spots, spotLine(call))
							}
						}
					}
				case 7:
					for k, cl := range clients {
						if cl != nil {
							leave(k)
						}
					}
				}
				vsched.WaitQuiescent()
				for k, cl := range clients {
					if cl != nil {
						verify(k, cl)
					}
				}
			}
		}
		for _, cl := range old {
			session(fmt.Sprintf("%q: a client that left", hist), cl.Received(), cl.spots, cl.answers)
		}
		s.Stop()
		vsched.WaitQuiescent()
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("%q: still running after the stop: %v", hist, l)
		}
		vsched.Outcome("ok")
	}
	for first := range names {
		first := first
		for _, repeat := range []int{1, 7} {
			repeat := repeat
			name := "all sequences of events after " + names[first]
			if repeat > 1 {
				name = "all periodic histories from " + names[first]
			}
			check("C21", name, 0, 0, func(c *mcrun.Ctx) {
				pattern := []int{first}
				n := mcrun.Tier(c, 5, 6)
				if repeat > 1 {
					n = mcrun.Tier(c, 3, 4)
				}
				for len(pattern) < n {
					op := vsched.Choose(len(names)+1, "event")
					if op == len(names) {
						break
					}
					pattern = append(pattern, op)
				}
				vsched.Quiet(func() { play(pattern, repeat) })
			})
		}
	}
	check("C21", "stalled client", 1, 2, func(c *mcrun.Ctx) {
		s := newServer()
		order := vsched.Choose(2, "order")
		var p, q *net.Peer
		if order == 0 {
			q = connect(2)
			p = connect(100)
		} else {
			p = connect(100)
			q = connect(2)
		}
		vsched.WaitQuiescent()
		for _, call := range []string{"A1A", "B1B", "C1C", "D1D"} {
			spot(s, call)
		}
		vsched.WaitQuiescent()
		if n, _ := session("healthy client", p.Received(), []string{A, B, C, D}, nil); n != 4 {
			vsched.Fail("healthy client got %d of 4 spots", n)
		}
		session("stalled client", q.Received(), []string{A, B, C, D}, nil)
		// it is still possible to end the server
		s.Stop()
		vsched.Outcome("order %d", order)
	})
	check("C21", "stalled client, many spots", 0, 0, func(c *mcrun.Ctx) {
		s := newServer()
		q := connect(3)
		p := connect(1000)
		vsched.WaitQuiescent()
		var lines []string
		for i := 0; i < 230; i++ {
			call := fmt.Sprintf("A%dA", i)
			spot(s, call)
			lines = append(lines, spotLine(call))
			vsched.WaitQuiescent()
		}
		if n, _ := session("healthy client", p.Received(), lines, nil); n != len(lines) {
			vsched.Fail("healthy client got %d of %d spots", n, len(lines))
		}
		session("stalled client", q.Received(), lines, nil)
		s.Stop()
		vsched.Outcome("ok")
	})
	for _, together := range []bool{true, false} {
		together := together
		name := "many clients, one after another"
		if together {
			name = "many clients together"
		}
		mcrun.Job("C21", name, func(c *mcrun.Ctx) {
			vsched.Check(c, vsched.Config{MaxSteps: 100000000}, func() {
				n := []int{20, 70, 150}[vsched.Choose(mcrun.Tier(c, 2, 3), "clients")]
				keep := []int{1, 2, 7}[vsched.Choose(3, "stay")]
				typing := vsched.Choose(2, "typing") == 1
				s := newServer()
				vsched.Quiet(func() {
					type visitor struct {
						p     *net.Peer
						lines []string
						gone  bool
					}
					var all []*visitor
					announced := 0
					announce := func() {
						call := fmt.Sprintf("A%dA", announced)
						announced++
						spot(s, call)
						vsched.WaitQuiescent()
						for _, v := range all {
							if !v.gone {
								v.lines = append(v.lines, spotLine(call))
							}
						}
					}
					for i := 0; i < n; i++ {
						v := &visitor{p: connect(1000000)}
						vsched.WaitQuiescent()
						all = append(all, v)
						if typing {
							v.p.Send("A1B\n")
						}
						if !together || i%10 == 9 {
							announce()
						}
						if !together && i%keep != 0 {
							v.p.Close()
							vsched.WaitQuiescent()
							v.gone = true
						}
					}
					announce()
					for i, v := range all {
						if together && i%keep != 0 {
							v.p.Close()
							vsched.WaitQuiescent()
							v.gone = true
							if i%10 == 0 {
								announce()
							}
						}
					}
					announce()
					announce()
					for i, v := range all {
						got, _ := session(fmt.Sprintf("client %d of %d", i, n), v.p.Received(), v.lines, map[bool][]string{true: {"welcome A1B\n"}}[typing])
						if got != len(v.lines) {
							vsched.Fail("client %d of %d got %d of %d spots", i, n, got, len(v.lines))
						}
					}
					s.Stop()
				})
				vsched.Outcome("%d", n)
			})
		})
	}
	check("C21", "accepting fails for a moment", 0, 1, func(c *mcrun.Ctx) {
		kind := []error{syscall.ECONNABORTED, syscall.EMFILE, syscall.ENOBUFS}[vsched.Choose(3, "error")]
		n := []int{1, 2, 7, 60}[vsched.Choose(4, "times")]
		at := vsched.Choose(3, "for the first, second, third client")
		s := newServer()
		var clients []*net.Peer
		lines := make([][]string, 3)
		for i := 0; i < 3; i++ {
			if i == at {
				for j := 0; j < n; j++ {
					net.AcceptErrors = append(net.AcceptErrors, kind)
				}
			}
			clients = append(clients, connect(1000))
			vsched.WaitQuiescent()
			call := fmt.Sprintf("A%dA", i)
			spot(s, call)
			vsched.WaitQuiescent()
			for j := range clients {
				lines[j] = append(lines[j], spotLine(call))
			}
		}
		for i, p := range clients {
			if got, _ := session(fmt.Sprintf("client %d", i), p.Received(), lines[i], nil); got != len(lines[i]) {
				vsched.Fail("%v, %d times for client %d: client %d got %d of %d spots", kind, n, at, i, got, len(lines[i]))
			}
		}
		s.Stop()
		vsched.WaitQuiescent()
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %s", l)
		}
		vsched.Outcome("ok")
	})
	check("C21", "nothing happens for a long time", 0, 0, func(c *mcrun.Ctx) {
		pauses := []time.Duration{0, time.Second, 9 * time.Second, 29 * time.Second, time.Minute, 6 * time.Minute, 61 * time.Minute, 25 * time.Hour, 1000 * time.Hour}
		var chosen []time.Duration
		for i := 0; i < 3; i++ {
			chosen = append(chosen, pauses[vsched.Choose(len(pauses), "pause")])
		}
		early := vsched.Choose(2, "gives the callsign at once") == 1
		s := newServer()
		var lines []string
		var clients []*net.Peer
		vsched.Quiet(func() {
			for i, d := range chosen {
				if i < 2 {
					p := connect(1000)
					vsched.WaitQuiescent()
					if early {
						p.Send("dl0zz\r\n")
						vsched.WaitQuiescent()
					}
					clients = append(clients, p)
				}
				vsched.Advance(d)
				vsched.WaitQuiescent()
				call := fmt.Sprintf("A%dA", i)
				spot(s, call)
				vsched.WaitQuiescent()
				lines = append(lines, spotLine(call))
			}
			if !early {
				for _, p := range clients {
					p.Send("dl0zz\r\n")
					vsched.WaitQuiescent()
				}
			}
		})
		for i, p := range clients {
			if got, _ := session(fmt.Sprintf("pauses %v, client %d", chosen, i), p.Received(), lines[i:], []string{"welcome dl0zz\n\n"}); got != len(lines)-i {
				vsched.Fail("pauses %v: client %d got %d of %d spots: %q", chosen, i, got, len(lines)-i, p.Received())
			}
			if !strings.Contains(p.Received(), "dl0zz") {
				vsched.Fail("pauses %v: client %d got no answer: %q", chosen, i, p.Received())
			}
		}
		vsched.Quiet(func() {
			s.Stop()
			vsched.WaitQuiescent()
		})
		vsched.Outcome("ok")
	})
	check("C21", "client that pauses", 0, 0, func(c *mcrun.Ctx) {
		// whoever is still connected after a pause has got everything
		capacity := vsched.Choose(3, "capacity")*20 + 1
		first := []int{0, 3, 30}[vsched.Choose(3, "spots before")]
		pause := []int{1, 50, 99, 101, 120, 150, 250}[vsched.Choose(7, "spots during the pause")]
		burst := vsched.Choose(2, "burst") == 1
		s := newServer()
		q := connect(capacity)
		p := connect(10000)
		vsched.WaitQuiescent()
		var lines []string
		vsched.Quiet(func() {
			spots := func(n int, reading bool) {
				for i := 0; i < n; i++ {
					call := fmt.Sprintf("A%dA", len(lines))
					spot(s, call)
					lines = append(lines, spotLine(call))
					if !burst || reading || i%40 == 39 {
						vsched.WaitQuiescent()
					}
					for k := 0; reading && k < 3; k++ {
						q.Read()
						vsched.WaitQuiescent()
					}
				}
			}
			spots(first, true)
			spots(pause, false)
			// it goes on reading
			for i := 0; i < 300; i++ {
				q.Read()
				vsched.WaitQuiescent()
			}
			spots(3, true)
		})
		if n, _ := session("healthy client", p.Received(), lines, nil); n != len(lines) {
			vsched.Fail("healthy client got %d of %d spots", n, len(lines))
		}
		n, _ := session("client that pauses", q.Received(), lines, nil)
		if n != len(lines) && !q.ClosedByServer() {
			vsched.Fail("client that pauses got %d of %d spots", n, len(lines))
		}
		s.Stop()
		vsched.Outcome("all %v", n == len(lines))
	})
	check("C21", "accepting takes its time", 1, 2, func(c *mcrun.Ctx) {
		// the server looks for new connections up to the deadline it has set
		n := vsched.Choose(6, "spots") + 1
		pause := []time.Duration{0, 30 * time.Millisecond, time.Second}[vsched.Choose(3, "pause")]
		var s *telnet.Server
		var p *net.Peer
		vsched.Quiet(func() {
			s = newServer()
			p = connect(1000)
			vsched.WaitQuiescent()
		})
		net.AcceptTakesTime = true
		var lines []string
		t := vsched.GoNamed("source", func() {
			for i := 0; i < n; i++ {
				call := fmt.Sprintf("A%dA", i)
				spot(s, call)
				lines = append(lines, spotLine(call))
				if pause > 0 {
					vsched.Sleep(pause)
				}
			}
		})
		vsched.WaitDone(t)
		vsched.Quiet(func() {
			for i := 0; i < 2*n; i++ {
				vsched.WaitQuiescent()
				vsched.Advance(time.Second)
			}
			vsched.WaitQuiescent()
		})
		net.AcceptTakesTime = false
		if n, _ := session("client", p.Received(), lines, nil); n != len(lines) {
			vsched.Fail("client got %d of %d spots", n, len(lines))
		}
		s.Stop()
		vsched.Outcome("ok")
	})
	check("C21", "burst", 1, 1, func(c *mcrun.Ctx) {
		s := newServer()
		p, q := connect(100), connect(100)
		vsched.WaitQuiescent()
		var lines []string
		for i := 0; i < 5; i++ {
			call := fmt.Sprintf("A%dA", i)
			spot(s, call)
			lines = append(lines, spotLine(call))
		}
		vsched.WaitQuiescent()
		for i, x := range []*net.Peer{p, q} {
			if n, _ := session("client", x.Received(), lines, nil); n != 5 {
				vsched.Fail("client %d got %d of 5 spots", i, n)
			}
		}
		vsched.Outcome("ok")
	})
	check("C21", "spots while clients talk", 2, 2, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("typing", func() { p.Send("x\ny\n") })
		spot(s, "A1A")
		spot(s, "B1B")
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		n, a := session("client", p.Received(), []string{A, B}, []string{"welcome x\n", "\n"})
		if n != 2 || a != 2 {
			vsched.Fail("client got %d of 2 spots and %d of 2 answers", n, a)
		}
		vsched.Outcome("%s", p.Received())
	})
	check("C21", "talking client leaves", 1, 2, func(c *mcrun.Ctx) {
		s := newServer()
		p, q := connect(100), connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("leaving", func() {
			q.Send("x\n")
			q.Close()
		})
		spot(s, "A1A")
		spot(s, "B1B")
		spot(s, "C1C")
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		if n, _ := session("staying client", p.Received(), []string{A, B, C}, nil); n != 3 {
			vsched.Fail("staying client got %d of 3 spots", n)
		}
		vsched.Outcome("%v", q.ClosedByServer())
	})
}

// --- C22 ---

func dialogJobs() {
	sequences := []string{"\xff\xfb\x01", "\xff\xfd\x03", "\xff\xff", "\x1b[A", "\x1b[3~", "\b\b", "\x7f\x7f\x7f", "%!", "bye", "quit", "exit", "SH/DX", "\t\t"}
	inputs := []struct {
		in      string
		answers []string
	}{
		{"a\n", []string{"welcome a\n"}},
		{"dl1\n", []string{"welcome dl1\n"}},
		{"\n", []string{"welcome \n"}},
		{"ab\r\n", []string{"welcome ab\n", "\n"}},
		{"ab\nx\n", []string{"welcome ab\n", "\n"}},
		{"a\n\n\r", []string{"welcome a\n", "\n", "\n"}},
		{"a\nbye\n\nx", []string{"welcome a\n", "\n", "\n"}},
		{"\xc3\xa4\n", []string{"welcome \xc3\xa4\n"}},
		{"nobody", nil},
		{" a\t\n \n", []string{"welcome  a\t\n", "\n"}},
		{"A%s\x00\xff\n", []string{"welcome A%s\x00\xff\n"}},
	}
	for i, in := range inputs {
		in := in
		mcrun.Job("C22", fmt.Sprintf("chunks %d", i), func(c *mcrun.Ctx) {
			vsched.Check(c, vsched.Config{Preemptions: mcrun.Tier(c, 1, 2)}, func() {
				newServer()
				p := connect(100)
				t := vsched.GoNamed("typing", func() {
					chunk := ""
					for i := 0; i < len(in.in); i++ {
						chunk += in.in[i : i+1]
						if i+1 < len(in.in) && vsched.Choose(2, "chunk") == 0 {
							continue
						}
						p.Send(chunk)
						chunk = ""
					}
				})
				vsched.WaitDone(t)
				vsched.WaitQuiescent()
				if exp := welcome + prompt + strings.Join(in.answers, ""); p.Received() != exp {
					vsched.Fail("client got %q, expected %q", p.Received(), exp)
				}
				vsched.Outcome("%d", len(p.Received()))
			})
		})
	}
	check("C22", "two clients", 2, 2, func(c *mcrun.Ctx) {
		newServer()
		p, q := connect(100), connect(100)
		t := vsched.GoNamed("typing1", func() { p.Send("a\n") })
		u := vsched.GoNamed("typing2", func() { q.Send("b"); q.Send("\n") })
		vsched.WaitDone(t, u)
		vsched.WaitQuiescent()
		if p.Received() != welcome+prompt+"welcome a\n" || q.Received() != welcome+prompt+"welcome b\n" {
			vsched.Fail("clients got %q and %q", p.Received(), q.Received())
		}
		vsched.Outcome("ok")
	})
	check("C22", "long lines", 0, 1, func(c *mcrun.Ctx) {
		newServer()
		p := connect(100)
		n := []int{13, 80, 255, 256, 1022, 1023, 1024, 1025, 2048, 3000, 4096, 10000, 70000}[vsched.Choose(13, "length")]
		p.Send(strings.Repeat("x", n) + "\nz\n")
		vsched.WaitQuiescent()
		if exp := welcome + prompt + "welcome " + strings.Repeat("x", n) + "\n\n"; p.Received() != exp {
			vsched.Fail("wrong answer to a line of %d bytes: %d bytes", n, len(p.Received()))
		}
		vsched.Outcome("%d", n)
	})
	check("C22", "a client that types and reads later", 0, 1, func(c *mcrun.Ctx) {
		lines := []int{1, 2, 3, 5, 20}[vsched.Choose(5, "lines")]
		capacity := []int{1, 10, 25, 50, 1000}[vsched.Choose(5, "capacity")]
		pause := []time.Duration{0, 2 * time.Second, time.Minute, time.Hour}[vsched.Choose(4, "pause")]
		newServer()
		p := connect(capacity)
		vsched.Quiet(func() {
			p.Send("dl1abc\n")
			vsched.WaitQuiescent()
			for i := 0; i < lines; i++ {
				p.Send("line\n")
				vsched.WaitQuiescent()
			}
			vsched.Advance(pause)
			vsched.WaitQuiescent()
			for i := 0; i < 200; i++ {
				p.Read()
				vsched.WaitQuiescent()
			}
		})
		if exp := welcome + prompt + "welcome dl1abc\n" + strings.Repeat("\n", lines); p.Received() != exp {
			vsched.Fail("client reads after %v: got %q, expected %q", pause, p.Received(), exp)
		}
		vsched.Outcome("ok")
	})
	check("C22", "every byte", 0, 0, func(c *mcrun.Ctx) {
		// no byte but the ends of the lines has a meaning
		var line string
		switch b := vsched.Choose(256+len(sequences), "byte"); {
		case b < 256:
			line = string([]byte{byte(b)})
		default:
			line = sequences[b-256]
		}
		if line == "\n" || line == "\r" {
			return
		}
		newServer()
		p := connect(1000)
		before, after := []string{"", "a", "ab"}[vsched.Choose(3, "before")], []string{"", "z"}[vsched.Choose(2, "after")]
		vsched.Quiet(func() {
			p.Send(before + line + after + "\n" + before + line + after + "\n\r")
			vsched.WaitQuiescent()
		})
		if exp := welcome + prompt + "welcome " + before + line + after + "\n\n\n"; p.Received() != exp {
			vsched.Fail("line %q: client got %q, expected %q", before+line+after, p.Received(), exp)
		}
		vsched.Outcome("ok")
	})
	mcrun.Job("C22", "many lines", func(c *mcrun.Ctx) {
		vsched.Check(c, vsched.Config{MaxSteps: 100000000}, func() {
			n := []int{30, 120, 1100, 70000}[vsched.Choose(mcrun.Tier(c, 3, 4), "lines")]
			at := []int{1, 10, 300}[vsched.Choose(3, "lines at once")]
			length := []int{0, 1, 40}[vsched.Choose(3, "length")]
			newServer()
			p := connect(10000000)
			vsched.Quiet(func() {
				text := strings.Repeat("x", length) + "\n"
				p.Send("A1B\n")
				vsched.WaitQuiescent()
				for i := 0; i < n; i += at {
					p.Send(strings.Repeat(text, min(at, n-i)))
					vsched.WaitQuiescent()
				}
			})
			if got, exp := p.Received(), welcome+prompt+"welcome A1B\n"+strings.Repeat("\n", n); got != exp {
				vsched.Fail("wrong answer to %d lines of %d bytes: %d bytes instead of %d", n, length, len(got), len(exp))
			}
			vsched.Outcome("%d", n)
		})
	})
	check("C22", "client leaves", 2, 2, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		t := vsched.GoNamed("typing", func() {
			p.Send("a\n")
			if vsched.Choose(2, "how") == 0 {
				p.Close()
			} else {
				p.Send("b\n")
				p.Close()
			}
		})
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		session("client", p.Received(), nil, []string{"welcome a\n", "\n"})
		q := connect(100)
		vsched.WaitQuiescent()
		if q.Received() != welcome+prompt {
			vsched.Fail("next client got %q", q.Received())
		}
		s.Stop()
		vsched.Outcome("%s", p.Received())
	})
}

// --- C23 ---

func lifecycleJobs() {
	// right after a stop
	released := func(ps ...*net.Peer) {
		if net.Listening(port) {
			vsched.Fail("the port is still in use when the server is stopped")
		}
		for i, p := range ps {
			if !p.ClosedByServer() {
				vsched.Fail("client %d is still connected when the server is stopped", i)
			}
		}
	}
	stopped := func(s *telnet.Server, ps ...*net.Peer) {
		released(ps...)
		vsched.WaitQuiescent()
		for i, p := range ps {
			if !p.ClosedByServer() {
				vsched.Fail("client %d is still connected after the end of the server", i)
			}
		}
		if net.Listening(port) {
			vsched.Fail("the port is still in use after the end of the server")
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running after the end of the server: %s", strings.Join(l, ", "))
		}
	}
	spot := func(s *telnet.Server, call string) { s.Spot(call, 7010000, "", t0) }

	check("C23", "stop idle", 2, 4, func(c *mcrun.Ctx) {
		s := newServer()
		s.Stop()
		stopped(s)
		s.Stop()
		s2 := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		if p.Received() != welcome+prompt {
			vsched.Fail("no service after a restart")
		}
		s2.Stop()
		stopped(s2, p)
		vsched.Outcome("ok")
	})
	check("C23", "stop with two clients", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		p, q := connect(100), connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("typing", func() {
			switch vsched.Choose(4, "activity") {
			case 0:
				p.Send("a\n")
			case 1:
				p.Close()
			case 2:
				p.HalfClose()
			case 3:
				p.Send("a\n")
				p.Send("b\nc\n")
			}
		})
		s.Stop()
		vsched.WaitDone(t)
		stopped(s, q)
		vsched.Outcome("%s", p.Received())
	})
	check("C23", "stop while spotting", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("spotting", func() {
			spot(s, "A1A")
			spot(s, "B1B")
			spot(s, "C1C")
		})
		s.Stop()
		vsched.WaitDone(t)
		spot(s, "D1D")
		spot(s, "E1E")
		stopped(s, p)
		n, _ := session("client", p.Received(), []string{spotLine("A1A"), spotLine("B1B"), spotLine("C1C")}, nil)
		vsched.Outcome("%d spots", n)
	})
	check("C23", "two stops", 2, 4, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("stop1", func() { s.Stop(); vsched.Observe("stop1") })
		u := vsched.GoNamed("stop2", func() { s.Stop(); vsched.Observe("stop2") })
		vsched.WaitDone(t, u)
		stopped(s, p)
		vsched.Outcome("ok")
	})
	check("C23", "stop with a stalled client", 1, 2, func(c *mcrun.Ctx) {
		s := newServer()
		capacity := vsched.Choose(4, "capacity")
		p := connect(capacity)
		vsched.WaitQuiescent()
		if capacity > 0 {
			spot(s, "A1A")
			spot(s, "B1B")
			vsched.WaitQuiescent()
		}
		s.Stop()
		stopped(s, p)
		vsched.Outcome("capacity %d", capacity)
	})
	check("C23", "stop while a client connects", 2, 3, func(c *mcrun.Ctx) {
		s := newServer()
		var p *net.Peer
		t := vsched.GoNamed("connecting", func() { p, _ = net.Connect(port, 100) })
		s.Stop()
		vsched.WaitDone(t)
		if p != nil && len(p.Received()) > 0 {
			stopped(s, p)
		} else {
			stopped(s)
		}
		vsched.Outcome("connected %v", p != nil)
	})
	check("C23", "client leaves during spots, then stop", 2, 2, func(c *mcrun.Ctx) {
		s := newServer()
		p := connect(100)
		vsched.WaitQuiescent()
		t := vsched.GoNamed("leaving", func() {
			p.Send("x\n")
			p.Close()
		})
		spot(s, "A1A")
		spot(s, "B1B")
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		s.Stop()
		stopped(s)
		vsched.Outcome("%s", p.Received())
	})
	check("C23", "port in use", 0, 0, func(c *mcrun.Ctx) {
		s := newServer()
		if _, err := telnet.NewServer("127.0.0.1:7373", "x", "y"); err == nil {
			vsched.Fail("a second server on the same port does not fail")
		}
		for _, a := range []string{"nonsense", "127.0.0.1:http-nonsense", "nohost.invalid:1"} {
			if _, err := telnet.NewServer(a, "x", "y"); err == nil {
				vsched.Fail("address %q is accepted", a)
			}
		}
		s.Stop()
		stopped(s)
		vsched.Outcome("ok")
	})
}

// --- C24 ---

func formatJobs() {
	calls := []string{"A1A", "DL1ABC", "EA8/DL1ABC", "EA8/DL1ABC/P", "VP2E/DL1ABC/P", "VP2E/DL1ABC/MM", "VP2E/DL1ABC/MM/QRP"}
	mycalls := []string{"DL0XYZ", "", "A1A", "DL0XYZ-15", "DL0XYZ-#12", "DL/DL0XYZ/P-12"}
	freqs := []float64{0, 472500, 1810000, 7010040, 7010060, 14025500, 28025400, 144050100, 1296200000}
	msgs := []string{"", "cw 25 wpm", strings.Repeat("m", 31), "m%s%d", strings.Repeat("n", 40)}
	times := []time.Time{t0, time.Date(2024, 1, 1, 0, 5, 59, 0, time.UTC), time.Date(2024, 12, 31, 23, 59, 0, 0, time.UTC), time.Date(2024, 6, 30, 9, 8, 7, 0, time.FixedZone("", -9000))}
	mcrun.Job("C24", "fields", func(c *mcrun.Ctx) {
		vsched.Check(c, sequential, func() {
			mycall := mycalls[vsched.Choose(len(mycalls), "mycall")]
			s, err := telnet.NewServer("127.0.0.1:7373", mycall, "v1")
			if err != nil {
				vsched.Fail("cannot start the server: %v", err)
			}
			p := connect(100)
			vsched.WaitQuiescent()
			call := calls[vsched.Choose(len(calls), "call")]
			freq := freqs[vsched.Choose(len(freqs), "freq")]
			msg := msgs[vsched.Choose(len(msgs), "msg")]
			ts := times[vsched.Choose(len(times), "time")]
			s.Spot(call, freq, msg, ts)
			vsched.WaitQuiescent()
			got := strings.TrimPrefix(p.Received(), welcome+prompt)
			if exp := lineOf(mycall, call, freq, msg, ts); got != exp {
				vsched.Fail("got %q, expected %q", got, exp)
			}
			vsched.Outcome("%d", len(got))
		})
	})
}
