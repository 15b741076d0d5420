// Harness for the scope: distribution of frames and lifecycle of server and client. gRPC and the
// network are replaced by in-memory versions.
package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/scope/pb"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/shim/grpc"
	"github.com/ftl/sdrainer/zzverif/shim/net"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

func main() {
	distributionJobs()
	contentJobs()
	clientJobs()
	lifecycleJobs()
	mcrun.Main()
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 200000}
		vsched.Check(c, cfg, func() {
			grpc.StreamCapacity = 100
			body(c)
		})
	})
}

const address = "localhost:4711"

func start() *scope.ScopeServer {
	s := scope.NewScopeServer(address)
	if err := s.Start(); err != nil {
		vsched.Fail("cannot start: %v", err)
	}
	return s
}

func timeFrame(i int) *scope.TimeFrame {
	return &scope.TimeFrame{Frame: scope.Frame{Stream: scope.StreamID(fmt.Sprint("t", i)), Timestamp: time.Unix(int64(i), 0)}, Values: map[scope.ChannelID]float64{"x": float64(i)}}
}

func spectralFrame(i int) *scope.SpectralFrame {
	return &scope.SpectralFrame{Frame: scope.Frame{Stream: scope.StreamID(fmt.Sprint("s", i)), Timestamp: time.Unix(int64(i), 0)}, Values: []float64{float64(i)}}
}

// show sends frame i, time frames and spectral frames by turns.
func show(s *scope.ScopeServer, i int) {
	if i%2 == 0 {
		s.ShowTimeFrame(timeFrame(i))
	} else {
		s.ShowSpectralFrame(spectralFrame(i))
	}
}

// viewer is a client that sees the raw stream.
type viewer struct {
	conn    *grpc.ClientConn
	stream  pb.Scope_GetFramesClient
	got     []int // frames
	ended   bool
	stalled bool
	reader  *vsched.Thread
	from    int // first frame
	left    bool
	pending int // frames sent while stalled
	lost    bool
	o       vsched.Obj
}

func join() *viewer {
	v := &viewer{}
	v.conn, _ = grpc.NewClient(address)
	stream, err := pb.NewScopeClient(v.conn).GetFrames(context.Background(), nil)
	if err != nil {
		v.ended = true
		return v
	}
	v.stream = stream
	return v
}

// next takes one frame.
func (v *viewer) next() bool {
	f, err := v.stream.Recv()
	if err != nil {
		v.ended = true
		return false
	}
	var i int
	switch f := f.Frame.(type) {
	case *pb.Frame_TimeFrame:
		fmt.Sscanf(f.TimeFrame.StreamId, "t%d", &i)
		if len(f.TimeFrame.Values) != 1 || f.TimeFrame.Values["x"] != float32(i) || f.TimeFrame.Timestamp.AsTime().Unix() != int64(i) {
			vsched.Fail("frame %v", f)
		}
	case *pb.Frame_SpectralFrame:
		fmt.Sscanf(f.SpectralFrame.StreamId, "s%d", &i)
		if len(f.SpectralFrame.Values) != 1 || f.SpectralFrame.Values[0] != float32(i) || f.SpectralFrame.Timestamp.AsTime().Unix() != int64(i) {
			vsched.Fail("frame %v", f)
		}
	}
	v.got = append(v.got, i)
	return true
}

// read takes frames in the background, unless the viewer is stalled.
func (v *viewer) read() {
	if v.stream == nil {
		return
	}
	v.reader = vsched.GoNamed("viewer", func() {
		for {
			vsched.Block("viewer", &v.o, func() bool { return !v.stalled }, nil)
			if !v.next() {
				return
			}
		}
	})
}

func (v *viewer) stall(s bool) { vsched.Point("stall", &v.o, true, func() { v.stalled = s }) }

// checkSequence checks that there are no gaps.
func (v *viewer) checkSequence(what any) {
	for i, f := range v.got {
		if i > 0 && f != v.got[i-1]+1 {
			vsched.Fail("%v: frames %v", what, v.got)
		}
	}
}

func ended(what any) {
	vsched.WaitQuiescent()
	if l := vsched.Live(); len(l) > 0 {
		vsched.Fail("%v: still running: %s", what, l)
	}
	if net.Listening(4711) {
		vsched.Fail("%v: the port is still in use", what)
	}
}

// --- C31: distribution ---

func distributionJobs() {
	prop := "C31"
	for first := 0; first < 3; first++ {
		first := first
		check(prop, fmt.Sprintf("all sequences of events, stream capacity %d", []int{1, 3, 100}[first]), 0, 0, func(c *mcrun.Ctx) {
			grpc.StreamCapacity = []int{1, 3, 100}[first]
			const n = 3
			var vs [n]*viewer
			sent := 0
			var names []string
			var s *scope.ScopeServer
			vsched.Quiet(func() { s = start() })
			depth := mcrun.Tier(c, 6, 7)
			for i := 0; i < depth; i++ {
				// the choice of the viewers is symmetric, they join one after the other
				var ops []int
				joined := 0
				for k, v := range vs {
					if v == nil {
						ops = append(ops, 10+k)
						break
					}
					joined++
					if v.left {
						continue
					}
					if v.stalled {
						ops = append(ops, 30+k)
					} else {
						ops = append(ops, 20+k)
					}
					ops = append(ops, 40+k)
				}
				if joined > 0 {
					ops = append(ops, 1, 4)
				}
				ops = append(ops, 0)
				op := ops[vsched.Choose(len(ops), "event")]
				if op == 0 {
					break
				}
				vsched.Quiet(func() {
					k := op % 10
					switch {
					case op < 10:
						burst := op
						if op == 4 {
							burst = 30
						}
						names = append(names, fmt.Sprintf("%d frames", burst))
						for j := 0; j < burst; j++ {
							show(s, sent)
							sent++
							for _, v := range vs {
								if v != nil && v.stalled {
									v.pending++
									if v.pending > 5 {
										v.lost = true
									}
								}
							}
							vsched.WaitQuiescent()
						}
					case op < 20:
						names = append(names, fmt.Sprintf("join %d", k))
						vs[k] = join()
						vs[k].from = sent
						vs[k].read()
					case op < 30:
						names = append(names, fmt.Sprintf("stall %d", k))
						vs[k].stall(true)
						vs[k].pending = 0
					case op < 40:
						names = append(names, fmt.Sprintf("go on %d", k))
						vs[k].stall(false)
					case op < 50:
						names = append(names, fmt.Sprintf("leave %d", k))
						vs[k].stall(false)
						vs[k].conn.Close()
						vs[k].left = true
					}
				})
			}
			vsched.Quiet(func() {
				// all stalled viewers go on
				for _, v := range vs {
					if v != nil && v.stalled {
						v.stall(false)
					}
				}
				vsched.WaitQuiescent()
				for k, v := range vs {
					if v == nil {
						continue
					}
					v.checkSequence(names)
					if len(v.got) > 0 && v.got[0] != v.from {
						vsched.Fail("%v: viewer %d starts with frame %d instead of %d", names, k, v.got[0], v.from)
					}
					if v.left {
						continue
					}
					if !v.lost && (len(v.got) != sent-v.from || v.ended) {
						vsched.Fail("%v: viewer %d got %d of %d frames, ended %v", names, k, len(v.got), sent-v.from, v.ended)
					}
					if v.lost && len(v.got) < min(sent-v.from, 5) {
						vsched.Fail("%v: slow viewer %d got only %d of %d frames", names, k, len(v.got), sent-v.from)
					}
					if v.lost && len(v.got) < sent-v.from && !v.ended {
						vsched.Fail("%v: slow viewer %d misses frames, but its stream is still open", names, k)
					}
				}
				s.Stop()
				vsched.WaitQuiescent()
				for k, v := range vs {
					if v != nil && !v.ended {
						vsched.Fail("%v: the stream of viewer %d does not end", names, k)
					}
				}
				ended(names)
			})
			vsched.Outcome("ok")
		})
	}
	names := []string{"0 comes or goes", "1 comes or goes", "1 stalls or goes on", "a frame", "8 frames", "13 frames", "all go"}
	for first := range names {
		first := first
		check(prop, "all periodic histories from "+names[first], 0, 0, func(c *mcrun.Ctx) {
			// nothing wears out
			grpc.StreamCapacity = []int{1, 100}[vsched.Choose(2, "stream capacity")]
			var vs [2]*viewer
			var all []*viewer
			sent := 0
			pattern, what := []int{first}, []string{names[first]}
			for n := mcrun.Tier(c, 4, 5); len(pattern) < n; {
				e := vsched.Choose(len(names)+1, "event")
				if e == len(names) {
					break
				}
				pattern, what = append(pattern, e), append(what, names[e])
			}
			vsched.Quiet(func() {
				s := start()
				vsched.WaitQuiescent()
				leave := func(k int) {
					if v := vs[k]; v != nil {
						v.stall(false)
						vsched.WaitQuiescent()
						v.conn.Close()
						v.left, vs[k] = true, nil
					}
				}
				for i := 0; i < 9; i++ {
					for _, e := range pattern {
						switch e {
						case 0, 1:
							if vs[e] != nil {
								leave(e)
								break
							}
							v := join()
							v.from = sent
							v.read()
							vs[e], all = v, append(all, v)
						case 2:
							if v := vs[1]; v != nil {
								v.stall(!v.stalled)
								v.pending = 0
							}
						case 3, 4, 5:
							for j := []int{1, 8, 13}[e-3]; j > 0; j-- {
								show(s, sent)
								sent++
								vsched.WaitQuiescent()
								if v := vs[1]; v != nil && v.stalled {
									v.pending++
									v.lost = v.lost || v.pending > 5
								}
							}
						case 6:
							leave(0)
							leave(1)
						}
						vsched.WaitQuiescent()
						if v := vs[0]; v != nil && (v.ended || len(v.got) != sent-v.from) {
							vsched.Fail("%v: the viewer got %d of %d frames, ended %v", what, len(v.got), sent-v.from, v.ended)
						}
					}
				}
				leave(1)
				vsched.WaitQuiescent()
				for _, v := range all {
					v.checkSequence(what)
					if len(v.got) > 0 && v.got[0] != v.from {
						vsched.Fail("%v: a viewer starts with frame %d instead of %d", what, v.got[0], v.from)
					}
				}
				s.Stop()
				ended(what)
				for _, v := range all {
					if !v.ended {
						vsched.Fail("%v: a stream does not end", what)
					}
				}
			})
			vsched.Outcome("ok")
		})
	}
	for n := 2; n <= 4; n++ {
		n := n
		check(prop, fmt.Sprintf("%d viewers, any of them slow", n), 0, 1, func(c *mcrun.Ctx) {
			// all subsets of slow viewers in all orders, some of them after a while
			grpc.StreamCapacity = 1
			var vs []*viewer
			var state []int
			for i := 0; i < n; i++ {
				state = append(state, vsched.Choose(mcrun.Tier(c, 3, 4), "state"))
			}
			var s *scope.ScopeServer
			sent := 0
			vsched.Quiet(func() {
				s = start()
				vsched.WaitQuiescent()
				for i := 0; i < n; i++ {
					v := join()
					v.read()
					vs = append(vs, v)
					vsched.WaitQuiescent()
				}
				for j := 0; j < 40; j++ {
					for i, v := range vs {
						if (state[i] == 1 && j == 0) || (state[i] == 2 && j == 5) || (state[i] == 3 && j == 20) {
							v.stall(true)
						}
					}
					show(s, sent)
					sent++
					vsched.WaitQuiescent()
				}
				for i, v := range vs {
					v.checkSequence(state)
					if state[i] == 0 && (len(v.got) != sent || v.ended) {
						vsched.Fail("%v: viewer %d got %d of %d frames, ended %v", state, i, len(v.got), sent, v.ended)
					}
				}
				for _, v := range vs {
					v.stall(false)
				}
				vsched.WaitQuiescent()
				for i, v := range vs {
					v.checkSequence(state)
					if (len(v.got) > 0 && v.got[0] != 0) || (len(v.got) < sent && !v.ended) {
						vsched.Fail("%v: viewer %d got %v, ended %v", state, i, v.got, v.ended)
					}
				}
				s.Stop()
				ended(state)
			})
			vsched.Outcome("ok")
		})
	}
	for n := 1; n <= 2; n++ {
		n, frames := n, 3-n
		check(prop, fmt.Sprintf("viewers come and go while frames are sent by %d sources", n), []int{0, 2, 0}[n], []int{0, 4, 2}[n], func(c *mcrun.Ctx) {
			var s *scope.ScopeServer
			var a *viewer
			vsched.Quiet(func() {
				s = start()
				vsched.WaitQuiescent()
				a = join()
				a.read()
			})
			var ts []*vsched.Thread
			for k := 0; k < n; k++ {
				ts = append(ts, vsched.GoNamed("source", func() {
					for i := 0; i < frames; i++ {
						show(s, 100*k+i)
					}
				}))
			}
			var b *viewer
			t := vsched.GoNamed("other", func() {
				b = join()
				b.next()
				b.conn.Close()
			})
			vsched.WaitDone(ts...)
			vsched.WaitQuiescent()
			show(s, 1000) // b takes this one, if it was too late
			vsched.WaitQuiescent()
			if !t.Done() {
				show(s, 1001)
				vsched.WaitQuiescent()
			}
			vsched.WaitDone(t)
			// the frames of each source in order
			last := map[int]int{}
			for _, i := range a.got {
				if i < 1000 {
					if i%100 != last[i/100] {
						vsched.Fail("frames %v", a.got)
					}
					last[i/100]++
				}
			}
			for k := 0; k < n; k++ {
				if last[k] != frames {
					vsched.Fail("frames %v", a.got)
				}
			}
			vsched.Quiet(func() {
				s.Stop()
				ended("")
			})
			vsched.Outcome("ok")
		})
	}
}

// --- C31: content ---

func contentJobs() {
	prop := "C31"
	values := []float64{0, 1, -1, 0.1, 1e-45, 1e30, 1e39, math.MaxFloat32, math.Inf(1), math.Inf(-1), math.NaN(), -130.123456789, 1 << 24, 1<<24 + 1}
	names := []string{"", "x", "signal_bin", "ä€", "a b\x00c"}
	times := []time.Time{time.Unix(0, 0), time.Unix(1700000000, 123456789), time.Date(2100, 12, 31, 23, 59, 59, 999999999, time.FixedZone("x", 3600)), time.Unix(-1, 5)}
	same := func(sent, got float64) bool {
		want := float64(float32(sent))
		return got == want || (math.IsNaN(want) && math.IsNaN(got))
	}
	sameMap := func(sent, got map[string]float64) bool {
		if len(sent) != len(got) {
			return false
		}
		for k, v := range sent {
			if g, ok := got[k]; !ok || !same(v, g) {
				return false
			}
		}
		return true
	}
	number := []int{0, 1, 2, 3, 100, 2048, 5000, 70000}
	fill := func(n, v int) map[string]float64 {
		res := map[string]float64{}
		for i := 0; i < n; i++ {
			res[names[i]] = values[(v+i)%len(values)]
		}
		return res
	}
	toMarkers := func(m map[string]float64) map[scope.MarkerID]float64 {
		res := map[scope.MarkerID]float64{}
		for k, v := range m {
			res[scope.MarkerID(k)] = v
		}
		return res
	}
	fromMarkers := func(m map[scope.MarkerID]float64) map[string]float64 {
		res := map[string]float64{}
		for k, v := range m {
			res[string(k)] = v
		}
		return res
	}
	check(prop, "content", 0, 0, func(c *mcrun.Ctx) {
		v := vsched.Choose(len(values), "value")
		k := vsched.Choose(len(names)+1, "markers")
		n := number[vsched.Choose(len(number), "number")]
		vsched.Quiet(func() {
			s := start()
			vsched.WaitQuiescent()
			client := scope.NewClient(address)
			if err := client.Open(); err != nil {
				vsched.Fail("cannot open: %v", err)
			}
			tf, sf, err := client.GetFrames()
			if err != nil {
				vsched.Fail("no frames: %v", err)
			}
			vsched.WaitQuiescent()
			for i, at := range times {
				frame := scope.Frame{Stream: scope.StreamID(names[(i+v)%len(names)]), Timestamp: at}
				t := &scope.TimeFrame{Frame: frame, Values: map[scope.ChannelID]float64{}}
				tv := fill(k, v)
				for name, x := range tv {
					t.Values[scope.ChannelID(name)] = x
				}
				s.ShowTimeFrame(t)
				got := vsched.Recv(tf)
				if got == nil {
					vsched.Fail("the stream ends with %v", t)
				}
				gv := map[string]float64{}
				for name, x := range got.Values {
					gv[string(name)] = x
				}
				if got.Stream != t.Stream || !got.Timestamp.Equal(at) || !sameMap(tv, gv) {
					vsched.Fail("%v arrives as %v", t, got)
				}
				sp := &scope.SpectralFrame{Frame: frame, FromFrequency: values[v], ToFrequency: values[(v+1)%len(values)],
					FrequencyMarkers: toMarkers(fill(k, v+1)), MagnitudeMarkers: toMarkers(fill((k+2)%len(names), v+2))}
				for j := 0; j < n; j++ {
					sp.Values = append(sp.Values, values[(v+j)%len(values)])
				}
				s.ShowSpectralFrame(sp)
				g := vsched.Recv(sf)
				if g == nil {
					vsched.Fail("the stream ends with a spectrum of %d values", len(sp.Values))
				}
				ok := g.Stream == sp.Stream && g.Timestamp.Equal(at) && same(sp.FromFrequency, g.FromFrequency) && same(sp.ToFrequency, g.ToFrequency) &&
					len(g.Values) == n && sameMap(fromMarkers(sp.FrequencyMarkers), fromMarkers(g.FrequencyMarkers)) && sameMap(fromMarkers(sp.MagnitudeMarkers), fromMarkers(g.MagnitudeMarkers))
				for j := 0; ok && j < n; j++ {
					ok = same(sp.Values[j], g.Values[j])
				}
				if !ok {
					vsched.Fail("%v arrives as %v", sp, g)
				}
			}
			client.Close()
			s.Stop()
			ended("")
		})
		vsched.Outcome("ok")
	})
}

// --- C31: the client ---

// frames of a client: it takes them and checks that there are no gaps.
type frames struct {
	tf   chan *scope.TimeFrame
	sf   chan *scope.SpectralFrame
	next [2]int
	what string
}

func (f *frames) took(kind int, stream scope.StreamID) {
	var i int
	if _, err := fmt.Sscanf(string(stream), []string{"t%d", "s%d"}[kind], &i); err != nil || i != f.next[kind] {
		vsched.Fail("%s: frame %s instead of %d", f.what, stream, f.next[kind])
	}
	f.next[kind] += 2
}

// take takes the frames in the background, each kind on its own, with a pause after each frame.
func (f *frames) take(pause time.Duration) []*vsched.Thread {
	return []*vsched.Thread{
		vsched.GoNamed("time frames", func() {
			for {
				t, ok := vsched.Recv2(f.tf)
				if !ok {
					return
				}
				f.took(0, t.Stream)
				if pause > 0 {
					vsched.Sleep(pause)
				}
			}
		}),
		vsched.GoNamed("spectral frames", func() {
			for {
				s, ok := vsched.Recv2(f.sf)
				if !ok {
					return
				}
				f.took(1, s.Stream)
				if pause > 0 {
					vsched.Sleep(pause)
				}
			}
		}),
	}
}

func clientJobs() {
	prop := "C31"
	open := func(n int) (*scope.ScopeServer, *scope.Client, []*frames) {
		s := start()
		vsched.WaitQuiescent()
		client := scope.NewClient(address)
		if err := client.Open(); err != nil {
			vsched.Fail("cannot open: %v", err)
		}
		var res []*frames
		for i := 0; i < n; i++ {
			tf, sf, err := client.GetFrames()
			if err != nil {
				vsched.Fail("no frames: %v", err)
			}
			res = append(res, &frames{tf: tf, sf: sf, next: [2]int{0, 1}, what: fmt.Sprintf("stream %d of %d", i+1, n)})
		}
		vsched.WaitQuiescent()
		return s, client, res
	}
	all := func(fs []*frames, n int) {
		for _, f := range fs {
			if f.next[0] != (n+1)/2*2 || f.next[1] != n/2*2+1 {
				vsched.Fail("%s: %d frames are shown, next frames are %v", f.what, n, f.next)
			}
		}
	}
	check(prop, "a client takes the frames late", 0, 0, func(c *mcrun.Ctx) {
		n := vsched.Choose(2, "streams of the client") + 1
		before := []int{0, 1, 2, 3, 5, 8}[vsched.Choose(6, "frames before they are taken")]
		pause := []time.Duration{0, time.Second, time.Hour}[vsched.Choose(3, "pause after each frame")]
		grpc.StreamCapacity = 20
		vsched.QuietFair(func() {
			s, client, fs := open(n)
			for i := 0; i < before; i++ {
				show(s, i)
			}
			vsched.WaitQuiescent()
			vsched.Advance(pause)
			var ts []*vsched.Thread
			for _, f := range fs {
				ts = append(ts, f.take(pause)...)
			}
			for i := before; i < 10; i++ {
				show(s, i)
			}
			vsched.WaitQuiescent()
			for i := 0; i < 20; i++ {
				vsched.Advance(pause)
				vsched.WaitQuiescent()
			}
			all(fs, 10)
			client.Close()
			vsched.WaitDone(ts...)
			s.Stop()
			ended("")
		})
		vsched.Outcome("ok")
	})
	check(prop, "a client takes the frames", 1, 2, func(c *mcrun.Ctx) {
		var s *scope.ScopeServer
		var client *scope.Client
		var fs []*frames
		vsched.Quiet(func() { s, client, fs = open(1) })
		ts := fs[0].take(0)
		for i := 0; i < 5; i++ {
			show(s, i)
		}
		vsched.WaitQuiescent()
		all(fs, 5)
		vsched.Quiet(func() {
			client.Close()
			vsched.WaitDone(ts...)
			s.Stop()
			ended("")
		})
		vsched.Outcome("ok")
	})
}

// --- C32: lifecycle ---

func lifecycleJobs() {
	prop := "C32"
	check(prop, "stop while frames are sent and viewers join", 2, 4, func(c *mcrun.Ctx) {
		s := start()
		vsched.GoNamed("source", func() {
			show(s, 0)
			show(s, 1)
		})
		var v *viewer
		vsched.GoNamed("viewer", func() {
			v = join()
			for v.stream != nil && v.next() {
			}
		})
		s.Stop()
		if net.Listening(4711) {
			vsched.Fail("the port is still in use")
		}
		if s.Active() {
			vsched.Fail("still active")
		}
		vsched.WaitQuiescent()
		v.checkSequence("")
		show(s, 2)
		ended("")
		vsched.Outcome("ok")
	})
	check(prop, "several stops", 2, 4, func(c *mcrun.Ctx) {
		s := start()
		for i := 0; i < 2; i++ {
			vsched.GoNamed("stop", s.Stop)
		}
		t := vsched.GoNamed("source", func() { show(s, 0) })
		vsched.WaitDone(t)
		s.Stop()
		ended("")
		if s.Active() {
			vsched.Fail("still active")
		}
		vsched.Outcome("ok")
	})
	check(prop, "several starts", 3, 6, func(c *mcrun.Ctx) {
		s := scope.NewScopeServer(address)
		ok := 0
		var ts []*vsched.Thread
		for i := 0; i < 2; i++ {
			ts = append(ts, vsched.GoNamed("start", func() {
				if s.Start() == nil {
					ok++
				}
			}))
		}
		vsched.WaitDone(ts...)
		if ok != 1 {
			vsched.Fail("%d successful starts", ok)
		}
		if !s.Active() || !net.Listening(4711) {
			vsched.Fail("not active")
		}
		vsched.WaitQuiescent()
		v := join()
		v.read()
		vsched.WaitQuiescent()
		show(s, 0)
		vsched.WaitQuiescent()
		if len(v.got) != 1 {
			vsched.Fail("no frame")
		}
		s.Stop()
		ended("")
		vsched.Outcome("ok")
	})
	check(prop, "stop and start again", 1, 2, func(c *mcrun.Ctx) {
		s := start()
		t := vsched.GoNamed("source", func() {
			for i := 0; i < 3; i++ {
				show(s, i)
			}
		})
		s.Stop()
		if err := s.Start(); err != nil {
			vsched.Fail("cannot start again: %v", err)
		}
		vsched.WaitDone(t)
		vsched.WaitQuiescent()
		v := join()
		v.read()
		vsched.WaitQuiescent()
		show(s, 10)
		show(s, 11)
		vsched.WaitQuiescent()
		if fmt.Sprint(v.got) != "[10 11]" {
			vsched.Fail("frames %v", v.got)
		}
		if a := s.Addr(); !s.Active() || a == nil || a.String() != "127.0.0.1:4711" {
			vsched.Fail("address %v", a)
		}
		s.Stop()
		ended("")
		vsched.Outcome("ok")
	})
	check(prop, "started and stopped again and again", 0, 0, func(c *mcrun.Ctx) {
		same := vsched.Choose(2, "a new server each time, the same server") == 1
		n := []int{2, 40, mcrun.Tier(c, 150, 1500)}[vsched.Choose(3, "times")]
		viewers := vsched.Choose(2, "viewers") + 1
		vsched.Quiet(func() {
			s := scope.NewScopeServer(address)
			for i := 0; i < n; i++ {
				if !same {
					s = scope.NewScopeServer(address)
				}
				if err := s.Start(); err != nil {
					vsched.Fail("start %d: %v", i, err)
				}
				vsched.WaitQuiescent()
				var vs []*viewer
				for j := 0; j < viewers; j++ {
					v := join()
					v.read()
					vs = append(vs, v)
				}
				vsched.WaitQuiescent()
				for j := 0; j < 4; j++ {
					show(s, 4*i+j)
					vsched.WaitQuiescent()
				}
				if i%2 == 1 {
					vs[0].conn.Close()
					vsched.WaitQuiescent()
					show(s, 4*i+4)
					vsched.WaitQuiescent()
				}
				s.Stop()
				vsched.WaitQuiescent()
				for j, v := range vs {
					if len(v.got) < 4 || v.got[0] != 4*i || !v.ended || s.Active() {
						vsched.Fail("after %d starts and stops: viewer %d got %v, ended: %t; active: %t", i, j, v.got, v.ended, s.Active())
					}
					v.checkSequence(i)
				}
				ended(i)
			}
		})
		vsched.Outcome("%d", n)
	})
	check(prop, "the address cannot be used", 2, 4, func(c *mcrun.Ctx) {
		var s *scope.ScopeServer
		kind := vsched.Choose(3, "kind")
		var other *scope.ScopeServer
		switch kind {
		case 0:
			other = start()
			s = scope.NewScopeServer(address)
		case 1:
			s = scope.NewScopeServer("nowhere:4711")
		case 2:
			s = scope.NewScopeServer("localhost")
		}
		t := vsched.GoNamed("source", func() { show(s, 0) })
		if err := s.Start(); err == nil {
			vsched.Fail("started anyway")
		}
		show(s, 1) // does not block
		vsched.WaitDone(t)
		if s.Active() || s.Addr() != nil {
			vsched.Fail("active")
		}
		if other != nil {
			other.Stop()
			if err := s.Start(); err != nil {
				vsched.Fail("still not: %v", err)
			}
		}
		s.Stop()
		ended(kind)
		vsched.Outcome("ok")
	})
	check(prop, "without a server", 0, 0, func(c *mcrun.Ctx) {
		s := scope.NewScopeServer(address)
		if s.Active() || s.Addr() != nil {
			vsched.Fail("active")
		}
		show(s, 0)
		show(s, 1)
		s.Stop()
		null := scope.NewNullScope()
		null.ShowTimeFrame(timeFrame(0))
		null.ShowSpectralFrame(spectralFrame(0))
		if null.Active() {
			vsched.Fail("active")
		}
		client := scope.NewClient(address)
		client.Open()
		tf, sf, err := client.GetFrames()
		if err == nil {
			// the connection is established later, it must fail then
			if _, ok := vsched.Recv2(tf); ok {
				vsched.Fail("a frame")
			}
			if _, ok := vsched.Recv2(sf); ok {
				vsched.Fail("a frame")
			}
		}
		client.Close()
		ended("")
		vsched.Outcome("ok")
	})
	for k, name := range []string{"nobody takes the frames", "only the time frames are taken", "all frames are taken", "the server stops"} {
		k := k
		check(prop, "close the client while "+name, []int{2, 1, 1, 0}[k], []int{4, 3, 2, 1}[k], func(c *mcrun.Ctx) {
			var s *scope.ScopeServer
			client := scope.NewClient(address)
			var tf chan *scope.TimeFrame
			var sf chan *scope.SpectralFrame
			vsched.Quiet(func() {
				s = start()
				vsched.WaitQuiescent()
				if err := client.Open(); err != nil {
					vsched.Fail("cannot open: %v", err)
				}
				if err := client.Open(); err == nil {
					vsched.Fail("opened twice")
				}
				var err error
				tf, sf, err = client.GetFrames()
				if err != nil {
					vsched.Fail("no frames: %v", err)
				}
				vsched.WaitQuiescent()
				for i := 0; i < 4; i++ {
					show(s, i)
				}
			})
			closing := false
			// frames may get lost while the client is closed
			taken := func(kind, stream string, next int) int {
				var i int
				if _, err := fmt.Sscanf(stream, kind+"%d", &i); err != nil || i < next || (i > next && !closing) {
					vsched.Fail("frame %s instead of %d", stream, next)
				}
				return i + 2
			}
			vsched.GoNamed("source", func() {
				for i := 4; i < 6; i++ {
					show(s, i)
				}
			})
			if k == 1 || k == 2 {
				vsched.GoNamed("time frames", func() {
					next := 0
					for {
						f, ok := vsched.Recv2(tf)
						if !ok {
							return
						}
						next = taken("t", string(f.Stream), next)
					}
				})
			}
			if k == 2 {
				vsched.GoNamed("spectral frames", func() {
					next := 1
					for {
						f, ok := vsched.Recv2(sf)
						if !ok {
							return
						}
						next = taken("s", string(f.Stream), next)
					}
				})
			}
			if k == 3 {
				vsched.GoNamed("stop", s.Stop)
			}
			closing = true
			client.Close()
			vsched.WaitQuiescent()
			vsched.Quiet(func() {
				s.Stop()
				ended("")
				client.Close()
			})
			vsched.Outcome("ok")
		})
	}
}
