package main

import (
	"strings"
	"time"

	"github.com/ftl/digimodes/cw"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/zzverif/mcrun"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

// keying is the sequence of signal states of a text, dit ticks per dit.
func keying(text string, dit int) []bool {
	var res []bool
	add := func(state bool, n int) {
		for i := 0; i < n*dit; i++ {
			res = append(res, state)
		}
	}
	for _, w := range strings.Fields(text) {
		for _, r := range w {
			for _, s := range cw.Code[r] {
				if s == cw.Dit {
					add(true, 1)
				} else {
					add(true, 3)
				}
				add(false, 1)
			}
			add(false, 2)
		}
		add(false, 4)
	}
	return res
}

type listener = rx.Listener[float32, int]

func peakAt(bin, freq int) *dsp.Peak[float32, int] {
	return &dsp.Peak[float32, int]{From: bin, To: bin, FromFrequency: freq - 10, ToFrequency: freq + 10, SignalFrequency: freq, SignalBin: bin, SignalValue: 50}
}

// key lets the listener hear a text: 3 ticks of 20 ms per dit are 20 wpm.
func key(l *listener, text string) {
	for _, s := range keying(text, 3) {
		if s {
			l.Listen(80, 20)
		} else {
			l.Listen(10, 20)
		}
	}
}

func newListener(id string, clk rx.Clock, rec *rxRecorder) *listener {
	return rx.NewListener[float32, int](id, nil, clk, rec, 8000, 160)
}

func listenerJobs(prop string) {
	check(prop, "detach a busy listener", 2, 3, func(c *mcrun.Ctx) {
		rec := &rxRecorder{}
		rec.yield = true
		l := newListener("1", &clock{t0}, rec)
		l.Attach(peakAt(3, 7010000))
		key(l, "e e1e e1e e")
		l.Detach()
		if l.Attached() {
			vsched.Fail("still attached")
		}
		rec.after = true
		vsched.WaitQuiescent()
		n := len(rec.events)
		for i, e := range rec.events {
			if e.freq != 7010000 || e.listener != "1" {
				vsched.Fail("wrong listener or frequency: %v", e)
			}
			if (e.kind == "activated") != (i == 0) || (e.kind == "deactivated") != (i == n-1) {
				vsched.Fail("wrong order: %s", rec.text())
			}
		}
		if l := vsched.Live(); len(l) > 0 {
			vsched.Fail("still running: %v", l)
		}
		vsched.Outcome("%d events", n)
	})
	check(prop, "attach again", 2, 2, func(c *mcrun.Ctx) {
		rec := &rxRecorder{}
		rec.yield = true
		clk := &clock{t0}
		l := newListener("1", clk, rec)
		l.Attach(peakAt(3, 7010000))
		key(l, []string{"e e1e e1e e", "e e1", "e e1e"}[vsched.Choose(3, "text")])
		l.Detach()
		n := len(rec.events)
		clk.add(time.Minute)
		l.Attach(peakAt(5, 7020000))
		if l.TimeoutExceeded() {
			vsched.Fail("a fresh listener is timed out")
		}
		key(l, "e a2a a2a e")
		vsched.WaitQuiescent()
		l.Detach()
		want := "activated(1 @7020000) decoded(1 A2A @7020000 1x w0) decoded(1 A2A @7020000 2x w0) deactivated(1 @7020000)"
		if got := str(rec.events[n:]); got != want {
			vsched.Fail("after attaching again: %s, expected %s", got, want)
		}
		vsched.Outcome("%d events before", n)
	})
	check(prop, "timeouts", 0, 0, func(c *mcrun.Ctx) {
		rec := &rxRecorder{}
		clk := &clock{t0}
		l := newListener("1", clk, rec)
		silence := []time.Duration{20 * time.Second, 10 * time.Second, 3 * time.Minute}[vsched.Choose(3, "silence")]
		attachment := []time.Duration{2 * time.Minute, 30 * time.Second}[vsched.Choose(2, "attachment")]
		if silence != 20*time.Second {
			l.SetSilenceTimeout(silence)
		}
		if attachment != 2*time.Minute {
			l.SetAttachmentTimeout(attachment)
		}
		clk.add(time.Hour)
		l.Attach(peakAt(3, 7010000))
		attach, last := clk.now, clk.now
		steps := []time.Duration{0, 9 * time.Second, 11 * time.Second, 21 * time.Second, time.Minute}
		for i := 0; i < mcrun.Tier(c, 2, 3); i++ {
			clk.add(steps[vsched.Choose(len(steps), "step")])
			if vsched.Choose(2, "text") == 1 {
				key(l, "e e e")
				last = clk.now
			}
			want := clk.now.Sub(attach) > attachment || clk.now.Sub(last) > silence
			if got := l.TimeoutExceeded(); got != want {
				vsched.Fail("timeout exceeded is %t %v after the attachment and %v after the last text (silence %v, attachment %v)", got, clk.now.Sub(attach), clk.now.Sub(last), silence, attachment)
			}
			vsched.Outcome("%t", want)
		}
		l.Detach()
	})
}
