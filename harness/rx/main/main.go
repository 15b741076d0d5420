// Harness for the receiver: peak table, listeners, text processing, reception.
package main

import (
	"bufio"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/ftl/hamradio/dxcc"
	"github.com/ftl/hamradio/scp"

	"github.com/ftl/sdrainer/zzverif/mcrun"
	shimdxcc "github.com/ftl/sdrainer/zzverif/shim/dxcc"
	"github.com/ftl/sdrainer/zzverif/shim/rand"
	shimscp "github.com/ftl/sdrainer/zzverif/shim/scp"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

var t0 = time.Date(2024, 1, 1, 12, 34, 56, 789012345, time.UTC)

// clock is set by the harness.
type clock struct{ now time.Time }

func (c *clock) Now() time.Time      { return c.now }
func (c *clock) add(d time.Duration) { c.now = c.now.Add(d) }

const ctydat = `Fed. Rep. of Germany:     14:  28:  EU:   51.00:   -10.00:    -1.0:  DL:
    DA,DB,DC,DD,DF,DG,DH,DJ,DK,DL,DM;
United States:            05:  08:  NA:   37.60:    91.87:     5.0:  K:
    AA,K,N,W;
Netherlands Antilles:     09:  11:  SA:   12.17:    69.00:     4.0:  PJ2:
    PJ2;
Ivory Coast:              35:  46:  AF:    7.58:     5.80:     0.0:  TU:
    TU;
`

func withPrefixes() {
	shimdxcc.Load = func() (*dxcc.Prefixes, error) { return dxcc.Read(bufio.NewReader(strings.NewReader(ctydat))) }
}

func withCalls(calls ...string) {
	shimscp.Load = func() (*scp.Database, error) {
		return scp.Read(strings.NewReader(strings.Join(calls, "\n")+"\n"), scp.SCPFormat)
	}
}

// long is for sequential histories with many steps
func long(prop, name string, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		vsched.Check(c, vsched.Config{MaxSteps: 100000000}, func() {
			shimdxcc.Load, shimscp.Load, rand.Next = nil, nil, nil
			body(c)
		})
	})
}

func check(prop, name string, quick, thorough int, body func(c *mcrun.Ctx)) {
	mcrun.Job(prop, name, func(c *mcrun.Ctx) {
		cfg := vsched.Config{Preemptions: mcrun.Tier(c, quick, thorough), MaxSteps: 200000}
		vsched.Check(c, cfg, func() {
			shimdxcc.Load, shimscp.Load, rand.Next = nil, nil, nil
			body(c)
		})
	})
}

type event struct {
	kind, listener, call string
	freq, count, weight  int
}

func (e event) String() string {
	switch e.kind {
	case "decoded":
		return fmt.Sprintf("decoded(%s %s @%d %dx w%d)", e.listener, e.call, e.freq, e.count, e.weight)
	case "activated", "deactivated":
		return fmt.Sprintf("%s(%s @%d)", e.kind, e.listener, e.freq)
	}
	return fmt.Sprintf("%s(%s %s @%d)", e.kind, e.listener, e.call, e.freq)
}

// recorder is both, a reporter of a text processor and of a receiver.
type recorder struct {
	events []event
	yield  bool // callbacks are scheduling points
	after  bool // nothing may be reported anymore
	hold   bool // the next report blocks until it is released
	held   bool
	o      vsched.Obj
}

func (r *recorder) release() { vsched.Point("release", &r.o, true, func() { r.hold = false }) }

func (r *recorder) add(e event) {
	if r.after {
		vsched.Fail("%s is reported after the stop", e)
	}
	if r.yield {
		vsched.Observe("%s", e)
	} else {
		vsched.Event("%s", e)
	}
	r.events = append(r.events, e)
	if r.hold {
		r.held = true
		vsched.Block("report", &r.o, func() bool { return !r.hold }, nil)
	}
}

func (r *recorder) take() []event {
	e := r.events
	r.events = nil
	return e
}

func (r *recorder) text() string { return str(r.events) }

func str(events []event) string {
	parts := []string{}
	for _, e := range events {
		parts = append(parts, e.String())
	}
	return strings.Join(parts, " ")
}

// textRecorder implements rx.CallsignReporter.
type textRecorder struct{ recorder }

func (r *textRecorder) CallsignDecoded(call string, count, weight int) {
	r.add(event{kind: "decoded", call: call, count: count, weight: weight})
}
func (r *textRecorder) CallsignSpotted(call string) { r.add(event{kind: "spotted", call: call}) }
func (r *textRecorder) SpotTimeout(call string)     { r.add(event{kind: "timeout", call: call}) }

// rxRecorder implements rx.Reporter[int].
type rxRecorder struct{ recorder }

func (r *rxRecorder) ListenerActivated(l string, f int) {
	r.add(event{kind: "activated", listener: l, freq: f})
}
func (r *rxRecorder) ListenerDeactivated(l string, f int) {
	r.add(event{kind: "deactivated", listener: l, freq: f})
}
func (r *rxRecorder) CallsignDecoded(l, call string, f, count, weight int) {
	r.add(event{kind: "decoded", listener: l, call: call, freq: f, count: count, weight: weight})
}
func (r *rxRecorder) CallsignSpotted(l, call string, f int) {
	r.add(event{kind: "spotted", listener: l, call: call, freq: f})
}
func (r *rxRecorder) SpotTimeout(l, call string, f int) {
	r.add(event{kind: "timeout", listener: l, call: call, freq: f})
}

var _ io.Writer

func main() {
	textJobs()
	receiverJobs()
	receptionJobs()
	shownJobs()
	mcrun.Main()
}
