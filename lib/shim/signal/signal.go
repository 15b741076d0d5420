// Package signal delivers the signals of the harness.
package signal

import (
	origctx "context"
	"os"

	orig "os/signal"

	"github.com/ftl/sdrainer/zzverif/shim/context"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

type sub struct {
	c    chan<- os.Signal
	sigs map[os.Signal]bool // empty: all
	not  map[os.Signal]bool // but these
}

type table struct {
	o         vsched.Obj
	subs      []sub
	ignored   map[os.Signal]bool
	ignoreAll bool
}

func theTable() *table { return vsched.Value("signals", func() *table { return &table{} }) }

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	t := theTable()
	vsched.Point(vsched.Label("signal.Notify"), &t.o, true, func() {
		s := sub{c: c, sigs: map[os.Signal]bool{}}
		for _, g := range sigs {
			s.sigs[g] = true
		}
		t.subs = append(t.subs, s)
		for _, g := range sigs {
			delete(t.ignored, g)
		}
		if len(sigs) == 0 {
			t.ignored, t.ignoreAll = nil, false
		}
	})
}

func Stop(c chan<- os.Signal) {
	t := theTable()
	vsched.Point(vsched.Label("signal.Stop"), &t.o, true, func() {
		var rest []sub
		for _, s := range t.subs {
			if s.c != c {
				rest = append(rest, s)
			}
		}
		t.subs = rest
	})
}

// drop removes the subscriptions of the signals, of all if there are none.
func (t *table) drop(sigs []os.Signal) {
	if len(sigs) == 0 {
		t.subs = nil
		return
	}
	var rest []sub
	for _, s := range t.subs {
		keep := sub{c: s.c, sigs: map[os.Signal]bool{}, not: map[os.Signal]bool{}}
		for g := range s.sigs {
			keep.sigs[g] = true
		}
		for g := range s.not {
			keep.not[g] = true
		}
		for _, g := range sigs {
			delete(keep.sigs, g)
			keep.not[g] = true
		}
		if len(s.sigs) == 0 || len(keep.sigs) > 0 {
			rest = append(rest, keep)
		}
	}
	t.subs = rest
}

func Reset(sigs ...os.Signal) {
	t := theTable()
	vsched.Point(vsched.Label("signal.Reset"), &t.o, true, func() {
		t.drop(sigs)
		for _, g := range sigs {
			delete(t.ignored, g)
		}
		if len(sigs) == 0 {
			t.ignored = nil
		}
	})
}

func Ignore(sigs ...os.Signal) {
	t := theTable()
	vsched.Point(vsched.Label("signal.Ignore"), &t.o, true, func() {
		t.drop(sigs)
		if t.ignored == nil {
			t.ignored = map[os.Signal]bool{}
		}
		for _, g := range sigs {
			t.ignored[g] = true
		}
		t.ignoreAll = t.ignoreAll || len(sigs) == 0
	})
}

func Ignored(sig os.Signal) (r bool) {
	t := theTable()
	vsched.Point(vsched.Label("signal.Ignored"), &t.o, false, func() { r = t.ignored[sig] || t.ignoreAll })
	return
}

// Raise sends a signal to the program. The result is false when nobody asked for it, which ends a real program.
func Raise(sig os.Signal) bool {
	t := theTable()
	var subs []sub
	ignored := false
	vsched.Point("signal "+sig.String(), &t.o, true, func() {
		ignored = t.ignored[sig] || t.ignoreAll
		for _, s := range t.subs {
			if (len(s.sigs) == 0 && !s.not[sig]) || s.sigs[sig] {
				subs = append(subs, s)
			}
		}
	})
	for _, s := range subs {
		// as the runtime does: a full channel loses the signal
		vsched.Select(true, vsched.SendCase(s.c)(sig))
	}
	return len(subs) > 0 || ignored
}

// NotifyContext is cancelled with the first of the signals.
func NotifyContext(parent origctx.Context, sigs ...os.Signal) (origctx.Context, origctx.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	vsched.GoNamed("signal.NotifyContext", func() {
		if vsched.Select(false, vsched.RecvCase(ch), vsched.RecvCase(ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}

var _ = orig.Notify
