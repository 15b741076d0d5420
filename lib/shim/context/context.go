// Package context provides cancellable contexts on controlled channels.
package context

import (
	orig "context"
	"time"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

type ctx struct {
	parent orig.Context
	done   chan struct{}
	closed bool
	err    error
	cause  error
	kids   []*ctx
	after  []*afterFunc
	timer  *vsched.Timer
	dl     time.Time
	hasDL  bool
	o      vsched.Obj
}

type afterFunc struct {
	f       func()
	stopped bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() (err error) {
	vsched.Point(vsched.Label("ctx.Err"), &c.o, false, func() { err = c.err })
	return
}
func (c *ctx) Value(key any) any {
	if key == &ctxKey {
		return c
	}
	return c.parent.Value(key)
}

var ctxKey int

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	first := false
	var after []*afterFunc
	vsched.Point(vsched.Label("cancel"), &c.o, true, func() {
		if !c.closed {
			c.closed = true
			c.err = err
			c.cause = cause
			first = true
			after = c.after
			c.after = nil
		}
	})
	if !first {
		return
	}
	if c.timer != nil {
		c.timer.Stop()
	}
	vsched.Close(c.done)
	for _, a := range after {
		a.start()
	}
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	if p, ok := c.parent.Value(&ctxKey).(*ctx); ok {
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				break
			}
		}
	}
}

func (a *afterFunc) start() {
	if !a.stopped {
		a.stopped = true
		vsched.GoNamed("context.AfterFunc", a.f)
	}
}

func newCtx(parent orig.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: vsched.Made(make(chan struct{}))}
	if p, ok := parent.Value(&ctxKey).(*ctx); ok {
		if p.closed {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent orig.Context) (orig.Context, orig.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(orig.Canceled, nil) }
}

func WithCancelCause(parent orig.Context) (orig.Context, orig.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(orig.Canceled, cause) }
}

// Cause is the reason of the cancellation.
func Cause(c orig.Context) (cause error) {
	if p, ok := c.Value(&ctxKey).(*ctx); ok {
		vsched.Point(vsched.Label("ctx.Cause"), &p.o, false, func() { cause = p.cause })
		return
	}
	return c.Err()
}

// AfterFunc runs f in a goroutine of its own as soon as the context is done.
func AfterFunc(c orig.Context, f func()) (stop func() bool) {
	a := &afterFunc{f: f}
	p, ok := c.Value(&ctxKey).(*ctx)
	if !ok {
		return func() bool { first := !a.stopped; a.stopped = true; return first }
	}
	closed := false
	vsched.Point(vsched.Label("ctx.AfterFunc"), &p.o, true, func() {
		closed = p.closed
		if !closed {
			p.after = append(p.after, a)
		}
	})
	if closed {
		a.start()
	}
	return func() (first bool) {
		vsched.Point(vsched.Label("ctx.AfterFunc stop"), &p.o, true, func() {
			first = !a.stopped
			a.stopped = true
		})
		return
	}
}

type withoutCancel struct{ parent orig.Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (c withoutCancel) Value(key any) any {
	if key == &ctxKey {
		return nil
	}
	return c.parent.Value(key)
}

// WithoutCancel keeps the values of a context only.
func WithoutCancel(parent orig.Context) orig.Context { return withoutCancel{parent} }

func WithDeadlineCause(parent orig.Context, d time.Time, cause error) (orig.Context, orig.CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return c, func() { c.cancel(orig.Canceled, nil) }
	}
	c.dl, c.hasDL = d, true
	if !c.closed {
		c.timer = vsched.NewTimer(d.Sub(vsched.Now()), 0, nil, func() { c.cancel(orig.DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(orig.Canceled, nil) }
}

func WithDeadline(parent orig.Context, d time.Time) (orig.Context, orig.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent orig.Context, d time.Duration) (orig.Context, orig.CancelFunc) {
	return WithDeadline(parent, vsched.Now().Add(d))
}

func WithTimeoutCause(parent orig.Context, d time.Duration, cause error) (orig.Context, orig.CancelFunc) {
	return WithDeadlineCause(parent, vsched.Now().Add(d), cause)
}
