// Package time runs on the virtual clock of the controlled scheduler.
package time

import (
	orig "time"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

func Now() orig.Time                  { return vsched.Now() }
func Since(t orig.Time) orig.Duration { return vsched.Now().Sub(t) }
func Until(t orig.Time) orig.Duration { return t.Sub(vsched.Now()) }
func Sleep(d orig.Duration)           { vsched.Sleep(d) }

type Ticker struct {
	C <-chan orig.Time
	t *vsched.Timer
	r *orig.Ticker
}

func NewTicker(d orig.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsched.Active() {
		r := orig.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	ch := vsched.Made(make(chan orig.Time, 1))
	return &Ticker{C: ch, t: vsched.NewTimer(d, d, ch, nil)}
}

func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.t.Stop()
}

func (t *Ticker) Reset(d orig.Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	t.t.Reset(d, d)
}

func Tick(d orig.Duration) <-chan orig.Time { return NewTicker(d).C }

type Timer struct {
	C <-chan orig.Time
	t *vsched.Timer
	r *orig.Timer
}

func NewTimer(d orig.Duration) *Timer {
	if !vsched.Active() {
		r := orig.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	ch := vsched.Made(make(chan orig.Time, 1))
	return &Timer{C: ch, t: vsched.NewTimer(d, 0, ch, nil)}
}

func AfterFunc(d orig.Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{r: orig.AfterFunc(d, f)}
	}
	return &Timer{t: vsched.NewTimer(d, 0, nil, f)}
}

func After(d orig.Duration) <-chan orig.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d orig.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	return t.t.Reset(d, 0)
}
