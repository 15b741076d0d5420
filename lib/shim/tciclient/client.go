// Package client is a TCI client without a network: it records commands, the harness delivers
// the notifications.
package client

import (
	"fmt"
	"net"
	"time"

	orig "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

type Client struct {
	orig.DeviceInfo
	o         vsched.Obj
	connected bool
	closed    bool
	stalled   bool
	listeners []any
	Commands  []string
	Host      string
	Trace     bool
	Retry     time.Duration // time until the next attempt to connect, zero: there is none
}

// OnKeepOpen is called for every new client, before KeepOpen returns.
var OnKeepOpen func(c *Client)

func KeepOpen(host *net.TCPAddr, retry time.Duration, trace bool, listeners ...interface{}) *Client {
	c := &Client{listeners: listeners, Host: host.String(), Trace: trace, Retry: retry}
	c.MinIFFrequency, c.MaxIFFrequency = -24000, 24000
	if OnKeepOpen != nil {
		OnKeepOpen(c)
	}
	return c
}

func Open(host *net.TCPAddr, trace bool, listeners ...interface{}) (*Client, error) {
	return KeepOpen(host, 0, trace, listeners...), nil
}

func (c *Client) Notify(l interface{}) {
	vsched.Point(vsched.Label("tci notify"), &c.o, true, func() { c.listeners = append(c.listeners, l) })
}

func (c *Client) Connected() (r bool) {
	vsched.Point(vsched.Label("tci connected"), &c.o, false, func() { r = c.connected })
	return
}

func (c *Client) Disconnect() {
	vsched.Point(vsched.Label("tci disconnect"), &c.o, true, func() { c.closed = true; c.connected = false })
}

// command returns after the command was sent and acknowledged.
func (c *Client) command(format string, args ...any) (err error) {
	s := fmt.Sprintf(format, args...)
	vsched.Point(vsched.Label("tci send"), &c.o, true, func() {
		if !c.connected {
			err = orig.ErrNotConnected
			return
		}
		c.Commands = append(c.Commands, s)
	})
	if err != nil {
		return err
	}
	vsched.Block(vsched.Label("tci reply"), &c.o, func() bool { return !c.stalled }, nil)
	return nil
}

func (c *Client) StartIQ(trx int) error { return c.command("start_iq %d", trx) }
func (c *Client) StopIQ(trx int) error  { return c.command("stop_iq %d", trx) }
func (c *Client) SetIQSampleRate(r orig.IQSampleRate) error {
	return c.command("iq_samplerate %d", int(r))
}
func (c *Client) AddSpot(callsign string, mode orig.Mode, frequency int, color orig.ARGB, text string) error {
	return c.command("spot %s,%v,%d,%v,%s", callsign, mode, frequency, color, text)
}
func (c *Client) DeleteSpot(callsign string) error { return c.command("spot_delete %s", callsign) }
func (c *Client) ClearSpots() error                { return c.command("spot_clear") }
func (c *Client) SetDDS(trx int, f int) error      { return c.command("dds %d,%d", trx, f) }
func (c *Client) SetIF(trx int, vfo orig.VFO, f int) error {
	return c.command("if %d,%v,%d", trx, vfo, f)
}
func (c *Client) SetTimeout(time.Duration)  {}
func (c *Client) Timeout() time.Duration    { return orig.DefaultTimeout }
func (c *Client) WhenDisconnected(f func()) {}

// SetConnected changes the state of the connection and tells the listeners about it, as the
// goroutine of the real client does that connects.
func (c *Client) SetConnected(v bool) {
	var ls []any
	vsched.Point("connection state", &c.o, true, func() {
		c.connected = v
		if !v {
			c.Commands = append(c.Commands, "disconnected")
		}
		ls = append(ls, c.listeners...)
	})
	for _, l := range ls {
		if l, ok := l.(orig.ConnectionListener); ok {
			l.Connected(v)
		}
	}
}

// Stall lets the device stop to reply.
func (c *Client) Stall(v bool) {
	vsched.Point("device stalls", &c.o, true, func() { c.stalled = v })
}

// Drop changes the state of the connection without a notification.
func (c *Client) Drop() {
	vsched.Point("connection drops", &c.o, true, func() { c.connected = false })
}

// Deliver calls f for every listener.
func (c *Client) Deliver(f func(l any)) {
	var ls []any
	vsched.Point("notification", &c.o, false, func() { ls = append(ls, c.listeners...) })
	for _, l := range ls {
		f(l)
	}
}

// IsClosed tells whether Disconnect was called.
func (c *Client) IsClosed() bool { return c.closed }
