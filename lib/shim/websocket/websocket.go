// Package websocket is a websocket in memory; the harness is the server.
package websocket

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"time"

	orig "github.com/gorilla/websocket"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

type Dialer struct{ orig.Dialer }

var DefaultDialer = &Dialer{}

// OnDial answers a dial attempt.
var OnDial func(url string) (*Conn, error)

func (d *Dialer) Dial(url string, _ http.Header) (*Conn, *http.Response, error) {
	var o vsched.Obj
	vsched.Point(vsched.Label("dial"), &o, true, nil)
	c, err := OnDial(url)
	return c, nil, err
}

func (d *Dialer) DialContext(_ context.Context, url string, h http.Header) (*Conn, *http.Response, error) {
	return d.Dial(url, h)
}

type Message struct {
	Type int
	Data []byte
	At   time.Time
}

type Conn struct {
	o                vsched.Obj
	w                vsched.Obj
	in               []Message
	Sent             []Message
	closed           bool
	failed           error // reads fail after the pending messages, writes fail
	writing          bool
	Capacity         int // number of messages the server takes; 0: unlimited
	rdl, wdl         time.Time
	rcancel, wcancel func()
	Breaks           int // the connection breaks with this message; 0: never
	limit            int64
}

func NewConn() *Conn { return &Conn{} }

var errClosed = errors.New("use of closed network connection")

func (c *Conn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8073} }
func (c *Conn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

func (c *Conn) Close() error {
	vsched.Point(vsched.Label("ws close"), &c.o, true, func() { c.closed = true })
	return nil
}

func (c *Conn) ReadMessage() (typ int, data []byte, err error) {
	vsched.Block(vsched.Label("ws read"), &c.o, func() bool {
		return len(c.in) > 0 || c.closed || c.failed != nil || expired(c.rdl)
	}, func() {
		switch {
		case c.closed:
			err = errClosed
		case expired(c.rdl):
			c.failed = os.ErrDeadlineExceeded // a websocket is unusable after a timeout
			err = c.failed
		case len(c.in) > 0 && c.failed != os.ErrDeadlineExceeded:
			if c.limit > 0 && int64(len(c.in[0].Data)) > c.limit {
				c.failed = orig.ErrReadLimit
				c.in = nil
				err = c.failed
				return
			}
			typ, data = c.in[0].Type, append([]byte(nil), c.in[0].Data...)
			c.in = c.in[1:]
		default:
			err = c.failed
		}
	})
	return
}

func (c *Conn) WriteMessage(typ int, data []byte) (err error) {
	msg := Message{Type: typ, Data: append([]byte(nil), data...)}
	concurrent := false
	vsched.Point(vsched.Label("ws write"), &c.w, true, func() {
		concurrent = c.writing
		c.writing = true
	})
	if concurrent {
		vsched.Crash("panic", "concurrent write to websocket connection")
	}
	vsched.Block(vsched.Label("ws written"), &c.o, func() bool {
		return c.closed || c.failed != nil || c.Capacity == 0 || len(c.Sent) < c.Capacity || expired(c.wdl)
	}, func() {
		c.writing = false
		switch {
		case c.closed:
			err = errClosed
		case c.failed != nil:
			err = c.failed
		case expired(c.wdl):
			c.failed = os.ErrDeadlineExceeded
			err = c.failed
		case c.Breaks > 0 && len(c.Sent) == c.Breaks-1:
			c.failed = errors.New("broken pipe")
			err = c.failed
		default:
			msg.At = vsched.PeekNow()
			c.Sent = append(c.Sent, msg)
		}
	})
	return
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	vsched.Note(&c.o, 81)
	c.rdl = t
	if c.rcancel != nil {
		c.rcancel()
		c.rcancel = nil
	}
	if !t.IsZero() {
		c.rcancel = vsched.Deadline(t)
	}
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	vsched.Note(&c.o, 82)
	c.wdl = t
	if c.wcancel != nil {
		c.wcancel()
		c.wcancel = nil
	}
	if !t.IsZero() {
		c.wcancel = vsched.Deadline(t)
	}
	return nil
}

func expired(t time.Time) bool { return !t.IsZero() && !vsched.PeekNow().Before(t) }

// NextReader is the next message as a reader.
func (c *Conn) NextReader() (typ int, r io.Reader, err error) {
	typ, data, err := c.ReadMessage()
	if err != nil {
		return typ, nil, err
	}
	return typ, bytes.NewReader(data), nil
}

func (c *Conn) ReadJSON(v any) error {
	_, data, err := c.ReadMessage()
	if err != nil {
		return err
	}
	return json.Unmarshal(data, v)
}

func (c *Conn) WriteJSON(v any) error {
	data, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return c.WriteMessage(orig.TextMessage, data)
}

type messageWriter struct {
	bytes.Buffer
	c   *Conn
	typ int
}

func (w *messageWriter) Close() error { return w.c.WriteMessage(w.typ, w.Bytes()) }

// NextWriter sends the message with Close.
func (c *Conn) NextWriter(typ int) (io.WriteCloser, error) {
	return &messageWriter{c: c, typ: typ}, nil
}

// SetReadLimit limits the size of the messages.
func (c *Conn) SetReadLimit(limit int64) { c.limit = limit }

// WriteControl sends control frames, which the harness does not look at; it may be used
// concurrently with the other methods.
func (c *Conn) WriteControl(int, []byte, time.Time) error { return nil }

func (c *Conn) SetPingHandler(func(string) error)       {}
func (c *Conn) SetPongHandler(func(string) error)       {}
func (c *Conn) SetCloseHandler(func(int, string) error) {}
func (c *Conn) EnableWriteCompression(bool)             {}
func (c *Conn) SetCompressionLevel(int) error           { return nil }
func (c *Conn) Subprotocol() string                     { return "" }

// Push lets the server send a message.
func (c *Conn) Push(typ int, data []byte) {
	vsched.Point("server sends", &c.o, true, func() { c.in = append(c.in, Message{Type: typ, Data: data}) })
}

// Fail breaks the connection.
func (c *Conn) Fail(err error) {
	vsched.Point("connection breaks", &c.o, true, func() { c.failed = err })
}

// Take lets the server take more messages.
func (c *Conn) Take(n int) {
	vsched.Point("server takes", &c.o, true, func() { c.Capacity += n })
}

// Closed tells whether the program has closed the connection.
func (c *Conn) Closed() bool { return c.closed }

// Pending is the number of messages that were not read.
func (c *Conn) Pending() int { return len(c.in) }
