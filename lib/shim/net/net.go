// Package net is a network in memory.
package net

import (
	"context"
	"fmt"
	"io"
	orig "net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

type network struct {
	o         vsched.Obj
	listeners map[string]*TCPListener
	nextPort  int
	all       []*TCPListener
}

func theNet() *network {
	return vsched.Value("net", func() *network {
		return &network{listeners: map[string]*TCPListener{}, nextPort: 40000}
	})
}

func ResolveTCPAddr(network, address string) (*orig.TCPAddr, error) {
	address = strings.TrimPrefix(address, "tcp:")
	if h, p, err := orig.SplitHostPort(address); err == nil {
		if h == "localhost" {
			address = orig.JoinHostPort("127.0.0.1", p)
		} else if h != "" && orig.ParseIP(strings.SplitN(h, "%", 2)[0]) == nil {
			return nil, &orig.DNSError{Err: "no such host", Name: h, IsNotFound: true}
		}
		if p != "" {
			if _, err := strconv.Atoi(p); err != nil {
				return nil, &orig.DNSError{Err: "unknown port", Name: p}
			}
		}
	}
	return orig.ResolveTCPAddr(network, address)
}

func key(a *orig.TCPAddr) string { return strconv.Itoa(a.Port) }

// ListenTCP fails if the port is in use.
func ListenTCP(nw string, addr *orig.TCPAddr) (*TCPListener, error) {
	n := theNet()
	var l *TCPListener
	var err error
	vsched.Point(vsched.Label("listen"), &n.o, true, func() {
		a := *addr
		if a.IP == nil {
			a.IP = orig.IPv4(127, 0, 0, 1)
		}
		if FailListen != nil && FailListen(&a) {
			err = &orig.OpError{Op: "listen", Net: nw, Addr: &a, Err: syscall.EACCES}
			return
		}
		if a.Port == 0 {
			n.nextPort++
			a.Port = n.nextPort
		}
		if n.listeners[key(&a)] != nil {
			err = &orig.OpError{Op: "listen", Net: nw, Addr: &a, Err: syscall.EADDRINUSE}
			return
		}
		l = &TCPListener{addr: &a}
		n.listeners[key(&a)] = l
		n.all = append(n.all, l)
	})
	return l, err
}

// AcceptTakesTime lets the time of the deadline pass, when an attempt to accept a connection ends with it.
var AcceptTakesTime bool

// AcceptErrors are what the next attempts to accept a connection that is there fail with.
var AcceptErrors []error

// FailListen lets the harness refuse an address.
var FailListen func(a *orig.TCPAddr) bool

func Listen(nw, address string) (orig.Listener, error) {
	a, err := ResolveTCPAddr(nw, address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(nw, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenConfig listens in memory.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig orig.KeepAliveConfig
}

func (ListenConfig) Listen(_ context.Context, nw, address string) (orig.Listener, error) {
	return Listen(nw, address)
}

type TCPListener struct {
	o        vsched.Obj
	addr     *orig.TCPAddr
	backlog  []*TCPConn
	closed   bool
	deadline time.Time
	Data     any
}

func (l *TCPListener) Addr() orig.Addr { return l.addr }

func (l *TCPListener) SetDeadline(t time.Time) error {
	if l.closed {
		return &orig.OpError{Op: "set", Net: "tcp", Addr: l.addr, Err: orig.ErrClosed}
	}
	l.deadline = t
	return nil
}

func (l *TCPListener) Accept() (orig.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP waits for a connection.  Its deadline is only used when another round of the
// calling loop can make a difference: time itself does not count.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	var c *TCPConn
	var err error
	expired := false
	me := vsched.Me()
	timeout := func() bool {
		if l.deadline.IsZero() {
			return false
		}
		ready, polled := vsched.PolledBy(me)
		return ready || !polled
	}
	vsched.Block(vsched.Label("accept"), &l.o, func() bool {
		return len(l.backlog) > 0 || l.closed || timeout()
	}, func() {
		switch {
		case l.closed:
			err = &orig.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: orig.ErrClosed}
		case len(l.backlog) > 0 && len(AcceptErrors) > 0:
			err = &orig.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: AcceptErrors[0]}
			AcceptErrors = AcceptErrors[1:]
		case len(l.backlog) > 0:
			c = l.backlog[0]
			l.backlog = l.backlog[1:]
		default:
			expired = true
			err = &orig.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
		}
	})
	if AcceptTakesTime && expired {
		if d := l.deadline.Sub(vsched.PeekNow()); d > 0 {
			vsched.Sleep(d)
		}
	}
	return c, err
}

func (l *TCPListener) Close() error {
	n := theNet()
	var err error
	vsched.Point(vsched.Label("close listener"), &l.o, true, func() {
		if l.closed {
			err = &orig.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: orig.ErrClosed}
			return
		}
		l.closed = true
		delete(n.listeners, key(l.addr))
		for _, c := range l.backlog {
			c.peerClosed = true
		}
	})
	return err
}

// Closed is for harnesses.
func (l *TCPListener) Closed() bool { return l.closed }

// TCPConn is the server's end of a connection; the harness holds the other one.
type TCPConn struct {
	o                vsched.Obj
	local            *orig.TCPAddr
	remote           *orig.TCPAddr
	in               [][]byte // towards the program
	out              [][]byte // towards the peer
	capacity         int      // writes the peer buffers
	closed           bool
	peerClosed       bool // the peer does not send any more
	peerGone         bool // writes fail
	rdl, wdl         time.Time
	rcancel, wcancel func()
	noRead, noWrite  bool
	Closes           int
}

func (c *TCPConn) op(o string, err error) error {
	return &orig.OpError{Op: o, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *TCPConn) expired(t time.Time) bool {
	return !t.IsZero() && !vsched.PeekNow().Before(t)
}

func (c *TCPConn) Read(b []byte) (n int, err error) {
	if len(b) == 0 {
		return 0, nil
	}
	vsched.Block(vsched.Label("conn read"), &c.o, func() bool {
		return len(c.in) > 0 || c.closed || c.peerClosed || c.noRead || c.expired(c.rdl)
	}, func() {
		switch {
		case c.closed:
			err = c.op("read", orig.ErrClosed)
		case c.expired(c.rdl):
			err = c.op("read", os.ErrDeadlineExceeded)
		case c.noRead:
			err = io.EOF
		case len(c.in) > 0:
			vsched.Fill(&b[0])
			n = copy(b, c.in[0])
			if n < len(c.in[0]) {
				c.in[0] = c.in[0][n:]
			} else {
				c.in = c.in[1:]
			}
		case c.peerGone:
			err = c.op("read", syscall.ECONNRESET)
		default:
			err = io.EOF
		}
	})
	return
}

func (c *TCPConn) Write(b []byte) (n int, err error) {
	vsched.Block(vsched.Label("conn write"), &c.o, func() bool {
		return c.closed || c.peerGone || c.noWrite || len(c.out) < c.capacity || c.expired(c.wdl)
	}, func() {
		switch {
		case c.closed:
			err = c.op("write", orig.ErrClosed)
		case c.peerGone, c.noWrite:
			err = c.op("write", syscall.EPIPE)
		case c.expired(c.wdl):
			err = c.op("write", os.ErrDeadlineExceeded)
		default:
			if len(b) > 0 {
				c.out = append(c.out, append([]byte(nil), b...))
			}
			n = len(b)
		}
	})
	return
}

func (c *TCPConn) Close() (err error) {
	vsched.Point(vsched.Label("conn close"), &c.o, true, func() {
		c.Closes++
		if c.closed {
			err = c.op("close", orig.ErrClosed)
			return
		}
		c.closed = true
	})
	return
}

func (c *TCPConn) LocalAddr() orig.Addr                   { return c.local }
func (c *TCPConn) RemoteAddr() orig.Addr                  { return c.remote }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

// CloseRead ends the reception.
func (c *TCPConn) CloseRead() error {
	vsched.Point(vsched.Label("conn close read"), &c.o, true, func() { c.noRead = true })
	return nil
}

// CloseWrite ends the transmission.
func (c *TCPConn) CloseWrite() error {
	vsched.Point(vsched.Label("conn close write"), &c.o, true, func() { c.noWrite = true })
	return nil
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	vsched.Note(&c.o, 81)
	c.rdl = t
	if c.rcancel != nil {
		c.rcancel()
		c.rcancel = nil
	}
	if !t.IsZero() {
		c.rcancel = vsched.Deadline(t)
	}
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	vsched.Note(&c.o, 82)
	c.wdl = t
	if c.wcancel != nil {
		c.wcancel()
		c.wcancel = nil
	}
	if !t.IsZero() {
		c.wcancel = vsched.Deadline(t)
	}
	return nil
}

// Peer is the harness' end of a connection.
type Peer struct {
	C   *TCPConn
	got strings.Builder
}

// Connect opens a connection to a listening port; the peer buffers capacity writes.
func Connect(port int, capacity int) (*Peer, error) {
	n := theNet()
	var c *TCPConn
	vsched.Point("client connect", &n.o, true, func() {
		if l := n.listeners[strconv.Itoa(port)]; l != nil {
			c = &TCPConn{local: l.addr, remote: &orig.TCPAddr{IP: orig.IPv4(127, 0, 0, 1), Port: 50000 + len(l.backlog)}, capacity: capacity}
			l.backlog = append(l.backlog, c)
			vsched.Note(&l.o, 83)
		}
	})
	if c == nil {
		return nil, fmt.Errorf("connection refused: %w", syscall.ECONNREFUSED)
	}
	return &Peer{C: c}, nil
}

// Pipe is a connection without a listener.
func Pipe(capacity int) *Peer {
	a := &orig.TCPAddr{IP: orig.IPv4(127, 0, 0, 1), Port: 1}
	return &Peer{C: &TCPConn{local: a, remote: a, capacity: capacity}}
}

// Listening tells whether a port is in use.
func Listening(port int) bool { return theNet().listeners[strconv.Itoa(port)] != nil }

// Send delivers bytes to the program.
func (p *Peer) Send(s string) {
	vsched.Point("client send", &p.C.o, true, func() { p.C.in = append(p.C.in, []byte(s)) })
}

// Close ends the connection regularly.
func (p *Peer) Close() {
	vsched.Point("client close", &p.C.o, true, func() {
		p.drain()
		p.C.peerClosed = true
		p.C.peerGone = true
	})
}

// HalfClose stops sending.
func (p *Peer) HalfClose() {
	vsched.Point("client half close", &p.C.o, true, func() { p.C.peerClosed = true })
}

func (p *Peer) drain() {
	for _, b := range p.C.out {
		p.got.Write(b)
	}
	p.C.out = nil
}

// Read takes everything that was sent to the peer.
func (p *Peer) Read() {
	vsched.Point("client read", &p.C.o, true, p.drain)
}

// Received is everything the peer has got so far, including what it has not read yet.
func (p *Peer) Received() string {
	s := p.got.String()
	for _, b := range p.C.out {
		s += string(b)
	}
	return s
}

// ClosedByServer tells whether the program has closed the connection.
func (p *Peer) ClosedByServer() bool { return p.C.closed }
