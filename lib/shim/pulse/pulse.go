// Package pulse is a sound server in memory: the harness provides the sources.
package pulse

import (
	"errors"
	"unsafe"

	orig "github.com/jfreymuth/pulse"
	"github.com/jfreymuth/pulse/proto"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

// Server is what the programs connect to.
type Server struct {
	Sources []*Source // the first one is the default
	Refuse  bool
	Fails   bool // no record stream
	Clients []*Client
}

// Current is the server of the running execution.
var Current *Server

var errRefused = errors.New("connection refused")
var errNoEntity = errors.New("no such entity")

type Client struct {
	o       vsched.Obj
	server  *Server
	Name    string
	closed  bool
	Streams []*RecordStream
}

type ClientOption func(*Client)

func ClientApplicationName(name string) ClientOption     { return func(c *Client) { c.Name = name } }
func ClientApplicationIconName(name string) ClientOption { return func(c *Client) {} }
func ClientServerString(s string) ClientOption           { return func(c *Client) {} }

func NewClient(opts ...ClientOption) (*Client, error) {
	if Current == nil || Current.Refuse {
		return nil, errRefused
	}
	c := &Client{server: Current}
	for _, o := range opts {
		o(c)
	}
	Current.Clients = append(Current.Clients, c)
	return c, nil
}

// Close ends the connection and with it all streams.
func (c *Client) Close() {
	vsched.Point(vsched.Label("pulse close"), &c.o, true, func() {
		c.closed = true
		for _, s := range c.Streams {
			s.running = false
		}
	})
}

func (c *Client) Closed() bool { return c.closed }

// Source of sound.
type Source struct {
	Ident  string
	Rate   int
	Chans  int
	Signal func(t float64) float64
}

func (c *Client) DefaultSource() (*Source, error) {
	if len(c.server.Sources) == 0 {
		return nil, errNoEntity
	}
	return c.server.Sources[0], nil
}

func (c *Client) SourceByID(id string) (*Source, error) {
	for _, s := range c.server.Sources {
		if s.Ident == id {
			return s, nil
		}
	}
	return nil, errNoEntity
}

func (c *Client) ListSources() ([]*Source, error) { return c.server.Sources, nil }

func (s *Source) ID() string                 { return s.Ident }
func (s *Source) Name() string               { return s.Ident }
func (s *Source) SampleRate() int            { return s.Rate }
func (s *Source) SourceIndex() uint32        { return 0 }
func (s *Source) Channels() proto.ChannelMap { return channelMap(s.Chans) }

func channelMap(n int) proto.ChannelMap {
	switch n {
	case 1:
		return proto.ChannelMap{proto.ChannelMono}
	case 2:
		return proto.ChannelMap{proto.ChannelLeft, proto.ChannelRight}
	}
	return make(proto.ChannelMap, n)
}

type RecordStream struct {
	o        vsched.Obj
	c        *Client
	w        orig.Writer
	source   *Source
	rate     int
	chans    int
	fragment int // bytes
	running  bool
	busy     bool
	closed   bool
	err      error
	pos      int // samples delivered
}

type RecordOption func(*RecordStream)

var RecordMono RecordOption = func(r *RecordStream) { r.chans = 1 }
var RecordStereo RecordOption = func(r *RecordStream) { r.chans = 2 }

func RecordChannels(m proto.ChannelMap) RecordOption {
	return func(r *RecordStream) { r.chans = len(m) }
}
func RecordSampleRate(rate int) RecordOption { return func(r *RecordStream) { r.rate = rate } }
func RecordBufferFragmentSize(size uint32) RecordOption {
	return func(r *RecordStream) { r.fragment = int(size) }
}
func RecordLatency(seconds float64) RecordOption {
	return func(r *RecordStream) { r.fragment = int(seconds*float64(r.rate)) * r.chans * 4 }
}
func RecordSource(source *Source) RecordOption     { return func(r *RecordStream) { r.source = source } }
func RecordMediaName(name string) RecordOption     { return func(r *RecordStream) {} }
func RecordMediaIconName(name string) RecordOption { return func(r *RecordStream) {} }
func RecordRawOption(o func(*proto.CreateRecordStream)) RecordOption {
	return func(r *RecordStream) {
		q := &proto.CreateRecordStream{
			ChannelMap: channelMap(r.chans), BufferFragSize: proto.Undefined,
			SampleSpec: proto.SampleSpec{Format: r.w.Format(), Channels: byte(r.chans), Rate: uint32(r.rate)},
			Properties: proto.PropList{},
		}
		o(q)
		r.rate, r.chans = int(q.Rate), int(q.Channels)
		if q.BufferFragSize != proto.Undefined {
			r.fragment = int(q.BufferFragSize)
		}
	}
}

func (c *Client) NewRecord(w orig.Writer, opts ...RecordOption) (*RecordStream, error) {
	r := &RecordStream{c: c, w: w, rate: 44100, chans: 1}
	for _, o := range opts {
		o(r)
	}
	if r.source == nil {
		r.source, _ = c.DefaultSource()
	}
	if c.server.Fails || r.source == nil {
		return nil, errNoEntity
	}
	if r.fragment <= 0 {
		r.fragment = r.rate * r.chans * 4 / 2
	}
	vsched.Point(vsched.Label("pulse record"), &c.o, true, func() { c.Streams = append(c.Streams, r) })
	return r, nil
}

func (r *RecordStream) Start() {
	vsched.Point(vsched.Label("pulse start"), &r.o, true, func() { r.running = !r.c.closed })
}

// Stop returns when the callback is not called any more.
func (r *RecordStream) Stop() {
	vsched.Block(vsched.Label("pulse stop"), &r.o, func() bool { return !r.busy }, func() { r.running = false })
}

func (r *RecordStream) Close() {
	r.Stop()
	r.closed = true
}

func (r *RecordStream) Closed() bool        { return r.closed }
func (r *RecordStream) Running() bool       { return r.running }
func (r *RecordStream) Error() error        { return r.err }
func (r *RecordStream) SampleRate() int     { return r.rate }
func (r *RecordStream) Channels() int       { return r.chans }
func (r *RecordStream) StreamIndex() uint32 { return 0 }

// Source the stream records from.
func (r *RecordStream) Source() *Source { return r.source }

// Seconds that were delivered.
func (r *RecordStream) Seconds() float64 { return float64(r.pos) / float64(r.rate) }

// Deliver lets the stream record one fragment; false when it does not run.
func (r *RecordStream) Deliver() bool {
	ok := false
	vsched.Point("pulse data", &r.o, true, func() {
		ok = r.running && r.err == nil
		r.busy = ok
	})
	if !ok {
		return false
	}
	frames := max(r.fragment/(4*r.chans), 1)
	data := make([]float32, frames*r.chans)
	for i := 0; i < frames; i++ {
		v := float32(r.source.Signal(float64(r.pos+i) / float64(r.rate)))
		for c := 0; c < r.chans; c++ {
			data[i*r.chans+c] = v
		}
	}
	r.pos += frames
	_, err := r.w.Write(unsafe.Slice((*byte)(unsafe.Pointer(&data[0])), 4*len(data)))
	vsched.Point("pulse data written", &r.o, true, func() {
		r.busy = false
		if err != nil {
			r.err = err
		}
	})
	return true
}
