// Package grpc keeps the contract of a gRPC server without a network: streams are threads of the
// controlled scheduler, messages are marshalled when they are sent.
package grpc

import (
	"context"
	"io"
	"math"
	"net"
	"reflect"
	"strings"

	orig "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"

	sctx "github.com/ftl/sdrainer/zzverif/shim/context"
	"github.com/ftl/sdrainer/zzverif/vsched"
)

const SupportPackageIsVersion6 = true

type registry struct{ servers map[string]*Server }

func theRegistry() *registry {
	return vsched.Value("grpc", func() *registry { return &registry{servers: map[string]*Server{}} })
}

func portOf(address string) string {
	return address[strings.LastIndex(address, ":")+1:]
}

type service struct {
	desc *orig.ServiceDesc
	impl any
}

// Server follows the life cycle of the real one.
type Server struct {
	o        vsched.Obj
	services []service
	stopped  bool
	serving  int
	lis      []net.Listener
	streams  []*serverStream
	handlers int
	maxSend  int
}

func NewServer(opts ...orig.ServerOption) *Server {
	s := &Server{maxSend: math.MaxInt32}
	if len(opts) > 0 {
		// the options are applied to a real server, only to see what they are
		o := orig.NewServer(opts...)
		if f := reflect.ValueOf(o).Elem().FieldByName("opts"); f.IsValid() {
			if m := f.FieldByName("maxSendMessageSize"); m.IsValid() && m.CanInt() {
				s.maxSend = int(m.Int())
			}
		}
		o.Stop()
	}
	return s
}

func (s *Server) RegisterService(desc *orig.ServiceDesc, impl any) {
	s.services = append(s.services, service{desc, impl})
}

type closer interface{ Closed() bool }

func (s *Server) Serve(lis net.Listener) error {
	r := theRegistry()
	stopped := false
	vsched.Point(vsched.Label("grpc serve"), &s.o, true, func() {
		if s.stopped {
			stopped = true
			return
		}
		s.serving++
		s.lis = append(s.lis, lis)
		r.servers[portOf(lis.Addr().String())] = s
	})
	if stopped {
		lis.Close()
		return orig.ErrServerStopped
	}
	var err error
	vsched.Block(vsched.Label("grpc serving"), &s.o, func() bool {
		if c, ok := lis.(closer); ok && c.Closed() {
			return true
		}
		return s.stopped
	}, func() {
		s.serving--
		if !s.stopped {
			err = net.ErrClosed
		}
	})
	return err
}

func (s *Server) Stop() { s.stop(false) }

func (s *Server) GracefulStop() { s.stop(true) }

func (s *Server) stop(graceful bool) {
	var lis []net.Listener
	var streams []*serverStream
	vsched.Point(vsched.Label("grpc stop"), &s.o, true, func() {
		s.stopped = true
		lis, s.lis = s.lis, nil
		if !graceful {
			streams, s.streams = s.streams, nil
		}
	})
	for _, l := range lis {
		l.Close()
	}
	for _, st := range streams {
		st.cancel()
	}
	vsched.Block(vsched.Label("grpc stopping"), &s.o, func() bool {
		return s.serving == 0 && (!graceful || s.handlers == 0)
	}, nil)
}

func (s *Server) GetServiceInfo() map[string]orig.ServiceInfo { return nil }

// serverStream is shared by both ends.
type serverStream struct {
	o         vsched.Obj
	ctx       context.Context
	cancelF   context.CancelFunc
	cancelled bool
	req       [][]byte
	out       [][]byte
	capacity  int
	finished  bool
	err       error
	maxSend   int // size of a message
	maxRecv   int

	clientCancel context.CancelFunc
}

func (st *serverStream) cancel() {
	vsched.Point(vsched.Label("grpc cancel"), &st.o, true, func() { st.cancelled = true })
	st.cancelF()
}

func (st *serverStream) SetHeader(metadata.MD) error  { return nil }
func (st *serverStream) SendHeader(metadata.MD) error { return nil }
func (st *serverStream) SetTrailer(metadata.MD)       {}
func (st *serverStream) Context() context.Context     { return st.ctx }

func (st *serverStream) SendMsg(m any) (err error) {
	data, merr := proto.Marshal(messageV2Of(m))
	if merr != nil {
		return status.Error(codes.Internal, merr.Error())
	}
	if len(data) > st.maxSend {
		return status.Errorf(codes.ResourceExhausted, "trying to send message larger than max (%d vs. %d)", len(data), st.maxSend)
	}
	vsched.Block(vsched.Label("grpc send"), &st.o, func() bool {
		return st.cancelled || len(st.out) < st.capacity
	}, func() {
		if st.cancelled {
			err = status.Error(codes.Canceled, "context canceled")
			return
		}
		st.out = append(st.out, data)
	})
	return err
}

func (st *serverStream) RecvMsg(m any) (err error) {
	var data []byte
	vsched.Block(vsched.Label("grpc recv"), &st.o, func() bool { return len(st.req) > 0 || st.cancelled }, func() {
		if len(st.req) == 0 {
			err = io.EOF
			return
		}
		data = st.req[0]
		st.req = st.req[1:]
	})
	if err != nil {
		return err
	}
	return proto.Unmarshal(data, messageV2Of(m))
}

// StreamCapacity is the number of messages that fit between server and client.
var StreamCapacity = 100

// ClientConn connects to a server of this process.
type ClientConn struct {
	o       vsched.Obj
	target  string
	closed  bool
	streams []*serverStream
	maxRecv int
}

const defaultMaxRecv = 4 * 1024 * 1024

func NewClient(target string, opts ...orig.DialOption) (*ClientConn, error) {
	c := &ClientConn{target: target, maxRecv: defaultMaxRecv}
	if len(opts) > 1 {
		// more than the credentials: the options are applied to a real connection, which stays idle
		o, err := orig.NewClient("passthrough:///"+target, opts...)
		if err != nil {
			return nil, err
		}
		if f := reflect.ValueOf(o).Elem().FieldByName("dopts"); f.IsValid() {
			if m := f.FieldByName("callOptions"); m.IsValid() && m.Kind() == reflect.Slice {
				for i := 0; i < m.Len(); i++ {
					c.limit(m.Index(i))
				}
			}
		}
		o.Close()
	}
	return c, nil
}

// limit looks for a limit of the message size in the call option.
func (c *ClientConn) limit(option reflect.Value) {
	if option.Kind() == reflect.Interface {
		option = option.Elem()
	}
	if option.Type() == reflect.TypeOf(orig.MaxRecvMsgSizeCallOption{}) {
		c.maxRecv = int(option.Field(0).Int())
	}
}

func Dial(target string, opts ...orig.DialOption) (*ClientConn, error) {
	return NewClient(target, opts...)
}

func (c *ClientConn) Close() error {
	var streams []*serverStream
	closed := false
	vsched.Point(vsched.Label("grpc conn close"), &c.o, true, func() {
		closed = c.closed
		c.closed = true
		streams, c.streams = c.streams, nil
	})
	if closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	for _, st := range streams {
		st.cancel()
		st.clientCancel()
	}
	return nil
}

func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...orig.CallOption) error {
	return status.Error(codes.Unimplemented, method)
}

func (c *ClientConn) NewStream(ctx context.Context, desc *orig.StreamDesc, method string, opts ...orig.CallOption) (orig.ClientStream, error) {
	r := theRegistry()
	s := r.servers[portOf(c.target)]
	if s == nil || s.stopped || c.closed {
		return nil, status.Error(codes.Unavailable, "connection refused")
	}
	sc, cancel := sctx.WithCancel(context.Background())
	cctx, clientCancel := sctx.WithCancel(ctx)
	st := &serverStream{ctx: sc, cancelF: cancel, capacity: StreamCapacity, clientCancel: clientCancel, maxSend: s.maxSend, maxRecv: c.maxRecv}
	for _, o := range opts {
		if m, ok := o.(orig.MaxRecvMsgSizeCallOption); ok {
			st.maxRecv = m.MaxRecvMsgSize
		}
	}
	ok := false
	vsched.Point("open stream", &s.o, true, func() {
		if !s.stopped {
			s.streams = append(s.streams, st)
			s.handlers++
			ok = true
		}
	})
	if !ok {
		return nil, status.Error(codes.Unavailable, "connection refused")
	}
	c.streams = append(c.streams, st)
	return &clientStream{st: st, server: s, method: method, ctx: cctx}, nil
}

type clientStream struct {
	st     *serverStream
	server *Server
	method string
	ctx    context.Context
}

func (cs *clientStream) Header() (metadata.MD, error) { return nil, nil }
func (cs *clientStream) Trailer() metadata.MD         { return nil }
func (cs *clientStream) Context() context.Context     { return cs.ctx }

func (cs *clientStream) SendMsg(m any) error {
	data, err := proto.Marshal(messageV2Of(m))
	if err != nil {
		return err
	}
	vsched.Point("grpc request", &cs.st.o, true, func() { cs.st.req = append(cs.st.req, data) })
	return nil
}

// CloseSend starts the handler.
func (cs *clientStream) CloseSend() error {
	s, st := cs.server, cs.st
	for _, sv := range s.services {
		for _, d := range sv.desc.Streams {
			if cs.method == "/"+sv.desc.ServiceName+"/"+d.StreamName {
				vsched.GoNamed("handler", func() {
					err := d.Handler(sv.impl, st)
					vsched.Point("grpc handler done", &st.o, true, func() { st.finished, st.err = true, err })
					vsched.Point("grpc handler gone", &s.o, true, func() { s.handlers-- })
					st.cancelF()
				})
				return nil
			}
		}
	}
	return status.Error(codes.Unimplemented, cs.method)
}

func (cs *clientStream) RecvMsg(m any) (err error) {
	st := cs.st
	var data []byte
	vsched.Block(vsched.Label("client receives"), &st.o, func() bool {
		return len(st.out) > 0 || st.finished || st.cancelled
	}, func() {
		switch {
		case len(st.out) > 0:
			data = st.out[0]
			st.out = st.out[1:]
		case st.cancelled:
			err = status.Error(codes.Unavailable, "transport is closing")
		case st.err != nil:
			err = st.err
		default:
			err = io.EOF
		}
	})
	if err == nil && len(data) > st.maxRecv {
		st.cancel()
		err = status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(data), st.maxRecv)
	}
	if err != nil {
		st.clientCancel()
		return err
	}
	return proto.Unmarshal(data, messageV2Of(m))
}

// messageV2Of does the same as the codec of gRPC.
func messageV2Of(m any) proto.Message {
	switch m := m.(type) {
	case protoadapt.MessageV1:
		return protoadapt.MessageV2Of(m)
	case protoadapt.MessageV2:
		return m
	}
	panic("not a message")
}
