package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	yamux "github.com/libp2p/go-yamux/v4"
	"github.com/sirupsen/logrus"
)

// world is a client connected to a server through some transport.
type world struct {
	kind   string
	client srpc.Client
	lose   func()            // break the connection
	sx     func()            // cancel the server's context
	w1, w2 *wire             // gated transport only
	check  func() string     // nothing may be left of finished calls
	down   func()            // end the connection itself
	mc     network.MuxedConn // client side of a muxed connection
}

func numStreams(mc network.MuxedConn) int {
	return (*yamux.Session)(reflect.ValueOf(mc).UnsafePointer()).NumStreams()
}

// pipeListener is a net.Listener for in-memory connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
}
func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (l *pipeListener) dial(ctx context.Context) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// memConn is an in-memory net.Conn with buffering and random read sizes.
type memConn struct {
	net.Conn // deadlines unsupported
	e        *rwEnd
}

func quietLog() *logrus.Entry {
	log := logrus.New()
	log.SetOutput(io.Discard)
	log.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(log)
}

// echoRpc is an Echoer whose RpcStream is served by the given function.
type echoRpc struct {
	*echo.EchoServer
	serve func(strm rpcstream.RpcStream) error
}

func (e *echoRpc) RpcStream(strm echo.SRPCEchoer_RpcStreamStream) error { return e.serve(strm) }

// lossErrors are the ways a transport can end without completion.
func lossError(rng *rand.Rand) error {
	switch rng.Intn(4) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	}
	return errLost
}

// muxPair connects client and server sessions over a byte stream pair.
type muxPair struct {
	cm, sm network.MuxedConn
	lose   func()
}

func newMuxPair(kind string, ctx context.Context, rng *rand.Rand) (*muxPair, error) {
	p := &muxPair{}
	var err error
	switch kind {
	case "rwc":
		a, b, ab, ba := newDuplex(false, rng, []int{0, 3, 100, 3000}[rng.Intn(4)])
		p.cm, err = srpc.NewMuxedConnWithRwc(ctx, a, true, nil)
		if err == nil {
			p.sm, err = srpc.NewMuxedConnWithRwc(ctx, b, false, nil)
		}
		p.lose = func() { e := lossError(rng); ab.fail(e); ba.fail(e) }
	case "strmrwc":
		// muxer over the byte-stream view of an in-memory stream pair
		s1, s2 := srpc.NewPipeStream(ctx)
		p.cm, err = srpc.NewMuxedConnWithRwc(ctx, srpc.NewStreamRwc(s1), true, nil)
		if err == nil {
			p.sm, err = srpc.NewMuxedConnWithRwc(ctx, srpc.NewStreamRwc(s2), false, nil)
		}
		p.lose = func() { _ = s1.Close(); _ = s2.Close() }
	default:
		a, b := net.Pipe()
		p.cm, err = srpc.NewMuxedConn(a, true, nil)
		if err == nil {
			p.sm, err = srpc.NewMuxedConn(b, false, srpc.NewYamuxConfig())
		}
		p.lose = func() { _ = a.Close(); _ = b.Close() }
	}
	return p, err
}

// newWorld builds the world of the given kind around the invoker.
func newWorld(kind string, inv srpc.Invoker, rng *rand.Rand) (*world, error) {
	w := &world{kind: kind, check: func() string { return "" }, down: func() {}}
	ctx, cancel := context.WithCancel(context.Background())
	w.sx = cancel
	mux := srpc.NewMux(inv)
	srv := srpc.NewServer(mux)
	switch kind {
	case "gated", "mem", "deaf":
		// deaf: gated, and closing the client end does not release its own reads
		chunks := []int{0, 0, 1, 7, 300}[rng.Intn(5)]
		a, b, ab, ba := newDuplex(kind != "mem", rng, chunks)
		ba.deaf = kind == "deaf"
		w.w1, w.w2 = ab, ba
		opened := false
		w.client = srpc.NewClient(func(octx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			if opened {
				return nil, errors.New("verif: one call per gated world")
			}
			opened = true
			prw := srpc.NewPacketReadWriter(a)
			go prw.ReadPump(mh, ch)
			go srv.HandleStream(ctx, b)
			return prw, nil
		})
		w.lose = func() { e := lossError(rng); ab.fail(e); ba.fail(e) }
		w.check = func() string {
			for i, x := range []*wire{ab, ba} {
				x.mu.Lock()
				ok := x.wfin || x.err != nil || !opened
				x.mu.Unlock()
				if !ok {
					return fmt.Sprintf("transport stream left open by side %d", i+1)
				}
			}
			return ""
		}
		w.down = func() { ab.fail(errLost); ba.fail(errLost) }
	case "pipe":
		w.client = srpc.NewClient(srpc.NewServerPipe(srv))
		// NewServerPipe binds the server side to the caller's context
		w.lose = nil
		w.sx = nil
	case "yamux", "rwc", "strmrwc":
		p, err := newMuxPair(kind, context.Background(), rng)
		if err != nil {
			return nil, err
		}
		go func() { _ = srv.AcceptMuxedConn(ctx, p.sm) }()
		w.client = srpc.NewClientWithMuxedConn(p.cm)
		w.setMux(p)
	case "verbose":
		p, err := newMuxPair("yamux", context.Background(), rng)
		if err != nil {
			return nil, err
		}
		vsrv := srpc.NewServer(srpc.NewVMux(mux, quietLog(), true))
		go func() { _ = vsrv.AcceptMuxedConn(ctx, p.sm) }()
		w.client = srpc.NewVClient(srpc.NewClientWithMuxedConn(p.cm), quietLog())
		w.setMux(p)
	case "ws":
		if err := w.setWS(ctx, mux); err != nil {
			return nil, err
		}
	case "rpc", "rpcack", "rpc2", "proxy", "proxy2":
		// levels of nesting over one muxed connection
		p, err := newMuxPair("yamux", context.Background(), rng)
		if err != nil {
			return nil, err
		}
		comp := randID(rng)
		target := newRpcServer(comp, mux)
		ack := kind == "rpcack" || rng.Intn(2) == 0
		if kind == "rpc" {
			ack = false
		}
		w.setMux(p)
		if kind == "rpc2" {
			comp2 := randID(rng)
			outer := newRpcServer(comp2, target)
			osrv := srpc.NewServer(outer)
			go func() { _ = osrv.AcceptMuxedConn(ctx, p.sm) }()
			c1 := rpcClient(srpc.NewClientWithMuxedConn(p.cm), comp2, rng.Intn(2) == 0)
			w.client = rpcClient(c1, comp, ack)
			break
		}
		if kind == "proxy" || kind == "proxy2" {
			hops := 1
			if kind == "proxy2" {
				hops = 2
			}
			var inner srpc.Invoker = target
			innerComp := comp
			var all []*muxPair
			for i := 0; i < hops; i++ {
				bp, err := newMuxPair("yamux", context.Background(), rng)
				if err != nil {
					return nil, err
				}
				all = append(all, bp)
				bsrv := srpc.NewServer(inner)
				go func() { _ = bsrv.AcceptMuxedConn(ctx, bp.sm) }()
				bclient := echo.NewSRPCEchoerClient(srpc.NewClientWithMuxedConn(bp.cm))
				fromComp, toComp := randID(rng), innerComp
				mx := srpc.NewMux()
				_ = echo.SRPCRegisterEchoer(mx, &echoRpc{EchoServer: echo.NewEchoServer(nil), serve: func(strm rpcstream.RpcStream) error {
					return rpcstream.HandleProxyRpcStream(strm, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient], string, func(), error) {
						if id != fromComp {
							return nil, "", nil, fmt.Errorf("verif: proxy asked for %q want %q", id, fromComp)
						}
						return bclient.RpcStream, toComp, func() {}, nil
					})
				}})
				inner, innerComp = mx, fromComp
			}
			psrv := srpc.NewServer(inner)
			go func() { _ = psrv.AcceptMuxedConn(ctx, p.sm) }()
			w.client = rpcClient(srpc.NewClientWithMuxedConn(p.cm), innerComp, ack)
			down, check, lose := w.down, w.check, w.lose
			w.down = func() {
				down()
				for _, bp := range all {
					bp.lose()
				}
			}
			w.check = func() string {
				s := check()
				for _, bp := range all {
					if n, m := numStreams(bp.cm), numStreams(bp.sm); n != 0 || m != 0 {
						s += fmt.Sprintf("proxy backend has %d/%d streams left;", n, m)
					}
				}
				return s
			}
			lostOnce := rng.Intn(2)
			w.lose = func() {
				if lostOnce == 0 {
					lose()
				} else {
					all[rng.Intn(len(all))].lose()
					lose()
				}
			}
			break
		}
		osrv := srpc.NewServer(target)
		go func() { _ = osrv.AcceptMuxedConn(ctx, p.sm) }()
		w.client = rpcClient(srpc.NewClientWithMuxedConn(p.cm), comp, ack)
	default:
		return nil, fmt.Errorf("unknown world %q", kind)
	}
	d := w.down
	w.down = func() { cancel(); d() }
	return w, nil
}

func (w *world) setMux(p *muxPair) {
	w.mc = p.cm
	w.lose = p.lose
	w.down = p.lose
	w.check = func() string {
		if n, m := numStreams(p.cm), numStreams(p.sm); n != 0 || m != 0 {
			return fmt.Sprintf("%d streams left on the client and %d on the server side of the connection", n, m)
		}
		return ""
	}
}

// newRpcServer is a mux with an Echoer whose RpcStream leads to the component.
func newRpcServer(comp string, inv srpc.Invoker) srpc.Mux {
	mx := srpc.NewMux()
	_ = echo.SRPCRegisterEchoer(mx, &echoRpc{EchoServer: echo.NewEchoServer(nil), serve: func(strm rpcstream.RpcStream) error {
		return rpcstream.HandleRpcStream(strm, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			if id != comp {
				return nil, nil, fmt.Errorf("verif: asked for %q want %q", id, comp)
			}
			return inv, func() {}, nil
		})
	}})
	return mx
}

func rpcClient(outer srpc.Client, comp string, ack bool) srpc.Client {
	ec := echo.NewSRPCEchoerClient(outer)
	return rpcstream.NewRpcStreamClient(ec.RpcStream, comp, ack)
}

func (w *world) setWS(ctx context.Context, mux srpc.Mux) error {
	lis := newPipeListener()
	hs, err := srpc.NewHTTPServer(mux, "/rpc", nil)
	if err != nil {
		return err
	}
	server := &http.Server{Handler: hs, BaseContext: func(net.Listener) context.Context { return ctx }}
	go func() { _ = server.Serve(lis) }()
	var raw net.Conn
	tr := &http.Transport{DialContext: func(ctx context.Context, n, a string) (net.Conn, error) {
		c, err := lis.dial(ctx)
		raw = c
		return c, err
	}}
	conn, _, err := websocket.Dial(ctx, "ws://verif/rpc", &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}})
	if err != nil {
		return err
	}
	cctx, ccancel := context.WithCancel(context.Background())
	mc, err := srpc.NewWebSocketConn(cctx, conn, false, nil)
	if err != nil {
		ccancel()
		return err
	}
	w.mc = mc
	w.client = srpc.NewClientWithMuxedConn(mc)
	w.lose = func() { _ = raw.Close() }
	w.check = func() string {
		if n := numStreams(mc); n != 0 {
			return fmt.Sprintf("%d streams left on the client side of the connection", n)
		}
		return ""
	}
	w.down = func() {
		_ = raw.Close()
		_ = mc.Close()
		ccancel()
		_ = server.Close()
		tr.CloseIdleConnections()
		_ = conn.CloseNow()
	}
	return nil
}

var idPool = []string{"a", "svc", "my.pkg.Service", "x/y/z", "UPPER", "with space", "ünï-ço∂é", "a\x00b", "zz.zz.zz.Zz", "\xff\xfe",
	"/lead", "trail/", "//", ".", "a.", " pad ", "\ttab\n", "a//b", "../up", "./here", "%2Fenc", "a?b#c", "Upper", "upper", "0"}

func randID(rng *rand.Rand) string {
	switch rng.Intn(12) {
	case 0:
		return strings.Repeat("l", 100+rng.Intn(400))
	case 1:
		return fmt.Sprintf("id-%d", rng.Intn(1000000))
	}
	return idPool[rng.Intn(len(idPool))]
}
