package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
)

// relay forwards TCP connections so that the harness can cut them.
type relay struct {
	lis  net.Listener
	to   string
	mu   sync.Mutex
	last [2]net.Conn
	got  chan struct{}
}

func newRelay(to string) (*relay, error) {
	lis, err := net.Listen("tcp", loopAddr())
	if err != nil {
		return nil, err
	}
	r := &relay{lis: lis, to: to, got: make(chan struct{}, 16)}
	go func() {
		for {
			a, err := lis.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", to)
			if err != nil {
				_ = a.Close()
				continue
			}
			r.mu.Lock()
			r.last = [2]net.Conn{a, b}
			r.mu.Unlock()
			r.got <- struct{}{}
			go func() { _, _ = io.Copy(a, b); _ = a.Close(); _ = b.Close() }()
			go func() { _, _ = io.Copy(b, a); _ = a.Close(); _ = b.Close() }()
		}
	}()
	return r, nil
}

var loopCtr atomic.Uint64

// loopAddr is a loopback address nobody else uses.
func loopAddr() string {
	h := hash64(time.Now().UnixNano(), int64(loopCtr.Add(1)), rand.Int63())
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+h%250, 1+h>>8%250, 1+h>>16%250, 20000+h>>24%10000)
}

type srvConn struct {
	kind   string
	raw    net.Conn // the connection to break
	mc     network.MuxedConn
	client srpc.Client
	cancel context.CancelFunc
	down   []func()
}

type srvDrv struct {
	rng    *rand.Rand
	rec    *Rec
	via    string
	addr   string
	path   string // the path served, "" for all
	lis    *pipeListener
	relay  *relay
	conns  []*srvConn
	ctx    context.Context
	errCh  chan error
	cause  error
	srv    *srpc.Server
	down   []func()
	served int
}

func (d *srvDrv) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	switch meth {
	case "echo":
		m := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(m); err != nil {
			return true, err
		}
		return true, strm.MsgSend(m)
	case "hold":
		d.rec.tok("hstart"+svc, "yes")
		<-strm.Context().Done()
		d.rec.tok("hctx"+svc, "done")
		return true, context.Canceled
	}
	return false, nil
}

// begin starts serving.
func (d *srvDrv) begin() error {
	switch d.via {
	case "tcp":
		d.addr = loopAddr()
		ret := make(chan struct{})
		var ch <-chan error
		if d.errCh != nil {
			ch = d.errCh
		}
		go func() {
			err := srpc.Listen(d.ctx, d.addr, d.srv, ch)
			d.listenRet(err)
			close(ret)
		}()
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", d.addr)
			if err == nil {
				_ = c.Close()
				break
			}
			if i > 2000 {
				return err
			}
			time.Sleep(time.Millisecond)
		}
		var err error
		d.relay, err = newRelay(d.addr)
		if err != nil {
			return err
		}
		d.down = append(d.down, func() { _ = d.relay.lis.Close(); <-ret })
	case "listener":
		d.lis = newPipeListener()
		go func() { d.listenRet(srpc.AcceptMuxedListener(d.ctx, d.lis, d.srv, nil)) }()
		d.down = append(d.down, func() { _ = d.lis.Close() })
	case "http":
		d.lis = newPipeListener()
		d.path = []string{"", "/rpc", "/rpc/v1", "/"}[d.rng.Intn(4)]
		hs, err := srpc.NewHTTPServer(srpc.NewMux(d), d.path, nil)
		if err != nil {
			return err
		}
		server := &http.Server{Handler: hs, BaseContext: func(net.Listener) context.Context { return d.ctx }}
		go func() { _ = server.Serve(d.lis) }()
		d.down = append(d.down, func() { _ = server.Close() })
	}
	return nil
}

func (d *srvDrv) listenRet(err error) {
	switch {
	case err == context.Canceled:
		d.rec.tok("listen", "cancel")
	case err == d.cause && err != nil:
		d.rec.tok("listen", "cause")
	case err != nil:
		d.rec.tok("listen", "fail")
	default:
		d.rec.tok("listen", "returned without an error")
	}
}

// dialRaw makes a plain connection to the server.
func (d *srvDrv) dialRaw() (net.Conn, error) {
	if d.via == "tcp" {
		return net.Dial("tcp", d.addr)
	}
	return d.lis.dial(d.ctx)
}

func (d *srvDrv) connect(kind string) error {
	c := &srvConn{kind: kind}
	d.conns = append(d.conns, c)
	if d.via == "conn" {
		p, err := newMuxPair([]string{"yamux", "rwc"}[d.rng.Intn(2)], context.Background(), d.rng)
		if err != nil {
			return err
		}
		c.mc, c.client = p.cm, srpc.NewClientWithMuxedConn(p.cm)
		c.down = append(c.down, p.lose)
		go func() { _ = d.srv.AcceptMuxedConn(d.ctx, p.sm); _ = p.sm.Close() }()
		return nil
	}
	if kind == "wrongpath" {
		if d.path != "" && d.rng.Intn(2) == 0 {
			// a client of another path: not served
			path := []string{d.path + "x", d.path + "/x", "/x" + d.path, "/", strings.ToUpper(d.path) + "/", "/" + strings.Repeat("x", len(d.path)-1), d.path + "//"}[d.rng.Intn(7)]
			if path == d.path {
				path += "other"
			}
			tr := &http.Transport{DialContext: func(ctx context.Context, n, a string) (net.Conn, error) { return d.lis.dial(ctx) }}
			conn, _, err := websocket.Dial(context.Background(), "ws://verif"+path, &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}})
			c.down = append(c.down, tr.CloseIdleConnections)
			if err == nil {
				_ = conn.CloseNow()
				return fmt.Errorf("verif: the server of %q accepted a connection for %q", d.path, path)
			}
			return nil
		}
		// plain requests which are not for the rpc server
		nc, err := d.dialRaw()
		if err != nil {
			return err
		}
		c.raw = nc
		go func() { _, _ = io.Copy(io.Discard, nc) }()
		good := d.goodPath()
		_, err = nc.Write([]byte([]string{
			"GET /other HTTP/1.1\r\nHost: verif\r\n\r\n",
			"GET " + good + " HTTP/1.1\r\nHost: verif\r\n\r\n",
			"GET " + good + " HTTP/1.1\r\nHost: verif\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 99\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n",
		}[d.rng.Intn(3)]))
		return err
	}
	if kind != "good" {
		nc, err := d.dialRaw()
		if err != nil {
			return err
		}
		c.raw = nc
		if kind == "garbage" {
			go func() { _, _ = io.Copy(io.Discard, nc) }()
			b := make([]byte, 1+d.rng.Intn(3000))
			_, _ = d.rng.Read(b)
			if d.rng.Intn(2) == 0 {
				b = bytes.Repeat([]byte{0}, len(b))
			}
			go func() { _, _ = nc.Write(b) }()
		}
		return nil
	}
	switch d.via {
	case "tcp":
		cl, err := srpc.Dial(d.relay.lis.Addr().String())
		if err != nil {
			return err
		}
		<-d.relay.got
		d.relay.mu.Lock()
		x := d.relay.last
		d.relay.mu.Unlock()
		c.client = cl
		c.raw = x[1]
		c.down = append(c.down, func() { _ = x[0].Close(); _ = x[1].Close() })
	case "listener":
		nc, err := d.dialRaw()
		if err != nil {
			return err
		}
		c.raw = nc
		if d.rng.Intn(2) == 0 {
			c.mc, err = srpc.NewMuxedConn(nc, true, nil)
			if err == nil {
				c.client = srpc.NewClientWithMuxedConn(c.mc)
			}
		} else {
			c.client, err = srpc.NewClientWithConn(nc, true, srpc.NewYamuxConfig())
		}
		return err
	case "http":
		tr := &http.Transport{DialContext: func(ctx context.Context, n, a string) (net.Conn, error) {
			nc, err := d.lis.dial(ctx)
			c.raw = nc
			return nc, err
		}}
		conn, _, err := websocket.Dial(context.Background(), "ws://verif"+d.goodPath(), &websocket.DialOptions{HTTPClient: &http.Client{Transport: tr}})
		if err != nil {
			return err
		}
		cctx, ccancel := context.WithCancel(context.Background())
		if d.rng.Intn(2) == 0 {
			c.mc, err = srpc.NewWebSocketConn(cctx, conn, false, nil)
		} else {
			// any other client: yamux in binary messages
			c.mc, err = srpc.NewMuxedConn(websocket.NetConn(cctx, conn, websocket.MessageBinary), true, nil)
		}
		if err != nil {
			ccancel()
			return err
		}
		c.client = srpc.NewClientWithMuxedConn(c.mc)
		c.down = append(c.down, func() { ccancel(); tr.CloseIdleConnections(); _ = conn.CloseNow() })
	}
	return nil
}

// goodPath is a path which is served.
func (d *srvDrv) goodPath() string {
	if d.path == "" {
		return []string{"/rpc", "/", "/a/b"}[d.rng.Intn(3)]
	}
	return d.path
}

func (d *srvDrv) call(i int) { d.callAs(i, false) }

func (d *srvDrv) callAs(i int, late bool) {
	c := d.conns[i-1]
	data := make([]byte, sizeClasses[d.rng.Intn(len(sizeClasses))])
	_, _ = d.rng.Read(data)
	go func() {
		out := srpc.NewRawMessage(nil, true)
		err := c.client.ExecCall(context.Background(), fmt.Sprint(i), "echo", srpc.NewRawMessage(data, true), out)
		r := "ok"
		if err != nil {
			r = "error " + err.Error()
			if late {
				r = "failed"
			}
		} else if !bytes.Equal(out.GetData(), data) {
			r = "other data"
		}
		name := fmt.Sprintf("call%d", i)
		if late {
			name = "late"
		}
		d.rec.tok(name, r)
	}()
}

func (d *srvDrv) end(i int, abrupt bool) {
	c := d.conns[i-1]
	if tc, ok := c.raw.(*net.TCPConn); ok && abrupt {
		_ = tc.SetLinger(0)
	}
	if c.mc != nil && !abrupt {
		_ = c.mc.Close()
	}
	if c.raw != nil {
		_ = c.raw.Close()
	}
	for _, f := range c.down {
		f()
	}
	c.down = nil
}

// runServer replays a behaviour of Server.tla.
func runServer(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := &srvDrv{rng: rng, rec: &Rec{}, via: sc.Opt["via"], cause: errors.New("verif: stop cause")}
	var cancel context.CancelFunc
	d.ctx, cancel = context.WithCancel(context.Background())
	defer cancel()
	d.srv = srpc.NewServer(d)
	for _, st := range sc.Beh.Steps {
		if st.op() == "stop" && st.str(1) == "errch" || rng.Intn(2) == 0 {
			d.errCh = make(chan error, rng.Intn(2))
		}
	}
	if err := d.begin(); err != nil {
		return "setup: " + err.Error()
	}
	real := d.via == "tcp"
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "connect":
			go func() { d.rec.res("connect", d.connect(st.str(1))) }()
		case "call":
			d.call(st.num(1))
		case "late":
			d.callAs(st.num(1), true)
		case "callall":
			for _, o := range st.O {
				var k int
				_, _ = fmt.Sscanf(o.N, "call%d", &k)
				d.call(k)
			}
		case "open":
			n := st.num(1)
			c := d.conns[n-1]
			var cctx context.Context
			cctx, c.cancel = context.WithCancel(context.Background())
			go func() {
				strm, err := c.client.NewStream(cctx, fmt.Sprint(n), "hold", nil)
				if err != nil {
					d.rec.res("open", err)
					return
				}
				_ = strm.MsgRecv(srpc.NewRawMessage(nil, true))
			}()
		case "cancel":
			d.conns[st.num(1)-1].cancel()
		case "leave":
			d.end(st.num(1), false)
		case "break":
			d.end(st.num(1), true)
		case "junk":
			c := d.conns[st.num(1)-1]
			if c.mc == nil {
				break
			}
			go func() {
				s, err := c.mc.OpenStream(context.Background())
				if err != nil {
					return
				}
				b := make([]byte, 1+rng.Intn(100))
				_, _ = rng.Read(b)
				_, _ = s.Write(b)
				if rng.Intn(2) == 0 {
					_ = s.Close()
				} else {
					_ = s.Reset()
				}
			}()
		case "stop":
			switch st.str(1) {
			case "ctx", "base":
				cancel()
			case "errch":
				go func() { d.errCh <- d.cause }()
			case "close":
				_ = d.lis.Close()
			}
		case "refused":
			c, err := net.DialTimeout("tcp", d.addr, 5*time.Second)
			r := "yes"
			if err == nil {
				_ = c.Close()
				r = "still accepting connections"
			}
			d.rec.tok("refused", r)
		case "dialfail":
			_, err := srpc.Dial(loopAddr())
			d.rec.res("dialfail", err)
		case "inuse":
			err := srpc.Listen(d.ctx, d.addr, d.srv, nil)
			d.rec.res("inuse", err)
		default:
			return "unknown op " + st.String()
		}
		d.settle(real, len(st.O))
		if p := compare(st.O, d.rec.take(), ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
	}
	if fail == "" {
		if real {
			time.Sleep(500 * time.Microsecond)
		} else {
			synctest.Wait()
		}
		if g := d.rec.take(); len(g) > 0 {
			fail = fmt.Sprintf("after the last step: unexpected %v", g)
		}
	}
	cancel()
	for i := range d.conns {
		if d.conns[i].cancel != nil {
			d.conns[i].cancel()
		}
		d.end(i+1, false)
	}
	for _, f := range d.down {
		f()
	}
	if !real {
		synctest.Wait()
	}
	return fail
}

// settle waits until nothing moves any more, or (real network) until
// everything expected was seen.
func (d *srvDrv) settle(real bool, want int) {
	if !real {
		synctest.Wait()
		return
	}
	t0 := time.Now()
	for time.Since(t0) < 10*time.Second {
		d.rec.mu.Lock()
		n := len(d.rec.got)
		d.rec.mu.Unlock()
		if n >= want {
			time.Sleep(100 * time.Microsecond)
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func init() {
	suites["server"] = suite{run: runServer, bubble: true}
	suites["servertcp"] = suite{run: runServer}
}
