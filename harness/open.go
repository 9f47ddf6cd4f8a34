package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
)

func init() { suites["open"] = suite{run: runOpen, bubble: true} }

// lateConn cancels the caller's context at the moment a stream is opened.
type lateConn struct {
	network.MuxedConn
	mu     sync.Mutex
	late   context.CancelFunc
	closed func()
}

func (c *lateConn) OpenStream(ctx context.Context) (network.MuxedStream, error) {
	s, err := c.MuxedConn.OpenStream(ctx)
	c.mu.Lock()
	late, closed := c.late, c.closed
	c.late, c.closed = nil, nil
	c.mu.Unlock()
	if err != nil || late == nil {
		return s, err
	}
	late()
	return &lateStream{MuxedStream: s, closed: closed}, nil
}

type lateStream struct {
	network.MuxedStream
	once   sync.Once
	closed func()
}

func (s *lateStream) Close() error {
	s.once.Do(s.closed)
	return s.MuxedStream.Close()
}

func (s *lateStream) Reset() error {
	s.once.Do(s.closed)
	return s.MuxedStream.Reset()
}

// runOpen replays one behaviour of Open.tla: the harness accepts streams.
func runOpen(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	conf := srpc.NewYamuxConfig()
	conf.AcceptBacklog = sc.optInt("slots")
	var cm, sm network.MuxedConn
	var err error
	lose := func() {}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if sc.Opt["world"] == "rwc" {
		a, b, ab, ba := newDuplex(false, rng, []int{0, 3, 100}[rng.Intn(3)])
		if cm, err = srpc.NewMuxedConnWithRwc(ctx, a, true, conf); err == nil {
			sm, err = srpc.NewMuxedConnWithRwc(ctx, b, false, nil)
		}
		lose = func() { e := lossError(rng); ab.fail(e); ba.fail(e) }
	} else {
		a, b := net.Pipe()
		if cm, err = srpc.NewMuxedConn(a, true, conf); err == nil {
			sm, err = srpc.NewMuxedConn(b, false, nil)
		}
		lose = func() { _ = a.Close(); _ = b.Close() }
	}
	if err != nil {
		return "setup: " + err.Error()
	}
	svc := randID(rng)
	var mu sync.Mutex
	gone := map[string]bool{}
	srv := srpc.NewServer(srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
		mu.Lock()
		x := gone[m]
		gone[m] = true
		mu.Unlock()
		if s != svc {
			rec.tok("hstart"+m, "service "+s)
		} else if !x {
			rec.res("hstart"+m, nil)
		}
		msg := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		if len(msg.GetData()) == 3 {
			return true, strm.MsgSend(msg)
		}
		return true, nil
	}))
	lc := &lateConn{MuxedConn: cm}
	client := srpc.NewClientWithMuxedConn(lc)
	cancels := []context.CancelFunc{nil}
	begin := func(kind string, pre, late bool) {
		n := len(cancels)
		cctx, ccancel := context.WithCancel(context.Background())
		if rng.Intn(3) == 0 {
			cctx = newForeign(cctx)
		}
		cancels = append(cancels, ccancel)
		if pre {
			ccancel()
			synctest.Wait()
			mu.Lock()
			gone[fmt.Sprint(n)] = true
			mu.Unlock()
		}
		if late {
			mu.Lock()
			gone[fmt.Sprint(n)] = true
			mu.Unlock()
			lc.mu.Lock()
			lc.late = ccancel
			lc.closed = func() { rec.tok(fmt.Sprint("closed", n), "yes") }
			lc.mu.Unlock()
		}
		go func() {
			name := fmt.Sprint(n)
			if kind == "unary" {
				out := srpc.NewRawMessage(nil, true)
				err := client.ExecCall(cctx, svc, name, srpc.NewRawMessage([]byte("req"), false), out)
				if err == nil && string(out.GetData()) != "req" {
					rec.tok("exec"+name, fmt.Sprintf("response %q", out.GetData()))
					return
				}
				rec.res("exec"+name, err)
				return
			}
			strm, err := client.NewStream(cctx, svc, name, srpc.NewRawMessage([]byte("x"), false))
			if err == nil && late {
				// a context which ends later for others than for its owner
				rec.res("open"+name, strm.MsgRecv(srpc.NewRawMessage(nil, false)))
				return
			}
			rec.res("open"+name, err)
			if err == nil {
				rec.res("recv"+name, strm.MsgRecv(srpc.NewRawMessage(nil, false)))
			}
		}()
	}
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "open":
			begin(st.str(1), false, false)
		case "late":
			begin(st.str(1), false, true)
		case "precancel":
			begin(st.str(1), true, false)
		case "cancel":
			mu.Lock()
			gone[fmt.Sprint(st.num(1))] = true
			mu.Unlock()
			cancels[st.num(1)]()
		case "accept":
			strm, err := sm.AcceptStream()
			if err != nil {
				fail = "accept: " + err.Error()
				break
			}
			go srv.HandleStream(ctx, strm)
		case "lose":
			lose()
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if fail == "" {
			if p := compare(st.O, rec.take(), ""); p != "" {
				fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			}
		}
		if fail != "" {
			break
		}
	}
	if fail == "" {
		time.Sleep(47*time.Second + 123456789)
		synctest.Wait()
		if g := rec.take(); len(g) != 0 {
			fail = fmt.Sprintf("after the last step: unexpected %v", g)
		}
	}
	for _, c := range cancels[1:] {
		c()
	}
	lose()
	_ = cm.Close()
	_ = sm.Close()
	synctest.Wait()
	return fail
}
