package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

func init() { suites["echo"] = suite{run: runEcho, bubble: true} }

// runEcho replays a behaviour of Echo.tla on the reference services.
func runEcho(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	body := func(i, v int) string {
		if v == 0 {
			return ""
		}
		return fmt.Sprintf("message %d %s", i, strings.Repeat("x", []int{0, 1, 200, 5000}[hash64(sc.Seed, int64(i))%4]))
	}
	var mockMu sync.Mutex
	mockRes := "nil"
	mux := srpc.NewMux()
	inner := srpc.NewMux()
	_ = echo.NewEchoServer(nil).Register(inner)
	bare := srpc.NewMux()
	mock := &e2e_mock.MockServer{}
	if echo.NewEchoServer(inner).Register(mux) != nil || mock.Register(mux) != nil || echo.NewEchoServer(nil).Register(bare) != nil {
		return "register failed"
	}
	w, err := newWorld(sc.Opt["world"], mux, rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	w2, err := newWorld("pipe", bare, rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	ctx := context.Background()
	sctx, cancel := context.WithCancel(ctx)
	cl := echo.NewSRPCEchoerClient(w.client)
	bareCl := echo.NewSRPCEchoerClient(w2.client)
	mcl := e2e_mock.NewSRPCMockClient(w.client)
	result := func(name, got, want string, err error) {
		switch {
		case err == io.EOF:
			rec.tok(name, "eof")
		case errors.Is(err, context.Canceled):
			rec.tok(name, "context canceled")
		case err != nil:
			rec.tok(name, err.Error())
		case got == "hello from server" && want == "hello from server":
			rec.tok(name, "hello")
		case got == want:
			rec.tok(name, "same")
		default:
			rec.tok(name, fmt.Sprintf("got %.40q want %.40q", got, want))
		}
	}
	get := func(m *echo.EchoMsg, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return m.GetBody(), nil
	}
	var ss echo.SRPCEchoer_EchoServerStreamClient
	var cs echo.SRPCEchoer_EchoClientStreamClient
	var bs echo.SRPCEchoer_EchoBidiStreamClient
	var kind, req string
	var sent []string
	nrecv := 0
	n := 0
	fail := ""
	for i, st := range sc.Beh.Steps {
		n++
		b := body(n, st.num(1))
		switch st.op() {
		case "exec":
			go func() {
				r, err := get(cl.Echo(ctx, &echo.EchoMsg{Body: b}))
				result("exec", r, b, err)
			}()
		case "nothing":
			go func() {
				_, err := cl.DoNothing(ctx, &emptypb.Empty{})
				result("nothing", "", "", err)
			}()
		case "mock":
			mockMu.Lock()
			mockRes = st.str(1)
			mockMu.Unlock()
			if mockRes == "nil" {
				mock.MockRequestCb = nil
			} else {
				mock.MockRequestCb = func(ctx context.Context, m *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
					mockMu.Lock()
					defer mockMu.Unlock()
					if mockRes == "err" {
						return nil, errors.New("callback failed")
					}
					return &e2e_mock.MockMsg{Body: m.GetBody() + "!"}, nil
				}
			}
			go func() {
				m, err := mcl.MockRequest(ctx, &e2e_mock.MockMsg{Body: b})
				r := ""
				if err == nil {
					r = m.GetBody()
				}
				result("mock", r, b+"!", err)
			}()
		case "rpc":
			b = body(n, st.num(2))
			c := cl
			ack := rng.Intn(2) == 0
			if st.str(1) == "none" {
				// the reason is promised only to a caller which waits for it
				c, ack = bareCl, true
			}
			go func() {
				ncl := rpcstream.NewRpcStreamClient(c.RpcStream, "component", ack)
				r, err := get(echo.NewSRPCEchoerClient(ncl).Echo(ctx, &echo.EchoMsg{Body: b}))
				if err != nil && strings.HasSuffix(err.Error(), "not implemented") {
					err = errors.New("not implemented")
				}
				result("rpc", r, b, err)
			}()
		case "open":
			kind = st.str(1)
			req = body(n, st.num(2))
			var err error
			switch kind {
			case "s":
				ss, err = cl.EchoServerStream(sctx, &echo.EchoMsg{Body: req})
			case "c":
				cs, err = cl.EchoClientStream(sctx)
			case "b":
				bs, err = cl.EchoBidiStream(sctx)
			}
			if err != nil {
				fail = "open: " + err.Error()
			}
			synctest.Wait()
			time.Sleep(50 * time.Millisecond)
		case "tick":
			time.Sleep(200 * time.Millisecond)
		case "send":
			sent = append(sent, b)
			var err error
			if kind == "c" {
				req = b
				err = cs.Send(&echo.EchoMsg{Body: b})
			} else {
				err = bs.Send(&echo.EchoMsg{Body: b})
			}
			if err != nil {
				fail = "send: " + err.Error()
			}
		case "half":
			var err error
			if kind == "c" {
				err = cs.CloseSend()
			} else {
				err = bs.CloseSend()
			}
			if err != nil {
				fail = "half-close: " + err.Error()
			}
		case "recv":
			if kind == "s" {
				go func() {
					r, err := get(ss.Recv())
					result("recv", r, req, err)
				}()
				break
			}
			want := "hello from server"
			if nrecv > 0 && nrecv <= len(sent) {
				want = sent[nrecv-1]
			}
			i := nrecv
			nrecv++
			go func() {
				r, err := get(bs.Recv())
				if i > 0 {
					if want = ""; i <= len(sent) {
						want = sent[i-1]
					}
				}
				result("recv", r, want, err)
			}()
		case "car":
			go func() {
				r, err := get(cs.CloseAndRecv())
				result("car", r, req, err)
			}()
		case "cancel":
			cancel()
		}
		synctest.Wait()
		if fail == "" {
			fail = compare(st.O, rec.take(), "")
		}
		if fail != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, fail)
			break
		}
	}
	cancel()
	synctest.Wait()
	time.Sleep(3 * time.Second)
	w.down()
	w2.down()
	synctest.Wait()
	return fail
}
