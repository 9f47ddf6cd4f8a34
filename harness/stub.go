package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// codec converts between text and the messages of a method.
type codec[T any] struct {
	mk func(string) *T
	rd func(*T) string
}

var (
	cEcho = codec[echo.EchoMsg]{func(b string) *echo.EchoMsg { return &echo.EchoMsg{Body: b} }, (*echo.EchoMsg).GetBody}
	cMock = codec[e2e_mock.MockMsg]{func(b string) *e2e_mock.MockMsg { return &e2e_mock.MockMsg{Body: b} }, (*e2e_mock.MockMsg).GetBody}
	cRpc  = codec[rpcstream.RpcStreamPacket]{
		func(b string) *rpcstream.RpcStreamPacket {
			return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: []byte(b)}}
		},
		func(p *rpcstream.RpcStreamPacket) string { return string(p.GetData()) },
	}
	cEmpty = codec[emptypb.Empty]{func(string) *emptypb.Empty { return &emptypb.Empty{} }, func(*emptypb.Empty) string { return "" }}
)

func asMsg(v any) srpc.Message { return v.(srpc.Message) }

// stubCall is a stream of a generated client.
type stubCall struct {
	strm    srpc.Stream
	send    func(v int, body string) error
	sendNil func() error
	recv    func(v int) (string, error)
	car     func(v int) (string, error)
}

// stubSrv is a stream of a generated server.
type stubSrv struct {
	strm      srpc.Stream
	ctx       context.Context
	send      func(v int, body string) error
	sendClose func(msg bool, body string) error
	recv      func(v int) (string, error)
}

// stubMethod is a declared method with its generated client.
type stubMethod struct {
	kind, svc, name string
	inText, outText bool // the messages carry text
	exec            func(ctx context.Context, cc srpc.Client, sid, body string) (string, error)
	open            func(ctx context.Context, cc srpc.Client, sid, body string) (*stubCall, error)
}

// stubService is a declared service.
type stubService struct {
	id      string
	methods []*stubMethod
	handler func(impl *stubImpl, sid string) srpc.Handler
	reg     func(mux srpc.Mux, impl *stubImpl) error
}

var stubServices []*stubService

type cliRecv[O any] interface {
	Recv() (*O, error)
	RecvTo(*O) error
}
type cliSend[I any] interface{ Send(*I) error }
type cliCar[O any] interface{ CloseAndRecv() (*O, error) }

func recvOf[O any](strm srpc.Stream, out codec[O], x cliRecv[O]) func(v int) (string, error) {
	return func(v int) (string, error) {
		if v == 1 {
			m, err := x.Recv()
			if err != nil {
				if m != nil {
					return "", errors.New("verif: message and error")
				}
				return "", err
			}
			return out.rd(m), nil
		}
		m := new(O)
		var err error
		if v == 2 {
			err = x.RecvTo(m)
		} else {
			err = strm.MsgRecv(asMsg(m))
		}
		return out.rd(m), err
	}
}

func sendOf[I any](strm srpc.Stream, in codec[I], x cliSend[I]) func(v int, body string) error {
	return func(v int, body string) error {
		if v == 2 {
			return strm.MsgSend(asMsg(in.mk(body)))
		}
		return x.Send(in.mk(body))
	}
}

func isText[T any](c codec[T]) bool { return c.rd(c.mk("x")) == "x" }

func mU[I, O, C any](svc, name string, in codec[I], out codec[O], mk func(srpc.Client, string) C, call func(C, context.Context, *I) (*O, error)) *stubMethod {
	return &stubMethod{kind: "u", svc: svc, name: name, inText: isText(in), outText: isText(out),
		exec: func(ctx context.Context, cc srpc.Client, sid, body string) (string, error) {
			o, err := call(mk(cc, sid), ctx, in.mk(body))
			if err != nil {
				if o != nil {
					return "", errors.New("verif: message and error")
				}
				return "", err
			}
			return out.rd(o), nil
		}}
}

func mS[I, O, C any, S interface {
	srpc.Stream
	cliRecv[O]
}](svc, name string, in codec[I], out codec[O], mk func(srpc.Client, string) C, call func(C, context.Context, *I) (S, error)) *stubMethod {
	return &stubMethod{kind: "s", svc: svc, name: name, inText: isText(in), outText: isText(out),
		open: func(ctx context.Context, cc srpc.Client, sid, body string) (*stubCall, error) {
			x, err := call(mk(cc, sid), ctx, in.mk(body))
			if err != nil {
				return nil, err
			}
			return &stubCall{strm: x, recv: recvOf(x, out, cliRecv[O](x))}, nil
		}}
}

func mC[I, O, C any, S interface {
	srpc.Stream
	cliSend[I]
	cliCar[O]
}](svc, name string, in codec[I], out codec[O], mk func(srpc.Client, string) C, call func(C, context.Context) (S, error)) *stubMethod {
	return &stubMethod{kind: "c", svc: svc, name: name, inText: isText(in), outText: isText(out),
		open: func(ctx context.Context, cc srpc.Client, sid, body string) (*stubCall, error) {
			x, err := call(mk(cc, sid), ctx)
			if err != nil {
				return nil, err
			}
			c := &stubCall{strm: x, send: sendOf(x, in, cliSend[I](x)), sendNil: func() error { return x.Send(nil) }}
			c.car = func(v int) (string, error) {
				m := new(O)
				if y, ok := any(x).(interface{ CloseAndMsgRecv(*O) error }); ok && v == 2 {
					err := y.CloseAndMsgRecv(m)
					return out.rd(m), err
				}
				if v == 3 {
					if err := x.CloseSend(); err != nil {
						return "", err
					}
					err := x.MsgRecv(asMsg(m))
					return out.rd(m), err
				}
				m, err := x.CloseAndRecv()
				if err != nil {
					return "", err
				}
				return out.rd(m), nil
			}
			return c, nil
		}}
}

func mB[I, O, C any, S interface {
	srpc.Stream
	cliSend[I]
	cliRecv[O]
}](svc, name string, in codec[I], out codec[O], mk func(srpc.Client, string) C, call func(C, context.Context) (S, error)) *stubMethod {
	return &stubMethod{kind: "b", svc: svc, name: name, inText: isText(in), outText: isText(out),
		open: func(ctx context.Context, cc srpc.Client, sid, body string) (*stubCall, error) {
			x, err := call(mk(cc, sid), ctx)
			if err != nil {
				return nil, err
			}
			return &stubCall{strm: x, send: sendOf(x, in, cliSend[I](x)), sendNil: func() error { return x.Send(nil) },
				recv: recvOf(x, out, cliRecv[O](x))}, nil
		}}
}

// stubImpl is an implementation of every service.
type stubImpl struct {
	d   *stubDrv
	tag string
}

type srvSend[O any] interface {
	Send(*O) error
	SendAndClose(*O) error
}

func srvSendOf[O any](s *stubSrv, strm srpc.Stream, out codec[O], x srvSend[O]) {
	s.send = sendOf(strm, out, cliSend[O](x))
	s.sendClose = func(msg bool, body string) error {
		if !msg {
			return x.SendAndClose(nil)
		}
		return x.SendAndClose(out.mk(body))
	}
}

func sU[I, O any](i *stubImpl, svc, name string, in codec[I], out codec[O], ctx context.Context, req *I) (*O, error) {
	body := in.rd(req)
	r, err := i.d.serve(i, svc, name, &body, &stubSrv{ctx: ctx})
	if err != nil {
		return nil, err
	}
	return out.mk(r), nil
}

func sS[I, O any, S interface {
	srpc.Stream
	srvSend[O]
}](i *stubImpl, svc, name string, in codec[I], out codec[O], req *I, strm S) error {
	body := in.rd(req)
	s := &stubSrv{strm: strm, ctx: strm.Context()}
	srvSendOf(s, strm, out, srvSend[O](strm))
	s.recv = func(v int) (string, error) {
		m := new(I)
		err := strm.MsgRecv(asMsg(m))
		return in.rd(m), err
	}
	_, err := i.d.serve(i, svc, name, &body, s)
	return err
}

func sC[I, O any, S interface {
	srpc.Stream
	cliRecv[I]
}](i *stubImpl, svc, name string, in codec[I], out codec[O], strm S) (*O, error) {
	s := &stubSrv{strm: strm, ctx: strm.Context(), recv: recvOf(strm, in, cliRecv[I](strm))}
	r, err := i.d.serve(i, svc, name, nil, s)
	if err != nil {
		return nil, err
	}
	return out.mk(r), nil
}

func sB[I, O any, S interface {
	srpc.Stream
	cliRecv[I]
	srvSend[O]
}](i *stubImpl, svc, name string, in codec[I], out codec[O], strm S) error {
	s := &stubSrv{strm: strm, ctx: strm.Context(), recv: recvOf(strm, in, cliRecv[I](strm))}
	srvSendOf(s, strm, out, srvSend[O](strm))
	_, err := i.d.serve(i, svc, name, nil, s)
	return err
}

// implEcho serves echo.Echoer.
type implEcho struct{ *stubImpl }

const idEcho, idMock = "echo.Echoer", "e2e.mock.Mock"

func (i implEcho) Echo(ctx context.Context, m *echo.EchoMsg) (*echo.EchoMsg, error) {
	return sU(i.stubImpl, idEcho, "Echo", cEcho, cEcho, ctx, m)
}
func (i implEcho) EchoServerStream(m *echo.EchoMsg, s echo.SRPCEchoer_EchoServerStreamStream) error {
	return sS(i.stubImpl, idEcho, "EchoServerStream", cEcho, cEcho, m, s)
}
func (i implEcho) EchoClientStream(s echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	return sC(i.stubImpl, idEcho, "EchoClientStream", cEcho, cEcho, s)
}
func (i implEcho) EchoBidiStream(s echo.SRPCEchoer_EchoBidiStreamStream) error {
	return sB(i.stubImpl, idEcho, "EchoBidiStream", cEcho, cEcho, s)
}
func (i implEcho) RpcStream(s echo.SRPCEchoer_RpcStreamStream) error {
	return sB(i.stubImpl, idEcho, "RpcStream", cRpc, cRpc, s)
}
func (i implEcho) DoNothing(ctx context.Context, m *emptypb.Empty) (*emptypb.Empty, error) {
	return sU(i.stubImpl, idEcho, "DoNothing", cEmpty, cEmpty, ctx, m)
}

type implMock struct{ *stubImpl }

func (i implMock) MockRequest(ctx context.Context, m *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
	return sU(i.stubImpl, idMock, "MockRequest", cMock, cMock, ctx, m)
}

// newCli picks a constructor of a generated client.
func newCli[C any](dflt func(srpc.Client) C, with func(srpc.Client, string) C) func(srpc.Client, string) C {
	return func(cc srpc.Client, sid string) C {
		if sid == "default" {
			return dflt(cc)
		}
		return with(cc, sid)
	}
}

func init() {
	type E = echo.SRPCEchoerClient
	ec := newCli(echo.NewSRPCEchoerClient, echo.NewSRPCEchoerClientWithServiceID)
	stubServices = append(stubServices, &stubService{id: idEcho,
		methods: []*stubMethod{
			mU(idEcho, "Echo", cEcho, cEcho, ec, E.Echo),
			mS(idEcho, "EchoServerStream", cEcho, cEcho, ec, E.EchoServerStream),
			mC(idEcho, "EchoClientStream", cEcho, cEcho, ec, E.EchoClientStream),
			mB(idEcho, "EchoBidiStream", cEcho, cEcho, ec, E.EchoBidiStream),
			mB(idEcho, "RpcStream", cRpc, cRpc, ec, E.RpcStream),
			mU(idEcho, "DoNothing", cEmpty, cEmpty, ec, E.DoNothing),
		},
		handler: func(i *stubImpl, sid string) srpc.Handler { return echo.NewSRPCEchoerHandler(implEcho{i}, sid) },
		reg:     func(m srpc.Mux, i *stubImpl) error { return echo.SRPCRegisterEchoer(m, implEcho{i}) },
	})
	mc := newCli(e2e_mock.NewSRPCMockClient, e2e_mock.NewSRPCMockClientWithServiceID)
	stubServices = append(stubServices, &stubService{id: idMock,
		methods: []*stubMethod{mU(idMock, "MockRequest", cMock, cMock, mc, e2e_mock.SRPCMockClient.MockRequest)},
		handler: func(i *stubImpl, sid string) srpc.Handler { return e2e_mock.NewSRPCMockHandler(implMock{i}, sid) },
		reg:     func(m srpc.Mux, i *stubImpl) error { return e2e_mock.SRPCRegisterMock(m, implMock{i}) },
	})
	suites["stub"] = suite{run: runStub, bubble: true}
}

// slowClient lets everything else happen before the caller goes on.
type slowClient struct {
	srpc.Client
	slow bool
}

func (c *slowClient) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	s, err := c.Client.NewStream(ctx, svc, meth, first)
	if c.slow {
		time.Sleep(time.Millisecond)
	}
	return s, err
}

type stubDrv struct {
	seed    int64
	rng     *rand.Rand
	rec     *Rec
	cl      *slowClient
	svc     *stubService
	m       *stubMethod
	impls   [3]*stubImpl // default id, custom id, other
	sid     string       // as given to the client
	want    *stubImpl
	fast    *Step
	errText string
	ctx     context.Context
	cancel  context.CancelFunc

	mu       sync.Mutex
	srv      *stubSrv
	ret      chan Step
	hover    chan struct{} // the handler returns
	returned bool
	call     *stubCall
	nc, nh   int // sent by the caller / the handler
	rc, rh   int // received
}

func (d *stubDrv) body(dir, i int) string {
	if (dir == 1 && !d.m.inText) || (dir == 2 && !d.m.outText) {
		return ""
	}
	h := hash64(d.seed, int64(dir), int64(i))
	if h%9 == 0 {
		return ""
	}
	n := []int{0, 1, 20, 120, 128, 300, 5000, 70000}[h>>8%8]
	return fmt.Sprintf("%d.%d-%x-%s", dir, i, h, strings.Repeat("ä", n))
}

// serve is every handler.
func (d *stubDrv) serve(i *stubImpl, svc, name string, req *string, s *stubSrv) (string, error) {
	tok := "right"
	if d.m == nil || i != d.want || svc != d.svc.id || name != d.m.name {
		tok = fmt.Sprintf("wrong: %s of %s %s was called", name, svc, i.tag)
	} else if req != nil && *req != d.body(1, 1) {
		tok = fmt.Sprintf("wrong: request %.60q", *req)
	}
	d.rec.tok("hstart", tok)
	if d.fast != nil {
		n := d.fast.num(2)
		if d.m.kind == "s" || d.m.kind == "b" {
			for j := 1; j <= n; j++ {
				if err := s.send(1, d.body(2, j)); err != nil {
					d.rec.tok("hsend", err.Error())
				}
			}
		}
		d.mu.Lock()
		d.nh = n
		d.mu.Unlock()
		if d.fast.str(3) == "err" {
			return "", errValue(d.errText, int(d.seed>>5&0xff))
		}
		return d.body(2, 1), nil
	}
	d.mu.Lock()
	d.srv = s
	d.mu.Unlock()
	go func() {
		select {
		case <-s.ctx.Done():
			d.mu.Lock()
			over := d.returned
			d.mu.Unlock()
			if !over {
				d.rec.tok("hctx", "done")
			}
		case <-d.hover:
		}
	}()
	st := <-d.ret
	if st.str(1) == "err" {
		return "", errValue(d.errText, int(d.seed>>5&0xff))
	}
	return d.body(2, 1), nil
}

func (d *stubDrv) got(name string, want string, body string, err error) {
	if err != nil {
		d.rec.res(name, err)
	} else if body != want {
		d.rec.add(Got{Name: name, Kind: "wrong", Detail: fmt.Sprintf("got %.60q (%d bytes), want %.60q (%d)", body, len(body), want, len(want))})
	} else {
		d.rec.add(Got{Name: name, Kind: "msg"})
	}
}

// pick chooses a declared method of a kind and an implementation.
func (d *stubDrv) pick(kind string) {
	var l []*stubMethod
	var sl []*stubService
	for _, s := range stubServices {
		for _, m := range s.methods {
			if m.kind == kind {
				l, sl = append(l, m), append(sl, s)
			}
		}
	}
	i := d.rng.Intn(len(l))
	d.m, d.svc = l[i], sl[i]
	switch d.rng.Intn(4) {
	case 0:
		d.sid, d.want = "default", d.impls[0]
	case 1:
		d.sid, d.want = "", d.impls[0]
	case 2:
		d.sid, d.want = "custom/"+d.svc.id, d.impls[1]
	default:
		d.sid, d.want = d.svc.id, d.impls[0]
	}
}

func (d *stubDrv) do(st Step) string {
	v := st.num(1)
	switch st.op() {
	case "open", "openfast":
		d.pick(st.str(1))
		if st.op() == "openfast" {
			d.fast, d.cl.slow = &st, true
		}
		m := d.m
		if m.kind == "u" || m.kind == "s" {
			d.nc = 1
		}
		go func() {
			if m.kind == "u" {
				body, err := m.exec(d.ctx, d.cl, d.sid, d.body(1, 1))
				d.got("exec", d.body(2, 1), body, err)
				return
			}
			c, err := m.open(d.ctx, d.cl, d.sid, d.body(1, 1))
			d.mu.Lock()
			d.call = c
			d.mu.Unlock()
			d.rec.res("copen", err)
		}()
	case "unknown":
		svc := stubServices[d.rng.Intn(len(stubServices))]
		m := svc.methods[d.rng.Intn(len(svc.methods))]
		if v == 1 {
			name := m.name + "x"
			switch d.rng.Intn(3) {
			case 0:
				name = strings.ToUpper(m.name)
			case 1:
				name = "/" + m.name
			}
			if slices.ContainsFunc(svc.methods, func(x *stubMethod) bool { return x.name == name }) {
				name = "nothing"
			}
			go func() {
				d.rec.res("unknown", d.cl.ExecCall(d.ctx, svc.id, name, srpc.NewRawMessage([]byte{10, 1, 'x'}, true), srpc.NewRawMessage(nil, true)))
			}()
			return ""
		}
		// asked for another service
		h := svc.handler(d.impls[2], []string{"", svc.id, "custom"}[d.rng.Intn(3)])
		ok, err := h.InvokeMethod("other", m.name, nil)
		if ok || err != nil {
			return fmt.Sprintf("handler of %s accepted another service: %v %v", svc.id, ok, err)
		}
		ids := slices.Clone(h.GetMethodIDs())
		var want []string
		for _, m := range svc.methods {
			want = append(want, m.name)
		}
		slices.Sort(ids)
		slices.Sort(want)
		if !slices.Equal(ids, want) {
			return fmt.Sprintf("method ids of %s: %v, declared %v", svc.id, ids, want)
		}
		d.rec.res("unknown", srpc.ErrUnimplemented)
	case "csend":
		d.nc++
		b := d.body(1, d.nc)
		go func() { d.rec.res("csend", d.call.send(v, b)) }()
	case "csendnil":
		go func() { d.rec.res("csend", d.call.sendNil()) }()
	case "chalf":
		go func() { d.rec.res("chalf", d.call.strm.CloseSend()) }()
	case "crecv":
		go func() {
			b, err := d.call.recv(v)
			if err == nil {
				d.rc++
			}
			d.got("crecv", d.body(2, d.rc), b, err)
		}()
	case "car":
		go func() {
			b, err := d.call.car(v)
			d.got("car", d.body(2, 1), b, err)
		}()
	case "hsend":
		d.nh++
		b := d.body(2, d.nh)
		go func() { d.rec.res("hsend", d.srv.send(v, b)) }()
	case "hsc":
		if v > 0 {
			d.nh++
		}
		b := d.body(2, d.nh)
		go func() { d.rec.res("hsc", d.srv.sendClose(v > 0, b)) }()
	case "hrecv":
		go func() {
			b, err := d.srv.recv(v)
			if err == nil {
				d.rh++
			}
			want := d.rh
			if d.m.kind == "s" {
				want++
			}
			d.got("hrecv", d.body(1, want), b, err)
		}()
	case "ccancel":
		d.cancel()
	case "hret":
		d.mu.Lock()
		d.returned = true
		d.mu.Unlock()
		close(d.hover)
		d.ret <- st
	default:
		panic("unknown operation " + st.String())
	}
	return ""
}

func (d *stubDrv) can(st Step) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	switch st.op() {
	case "csend", "csendnil", "chalf", "crecv", "car":
		return d.call != nil
	case "hsend", "hsc", "hrecv", "hret":
		return d.srv != nil && !d.returned
	}
	return true
}

// runStub replays a behaviour of Stub.tla.
func runStub(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := &stubDrv{seed: sc.Seed, rng: rng, rec: &Rec{}, ret: make(chan Step, 1), hover: make(chan struct{}), errText: errTexts[rng.Intn(len(errTexts))]}
	d.ctx, d.cancel = context.WithCancel(context.Background())
	mux := srpc.NewMux()
	for i, tag := range []string{"default", "custom", "other"} {
		d.impls[i] = &stubImpl{d, tag}
	}
	for _, s := range stubServices {
		hs := []func() error{
			func() error {
				if rng.Intn(2) == 0 {
					return s.reg(mux, d.impls[0])
				}
				return mux.Register(s.handler(d.impls[0], []string{"", s.id}[rng.Intn(2)]))
			},
			func() error { return mux.Register(s.handler(d.impls[1], "custom/"+s.id)) },
		}
		rng.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		for _, f := range hs {
			if err := f(); err != nil {
				return "register: " + err.Error()
			}
		}
	}
	w, err := newWorld(sc.Opt["world"], mux, rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	d.cl = &slowClient{Client: w.client}
	synctest.Wait()
	fail := ""
	for i, st := range sc.Beh.Steps {
		if !d.can(st) {
			fail = fmt.Sprintf("step %d %s: not possible", i+1, st)
			break
		}
		p := d.do(st)
		synctest.Wait()
		if st.op() == "openfast" {
			time.Sleep(2 * time.Millisecond)
			synctest.Wait()
		}
		if p == "" {
			p = compare(st.O, d.rec.take(), d.errText)
		}
		if p != "" {
			name := ""
			if d.m != nil {
				name = d.m.svc + "." + d.m.name
			}
			fail = fmt.Sprintf("step %d %s (%s): %s", i+1, st, name, p)
			break
		}
	}
	d.cancel()
	synctest.Wait()
	d.mu.Lock()
	need := d.srv != nil && !d.returned
	d.mu.Unlock()
	if need {
		close(d.hover)
		d.ret <- Step{A: []any{"hret", "ok"}}
	}
	synctest.Wait()
	w.down()
	synctest.Wait()
	return fail
}
