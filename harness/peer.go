package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
)

// rawPeer is the misbehaving end of a call: it writes frames by itself.
type rawPeer struct {
	write  func(p []byte) error
	fin    func() // end of stream
	lost   func() // the stream or connection fails
	closed func() // peer closes everything
	out    *frameLog
}

// frameLog reads what the endpoint under test writes.
type frameLog struct {
	mu   sync.Mutex
	pkts []*srpc.Packet
}

func (l *frameLog) pump(r io.Reader, rec *Rec) {
	var hdr [4]byte
	for {
		if _, err := io.ReadFull(r, hdr[:]); err != nil {
			rec.tok("wend", "fin")
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(hdr[:]))
		if _, err := io.ReadFull(r, b); err != nil {
			rec.tok("wend", "torn")
			return
		}
		p := &srpc.Packet{}
		if err := p.UnmarshalVT(b); err != nil {
			rec.tok("wend", "garbage")
			return
		}
		if err := p.Validate(); err != nil {
			rec.tok("wend", "invalid")
			return
		}
		l.mu.Lock()
		l.pkts = append(l.pkts, p)
		l.mu.Unlock()
	}
}

func frame(b []byte) []byte {
	out := make([]byte, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	copy(out[4:], b)
	return out
}

func pktFrame(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		panic(err)
	}
	return frame(b)
}

// garbage returns bytes which are not a packet.
func garbage(rng *rand.Rand) []byte {
	for {
		var b []byte
		switch rng.Intn(4) {
		case 3: // a whole packet with something behind it
			switch rng.Intn(4) {
			case 0:
				b, _ = srpc.NewCallStartPacket("svc", "method", make([]byte, rng.Intn(50)), false).MarshalVT()
			case 1:
				b, _ = srpc.NewCallCancelPacket().MarshalVT()
			default:
				b, _ = srpc.NewCallDataPacket(make([]byte, 1+rng.Intn(30)), false, rng.Intn(3) == 0, nil).MarshalVT()
			}
			tail := make([]byte, 1+rng.Intn(4))
			rng.Read(tail)
			b = append(b, tail...)
		case 0:
			b = make([]byte, 1+rng.Intn(40))
			rng.Read(b)
		case 1: // truncated packet
			b, _ = srpc.NewCallDataPacket(make([]byte, 1+rng.Intn(300)), false, rng.Intn(2) == 0, nil).MarshalVT()
			b = b[:1+rng.Intn(len(b)-1)]
		case 2: // damaged packet
			b, _ = srpc.NewCallStartPacket("svc", "method", make([]byte, rng.Intn(50)), false).MarshalVT()
			b[rng.Intn(len(b))] ^= byte(1 + rng.Intn(255))
		}
		p := &srpc.Packet{}
		if p.UnmarshalVT(b) != nil {
			return b
		}
	}
}

// peerDrv replays a behaviour of Peer.tla.
type peerDrv struct {
	rng     *rand.Rand
	rec     *Rec
	svc     string
	method  string
	errText string
	seed    int64
	peer    *rawPeer
	strm    srpc.Stream
	client  srpc.Client
	ctx     context.Context
	cancel  context.CancelFunc
	retCh   chan error
	mu      sync.Mutex
	ret     bool
	started int
	sent    []int // messages injected, in order
	recvd   int
	probs   []string
}

func (d *peerDrv) payload(m int, empty bool) []byte {
	if empty {
		return nil
	}
	h := hash64(d.seed, int64(m), 99)
	n := 1 + int(h>>8)%50
	if h%5 == 0 {
		n = sizeClasses[int(h>>8)%len(sizeClasses)]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(int(h) + i*7)
	}
	return b
}

// InvokeMethod is the handler.
func (d *peerDrv) InvokeMethod(serviceID, methodID string, strm srpc.Stream) (bool, error) {
	if serviceID == "bystander" {
		return true, bystander(strm)
	}
	d.mu.Lock()
	d.started++
	n := d.started
	if serviceID != d.svc || methodID != d.method {
		d.probs = append(d.probs, fmt.Sprintf("handler invoked for %q %q, want %q %q", serviceID, methodID, d.svc, d.method))
	}
	if n == 1 {
		d.strm = strm
	}
	d.mu.Unlock()
	if n > 1 {
		d.rec.tok("hstart", "again")
		return true, nil
	}
	d.rec.res("hstart", nil)
	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-strm.Context().Done():
			d.mu.Lock()
			ret := d.ret
			d.mu.Unlock()
			if !ret {
				d.rec.tok("hctx", "done")
			}
		case <-done:
		}
	}()
	return true, <-d.retCh
}

// bystander echoes messages.
func bystander(strm srpc.Stream) error {
	for {
		m := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(m); err != nil {
			if err == io.EOF {
				return nil
			}
			return err
		}
		if err := strm.MsgSend(m); err != nil {
			return err
		}
	}
}

// bytesOf returns the bytes that stand for the injected packet.
func (d *peerDrv) bytesOf(k string, m int) []byte {
	data := d.payload(m, k == "empty" || k == "startE" || k == "emptycomp")
	if m > 0 {
		d.sent = append(d.sent, m)
	}
	cd := func(c *srpc.CallData) []byte { return pktFrame(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: c}}) }
	zero := len(data) == 0
	switch k {
	case "start0":
		return pktFrame(srpc.NewCallStartPacket(d.svc, d.method, nil, false))
	case "startE", "startD":
		return pktFrame(srpc.NewCallStartPacket(d.svc, d.method, data, zero))
	case "nosvc":
		return pktFrame(srpc.NewCallStartPacket("", d.method, []byte("x"), false))
	case "nometh":
		return pktFrame(srpc.NewCallStartPacket(d.svc, "", nil, false))
	case "msg", "empty":
		return cd(&srpc.CallData{Data: data, DataIsZero: zero})
	case "comp":
		return cd(&srpc.CallData{Complete: true})
	case "msgcomp", "emptycomp":
		return cd(&srpc.CallData{Data: data, DataIsZero: zero, Complete: true})
	case "err":
		return cd(&srpc.CallData{Error: d.errText, Complete: d.rng.Intn(2) == 0})
	case "msgerr":
		return cd(&srpc.CallData{Data: data, DataIsZero: zero, Error: d.errText, Complete: d.rng.Intn(2) == 0})
	case "cancel":
		return pktFrame(srpc.NewCallCancelPacket())
	case "nocancel":
		return pktFrame(&srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: false}})
	case "nil":
		return cd(&srpc.CallData{})
	case "unknown": // only an unknown field
		return frame([]byte{0x7a, 0x03, 'a', 'b', 'c'})
	case "garbage":
		return frame(garbage(d.rng))
	case "zerolen":
		return append([]byte{0, 0, 0, 0}, pktFrame(srpc.NewCallCancelPacket())...)
	case "oversize":
		b := make([]byte, 4, 40)
		n := uint32(10000001)
		switch d.rng.Intn(4) {
		case 0:
			n = 0xffffffff
		case 1:
			n = 0x80000000 + uint32(d.rng.Intn(1000))
		case 2:
			n += uint32(d.rng.Intn(1000000))
		}
		binary.LittleEndian.PutUint32(b, n)
		return append(b, "some more bytes"[:d.rng.Intn(15)]...)
	case "torn":
		b := pktFrame(srpc.NewCallDataPacket(d.payload(77, false), false, false, nil))
		return b[:1+d.rng.Intn(len(b)-1)]
	}
	panic("unknown packet " + k)
}

// writeAll writes to the endpoint, sometimes in pieces.
func (d *peerDrv) writeAll(b []byte) {
	if d.rng.Intn(3) != 0 {
		_ = d.peer.write(b)
		return
	}
	for len(b) > 0 {
		n := 1 + d.rng.Intn(len(b))
		if d.rng.Intn(2) == 0 {
			n = 1 + d.rng.Intn(min(len(b), 5))
		}
		if d.peer.write(b[:n]) != nil {
			return
		}
		b = b[n:]
	}
}

func (d *peerDrv) do(st Step) {
	switch st.op() {
	case "open":
		if st.str(1) == "unary" {
			go func() {
				out := srpc.NewRawMessage(nil, true)
				err := d.client.ExecCall(d.ctx, d.svc, d.method, srpc.NewRawMessage([]byte("req"), true), out)
				d.got("cexec", out.GetData(), err)
			}()
			return
		}
		go func() {
			strm, err := d.client.NewStream(d.ctx, d.svc, d.method, nil)
			d.strm = strm
			d.rec.res("open", err)
		}()
	case "inj":
		switch k := st.str(1); k {
		case "fin":
			d.peer.fin()
		case "lost":
			d.peer.lost()
		case "torn":
			_ = d.peer.write(d.bytesOf(k, 0))
			synctest.Wait()
			d.peer.fin()
		default:
			d.writeAll(d.bytesOf(k, st.num(2)))
		}
	case "inj2":
		b := d.bytesOf(st.str(1), st.num(2))
		b = append(b, d.bytesOf(st.str(3), st.num(4))...)
		if d.rng.Intn(2) == 0 {
			_ = d.peer.write(b)
		} else {
			d.writeAll(b)
		}
	case "recv":
		strm := d.strm
		go func() {
			m := srpc.NewRawMessage(nil, true)
			err := strm.MsgRecv(m)
			d.got("recv", m.GetData(), err)
		}()
	case "send":
		go func() { d.rec.res("send", d.strm.MsgSend(srpc.NewRawMessage([]byte("out"), true))) }()
	case "half":
		go func() { d.rec.res("half", d.strm.CloseSend()) }()
	case "close":
		go func() { d.rec.res("close", d.strm.Close()) }()
	case "cancel":
		d.cancel()
	case "ret", "fail":
		var err error
		if st.op() == "fail" {
			err = errors.New("handler failed")
		}
		d.setRet(err)
	default:
		panic("unknown op " + st.String())
	}
}

func (d *peerDrv) setRet(err error) {
	d.mu.Lock()
	d.ret = true
	d.mu.Unlock()
	d.retCh <- err
}

// got records a received message, checked against what was injected.
func (d *peerDrv) got(name string, data []byte, err error) {
	if err != nil {
		d.rec.res(name, err)
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.recvd >= len(d.sent) {
		d.rec.add(Got{Name: name, Kind: "bogus", Detail: fmt.Sprintf("message %.40x was never sent", data)})
		return
	}
	m := d.sent[d.recvd]
	d.recvd++
	want := d.payload(m, false)
	if string(data) != string(want) && len(data) != 0 {
		d.rec.add(Got{Name: name, Kind: "wrong", Detail: fmt.Sprintf("got %.40x want %.40x", data, want)})
		return
	}
	d.rec.add(Got{Name: name, Kind: "msg"})
}

// runPeer replays one behaviour of Peer.tla; opt side=server|client.

// onewayRwc is a stream of which closing ends the sending direction only
// (as the stream of an rpc stream): reads go on until the peer ends it.
type onewayRwc struct {
	*rwEnd
	out *wire
}

func (o onewayRwc) Close() error {
	o.out.closeWrite()
	return nil
}

func runPeer(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := &peerDrv{rng: rng, rec: &Rec{}, seed: sc.Seed, retCh: make(chan error, 1)}
	d.svc, d.method = randID(rng), randID(rng)
	if d.svc == "bystander" {
		d.svc = "x"
	}
	d.errText = errTexts[rng.Intn(len(errTexts)-1)] // not the empty text
	d.ctx, d.cancel = context.WithCancel(context.Background())
	defer d.cancel()
	srv := srpc.NewServer(d)
	d.peer = &rawPeer{out: &frameLog{}}
	server := sc.Opt["side"] == "server"
	var down func()
	var bclient srpc.Client // for bystander calls on the same connection
	sctx, scancel := context.WithCancel(context.Background())
	defer scancel()
	switch sc.Opt["world"] {
	case "mem", "oneway":
		a, b, ab, ba := newDuplex(false, rng, []int{0, 0, 1, 7}[rng.Intn(4)])
		d.peer.write = func(p []byte) error { _, err := a.Write(p); return err }
		d.peer.fin = ab.closeWrite
		d.peer.lost = func() { e := lossError(rng); ab.fail(e); ba.fail(e) }
		d.peer.closed = func() { _ = a.Close() }
		start := func() { go d.peer.out.pump(a, d.rec) }
		if server {
			if sc.Opt["world"] == "oneway" {
				go srv.HandleStream(sctx, onewayRwc{b, ba})
			} else {
				go srv.HandleStream(sctx, b)
			}
			start()
		} else {
			d.client = srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
				prw := srpc.NewPacketReadWriter(b)
				go prw.ReadPump(mh, ch)
				start()
				return prw, nil
			})
		}
		down = func() { ab.fail(errLost); ba.fail(errLost) }
	case "yamux", "rwc":
		p, err := newMuxPair(sc.Opt["world"], context.Background(), rng)
		if err != nil {
			return err.Error()
		}
		use := func(ms network.MuxedStream) {
			d.peer.write = func(p []byte) error {
				_ = ms.SetWriteDeadline(time.Now().Add(10 * time.Second))
				_, err := ms.Write(p)
				return err
			}
			d.peer.fin = func() { _ = ms.CloseWrite() }
			d.peer.lost = func() { _ = ms.Reset() }
			d.peer.closed = func() { _ = ms.Close() }
			go d.peer.out.pump(ms, d.rec)
		}
		if server {
			go func() { _ = srv.AcceptMuxedConn(sctx, p.sm) }()
			ms, err := p.cm.OpenStream(context.Background())
			if err != nil {
				return err.Error()
			}
			use(ms)
			bclient = srpc.NewClientWithMuxedConn(p.cm)
		} else {
			first := true
			go func() {
				for {
					ms, err := p.sm.AcceptStream()
					if err != nil {
						return
					}
					if first {
						first = false
						use(ms)
					} else {
						go srv.HandleStream(sctx, ms)
					}
				}
			}()
			d.client = srpc.NewClientWithMuxedConn(p.cm)
			bclient = d.client
		}
		down = p.lose
	default:
		return "unknown world"
	}
	synctest.Wait()
	var by srpc.Stream
	byStep := func() string { return "" }
	openBy := func() string {
		if bclient == nil {
			return ""
		}
		var err error
		by, err = bclient.NewStream(context.Background(), "bystander", "m", nil)
		if err != nil {
			return "bystander call could not be opened: " + err.Error()
		}
		n := 0
		byStep = func() string {
			n++
			done := make(chan string, 1)
			go func() {
				if err := by.MsgSend(srpc.NewRawMessage([]byte{byte(n)}, true)); err != nil {
					done <- "bystander send: " + err.Error()
					return
				}
				m := srpc.NewRawMessage(nil, true)
				if err := by.MsgRecv(m); err != nil {
					done <- "bystander receive: " + err.Error()
				} else if len(m.GetData()) != 1 || m.GetData()[0] != byte(n) {
					done <- fmt.Sprintf("bystander received %x want %x", m.GetData(), n)
				} else {
					done <- ""
				}
			}()
			synctest.Wait()
			select {
			case s := <-done:
				return s
			default:
				return "another call on the connection is stuck"
			}
		}
		return byStep()
	}
	fail := ""
	if server {
		fail = openBy()
	}
	for i, st := range sc.Beh.Steps {
		if fail != "" {
			break
		}
		pause(rng, "mem")
		d.do(st)
		synctest.Wait()
		if op := st.op(); op == "ret" || op == "fail" {
			if d.strm.Context().Err() != nil {
				d.rec.tok("hend", "done")
			} else {
				d.rec.tok("hend", "live")
			}
		}
		got := d.rec.take()
		if w := sc.Opt["world"]; w != "mem" && w != "oneway" {
			got = dropWend(got)
			st.O = dropWendObs(st.O)
		} else if st.op() == "inj" && st.str(1) == "lost" {
			got, st.O = dropWend(got), dropWendObs(st.O)
		}
		if p := compare(st.O, got, d.errText); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
		if by == nil && !server {
			fail = openBy()
		} else if i%3 == 2 {
			fail = byStep()
		}
	}
	d.mu.Lock()
	if fail == "" && len(d.probs) > 0 {
		fail = d.probs[0]
	}
	d.mu.Unlock()
	if fail == "" {
		fail = byStep()
	}
	if fail == "" && bclient != nil {
		// new calls keep working
		out := srpc.NewRawMessage(nil, true)
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		if err := bclient.ExecCall(ctx, "bystander", "m", srpc.NewRawMessage([]byte("q"), true), out); err != nil || string(out.GetData()) != "q" {
			fail = fmt.Sprintf("new call on the connection afterwards: %v %q", err, out.GetData())
		}
		cancel()
	}
	// end
	if by != nil {
		_ = by.Close()
	}
	d.cancel()
	if d.peer.closed != nil {
		d.peer.closed()
	}
	d.mu.Lock()
	need := d.started > 0 && !d.ret
	d.mu.Unlock()
	if need {
		d.setRet(nil)
	}
	synctest.Wait()
	down()
	scancel()
	synctest.Wait()
	return fail
}

// over a muxer the moment the peer sees the end of the stream is the muxer's business
func dropWend(g []Got) []Got {
	var out []Got
	for _, x := range g {
		if x.Name != "wend" || x.Kind != "fin" {
			out = append(out, x)
		}
	}
	return out
}

func dropWendObs(o []Obs) []Obs {
	var out []Obs
	for _, x := range o {
		if x.N != "wend" {
			out = append(out, x)
		}
	}
	return out
}

func init() { suites["peer"] = suite{run: runPeer, bubble: true} }
