package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

func init() {
	suites["flow"] = suite{run: runFlow, bubble: true}
	suites["muxhist"] = suite{run: runMuxHist}
}

// flowEnd is one end of a two-way stream.
type flowEnd struct {
	rw    io.ReadWriter
	half  func() error // nil: the end cannot end its direction alone
	close func() error
}

// flowOp is an operation of a recorded history, see Flow.tla.
type flowOp struct {
	K string `json:"k"`
	D int    `json:"d"`
	R string `json:"r"`
	N int    `json:"n"`
	// At lists the places of the stream a read may have come from (several readers)
	At []int `json:"at"`
}

type flowDrv struct {
	mu   sync.Mutex
	ops  []*flowOp
	log  [][]any
	bad  string
	seed int64
	busy int
}

func (d *flowDrv) invoke(k string, dir, n int) (int, *flowOp) {
	d.mu.Lock()
	defer d.mu.Unlock()
	o := &flowOp{K: k, D: dir, R: "none", N: n, At: []int{}}
	d.ops = append(d.ops, o)
	d.log = append(d.log, []any{"i", len(d.ops)})
	return len(d.ops), o
}

func (d *flowDrv) returned(i int, o *flowOp, r string, n int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	o.R = r
	if n >= 0 {
		o.N = n
	}
	d.log = append(d.log, []any{"r", i})
}

func (d *flowDrv) problem(f string, a ...any) {
	d.mu.Lock()
	if d.bad == "" {
		d.bad = fmt.Sprintf(f, a...)
	}
	d.mu.Unlock()
}

// flowByte is byte x of a direction.
func flowByte(seed int64, dir, x int) byte {
	return byte(hash64(seed, int64(dir), int64(x>>3)) >> (uint(x&7) * 8))
}

func flowBytes(seed int64, dir, at, n int) []byte {
	b := make([]byte, n)
	var h uint64
	last := -1
	for i := range b {
		x := at + i
		if x>>3 != last {
			last = x >> 3
			h = hash64(seed, int64(dir), int64(last))
		}
		b[i] = byte(h >> (uint(x&7) * 8))
	}
	return b
}

// unframe checks that b is made of whole writes (but for the last), each at most once.
func unframe(b []byte, writes [][]byte) string {
	left := map[int][]byte{}
	for i, w := range writes {
		left[i+1] = w
	}
	for len(b) >= 2 {
		w := left[int(b[0])|int(b[1])<<8]
		if w == nil {
			return fmt.Sprintf("%.24x is not the beginning of a write", b)
		}
		n := min(len(w), len(b))
		if !bytes.Equal(b[:n], w[:n]) {
			return fmt.Sprintf("the bytes of a write of %d bytes are not together or changed: %.24x", len(w), b)
		}
		delete(left, int(b[0])|int(b[1])<<8)
		b = b[n:]
	}
	return ""
}

// msgEnd makes messages look like a byte stream whose reads return a message.
type msgEnd struct {
	strm srpc.Stream
	keep bool // the stream keeps the buffer of a message sent with copy=false
}

func (m *msgEnd) Write(p []byte) (int, error) {
	if err := m.strm.MsgSend(srpc.NewRawMessage(p, m.keep || len(p)&1 == 0)); err != nil {
		return 0, err
	}
	return len(p), nil
}

func (m *msgEnd) Read(p []byte) (int, error) {
	msg := srpc.NewRawMessage(nil, true)
	if err := m.strm.MsgRecv(msg); err != nil {
		return 0, err
	}
	if len(msg.GetData()) > len(p) {
		return 0, errors.New("message longer than anything sent")
	}
	return copy(p, msg.GetData()), nil
}

// rpcEnd is a srpc.Stream of rpcstream packets.
type rpcEnd struct{ srpc.Stream }

func (r *rpcEnd) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }
func (r *rpcEnd) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := r.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// handover is a handler that hands its stream to the driver.
type handover struct {
	ch   chan srpc.Stream
	done chan struct{}
}

func (h *handover) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	h.ch <- strm
	<-h.done
	return true, nil
}

const flowMax = 1 << 17

// runFlow uses both ends of a stream from several goroutines at once and
// records the history.
func runFlow(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := &flowDrv{seed: sc.Seed, ops: []*flowOp{}, log: [][]any{}}
	var ends [2]*flowEnd
	sizes := []int{1, 2, 3, 8, 100, 511, 512, 513, 2047, 2048, 2049, 4096, 8192, 8193, 20000, 70000}
	down := func() {}
	// several goroutines write to or read from the same end
	writers, readers := 1, 1
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ofStream := func(a, b srpc.Stream, view string) {
		for i, s := range []srpc.Stream{a, b} {
			e := &flowEnd{half: s.CloseSend, close: s.Close}
			switch view {
			case "msgs":
				e.rw = &msgEnd{s, sc.Opt["world"] == "pipemsgs"}
			case "rrw":
				rw := rpcstream.NewRpcStreamReadWriter(&rpcEnd{s})
				e.rw, e.close = rw, rw.Close
			default:
				rw := srpc.NewStreamRwc(s)
				e.rw, e.close = rw, rw.Close
			}
			ends[i] = e
		}
	}
	switch world := sc.Opt["world"]; world {
	case "conn", "connpipe":
		var a, b io.ReadWriteCloser
		if world == "conn" {
			a, b, _, _ = newDuplex(false, rng, []int{0, 1, 7, 300}[rng.Intn(4)])
		} else {
			a, b = net.Pipe()
		}
		for i, x := range []io.ReadWriteCloser{a, b} {
			c := srpc.NewRwcConn(ctx, x, nil, nil, []int{0, 1, 2, 10}[rng.Intn(4)])
			ends[i] = &flowEnd{rw: c, close: c.Close}
		}
		down = func() { _ = a.Close(); _ = b.Close() }
		switch rng.Intn(4) {
		case 0:
			readers = 2 + rng.Intn(2)
		case 1:
			writers = 2
		}
		if readers > 1 {
			sizes = sizes[:11]
		} else if writers > 1 {
			sizes = sizes[1:]
		}
	case "pipe", "piperrw", "pipemsgs":
		a, b := srpc.NewPipeStream(ctx)
		ofStream(a, b, world[4:])
	default:
		// over a call
		view := []string{"rwc", "rrw", "msgs"}[rng.Intn(3)]
		h := &handover{ch: make(chan srpc.Stream), done: make(chan struct{})}
		raw := world == "raw"
		var inv srpc.Invoker = h
		var ta, tb *rwEnd
		if raw {
			world = []string{"yamux", "mem", "rwc", "rpc"}[rng.Intn(4)]
			chunk := []int{0, 1, 7, 300}[rng.Intn(4)]
			ta, tb, _, _ = newDuplex(false, rng, chunk)
			if chunk == 1 || chunk == 7 {
				// every chunk becomes a message
				sizes = sizes[:9]
			}
			mx := srpc.NewMux()
			_ = echo.SRPCRegisterEchoer(mx, &echoRpc{EchoServer: echo.NewEchoServer(nil), serve: func(strm rpcstream.RpcStream) error {
				return rpcstream.HandleRawRpcStream(strm, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
					return ta, func() {}, nil
				})
			}})
			inv = mx
		}
		w, err := newWorld(world, inv, rng)
		if err != nil {
			return "setup: " + err.Error()
		}
		down = func() {
			close(h.done)
			w.down()
			if raw {
				_ = ta.Close()
				_ = tb.Close()
			}
		}
		if raw {
			strm, err := rpcstream.OpenRpcStream(ctx, echo.NewSRPCEchoerClient(w.client).RpcStream, "x", true)
			if err != nil {
				return "setup: " + err.Error()
			}
			rw := rpcstream.NewRpcStreamReadWriter(strm)
			ends[0] = &flowEnd{rw: rw, close: rw.Close}
			ends[1] = &flowEnd{rw: tb, close: tb.Close}
		} else {
			strm, err := w.client.NewStream(ctx, "s", "m", nil)
			if err != nil {
				return "setup: " + err.Error()
			}
			ofStream(strm, <-h.ch, view)
			if view == "rwc" && rng.Intn(2) == 0 {
				// the other end is used message by message
				ends[rng.Intn(2)].half = nil
			}
		}
	}
	synctest.Wait()
	// one goroutine per direction and side, one for closing
	var wat, rat [3]int // written, read
	var halved [3]bool
	idle := [11]bool{}
	for i := range idle {
		idle[i] = true
	}
	var wmu sync.Mutex
	contents := map[*flowOp][]byte{} // of reads
	var stream [3][]byte             // as read by a single reader
	var frames [3][][]byte           // as written by several writers
	closed := false
	write := func(e *flowEnd, dir, n int) bool {
		wmu.Lock()
		at := wat[dir]
		wat[dir] += n
		buf := flowBytes(d.seed, dir, at, n)
		if writers > 1 {
			// no other write starts like this one
			x := len(frames[dir]) + 1
			buf[0], buf[1] = byte(x), byte(x>>8)
			frames[dir] = append(frames[dir], append([]byte(nil), buf...))
		}
		wmu.Unlock()
		i, o := d.invoke("w", dir, n)
		k, err := e.rw.Write(buf)
		for j := range buf {
			buf[j] ^= 0xa5
		}
		switch {
		case k < 0 || k > n || err == nil && k != n:
			d.problem("Write of %d bytes returned %d, %v", n, k, err)
		case err != nil:
			d.returned(i, o, "fail", -1)
		default:
			d.returned(i, o, "ok", -1)
			return true
		}
		// what comes after a failed write is not part of the stream
		halved[dir] = true
		return false
	}
	read := func(e *flowEnd, dir, size int) {
		buf := make([]byte, size+16)
		i, o := d.invoke("r", dir, 0)
		k, err := e.rw.Read(buf[:size:size])
		if k < 0 || k > size || len(bytes.Trim(buf[size:], "\x00")) != 0 {
			d.problem("Read into %d bytes returned %d, wrote beyond: %v", size, k, len(bytes.Trim(buf[size:], "\x00")) != 0)
			return
		}
		switch {
		case readers > 1:
			wmu.Lock()
			contents[o] = buf[:k]
			wmu.Unlock()
		case writers > 1:
			stream[dir] = append(stream[dir], buf[:k]...)
		case k > 0 && !bytes.Equal(buf[:k], flowBytes(d.seed, dir, rat[dir], k)):
			d.problem("direction %d: %d bytes read at %d are not those written there: %.24x", dir, k, rat[dir], buf[:k])
		}
		wmu.Lock()
		rat[dir] += k
		wmu.Unlock()
		if k > 0 {
			d.returned(i, o, "ok", k)
			return
		}
		switch err {
		case nil:
			d.problem("Read returned 0, nil")
		case io.EOF:
			d.returned(i, o, "eof", 0)
		default:
			d.returned(i, o, "fail", 0)
		}
	}
	spawn := func(t int, f func()) {
		d.mu.Lock()
		idle[t] = false
		d.mu.Unlock()
		go func() {
			f()
			d.mu.Lock()
			idle[t] = true
			d.mu.Unlock()
		}()
	}
	phases := 1 + rng.Intn(3)
	for ph := 0; ph < phases; ph++ {
		last := ph == phases-1
		for side, e := range ends {
			out, in := side+1, 2-side
			for w := 0; w < writers; w++ {
				slot := side
				if w > 0 {
					slot = 5 + side
				}
				d.mu.Lock()
				wok := idle[slot]
				d.mu.Unlock()
				if !wok || halved[out] || rng.Intn(4) == 0 {
					continue
				}
				var ns []int
				for k := rng.Intn(4); k > 0; k-- {
					ns = append(ns, sizes[rng.Intn(len(sizes))])
				}
				half := e.half != nil && rng.Intn(6) == 0
				halved[out] = half
				spawn(slot, func() {
					for _, n := range ns {
						if !write(e, out, n) {
							return
						}
					}
					if half {
						i, o := d.invoke("half", out, 0)
						if e.half() != nil {
							d.returned(i, o, "fail", 0)
						} else {
							d.returned(i, o, "ok", 0)
						}
					}
				})
			}
			for r := 0; r < readers; r++ {
				slot := 2 + side
				if r > 0 {
					slot = 7 + side + 2*(r-1)
				}
				d.mu.Lock()
				rok := idle[slot]
				d.mu.Unlock()
				if !rok || rng.Intn(4) == 0 {
					continue
				}
				var ns []int
				for k := rng.Intn(5); k > 0; k-- {
					n := sizes[rng.Intn(len(sizes))]
					if _, ok := e.rw.(*msgEnd); ok {
						n = flowMax
					}
					ns = append(ns, n)
				}
				spawn(slot, func() {
					for _, n := range ns {
						read(e, in, n)
					}
				})
			}
		}
		if last && rng.Intn(3) == 0 {
			e := ends[rng.Intn(2)]
			spin := rng.Intn(20000)
			closed = true
			spawn(4, func() {
				for x := 0; x < spin; x++ {
					_ = flowByte(1, 1, x)
				}
				i, o := d.invoke("close", 0, 0)
				_ = e.close()
				d.returned(i, o, "ok", 0)
			})
		}
		synctest.Wait()
		d.mu.Lock()
		d.log = append(d.log, []any{"q"})
		d.mu.Unlock()
	}
	_ = closed
	for o, b := range contents {
		if len(b) == 0 {
			continue
		}
		all := flowBytes(d.seed, o.D, 0, wat[o.D])
		for x := 0; ; x++ {
			y := bytes.Index(all[x:], b)
			if y < 0 {
				break
			}
			x += y
			o.At = append(o.At, x)
		}
		if len(o.At) == 0 {
			d.problem("direction %d: %d bytes read were never written in that order: %.24x", o.D, len(b), b)
		}
	}
	if writers > 1 {
		for dir := 1; dir <= 2; dir++ {
			if p := unframe(stream[dir], frames[dir]); p != "" {
				d.problem("direction %d: %s", dir, p)
			}
		}
	}
	d.mu.Lock()
	b, _ := json.Marshal(map[string]any{"ops": d.ops, "log": d.log})
	sc.logs = append(sc.logs, string(b))
	d.mu.Unlock()
	// nothing stays blocked
	cancel()
	for _, e := range ends {
		_ = e.close()
	}
	down()
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.bad == "" {
		for t, ok := range idle {
			if !ok {
				d.bad = fmt.Sprintf("goroutine %d is still blocked after everything was closed: %s", t, b)
			}
		}
	}
	return d.bad
}

// muxOp is an operation of a recorded history, see MuxHist.tla.
type muxOp struct {
	K  string   `json:"k"`
	S  string   `json:"s"`
	M  string   `json:"m"`
	Ms []string `json:"ms"`
	F  bool     `json:"f"`
	R  string   `json:"r"`
}

type muxHandler struct {
	svc   string
	meths []string
	id    string
	slow  bool
	ran   *sync.Map
}

func (h *muxHandler) GetServiceID() string   { return h.svc }
func (h *muxHandler) GetMethodIDs() []string { return h.meths }
func (h *muxHandler) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	h.ran.Store(strm, h.id)
	if h.slow {
		time.Sleep(200 * time.Microsecond)
	}
	return true, nil
}

// runMuxHist uses a mux from several goroutines at once.
func runMuxHist(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	var mu sync.Mutex
	var ops []*muxOp
	log := [][]any{}
	bad := ""
	ran := &sync.Map{}
	var fall []srpc.Invoker
	hasFall := rng.Intn(2) == 0
	if hasFall {
		fall = append(fall, srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
			ran.Store(strm, "fall")
			return true, nil
		}))
	}
	mx := srpc.NewMux(fall...)
	svcs, meths := []string{"S", "T"}, []string{"A", "B"}
	one := func(rng *rand.Rand) {
		o := &muxOp{S: svcs[rng.Intn(2)], M: meths[rng.Intn(2)], Ms: []string{}, F: hasFall, R: "pending"}
		switch rng.Intn(6) {
		case 0, 1:
			o.K = "reg"
			for _, m := range meths {
				if rng.Intn(3) > 0 {
					o.Ms = append(o.Ms, m)
				}
			}
		case 2:
			o.K = "has"
		case 3:
			o.K = "hasm"
		default:
			o.K = "call"
			if rng.Intn(4) == 0 {
				o.S = ""
			}
		}
		mu.Lock()
		ops = append(ops, o)
		id := len(ops)
		log = append(log, []any{"i", id})
		mu.Unlock()
		r := ""
		switch o.K {
		case "reg":
			r = "ok"
			if err := mx.Register(&muxHandler{svc: o.S, meths: o.Ms, id: fmt.Sprint(id), ran: ran, slow: rng.Intn(4) == 0}); err != nil {
				r = err.Error()
			}
		case "has":
			r = fmt.Sprint(mx.HasService(o.S))
		case "hasm":
			r = fmt.Sprint(mx.HasServiceMethod(o.S, o.M))
		case "call":
			strm, _ := srpc.NewPipeStream(context.Background())
			found, err := mx.InvokeMethod(o.S, o.M, strm)
			v, ok := ran.Load(strm)
			switch {
			case err != nil || found != ok:
				r = fmt.Sprintf("found %v, err %v, ran %v", found, err, v)
			case !ok:
				r = "none"
			default:
				r = v.(string)
			}
		}
		mu.Lock()
		o.R = r
		log = append(log, []any{"r", id})
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for t := 2 + rng.Intn(3); t > 0; t-- {
		wg.Add(1)
		trng := rand.New(rand.NewSource(rng.Int63()))
		n := 1 + rng.Intn(3)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				one(trng)
			}
		}()
	}
	wg.Wait()
	b, _ := json.Marshal(map[string]any{"ops": ops, "log": log})
	sc.logs = append(sc.logs, string(b))
	return bad
}
