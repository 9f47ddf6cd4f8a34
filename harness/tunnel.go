package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// rawTarget is the byte stream behind a raw tunnel.
type rawTarget struct {
	in     *wire // what the target sends into the tunnel
	mu     sync.Mutex
	got    []byte
	closes int
	rng    *rand.Rand
	endw   bool
	linger time.Duration // reads of an ended stream return that much later
	busy   int           // reads in progress
}

func (r *rawTarget) Read(p []byte) (int, error) {
	r.mu.Lock()
	r.busy++
	r.mu.Unlock()
	n, err := r.in.read(p)
	if err != nil && r.linger > 0 {
		time.Sleep(r.linger)
	}
	r.mu.Lock()
	r.busy--
	r.mu.Unlock()
	if err == nil && r.endw {
		r.in.mu.Lock()
		if len(r.in.buf) == 0 && r.in.fin {
			err = io.EOF
			if r.in.finErr != nil {
				err = r.in.finErr
			}
		}
		r.in.mu.Unlock()
	}
	return n, err
}

func (r *rawTarget) Write(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closes > 0 {
		return 0, io.ErrClosedPipe
	}
	r.got = append(r.got, p...)
	return len(p), nil
}

func (r *rawTarget) Close() error {
	r.mu.Lock()
	r.closes++
	r.mu.Unlock()
	r.in.closeRead()
	return nil
}

// tunnelDrv drives a tunnel; side A is scripted or a real rpc stream.
type tunnelDrv struct {
	rng    *rand.Rand
	rec    *Rec
	seed   int64
	kind   string // raw, proxy
	id     string
	target string // component id asked from the target
	getErr error
	getter string

	// side A
	a     *scriptStream
	aDec  func([]byte) []byte
	aseen int
	// side A over a real connection
	arw  *rpcstream.RpcStreamReadWriter
	abuf bytes.Buffer
	amu  sync.Mutex
	aend bool

	// side B
	b  *scriptStream
	bt *rawTarget

	wantA, wantB []byte // bytes sent towards A and B so far
	packA, packB [][]byte
	unitsA       int // units sent by A
	unitsB       int
	seenA, seenB int // reported
	released     int
	returned     bool
	bClosed      bool
	aClosed      bool
}

func (d *tunnelDrv) rel() {
	d.released++
	// nobody uses the component any more
	if d.bt != nil {
		d.bt.mu.Lock()
		if d.bt.busy > 0 {
			d.rec.tok("released", "in use")
		}
		d.bt.mu.Unlock()
	}
	if d.b != nil {
		d.b.mu.Lock()
		if d.b.busy > 0 {
			d.rec.tok("released", "in use")
		}
		d.b.mu.Unlock()
	}
	d.rec.tok("released", map[bool]string{true: "once", false: "again"}[d.released == 1])
}

func (d *tunnelDrv) ask(id string) {
	if id != d.id {
		d.rec.tok("asked", id)
	} else {
		d.rec.tok("asked", "id")
	}
}

func (d *tunnelDrv) handle(strm rpcstream.RpcStream) error {
	var err error
	if d.kind == "raw" {
		err = rpcstream.HandleRawRpcStream(strm, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			d.ask(id)
			switch d.getter {
			case "found":
				return d.bt, d.rel, nil
			case "foundnorel":
				return d.bt, nil, nil
			case "ackfail":
				d.a.mu.Lock()
				d.a.sendEr = errStream
				d.a.mu.Unlock()
				return d.bt, d.rel, nil
			case "errB":
				return d.bt, d.rel, d.getErr
			case "none":
				return nil, nil, nil
			case "errrel":
				return nil, d.rel, d.getErr
			case "getterblock":
				<-ctx.Done()
			}
			return nil, nil, d.getErr
		})
	} else {
		err = rpcstream.HandleProxyRpcStream(strm, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
			d.ask(id)
			call := func(ctx context.Context) (rpcstream.RpcStream, error) {
				switch d.getter {
				case "callererr":
					return nil, errStream
				case "callerboth":
					return d.b, errStream
				case "callerblock":
					<-ctx.Done()
					return nil, errStream
				case "callernil":
					return nil, nil
				case "senderr":
					d.b.sendEr = errStream
				}
				return d.b, nil
			}
			switch d.getter {
			case "none":
				return nil, "", nil, nil
			case "nocaller":
				return nil, "", d.rel, nil
			case "foundnorel":
				return call, d.target, nil, nil
			case "getterblock":
				<-ctx.Done()
				return nil, "", nil, d.getErr
			case "err":
				return nil, "", nil, d.getErr
			case "errrel":
				return nil, "", d.rel, d.getErr
			}
			return call, d.target, d.rel, nil
		})
	}
	d.returned = true
	switch {
	case err == rpcstream.ErrNoServerForComponent:
		d.rec.tok("ret", "none")
	case err == d.getErr:
		d.rec.add(Got{Name: "ret", Kind: "err", Err: err, Alt: "geterr"})
	default:
		d.rec.res("ret", err)
	}
	return err
}

// collect turns what arrived since the last step into observations.
func (d *tunnelDrv) collect() string {
	// side B
	switch {
	case d.bt != nil:
		d.bt.mu.Lock()
		got := append([]byte(nil), d.bt.got...)
		closed := d.bt.closes > 0
		d.bt.mu.Unlock()
		if s := d.arrived("toB", got, d.wantB, &d.seenB, 1); s != "" {
			return s
		}
		if closed && !d.bClosed {
			d.bClosed = true
			d.rec.tok("closedB", "yes")
		}
	case d.b != nil:
		sent := d.b.sentMsgs()
		if len(sent) > 0 && d.seenB == 0 && d.packB == nil {
			p := &rpcstream.RpcStreamPacket{}
			_ = p.UnmarshalVT(sent[0])
			if x, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Init); ok && x.Init.GetComponentId() == d.target {
				d.rec.tok("initB", "target")
			} else {
				d.rec.tok("initB", fmt.Sprintf("%v", p))
			}
			d.packB = [][]byte{sent[0]}
		}
		if s := d.packets("toB", sent, d.packB, &d.seenB, 1); s != "" {
			return s
		}
		if c, _ := d.b.counts(); c > 0 && !d.bClosed {
			d.bClosed = true
			d.rec.tok("closedB", "yes")
		}
	}
	// side A
	if d.arw != nil {
		d.amu.Lock()
		got := append([]byte(nil), d.abuf.Bytes()...)
		closed := d.aend
		d.amu.Unlock()
		if s := d.arrived("toA", got, d.wantA, &d.seenA, 2); s != "" {
			return s
		}
		if closed && !d.aClosed {
			d.aClosed = true
			d.rec.tok("closedA", "yes")
		}
		return ""
	}
	if d.a == nil {
		return ""
	}
	sent := d.a.sentMsgs()
	if d.kind == "raw" || (len(sent) > d.aseen && !d.running()) {
		var data []byte
		for i, m := range sent {
			p := &rpcstream.RpcStreamPacket{}
			if err := p.UnmarshalVT(m); err != nil {
				return err.Error()
			}
			switch x := p.GetBody().(type) {
			case *rpcstream.RpcStreamPacket_Ack:
				if i >= d.aseen {
					r := "other"
					switch text := x.Ack.GetError(); {
					case text == "":
						r = "ok"
					case text == rpcstream.ErrNoServerForComponent.Error():
						r = "none"
					case text == d.getErr.Error() || d.getErr.Error() == "" && (strings.HasPrefix(d.getter, "err") || d.getter == "getterblock"):
						r = "err"
					}
					if r == "none" && d.getter == "callernil" {
						r = "other"
					}
					d.rec.tok("ackA", r)
				}
			case *rpcstream.RpcStreamPacket_Data:
				data = append(data, x.Data...)
			default:
				return "the tunnel sent an unknown packet"
			}
		}
		d.aseen = len(sent)
		if s := d.arrived("toA", data, d.wantA, &d.seenA, 2); s != "" {
			return s
		}
	} else if s := d.packets("toA", sent, d.packA, &d.seenA, 2); s != "" {
		return s
	}
	if c, _ := d.a.counts(); c > 0 && !d.aClosed {
		d.aClosed = true
		d.rec.tok("closedA", "yes")
	}
	return ""
}

func (d *tunnelDrv) running() bool { return d.packB != nil }

// arrived compares bytes and reports the last complete unit.
func (d *tunnelDrv) arrived(name string, got, want []byte, seen *int, dir int) string {
	if len(got) > len(want) || !bytes.Equal(got, want[:len(got)]) {
		return fmt.Sprintf("%s: %d bytes arrived, %d were sent, prefix %v", name, len(got), len(want), bytes.HasPrefix(want, got))
	}
	n, at := 0, 0
	for {
		l := len(unitBytes(d.seed, dir, n+1))
		if at+l > len(got) {
			break
		}
		at += l
		n++
	}
	if at != len(got) {
		return fmt.Sprintf("%s: part of a unit arrived: %d of %d bytes", name, len(got), len(want))
	}
	if n != *seen {
		*seen = n
		d.rec.tok(name, fmt.Sprintf("u%d", n))
	}
	return ""
}

// packets compares packets one by one.
func (d *tunnelDrv) packets(name string, got, want [][]byte, seen *int, dir int) string {
	k := 0
	for _, g := range got {
		if len(g) == 0 {
			continue
		}
		if k >= len(want) || !bytes.Equal(g, want[k]) {
			return fmt.Sprintf("%s: packet %d differs from the one sent (%d bytes %.24x)", name, k+1, len(g), g)
		}
		k++
	}
	if dir == 1 {
		k-- // the init
	}
	if k > *seen {
		*seen = k
		d.rec.tok(name, fmt.Sprintf("u%d", k))
	}
	return ""
}

// oddPacket is what a proxy must pass on unmodified.
func oddPacket(rng *rand.Rand, b []byte) []byte {
	switch rng.Intn(6) {
	case 0:
		return b // not an rpc stream packet at all
	case 1:
		return append(dataPacket(b), 0x7a, 0x03, 'x', 'y', 'z') // with unknown fields
	case 2:
		return ackPacket("verif: ack text")
	case 3:
		return ackPacket("")
	}
	return dataPacket(b)
}

func (d *tunnelDrv) sendA(k int) {
	for i := 0; i < k; i++ {
		d.unitsA++
		u := unitBytes(d.seed, 1, d.unitsA)
		d.wantB = append(d.wantB, u...)
		if d.kind == "proxy" {
			p := oddPacket(d.rng, u)
			if len(p) == 0 {
				p = dataPacket([]byte("x"))
			}
			d.packB = append(d.packB, p)
			d.a.push(p)
		} else if d.arw != nil {
			n, err := d.arw.Write(u)
			if err != nil || n != len(u) {
				d.rec.tok("write", fmt.Sprintf("%d %v", n, err))
			}
			for j := range u {
				u[j] ^= 0x33
			}
		} else {
			d.a.push(dataPacket(u))
		}
	}
	if k == 0 {
		switch {
		case d.arw != nil:
			_, _ = d.arw.Write(nil)
		case d.kind == "proxy":
			d.a.push(nil)
		case d.rng.Intn(2) == 0:
			d.a.push(dataPacket(nil))
		default:
			d.a.push(ackPacket(""))
		}
	}
}

func (d *tunnelDrv) sendB(k int) {
	var all []byte
	for i := 0; i < k; i++ {
		d.unitsB++
		u := unitBytes(d.seed, 2, d.unitsB)
		d.wantA = append(d.wantA, u...)
		all = append(all, u...)
		if d.b != nil {
			p := oddPacket(d.rng, u)
			d.packA = append(d.packA, p)
			d.b.push(p)
		}
	}
	if d.bt != nil {
		d.bt.in.inject(all)
	} else if k == 0 {
		d.b.push(nil)
	}
}

// gone ends one side of a proxied stream: it sent its last packets and does not
// accept any more when the other side sends one.
func (d *tunnelDrv) gone(aSide bool, k int, end string) {
	from, to := d.b, d.a
	if aSide {
		from, to = d.a, d.b
	}
	from.mu.Lock()
	from.sendEr = errStream
	for i := 0; i < k; i++ {
		var p []byte
		if aSide {
			d.unitsA++
			if p = oddPacket(d.rng, unitBytes(d.seed, 1, d.unitsA)); len(p) == 0 {
				p = dataPacket([]byte("x"))
			}
			d.packB = append(d.packB, p)
		} else {
			d.unitsB++
			p = oddPacket(d.rng, unitBytes(d.seed, 2, d.unitsB))
			d.packA = append(d.packA, p)
		}
		from.in = append(from.in, strmItem{data: p})
	}
	from.end = endErr(end)
	first := d.rng.Intn(2) == 0
	if first {
		to.push(dataPacket([]byte("lost")))
	} else {
		from.changed()
	}
	from.mu.Unlock()
	if first {
		from.mu.Lock()
		from.changed()
		from.mu.Unlock()
	} else {
		to.push(dataPacket([]byte("lost")))
	}
}

func (d *tunnelDrv) endB(k string) {
	if d.b != nil {
		d.b.finish(endErr(k))
		return
	}
	d.bt.in.mu.Lock()
	d.bt.in.fin = true
	if k == "err" {
		d.bt.in.finErr = errStream
	}
	d.bt.in.changed()
	d.bt.in.mu.Unlock()
}

// runTunnel replays a behaviour of Tunnel.tla.
func runTunnel(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := &tunnelDrv{rng: rng, rec: &Rec{}, seed: sc.Seed, kind: sc.Opt["kind"], id: randID(rng), target: randID(rng), getErr: errValue(errText1(sc), int(sc.Seed>>9&0xff))}
	e2e := sc.Opt["world"] != ""
	switch rng.Intn(10) {
	case 0:
		d.id = ""
	case 1, 2:
		d.target = ""
	}
	var linger time.Duration
	if !e2e && rng.Intn(4) == 0 {
		linger = time.Millisecond
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if d.kind == "raw" {
		d.bt = &rawTarget{in: newWire(false, rng, []int{0, 0, 1, 100}[rng.Intn(4)]), rng: rng, endw: rng.Intn(2) == 0, linger: linger}
	} else {
		d.b = newScriptStream(ctx)
		d.b.linger = linger
	}
	var w *world
	var acancel context.CancelFunc
	var astrm rpcstream.RpcStream
	if e2e {
		mx := srpc.NewMux()
		_ = echo.SRPCRegisterEchoer(mx, &echoRpc{EchoServer: echo.NewEchoServer(nil), serve: func(strm rpcstream.RpcStream) error { return d.handle(strm) }})
		var err error
		if w, err = newWorld(sc.Opt["world"], mx, rng); err != nil {
			return err.Error()
		}
		synctest.Wait()
	} else {
		d.a = newScriptStream(ctx)
	}
	var actx context.Context
	actx, acancel = context.WithCancel(ctx)
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "serve":
			d.getter = st.str(1)
			if !e2e {
				go func() { _ = d.handle(d.a) }()
			}
		case "first":
			if e2e {
				ec := echo.NewSRPCEchoerClient(w.client)
				go func() {
					strm, err := rpcstream.OpenRpcStream(actx, ec.RpcStream, d.id, true)
					switch {
					case err == nil:
						astrm = strm
						d.arw = rpcstream.NewRpcStreamReadWriter(strm)
						d.rec.tok("ackA", "ok")
						go d.readA(rand.New(rand.NewSource(sc.Seed)))
					case err.Error() == "remote: "+rpcstream.ErrNoServerForComponent.Error():
						d.rec.tok("ackA", "none")
					case err.Error() == "remote: "+d.getErr.Error() || d.getErr.Error() == "" && strings.HasPrefix(err.Error(), "remote: "):
						d.rec.tok("ackA", "err")
					default:
						d.rec.tok("ackA", err.Error())
					}
				}()
				break
			}
			d.a.push(setupPacket(rng, st.str(1), d.id, "text"))
		case "firstend":
			if st.str(1) == "cancel" {
				d.a.cancel()
			} else {
				d.a.finish(endErr(st.str(1)))
			}
		case "a":
			d.sendA(st.num(1))
		case "b":
			d.sendB(st.num(1))
		case "enda", "bursta":
			k := st.str(1)
			if st.op() == "bursta" {
				k = st.str(2)
				d.sendA(st.num(1))
			}
			switch {
			case e2e && k == "eof":
				_ = astrm.CloseSend()
			case e2e && k == "close":
				_ = d.arw.Close()
			case e2e:
				acancel()
			case k == "cancel":
				d.a.cancel()
			default:
				d.a.finish(endErr(k))
			}
		case "gonea", "goneb":
			d.gone(st.op() == "gonea", st.num(1), st.str(2))
		case "endb":
			d.endB(st.str(1))
		case "burstb":
			if d.bt != nil {
				// data and end become visible together
				d.bt.in.mu.Lock()
				var all []byte
				for j := 0; j < st.num(1); j++ {
					d.unitsB++
					all = append(all, unitBytes(d.seed, 2, d.unitsB)...)
				}
				d.wantA = append(d.wantA, all...)
				d.bt.in.buf = append(d.bt.in.buf, all...)
				d.bt.in.mu.Unlock()
			} else {
				d.sendB(st.num(1))
			}
			d.endB(st.str(2))
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if linger > 0 {
			time.Sleep(2 * linger)
			synctest.Wait()
		}
		if fail = d.collect(); fail == "" {
			fail = compare(st.O, d.rec.take(), "")
		}
		if fail != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, fail)
			break
		}
	}
	acancel()
	cancel()
	d.endB("eof")
	if d.a != nil {
		d.a.finish(io.EOF)
	}
	if w != nil {
		synctest.Wait()
		if fail == "" && d.released > 1 {
			fail = "released more than once"
		}
		if fail == "" {
			fail = w.check()
		}
		w.down()
	}
	synctest.Wait()
	return fail
}

// readA reads the calling side's end of the tunnel.
func (d *tunnelDrv) readA(rng *rand.Rand) {
	for {
		buf := make([]byte, []int{1, 10, 4096, 9000, 100000}[rng.Intn(5)])
		n, err := d.arw.Read(buf)
		d.amu.Lock()
		d.abuf.Write(buf[:n])
		if err != nil {
			d.aend = true
			d.amu.Unlock()
			return
		}
		d.amu.Unlock()
	}
}

func init() { suites["tunnel"] = suite{run: runTunnel, bubble: true} }
