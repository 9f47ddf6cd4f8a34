package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// msgPlan maps the abstract messages of a call to concrete ones: message i of
// a direction stands for plan.k(i) messages of chosen sizes.
type msgPlan struct {
	seed  int64
	burst int // 0: always one
	big   bool
	huge  bool // up to the frame limit
	empty bool
	one   map[[2]int]bool // stands for exactly one message
}

var sizeClasses = []int{1, 2, 3, 7, 8, 60, 100, 127, 128, 129, 255, 256, 1000, 2036, 2038, 2039, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2052, 4090, 4091, 4092, 4093, 4096, 4100, 8185, 8188, 8192, 8193, 8200, 16384, 20000, 32768}
var bigClasses = []int{65535, 65536, 65537, 131072, 262140, 262144, 262150, 524288, 1000000}

var hugeClasses = []int{1<<21 + 1, 4_200_000, 8_400_000, 9_998_000}

func (p *msgPlan) k(dir, i int) int {
	if p.burst == 0 || p.one[[2]int{dir, i}] {
		return 1
	}
	h := hash64(p.seed, int64(dir), int64(i), 77)
	switch h % 10 {
	case 0, 1, 2, 3, 4:
		return 1
	case 5, 6:
		return 2
	case 7:
		return 3 + int(h>>8)%5
	case 8:
		return 10 + int(h>>8)%30
	}
	return p.burst
}

func (p *msgPlan) payload(dir, i, sub int) []byte {
	h := hash64(p.seed, int64(dir), int64(i), int64(sub))
	var n int
	k := p.k(dir, i)
	switch {
	case p.huge && h%2 == 0:
		n = hugeClasses[int(h>>8)%len(hugeClasses)]
	case k > 50:
		n = int(h % 20)
	case h%100 < 18 && p.empty:
		n = 0
	case h%100 < 55:
		n = 1 + int(h>>8)%64
	case h%100 < 97 || !p.big:
		n = sizeClasses[int(h>>8)%len(sizeClasses)]
	default:
		n = bigClasses[int(h>>8)%len(bigClasses)]
	}
	b := make([]byte, n)
	x := h | 1
	for j := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[j] = byte(x)
	}
	return b
}

// badMessage can neither be encoded nor decoded.
type badMessage struct{}

var errBadMessage = errors.New("verif: not a message")

func (badMessage) SizeVT() int                                { return 3 }
func (badMessage) MarshalToSizedBufferVT([]byte) (int, error) { return 0, errBadMessage }
func (badMessage) MarshalVT() ([]byte, error)                 { return nil, errBadMessage }
func (badMessage) UnmarshalVT([]byte) error                   { return errBadMessage }
func (badMessage) Reset()                                     {}

type kept struct{ got, want []byte }

// side is one end of the call as seen by its application.
type side struct {
	d      *callDrv
	name   string // "c" or "h"
	in     int    // direction received: 1 client->server, 2 server->client
	strm   srpc.Stream
	nsent  int
	nrecv  int
	kept   []kept
	keptMu sync.Mutex
}

// callDrv drives one call according to a behaviour of Call.tla.
type callDrv struct {
	rng     *rand.Rand
	rec     *Rec
	w       *world
	plan    msgPlan
	svc     string
	method  string
	unknown bool
	errText string
	cctx    context.Context
	ccancel context.CancelFunc
	cexpire func() // ends cctx in the way of this scenario
	c       *side
	h       *side
	retCh   chan error
	hmu     sync.Mutex
	hret    bool
	started int
	strmMu  sync.Mutex
	fail    string
	wrapN   int
}

var errTexts = []string{"boom", "EOF", "context canceled", "unimplementedx", "x", "line1\nline2", "ünïcode error ∂", "unexpected packet after rpc was completed", "\xff\xfe\x00bin", "unexpected EOF", "context deadline exceeded", "unimplemented", "handler: EOF", "handler: context canceled", "io: read/write on closed pipe", "EOF", "context canceled", ""}

func newCallDrv(seed int64, opt map[string]string) *callDrv {
	rng := rand.New(rand.NewSource(seed))
	d := &callDrv{rng: rng, rec: &Rec{}}
	d.plan = msgPlan{seed: seed, empty: true, big: rng.Intn(3) == 0}
	switch rng.Intn(6) {
	case 0, 1:
		d.plan.burst = 1
	case 2:
		d.plan.burst = 120
	case 3:
		if rng.Intn(4) == 0 {
			d.plan.burst = 1100
		} else {
			d.plan.burst = 40
		}
	}
	if opt["wrap"] != "" {
		d.wrapN = 1
	}
	if opt["huge"] != "" {
		d.plan.huge, d.plan.burst = true, 0
	}
	if opt["single"] != "" {
		d.plan.burst = 0
	}
	d.svc, d.method = randID(rng), randID(rng)
	d.errText = errTexts[rng.Intn(len(errTexts))]
	if rng.Intn(15) == 0 {
		d.errText = strings.Repeat("long error ", 2000)
	}
	d.cctx, d.ccancel = context.WithCancel(context.Background())
	d.cexpire = d.ccancel
	switch rng.Intn(8) {
	case 0, 1:
		d.cctx = newForeign(d.cctx)
	case 2:
		c, cancel := context.WithCancelCause(d.cctx)
		d.cctx, d.cexpire = c, func() { cancel(errors.New("verif: some cause")) }
	case 3:
		if opt["deadline"] != "no" {
			// longer than the pauses of a behaviour
			end := time.Now().Add(time.Hour)
			switch opt["world"] {
			case "gated", "mem", "deaf":
				end = end.Add(3000 * time.Hour)
			}
			c, cancel := context.WithDeadline(d.cctx, end)
			d.cctx, d.cexpire = c, func() { time.Sleep(time.Until(end)); cancel() }
			d.rec.deadline = true
		}
	}
	d.retCh = make(chan error, 1)
	d.c = &side{d: d, name: "c", in: 2}
	d.h = &side{d: d, name: "h", in: 1}
	return d
}

func (d *callDrv) problem(f string, a ...any) {
	d.strmMu.Lock()
	if d.fail == "" {
		d.fail = fmt.Sprintf(f, a...)
	}
	d.strmMu.Unlock()
}

// InvokeMethod is the handler side of the call.
func (d *callDrv) InvokeMethod(serviceID, methodID string, strm srpc.Stream) (bool, error) {
	if serviceID != d.svc || methodID != d.method {
		if d.unknown {
			return false, nil
		}
		d.problem("handler invoked for service %q method %q, caller asked for %q %q", serviceID, methodID, d.svc, d.method)
		return false, nil
	}
	if d.unknown {
		return false, nil
	}
	d.hmu.Lock()
	d.started++
	if d.started > 1 {
		d.hmu.Unlock()
		d.rec.tok("hstart", "again")
		return true, errors.New("verif: handler invoked again")
	}
	d.h.strm = strm
	d.hmu.Unlock()
	d.rec.res("hstart", nil)
	done := make(chan struct{})
	defer close(done)
	ctx := strm.Context()
	go func() {
		select {
		case <-ctx.Done():
			d.hmu.Lock()
			ret := d.hret
			d.hmu.Unlock()
			if !ret {
				d.rec.tok("hctx", "done")
			}
		case <-done:
		}
	}()
	return true, <-d.retCh
}

func (s *side) newMsg(data []byte) (*srpc.RawMessage, []byte) {
	buf := append([]byte(nil), data...)
	return srpc.NewRawMessage(buf, hash64(s.d.plan.seed, int64(len(data)), int64(s.nsent), 5)&1 == 0), buf
}

// send sends the next abstract message.
func (s *side) send(name string) {
	s.nsent++
	i, dir := s.nsent, 3-s.in
	k := s.d.plan.k(dir, i)
	strm := s.strm
	go func() {
		var err error
		for sub := 0; sub < k && err == nil; sub++ {
			msg, buf := s.newMsg(s.d.plan.payload(dir, i, sub))
			err = strm.MsgSend(msg)
			// the buffer belongs to the sender again
			for j := range buf {
				buf[j] ^= 0xa5
			}
		}
		s.d.rec.res(name, err)
	}()
}

// checkMsg compares a received payload with the next one that was sent.
func (s *side) checkMsg(i, sub int, data []byte) error {
	want := s.d.plan.payload(s.in, i, sub)
	if !bytes.Equal(data, want) {
		return fmt.Errorf("message %d.%d: got %d bytes %.20x, want %d bytes %.20x", i, sub, len(data), data, len(want), want)
	}
	s.keptMu.Lock()
	if len(s.kept) < 200 {
		s.kept = append(s.kept, kept{data, want})
	}
	s.keptMu.Unlock()
	return nil
}

// recv receives the next abstract message.
func (s *side) recv(name string) {
	i := s.nrecv + 1
	k := s.d.plan.k(s.in, i)
	strm := s.strm
	other := s.d.c
	if s.in == 2 {
		other = s.d.h
	}
	go func() {
		for sub := 0; sub < k; sub++ {
			m := srpc.NewRawMessage(nil, sub&1 == 0)
			if (i+sub)%3 == 0 {
				m.SetData([]byte("stale")) // used before
			}
			err := strm.MsgRecv(m)
			if err != nil {
				g := Got{Name: name, Kind: "err", Err: err}
				if sub > 0 {
					g.Detail = fmt.Sprintf("after %d of %d concrete messages", sub, k)
					if err == io.EOF {
						g.Kind = "cut-eof"
					}
				}
				s.d.rec.add(g)
				return
			}
			if i > other.nsent {
				s.d.rec.add(Got{Name: name, Kind: "bogus", Detail: fmt.Sprintf("message %d received, only %d sent: %.40x", i, other.nsent, m.GetData())})
				return
			}
			if err := s.checkMsg(i, sub, m.GetData()); err != nil {
				s.d.rec.add(Got{Name: name, Kind: "wrong", Detail: err.Error()})
				return
			}
		}
		s.nrecv++
		s.d.rec.add(Got{Name: name, Kind: "msg"})
	}()
}

func (d *callDrv) open(kind string) {
	if kind == "unknown" {
		d.unknown = true
		kind = "first"
	}
	if kind == "nosvc" {
		d.svc, kind = "", "first"
	}
	if kind == "nometh" {
		d.method, kind = "", "first"
	}
	if kind == "badreq" {
		go func() {
			d.rec.res("cexec", d.w.client.ExecCall(d.cctx, d.svc, d.method, badMessage{}, srpc.NewRawMessage(nil, true)))
		}()
		return
	}
	if kind == "badfirst" {
		go func() {
			_, err := d.w.client.NewStream(d.cctx, d.svc, d.method, badMessage{})
			d.rec.res("copen", err)
		}()
		return
	}
	var first srpc.Message
	var buf []byte
	badResp := kind == "badresp"
	if badResp {
		kind = "unary"
	}
	if kind != "stream" {
		d.c.nsent = 1
		d.plan.one = map[[2]int]bool{{1, 1}: true, {2, 1}: kind == "unary"}
		var m *srpc.RawMessage
		m, buf = d.c.newMsg(d.plan.payload(1, 1, 0))
		first = m
	}
	if kind == "unary" {
		out := srpc.NewRawMessage(nil, d.rng.Intn(2) == 0)
		go func() {
			if badResp {
				d.rec.res("cexec", d.w.client.ExecCall(d.cctx, d.svc, d.method, first, badMessage{}))
				return
			}
			err := d.w.client.ExecCall(d.cctx, d.svc, d.method, first, out)
			if err != nil {
				d.rec.res("cexec", err)
				return
			}
			if d.h.nsent < 1 {
				d.rec.add(Got{Name: "cexec", Kind: "bogus", Detail: "success without a response"})
				return
			}
			if err := d.c.checkMsg(1, 0, out.GetData()); err != nil {
				d.rec.add(Got{Name: "cexec", Kind: "wrong", Detail: err.Error()})
				return
			}
			d.rec.add(Got{Name: "cexec", Kind: "msg"})
		}()
		return
	}
	go func() {
		strm, err := d.w.client.NewStream(d.cctx, d.svc, d.method, first)
		for j := range buf {
			buf[j] ^= 0xa5
		}
		if err == nil {
			if d.wrapN > 0 {
				strm = srpc.NewStreamWithClose(strm, func() error { return nil })
			}
			d.c.strm = strm
		}
		d.rec.res("copen", err)
	}()
}

// do performs one environment operation of the specification.
func (d *callDrv) do(st Step) {
	switch st.op() {
	case "open":
		d.open(st.str(1))
	case "precancel":
		d.cexpire()
		synctest.Wait()
		d.open(st.str(1))
	case "csend":
		d.c.send("csend")
	case "csendbad":
		go func() { d.rec.res("csendbad", d.c.strm.MsgSend(badMessage{})) }()
	case "hsendbad":
		go func() { d.rec.res("hsendbad", d.h.strm.MsgSend(badMessage{})) }()
	case "crecv":
		d.c.recv("crecv")
	case "chalf":
		go func() { d.rec.res("chalf", d.c.strm.CloseSend()) }()
	case "cclose":
		go func() { d.rec.res("cclose", d.c.strm.Close()) }()
	case "ccancel":
		d.cexpire()
	case "hsend":
		d.h.send("hsend")
	case "hrecv":
		d.h.recv("hrecv")
	case "hhalf":
		go func() { d.rec.res("hhalf", d.h.strm.CloseSend()) }()
	case "hclose":
		go func() { d.rec.res("hclose", d.h.strm.Close()) }()
	case "hret":
		d.setRet(nil)
	case "hfail":
		d.setRet(errValue(d.errText, int(d.plan.seed>>5&0xff)))
	case "hsx":
		d.w.sx()
	case "dl1":
		d.deliver(d.w.w1, 1, st)
	case "dl2":
		d.deliver(d.w.w2, 2, st)
	case "lose":
		d.w.lose()
	case "stall":
		d.w.w1.setStall(true)
	case "cwf":
		d.w.w1.failWrites()
	case "swf":
		d.w.w2.failWrites()
	default:
		panic("unknown operation " + st.String())
	}
}

func (d *callDrv) deliver(w *wire, dir int, st Step) {
	switch st.str(1) {
	case "fin":
		w.releaseFin()
	case "end":
		w.release(1 << 30)
		w.releaseFin()
	case "msg":
		w.release(d.plan.k(dir, st.num(2)))
	default:
		w.release(1)
	}
}

// can tells whether the operation is possible at all: the code under test may
// have left the behaviour.
func (d *callDrv) can(st Step) bool {
	switch st.op() {
	case "csend", "crecv", "chalf", "cclose":
		return d.c.strm != nil
	case "hsend", "hrecv", "hhalf", "hclose", "hret", "hfail":
		d.hmu.Lock()
		defer d.hmu.Unlock()
		return d.h.strm != nil && !d.hret
	}
	return true
}

func (d *callDrv) setRet(err error) {
	d.hmu.Lock()
	d.hret = true
	d.hmu.Unlock()
	d.retCh <- err
}

// finish ends whatever is still going on.
func (d *callDrv) finish(clean bool) {
	if d.w.w1 != nil {
		d.w.w1.open()
		d.w.w2.open()
	}
	synctest.Wait()
	switch d.rng.Intn(3) {
	case 0:
		d.ccancel()
	case 1:
		if d.c.strm != nil {
			strm := d.c.strm
			go func() { _ = strm.Close() }()
		} else {
			d.ccancel()
		}
	case 2:
		if d.w.lose != nil {
			d.w.lose()
		} else {
			d.ccancel()
		}
	}
	synctest.Wait()
	d.hmu.Lock()
	need := d.started > 0 && !d.hret
	d.hmu.Unlock()
	if need {
		d.setRet(nil)
	}
	synctest.Wait()
}

func (s *side) checkKept() string {
	s.keptMu.Lock()
	defer s.keptMu.Unlock()
	for i, k := range s.kept {
		if !bytes.Equal(k.got, k.want) {
			return fmt.Sprintf("message %d received by %s was modified after it was delivered", i+1, s.name)
		}
	}
	return ""
}

// pause lets (fake) time pass: calls may be idle for long. Durations avoid
// the multiples of the timers of the muxer.
func pause(rng *rand.Rand, kind string) {
	ns := time.Duration(rng.Intn(1e9) | 1)
	switch rng.Intn(16) {
	case 0:
		time.Sleep(ns / 20)
	case 1:
		time.Sleep(ns + time.Second*time.Duration(rng.Intn(70)))
	case 2:
		if kind == "gated" || kind == "mem" {
			time.Sleep(ns + time.Hour*time.Duration(rng.Intn(30)))
		}
	}
}

// bubbled counts the goroutines of this bubble.
func bubbled() (int, string) {
	buf := make([]byte, 1<<20)
	t := string(buf[:runtime.Stack(buf, true)])
	i := strings.Index(t, "synctest group ")
	if i < 0 {
		return 0, ""
	}
	j := i + strings.IndexAny(t[i:], "],")
	tag := t[i:j]
	var l []string
	for _, g := range strings.Split(t, "\n\n") {
		h, _, _ := strings.Cut(g, "\n")
		if strings.Contains(h, tag) && !strings.Contains(h, "durable") {
			l = append(l, g)
		}
	}
	return len(l), strings.Join(l, "\n\n")
}

// runCall replays one behaviour of Call.tla; runs inside a bubble.
func runCall(sc *Scn) string {
	d := newCallDrv(sc.Seed, sc.Opt)
	w, err := newWorld(sc.Opt["world"], d, d.rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	d.w = w
	synctest.Wait()
	base, _ := bubbled()
	leak := sc.Opt["leak"] != ""
	fail, diverged := "", false
	for i, st := range sc.Beh.Steps {
		pause(d.rng, w.kind)
		if !d.can(st) {
			if !leak {
				fail = fmt.Sprintf("step %d %s: not possible", i+1, st)
				break
			}
			diverged = true
			continue
		}
		d.do(st)
		synctest.Wait()
		if leak {
			// only what is left behind counts
			if compare(st.O, d.rec.take(), d.errText) != "" {
				diverged = true
			}
			continue
		}
		if p := compare(st.O, d.rec.take(), d.errText); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
		if d.fail != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, d.fail)
			break
		}
	}
	if fail == "" && !leak {
		// nothing else may happen later
		time.Sleep(47*time.Second + 123456789)
		synctest.Wait()
		if g := d.rec.take(); len(g) != 0 {
			fail = fmt.Sprintf("after the last step: unexpected %v", g)
		}
	}
	if fail == "" && !leak {
		if s := d.c.checkKept() + d.h.checkKept(); s != "" {
			fail = s
		}
	}
	if diverged {
		sc.stats = map[string]int{"diverged": 1}
	}
	if !sc.Beh.Over || diverged || fail != "" {
		d.finish(fail == "")
	}
	if fail == "" && leak {
		time.Sleep(47*time.Second + 123456789)
		synctest.Wait()
		if s := w.check(); s != "" {
			fail = "after the call was over: " + s
		} else if n, t := bubbled(); n > base {
			fail = fmt.Sprintf("after the call was over: %d goroutines more than before the call:\n%s", n-base, t)
		}
	}
	if fail != "" || !leak {
		d.ccancel()
	}
	w.down()
	synctest.Wait()
	return fail
}
