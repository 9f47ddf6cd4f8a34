package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
)

func init() { suites["multi"] = suite{run: runMulti, bubble: true} }

// multiDrv serves several calls of one connection.
type multiDrv struct {
	mu      sync.Mutex
	opening *callDrv
	bad     string
}

func (m *multiDrv) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	if svc == "verif.noise" {
		if meth == "read" {
			for {
				if err := strm.MsgRecv(srpc.NewRawMessage(nil, false)); err != nil {
					return true, err
				}
			}
		}
		<-strm.Context().Done()
		return true, strm.Context().Err()
	}
	m.mu.Lock()
	d := m.opening
	m.opening = nil
	if d == nil && m.bad == "" {
		m.bad = fmt.Sprintf("handler invoked for %q %q though no call was made", svc, meth)
	}
	m.mu.Unlock()
	if d == nil {
		return false, nil
	}
	return d.InvokeMethod(svc, meth, strm)
}

func (m *multiDrv) setOpening(d *callDrv) {
	m.mu.Lock()
	m.opening = d
	m.mu.Unlock()
}

// multiCall is one call and its behaviour.
type multiCall struct {
	d    *callDrv
	beh  *Beh
	next int
	id   int
}

// noise is a misbehaving or idle stream on the same connection.
func noise(mc network.MuxedConn, rng *rand.Rand) (network.MuxedStream, error) {
	s, err := mc.OpenStream(context.Background())
	if err != nil {
		return nil, err
	}
	var b []byte
	pkt := func(p *srpc.Packet) { b = append(b, pktFrame(p)...) }
	start := func(meth string) { pkt(srpc.NewCallStartPacket("verif.noise", meth, nil, false)) }
	switch rng.Intn(9) {
	case 0: // nothing at all
	case 1:
		b = []byte{0, 0, 0, 0}
	case 2:
		b = []byte{255, 255, 255, 255, 1}
	case 3:
		b = []byte{9, 0}
	case 4:
		b = frame([]byte{1, 2, 3, 4, 5})
	case 5:
		pkt(srpc.NewCallDataPacket([]byte("early"), false, false, nil))
	case 6: // a call which never reads
		start("hang")
		for i := 0; i < 1+rng.Intn(300); i++ {
			pkt(srpc.NewCallDataPacket([]byte(strings.Repeat("x", rng.Intn(3000))), false, false, nil))
		}
	case 7:
		start("read")
		start("read")
	case 8:
		start("hang")
		pkt(srpc.NewCallDataPacket(nil, false, true, nil))
		pkt(srpc.NewCallDataPacket([]byte("after"), false, false, nil))
	}
	go func() { _, _ = s.Write(b) }()
	go func() { _, _ = io.Copy(io.Discard, s) }()
	return s, nil
}

// runMulti replays behaviours of Call.tla of several calls which share a
// connection: each must be as if it were alone.
func runMulti(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	var cfg struct {
		Behs []*Beh `json:"behs"`
	}
	if err := json.Unmarshal(sc.Beh.Cfg, &cfg); err != nil {
		return "setup: " + err.Error()
	}
	m := &multiDrv{}
	w, err := newWorld(sc.Opt["world"], m, rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	synctest.Wait()
	base, _ := bubbled()
	svc, meth := randID(rng), randID(rng)
	same := rng.Intn(2) == 0
	limit := 2 + rng.Intn(5)
	burst := rng.Intn(3) == 0 // operations of several calls at once
	crowd := sc.Opt["crowd"] != ""
	if crowd {
		// all calls are open before any of them proceeds
		limit, burst = len(cfg.Behs), true
	}
	var active []*multiCall
	var noisy []network.MuxedStream
	started := 0
	var trace []string
	fail := ""
	start := func() {
		d := newCallDrv(int64(hash64(sc.Seed, int64(started))>>2), map[string]string{"deadline": "no"})
		if same {
			d.svc, d.method = svc, meth
		}
		cw := *w
		cw.lose, cw.sx = nil, nil
		d.w = &cw
		active = append(active, &multiCall{d: d, beh: cfg.Behs[started], id: started + 1})
		started++
	}
	check := func(c *multiCall, st *Step) {
		var want []Obs
		what := "idle"
		if st != nil {
			want, what = st.O, st.String()
		}
		p := compare(want, c.d.rec.take(), c.d.errText)
		if p == "" {
			p = c.d.fail
		}
		if p != "" && fail == "" {
			fail = fmt.Sprintf("call %d, step %d (%s): %s", c.id, c.next, what, p)
		}
	}
	for fail == "" && (started < len(cfg.Behs) || len(active) > 0) {
		if w.mc != nil && rng.Intn(12) == 0 && len(noisy) < 6 {
			s, err := noise(w.mc, rng)
			if err != nil {
				fail = "opening another stream: " + err.Error()
				break
			}
			noisy = append(noisy, s)
			trace = append(trace, "noise")
			synctest.Wait()
		}
		if len(noisy) > 0 && rng.Intn(20) == 0 {
			i := rng.Intn(len(noisy))
			if rng.Intn(2) == 0 {
				_ = noisy[i].Reset()
			} else {
				_ = noisy[i].Close()
			}
			noisy = append(noisy[:i], noisy[i+1:]...)
			synctest.Wait()
		}
		for started < len(cfg.Behs) && len(active) < limit && (len(active) == 0 || rng.Intn(3) > 0) {
			start()
			if crowd {
				break
			}
		}
		if !crowd || rng.Intn(50) == 0 {
			pause(rng, w.kind)
		}
		// one operation of one call, or of several calls at once
		steps := map[*multiCall]*Step{}
		n := 1
		if burst {
			n = 1 + rng.Intn(len(active))
		}
		opened := false
		pick := rng.Perm(len(active))[:n]
		if crowd && started < len(cfg.Behs) {
			pick = []int{len(active) - 1}
		}
		for _, i := range pick {
			c := active[i]
			if c.next == len(c.beh.Steps) {
				continue
			}
			st := &c.beh.Steps[c.next]
			if st.op() == "open" || st.op() == "precancel" {
				if opened || st.op() == "precancel" && len(steps) > 0 {
					continue
				}
				opened = true
			}
			if !c.d.can(*st) {
				fail = fmt.Sprintf("call %d, step %d %s: not possible", c.id, c.next+1, st)
				break
			}
			if st.op() == "open" || st.op() == "precancel" {
				m.setOpening(c.d)
			}
			c.next++
			steps[c] = st
			trace = append(trace, fmt.Sprintf("%d:%s", c.id, st))
			c.d.do(*st)
			if st.op() == "precancel" {
				break
			}
		}
		if fail != "" {
			break
		}
		synctest.Wait()
		m.setOpening(nil)
		for _, c := range active {
			check(c, steps[c])
		}
		if m.bad != "" && fail == "" {
			fail = m.bad
		}
		if fail != "" {
			break
		}
		// calls at the end of their behaviour are finished or left open for a while
		for i := 0; i < len(active) && (!crowd || started == len(cfg.Behs)); i++ {
			c := active[i]
			if c.next < len(c.beh.Steps) || (rng.Intn(4) == 0 && started < len(cfg.Behs)) {
				continue
			}
			if s := c.d.c.checkKept() + c.d.h.checkKept(); s != "" {
				fail = fmt.Sprintf("call %d: %s", c.id, s)
			}
			if !c.beh.Over {
				c.d.finish(true)
				trace = append(trace, fmt.Sprintf("%d:finish", c.id))
			}
			c.d.rec.take()
			active = append(active[:i], active[i+1:]...)
			i--
			for _, x := range active {
				check(x, nil)
			}
		}
	}
	for _, c := range active {
		c.d.finish(false)
	}
	for _, s := range noisy {
		_ = s.Reset()
	}
	synctest.Wait()
	if fail == "" {
		time.Sleep(47*time.Second + 123456789)
		synctest.Wait()
		if s := w.check(); s != "" {
			fail = "after all calls were over: " + s
		} else if n, t := bubbled(); n > base {
			fail = fmt.Sprintf("after all calls were over: %d goroutines more than before:\n%s", n-base, t)
		}
	}
	w.down()
	synctest.Wait()
	if fail != "" {
		if len(trace) > 60 {
			trace = trace[len(trace)-60:]
		}
		fail += "\noperations: " + strings.Join(trace, " ")
	}
	return fail
}
