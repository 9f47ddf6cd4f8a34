package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

func init() { suites["hist"] = suite{run: runHist, bubble: true} }

// histOp is an operation of a recorded history.
type histOp struct {
	K string `json:"k"`
	M int    `json:"m"`
	R string `json:"r"`
}

// history is a recorded execution, see Hist.tla.
type history struct {
	Ops []*histOp `json:"ops"`
	Log [][]any   `json:"log"`
}

type histDrv struct {
	mu    sync.Mutex
	h     history
	bad   string
	seed  int64
	strm  [2]srpc.Stream // caller, handler
	ret   chan error
	nmsg  int
	kept  []kept
	ready chan struct{}

	cancel  context.CancelFunc
	ths     [2][]*histThread
	halved  [2]bool
	returnd bool
	budget  int
	starts  int
}

var errHist = errors.New("verif: the handler failed")

func (d *histDrv) payload(id int) []byte {
	h := hash64(d.seed, int64(id))
	n := []int{0, 1, 10, 100, 300, 2047, 2048, 5000, 70000}[h%9]
	b := binary.BigEndian.AppendUint32(nil, uint32(id))
	x := h | 1
	for j := 0; j < n; j++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b = append(b, byte(x))
	}
	return b
}

func (d *histDrv) invoke(k string, m int) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.h.Ops = append(d.h.Ops, &histOp{K: k, M: m, R: "none"})
	d.h.Log = append(d.h.Log, []any{"i", len(d.h.Ops)})
	return len(d.h.Ops)
}

func (d *histDrv) returned(i int, r string, m int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.h.Ops[i-1].R = r
	if m > 0 {
		d.h.Ops[i-1].M = m
	}
	d.h.Log = append(d.h.Log, []any{"r", i})
}

func (d *histDrv) event(e string) {
	d.mu.Lock()
	d.h.Log = append(d.h.Log, []any{e})
	d.mu.Unlock()
}

func (d *histDrv) problem(s string) {
	d.mu.Lock()
	if d.bad == "" {
		d.bad = s
	}
	d.mu.Unlock()
}

func (d *histDrv) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	d.strm[1] = strm
	ctx := strm.Context()
	context.AfterFunc(ctx, func() { d.event("x") })
	close(d.ready)
	err := <-d.ret
	return true, err
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, context.Canceled):
		return "cancel"
	case err.Error() == errHist.Error():
		return "err"
	}
	return "bad"
}

// exec performs one operation and records it.
func (d *histDrv) exec(op string, cancel context.CancelFunc) {
	side := 0
	if op[0] == 'h' {
		side = 1
	}
	strm := d.strm[side]
	okfail := func(err error) string {
		if err != nil {
			return "fail"
		}
		return "ok"
	}
	switch op[1:] {
	case "send":
		d.mu.Lock()
		d.nmsg++
		id := d.nmsg
		d.mu.Unlock()
		buf := d.payload(id)
		i := d.invoke(op, id)
		err := strm.MsgSend(srpc.NewRawMessage(buf, id&1 == 0))
		for j := range buf {
			buf[j] ^= 0x5a
		}
		d.returned(i, okfail(err), 0)
	case "recv":
		m := srpc.NewRawMessage(nil, d.seed&1 == 0)
		i := d.invoke(op, 0)
		err := strm.MsgRecv(m)
		if err != nil {
			d.returned(i, classify(err), 0)
			return
		}
		data := m.GetData()
		id := 0
		if len(data) >= 4 {
			id = int(binary.BigEndian.Uint32(data))
		}
		d.mu.Lock()
		known := id >= 1 && id <= d.nmsg
		d.mu.Unlock()
		want := d.payload(id)
		if !known || !bytes.Equal(want, data) {
			d.problem(fmt.Sprintf("%s received a message nobody sent: %d bytes %.24x (message %d is %d bytes %.24x)", op, len(data), data, id, len(want), want))
		}
		d.mu.Lock()
		d.kept = append(d.kept, kept{data, want})
		d.mu.Unlock()
		d.returned(i, "msg", id)
	case "half":
		i := d.invoke(op, 0)
		d.returned(i, okfail(strm.CloseSend()), 0)
	case "close":
		i := d.invoke(op, 0)
		_ = strm.Close()
		d.returned(i, "ok", 0)
	case "cancel":
		i := d.invoke(op, 0)
		cancel()
		d.returned(i, "ok", 0)
	}
}

// histMux routes to the calls of a scenario.
type histMux struct {
	ds  []*histDrv
	mu  sync.Mutex
	bad string
}

func (m *histMux) problem(f string, a ...any) {
	m.mu.Lock()
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
	m.mu.Unlock()
}

func (m *histMux) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	if svc == "echo" {
		msg := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		if meth == "fail" {
			return true, errors.New("failed: " + string(msg.GetData()))
		}
		return true, strm.MsgSend(msg)
	}
	i, err := strconv.Atoi(meth)
	if err != nil || i < 0 || i >= len(m.ds) || svc != "hist" {
		m.problem("handler invoked for %q %q, which nobody called", svc, meth)
		return false, nil
	}
	d := m.ds[i]
	d.mu.Lock()
	d.starts++
	n := d.starts
	d.mu.Unlock()
	if n > 1 {
		m.problem("handler of call %d invoked %d times", i, n)
		return true, nil
	}
	return d.InvokeMethod(svc, meth, strm)
}

// echoCalls makes unary calls next to the recorded ones.
func (m *histMux) echoCalls(c srpc.Client, seed int64, n int) {
	d := &histDrv{seed: seed}
	for i := 1; i <= n; i++ {
		want := d.payload(i)
		meth := "echo"
		if hash64(seed, int64(i), 1)%4 == 0 {
			meth = "fail"
		}
		out := srpc.NewRawMessage(nil, true)
		err := c.ExecCall(context.Background(), "echo", meth, srpc.NewRawMessage(want, true), out)
		if meth == "fail" {
			if err == nil || err.Error() != "failed: "+string(want) {
				m.problem("a failing unary call of %d bytes next to other calls returned %.100v", len(want), err)
			}
		} else if err != nil || !bytes.Equal(out.GetData(), want) {
			m.problem("a unary call of %d bytes next to other calls returned %d bytes, error %v", len(want), len(out.GetData()), err)
		}
	}
}

// histThread works through scripts of operations.
type histThread struct {
	in   chan []string
	busy bool
}

// start opens the call.
func (d *histDrv) start(c srpc.Client, meth string) error {
	var ctx context.Context
	ctx, d.cancel = context.WithCancel(context.Background())
	strm, err := c.NewStream(ctx, "hist", meth, nil)
	if err != nil {
		return err
	}
	d.strm[0] = strm
	<-d.ready
	for s := range d.ths {
		for range cap(d.ths[s]) {
			t := &histThread{in: make(chan []string, 8)}
			d.ths[s] = append(d.ths[s], t)
			go func() {
				for ops := range t.in {
					for _, o := range ops {
						d.exec(o, d.cancel)
					}
					d.mu.Lock()
					t.busy = false
					d.mu.Unlock()
				}
			}()
		}
	}
	return nil
}

// phase starts a round of operations; it returns the operation that stands
// for the handler's return, if any.
func (d *histDrv) phase(rng *rand.Rand, last bool) int {
	var scripts [2][][]string
	ending := ""
	for s := range d.ths {
		for range d.ths[s] {
			var sc []string
			for n := rng.Intn(4); n > 0 && d.budget > 0; n-- {
				op := ""
				switch r := rng.Intn(20); {
				case r < 9 && !d.halved[s]:
					op = "send"
				case r < 17:
					op = "recv"
				case r == 17 || r == 18:
					if d.halved[s] {
						continue
					}
					op = "half"
				default:
					if ending != "" || !last && rng.Intn(2) == 0 {
						continue
					}
					ending = "close"
					if s == 0 && rng.Intn(2) == 0 {
						ending = "cancel"
					}
					op = ending
				}
				d.budget--
				sc = append(sc, "ch"[s:s+1]+op)
				if op == "half" || op == "close" {
					break
				}
			}
			scripts[s] = append(scripts[s], sc)
		}
	}
	doRet := !d.returnd && (last && rng.Intn(3) > 0 || rng.Intn(6) == 0)
	for s := range scripts {
		for _, sc := range scripts[s] {
			for _, o := range sc {
				if o[1:] == "half" {
					d.halved[s] = true
				}
			}
		}
	}
	for s := range d.ths {
		if s == 1 && d.returnd {
			continue
		}
		for i, t := range d.ths[s] {
			d.mu.Lock()
			if !t.busy && len(scripts[s][i]) > 0 {
				t.busy = true
				t.in <- scripts[s][i]
			}
			d.mu.Unlock()
		}
	}
	if !doRet {
		return 0
	}
	d.returnd = true
	k, err := "hret", error(nil)
	if rng.Intn(2) == 0 {
		k, err = "hfail", errHist
	}
	for y := rng.Intn(4); y > 0; y-- {
		spin(rng.Intn(3000))
	}
	ri := d.invoke(k, 0)
	d.ret <- err
	return ri
}

// runHist runs random concurrent uses of one or several calls of one
// connection and records their histories.
func runHist(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	calls := 1
	if n, _ := strconv.Atoi(sc.Opt["calls"]); n > 1 {
		calls = 2 + rng.Intn(n-1)
	}
	m := &histMux{}
	for i := 0; i < calls; i++ {
		d := &histDrv{h: history{Ops: []*histOp{}, Log: [][]any{}}, seed: sc.Seed + int64(i), ret: make(chan error, 1), ready: make(chan struct{}), budget: 9}
		if calls > 1 {
			d.budget = 6
		}
		for s := range d.ths {
			d.ths[s] = make([]*histThread, 0, 1+rng.Intn(3))
		}
		m.ds = append(m.ds, d)
	}
	w, err := newWorld(sc.Opt["world"], m, rng)
	if err != nil {
		return "setup: " + err.Error()
	}
	errs := make(chan error, calls)
	for i, d := range m.ds {
		go func() { errs <- d.start(w.client, strconv.Itoa(i)) }()
	}
	for range m.ds {
		if err := <-errs; err != nil {
			return "a call could not be opened: " + err.Error()
		}
	}
	synctest.Wait()
	phases := 1 + rng.Intn(3)
	for ph := 0; ph < phases; ph++ {
		if calls > 1 {
			for k := rng.Intn(4); k > 0; k-- {
				go m.echoCalls(w.client, rng.Int63(), 1+rng.Intn(2))
			}
		}
		ri := make([]int, calls)
		for i, d := range m.ds {
			ri[i] = d.phase(rng, ph == phases-1)
		}
		synctest.Wait()
		for i, d := range m.ds {
			if ri[i] > 0 {
				d.returned(ri[i], "ok", 0)
			}
			d.event("q")
		}
	}
	for i, d := range m.ds {
		d.mu.Lock()
		b, _ := json.Marshal(d.h)
		sc.logs = append(sc.logs, string(b))
		if d.bad != "" {
			m.problem("call %d: %s", i, d.bad)
		}
		for j, k := range d.kept {
			if !bytes.Equal(k.got, k.want) {
				m.problem("call %d: received message %d was modified after it was delivered", i, j+1)
			}
		}
		d.mu.Unlock()
	}
	// every operation returns in the end
	for _, d := range m.ds {
		d.cancel()
		if !d.returnd {
			d.ret <- nil
		}
	}
	w.down()
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	for i, d := range m.ds {
		d.mu.Lock()
		for s := range d.ths {
			for _, t := range d.ths[s] {
				if t.busy {
					b, _ := json.Marshal(d.h)
					m.problem("call %d: an operation did not return after the call was cancelled and the connection closed: %s", i, b)
				}
				close(t.in)
			}
		}
		d.mu.Unlock()
	}
	return m.bad
}

// spin burns a little time.
func spin(n int) {
	x := 1
	for i := 0; i < n; i++ {
		x = x*3 + i
	}
	if x == 42 {
		panic("unlikely")
	}
}
