package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing/synctest"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"
)

// probePipe measures how many messages a stream pair buffers.
func probePipe() int {
	n := 0
	synctest.Run(func() {
		ctx, cancel := context.WithCancel(context.Background())
		a, b := srpc.NewPipeStream(ctx)
		for n < 64 {
			done := false
			go func() { done = a.MsgSend(srpc.NewRawMessage([]byte("x"), true)) == nil }()
			synctest.Wait()
			if !done {
				break
			}
			n++
		}
		_ = a.Close()
		_ = b.Close()
		cancel()
		synctest.Wait()
	})
	return n
}

// runPipe replays a behaviour of Pipe.tla.
func runPipe(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	plan := msgPlan{seed: sc.Seed, empty: true}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if rng.Intn(3) == 0 {
		ctx = newForeign(ctx)
	}
	x, y := srpc.NewPipeStream(ctx)
	ends := []srpc.Stream{nil, x, y}
	if sc.Opt["wrap"] != "" {
		ends[1] = srpc.NewStreamWithClose(x, func() error { return nil })
		ends[2] = srpc.NewStreamWithClose(y, func() error { return nil })
	}
	rec := &Rec{}
	for e := 1; e <= 2; e++ {
		stop := context.AfterFunc(ends[e].Context(), func() { rec.tok(fmt.Sprintf("ctx%d", e), "done") })
		defer stop()
	}
	var mu sync.Mutex
	var nsent, nrecv [3]int
	typed := rng.Intn(3) == 0
	send := func(e int) {
		mu.Lock()
		nsent[e]++
		i := nsent[e]
		mu.Unlock()
		data := plan.payload(e, i, 0)
		var err error
		if typed {
			msg := &echo.EchoMsg{Body: fmt.Sprintf("%x", data)}
			err = ends[e].MsgSend(msg)
			msg.Body = "overwritten"
		} else {
			buf := append([]byte(nil), data...)
			err = ends[e].MsgSend(srpc.NewRawMessage(buf, true))
			for j := range buf {
				buf[j] ^= 0x77
			}
		}
		rec.res(fmt.Sprintf("send%d", e), err)
	}
	type keep struct{ got, want []byte }
	var kept []keep
	recv := func(e int) {
		name := fmt.Sprintf("recv%d", e)
		var data []byte
		var err error
		if typed {
			msg := &echo.EchoMsg{Body: "stale"}
			err = ends[e].MsgRecv(msg)
			_, _ = fmt.Sscanf(msg.GetBody(), "%x", &data)
		} else {
			msg := srpc.NewRawMessage(nil, rng.Intn(2) == 0)
			if rng.Intn(2) == 0 {
				msg.SetData([]byte("stale")) // used before
			}
			err = ends[e].MsgRecv(msg)
			data = msg.GetData()
		}
		if err != nil {
			rec.res(name, err)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		i := nrecv[e] + 1
		if i > nsent[3-e] {
			rec.tok(name, "a message which was not sent")
			return
		}
		want := plan.payload(3-e, i, 0)
		if !bytes.Equal(want, data) {
			rec.tok(name, fmt.Sprintf("message %d: %d bytes %.16x, want %d bytes %.16x", i, len(data), data, len(want), want))
			return
		}
		kept = append(kept, keep{data, want})
		nrecv[e] = i
		rec.add(Got{Name: name, Kind: "msg"})
	}
	fail := ""
	for i, st := range sc.Beh.Steps {
		e := st.num(1)
		switch st.op() {
		case "send":
			go send(e)
		case "recv":
			go recv(e)
		case "fill":
			for j := 0; j < st.num(2); j++ {
				go send(e)
				synctest.Wait()
			}
			if p := compareFill(rec.take(), e, st.num(2)); p != "" {
				fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			}
		case "drain":
			go func() {
				for j := 0; j < st.num(2); j++ {
					recv(e)
				}
			}()
		case "half":
			go func() { rec.res(fmt.Sprintf("half%d", e), ends[e].CloseSend()) }()
		case "close":
			go func() { rec.res(fmt.Sprintf("close%d", e), ends[e].Close()) }()
		case "cancel":
			cancel()
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if fail == "" {
			if p := compare(st.O, rec.take(), ""); p != "" {
				fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			}
		}
		if fail != "" {
			break
		}
	}
	for _, k := range kept {
		if fail == "" && !bytes.Equal(k.got, k.want) {
			fail = "a received message was modified later"
		}
	}
	cancel()
	synctest.Wait()
	return fail
}

func compareFill(got []Got, e, n int) string {
	for _, g := range got {
		if g.Name != fmt.Sprintf("send%d", e) || g.Kind != "ok" {
			return "while filling: " + g.String()
		}
	}
	if len(got) != n {
		return fmt.Sprintf("while filling: %d of %d sends finished", len(got), n)
	}
	return ""
}

func init() { suites["pipe"] = suite{run: runPipe, bubble: true} }
