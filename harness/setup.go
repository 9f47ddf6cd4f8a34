package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing/synctest"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

func endErr(k string) error {
	if k == "eof" {
		return io.EOF
	}
	return errStream
}

// setupPacket is a packet a misbehaving or proper peer sends.
func setupPacket(rng *rand.Rand, k, id, text string) []byte {
	switch k {
	case "init":
		return initPacket(id)
	case "ackok", "ack":
		return ackPacket("")
	case "ackerr":
		return ackPacket(text)
	case "data":
		return dataPacket([]byte("data"))
	case "empty":
		if rng.Intn(2) == 0 {
			return dataPacket(nil)
		}
		return nil
	}
	return nil
}

// runSetup replays a behaviour of Setup.tla.
func runSetup(sc *Scn) string {
	if sc.Opt["side"] == "caller" {
		return runSetupCaller(sc)
	}
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	id := randID(rng)
	if rng.Intn(10) == 0 {
		id = ""
	}
	ss := newScriptStream(context.Background())
	ss.onSend = func(b []byte) {
		p := &rpcstream.RpcStreamPacket{}
		if err := p.UnmarshalVT(b); err != nil {
			rec.tok("sent", "garbage")
			return
		}
		switch x := p.GetBody().(type) {
		case *rpcstream.RpcStreamPacket_Ack:
			text := x.Ack.GetError()
			switch {
			case text == "":
				rec.tok("sent", "ackok")
			case text == rpcstream.ErrNoServerForComponent.Error():
				rec.tok("sent", "acknone")
			case text == errText1(sc) || errText1(sc) == "":
				rec.tok("sent", "ackerr")
			default:
				rec.tok("sent", "ack:"+x.Ack.GetError())
			}
		case *rpcstream.RpcStreamPacket_Data:
			// packets of the call inside
		default:
			rec.tok("sent", "other")
		}
	}
	svc, meth := randID(rng), randID(rng)
	hret := make(chan struct{})
	released := 0
	returned := false
	inv := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
		if s != svc || m != meth {
			rec.tok("hstart", fmt.Sprintf("%q %q", s, m))
		} else {
			rec.res("hstart", nil)
		}
		select {
		case <-hret:
		case <-strm.Context().Done():
			rec.tok("hctx", "done")
		}
		return true, nil
	})
	getErr := errValue(errText1(sc), int(sc.Seed>>9&0xff))
	serve := func(getter string) {
		get := func(ctx context.Context, cid string) (srpc.Invoker, func(), error) {
			if cid != id {
				rec.tok("asked", cid)
			} else {
				rec.tok("asked", "id")
			}
			if ctx.Err() != nil && ss.ctx.Err() == nil {
				rec.tok("asked", "with a cancelled context")
			}
			rel := func() {
				released++
				if released > 1 {
					rec.tok("released", "again")
				} else {
					rec.tok("released", "once")
				}
			}
			switch getter {
			case "found":
				return inv, rel, nil
			case "foundnorel":
				return inv, nil, nil
			case "none":
				return nil, nil, nil
			case "block":
				<-ctx.Done()
			}
			return nil, nil, getErr
		}
		go func() {
			err := rpcstream.HandleRpcStream(ss, get)
			returned = true
			switch {
			case err == rpcstream.ErrNoServerForComponent:
				rec.tok("ret", "none")
			case err == getErr:
				rec.add(Got{Name: "ret", Kind: "err", Err: err, Alt: "geterr"})
			default:
				rec.res("ret", err)
			}
		}()
	}
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "serve":
			serve(st.str(1))
		case "serr":
			ss.mu.Lock()
			ss.sendEr = errStream
			ss.mu.Unlock()
		case "peer":
			switch st.str(1) {
			case "callstart":
				p, _ := srpc.NewCallStartPacket(svc, meth, []byte("first"), false).MarshalVT()
				ss.push(dataPacket(p))
			case "nilinit":
				if rng.Intn(2) == 0 {
					ss.push(nil)
				} else {
					// an unknown field only
					ss.push([]byte{0x7a, 0x01, 0x78})
				}
			default:
				ss.push(setupPacket(rng, st.str(1), id, "verif: text"))
			}
		case "end":
			if st.str(1) == "cancel" {
				ss.cancel()
			} else {
				ss.finish(endErr(st.str(1)))
			}
		case "hret":
			close(hret)
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		got := rec.take()
		if returned {
			// the stream ends when the handler returns
			ss.cancel()
			synctest.Wait()
			got = append(got, rec.take()...)
		}
		if p := compare(st.O, got, ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
	}
	ss.cancel()
	ss.finish(io.EOF)
	synctest.Wait()
	return fail
}

// errText1 is the text of the getter's error.
func errText1(sc *Scn) string {
	l := []string{"verif: no such component", "x", "ünïcode ∂", strings.Repeat("long ", 500), "line\nbreak", "EOF", "context canceled", "unimplemented", "handler: EOF", ""}
	return l[int(uint64(sc.Seed)>>3)%len(l)]
}

func runSetupCaller(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	id := randID(rng)
	if rng.Intn(10) == 0 {
		id = ""
	}
	text := errText1(sc)
	if text == "" {
		text = "x" // the empty text is a success
	}
	ss := newScriptStream(context.Background())
	octx := ss.ctx
	ss.onSend = func(b []byte) {
		p := &rpcstream.RpcStreamPacket{}
		_ = p.UnmarshalVT(b)
		x, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Init)
		if !ok || x.Init.GetComponentId() != id {
			rec.tok("sent", fmt.Sprintf("%v", p))
			return
		}
		rec.tok("sent", "init")
	}
	callErr := errors.New("verif: the call failed")
	fail := ""
	var opened rpcstream.RpcStream
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "open":
			ack := st.str(1) == "ack"
			switch st.str(2) {
			case "senderr":
				ss.mu.Lock()
				ss.sendEr = errStream
				ss.mu.Unlock()
			}
			caller := func(ctx context.Context) (*scriptStream, error) {
				if ctx != octx {
					rec.tok("sent", "call with another context")
				}
				if st.str(2) == "callererr" {
					return nil, callErr
				}
				return ss, nil
			}
			go func() {
				strm, err := rpcstream.OpenRpcStream(octx, caller, id, ack)
				if err == nil && strm == nil {
					err = errors.New("verif: no stream and no error")
				}
				if err != nil && strm != nil {
					rec.tok("open", "both a stream and an error")
					return
				}
				opened = strm
				switch {
				case err == callErr:
					rec.tok("open", "callererr")
				case err != nil && strings.HasSuffix(err.Error(), text) && strings.Contains(err.Error(), "remote"):
					rec.add(Got{Name: "open", Kind: "err", Err: err, Detail: "ackerr"})
				default:
					rec.res("open", err)
				}
			}()
		case "peer":
			ss.push(setupPacket(rng, st.str(1), id, text))
		case "end":
			if st.str(1) == "cancel" {
				ss.cancel()
			} else {
				ss.finish(endErr(st.str(1)))
			}
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		got := rec.take()
		for k := range got {
			if got[k].Detail == "ackerr" {
				for _, o := range st.O {
					if o.N == "open" && o.R[0] == "ackerr" {
						got[k] = Got{Name: "open", Kind: "ackerr", Token: true}
					}
				}
			}
			if got[k].Name == "open" && got[k].Kind != "ok" && got[k].Kind != "callererr" {
				if c, _ := ss.counts(); c > 0 {
					got = append(got, Got{Name: "strmclosed", Kind: "yes", Token: true})
				}
			}
		}
		if p := compare(st.O, got, ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
	}
	if c, _ := ss.counts(); fail == "" && opened != nil && c > 0 {
		fail = "the opened stream was closed"
	}
	ss.cancel()
	ss.finish(io.EOF)
	synctest.Wait()
	return fail
}

func init() { suites["setup"] = suite{run: runSetup, bubble: true} }
