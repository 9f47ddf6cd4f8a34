package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/aperturerobotics/starpc/srpc"
)

// fakeStream is a srpc.Stream and srpc.PacketWriter which records its use.
type fakeStream struct {
	rec   *Rec
	err   error // the next result
	clErr error
	arg   any // the argument which must arrive
	ctx   context.Context
	bad   string
}

func (f *fakeStream) op(name string, arg any) error {
	if arg != f.arg {
		f.bad = fmt.Sprintf("%s: other argument %v, want %v", name, arg, f.arg)
	}
	f.rec.tok("inner", name)
	return f.err
}
func (f *fakeStream) Context() context.Context         { f.rec.tok("inner", "ctx"); return f.ctx }
func (f *fakeStream) MsgSend(m srpc.Message) error     { return f.op("send", m) }
func (f *fakeStream) MsgRecv(m srpc.Message) error     { return f.op("recv", m) }
func (f *fakeStream) CloseSend() error                 { return f.op("half", f.arg) }
func (f *fakeStream) WritePacket(p *srpc.Packet) error { return f.op("write", p) }
func (f *fakeStream) Close() error                     { f.rec.tok("called0", "once"); return f.clErr }

// runWrap replays a behaviour of Wrap.tla.
func runWrap(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	ctx := context.WithValue(context.Background(), fakeStream{}, 1)
	f := &fakeStream{rec: rec, ctx: ctx}
	fnErr := make([]error, 8)
	var strm srpc.Stream
	var wr srpc.PacketWriter
	var cl srpc.Client
	svc, meth := randID(rng), randID(rng)
	in, out := srpc.NewRawMessage([]byte("x"), true), srpc.NewRawMessage(nil, true)
	names := map[error]string{nil: "ok"}
	result := func(err error) {
		r, ok := names[err]
		if !ok {
			r = "unknown error " + err.Error()
		}
		rec.tok("result", r)
	}
	mk := func(k int, r string) error {
		if r == "ok" {
			return nil
		}
		// errors may look alike: the value itself is passed on
		e := errors.New("verif: " + strconv.Itoa(rng.Intn(2)))
		names[e] = "err" + strconv.Itoa(k)
		return e
	}
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "make":
			depth := st.num(2)
			switch st.str(1) {
			case "stream":
				strm = f
				for k := 1; k <= depth; k++ {
					strm = srpc.NewStreamWithClose(strm, func() error { rec.tok("called"+strconv.Itoa(k), "once"); return fnErr[k] })
				}
			case "writer":
				wr = f
				for k := 1; k <= depth; k++ {
					wr = srpc.NewPacketWriterWithClose(wr, func() error { rec.tok("called"+strconv.Itoa(k), "once"); return fnErr[k] })
				}
			case "client":
				cl = srpc.NewVClient(&fakeClient{call: func(cctx context.Context, kind, s, m string, a, o srpc.Message) (srpc.Stream, error) {
					if s != svc || m != meth || a != srpc.Message(in) || (kind == "exec" && o != srpc.Message(out)) || cctx != ctx {
						f.bad = "the client got other arguments"
					}
					rec.tok("inner", kind)
					return f, f.err
				}}, quietLog())
			}
		case "op":
			f.err = mk(0, st.str(2))
			switch st.str(1) {
			case "send":
				f.arg = srpc.Message(in)
				result(strm.MsgSend(in))
			case "recv":
				f.arg = srpc.Message(out)
				result(strm.MsgRecv(out))
			case "half":
				result(strm.CloseSend())
			case "ctx":
				if strm.Context() != ctx {
					f.bad = "another context"
				}
				result(nil)
			case "write":
				p := srpc.NewCallCancelPacket()
				f.arg = p
				result(wr.WritePacket(p))
			case "exec":
				result(cl.ExecCall(ctx, svc, meth, in, out))
			case "stream":
				s, err := cl.NewStream(ctx, svc, meth, in)
				if s != srpc.Stream(f) {
					f.bad = "another stream"
				}
				result(err)
			}
		case "close":
			rs := make([]string, 0, 4)
			for k := 1; k < len(st.A); k++ {
				rs = append(rs, st.str(k))
			}
			f.clErr = mk(0, rs[0])
			for k := 1; k < len(rs); k++ {
				fnErr[k] = mk(k, rs[k])
			}
			if strm != nil {
				result(strm.Close())
			} else {
				result(wr.Close())
			}
		}
		if p := compare(st.O, rec.take(), ""); p != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, p)
		}
		if f.bad != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, f.bad)
		}
	}
	return ""
}

func init() { suites["wrap"] = suite{run: runWrap} }
