package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// strmItem is something a scripted stream hands out: a message or its end.
type strmItem struct {
	data []byte
	err  error
}

// scriptStream is a srpc.Stream and RpcStream under the harness' control.
type scriptStream struct {
	ctx    context.Context
	cancel context.CancelFunc
	mu     sync.Mutex
	ch     chan struct{}
	in     []strmItem
	end    error
	sent   [][]byte // what the code under test sent
	sendEr error
	half   int
	closes int
	keep   bool // keep what MarshalVT returns, as a sender may
	onSend func([]byte)
	linger time.Duration // receives of an ended stream return that much later
	busy   int           // receives in progress
}

// ended is how a receive reports the end.
func (s *scriptStream) ended(err error) error {
	if s.linger > 0 {
		s.mu.Unlock()
		time.Sleep(s.linger)
		s.mu.Lock()
	}
	s.busy--
	s.mu.Unlock()
	return err
}

func newScriptStream(parent context.Context) *scriptStream {
	ctx, cancel := context.WithCancel(parent)
	return &scriptStream{ctx: ctx, cancel: cancel, ch: make(chan struct{})}
}

func (s *scriptStream) changed() { close(s.ch); s.ch = make(chan struct{}) }

func (s *scriptStream) push(data []byte) {
	s.mu.Lock()
	s.in = append(s.in, strmItem{data: data})
	s.changed()
	s.mu.Unlock()
}

func (s *scriptStream) finish(err error) {
	s.mu.Lock()
	if s.end == nil {
		s.end = err
	}
	s.changed()
	s.mu.Unlock()
}

func (s *scriptStream) Context() context.Context { return s.ctx }

func (s *scriptStream) MsgSend(msg srpc.Message) error {
	b, err := msg.MarshalVT()
	if err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closes > 0 {
		return errors.New("verif: sent after close")
	}
	if s.half > 0 {
		return errors.New("verif: sent after half-close")
	}
	if s.sendEr != nil {
		return s.sendEr
	}
	if !s.keep {
		b = append([]byte(nil), b...)
	}
	s.sent = append(s.sent, b)
	if s.onSend != nil {
		s.onSend(b)
	}
	return nil
}

func (s *scriptStream) MsgRecv(msg srpc.Message) error {
	s.mu.Lock()
	s.busy++
	for {
		if s.closes > 0 {
			return s.ended(errors.New("verif: stream closed"))
		}
		if len(s.in) > 0 {
			it := s.in[0]
			s.in = s.in[1:]
			if it.err != nil {
				return s.ended(it.err)
			}
			s.busy--
			s.mu.Unlock()
			// the buffer is reused as soon as the message is unmarshalled
			buf := append([]byte(nil), it.data...)
			err := msg.UnmarshalVT(buf)
			for i := range buf {
				buf[i] ^= 0x5a
			}
			return err
		}
		if s.end != nil {
			return s.ended(s.end)
		}
		if s.ctx.Err() != nil {
			return s.ended(context.Canceled)
		}
		ch := s.ch
		s.mu.Unlock()
		select {
		case <-ch:
		case <-s.ctx.Done():
		}
		s.mu.Lock()
	}
}

func (s *scriptStream) CloseSend() error {
	s.mu.Lock()
	s.half++
	s.changed()
	s.mu.Unlock()
	return nil
}

func (s *scriptStream) Close() error {
	s.mu.Lock()
	s.closes++
	s.changed()
	s.mu.Unlock()
	s.cancel()
	return nil
}

func (s *scriptStream) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }
func (s *scriptStream) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := s.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

func (s *scriptStream) counts() (closes, half int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closes, s.half
}

func (s *scriptStream) sentMsgs() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]byte(nil), s.sent...)
}

// bulk makes most units big: many times what any buffer holds.
var bulk bool

// unitBytes is the content of unit i of a direction.
func unitBytes(seed int64, dir, i int) []byte {
	h := hash64(seed, int64(dir), int64(i), 5)
	n := 1 + int(h%9)
	switch h >> 8 % 16 {
	case 0, 1:
		n = sizeClasses[int(h>>16)%len(sizeClasses)]
	case 2:
		n = []int{511, 512, 513, 2047, 2048, 2049, 4096, 8192, 8193}[int(h>>16)%9]
	}
	if bulk {
		if h>>8%4 != 0 {
			n = 50000 + int(h>>16)%1450000
		}
		x := []byte("\x01" + fmt.Sprint(seed, dir, i, h))
		x = append(x, make([]byte, 256-len(x))...)
		for k := range x {
			x[k] += byte(k) * byte(h>>24)
		}
		b := bytes.Repeat(x, n/256+1)[:n]
		for k := 0; k+4 <= n; k += 4 << (h >> 40 % 8) {
			b[k] += byte(k >> 8)
			b[k+1] += byte(k >> 16)
		}
		return b
	}
	b := make([]byte, n)
	for k := range b {
		h ^= h << 13
		h ^= h >> 7
		h ^= h << 17
		b[k] = byte(h)
	}
	return b
}

func dataPacket(b []byte) []byte {
	p := &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}}
	out, _ := p.MarshalVT()
	return out
}

func ackPacket(text string) []byte {
	p := &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: text}}}
	out, _ := p.MarshalVT()
	return out
}

func initPacket(id string) []byte {
	p := &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: id}}}
	out, _ := p.MarshalVT()
	return out
}

// byteReader reads a byte stream with all kinds of buffer sizes and compares
// it with the units that were sent.
type byteReader struct {
	rng  *rand.Rand
	r    io.Reader
	seed int64
	dir  int
	want []byte // bytes of the units sent so far
	at   int    // bytes read
	goal int    // bytes asked for
	unit int    // units asked for
	mu   sync.Mutex
}

func (b *byteReader) sent(units int, next *int) []byte {
	var out []byte
	for i := 0; i < units; i++ {
		*next++
		out = append(out, unitBytes(b.seed, b.dir, *next)...)
	}
	b.mu.Lock()
	b.want = append(b.want, out...)
	b.mu.Unlock()
	return out
}

// read reads until the next n units are there.
func (b *byteReader) read(n int, retryable func(error) bool) (string, error) {
	for i := 0; i < n; i++ {
		b.unit++
		b.goal += len(unitBytes(b.seed, b.dir, b.unit))
	}
	for b.at < b.goal {
		size := 1 + b.rng.Intn(16)
		switch b.rng.Intn(6) {
		case 0:
			size = 1
		case 1:
			size = b.goal - b.at
		case 2:
			size = 1 + b.rng.Intn(b.goal-b.at)
		case 3:
			size = b.goal - b.at + b.rng.Intn(5000)
		case 4:
			size = sizeClasses[b.rng.Intn(len(sizeClasses))]
		}
		if bulk && b.goal-b.at > 50000 && size < 5000 {
			size += 20000
		}
		if b.goal-b.at > 3000 && size < 100 && b.rng.Intn(8) != 0 {
			size += 1000
		}
		buf := make([]byte, size+8)
		guard := buf[size:]
		k, err := b.r.Read(buf[:size:size])
		if k < 0 || k > size {
			return "wrong", fmt.Errorf("Read returned %d for a buffer of %d", k, size)
		}
		if len(bytes.Trim(guard, "\x00")) != 0 {
			return "wrong", errors.New("Read wrote beyond the buffer")
		}
		b.mu.Lock()
		want := b.want
		b.mu.Unlock()
		if b.at+k > len(want) || !bytes.Equal(buf[:k], want[b.at:b.at+k]) {
			return "wrong", fmt.Errorf("Read at byte %d returned %d bytes %.24x, %d bytes were sent", b.at, k, buf[:k], len(want))
		}
		b.at += k
		if err != nil {
			if retryable != nil && retryable(err) {
				continue
			}
			// a later read asks for what comes next
			b.goal, b.unit = b.at, b.unitAt()
			return "err", err
		}
		if k == 0 {
			return "wrong", fmt.Errorf("Read returned 0, nil for a buffer of %d bytes", size)
		}
	}
	return "ok", nil
}

// unitAt is the number of whole units read.
func (b *byteReader) unitAt() int {
	n, at := 0, 0
	for at < b.at {
		n++
		at += len(unitBytes(b.seed, b.dir, n))
	}
	return n
}

// runBytes replays a behaviour of Bytes.tla.
func runBytes(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	var view io.ReadWriteCloser
	var ss *scriptStream
	var peer srpc.Stream
	rpc := false
	switch sc.Opt["world"] {
	case "srwc":
		ss = newScriptStream(context.Background())
		ss.keep = true
		view = srpc.NewStreamRwc(ss)
	case "rrw":
		ss = newScriptStream(context.Background())
		rpc = true
		view = rpcstream.NewRpcStreamReadWriter(ss)
	case "pipe":
		var strm srpc.Stream
		strm, peer = srpc.NewPipeStream(context.Background())
		view = srpc.NewStreamRwc(strm)
	default:
		return "unknown world"
	}
	br := &byteReader{rng: rng, r: view, seed: sc.Seed, dir: 1}
	units, wunits := 0, 0
	var wrote []byte
	ackText := "verif: no " + randID(rng)
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "send":
			b := br.sent(st.num(1), &units)
			switch {
			case peer != nil:
				_ = peer.MsgSend(srpc.NewRawMessage(b, true))
			case rpc:
				ss.push(dataPacket(b))
			default:
				ss.push(b)
			}
		case "ackerr":
			ss.push(ackPacket(ackText))
		case "ackok":
			ss.push(ackPacket(""))
		case "end":
			switch {
			case peer != nil:
				_ = peer.CloseSend()
			case st.str(1) == "eof":
				ss.finish(io.EOF)
			default:
				ss.finish(errStream)
			}
		case "read":
			n := st.num(1)
			go func() {
				r, err := br.read(n, nil)
				switch {
				case r == "err" && rpc && err.Error() == ackText:
					rec.tok("read", "ackerr")
				case r == "err":
					rec.res("read", err)
				case r == "wrong":
					rec.add(Got{Name: "read", Kind: "wrong", Err: err})
				default:
					rec.res("read", nil)
				}
			}()
		case "write":
			var b []byte
			for k := 0; k < st.num(1); k++ {
				wunits++
				b = append(b, unitBytes(sc.Seed, 2, wunits)...)
			}
			wrote = append(wrote, b...)
			n, err := view.Write(b)
			if n != len(b) {
				return fmt.Sprintf("step %d %s: Write of %d bytes returned %d, %v", i+1, st, len(b), n, err)
			}
			rec.res("write", err)
			for k := range b {
				b[k] ^= 0xa5
			}
		case "close":
			rec.res("close", view.Close())
			if ss != nil && ss.closes == 0 {
				return fmt.Sprintf("step %d %s: closing the view did not close the stream", i+1, st)
			}
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if p := compare(st.O, rec.take(), ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
		// everything written has arrived
		var got []byte
		if ss != nil {
			for _, m := range ss.sentMsgs() {
				if rpc {
					p := &rpcstream.RpcStreamPacket{}
					if err := p.UnmarshalVT(m); err != nil {
						return err.Error()
					}
					m = p.GetData()
				}
				got = append(got, m...)
			}
			if !bytes.Equal(got, wrote) {
				fail = fmt.Sprintf("step %d %s: %d bytes written, %d bytes arrived, equal %v", i+1, st, len(wrote), len(got), bytes.Equal(got, wrote))
				break
			}
		}
	}
	_ = view.Close()
	synctest.Wait()
	if fail == "" && peer != nil {
		var got []byte
		for {
			m := srpc.NewRawMessage(nil, true)
			if err := peer.MsgRecv(m); err != nil {
				break
			}
			got = append(got, m.GetData()...)
		}
		if !bytes.Equal(got, wrote) {
			fail = fmt.Sprintf("%d bytes written, %d bytes arrived, equal %v", len(wrote), len(got), bytes.Equal(got, wrote))
		}
		_ = peer.Close()
	}
	return fail
}

func init() { suites["bytes"] = suite{run: runBytes, bubble: true} }
