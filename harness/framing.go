package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"slices"
	"sync"
	"syscall"
	"testing/synctest"

	"github.com/aperturerobotics/starpc/srpc"
)

// chunkRw is the byte stream under the packet reader: reads return exactly
// what was scheduled, writes are accepted in pieces.
type chunkRw struct {
	mu     sync.Mutex
	rng    *rand.Rand
	rrng   *rand.Rand // of the reader
	out    []byte     // what was written
	limit  int        // total bytes the stream accepts, -1: any
	ch     chan chunk
	cur    chunk
	closed chan struct{}
	once   sync.Once
	yield  bool
}

type chunk struct {
	data []byte
	err  error // returned together with the last bytes
}

var errStream = errors.New("verif: stream failed")

// streamErr is an error of the stream: whatever it is, it is not its end.
func streamErr(rng *rand.Rand) error {
	return []error{errStream, errStream, io.ErrClosedPipe, io.ErrUnexpectedEOF, net.ErrClosed, os.ErrDeadlineExceeded,
		context.DeadlineExceeded, io.ErrNoProgress, syscall.ECONNRESET, syscall.EPIPE}[rng.Intn(10)]
}

func (c *chunkRw) Write(p []byte) (int, error) {
	if c.yield {
		runtime.Gosched()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(p)
	if n > 1 && c.rng.Intn(2) == 0 {
		n = 1 + c.rng.Intn(n-1) // partial acceptance
	}
	if c.limit >= 0 && len(c.out)+n >= c.limit { // also with the last byte
		n = c.limit - len(c.out)
		c.out = append(c.out, p[:n]...)
		return n, errStream
	}
	c.out = append(c.out, p[:n]...)
	return n, nil
}

func (c *chunkRw) Read(p []byte) (int, error) {
	if c.rrng.Intn(16) == 0 {
		return 0, nil
	}
	for len(c.cur.data) == 0 && c.cur.err == nil {
		select {
		case c.cur = <-c.ch:
		case <-c.closed:
			return 0, io.ErrClosedPipe
		}
	}
	n := copy(p, c.cur.data)
	c.cur.data = c.cur.data[n:]
	if len(c.cur.data) == 0 && c.cur.err != nil {
		return n, c.cur.err
	}
	return n, nil
}

func (c *chunkRw) Close() error { c.once.Do(func() { close(c.closed) }); return nil }

// randPacket returns a packet whose encoding is about n bytes long.
func randPacket(rng *rand.Rand, n int) *srpc.Packet {
	b := make([]byte, n)
	rng.Read(b)
	switch rng.Intn(8) {
	case 0:
		return srpc.NewCallStartPacket(randID(rng), randID(rng), b, len(b) == 0)
	case 1:
		if n < 20 {
			return srpc.NewCallCancelPacket()
		}
	case 2:
		if n < 300 {
			return srpc.NewCallDataPacket(nil, false, true, errors.New("e"+string(bytes.ToValidUTF8(b, []byte("?")))))
		}
	case 3:
		return srpc.NewCallDataPacket(b, len(b) == 0, true, nil)
	}
	return srpc.NewCallDataPacket(b, len(b) == 0, false, nil)
}

func frameSize(rng *rand.Rand) int {
	switch rng.Intn(10) {
	case 0, 1, 2:
		return rng.Intn(40)
	case 3:
		return 2020 + rng.Intn(60)
	case 4:
		if rng.Intn(40) == 0 {
			return 3000000 + rng.Intn(6990000)
		}
		return 4070 + rng.Intn(60)
	}
	return sizeClasses[rng.Intn(len(sizeClasses))]
}

// exactPacket has an encoding of exactly n bytes.
func exactPacket(n int) *srpc.Packet {
	for k := n; k >= 0 && k > n-20; k-- {
		p := srpc.NewCallDataPacket(make([]byte, k), false, false, nil)
		if p.SizeVT() == n {
			return p
		}
	}
	return nil
}

// runFraming replays a behaviour of Framing.tla.
func runFraming(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	body := 2
	burst := 0 // an abstract packet stands for up to that many packets
	if rng.Intn(3) == 0 {
		burst = []int{2, 3, 8, 9, 17, 40, 300}[rng.Intn(7)]
	}
	rw := &chunkRw{rng: rng, rrng: rand.New(rand.NewSource(rng.Int63())), limit: -1, ch: make(chan chunk, 1), closed: make(chan struct{})}
	prw := srpc.NewPacketReadWriter(rw)
	var want [][]byte // encoded packets written
	var whole []int   // whole[i]: packet i completes this abstract packet (0: none)
	nabs := 0
	var ends []int // unit position -> byte position, per unit
	ends = append(ends, 0)
	got, done, cberr := 0, 0, -1
	errCb := []error{errors.New("verif: consumer failed"), io.EOF, context.Canceled, io.ErrClosedPipe}[rng.Intn(4)]
	go prw.ReadPump(func(data []byte) error {
		got++
		if got > len(want) || want[got-1] == nil || !bytes.Equal(data, want[got-1]) {
			rec.add(Got{Name: "pkt", Kind: "wrong", Detail: fmt.Sprintf("packet %d: %d bytes %.20x", got, len(data), data)})
			return nil
		}
		// the buffer is ours during the callback only
		if whole[got-1] == 0 {
			return nil
		}
		done++
		rec.tok("pkt", fmt.Sprintf("p%d", whole[got-1]))
		if done-1 == cberr {
			return errCb
		}
		return nil
	}, func(err error) {
		if cberr >= 0 && cberr < done && err == errCb {
			rec.tok("closed", "cberr")
			return
		}
		rec.res("closed", err)
	})
	del, delBytes := 0, 0
	stream := func() []byte { rw.mu.Lock(); defer rw.mu.Unlock(); return rw.out }
	fail := ""
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "write":
			k := 1
			if burst > 0 {
				k = 1 + rng.Intn(burst)
			}
			nabs++
			var werr error
			start := len(stream())
			inner := map[int]bool{} // positions between the packets of the burst
			for n := 1; n <= k; n++ {
				size := frameSize(rng)
				if k > 3 {
					size = rng.Intn(20)
				}
				p := randPacket(rng, size)
				if burst == 0 && rng.Intn(400) == 0 {
					p = exactPacket(10000000) // the largest frame allowed
				}
				enc, err := p.MarshalVT()
				if err != nil {
					return err.Error()
				}
				at := len(stream())
				inner[at] = true
				want = append(want, enc)
				whole = append(whole, 0)
				err = prw.WritePacket(p)
				if werr == nil {
					werr = err
				}
				if n := len(stream()) - at; err == nil && n != len(enc)+4 {
					return fmt.Sprintf("step %d: WritePacket put %d bytes on the stream, frame has %d", i+1, n, len(enc)+4)
				}
			}
			rec.res("write", werr)
			whole[len(whole)-1] = nabs
			end := len(stream())
			for j := 1; j <= 4; j++ {
				ends = append(ends, start+j)
			}
			var pos []int
			for j := 1; j < body; j++ {
				x := start + 4 + rng.Intn(end-start-4)
				for inner[x] {
					x++
				}
				pos = append(pos, x)
			}
			slices.Sort(pos)
			ends = append(append(ends, pos...), end)
		case "werr":
			rw.mu.Lock()
			p := randPacket(rng, 1+frameSize(rng))
			rw.limit = len(rw.out) + rng.Intn(p.SizeVT()+5)
			if rng.Intn(8) == 0 {
				rw.limit = len(rw.out) + p.SizeVT() + 4 // everything is taken, and still an error
			}
			at := len(rw.out)
			rw.mu.Unlock()
			rec.res("write", prw.WritePacket(p))
			rw.mu.Lock()
			rw.out = rw.out[:at] // never delivered
			rw.limit = at
			rw.mu.Unlock()
		case "bad":
			at := len(stream())
			hdr := []byte{0, 0, 0, 0}
			if st.str(1) == "over" {
				n := []uint32{10000001, 10000002, 0xffffffff, 0x80000000, 0x01000000 + uint32(rng.Intn(1000))}[rng.Intn(5)]
				hdr = []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
			}
			rw.mu.Lock()
			rw.out = append(rw.out, hdr...)
			rw.mu.Unlock()
			want, whole = append(want, nil), append(whole, 0)
			nabs++
			for j := 1; j <= 4; j++ {
				ends = append(ends, at+j)
			}
		case "cberr":
			cberr = done
		case "eof":
			rw.ch <- chunk{err: io.EOF}
		case "err":
			rw.ch <- chunk{err: streamErr(rng)}
		case "chunk", "chunkeof", "chunkerr":
			del += st.num(1)
			to := ends[del]
			c := chunk{data: append([]byte(nil), stream()[delBytes:to]...)}
			delBytes = to
			switch st.op() {
			case "chunkeof":
				c.err = io.EOF
			case "chunkerr":
				c.err = streamErr(rng)
			}
			rw.ch <- c
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if p := compare(st.O, rec.take(), ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
	}
	_ = rw.Close()
	synctest.Wait()
	return fail
}

// runCwrite: several goroutines write packets to one stream.
func runCwrite(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	st := sc.Beh.Steps[0]
	writers, each := st.num(1), st.num(2)
	rw := &chunkRw{rng: rng, rrng: rand.New(rand.NewSource(rng.Int63())), limit: -1, ch: make(chan chunk, 1), closed: make(chan struct{}), yield: true}
	prw := srpc.NewPacketReadWriter(rw)
	var wg sync.WaitGroup
	errs := make(chan error, writers*each)
	sizes := make([]int, writers*each)
	for i := range sizes {
		sizes[i] = frameSize(rng) % 5000
	}
	for k := 0; k < writers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				b := make([]byte, 2+sizes[k*each+i])
				for j := range b {
					b[j] = byte(k)
				}
				b[1] = byte(i)
				if err := prw.WritePacket(srpc.NewCallDataPacket(b, false, false, nil)); err != nil {
					errs <- err
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return "write failed: " + err.Error()
	default:
	}
	next := make([]int, writers)
	fail := ""
	var ended error
	done := make(chan struct{})
	go prw.ReadPump(srpc.NewPacketDataHandler(func(p *srpc.Packet) error {
		b := p.GetCallData().GetData()
		if len(b) < 2 || int(b[0]) >= writers {
			return fmt.Errorf("foreign packet %.10x", b)
		}
		k := int(b[0])
		if int(b[1]) != next[k] {
			return fmt.Errorf("writer %d: packet %d out of order, want %d", k, b[1], next[k])
		}
		if len(b) != 2+sizes[k*each+next[k]] || (len(b) > 2 && bytes.Count(b[2:], []byte{byte(k)}) != len(b)-2) {
			return fmt.Errorf("writer %d: packet %d damaged", k, b[1])
		}
		next[k]++
		return nil
	}), func(err error) { ended = err; close(done) })
	rest := rw.out
	for len(rest) > 0 {
		n := 1 + rng.Intn(len(rest))
		select {
		case rw.ch <- chunk{data: rest[:n]}:
		case <-done:
			return fmt.Sprintf("reader ended: %v", ended)
		}
		rest = rest[n:]
	}
	select {
	case rw.ch <- chunk{err: io.EOF}:
	case <-done:
		return fmt.Sprintf("reader ended: %v", ended)
	}
	<-done
	if ended != nil {
		fail = "stream of concurrent writers is damaged: " + ended.Error()
	}
	for k := range next {
		if next[k] != each && fail == "" {
			fail = fmt.Sprintf("writer %d: %d of %d packets arrived", k, next[k], each)
		}
	}
	_ = rw.Close()
	return fail
}

func init() {
	suites["framing"] = suite{run: runFraming, bubble: true}
	suites["cwrite"] = suite{run: runCwrite}
}
