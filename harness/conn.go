package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// connRw is the stream under a RwcConn: reads come from a wire, writes are
// accepted in pieces.
type connRw struct {
	in      *wire
	rng     *rand.Rand
	mu      sync.Mutex
	out     []byte
	broken  bool
	grace   int // pieces still accepted when broken
	partial bool
	closed  bool
	endWith bool // report the end together with the last bytes
}

func (c *connRw) Read(p []byte) (int, error) {
	c.mu.Lock()
	none := c.partial && c.rng.Intn(8) == 0
	c.mu.Unlock()
	if none {
		return 0, nil
	}
	n, err := c.in.read(p)
	if err == nil && c.endWith {
		c.in.mu.Lock()
		if len(c.in.buf) == 0 && c.in.fin {
			err = io.EOF
			if c.in.finErr != nil {
				err = c.in.finErr
			}
		}
		c.in.mu.Unlock()
	}
	return n, err
}

func (c *connRw) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	n := len(p)
	if n > 1 && c.partial && c.rng.Intn(3) != 0 {
		n = 1 + c.rng.Intn(n-1)
	}
	if c.broken && c.grace > 0 && c.partial && len(p) > 1 {
		c.grace--
		n = 1 + c.rng.Intn(len(p)-1)
	} else if c.broken {
		n = c.rng.Intn(n)
		c.out = append(c.out, p[:n]...)
		return n, errStream
	}
	c.out = append(c.out, p[:n]...)
	return n, nil
}

func (c *connRw) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	c.in.closeRead()
	return nil
}

// runConn replays a behaviour of Conn.tla.
func runConn(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	in := newWire(false, rng, []int{0, 0, 1, 50, 3000}[rng.Intn(5)])
	rw := &connRw{in: in, rng: rng, partial: rng.Intn(2) == 0, endWith: rng.Intn(2) == 0}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	la, ra := &net.TCPAddr{Port: 1}, &net.TCPAddr{Port: 2}
	base, _ := bubbled()
	conn := srpc.NewRwcConn(ctx, rw, la, ra, []int{0, 1, 1, 2, 10}[rng.Intn(5)])
	if conn.LocalAddr() != net.Addr(la) || conn.RemoteAddr() != net.Addr(ra) {
		return "wrong addresses"
	}
	br := &byteReader{rng: rand.New(rand.NewSource(rng.Int63())), r: conn, seed: sc.Seed, dir: 1}
	units, wunits := 0, 0
	var wrote []byte
	fail := ""
	finish := func(k string) {
		in.mu.Lock()
		in.fin = true
		if k == "err" {
			in.finErr = streamErr(rng)
			for errors.Is(in.finErr, context.DeadlineExceeded) || errors.Is(in.finErr, os.ErrDeadlineExceeded) {
				in.finErr = streamErr(rng)
			}
		}
		in.changed()
		in.mu.Unlock()
	}
	var closedByUs atomic.Bool
	read := func(n int) {
		go func() {
			r, err := br.read2(n)
			switch {
			case r == "err" && errors.Is(err, os.ErrDeadlineExceeded):
				var ne net.Error
				if !errors.As(err, &ne) || !ne.Timeout() {
					rec.add(Got{Name: "read", Kind: "wrong", Detail: "deadline error is not a timeout", Err: err})
					return
				}
				rec.tok("read", "timeout")
			case r == "err":
				in.mu.Lock()
				want := in.finErr
				in.mu.Unlock()
				if want != nil && ctx.Err() == nil && !closedByUs.Load() && !errors.Is(err, want) {
					rec.add(Got{Name: "read", Kind: "wrong", Detail: fmt.Sprintf("the stream failed with %v", want), Err: err})
					return
				}
				rec.res("read", err)
			case r == "wrong":
				rec.add(Got{Name: "read", Kind: "wrong", Err: err})
			default:
				rec.res("read", nil)
			}
		}()
	}
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "send":
			in.inject(br.sent(st.num(1), &units))
		case "sendend":
			b := br.sent(st.num(1), &units)
			in.mu.Lock()
			in.buf = append(in.buf, b...)
			in.mu.Unlock()
			finish(st.str(2))
		case "end":
			finish(st.str(1))
		case "read":
			read(st.num(1))
		case "retry":
			read(0)
		case "arm":
			_ = setDeadline(rng, conn, time.Now().Add(10*time.Second))
		case "armpast":
			_ = setDeadline(rng, conn, time.Now().Add(-10*time.Second))
		case "clear":
			_ = setDeadline(rng, conn, []time.Time{{}, time.Now().Add(1000 * time.Hour)}[rng.Intn(2)])
		case "time":
			time.Sleep(11 * time.Second)
		case "half":
			time.Sleep(6 * time.Second)
		case "werr":
			rw.mu.Lock()
			rw.broken, rw.grace = true, rng.Intn(3)
			rw.mu.Unlock()
		case "write":
			var b []byte
			for k := 0; k < st.num(1); k++ {
				wunits++
				b = append(b, unitBytes(sc.Seed, 2, wunits)...)
			}
			n, err := conn.Write(b)
			rec.res("write", err)
			if n < 0 || n > len(b) || (err == nil && n != len(b)) {
				return fmt.Sprintf("step %d %s: Write of %d bytes returned %d, %v", i+1, st, len(b), n, err)
			}
			wrote = append(wrote, b[:n]...)
			for k := range b {
				b[k] ^= 0xa5
			}
			rw.mu.Lock()
			same := bytes.Equal(rw.out, wrote)
			rw.mu.Unlock()
			if !same {
				return fmt.Sprintf("step %d %s: %d bytes written, %d arrived or differ", i+1, st, len(wrote), len(rw.out))
			}
		case "close":
			closedByUs.Store(true)
			rec.res("close", conn.Close())
			if !rw.closed {
				return fmt.Sprintf("step %d %s: the stream was not closed", i+1, st)
			}
		case "cancel":
			closedByUs.Store(true)
			cancel()
		default:
			return "unknown op " + st.String()
		}
		synctest.Wait()
		if p := compare(st.O, rec.take(), ""); p != "" {
			fail = fmt.Sprintf("step %d %s: %s", i+1, st, p)
			break
		}
	}
	if fail == "" && closedByUs.Load() {
		// operations on the closed connection return
		done := false
		go func() {
			buf := make([]byte, 100)
			for k := 0; k < 5000; k++ {
				if _, err := conn.Read(buf); err != nil {
					break
				}
			}
			done = true
		}()
		synctest.Wait()
		if !done {
			fail = "a read on the closed connection does not return"
		}
	}
	if rng.Intn(2) == 0 {
		cancel()
		synctest.Wait()
		_ = rw.Close()
	} else {
		_ = conn.Close()
	}
	synctest.Wait()
	if fail == "" {
		if n, t := bubbled(); n > base {
			fail = fmt.Sprintf("%d goroutines left after closing:\n%s", n-base, t)
		}
	}
	return fail
}

func setDeadline(rng *rand.Rand, c net.Conn, t time.Time) error {
	if rng.Intn(2) == 0 {
		return c.SetDeadline(t)
	}
	return c.SetReadDeadline(t)
}

// read2 is read, but an interrupted read keeps its goal.
func (b *byteReader) read2(n int) (string, error) {
	goal := b.goal
	unit := b.unit
	for i := 0; i < n; i++ {
		unit++
		goal += len(unitBytes(b.seed, b.dir, unit))
	}
	b.goal, b.unit = goal, unit
	r, err := b.read(0, nil)
	b.goal, b.unit = goal, unit
	return r, err
}

func init() { suites["conn"] = suite{run: runConn, bubble: true} }
