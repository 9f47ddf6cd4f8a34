package main

import (
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"sync"
)

var errLost = errors.New("verif: connection lost")

// wire is one direction of an in-memory byte stream. In gated mode written
// bytes become readable only when released.
type wire struct {
	mu     sync.Mutex
	ch     chan struct{} // closed on change
	gated  bool
	pend   []byte // written, not released
	buf    []byte // readable
	wfin   bool   // writer closed
	fin    bool   // end of stream readable
	err    error  // both sides fail
	finErr error  // how the stream ends, default io.EOF
	rdone  bool   // reader closed: data is discarded
	stall  bool   // writes block
	werr   error  // writes fail
	rng    *rand.Rand
	chunks int // max read size, 0: any
	total  int
	deaf   bool // closing the reader does not release a blocked read
}

func newWire(gated bool, rng *rand.Rand, chunks int) *wire {
	if bulk && chunks > 0 {
		chunks += 30000
	}
	return &wire{ch: make(chan struct{}), gated: gated, rng: rand.New(rand.NewSource(rng.Int63())), chunks: chunks}
}

func (w *wire) changed() {
	close(w.ch)
	w.ch = make(chan struct{})
}

func (w *wire) write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for w.stall && w.err == nil && !w.wfin {
		ch := w.ch
		w.mu.Unlock()
		<-ch
		w.mu.Lock()
	}
	if w.err != nil {
		return 0, w.err
	}
	if w.werr != nil && !w.wfin {
		return 0, w.werr
	}
	if w.wfin {
		return 0, io.ErrClosedPipe
	}
	w.total += len(p)
	if w.rdone {
		return len(p), nil
	}
	if w.gated {
		w.pend = append(w.pend, p...)
	} else {
		w.buf = append(w.buf, p...)
		w.changed()
	}
	return len(p), nil
}

func (w *wire) read(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for {
		if w.rdone && !w.deaf {
			return 0, io.ErrClosedPipe
		}
		if w.rdone {
			w.buf = nil
		}
		if len(w.buf) != 0 {
			n := len(p)
			if w.chunks > 0 && n > 0 {
				if m := 1 + w.rng.Intn(w.chunks); m < n {
					n = m
				}
			}
			n = copy(p[:n], w.buf)
			w.buf = w.buf[n:]
			return n, nil
		}
		if w.err != nil {
			return 0, w.err
		}
		if w.fin {
			if w.finErr != nil {
				return 0, w.finErr
			}
			return 0, io.EOF
		}
		ch := w.ch
		w.mu.Unlock()
		<-ch
		w.mu.Lock()
	}
}

func (w *wire) closeWrite() {
	w.mu.Lock()
	if !w.wfin {
		w.wfin = true
		if !w.gated {
			w.fin = true
		}
		w.changed()
	}
	w.mu.Unlock()
}

func (w *wire) closeRead() {
	w.mu.Lock()
	w.rdone = true
	w.changed()
	w.mu.Unlock()
}

func (w *wire) fail(err error) {
	w.mu.Lock()
	if w.err == nil {
		w.err = err
		w.pend, w.buf = nil, nil
	}
	w.changed()
	w.mu.Unlock()
}

func (w *wire) failWrites() {
	w.mu.Lock()
	w.werr = errLost
	w.changed()
	w.mu.Unlock()
}

func (w *wire) setStall(v bool) {
	w.mu.Lock()
	w.stall = v
	w.changed()
	w.mu.Unlock()
}

// release makes the next n complete frames readable; returns how many were there.
func (w *wire) release(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	done := 0
	for done < n && len(w.pend) >= 4 {
		l := int(binary.LittleEndian.Uint32(w.pend)) + 4
		if l > len(w.pend) {
			break
		}
		w.buf = append(w.buf, w.pend[:l]...)
		w.pend = w.pend[l:]
		done++
	}
	w.changed()
	return done
}

// releaseFin makes the end of the stream readable if the writer closed.
func (w *wire) releaseFin() {
	w.mu.Lock()
	if w.wfin && len(w.pend) == 0 {
		w.fin = true
	}
	w.changed()
	w.mu.Unlock()
}

// open lifts the gate for good.
func (w *wire) open() {
	w.mu.Lock()
	w.gated = false
	w.stall = false
	w.buf = append(w.buf, w.pend...)
	w.pend = nil
	if w.wfin {
		w.fin = true
	}
	w.changed()
	w.mu.Unlock()
}

// inject appends raw bytes to the readable side.
func (w *wire) inject(p []byte) {
	w.mu.Lock()
	if !w.rdone {
		w.buf = append(w.buf, p...)
	}
	w.changed()
	w.mu.Unlock()
}

func (w *wire) injectFin(err error) {
	w.mu.Lock()
	if err != nil {
		w.err = err
	} else {
		w.fin = true
	}
	w.changed()
	w.mu.Unlock()
}

// rwEnd is one end of a duplex stream made of two wires.
type rwEnd struct{ in, out *wire }

func (e *rwEnd) Read(p []byte) (int, error)  { return e.in.read(p) }
func (e *rwEnd) Write(p []byte) (int, error) { return e.out.write(p) }
func (e *rwEnd) Close() error {
	e.out.closeWrite()
	e.in.closeRead()
	return nil
}

func newDuplex(gated bool, rng *rand.Rand, chunks int) (a, b *rwEnd, ab, ba *wire) {
	ab, ba = newWire(gated, rng, chunks), newWire(gated, rng, chunks)
	return &rwEnd{in: ba, out: ab}, &rwEnd{in: ab, out: ba}, ab, ba
}
