//go:build woven

package main

import (
	"math/rand"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// In the woven build every statement of srpc and rpcstream is preceded by a
// call to yieldAt. Each scenario picks a few statements among those executed
// so far, at which goroutines are delayed.

const maxIDs = 1 << 14

var (
	seenIDs [maxIDs]atomic.Bool
	hot     [4]atomic.Int64
	yctr    atomic.Uint64
	ySeed   atomic.Uint64
)

func init() {
	for i := range hot {
		hot[i].Store(-1)
	}
	srpc.VerifY = yieldAt
	rpcstream.VerifY = yieldAt
	weave = chooseHot
}

func yieldAt(id int) {
	if id < maxIDs && !seenIDs[id].Load() {
		seenIDs[id].Store(true)
	}
	for i := range hot {
		if hot[i].Load() == int64(id) {
			h := hash64(int64(ySeed.Load()), int64(yctr.Add(1)))
			if yctr.Load() > 400 {
				return // a loop over many messages
			}
			switch h % 4 {
			case 0:
				return
			case 1:
				for n := 1 + h>>8%20; n > 0; n-- {
					runtime.Gosched()
				}
			default:
				// a real delay: the fake clock of a bubble stands still
				ts := syscall.NsecToTimespec(int64(20+h>>8%200) * int64(time.Microsecond))
				_ = syscall.Nanosleep(&ts, nil)
			}
			return
		}
	}
}

// chooseHot picks the statements of a scenario.
func chooseHot(seed int64) {
	rng := rand.New(rand.NewSource(seed ^ 0x77ea7e))
	var ids []int64
	for i := range seenIDs {
		if seenIDs[i].Load() {
			ids = append(ids, int64(i))
		}
	}
	n := 1 + rng.Intn(3)
	for i := range hot {
		v := int64(-1)
		if i < n && len(ids) > 0 {
			v = ids[rng.Intn(len(ids))]
		}
		hot[i].Store(v)
	}
	yctr.Store(0)
	ySeed.Store(uint64(seed))
}
