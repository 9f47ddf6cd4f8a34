package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"
)

// runRawMsg replays a behaviour of RawMsg.tla.
func runRawMsg(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	lens := []int{0, 1 + rng.Intn(20), 21 + rng.Intn(200), 300 + rng.Intn(5000)}
	if rng.Intn(3) == 0 {
		lens[2] = lens[1] + 1
	}
	value := func(l, v int) []byte {
		b := make([]byte, lens[l])
		for i := range b {
			b[i] = byte(hash64(sc.Seed, int64(l), int64(v), int64(i)))
		}
		return b
	}
	// newest version first: values are compared with what the specification names
	ver := 0
	var bufs [][]byte
	var m *srpc.RawMessage
	alloc := func(l int) []byte {
		ver++
		b := value(l, ver)
		// spare capacity must not matter
		if rng.Intn(2) == 0 {
			c := make([]byte, len(b), len(b)+1+rng.Intn(300))
			copy(c, b)
			b = c
		}
		bufs = append(bufs, b)
		return b
	}
	is := func(b []byte, tok string) bool {
		var l, v int
		_, _ = fmt.Sscanf(tok, "L%dv%d", &l, &v)
		return bytes.Equal(b, value(l, v))
	}
	copying := false
	for i, st := range sc.Beh.Steps {
		at := fmt.Sprintf("step %d %s: ", i+1, st)
		var mz []byte
		refused := false
		switch st.op() {
		case "new":
			copying = st.str(1) == "copy"
			m = srpc.NewRawMessage(alloc(st.num(2)), copying)
		case "nil":
			copying = st.str(1) == "copy"
			m = srpc.NewRawMessage(nil, copying)
			if !copying && rng.Intn(2) == 0 {
				m = &srpc.RawMessage{}
			}
		case "set":
			m.SetData(alloc(st.num(1)))
		case "unm":
			if err := m.UnmarshalVT(alloc(st.num(1))); err != nil {
				return at + "UnmarshalVT: " + err.Error()
			}
		case "reset2":
			m.SetData(bufs[st.num(1)-1])
		case "reunm":
			if err := m.UnmarshalVT(bufs[st.num(1)-1]); err != nil {
				return at + "UnmarshalVT: " + err.Error()
			}
		case "mut":
			b := bufs[st.num(1)-1]
			ver++
			for l := range lens {
				if lens[l] == len(b) {
					copy(b, value(l, ver))
				}
			}
		case "clear":
			m.Clear()
		case "reset":
			m.Reset()
		case "mar":
			b, err := m.MarshalVT()
			if err != nil {
				return at + "MarshalVT: " + err.Error()
			}
			if len(b) == 0 || copying {
				bufs = append(bufs, b)
				break
			}
			found := ""
			for k, x := range bufs {
				if len(x) > 0 && &x[0] == &b[0] {
					found = fmt.Sprintf("b%d", k+1)
				}
			}
			for _, o := range st.O {
				if o.N == "alias" && o.R[0] != found {
					return at + fmt.Sprintf("MarshalVT without copy returned buffer %q, not %v", found, o.R)
				}
			}
		case "msz":
			mz = bytes.Repeat([]byte{0xee}, lens[st.num(1)])
			n, err := m.MarshalToSizedBufferVT(mz)
			refused = err != nil
			if err == nil && n != len(mz) {
				return at + fmt.Sprintf("MarshalToSizedBufferVT returned %d for %d bytes", n, len(mz))
			}
		case "bad":
			n := m.SizeVT() + 1 + rng.Intn(5)
			if m.SizeVT() > 0 && rng.Intn(2) == 0 {
				n = m.SizeVT() - 1
			}
			_, err := m.MarshalToSizedBufferVT(make([]byte, n))
			refused = err != nil
		default:
			return "unknown op " + st.String()
		}
		for _, o := range st.O {
			want := o.R[0]
			switch {
			case want == "any" || o.N == "alias":
			case want == "refused":
				if !refused {
					return at + "a buffer of the wrong size was accepted"
				}
				if len(bytes.Trim(mz, "\xee")) != 0 {
					return at + "a refused buffer was written to"
				}
			case o.N == "msz":
				if refused || !is(mz, want) {
					return at + fmt.Sprintf("MarshalToSizedBufferVT (refused=%v) wrote %.20x", refused, mz)
				}
			case o.N == "data":
				if !is(m.GetData(), want) || m.SizeVT() != len(m.GetData()) {
					return at + fmt.Sprintf("the message holds %d bytes %.20x (size %d), specification says %s", len(m.GetData()), m.GetData(), m.SizeVT(), want)
				}
				// marshalling shows the same bytes
				if b, err := m.MarshalVT(); err != nil || !bytes.Equal(b, m.GetData()) {
					return at + fmt.Sprintf("MarshalVT gives %.20x, message holds %.20x", b, m.GetData())
				}
			case strings.HasPrefix(o.N, "b"):
				var k int
				_, _ = fmt.Sscanf(o.N, "b%d", &k)
				if k > len(bufs) || !is(bufs[k-1], want) {
					return at + fmt.Sprintf("caller's buffer %d changed, specification says %s", k, want)
				}
			}
		}
	}
	return ""
}

func init() { suites["rawmsg"] = suite{run: runRawMsg} }
