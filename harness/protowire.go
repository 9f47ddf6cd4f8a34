package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	protobuf_go_lite "github.com/aperturerobotics/protobuf-go-lite"
	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// protoMsg is what the generated messages offer.
type protoMsg interface {
	srpc.Message
	Reset()
	MarshalToVT([]byte) (int, error)
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
	MarshalProtoText() string
	CloneMessageVT() protobuf_go_lite.CloneMessage
	EqualMessageVT(any) bool
}

func newProtoMsg(name string) protoMsg {
	switch name {
	case "Packet":
		return &srpc.Packet{}
	case "CallStart":
		return &srpc.CallStart{}
	case "CallData":
		return &srpc.CallData{}
	case "RpcStreamPacket":
		return &rpcstream.RpcStreamPacket{}
	case "RpcStreamInit":
		return &rpcstream.RpcStreamInit{}
	case "RpcAck":
		return &rpcstream.RpcAck{}
	}
	return &echo.EchoMsg{}
}

// protoSchema mirrors the .proto files.
var protoSchema = map[string][]string{
	"Packet":          {"CallStart", "CallData", "bool"},
	"CallStart":       {"str", "str", "bytes", "bool"},
	"CallData":        {"bytes", "bool", "bool", "str"},
	"RpcStreamPacket": {"RpcStreamInit", "RpcAck", "bytes"},
	"RpcStreamInit":   {"str"},
	"RpcAck":          {"str"},
	"EchoMsg":         {"str"},
}

// protoDrv concretises tokens.
type protoDrv struct {
	rng  *rand.Rand
	toks map[string]map[string]string // type -> token -> value
	unk  map[string]string            // unknown kind -> bytes
}

func newProtoDrv(rng *rand.Rand) *protoDrv {
	d := &protoDrv{rng: rng, toks: map[string]map[string]string{}, unk: map[string]string{}}
	for _, ty := range []string{"str", "bytes"} {
		m := map[string]string{"e": ""}
		sizes := []int{1 + rng.Intn(20), []int{113, 126, 127, 128, 129, 16381, 16383, 16384, 16390}[rng.Intn(9)], 21 + rng.Intn(90)}
		for i, t := range []string{"a", "b", "c"} {
			b := make([]byte, sizes[i])
			rng.Read(b)
			if ty == "str" {
				alpha := []string{"a", "/", "é", "\"", "\\", "\n", "0", "\u2028", "😀", "<"} // control characters: the JSON library writes them in a way it does not read
				var s []byte
				for len(s) < sizes[i] {
					s = append(s, alpha[rng.Intn(len(alpha))]...)
				}
				b = s[:sizes[i]]
				for j := len(b) - 1; j >= 0 && j >= len(b)-4; j-- {
					b[j] = 'x' // no half character at the end
				}
				b = bytes.ToValidUTF8(b, []byte("y"))
			}
			m[t] = string(b)
		}
		d.toks[ty] = m
	}
	num := func(k int) uint64 { return uint64([]int{5 + k, 15 + k, 16 + k, 2047 - k, 1<<29 - 1 - k}[rng.Intn(5)]) }
	blob := make([]byte, rng.Intn(200))
	rng.Read(blob)
	d.unk["v"] = string(d.varint(d.varint(nil, num(0)<<3), rng.Uint64()>>uint(rng.Intn(64))))
	d.unk["l"] = string(append(d.varint(d.varint(nil, num(1)<<3|2), uint64(len(blob))), blob...))
	d.unk["4"] = string(append(d.varint(nil, num(2)<<3|5), 1, 2, 3, byte(rng.Intn(256))))
	d.unk["8"] = string(append(d.varint(nil, num(3)<<3|1), 1, 2, 3, 4, 5, 6, 7, byte(rng.Intn(256))))
	g := num(4)
	d.unk["g"] = string(d.varint(append(d.varint(nil, g<<3|3), d.unk["v"]...), g<<3|4))
	return d
}

// varint appends v, sometimes longer than necessary.
func (d *protoDrv) varint(b []byte, v uint64) []byte {
	n := 0
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
		n++
	}
	if n < 8 && d.rng.Intn(25) == 0 {
		b = append(b, byte(v)|0x80)
		for k := d.rng.Intn(8 - n); k > 0; k-- {
			b = append(b, 0x80)
		}
		return append(b, 0)
	}
	return append(b, byte(v))
}

// field appends a scalar field.
func (d *protoDrv) field(b []byte, num int, ty, tok string) []byte {
	if ty == "bool" {
		v := uint64(0)
		if tok == "t" {
			v = []uint64{1, 1, 1, 2, 300, 1 << 40}[d.rng.Intn(6)]
		}
		return d.varint(d.varint(b, uint64(num)<<3), v)
	}
	s := d.toks[ty][tok]
	return append(d.varint(d.varint(b, uint64(num)<<3|2), uint64(len(s))), s...)
}

// bad is input which must be refused.
func (d *protoDrv) bad(kind, msg string) []byte {
	sch := protoSchema[msg]
	k := d.rng.Intn(len(sch))
	num := uint64(k + 1)
	switch kind {
	case "trunc":
		var f []byte
		if ty := sch[k]; d.rng.Intn(3) == 0 {
			for _, u := range d.unk {
				f = []byte(u)
				break
			}
		} else if protoSchema[ty] != nil {
			f = append(d.varint(nil, num<<3|2), 2, 0x98, 0x06, 0) // longer than its content
			return f[:len(f)-1-d.rng.Intn(len(f)-1)]
		} else {
			f = d.field(nil, k+1, ty, []string{"a", "t"}[map[bool]int{true: 1}[ty == "bool"]])
		}
		return f[:1+d.rng.Intn(len(f)-1)]
	case "wrongtype":
		if sch[k] == "bool" {
			return append(d.varint(nil, num<<3|2), 1, 'x')
		}
		switch d.rng.Intn(3) {
		case 0:
			return append(d.varint(nil, num<<3), 1)
		case 1:
			return append(d.varint(nil, num<<3|5), 1, 2, 3, 4)
		}
		return append(d.varint(nil, num<<3|1), 1, 2, 3, 4, 5, 6, 7, 8)
	case "tag0":
		return append(d.varint(nil, []uint64{0, 2, 5}[d.rng.Intn(3)]), 0, 0, 0, 0)
	case "endgroup":
		return d.varint(nil, uint64(1+d.rng.Intn(30))<<3|4)
	case "type6":
		return append(d.varint(nil, uint64(6+d.rng.Intn(30))<<3|uint64(6+d.rng.Intn(2))), 1, 1, 1, 1)
	case "overlong":
		return bytes.Repeat([]byte{0x80}, 10+d.rng.Intn(5))
	case "hugelen":
		for sch[k] == "bool" {
			k = (k + 1) % len(sch)
		}
		b := d.varint(nil, uint64(k+1)<<3|2)
		n := []uint64{1000, 1 << 31, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 1}[d.rng.Intn(6)]
		for n >= 0x80 {
			b = append(b, byte(n)|0x80)
			n >>= 7
		}
		return append(append(b, byte(n)), "some bytes"...)
	}
	panic(kind)
}

func (d *protoDrv) tok(ty, v string) string {
	for k, x := range d.toks[ty] {
		if x == v {
			return k
		}
	}
	return fmt.Sprintf("?%.20q", v)
}

// sub renders the fields of a plain message.
func (d *protoDrv) sub(m any) string {
	out := ""
	str := func(i int, ty, v string) {
		if v != "" {
			out += fmt.Sprintf("%d=%s;", i, d.tok(ty, v))
		}
	}
	boolean := func(i int, v bool) {
		if v {
			out += fmt.Sprintf("%d=t;", i)
		}
	}
	switch x := m.(type) {
	case *srpc.CallStart:
		str(1, "str", x.GetRpcService())
		str(2, "str", x.GetRpcMethod())
		str(3, "bytes", string(x.GetData()))
		boolean(4, x.GetDataIsZero())
	case *srpc.CallData:
		str(1, "bytes", string(x.GetData()))
		boolean(2, x.GetDataIsZero())
		boolean(3, x.GetComplete())
		str(4, "str", x.GetError())
	case *rpcstream.RpcStreamInit:
		str(1, "str", x.GetComponentId())
	case *rpcstream.RpcAck:
		str(1, "str", x.GetError())
	case *echo.EchoMsg:
		str(1, "str", x.GetBody())
	}
	return out
}

// val renders the value of a message without its unknown fields.
func (d *protoDrv) val(m protoMsg) string {
	switch x := m.(type) {
	case *srpc.Packet:
		switch b := x.GetBody().(type) {
		case nil:
			return ""
		case *srpc.Packet_CallStart:
			return "1{" + d.sub(x.GetCallStart()) + "}"
		case *srpc.Packet_CallData:
			return "2{" + d.sub(x.GetCallData()) + "}"
		case *srpc.Packet_CallCancel:
			if b.CallCancel != x.GetCallCancel() {
				return "GetCallCancel differs"
			}
			return map[bool]string{true: "3=t;", false: "3=f;"}[b.CallCancel]
		}
	case *rpcstream.RpcStreamPacket:
		switch x.GetBody().(type) {
		case nil:
			return ""
		case *rpcstream.RpcStreamPacket_Init:
			return "1{" + d.sub(x.GetInit()) + "}"
		case *rpcstream.RpcStreamPacket_Ack:
			return "2{" + d.sub(x.GetAck()) + "}"
		case *rpcstream.RpcStreamPacket_Data:
			return "3=" + d.tok("bytes", string(x.GetData())) + ";"
		}
	}
	return d.sub(m)
}

// text renders an encoding; it must be minimal.
func (d *protoDrv) text(msg string, b []byte) string {
	out := ""
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; i < len(b) && i < 10; i++ {
			v |= uint64(b[i]&0x7f) << (7 * i)
			if b[i] < 0x80 {
				ok := i == 0 || b[i] != 0
				b = b[i+1:]
				return v, ok
			}
		}
		return 0, false
	}
next:
	for len(b) > 0 {
		for k, u := range d.unk {
			if bytes.HasPrefix(b, []byte(u)) {
				out += "u" + k + ";"
				b = b[len(u):]
				continue next
			}
		}
		tag, ok := varint()
		num := int(tag >> 3)
		if !ok || num < 1 || num > len(protoSchema[msg]) {
			return out + fmt.Sprintf("?tag%d", tag)
		}
		ty := protoSchema[msg][num-1]
		want := uint64(2)
		if ty == "bool" {
			want = 0
		}
		v, ok := varint()
		if !ok || tag&7 != want || (want == 2 && v > uint64(len(b))) || (want == 0 && v > 1) {
			return out + fmt.Sprintf("?%d:%d", tag, v)
		}
		if ty == "bool" {
			out += fmt.Sprintf("%d=%s;", num, map[uint64]string{0: "f", 1: "t"}[v])
			continue
		}
		c := b[:v]
		b = b[v:]
		if protoSchema[ty] != nil {
			out += fmt.Sprintf("%d{%s}", num, d.text(ty, c))
		} else {
			out += fmt.Sprintf("%d=%s;", num, d.tok(ty, string(c)))
		}
	}
	return out
}

// encode marshals in every way the message offers.
func (d *protoDrv) encode(name string, m protoMsg) string {
	b, err := m.MarshalVT()
	if err != nil {
		return "?" + err.Error()
	}
	if m.SizeVT() != len(b) {
		return fmt.Sprintf("?size %d of %d", m.SizeVT(), len(b))
	}
	buf := bytes.Repeat([]byte{0xa5}, len(b)+d.rng.Intn(9))
	n, err := m.MarshalToSizedBufferVT(buf)
	if err != nil || n != len(b) || !bytes.Equal(buf[len(buf)-n:], b) || len(bytes.Trim(buf[:len(buf)-n], "\xa5")) != 0 {
		return fmt.Sprintf("?sized %d %v", n, err)
	}
	buf = bytes.Repeat([]byte{0xa5}, len(b)+d.rng.Intn(9))
	n, err = m.MarshalToVT(buf)
	if err != nil || n != len(b) || !bytes.Equal(buf[:n], b) || len(bytes.Trim(buf[n:], "\xa5")) != 0 {
		return fmt.Sprintf("?to %d %v", n, err)
	}
	return d.text(name, b)
}

// scramble changes the contents of a message in place.
func scramble(m protoMsg) {
	flip := func(b []byte) {
		for i := range b {
			b[i] ^= 0x77
		}
	}
	switch x := m.(type) {
	case *srpc.Packet:
		if c := x.GetCallStart(); c != nil {
			flip(c.Data)
			c.RpcService, c.RpcMethod, c.DataIsZero = "changed", "changed", !c.DataIsZero
		}
		if c := x.GetCallData(); c != nil {
			flip(c.Data)
			c.Error, c.Complete, c.DataIsZero = "changed", !c.Complete, !c.DataIsZero
		}
		if c, ok := x.Body.(*srpc.Packet_CallCancel); ok {
			c.CallCancel = !c.CallCancel
		}
	case *srpc.CallStart:
		flip(x.Data)
	case *srpc.CallData:
		flip(x.Data)
	case *rpcstream.RpcStreamPacket:
		if c := x.GetInit(); c != nil {
			c.ComponentId = "changed"
		}
		if c := x.GetAck(); c != nil {
			c.Error = "changed"
		}
		flip(x.GetData())
	}
	if u, ok := m.(interface{ UnknownFields() []byte }); ok {
		flip(u.UnknownFields())
	}
}

// runProtoWire replays a behaviour of Wire.tla.
func runProtoWire(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	d := newProtoDrv(rng)
	name := sc.Opt["msg"]
	rec := &Rec{}
	var doc, sub []byte
	open := 0
	oneof := name == "Packet" || name == "RpcStreamPacket"
	prev, inc := newProtoMsg(name), newProtoMsg(name)
	used := newProtoMsg(name) // reused after Reset
	seen := func(f []byte) string {
		at := len(doc)
		doc = append(doc, f...)
		m := newProtoMsg(name)
		if rng.Intn(3) == 0 {
			m = used
			m.Reset()
		}
		in := bytes.Clone(doc)
		if err := m.UnmarshalVT(in); err != nil {
			return "valid encoding refused: " + err.Error()
		}
		for i := range in {
			in[i] ^= 0x3c
		}
		rec.tok("val", ":"+d.val(m))
		rec.tok("enc", ":"+d.encode(name, m))
		_ = m.MarshalProtoText()
		// decoding the pieces one after the other is the same
		if err := inc.UnmarshalVT(bytes.Clone(doc[at:])); err != nil {
			return "valid field refused: " + err.Error()
		}
		if a, b := d.encode(name, inc), d.encode(name, m); a != b || !inc.EqualMessageVT(m) || !m.EqualMessageVT(inc) {
			return fmt.Sprintf("decoded in pieces: %s, at once: %s", a, b)
		}
		js, err := m.MarshalJSON()
		if err != nil {
			return "MarshalJSON: " + err.Error()
		}
		j := newProtoMsg(name)
		if err := j.UnmarshalJSON(js); err != nil {
			return "UnmarshalJSON: " + err.Error()
		}
		rec.tok("json", ":"+d.val(j))
		c, ok := m.CloneMessageVT().(protoMsg)
		if !ok || !c.EqualMessageVT(m) || !m.EqualMessageVT(c) {
			return "a clone is not equal to the original"
		}
		orig := newProtoMsg(name)
		_ = orig.UnmarshalVT(bytes.Clone(doc))
		rec.tok("eq", map[bool]string{true: "yes", false: "no"}[m.EqualMessageVT(prev)])
		if m.EqualMessageVT(prev) != prev.EqualMessageVT(m) {
			return "equality is not symmetric"
		}
		scramble(m)
		rec.tok("clone", ":"+d.encode(name, c))
		prev = orig
		return ""
	}
	for i, st := range sc.Beh.Steps {
		fail := ""
		put := func(f []byte) {
			if oneof && open != 0 {
				sub = append(sub, f...)
			} else {
				fail = seen(f)
			}
		}
		cur := name
		if open != 0 {
			cur = protoSchema[name][open-1]
		}
		switch st.op() {
		case "open":
			open, sub = st.num(1), nil
		case "shut":
			f := append(d.varint(d.varint(nil, uint64(open)<<3|2), uint64(len(sub))), sub...)
			open = 0
			fail = seen(f)
		case "sub", "top":
			put(d.field(nil, st.num(1), protoSchema[cur][st.num(1)-1], st.str(2)))
		case "unk":
			put([]byte(d.unk[st.str(1)]))
		case "bad":
			b := d.bad(st.str(1), cur)
			if open != 0 {
				sub = append(sub, b...)
				b = append(d.varint(d.varint(nil, uint64(open)<<3|2), uint64(len(sub))), sub...)
			}
			in := append(bytes.Clone(doc), b...)
			if err := newProtoMsg(name).UnmarshalVT(in); err != nil {
				rec.tok("decode", "refused")
			} else {
				rec.tok("decode", "accepted "+fmt.Sprintf("%x", b[max(0, len(b)-40):]))
			}
		default:
			return "unknown op " + st.String()
		}
		if fail == "" {
			fail = compare(st.O, rec.take(), "")
		}
		if fail != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, strings.ToValidUTF8(fail, "?"))
		}
	}
	return ""
}

func init() { suites["protowire"] = suite{run: runProtoWire} }
