package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"
)

// distinct assigns different concrete strings to abstract names.
type distinct struct {
	rng  *rand.Rand
	m    map[string]string
	used map[string]bool
}

func newDistinct(rng *rand.Rand) *distinct {
	return &distinct{rng: rng, m: map[string]string{"": ""}, used: map[string]bool{"": true}}
}

func (d *distinct) of(k string) string {
	if v, ok := d.m[k]; ok {
		return v
	}
	for {
		v := randID(d.rng)
		// near misses: strings that differ little from one in use
		if d.rng.Intn(2) == 0 {
			for u := range d.used {
				if len(u) > 1 {
					v = []string{u + "x", u[:len(u)-1], strings.ToUpper(u), " " + u}[d.rng.Intn(4)]
					break
				}
			}
		}
		if !d.used[v] {
			d.used[v] = true
			d.m[k] = v
			return v
		}
	}
}

// answerer is a handler or invoker which answers as the behaviour says.
type answerer struct {
	nest       func(a *answerer, meth string, strm srpc.Stream)
	name, kind string
	svc        string
	meths      []string
	got        func(name, svc, meth string, strm srpc.Stream)
	err        error
}

func (a *answerer) GetServiceID() string   { return a.svc }
func (a *answerer) GetMethodIDs() []string { return a.meths }
func (a *answerer) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	a.got(a.name, svc, meth, strm)
	switch a.kind {
	case "ok":
		return true, nil
	case "err":
		return true, a.err
	case "noerr":
		return false, a.err
	case "nest":
		a.nest(a, meth, strm)
		return true, nil
	}
	return false, nil
}

// runMux replays a behaviour of Mux.tla.
func runMux(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	names := newDistinct(rng)
	strm, _ := srpc.NewPipeStream(context.Background())
	var wantSvc, wantMeth, bad string
	got := func(name, svc, meth string, s srpc.Stream) {
		if svc != wantSvc || meth != wantMeth || s != strm {
			bad = fmt.Sprintf("%s asked for %q %q, the call was for %q %q (stream %v)", name, svc, meth, wantSvc, wantMeth, s == strm)
		}
		rec.tok("ran", name)
	}
	var fall []srpc.Invoker
	var mx srpc.Mux
	var errs []error
	var nest func(a *answerer, meth string, s srpc.Stream)
	newAns := func(name, kind string) *answerer {
		e := errors.New("verif: " + name)
		errs = append(errs, e)
		return &answerer{name: name, kind: kind, got: got, err: e, nest: nest}
	}
	nreg := 0
	maxReg := sc.optInt("maxreg")
	nest = func(a *answerer, meth string, s srpc.Stream) {
		if nreg >= maxReg {
			return
		}
		nreg++
		b := newAns("h"+strconv.Itoa(nreg), "ok")
		b.svc, b.meths = a.svc, []string{meth}
		rec.res("reg", mx.Register(b))
		rec.tok("hasm", strconv.FormatBool(mx.HasServiceMethod(a.svc, meth)))
		// the inner call names the service
		asked := wantSvc
		wantSvc = a.svc
		found, err := mx.InvokeMethod(a.svc, meth, s)
		wantSvc = asked
		r := "found"
		if !found || err != nil {
			r = fmt.Sprintf("inner call: %v %v", found, err)
		}
		rec.tok("result", r)
	}
	cov := map[string]bool{}
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "fall":
			if st.str(1) == "nil" {
				fall = append(fall, nil)
				break
			}
			a := newAns("f"+strconv.Itoa(len(fall)+1), st.str(1))
			switch rng.Intn(3) {
			case 0:
				fall = append(fall, a)
			case 1:
				fall = append(fall, srpc.InvokerFunc(a.InvokeMethod))
			default:
				// nested one level
				fall = append(fall, srpc.NewMux(a))
			}
		case "make":
			switch {
			case sc.Opt["via"] == "slice":
				// the same list as an invoker slice
				mx = srpc.NewMux(srpc.InvokerSlice(fall))
			case sc.Opt["via"] == "verbose":
				mx = srpc.NewVMux(srpc.NewMux(fall...), quietLog(), rng.Intn(2) == 0)
			default:
				mx = srpc.NewMux(fall...)
			}
		case "reg":
			nreg++
			a := newAns("h"+strconv.Itoa(nreg), st.str(3))
			a.svc = names.of("s" + st.str(1))
			if st.str(1) == "" {
				a.svc = ""
				nreg--
			}
			for _, m := range st.strs(2) {
				if m == "" {
					a.meths = append(a.meths, "")
				} else {
					a.meths = append(a.meths, names.of("m"+m))
				}
			}
			rng.Shuffle(len(a.meths), func(x, y int) { a.meths[x], a.meths[y] = a.meths[y], a.meths[x] })
			rec.res("reg", mx.Register(a))
		case "call":
			wantSvc, wantMeth = "", ""
			if st.str(1) != "" {
				wantSvc = names.of("s" + st.str(1))
			}
			if st.str(2) != "" {
				wantMeth = names.of("m" + st.str(2))
			}
			found, err := mx.InvokeMethod(wantSvc, wantMeth, strm)
			r := "notfound"
			if found {
				r = "found"
			}
			if err != nil {
				r += "err"
				known := false
				for _, e := range errs {
					known = known || e == err
				}
				if !known {
					return fmt.Sprintf("step %d %s: foreign error %v", i+1, st, err)
				}
				if sc.Opt["via"] == "slice" {
					r = "founderr" // a slice reports a failure as handled
				}
			}
			rec.tok("result", r)
			cov[r] = true
		case "has":
			svc := ""
			if st.str(1) != "" {
				svc = names.of("s" + st.str(1))
			}
			rec.tok("has", strconv.FormatBool(mx.HasService(svc)))
		case "hasm":
			svc, m := "", ""
			if st.str(1) != "" {
				svc = names.of("s" + st.str(1))
			}
			if st.str(2) != "" {
				m = names.of("m" + st.str(2))
			}
			rec.tok("hasm", strconv.FormatBool(mx.HasServiceMethod(svc, m)))
		default:
			return "unknown op " + st.String()
		}
		want := st.O
		if sc.Opt["via"] == "slice" {
			want = append([]Obs(nil), want...)
			for k := range want {
				if want[k].N == "result" {
					r := append([]string(nil), want[k].R...)
					for x := range r {
						if r[x] == "notfounderr" {
							r = append(r, "founderr")
						}
					}
					want[k].R = r
				}
			}
		}
		if p := compare(want, rec.take(), ""); p != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, p)
		}
		if bad != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, bad)
		}
	}
	return ""
}

func init() { suites["mux"] = suite{run: runMux} }

// fakeClient is a client which records its calls.
type fakeClient struct {
	call func(ctx context.Context, kind, svc, meth string, in, out srpc.Message) (srpc.Stream, error)
}

func (f *fakeClient) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	_, err := f.call(ctx, "exec", service, method, in, out)
	return err
}

func (f *fakeClient) NewStream(ctx context.Context, service, method string, firstMsg srpc.Message) (srpc.Stream, error) {
	return f.call(ctx, "stream", service, method, firstMsg, nil)
}

// runPrefix replays a behaviour of Prefix.tla.
func runPrefix(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	pool := []string{"a", "svc.", "x/y/", "\x00", "日本", "A", "b.Service", ".", "\xff", strings.Repeat("p", 200)}
	rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	letter := map[string]string{}
	word := func(w string) string {
		var b strings.Builder
		for _, c := range w {
			k := string(c)
			if _, ok := letter[k]; !ok {
				letter[k] = pool[len(letter)]
			}
			b.WriteString(letter[k])
		}
		return b.String()
	}
	unword := func(v string) string {
		w := "="
		for v != "" {
			hit := false
			for k, x := range letter {
				if strings.HasPrefix(v, x) {
					w, v, hit = w+k, v[len(x):], true
					break
				}
			}
			if !hit {
				return fmt.Sprintf("%s?%q", w, v)
			}
		}
		return w
	}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, sc.Idx)
	in, out := srpc.NewRawMessage([]byte("in"), false), srpc.NewRawMessage(nil, false)
	strm, _ := srpc.NewPipeStream(ctx)
	meth := randID(rng)
	inner := errors.New("verif: inner result")
	retErr := []error{nil, inner, srpc.ErrUnimplemented}[rng.Intn(3)]
	found := rng.Intn(2) == 0
	bad := ""
	fc := &fakeClient{call: func(cctx context.Context, kind, svc, m string, i, o srpc.Message) (srpc.Stream, error) {
		rec.tok("fwd", unword(svc))
		if m != meth || i != srpc.Message(in) || cctx.Value(key{}) != sc.Idx || (kind == "exec" && o != srpc.Message(out)) {
			bad = fmt.Sprintf("%s forwarded method %q (want %q) with other arguments", kind, m, meth)
		}
		return strm, retErr
	}}
	inv := srpc.InvokerFunc(func(svc, m string, s srpc.Stream) (bool, error) {
		rec.tok("fwd", unword(svc))
		if m != meth || s != strm {
			bad = fmt.Sprintf("forwarded method %q (want %q) with other arguments", m, meth)
		}
		return found, retErr
	})
	var pfx []string
	var pc *srpc.PrefixClient
	var pi *srpc.PrefixInvoker
	_, _, _ = word("a"), word("b"), word("c")
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "pfx":
			pfx = append(pfx, word(st.str(1)))
		case "make":
			pc, pi = srpc.NewPrefixClient(fc, pfx), srpc.NewPrefixInvoker(inv, pfx)
		case "call":
			svc := word(st.str(2))
			r := "fwd"
			switch st.str(1) {
			case "exec":
				if err := pc.ExecCall(ctx, svc, meth, in, out); err != retErr || len(rec.got) == 0 {
					r = fmt.Sprint(err)
				}
			case "stream":
				if s, err := pc.NewStream(ctx, svc, meth, in); err != retErr || s != strm {
					r = fmt.Sprint(err)
				}
			case "invoke":
				f, err := pi.InvokeMethod(svc, meth, strm)
				if len(rec.got) == 0 && !f && err == nil {
					r = "unimplemented"
				} else if f != found || err != retErr {
					r = fmt.Sprint("found ", f, " err ", err)
				}
			}
			if r == "unimplemented" {
				r = "unimpl"
			}
			rec.tok("result", r)
		}
		if p := compare(st.O, rec.take(), ""); p != "" {
			return fmt.Sprintf("step %d %s (prefixes %q): %s", i+1, st, pfx, p)
		}
		if bad != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, bad)
		}
	}
	return ""
}

// runClientSet replays a behaviour of ClientSet.tla.
func runClientSet(sc *Scn) string {
	rng := rand.New(rand.NewSource(sc.Seed))
	rec := &Rec{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	live := true
	svc, meth := randID(rng), randID(rng)
	in, out := srpc.NewRawMessage([]byte("in"), false), srpc.NewRawMessage(nil, true)
	var clients []srpc.Client
	strms := map[string]srpc.Stream{}
	errs := map[string]error{}
	bad := ""
	var set srpc.Client
	for i, st := range sc.Beh.Steps {
		switch st.op() {
		case "client":
			n, k := strconv.Itoa(len(clients)+1), st.str(1)
			if k == "nil" {
				clients = append(clients, nil)
				break
			}
			strms[n], _ = srpc.NewPipeStream(context.Background())
			errs[n] = []error{errors.New("verif: error " + n), context.DeadlineExceeded, fmt.Errorf("call: %w", srpc.ErrUnimplemented), errors.New("unimplemented "), srpc.ErrNoAvailableClients}[rng.Intn(5)]
			clients = append(clients, &fakeClient{call: func(cctx context.Context, kind, s, m string, a, o srpc.Message) (srpc.Stream, error) {
				if s != svc || m != meth || a != srpc.Message(in) || (kind == "exec" && o != srpc.Message(out)) {
					bad = "client " + n + " got other arguments"
				}
				if !live {
					return nil, context.Canceled
				}
				rec.tok("asked", "c"+n)
				switch k {
				case "ok":
					if o != nil {
						_ = o.UnmarshalVT([]byte("answer " + n))
					}
					return strms[n], nil
				case "unimpl":
					return nil, srpc.ErrUnimplemented
				case "unimpltext":
					return nil, errors.New("unimplemented")
				case "cancel":
					return nil, context.Canceled
				case "ctxend":
					live = false
					cancel()
					return nil, context.Canceled
				}
				return nil, errs[n]
			}})
		case "make":
			set = srpc.NewClientSet(clients)
			if rng.Intn(4) == 0 {
				set = srpc.NewClientSet([]srpc.Client{nil, set})
				if len(clients) == 0 || func() bool {
					for _, c := range clients {
						if c != nil {
							return false
						}
					}
					return true
				}() {
					set = srpc.NewClientSet(clients)
				}
			}
		case "end":
			live = false
			cancel()
		case "call":
			var err error
			var got srpc.Stream
			out.Reset()
			if st.str(1) == "exec" {
				err = set.ExecCall(ctx, svc, meth, in, out)
			} else {
				got, err = set.NewStream(ctx, svc, meth, in)
			}
			r := ""
			switch {
			case err == nil && st.str(1) == "exec":
				r = "ok" + strings.TrimPrefix(string(out.GetData()), "answer ")
			case err == nil:
				for n, s := range strms {
					if s == got {
						r = "ok" + n
					}
				}
			case err == context.Canceled:
				r = "cancel"
			case err.Error() == srpc.ErrUnimplemented.Error():
				r = "unimpl"
			case err == srpc.ErrNoAvailableClients:
				r = "noclients"
			}
			want := st.O[len(st.O)-1].R
			if len(want) == 1 && strings.HasPrefix(want[0], "err") && err == errs[want[0][3:]] {
				r = want[0]
			}
			rec.tok("result", r)
		}
		if p := compare(st.O, rec.take(), ""); p != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, p)
		}
		if bad != "" {
			return fmt.Sprintf("step %d %s: %s", i+1, st, bad)
		}
	}
	return ""
}

func init() {
	suites["prefix"] = suite{run: runPrefix}
	suites["clientset"] = suite{run: runClientSet}
}
