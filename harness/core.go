package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
)

// Obs is one observation the specification requires: the operation name and
// the set of acceptable results.
type Obs struct {
	N string   `json:"n"`
	R []string `json:"r"`
}

// Step is one environment operation of a behaviour of the specification.
type Step struct {
	A []any `json:"a"`
	O []Obs `json:"o"`
}

func (s Step) op() string { return s.A[0].(string) }
func (s Step) str(i int) string {
	if i >= len(s.A) {
		return ""
	}
	v, _ := s.A[i].(string)
	return v
}
func (s Step) num(i int) int {
	if i >= len(s.A) {
		return 0
	}
	v, _ := s.A[i].(float64)
	return int(v)
}
func (s Step) nums(i int) []int {
	if i >= len(s.A) {
		return nil
	}
	var out []int
	l, _ := s.A[i].([]any)
	for _, e := range l {
		f, _ := e.(float64)
		out = append(out, int(f))
	}
	return out
}
func (s Step) strs(i int) []string {
	if i >= len(s.A) {
		return nil
	}
	var out []string
	l, _ := s.A[i].([]any)
	for _, e := range l {
		f, _ := e.(string)
		out = append(out, f)
	}
	return out
}
func (s Step) String() string {
	b, _ := json.Marshal(s.A)
	return string(b)
}

// Beh is a behaviour generated from the specification.
type Beh struct {
	Steps []Step          `json:"steps"`
	Over  bool            `json:"over"`
	Seed  int64           `json:"seed,omitempty"`
	Cfg   json.RawMessage `json:"cfg,omitempty"`
}

// Got is one observed result of an operation.
type Got struct {
	Name   string
	Kind   string // "msg", "err", "ok", or any other token compared literally
	Err    error
	Detail string
	Token  bool   // Kind is compared literally
	Alt    string // another kind that describes the result as well
}

func (g Got) String() string {
	s := g.Name + "=" + g.Kind
	if g.Err != nil {
		e := g.Err.Error()
		if len(e) > 120 {
			e = e[:120] + "..."
		}
		s += fmt.Sprintf("(%q)", e)
	}
	if g.Detail != "" {
		s += "[" + g.Detail + "]"
	}
	return s
}

// Rec collects observed results.
type Rec struct {
	mu       sync.Mutex
	got      []Got
	deadline bool // the caller's context ends by its deadline
}

func (r *Rec) add(g Got) {
	r.mu.Lock()
	r.got = append(r.got, g)
	r.mu.Unlock()
}

func (r *Rec) res(name string, err error) {
	if r.deadline && errors.Is(err, context.DeadlineExceeded) {
		err = context.Canceled // either is fine
	}
	if err == nil {
		r.add(Got{Name: name, Kind: "ok"})
	} else {
		r.add(Got{Name: name, Kind: "err", Err: err})
	}
}

func (r *Rec) tok(name, token string) {
	r.add(Got{Name: name, Kind: token, Token: true})
}

func (r *Rec) take() []Got {
	r.mu.Lock()
	defer r.mu.Unlock()
	g := r.got
	r.got = nil
	return g
}

// errText is the text of the handler error of the current scenario ("err").
func match(allowed []string, g Got, errText string) bool {
	for _, a := range allowed {
		if g.Alt != "" && a == g.Alt {
			return true
		}
		if g.Token {
			if a == "any" || a == g.Kind {
				return true
			}
			continue
		}
		switch a {
		case "any":
			return true
		case "ok":
			if g.Kind == "ok" {
				return true
			}
		case "msg", "next":
			if g.Kind == "msg" {
				return true
			}
		case "eof":
			if g.Kind == "err" && g.Err == io.EOF {
				return true
			}
		case "bad":
			if g.Kind == "err" && g.Err != io.EOF {
				return true
			}
		case "fail":
			if g.Kind == "err" {
				return true
			}
		case "cancel":
			if g.Kind == "err" && errors.Is(g.Err, context.Canceled) {
				return true
			}
		case "err":
			if g.Kind == "err" && g.Err != io.EOF && (g.Err.Error() == errText || errText == "") {
				return true
			}
		case "unimpl":
			if g.Kind == "err" && g.Err.Error() == "unimplemented" {
				return true
			}
		}
	}
	return false
}

// compare checks the observations of one step. Observations are matched by
// name; the n-th observation with a name matches the n-th expected one.
func compare(want []Obs, got []Got, errText string) string {
	byName := map[string][]Obs{}
	for _, o := range want {
		byName[o.N] = append(byName[o.N], o)
	}
	var problems []string
	for _, g := range got {
		l := byName[g.Name]
		if len(l) == 0 {
			problems = append(problems, "unexpected "+g.String())
			continue
		}
		if !match(l[0].R, g, errText) {
			problems = append(problems, fmt.Sprintf("%s: specification allows %v", g.String(), l[0].R))
		}
		byName[g.Name] = l[1:]
	}
	for n, l := range byName {
		for _, o := range l {
			problems = append(problems, fmt.Sprintf("missing %s (expected %v)", n, o.R))
		}
	}
	sort.Strings(problems)
	return strings.Join(problems, "; ")
}

// Scn is one scenario: a behaviour plus the seed that concretises it.
type Scn struct {
	Idx   int
	Beh   *Beh
	Seed  int64
	Opt   map[string]string
	stats map[string]int
	logs  []string // recorded histories
}

// optInt is a numeric option of the suite.
func (s *Scn) optInt(k string) int {
	n, _ := strconv.Atoi(s.Opt[k])
	return n
}

// lockedRand is a rand.Rand usable from several goroutines.
type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (l *lockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}

// errValue is an error with the text: errors of well-known identities, errors
// that wrap them and plain ones.
func errValue(text string, pick int) error {
	known := map[string][]error{
		"EOF":                           {io.EOF, errors.Join(io.EOF)},
		"unexpected EOF":                {io.ErrUnexpectedEOF},
		"context canceled":              {context.Canceled, errors.Join(context.Canceled)},
		"context deadline exceeded":     {context.DeadlineExceeded},
		"unimplemented":                 {srpc.ErrUnimplemented},
		"handler: EOF":                  {fmt.Errorf("handler: %w", io.EOF)},
		"handler: context canceled":     {fmt.Errorf("handler: %w", context.Canceled)},
		"io: read/write on closed pipe": {io.ErrClosedPipe},
		"unexpected packet after rpc was completed": {srpc.ErrCompleted},
	}
	l := append([]error{errors.New(text)}, known[text]...)
	if len(l) > 1 && pick%4 != 0 {
		l = l[1:]
	}
	return l[(pick/4)%len(l)]
}

// hash64 mixes integers into a deterministic value.
func hash64(v ...int64) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range v {
		for i := 0; i < 8; i++ {
			h ^= uint64(byte(x >> (8 * i)))
			h *= 1099511628211
		}
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
	}
	h ^= h >> 32
	return h
}

// foreignCtx is a context of a type unknown to the context package: deriving
// from it costs a goroutine until the derived context is released.
type foreignCtx struct{ context.Context }

func (f foreignCtx) Value(key any) any { return nil }

type foreignDone struct {
	foreignCtx
	ch chan struct{}
}

func newForeign(ctx context.Context) context.Context {
	f := &foreignDone{foreignCtx: foreignCtx{ctx}, ch: make(chan struct{})}
	context.AfterFunc(ctx, func() { close(f.ch) })
	return f
}

func (f *foreignDone) Done() <-chan struct{} { return f.ch }
func (f *foreignDone) Err() error {
	select {
	case <-f.ch:
		return context.Canceled
	default:
		return nil
	}
}
