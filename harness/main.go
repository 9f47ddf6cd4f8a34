// Command harness replays behaviours of the TLA+ specifications on the real
// starpc code and validates recorded executions.
//
//	harness run -suite S -beh FILE -seed N [-opt k=v]...   parent: runs all behaviours
//	harness worker ...                                     child process
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// suites maps a suite name to its scenario function. inBubble suites run under
// synctest, the others in real time.
type suite struct {
	run    func(sc *Scn) string
	bubble bool
}

// weave prepares the delays of a scenario, in the woven build.
var weave func(seed int64)

var suites = map[string]suite{}

type opts map[string]string

func (o opts) String() string { return "" }
func (o opts) Set(s string) error {
	k, v, _ := strings.Cut(s, "=")
	o[k] = v
	return nil
}

type failure struct {
	Idx    int    `json:"idx"`
	Kind   string `json:"kind"` // fail, panic, hang, leak, race
	Msg    string `json:"msg"`
	Repro  int    `json:"repro"` // how often it was reproduced
	Tries  int    `json:"tries"`
	Beh    *Beh   `json:"beh"`
	Suite  string `json:"suite"`
	Seed   int64  `json:"seed"`
	Bubble bool   `json:"bubble"` // independent of the speed of the machine
	Opt    opts   `json:"opt"`
	BehSrc string `json:"-"`
}

func loadBehs(path string) []*Beh {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var out []*Beh
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			b := &Beh{}
			if err := json.Unmarshal(line, b); err != nil {
				fatal(err)
			}
			out = append(out, b)
		}
		if err == io.EOF {
			return out
		}
		if err != nil {
			fatal(err)
		}
	}
}

func fatal(v any) {
	fmt.Fprintln(os.Stderr, "harness:", v)
	os.Exit(3)
}

// runOne runs one scenario and classifies the outcome.
func runOne(s suite, sc *Scn) (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			t := fmt.Sprint(r)
			if strings.Contains(t, "deadlock") {
				if kind == "" {
					kind, msg = "leak", "goroutines of finished calls are still blocked\n"+blockedStacks()
				}
				return
			}
			kind, msg = "panic", t+"\n"+string(debug.Stack())
		}
	}()
	if !s.bubble {
		if m := s.run(sc); m != "" {
			return "fail", m
		}
		return "", ""
	}
	synctest.Run(func() {
		defer func() {
			if r := recover(); r != nil {
				kind, msg = "panic", fmt.Sprint(r)+"\n"+string(debug.Stack())
			}
		}()
		if m := s.run(sc); m != "" {
			kind, msg = "fail", m
		}
	})
	return
}

func blockedStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var keep []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "synctest") && strings.Contains(g, "starpc") {
			keep = append(keep, g)
		}
	}
	t := strings.Join(keep, "\n\n")
	if len(t) > 6000 {
		t = t[:6000]
	}
	return t
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	sname := fs.String("suite", "", "")
	behf := fs.String("beh", "", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	limit := fs.Int("limit", 0, "")
	tmo := fs.Int("timeout", 30, "")
	o := opts{}
	fs.Var(o, "opt", "")
	_ = fs.Parse(args)
	s, ok := suites[*sname]
	if !ok {
		fatal("unknown suite " + *sname)
	}
	behs := loadBehs(*behf)
	bulk = o["bulk"] != ""
	out := bufio.NewWriter(os.Stdout)
	var outMu sync.Mutex
	say := func(f string, a ...any) {
		outMu.Lock()
		fmt.Fprintf(out, f+"\n", a...)
		_ = out.Flush()
		outMu.Unlock()
	}
	var cur atomic.Int64
	var beat atomic.Int64
	beat.Store(time.Now().UnixNano())
	cur.Store(-1)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Since(time.Unix(0, beat.Load())) > time.Duration(*tmo)*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				t := string(buf[:n])
				if len(t) > 20000 {
					t = t[:20000]
				}
				m, _ := json.Marshal(t)
				say("H %d %s", cur.Load(), m)
				os.Exit(4)
			}
		}
	}()
	done := 0
	for i := *from; i < len(behs); i += *stride {
		cur.Store(int64(i))
		beat.Store(time.Now().UnixNano())
		say("S %d", i)
		sc := &Scn{Idx: i, Beh: behs[i], Seed: scnSeed(*seed, i, behs[i]), Opt: o}
		if weave != nil {
			weave(sc.Seed)
		}
		kind, msg := runOne(s, sc)
		if kind == "leak" && o["leak"] == "" {
			kind = ""
		}
		if kind != "" {
			m, _ := json.Marshal(msg)
			say("F %d %s %s", i, kind, m)
		}
		for _, l := range sc.logs {
			say("L %d %s", i, l)
		}
		for k, v := range sc.takeStats() {
			say("C %s %d", k, v)
		}
		done++
		if *limit > 0 && done >= *limit {
			break
		}
	}
	say("D %d", done)
}

// scnSeed is the seed that concretises behaviour i.
func scnSeed(seed int64, i int, b *Beh) int64 {
	if b.Seed != 0 {
		return b.Seed
	}
	return int64(hash64(seed, int64(i)) >> 2)
}

func (sc *Scn) takeStats() map[string]int { return sc.stats }

type runRes struct {
	Ran      int               `json:"ran"`
	Failures []*failure        `json:"failures"`
	Errors   []string          `json:"errors"`
	Stats    map[string]int    `json:"stats"`
	Logs     map[string][2]int `json:"logs,omitempty"` // index of an execution, how many
}

var hangs atomic.Int64

type workerRes struct {
	ran   int
	fails []*failure
	errs  []string
	stats map[string]int
	logs  map[string][2]int
}

// runWorker runs a child over its share, restarting after crashes.
func runWorker(exe string, base []string, from, stride, n, limit int, deadline time.Time, stop *atomic.Bool) *workerRes {
	res := &workerRes{stats: map[string]int{}, logs: map[string][2]int{}}
	next := from
	for next < n && !stop.Load() {
		args := append([]string{"worker"}, base...)
		args = append(args, "-from", strconv.Itoa(next), "-stride", strconv.Itoa(stride))
		if limit > 0 {
			args = append(args, "-limit", strconv.Itoa(limit))
		}
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
		var stderr tail
		cmd.Stderr = &stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			res.errs = append(res.errs, err.Error())
			return res
		}
		if err := cmd.Start(); err != nil {
			res.errs = append(res.errs, err.Error())
			return res
		}
		tm := time.AfterFunc(time.Until(deadline), func() { _ = cmd.Process.Kill() })
		cur, finished, hung := -1, false, false
		r := bufio.NewReaderSize(pipe, 1<<20)
		for {
			line, err := r.ReadString('\n')
			line = strings.TrimSuffix(line, "\n")
			if line != "" {
				f := strings.SplitN(line, " ", 4)
				switch f[0] {
				case "S":
					cur, _ = strconv.Atoi(f[1])
					res.ran++
				case "F":
					i, _ := strconv.Atoi(f[1])
					var m string
					_ = json.Unmarshal([]byte(f[3]), &m)
					res.fails = append(res.fails, &failure{Idx: i, Kind: f[2], Msg: m})
				case "H":
					i, _ := strconv.Atoi(f[1])
					var m string
					_ = json.Unmarshal([]byte(strings.Join(f[2:], " ")), &m)
					res.fails = append(res.fails, &failure{Idx: i, Kind: "hang", Msg: m})
					hung = true
					if hangs.Add(1) >= 4 {
						stop.Store(true)
					}
				case "L":
					i, _ := strconv.Atoi(f[1])
					l := strings.Join(f[2:], " ")
					res.logs[l] = [2]int{i, res.logs[l][1] + 1}
				case "C":
					v, _ := strconv.Atoi(f[2])
					res.stats[f[1]] += v
				case "D":
					finished = true
				}
			}
			if err != nil {
				break
			}
			if len(res.fails) >= 40 {
				stop.Store(true)
				_ = cmd.Process.Kill()
				break
			}
		}
		werr := cmd.Wait()
		tm.Stop()
		if stop.Load() || time.Now().After(deadline) {
			return res
		}
		if finished {
			return res
		}
		if cur < 0 {
			res.errs = append(res.errs, fmt.Sprintf("worker did not start: %v %s", werr, stderr.String()))
			return res
		}
		if !hung {
			t := stderr.String()
			if strings.Contains(t, "harness:") && !strings.Contains(t, "panic") {
				res.errs = append(res.errs, t)
				return res
			}
			if strings.Contains(t, "WARNING: DATA RACE") {
				if !raceIn(t) {
					res.errs = append(res.errs, "harness: race: "+t)
					return res
				}
				res.fails = append(res.fails, &failure{Idx: cur, Kind: "race", Msg: t[strings.Index(t, "WARNING: DATA RACE"):]})
				next = cur + stride
				if limit > 0 || len(res.fails) >= 3 {
					return res
				}
				continue
			}
			if !strings.Contains(t, "panic") && !strings.Contains(t, "fatal error") {
				res.errs = append(res.errs, fmt.Sprintf("worker died in scenario %d: %v %s", cur, werr, t))
				return res
			}
			res.fails = append(res.fails, &failure{Idx: cur, Kind: "panic", Msg: t})
		}
		next = cur + stride
		if limit > 0 {
			return res
		}
	}
	return res
}

// raceIn tells whether one of the two accesses of a reported data race is
// made by the code under test.
func raceIn(t string) bool {
	for _, g := range strings.Split(t, "\n\n") {
		if !strings.Contains(g, " at 0x") || !strings.Contains(g, " by ") {
			continue
		}
		for _, l := range strings.Split(g[strings.Index(g, " at 0x"):], "\n")[1:] {
			f := strings.TrimSpace(l)
			if f == "" || strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") || strings.HasPrefix(f, "sync") {
				continue
			}
			if strings.HasPrefix(f, "github.com/aperturerobotics/starpc/") {
				return true
			}
			break
		}
	}
	return false
}

// tail keeps the beginning and the end of a stream.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:16000:16000], t.b[len(t.b)-16000:]...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	s := string(t.b)
	if len(s) > 12000 {
		s = s[:12000]
	}
	return s
}

func parent(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	sname := fs.String("suite", "", "")
	behf := fs.String("beh", "", "")
	seed := fs.Int64("seed", 1, "")
	workers := fs.Int("workers", 8, "")
	outf := fs.String("out", "", "")
	maxT := fs.Int("max", 600, "seconds")
	tmo := fs.Int("timeout", 30, "seconds per scenario")
	tries := fs.Int("tries", 12, "attempts to reproduce a failure")
	only := fs.Int("only", -1, "run one scenario")
	o := opts{}
	fs.Var(o, "opt", "")
	_ = fs.Parse(args)
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	behs := loadBehs(*behf)
	base := []string{"-suite", *sname, "-beh", *behf, "-seed", fmt.Sprint(*seed), "-timeout", fmt.Sprint(*tmo)}
	for k, v := range o {
		base = append(base, "-opt", k+"="+v)
	}
	deadline := time.Now().Add(time.Duration(*maxT) * time.Second)
	res := &runRes{Stats: map[string]int{}, Logs: map[string][2]int{}}
	if *only >= 0 {
		var stop atomic.Bool
		w := runWorker(exe, base, *only, len(behs), len(behs), 1, deadline, &stop)
		res.Ran, res.Failures, res.Errors = w.ran, w.fails, w.errs
	} else {
		var wg sync.WaitGroup
		var stop atomic.Bool
		all := make([]*workerRes, *workers)
		for k := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				all[k] = runWorker(exe, base, k, *workers, len(behs), 0, deadline, &stop)
			}()
		}
		wg.Wait()
		for _, w := range all {
			res.Ran += w.ran
			res.Failures = append(res.Failures, w.fails...)
			res.Errors = append(res.Errors, w.errs...)
			for k, v := range w.stats {
				res.Stats[k] += v
			}
			for k, v := range w.logs {
				res.Logs[k] = [2]int{v[0], res.Logs[k][1] + v[1]}
			}
		}
		if time.Now().After(deadline) && !stop.Load() {
			res.Errors = append(res.Errors, fmt.Sprintf("time limit reached after %d of %d behaviours", res.Ran, len(behs)))
		}
		// reproduce the first failures in fresh processes
		confirmed := 0
		for n, f := range res.Failures {
			if n >= 12 || confirmed >= 3 {
				res.Failures = res.Failures[:n]
				break
			}
			max := *tries
			if f.Kind == "hang" {
				if confirmed > 0 {
					continue // each attempt takes long
				}
				max = min(max, 2)
			}
			for t := 0; t < max && f.Repro < 2; t++ {
				var s2 atomic.Bool
				w := runWorker(exe, base, f.Idx, len(behs), len(behs), 1, time.Now().Add(time.Duration(*tmo+20)*time.Second), &s2)
				f.Tries++
				if len(w.fails) > 0 {
					f.Repro++
				}
			}
			if f.Repro > 0 {
				confirmed++
			}
		}
	}
	for _, f := range res.Failures {
		f.Beh, f.Suite, f.Seed, f.Opt, f.Bubble = behs[f.Idx], *sname, *seed, o, suites[*sname].bubble
		f.Beh.Seed = scnSeed(*seed, f.Idx, f.Beh)
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if *outf != "" {
		if err := os.WriteFile(*outf, b, 0o644); err != nil {
			fatal(err)
		}
	} else {
		fmt.Println(string(b))
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness run|worker ...")
	}
	switch os.Args[1] {
	case "run":
		parent(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "probe":
		fmt.Println(probePipe())
	default:
		fatal("unknown command")
	}
}

func init() {
	suites["call"] = suite{run: runCall, bubble: true}
}
