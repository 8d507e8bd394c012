package main

// Worker process: runs the share of generated cases of one shard.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const shards = 8

type SubResult struct {
	Sub         string
	Evaluations int
	Hashes      []uint64 // of distinct non-trivial cases
	Labels      map[string]int
	Samples     []json.RawMessage
	Known       map[string]string
	Cross       []CrossEntry `json:",omitempty"`
	Slowest     float64      // processor time of the slowest case in seconds
}

// CrossEntry is what was observed in a case, to be compared with another
// host's observations.
type CrossEntry struct {
	Sub   string
	Case  json.RawMessage
	Trace trace
}

type Failure struct {
	Sub  string
	Msg  string
	Case json.RawMessage
	Hang bool
	// Before lists the cases which have to run first, in the same process,
	// for the failure to show.
	Before []Prior `json:",omitempty"`
	// Worker describes the whole run which shows the failure, if no list
	// of cases does.
	Worker *WorkerSpec `json:",omitempty"`
	shard  int

	guided   bool
	original json.RawMessage
	past     []Prior
}

type Prior struct {
	Sub  string
	Case json.RawMessage
}

type WorkerSpec struct {
	Shard int
	Seed  uint64
	Tier  string
}

type WorkerResult struct {
	Subs    []SubResult
	Failure *Failure
	Harness string // error of the check itself
	// In the guided mode: the failing case before it was simplified, and
	// those which ran before it.
	Original json.RawMessage `json:",omitempty"`
	Past     []Prior         `json:",omitempty"`
}

// collectTB is the rapid.TB of a worker.
type collectTB struct {
	failed bool
	log    []string
}

type failNow struct{}

func (c *collectTB) Helper()                   {}
func (c *collectTB) Name() string              { return "verif" }
func (c *collectTB) Logf(f string, a ...any)   { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *collectTB) Log(a ...any)              { c.log = append(c.log, fmt.Sprint(a...)) }
func (c *collectTB) Skipf(f string, a ...any)  { c.SkipNow() }
func (c *collectTB) Skip(a ...any)             { c.SkipNow() }
func (c *collectTB) SkipNow()                  { panic(failNow{}) }
func (c *collectTB) Errorf(f string, a ...any) { c.Logf(f, a...); c.failed = true }
func (c *collectTB) Error(a ...any)            { c.Log(a...); c.failed = true }
func (c *collectTB) Fatalf(f string, a ...any) { c.Logf(f, a...); c.FailNow() }
func (c *collectTB) Fatal(a ...any)            { c.Log(a...); c.FailNow() }
func (c *collectTB) FailNow()                  { c.failed = true; panic(failNow{}) }
func (c *collectTB) Fail()                     { c.failed = true }
func (c *collectTB) Failed() bool              { return c.failed }

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

func subSeed(seed uint64, shard int, sub string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s", seed, shard, sub)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

func limitResources() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	if emulator != "" {
		debug.SetMemoryLimit(512 << 20)
	}
	runtime.GOMAXPROCS(2)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// caseCPULimit is the processor time after which a single case, which
// normally takes milliseconds, counts as an endless loop.
var caseCPULimit = 40 * time.Second * time.Duration(slowness)

// slowness is how much slower than usual this program may be: the emulator
// needs about thirty times as long.
var slowness = func() int {
	if emulator != "" {
		return 6
	}
	return 1
}()

// watchdog calls onHang when one case uses too much processor time.
func watchdog(onHang func(rc *runningCase)) {
	var last *runningCase
	var since time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		now := cpuTime()
		rc := currentCase.Load()
		if rc == nil || rc != last {
			last, since = rc, now
		} else if now-since > caseCPULimit && (!rc.sub.Heavy || now-since > 3*caseCPULimit) {
			onHang(rc)
		}
	}
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

type runner struct {
	p      *Prop
	res    WorkerResult
	trace  string // if not empty, file to which each case is written before it runs
	record bool   // remember the cases and stop at the first failure
	prior  []Prior
	size   int
}

// slow notes the time a case took.
func (sr *SubResult) slow(s *Sub, c any, cpu time.Duration) {
	sr.Slowest = max(sr.Slowest, cpu.Seconds())
	if dir := os.Getenv("VERIF_SLOW"); dir != "" && cpu > 4*time.Second {
		b, _ := json.Marshal(c)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%x.json", strings.ReplaceAll(s.Name, " ", "-"), caseHash(s.Name, c))), b, 0o644)
	}
}

func newCtx(p *Prop) *Ctx {
	return &Ctx{prop: p.ID, labels: map[string]int{}}
}

// one runs one case and accounts for it. It returns a non-empty string if
// the case fails.
func (r *runner) one(s *Sub, c any, sr *SubResult, seen map[uint64]bool) (msg string) {
	if r.trace != "" {
		b, _ := json.Marshal(c)
		writeJSON(r.trace, Failure{Sub: s.Name, Case: b})
	}
	if r.record {
		b, _ := json.Marshal(c)
		r.prior = append(r.prior, Prior{s.Name, b})
		for r.size += len(b); r.size > 512<<20; r.prior = r.prior[1:] {
			r.size -= len(r.prior[0].Case)
		}
	}
	x := newCtx(r.p)
	o := runCase(s, c, x)
	if o.Harness != "" {
		b, _ := json.Marshal(c)
		r.res.Harness = fmt.Sprintf("%s/%s: %s\ncase: %s", r.p.ID, s.Name, o.Harness, clip(string(b), 3000))
		panic(failNow{})
	}
	if o.Violation != "" {
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		r.res.Failure = &Failure{Sub: s.Name, Msg: o.Violation, Case: b}
		if r.record {
			r.res.Failure.Before = r.prior[:len(r.prior)-1]
			panic(failNow{})
		}
		return o.Violation
	}
	if r.res.Failure != nil {
		return "" // shrinking: do not count
	}
	sr.Evaluations++
	sr.slow(s, c, x.cpu)
	for l, n := range x.labels {
		sr.Labels[l] += n
	}
	if x.cross != nil {
		b, _ := json.Marshal(c)
		sr.Cross = append(sr.Cross, CrossEntry{s.Name, b, x.cross})
	}
	for k, d := range x.known {
		if sr.Known[k] == "" {
			sr.Known[k] = d
		}
		sr.Labels["known finding: "+k]++
	}
	if x.nontrivial {
		h := caseHash(s.Name, c)
		if !seen[h] {
			seen[h] = true
			sr.Hashes = append(sr.Hashes, h)
			if len(sr.Samples) < 2 {
				b, _ := json.Marshal(c)
				if len(b) > 1200 {
					b, _ = json.Marshal(clip(string(b), 1200))
				}
				sr.Samples = append(sr.Samples, b)
			}
		}
	}
	return ""
}

func (r *runner) runSub(s *Sub, shard int, count int, seed uint64) {
	sr := SubResult{Sub: s.Name, Labels: map[string]int{}, Known: map[string]string{}}
	seen := map[uint64]bool{}
	defer func() {
		r.res.Subs = append(r.res.Subs, sr)
		if p := recover(); p != nil {
			if _, ok := p.(failNow); !ok {
				panic(p)
			}
		}
	}()
	if s.Fixed != nil && (shard == 0 || shard == shards || emulator != "") {
		for i, c := range s.Fixed() {
			if emulator != "" && !s.Host && i%shards != shard {
				continue
			}
			if msg := r.one(s, c, &sr, seen); msg != "" {
				return
			}
		}
	}
	if s.Gen == nil || count == 0 {
		return
	}
	setFlag("rapid.checks", fmt.Sprint(count))
	setFlag("rapid.seed", fmt.Sprint(subSeed(seed, shard, s.Name)))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "15s")
	tb := &collectTB{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.Gen(t)
			if msg := r.one(s, c, &sr, seen); msg != "" {
				t.Fatalf("%s", msg)
			}
		})
	}()
	if tb.failed && r.res.Failure == nil && r.res.Harness == "" {
		r.res.Harness = fmt.Sprintf("%s/%s: rapid: %v", r.p.ID, s.Name, tb.log)
	}
}

// runWorker is the main function of a worker process.
func runWorker(id string, tier string, shard int, seed uint64, out, trace string) {
	testing.Init()
	limitResources()
	p := props[id]
	r := &runner{p: p, trace: trace, record: *flagRecord}
	go watchdog(func(rc *runningCase) {
		b, _ := json.Marshal(rc.c)
		writeJSON(out, WorkerResult{Failure: &Failure{Sub: rc.sub.Name, Case: b, Hang: true, Msg: "does not finish"}})
		os.Exit(4)
	})
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); ok {
					return
				}
				r.res.Harness = fmt.Sprintf("panic in harness: %v\n%s", p, debug.Stack())
			}
		}()
		if *flagGuided {
			r.guidedSubs(shard, seed, tier)
			return
		}
		for _, s := range p.Subs {
			if emulator != "" && s.Host != (shard == shards) {
				continue
			}
			total := s.Quick
			if tier == "thorough" {
				total = s.Thorough
			}
			count := total / shards
			if shard < total%shards {
				count++
			}
			if shard == shards {
				count = 0 // these have fixed cases only
			}
			r.runSub(s, shard, count, seed)
			if r.res.Failure != nil || r.res.Harness != "" {
				return
			}
		}
	}()
	writeJSON(out, r.res)
}

// runReplayWorker runs the oracle on a single saved case.
func runReplayWorker(id string, in string, out string) {
	limitResources()
	b, err := os.ReadFile(in)
	var f Failure
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		writeJSON(out, WorkerResult{Harness: err.Error()})
		return
	}
	r := &runner{p: props[id]}
	if f.Before != nil {
		// A history: its last case is the one which fails.
		runPriors(r, &f, out)
		return
	}
	for _, s := range r.p.Subs {
		if s.Name == f.Sub {
			c, err := s.Load(f.Case)
			if err != nil {
				writeJSON(out, WorkerResult{Harness: err.Error()})
				return
			}
			go watchdog(func(rc *runningCase) {
				writeJSON(out, WorkerResult{Failure: &Failure{Sub: s.Name, Case: f.Case, Hang: true, Msg: "does not finish"}})
				os.Exit(4)
			})
			sr := SubResult{Sub: s.Name, Labels: map[string]int{}, Known: map[string]string{}}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(failNow); !ok {
							panic(p)
						}
					}
				}()
				r.one(s, c, &sr, map[uint64]bool{})
			}()
			r.res.Subs = append(r.res.Subs, sr)
			writeJSON(out, r.res)
			return
		}
	}
	writeJSON(out, WorkerResult{Harness: "no such sub-check: " + f.Sub})
}

// runCross compares what another process observed with this one. The failure
// is the smallest case which differs.
func runCross(p *Prop, in string, out string) {
	limitResources()
	b, err := os.ReadFile(in)
	var es []CrossEntry
	if err == nil {
		err = json.Unmarshal(b, &es)
	}
	if err != nil {
		writeJSON(out, WorkerResult{Harness: err.Error()})
		return
	}
	var res WorkerResult
	for _, e := range es {
		sub := crossSub
		for _, s := range p.Subs {
			if s.Name == e.Sub {
				sub = s
			}
		}
		c, err := sub.Load(e.Case)
		if err != nil {
			writeJSON(out, WorkerResult{Harness: err.Error()})
			return
		}
		x := newCtx(&Prop{ID: "cross"})
		o := runCase(sub, c, x)
		msg := o.Violation
		if o.Harness != "" {
			writeJSON(out, WorkerResult{Harness: o.Harness})
			return
		}
		if msg == "" {
			msg = x.cross.differs(e.Trace)
		}
		if msg != "" && (res.Failure == nil || len(e.Case) < len(res.Failure.Case)) {
			res.Failure = &Failure{Sub: e.Sub, Case: e.Case, Msg: msg}
		}
	}
	writeJSON(out, res)
}

func runPriors(r *runner, f *Failure, out string) {
	cases := append(append([]Prior{}, f.Before...), Prior{f.Sub, f.Case})
	go watchdog(func(rc *runningCase) {
		writeJSON(out, WorkerResult{Harness: "a case of the history does not finish"})
		os.Exit(4)
	})
	srs := map[string]*SubResult{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); !ok {
					panic(p)
				}
			}
		}()
		for _, k := range cases {
			for _, s := range r.p.Subs {
				if s.Name != k.Sub {
					continue
				}
				c, err := s.Load(k.Case)
				if err != nil {
					r.res.Harness = err.Error()
					return
				}
				if srs[s.Name] == nil {
					srs[s.Name] = &SubResult{Sub: s.Name, Labels: map[string]int{}, Known: map[string]string{}}
				}
				if msg := r.one(s, c, srs[s.Name], map[uint64]bool{}); msg != "" {
					return
				}
			}
		}
	}()
	writeJSON(out, r.res)
}
