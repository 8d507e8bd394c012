package main

// Registry of properties and sub-checks, and the code which runs one
// generated case. See DESIGN.md for the overall structure.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Sub is one sub-check: a generator of plain-data cases and an oracle.
type Sub struct {
	Name     string
	Quick    int // number of generated cases, all shards together
	Thorough int
	// Fixed lists hand-written cases which run first (on shard 0).
	Fixed func() []any
	Gen   func(t *rapid.T) any
	Run   func(c any, x *Ctx)
	Load  func(b []byte) (any, error)
	// Once marks sub-checks which are a complete enumeration and take no
	// generated input; they run on shard 0 only.
	Once bool
	// Measure marks sub-checks which measure memory: their workers run
	// one case at a time.
	Measure bool
	// Only64 marks sub-checks which a 32-bit host has no room for.
	Only64 bool
	// Host marks sub-checks which do not run in an emulator.
	Host bool
	// Heavy marks sub-checks with cases of some seconds.
	Heavy bool
}

type Prop struct {
	ID    string
	Level string
	Rule  string
	Subs  []*Sub
	Assum []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func hostOnly(s *Sub) *Sub {
	s.Host = true
	return s
}

// sub builds a Sub from typed functions.
func sub[C any](name string, quick, thorough int, gen func(t *rapid.T) C, run func(c C, x *Ctx), fixed ...func() []C) *Sub {
	s := &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		Run: func(c any, x *Ctx) { run(c.(C), x) },
		Load: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
	if gen != nil {
		s.Gen = func(t *rapid.T) any { return gen(t) }
	}
	if len(fixed) > 0 {
		s.Fixed = func() []any {
			var r []any
			for _, f := range fixed {
				for _, c := range f() {
					r = append(r, c)
				}
			}
			return r
		}
	}
	return s
}

// Ctx is handed to the oracle of a case.
type Ctx struct {
	prop       string
	labels     map[string]int
	nontrivial bool
	known      map[string]string
	replaying  bool
	cross      trace
	cpu        time.Duration // processor time used
}

// violation is what Failf panics with.
type violation struct{ msg string }

// harnessError is a defect of the check itself.
type harnessError struct{ msg string }

func (x *Ctx) Failf(format string, a ...any) {
	panic(violation{fmt.Sprintf(format, a...)})
}

func (x *Ctx) NT() { x.nontrivial = true }

func (x *Ctx) Label(l string) { x.labels[l]++ }

func (x *Ctx) LabelIf(b bool, l string) {
	if b {
		x.labels[l]++
	}
}

// Cross records what another host must observe as well.
func (x *Ctx) Cross(t trace) {
	x.cross = trace{}
	for _, l := range t {
		x.cross = append(x.cross, strconv.QuoteToASCII(l)) // survives JSON
	}
}

// Known reports a deviation which matches the signature of a finding; it
// is a violation unless the known-findings file lists it.
func (x *Ctx) Known(key, detail string) {
	if !isKnownFinding(x.prop, key) {
		x.Failf("%s (signature %s, not listed as a known finding)", detail, key)
	}
	if x.known == nil {
		x.known = map[string]string{}
	}
	if x.known[key] == "" {
		x.known[key] = detail
	}
}

// currentCase lets the watchdog see what is running.
var currentCase atomic.Pointer[runningCase]

type runningCase struct {
	sub *Sub
	c   any
}

// effort counts the steps of the generated streams within the current case.
var effort atomic.Int64

// tired reports whether a case which tries many variations has made so many
// steps that it has to stop. Unlike the time, the steps are the same in every
// run of the case.
func tired() bool { return effort.Load() > 3000000 }

// spread chooses positions in [0, n), or all of them if there are at most
// most: those at the ends, and others between them in equal distances. There
// are fewer if n is large, so that going there takes long.
func spread(n, most, salt int) (r []int) {
	if n <= most {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return
	}
	end := most / 4
	step := max(1, n/(most/2), n/1000*n/20000)
	for i := 0; i < n; i++ {
		if i < end || i >= n-end || (i+salt)%step == 0 {
			r = append(r, i)
		}
	}
	return
}

type outcome struct {
	Violation string
	Harness   string
}

// runCase runs the oracle of one case and classifies how it ended.
func runCase(s *Sub, c any, x *Ctx) (o outcome) {
	currentCase.Store(&runningCase{s, c})
	defer currentCase.Store(nil)
	effort.Store(0)
	start := cpuTime()
	defer func() { x.cpu = cpuTime() - start }()
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case violation:
			o.Violation = r.msg
		case harnessError:
			o.Harness = r.msg
		default:
			frame, inHarness, stack := panicOrigin()
			if inHarness {
				o.Harness = fmt.Sprintf("panic in harness: %v\n%s", r, stack)
			} else {
				o.Violation = fmt.Sprintf("panic at %s: %.300s", frame, fmt.Sprint(r))
			}
		}
	}()
	s.Run(c, x)
	return
}

// panicOrigin finds the function that panicked: the first frame after the
// panic which belongs to the code under test or to the harness. A panic of
// the FlatBuffers library which the harness calls with a table or a builder
// that comes from the code under test is not one of the harness.
func panicOrigin() (frame string, inHarness bool, stack string) {
	pc := make([]uintptr, 100)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	seenPanic, library := false, ""
	var sb strings.Builder
	for {
		f, more := fr.Next()
		fmt.Fprintf(&sb, "  %s %s:%d\n", f.Function, f.File, f.Line)
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.sigpanic") {
			seenPanic = true
		} else if seenPanic && frame == "" {
			if strings.HasPrefix(f.Function, "github.com/google/flatbuffers/") {
				library = f.Function
			} else if strings.HasPrefix(f.Function, "main.") && library != "" {
				frame = library
			} else if strings.HasPrefix(f.Function, "main.") {
				frame, inHarness = f.Function, true
			} else if strings.HasPrefix(f.Function, "github.com/gogama/") || strings.HasPrefix(f.Function, "repo386") {
				frame = f.Function
			}
		}
		if !more {
			break
		}
	}
	if frame == "" {
		inHarness = true
	}
	return frame, inHarness, sb.String()
}

// panics runs f and reports whether it panicked. It lets the harness's
// own failures through.
func panics(f func()) (r any, did bool) {
	defer func() {
		r = recover()
		switch r.(type) {
		case violation, harnessError:
			panic(r)
		}
		did = r != nil
	}()
	f()
	return
}

func harnessFail(format string, a ...any) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

func caseHash(sub string, c any) uint64 {
	h := fnv.New64a()
	h.Write([]byte(sub))
	b, err := json.Marshal(c)
	if err != nil {
		harnessFail("cannot serialize case: %v", err)
	}
	h.Write(b)
	return h.Sum64()
}

// F is a float64 which survives JSON for every bit pattern.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return []byte(fmt.Sprintf("\"%016x\"", math.Float64bits(v))), nil
	}
	return strconv.AppendFloat(nil, v, 'g', -1, 64), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	if len(b) > 2 && b[0] == '"' {
		u, err := strconv.ParseUint(string(b[1:len(b)-1]), 16, 64)
		*f = F(math.Float64frombits(u))
		return err
	}
	v, err := strconv.ParseFloat(string(b), 64)
	*f = F(v)
	return err
}

// clip shortens a string for messages and samples.
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
