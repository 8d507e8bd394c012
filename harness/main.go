package main

// Driver: starts the workers of one property, confirms failures by
// replaying them in a fresh process, and writes the evidence file.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	flagID      = flag.String("id", "", "property")
	flagWorker  = flag.Int("worker", -1, "internal: shard")
	flagSeed    = flag.Uint64("seed", 1, "internal: seed")
	flagTier    = flag.String("tier", "quick", "internal: tier")
	flagOut     = flag.String("out", "", "internal: result file")
	flagTrace   = flag.String("trace", "", "internal: trace file")
	flagReplay  = flag.String("replay", "", "replay a saved case")
	flagCross   = flag.String("cross", "", "internal: observations of another host")
	flagCase    = flag.String("case", "", "internal: case to replay")
	flagRoot    = flag.String("root", "/verif", "root of the framework")
	flagList    = flag.Bool("list", false, "list properties")
	flagSub     = flag.String("sub", "", "development: only this sub-check")
	flagRecord  = flag.Bool("record", false, "internal: remember all cases and stop at the first failure")
	flagMust    = flag.Bool("mustfail", false, "internal: not finding a violation is an error of the check")
	flagGuided  = flag.Bool("guided", false, "internal: search in the guided mode")
	flagSeconds = flag.Int("seconds", 0, "development: length of the guided search")
	flagCount   = flag.Int("count", 0, "development: number of cases")
)

// deadline of one worker process; exceeding it is an error of the check.
func workerDeadline(tier string) time.Duration {
	if tier == "thorough" {
		return 4 * time.Hour
	}
	return 600 * time.Second
}

func main() {
	flag.Parse()
	if *flagList {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	addHuge()
	registerPorts()
	p := props[*flagID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *flagID)
		os.Exit(3)
	}
	if *flagSub != "" {
		var subs []*Sub
		for _, s := range p.Subs {
			if s.Name == *flagSub {
				subs = append(subs, s)
			}
		}
		p.Subs = subs
	}
	if *flagCount > 0 {
		for _, s := range p.Subs {
			s.Quick, s.Thorough = *flagCount, *flagCount
		}
	}
	loadKnownFindings(filepath.Join(*flagRoot, "KNOWN_FINDINGS.txt"))
	switch {
	case *flagCross != "":
		runCross(p, *flagCross, *flagOut)
	case *flagCase != "":
		runReplayWorker(*flagID, *flagCase, *flagOut)
	case *flagWorker >= 0:
		runWorker(*flagID, *flagTier, *flagWorker, *flagSeed, *flagOut, *flagTrace)
	case *flagReplay != "":
		os.Exit(replayMain(p))
	default:
		os.Exit(driverMain(p))
	}
}

type procResult struct {
	res    *WorkerResult
	stderr string
	how    string // how the process ended, if not normally
}

func (d *driver) process(args ...string) procResult {
	out, err := os.CreateTemp(d.tmp, "out")
	if err != nil {
		return procResult{how: err.Error()}
	}
	out.Close()
	os.Remove(out.Name())
	self, err := os.Executable()
	if err != nil {
		return procResult{how: err.Error()}
	}
	args = append(args, "-id", d.p.ID, "-root", *flagRoot, "-out", out.Name(), "-tier", d.tier, "-seed", fmt.Sprint(d.seed), "-sub", *flagSub, "-count", fmt.Sprint(*flagCount), "-seconds", fmt.Sprint(*flagSeconds))
	if args[0] == "-cross" {
		if h := os.Getenv("VERIF_HOST"); h != "" {
			self = h
		}
	} else if len(args) > 2 && args[2] == "-guided" {
		self = os.Getenv("VERIF_GUIDED")
	} else if emulator != "" && !d.onHost(args) {
		self, args = emulator, append([]string{os.Getenv("VERIF_EMULATED")}, args...)
	}
	cmd := exec.Command(self, args...)
	cmd.Dir = d.tmp
	// Only matters if the program is built with the race detector.
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(d.tmp, "race"))
	var stderr bytes.Buffer
	cmd.Stderr = &limitedWriter{w: &stderr, n: 1 << 20}
	if err = cmd.Start(); err != nil {
		return procResult{how: err.Error()}
	}
	if len(args) > 2 && args[2] == "-guided" {
		d.started(cmd)
	}
	timedOut := false
	timer := time.AfterFunc(workerDeadline(d.tier), func() {
		timedOut = true
		cmd.Process.Kill()
	})
	err = cmd.Wait()
	timer.Stop()
	pr := procResult{stderr: stderr.String()}
	if timedOut {
		pr.how = "timed out"
		return pr
	}
	b, rerr := os.ReadFile(out.Name())
	if rerr == nil {
		var wr WorkerResult
		if rerr = json.Unmarshal(b, &wr); rerr == nil {
			pr.res = &wr
			return pr
		}
	}
	pr.how = fmt.Sprintf("worker ended without a result (%v): %s", err, clip(pr.stderr, 2000))
	return pr
}

// emulator is the program which executes the workers if they are built for
// another architecture; the driver is always built for the host.
var emulator = os.Getenv("VERIF_EMULATOR")

// onHost reports whether a worker does sub-checks which run on the host.
func (d *driver) onHost(args []string) bool {
	switch args[0] {
	case "-worker":
		return args[1] == fmt.Sprint(shards)
	case "-case":
		b, err := os.ReadFile(args[1])
		var f Failure
		if err == nil && json.Unmarshal(b, &f) == nil {
			for _, s := range d.p.Subs {
				if s.Name == f.Sub {
					return s.Host
				}
			}
		}
	}
	return false
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

type driver struct {
	p    *Prop
	tier string
	seed uint64
	tmp  string

	mu        sync.Mutex
	searching []*exec.Cmd // guided workers
	finder    *int        // the first of them which found something
}

func newDriver(p *Prop) (*driver, func()) {
	d := &driver{p: p, tier: os.Getenv("VERIF_TIER"), seed: 1}
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			d.seed = v
		} else if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			d.seed = uint64(v)
		}
	}
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	d.tmp = tmp
	return d, func() { os.RemoveAll(tmp) }
}

// diedOf classifies the way a process died while running a single case.
// It returns a description if that shows a violation.
func diedOf(stderr string) string {
	if strings.Contains(stderr, "goroutine stack exceeds") || strings.Contains(stderr, "stack overflow") {
		return "stack exhausted"
	}
	// No case has any use for so much memory, so this is not for lack of it.
	limit := uint64(4 << 30)
	if strconv.IntSize == 32 || emulator != "" {
		limit = 1 << 30
	}
	for _, re := range []string{`out of memory: cannot allocate (\d+)-byte block`, `out of memory(?s:.*?)\nruntime\.sysMap(?:OS)?\([^,]*, (0x[0-9a-f]+),`} {
		if m := regexp.MustCompile(re).FindStringSubmatch(stderr); m != nil {
			if n, err := strconv.ParseUint(m[1], 0, 64); err == nil && n >= limit {
				return fmt.Sprintf("tried to allocate %d bytes", n)
			}
		}
	}
	if strings.Contains(stderr, "fatal error: checkptr") {
		return "invalid pointer arithmetic"
	}
	if strings.Contains(stderr, "SIGSEGV") || strings.Contains(stderr, "unexpected fault address") {
		return "memory fault"
	}
	return ""
}

// confirm replays a case in a fresh process. It returns the message of
// the violation, or an error of the check.
func (d *driver) confirm(f *Failure) (msg string, harness string) {
	path := filepath.Join(d.tmp, "confirm.json")
	writeJSON(path, f)
	// What differs between processes may be equal in some of them.
	for i := 0; i < 8; i++ {
		pr := d.process("-case", path)
		if pr.res == nil {
			if s := diedOf(pr.stderr); s != "" {
				return "process died: " + s, ""
			}
			return "", pr.how
		}
		if pr.res.Failure != nil {
			return pr.res.Failure.Msg, ""
		}
		if pr.res.Harness != "" {
			return "", pr.res.Harness
		}
		g, herr := d.cross(pr.res.Subs)
		if g != nil {
			return g.Msg, ""
		} else if herr != "" {
			return "", herr
		}
		if !crosses(pr.res.Subs) {
			break
		}
	}
	return "", ""
}

func crosses(subs []SubResult) bool {
	for _, s := range subs {
		if len(s.Cross) > 0 {
			return true
		}
	}
	return false
}

// cross compares what the workers observed with what another process, on
// the host, observes in the same cases.
func (d *driver) cross(subs []SubResult) (f *Failure, harness string) {
	var es []CrossEntry
	for _, s := range subs {
		es = append(es, s.Cross...)
	}
	if len(es) == 0 {
		return nil, ""
	}
	path := filepath.Join(d.tmp, "cross.json")
	writeJSON(path, es)
	pr := d.process("-cross", path)
	if pr.res == nil {
		return nil, pr.how
	}
	return pr.res.Failure, pr.res.Harness
}

// history looks for the reason of a failure which does not show if the case
// runs alone in a process: some case before it must have left a trace in the
// code under test. It returns nil if the failure does not happen again.
func (d *driver) history(f *Failure) *Failure {
	if f.Hang {
		return nil
	}
	for _, s := range d.p.Subs {
		if s.Name == f.Sub && s.Measure {
			return nil
		}
	}
	var h *Failure
	for i := 0; i < 3 && h == nil; i++ {
		pr := d.process("-worker", fmt.Sprint(f.shard), "-record")
		if pr.res != nil && pr.res.Harness == "" {
			h = pr.res.Failure
		}
	}
	if h == nil || h.Hang {
		return nil
	}
	h.shard = f.shard
	return d.reduce(h)
}

// reduce leaves out the cases before a failing one which are not needed.
func (d *driver) reduce(h *Failure) *Failure {
	all := h.Before
	if len(all) == 0 {
		return nil
	}
	try := func(before []Prior) bool {
		g := *h
		g.Before = before
		msg, _ := d.confirm(&g)
		return msg != ""
	}
	suffix := func(n int) []Prior { return all[len(all)-n:] }
	found := -1
	for n := 1; ; n = min(2*n, len(all)) {
		if try(suffix(n)) {
			found = n
			break
		}
		if n == len(all) {
			break
		}
	}
	if found < 0 && h.guided {
		return nil
	}
	if found < 0 {
		h.Before = nil
		h.Worker = &WorkerSpec{h.shard, d.seed, d.tier}
		h.Msg = "only after the cases before it in the same process: " + h.Msg
		return h
	}
	// Leave out what is not needed.
	keep := append([]Prior{}, suffix(found)...)
	tries := 120
	for size := len(keep) / 2; size >= 1 && tries > 0; size /= 2 {
		for at := 0; at < len(keep) && len(keep) > 1 && tries > 0; {
			rest := append(append([]Prior{}, keep[:at]...), keep[min(at+size, len(keep)):]...)
			tries--
			if len(rest) > 0 && try(rest) {
				keep = rest
			} else {
				at += size
			}
		}
	}
	h.Before = keep
	h.Msg = fmt.Sprintf("after %d other cases in the same process: %s", len(keep), h.Msg)
	return h
}

// broken reports whether there is something to report already.
func (d *driver) broken(prs []procResult) bool {
	for _, pr := range prs {
		if pr.res == nil || pr.res.Failure != nil || pr.res.Harness != "" {
			return true
		}
	}
	return false
}

// guided runs the workers of the guided mode.
func (d *driver) guided() []procResult {
	prs := make([]procResult, shards)
	var wg sync.WaitGroup
	for i := range prs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			trace := filepath.Join(d.tmp, fmt.Sprintf("guided%d", i))
			prs[i] = d.process("-worker", fmt.Sprint(i), "-guided", "-trace", trace)
			if d.stopped(i) {
				// Another worker has found something.
				prs[i] = procResult{res: &WorkerResult{}}
				return
			}
			if prs[i].res == nil && diedOf(prs[i].stderr) != "" {
				if f := tracedCase(d.p, trace); f != nil {
					prs[i] = procResult{res: &WorkerResult{Failure: f}}
				}
			}
			if prs[i].res != nil && prs[i].res.Failure != nil {
				d.stopOthers(i)
			}
		}()
	}
	wg.Wait()
	return prs
}

// stopOthers ends the guided workers except one.
func (d *driver) stopOthers(but int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.finder == nil {
		d.finder = &but
		for _, c := range d.searching {
			c.Process.Kill()
		}
	}
}

// stopped reports whether another worker ended this one.
func (d *driver) stopped(i int) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.finder != nil && *d.finder != i
}

// started notes a guided worker; it is not to run on if there is a finding.
func (d *driver) started(c *exec.Cmd) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.searching = append(d.searching, c)
	if d.finder != nil {
		c.Process.Kill()
	}
}

// guidedHistory is history for a failure from the guided mode.
func (d *driver) guidedHistory(f *Failure) *Failure {
	if f.Hang || f.original == nil {
		return nil
	}
	h := &Failure{Sub: f.Sub, Msg: f.Msg, Case: f.original, guided: true}
	if msg, _ := d.confirm(h); msg != "" {
		h.Msg = msg
		return h
	}
	h.Before = f.past
	return d.reduce(h)
}

func (d *driver) saveReplay(f *Failure) string {
	dir := filepath.Join(*flagRoot, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", d.p.ID, strings.ReplaceAll(f.Sub, " ", "-"), caseHash(f.Sub, f.Case)))
	writeJSON(path, f)
	return path
}

func replayMain(p *Prop) int {
	d, cleanup := newDriver(p)
	defer cleanup()
	b, err := os.ReadFile(*flagReplay)
	var f Failure
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var msg, harness string
	if f.Worker != nil {
		d.seed, d.tier = f.Worker.Seed, f.Worker.Tier
		for i := 0; i < 3 && msg == ""; i++ {
			pr := d.process("-worker", fmt.Sprint(f.Worker.Shard), "-record")
			if pr.res == nil {
				harness = pr.how
			} else if pr.res.Failure != nil {
				msg = pr.res.Failure.Msg
			}
		}
	} else {
		msg, harness = d.confirm(&f)
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, harness)
		return 3
	}
	if msg != "" {
		fmt.Printf("%s/%s: %s\n", p.ID, f.Sub, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *flagReplay)
		return 1
	}
	fmt.Printf("%s/%s: the property holds on this case\n", p.ID, f.Sub)
	return 0
}

func driverMain(p *Prop) int {
	start := time.Now()
	d, cleanup := newDriver(p)
	defer cleanup()
	n := shards
	if emulator != "" {
		n++ // for sub-checks which run on the host
	}
	prs := make([]procResult, n)
	var wg sync.WaitGroup
	for i := range prs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-worker", fmt.Sprint(i)}
			prs[i] = d.process(args...)
			if prs[i].res == nil && diedOf(prs[i].stderr) != "" {
				// Find out which case kills the worker.
				trace := filepath.Join(d.tmp, fmt.Sprintf("trace%d", i))
				pr := d.process(append(args, "-trace", trace)...)
				if pr.res == nil {
					if b, err := os.ReadFile(trace); err == nil {
						var f Failure
						if json.Unmarshal(b, &f) == nil {
							f.Msg = "process died"
							prs[i] = procResult{res: &WorkerResult{Failure: &f}}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	if os.Getenv("VERIF_GUIDED") != "" && guidedTime(p, d.tier) > 0 && !d.broken(prs) {
		prs = append(prs, d.guided()...)
	}

	// Merge.
	type merged struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Labels      map[string]int `json:"labels"`
		Slowest     float64        `json:"slowest_case_cpu_s"`
		hashes      map[uint64]bool
		samples     []json.RawMessage
	}
	subs := map[string]*merged{}
	known := map[string]string{}
	var failures []*Failure
	var harness []string
	for i := range prs {
		if prs[i].res == nil {
			harness = append(harness, fmt.Sprintf("shard %d: %s", i, prs[i].how))
			continue
		}
		if prs[i].res.Harness != "" {
			harness = append(harness, prs[i].res.Harness)
		}
		if prs[i].res.Failure != nil {
			prs[i].res.Failure.shard = i
			if i >= n {
				prs[i].res.Failure.guided = true
				prs[i].res.Failure.original, prs[i].res.Failure.past = prs[i].res.Original, prs[i].res.Past
			}
			failures = append(failures, prs[i].res.Failure)
		}
		for _, sr := range prs[i].res.Subs {
			m := subs[sr.Sub]
			if m == nil {
				m = &merged{Labels: map[string]int{}, hashes: map[uint64]bool{}}
				subs[sr.Sub] = m
			}
			m.Evaluations += sr.Evaluations
			m.Slowest = max(m.Slowest, sr.Slowest)
			for _, h := range sr.Hashes {
				m.hashes[h] = true
			}
			for l, n := range sr.Labels {
				m.Labels[l] += n
			}
			if len(m.samples) < 2 {
				m.samples = append(m.samples, sr.Samples...)
			}
			for k, v := range sr.Known {
				known[k] = v
			}
		}
	}
	if len(failures) == 0 {
		var srs []SubResult
		for i := range prs {
			if prs[i].res != nil {
				srs = append(srs, prs[i].res.Subs...)
			}
		}
		f, herr := d.cross(srs)
		if f != nil {
			failures = append(failures, f)
		}
		if herr != "" {
			harness = append(harness, herr)
		}
	}
	evals, distinct := 0, 0
	var samples []any
	for _, s := range p.Subs {
		if m := subs[s.Name+" (guided)"]; m != nil {
			m.Distinct = len(m.hashes)
			evals += m.Evaluations
			distinct += m.Distinct
		}
		if m := subs[s.Name]; m != nil {
			m.Distinct = len(m.hashes)
			evals += m.Evaluations
			distinct += m.Distinct
			for i, sm := range m.samples {
				if i < 2 {
					samples = append(samples, map[string]any{"sub": s.Name, "case": sm})
				}
			}
		}
	}

	// Confirm failures; the order is that of the sub-checks, so the
	// result does not depend on which worker was faster.
	order := map[string]int{}
	for i, s := range p.Subs {
		order[s.Name] = i
	}
	sort.SliceStable(failures, func(i, j int) bool { return order[failures[i].Sub] < order[failures[j].Sub] })
	var violation *Failure
	for _, f := range failures {
		msg, herr := d.confirm(f)
		for i := 0; i < 3 && msg == "" && herr == ""; i++ {
			// It may depend on the timing of goroutines.
			msg, herr = d.confirm(f)
		}
		if msg != "" {
			f.Msg = msg
			violation = f
			break
		}
		if herr != "" {
			harness = append(harness, "while confirming a failure: "+herr)
		} else if f.guided {
			if h := d.guidedHistory(f); h != nil {
				violation = h
				break
			}
			harness = append(harness, fmt.Sprintf("failure could not be reproduced: %s/%s: %s\ncase: %s", p.ID, f.Sub, f.Msg, clip(string(f.Case), 3000)))
		} else if h := d.history(f); h != nil {
			violation = h
			break
		} else {
			harness = append(harness, fmt.Sprintf("failure could not be reproduced: %s/%s: %s\ncase: %s", p.ID, f.Sub, f.Msg, clip(string(f.Case), 3000)))
		}
	}

	nviol := 0
	if violation != nil {
		nviol = 1
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"sub_checks":          subs,
		"known_findings_seen": known,
	}
	if samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": d.tier, "seed": d.seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assum,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if p.Assum == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(*flagRoot, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*flagRoot, "evidence", p.ID+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d cases, %d distinct non-trivial, tier %s, seed %d, %.1fs\n", p.ID, evals, distinct, d.tier, d.seed, time.Since(start).Seconds())
	if violation != nil {
		path := d.saveReplay(violation)
		fmt.Printf("%s/%s: %s\ncase: %s\n", p.ID, violation.Sub, violation.Msg, clip(string(violation.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if *flagMust {
		harness = append(harness, "the variant for another architecture does not build")
	}
	if len(harness) > 0 {
		for i, h := range harness {
			if i < 3 {
				fmt.Fprintln(os.Stderr, "error of the check:", h)
			}
		}
		return 3
	}
	for _, k := range knownFindings {
		if k.prop == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}
	return 0
}

type knownFinding struct{ prop, key, text string }

var knownFindings []knownFinding

// loadKnownFindings reads lines "finding: property=<id> key=<key> <text>".
// Lines starting with "fixed:" or "#" are documentation.
func loadKnownFindings(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			knownFindings = append(knownFindings, knownFinding{m[1], m[2], m[3]})
		}
	}
}

func isKnownFinding(prop, key string) bool {
	for _, k := range knownFindings {
		if k.prop == prop && k.key == key {
			return true
		}
	}
	return false
}
