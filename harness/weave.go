package main

// I01: objects which share nothing do not influence each other, and objects
// which are only read may be read by several goroutines.

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// Task is a case of another check.
type Task struct {
	Read    *HistoryCase    `json:",omitempty"`
	Write   *WriteCase      `json:",omitempty"`
	Calls   *WHistoryCase   `json:",omitempty"`
	Props   *PropStream     `json:",omitempty"`
	Record  *PropRecord     `json:",omitempty"`
	Bad     *BadProps       `json:",omitempty"`
	Tree    *TreeCase       `json:",omitempty"`
	Marshal *MarshalCase    `json:",omitempty"`
	Seek    *SeekCase       `json:",omitempty"`
	Hilbert *HilbertCase    `json:",omitempty"`
	Feature *FeatureText    `json:",omitempty"`
	BadText *BadFeatureText `json:",omitempty"`
	Header  *HeaderText     `json:",omitempty"`
	Magic   *MagicCase      `json:",omitempty"`
	Table   *TableCase      `json:",omitempty"`
	Rough   *RoughRead      `json:",omitempty"`
	RoughW  *RoughWrite     `json:",omitempty"`
}

// RoughWrite writes to a stream which fails.
type RoughWrite struct {
	C  WFaultCase
	At int
}

func (k *RoughWrite) run(x *Ctx) {
	f := k.C.S.build()
	m := newWriter(x, f, k.C.Via, true, k.C.Rich)
	m.s.faultPos, m.s.once = k.At%(len(f.bytes)+1), k.C.Once
	for _, op := range k.C.ops(f) {
		yield()
		c := m.prepare(op)
		if c.run != nil {
			c.run()
		}
	}
	m.w.Close()
}

// RoughRead reads a file which ends too early or whose stream fails. There is
// nothing to check but what it does to others.
type RoughRead struct {
	C       HistoryCase
	Cut     int // bytes missing at the end
	Call    int // call of the stream which fails, if not negative
	Partial int
	Once    bool
	Back    bool // the cut is counted from the end
}

func (k *RoughRead) run(x *Ctx) {
	c := k.C // others may be running the same case
	c.Kind = ""
	m := c.open(x, c.file())
	n := len(m.s.data) - m.f.dataAt
	if k.Back && n > 0 {
		m.s.data = m.s.data[:len(m.s.data)-k.Cut%n]
	} else {
		m.s.data = m.s.data[:k.Cut%(len(m.s.data)+1)]
	}
	m.s.faultCall, m.s.partial, m.s.once = k.Call, k.Partial, k.Once
	for _, op := range k.C.Ops {
		yield()
		m.call(op)
	}
}

func (k *Task) run(x *Ctx) {
	switch {
	case k.Read != nil:
		x.prop = "R03"
		runHistory(k.Read, x)
	case k.Write != nil:
		x.prop = "W01"
		runW01(*k.Write, x)
	case k.Calls != nil:
		x.prop = "W03"
		runW03(*k.Calls, x)
	case k.Props != nil:
		x.prop = "Q01"
		runQ01(*k.Props, x)
	case k.Record != nil:
		x.prop = "Q03"
		runQ03(*k.Record, x)
	case k.Bad != nil:
		x.prop = "Q04"
		runQ04(*k.Bad, x)
	case k.Tree != nil:
		x.prop = "T01"
		runT01(*k.Tree, x)
	case k.Marshal != nil:
		x.prop = "T03"
		runT03(*k.Marshal, x)
	case k.Seek != nil:
		x.prop = "T02"
		runT02(*k.Seek, x)
	case k.Hilbert != nil:
		x.prop = "T05"
		runT05(*k.Hilbert, x)
	case k.Feature != nil:
		x.prop = "S01"
		runS01Feature(*k.Feature, x)
	case k.BadText != nil:
		x.prop = "S01"
		runS01Bad(*k.BadText, x)
	case k.Header != nil:
		x.prop = "S01"
		runS01Header(*k.Header, x)
	case k.Magic != nil:
		x.prop = "R07"
		runR07(*k.Magic, x)
	case k.Table != nil:
		x.prop = "F01"
		runF01(*k.Table, x)
	case k.Rough != nil:
		k.Rough.run(x)
	case k.RoughW != nil:
		k.RoughW.run(x)
	}
}

func (k *Task) kind() string {
	s := fmt.Sprintf("%+v", *k)
	i := strings.Index(s, ":0x")
	j := strings.LastIndexAny(s[:i], "{ ")
	return s[j+1 : i]
}

func drawTask(t *rapid.T, kind int) (k Task) {
	switch kind {
	case 0, 1, 2:
		var c HistoryCase
		switch drawInt(t, 0, 2, "reading") {
		case 0:
			c = drawSequential(t)
		case 1:
			c = drawSearches(t)
		default:
			c = drawHistory(t)
		}
		if c.S.Rep > 0 {
			c.S.Rep = 40
		}
		k.Read = &c
	case 3, 4:
		k.Write = ptr(drawWrite(t, fileGen{maxFeats: 5, maxCols: 2, mode: cmGrid}))
	case 5:
		k.Calls = ptr(drawWHistory(t))
	case 6:
		k.Props = ptr(drawPropStream(t))
	case 7:
		k.Record = ptr(drawRecord(t, 6))
	case 8:
		k.Bad = ptr(drawBadProps(t))
	case 9:
		k.Tree = ptr(drawTreeCase(t, 40, 300, 4))
	case 10:
		k.Marshal = &MarshalCase{NodeSize: drawNodeSize(t)}
		k.Marshal.L = drawRefList(t, k.Marshal.NodeSize, 30, 200)
		k.Marshal.Queries = drawQueries(t, &k.Marshal.L, 2)
		k.Marshal.Frag = drawFrag(t)
	case 11:
		k.Seek = ptr(drawSeekCase(t))
	case 12:
		k.Hilbert = ptr(drawHilbertCase(t))
	case 13:
		k.Feature = ptr(drawFeatureText(t))
	case 14:
		k.BadText = ptr(drawBadFeatureText(t))
	case 15:
		k.Header = ptr(drawHeaderText(t))
	case 16:
		k.Magic = ptr(drawMagic(t))
	case 17:
		k.Table = ptr(drawTable(t))
	case 18, 19:
		c := drawTask(t, 0).Read
		k.Rough = &RoughRead{C: *c, Cut: drawInt(t, 0, 300, "cut"), Call: drawInt(t, -1, 12, "call"), Partial: drawInt(t, 0, 4, "partial"), Once: drawBool(t, "once"), Back: !oneIn(t, 4, "front")}
	case 20:
		w := drawWFault(t)
		w.S.Feats = w.S.Feats[:min(2, len(w.S.Feats))]
		k.RoughW = &RoughWrite{w, drawInt(t, 0, 3000, "at")}
	}
	return
}

const taskKinds = 21

// WovenCase is a number of tasks, of which one runs at a time; wherever one
// of them calls its stream (or its schema, or starts a new call), another
// may go on, as the schedule says.
type WovenCase struct {
	Tasks []Task
	Sched []int `json:",omitempty"` // number of steps forward in the ring of tasks at each point
}

func drawTasks(t *rapid.T, hi int) (ks []Task) {
	kind := drawInt(t, 0, taskKinds-1, "kind")
	for i := drawInt(t, 2, hi, "ntasks"); i > 0; i-- {
		switch {
		case len(ks) > 0 && oneIn(t, 6, "twin"):
			ks = append(ks, ks[0])
			continue
		case len(ks) > 0 && !drawBool(t, "same kind"):
			kind = drawInt(t, 0, taskKinds-1, "kind")
		}
		ks = append(ks, drawTask(t, kind))
	}
	return
}

func drawWoven(t *rapid.T) WovenCase {
	c := WovenCase{Tasks: drawTasks(t, 4)}
	switch drawInt(t, 0, 2, "schedule") {
	case 0:
		c.Sched = []int{1}
	default:
		for i := drawInt(t, 1, 40, "nsched"); i > 0; i-- {
			c.Sched = append(c.Sched, pick(t, []int{1, 0, 1, 2, 3}, "sched"))
		}
	}
	return c
}

type weaver struct {
	sched    []int
	turn     int
	cur      int
	live     []bool
	gates    []chan struct{}
	done     chan struct{}
	switches int
}

// weave is set while tasks are interleaved. Just one of the goroutines
// involved runs at a time.
var weave *weaver

// yield is called by the streams of the harness.
func yield() {
	if w := weave; w != nil {
		w.yield()
	}
}

// next is the task to go on with, -1 if there is none.
func (w *weaver) next() int {
	n := 0
	if len(w.sched) > 0 {
		n = w.sched[w.turn%len(w.sched)]
		w.turn++
	}
	i := w.cur
	if !w.live[i] {
		n = max(1, n)
	}
	for left := 2 * len(w.live); n > 0 && left > 0; left-- {
		i = (i + 1) % len(w.live)
		if w.live[i] {
			n--
		}
	}
	for j := 0; j < len(w.live) && !w.live[i]; j++ {
		i = (i + 1) % len(w.live)
	}
	if !w.live[i] {
		return -1
	}
	return i
}

func (w *weaver) yield() {
	me := w.cur
	n := w.next()
	if n == me {
		return
	}
	w.switches++
	w.cur = n
	w.gates[n] <- struct{}{}
	<-w.gates[me]
}

// weaveBuffer is a buffer of which each write may hand over to another task.
type weaveBuffer struct{ bytes.Buffer }

func (b *weaveBuffer) Write(p []byte) (int, error) {
	yield()
	return b.Buffer.Write(p)
}

// guarded runs f and returns what it panicked with, in a form which can be
// raised again in another goroutine.
func guarded(f func()) (failure any) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case violation, harnessError:
			failure = r
		default:
			frame, inHarness, stack := panicOrigin()
			if inHarness {
				failure = harnessError{fmt.Sprintf("panic in harness: %v\n%s", r, stack)}
			} else {
				failure = violation{fmt.Sprintf("panic at %s: %.300s", frame, fmt.Sprint(r))}
			}
		}
	}()
	f()
	return
}

func taskCtx() *Ctx { return &Ctx{labels: map[string]int{}} }

// alone runs every task on its own. What fails alone is the business of
// another property.
func alone(ks []Task, x *Ctx) bool {
	for i := range ks {
		f := guarded(func() { ks[i].run(taskCtx()) })
		if h, ok := f.(harnessError); ok {
			panic(h)
		}
		if f != nil {
			x.Label("some task fails alone")
			return false
		}
		x.Label("task " + ks[i].kind())
	}
	return true
}

func raise(x *Ctx, how string, ks []Task, failures []any) {
	for i, f := range failures {
		switch f := f.(type) {
		case harnessError:
			panic(f)
		case violation:
			x.Failf("task %d (%s) succeeds alone but fails when %s: %s", i, ks[i].kind(), how, f.msg)
		}
	}
}

func runWoven(c WovenCase, x *Ctx) {
	if !alone(c.Tasks, x) || len(c.Tasks) == 0 {
		return
	}
	n := len(c.Tasks)
	w := &weaver{sched: c.Sched, live: make([]bool, n), done: make(chan struct{})}
	failures := make([]any, n)
	for i := range c.Tasks {
		w.live[i] = true
		w.gates = append(w.gates, make(chan struct{}, 1))
	}
	for i := range c.Tasks {
		go func() {
			<-w.gates[i]
			failures[i] = guarded(func() { c.Tasks[i].run(taskCtx()) })
			w.live[i] = false
			if j := w.next(); j >= 0 {
				w.cur = j
				w.gates[j] <- struct{}{}
			} else {
				close(w.done)
			}
		}()
	}
	weave = w
	w.gates[0] <- struct{}{}
	<-w.done
	weave = nil
	raise(x, "interleaved with the others", c.Tasks, failures)
	x.LabelIf(w.switches >= 10, "10 switches or more")
	if w.switches >= 2 {
		x.NT()
	}
}

// together runs functions at the same time and raises what fails.
func together(fs []func()) (failures []any) {
	failures = make([]any, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			failures[i] = guarded(fs[i])
		}()
	}
	close(start)
	wg.Wait()
	return
}

func checkRaces(x *Ctx, before int, what string) {
	if raceErrors() == before {
		return
	}
	// The first report counts in which the library takes part.
	reports := raceReports()
	if len(reports) == 0 {
		x.Failf("data race while %s (without a report)", what)
	}
	for _, r := range reports {
		if len(r) > 0 {
			x.Failf("data race while %s: %s", what, strings.Join(r, ", "))
		}
	}
	x.Label("race in the harness alone")
}

// raceSeen is how much of the race detector's log has been looked at. The
// file cannot be removed instead, as the detector keeps it open.
var raceSeen int

// raceReports returns, for each new report of the race detector, the functions
// of the library in the stacks of both accesses.
func raceReports() [][]string {
	b, _ := os.ReadFile(raceLogPath())
	text := string(b[min(raceSeen, len(b)):])
	raceSeen = len(b)
	var reports [][]string
	for _, r := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		var fns []string
		for _, l := range strings.Split(r, "\n") {
			if strings.HasPrefix(l, "  github.com/gogama/") && len(fns) < 8 {
				fns = append(fns, strings.TrimSpace(l))
			}
			if strings.HasPrefix(l, "Goroutine ") {
				break
			}
		}
		reports = append(reports, fns)
	}
	return reports
}

func raceLogPath() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(kv, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return "/nonexistent"
}

// ParallelCase runs tasks at the same time.
type ParallelCase struct{ Tasks []Task }

func runParallel(c ParallelCase, x *Ctx) {
	if !alone(c.Tasks, x) {
		return
	}
	races := raceErrors()
	for round := 0; round < 2; round++ {
		var fs []func()
		for i := range c.Tasks {
			fs = append(fs, func() { c.Tasks[i].run(taskCtx()) })
		}
		raise(x, "run at the same time as the others", c.Tasks, together(fs))
		checkRaces(x, races, "independent objects are used in parallel")
	}
	x.LabelIf(raceErrors() >= 0 && raceEnabled, "race detector")
	if len(c.Tasks) > 1 {
		x.NT()
	}
}

// SharedCase reads the same objects from several goroutines.
type SharedCase struct {
	Kind int
	S    FileSpec
	Tree TreeCase
	Load bool // the tree is read from a stream
	Rec  PropRecord
	Via  int
	Frag Frag
	// For each goroutine, the operations it goes through.
	Ops [][]int
}

var sharedKinds = []string{"tree", "header", "bytes", "tables", "records", "references"}

func drawShared(t *rapid.T) SharedCase {
	c := SharedCase{Kind: drawInt(t, 0, len(sharedKinds)-1, "what")}
	switch sharedKinds[c.Kind] {
	case "tree", "references":
		c.Tree = drawTreeCase(t, 40, 600, 5)
		c.Tree.Scribble = false
		c.Load = drawBool(t, "load")
	case "records":
		c.Rec = drawRecord(t, 6)
		if c.Rec.Schema.Kind == schemaCustom {
			c.Rec.Schema.Kind = schemaHeader
		}
	default:
		c.S = drawFile(t, fileGen{maxFeats: 8, maxCols: 4, mode: cmGrid, indexed: drawInt(t, 0, 1, "indexed")})
		for i := range c.S.Feats {
			if g := c.S.Feats[i].Geom; g != nil {
				g.noNegZero()
			}
		}
		c.Via = drawInt(t, 0, viaCount-1, "via")
		c.Frag = drawFrag(t)
	}
	for i := drawInt(t, 2, 4, "ngoroutines"); i > 0; i-- {
		var ops []int
		for j := drawInt(t, 1, 6, "nops"); j > 0; j-- {
			ops = append(ops, drawInt(t, 0, 11, "op"))
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

func runShared(c SharedCase, x *Ctx) {
	races := raceErrors()
	var fs []func()
	each := func(op func(g, k int)) {
		for g, ops := range c.Ops {
			fs = append(fs, func() {
				for _, k := range ops {
					op(g, k)
				}
			})
		}
	}
	kind := sharedKinds[c.Kind%len(sharedKinds)]
	x.Label("shared " + kind)
	switch kind {
	case "tree":
		refs := sortedRefs(&c.Tree.L, c.Tree.Reverse)
		boxes, offs := split(refs)
		ref := newRefTree(boxes, offs, int(c.Tree.NodeSize))
		var prt *packedrtree.PackedRTree
		if c.Load {
			var err error
			if prt, err = packedrtree.Unmarshal(bytes.NewReader(ref.bytes()), len(refs), c.Tree.NodeSize); err != nil {
				x.Failf("Unmarshal: %v", err)
			}
		} else {
			prt = mustNew(x, refs, c.Tree.NodeSize)
		}
		var wants [][]hit
		for _, q := range c.Tree.Queries {
			wants = append(wants, bruteSearch(boxes, offs, q.b()))
		}
		text := fmt.Sprintf("%d/%d", len(refs), c.Tree.NodeSize)
		each(func(g, k int) {
			switch {
			case k < 7 && len(wants) > 0:
				i := (k + g) % len(wants)
				checkHits(x, "Search", c.Tree.Queries[i], prt.Search(c.Tree.Queries[i].b().box()), wants[i])
			case k < 9:
				var out bytes.Buffer
				if n, err := prt.Marshal(&out); err != nil || n != out.Len() {
					x.Failf("Marshal: %d, %v", n, err)
				}
				compareIndex(x, "Marshal", out.Bytes(), ref)
			case k < 10:
				if s := prt.String(); s == "" {
					x.Failf("String gives nothing for %s", text)
				}
			default:
				if fromBox(prt.Bounds()) != ref.bounds() || prt.NumRefs() != len(refs) || prt.NodeSize() != c.Tree.NodeSize {
					x.Failf("Bounds %v, NumRefs %d, NodeSize %d, want %v, %s", prt.Bounds(), prt.NumRefs(), prt.NodeSize(), ref.bounds(), text)
				}
			}
		})
	case "references":
		// Several indexes made from one list.
		refs := sortedRefs(&c.Tree.L, c.Tree.Reverse)
		boxes, offs := split(refs)
		each(func(g, k int) {
			ns := uint16(2 + (g*12+k)%40)
			prt, err := packedrtree.New(refs, ns)
			if err != nil {
				x.Failf("New: %v", err)
			}
			for _, q := range c.Tree.Queries {
				checkHits(x, "Search", q, prt.Search(q.b().box()), bruteSearch(boxes, offs, q.b()))
			}
		})
	case "header":
		// A reader goes on while the features it has returned, and its
		// header, are used elsewhere.
		f := c.S.build()
		s := newStream(f.bytes)
		s.frag = c.Frag
		r := flatgeobuf.NewFileReader(s.view(len(c.Ops[0])%2 == 0, false))
		h, err := r.Header()
		if err != nil || h == nil {
			x.Failf("Header: %v, %v", h, err)
		}
		wantHeader := headerText(&f.model)
		type got struct {
			f *flat.Feature
			i int
		}
		ch := make(chan got, len(f.feats))
		fs = append(fs, func() {
			defer close(ch)
			p := make([]flat.Feature, len(f.feats)+1)
			at := 0
			for {
				n, err := r.Data(p[at:min(len(p), at+1+c.Ops[0][0]%3)])
				for i := 0; i < n; i++ {
					ch <- got{&p[at+i], at + i}
				}
				at += n
				if err != nil || n == 0 {
					break
				}
			}
			if at != len(f.feats) {
				x.Failf("%d of %d features returned", at, len(f.feats))
			}
		})
		for g := range c.Ops {
			fs = append(fs, func() {
				for v := range ch {
					if b := v.f.Table().Bytes; len(b) < len(f.feats[v.i]) || !bytes.Equal(b[:len(f.feats[v.i])], f.feats[v.i]) {
						x.Failf("feature %d is not the one stored", v.i)
					}
					m := &c.S.Feats[v.i%len(c.S.Feats)]
					if s := flatgeobuf.FeatureString(v.f, h); s == "" {
						x.Failf("no text for feature %d", v.i)
					}
					if p := v.f.PropertiesBytes(); len(p) > 0 && len(m.Columns) == 0 {
						if _, err := flatgeobuf.NewPropReader(bytes.NewReader(p)).ReadSchema(h); err != nil {
							x.Failf("ReadSchema of feature %d: %v", v.i, err)
						}
					}
				}
			}, func() {
				for _, k := range c.Ops[g] {
					if k%2 == 0 {
						if s := flatgeobuf.HeaderString(h); s != wantHeader {
							x.Failf("header summary differs at %s", firstDiff(s, wantHeader))
						}
					} else if d := diff(accHeader(h), f.model.norm()); d != "" {
						x.Failf("header: %s", d)
					}
				}
			})
		}
	case "bytes":
		f := c.S.build()
		for g, ops := range c.Ops {
			hc := HistoryCase{S: c.S, Seekable: true, Frag: c.Frag, Ops: []Op{{K: "header"}}}
			for _, k := range ops {
				switch k % 4 {
				case 0:
					hc.Ops = append(hc.Ops, Op{K: "data", N: k})
				case 1:
					hc.Ops = append(hc.Ops, Op{K: "search", Q: RBox{F(-k), F(-k), F(k + 1), F(k + g)}})
				case 2:
					hc.Ops = append(hc.Ops, Op{K: "index", Q: RBox{F(-k), F(-k), F(k + 1), F(k + g)}})
				}
				hc.Ops = append(hc.Ops, Op{K: "rewind"})
			}
			fs = append(fs, func() {
				y := taskCtx()
				s := newStream(f.bytes)
				s.frag = hc.Frag
				m := newReader(y, f, s, true, false)
				for _, op := range hc.Ops {
					m.step(op)
				}
				m.finish()
			})
		}
	case "tables":
		// Several writers write the same tables.
		f := c.S.build()
		hdr, items := headerItem(f, c.Via), featureItems(f, c.Via)
		for g := range c.Ops {
			fs = append(fs, func() {
				y := taskCtx()
				sk := newSink()
				m := &writer{x: y, f: f, s: sk, w: flatgeobuf.NewFileWriter(sk.view(false)), hdr: hdr, items: items}
				m.step(WOp{K: "header"})
				if f.indexed {
					m.step(WOp{K: []string{"index", "indexdata", "indexptr"}[g%3]})
				}
				if !f.indexed || g%3 == 0 {
					for i := range items {
						m.step(WOp{K: "data", N: i})
					}
				}
				m.step(WOp{K: "close"})
			})
		}
	case "records":
		cols := c.Rec.Schema.columns()
		schema := c.Rec.Schema.schema(cols)
		b := encodeProps(c.Rec.Vals)
		each(func(g, k int) {
			y := taskCtx()
			y.prop = "Q03"
			s := newStream(b)
			s.frag = c.Rec.Frag
			s.steps = 1 << 22
			vs, err := flatgeobuf.NewPropReader(s.r()).ReadSchema(schema)
			if err != nil || len(vs) != len(c.Rec.Vals) {
				x.Failf("ReadSchema: %d of %d properties, %v", len(vs), len(c.Rec.Vals), err)
			}
			checkPropValues(y, "ReadSchema", vs, cols, c.Rec.Vals)
		})
	}
	for i, f := range together(fs) {
		switch f := f.(type) {
		case harnessError:
			panic(f)
		case violation:
			x.Failf("goroutine %d, sharing %s: %s", i, kind, f.msg)
		}
	}
	checkRaces(x, races, "several goroutines read shared objects")
	if len(fs) > 1 {
		x.NT()
	}
}

func init() {
	register(&Prop{ID: "I01", Rule: "rapid draws 2 to 4 tasks, which are cases of the other checks (file readers and writers, property streams, schema records, indexes, streaming searches, sorting, summaries, magic checks, tables), the same kind or copies more often than not. 'interleaved': one task runs at a time and another goes on wherever one calls its stream, by a drawn schedule. 'parallel': all run at the same time under the race detector. 'shared': goroutines read one index, header, byte slice, schema, list of references or set of tables. Oracle: every task satisfies the oracle it has when run alone (tasks which fail alone are skipped), and there is no data race. Non-trivial: at least two switches, or two goroutines.",
		Assum: []string{"Interleaving switches at calls of streams and schemas and between calls of the API only.", "Known findings of the tasks' own properties are accepted."},
		Subs: []*Sub{
			sub("interleaved", 12000, 600000, drawWoven, runWoven),
			sub("parallel", 4000, 200000, func(t *rapid.T) ParallelCase { return ParallelCase{Tasks: drawTasks(t, 4)} }, runParallel),
			sub("shared", 8000, 400000, drawShared, runShared),
		}})
}
