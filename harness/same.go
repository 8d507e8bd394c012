package main

// I03: the same calls give the same results. R10: ways of reading agree, also
// on corrupt data. R11: damage stays local.

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"reflect"
	"runtime"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// trace is what a sequence of calls returned.
type trace []string

func (t *trace) add(format string, a ...any) { *t = append(*t, fmt.Sprintf(format, a...)) }

// differs compares two traces and describes the first difference.
func (t trace) differs(u trace) string {
	for i := 0; i < len(t) && i < len(u); i++ {
		if t[i] != u[i] {
			return fmt.Sprintf("result %d is different in another process or on another host: %s; here %s", i, firstDiff(u[i], t[i]), clip(t[i], 300))
		}
	}
	if len(t) != len(u) {
		return fmt.Sprintf("%d results, in another process or on another host %d", len(t), len(u))
	}
	return ""
}

func (t trace) same(x *Ctx, what string, u trace) {
	for i := 0; i < len(t) && i < len(u); i++ {
		if t[i] != u[i] {
			x.Failf("%s: result %d is %s; the first time %s", what, i, firstDiff(u[i], t[i]), clip(t[i], 300))
		}
	}
	if len(t) != len(u) {
		x.Failf("%s: %d results, the first time %d", what, len(u), len(t))
	}
}

func digest(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes %x", len(b), h.Sum64())
}

func featureID(f *flat.Feature) string {
	return fmt.Sprintf("%s table at %d", digest(f.Table().Bytes), f.Table().Pos)
}

// featureBytes is the featureID of a feature in size-prefixed form.
func featureBytes(b []byte) string {
	return fmt.Sprintf("%s table at %d", digest(b), 4+le.Uint32(b[4:]))
}

// kindOf classifies an error.
func kindOf(err error) string {
	switch {
	case err == nil:
		return "no error"
	case err == io.EOF:
		return "io.EOF"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "unexpected end"
	case errors.Is(err, flatgeobuf.ErrNoIndex):
		return "no index"
	case errors.Is(err, flatgeobuf.ErrClosed):
		return "closed"
	}
	return "error"
}

// endOf says whether reading ended as it should.
func endOf(err error) string {
	if err == io.EOF {
		return "io.EOF"
	}
	return "an error"
}

// displaced copies bytes to another place in memory.
func displaced(b []byte, by int) []byte {
	c := make([]byte, by+len(b)+8)
	copy(c[by:], b)
	return c[by : by+len(b) : by+len(b)]
}

// traceRead makes the calls of a case. With texts, the trace has everything
// that is returned, otherwise what may not depend on the delivery.
func traceRead(c *CorruptCase, s *stream, texts bool) (t trace) {
	m := newReader(newCtx(props["R05"]), nil2file, s, c.Seekable, false)
	var hdr *flat.Header
	for _, op := range c.Ops {
		o := m.call(op)
		e := kindOf(o.err)
		if texts {
			e = fmt.Sprintf("%T %v", o.err, o.err)
		}
		line := fmt.Sprintf("%s(%d): %d features, %s", op.K, op.N, o.n, e)
		for i := range o.fs[:o.n] {
			line += "; " + featureID(&o.fs[i])
			if texts && i < 20 {
				line += flatgeobuf.FeatureString(&o.fs[i], schemaOf(hdr))
			}
		}
		if o.h != nil {
			hdr = o.h
			line += "; header " + digest(o.h.Table().Bytes)
			if texts {
				line += flatgeobuf.HeaderString(hdr)
			}
		}
		if o.prt != nil {
			line += fmt.Sprintf("; index %v", o.prt)
			if texts {
				line += fmt.Sprintf(" finds %v", o.prt.Search(op.Q.b().box()))
			} else {
				line += fmt.Sprintf(" finds %v", byIdx(toHits(o.prt.Search(op.Q.b().box()))))
			}
		}
		if o.err == nil || texts {
			line += fmt.Sprintf("; stream at %d", s.pos)
		}
		t = append(t, line)
	}
	return
}

// AgainCase is something to do twice.
type AgainCase struct {
	Read   *CorruptCase  `json:",omitempty"`
	Write  *WHistoryCase `json:",omitempty"`
	Tree   *TreeCase     `json:",omitempty"`
	Rec    *PropRecord   `json:",omitempty"`
	Cut    int           // bytes missing from the record
	Flip   int           // position of a changed byte, if > 0
	By     int           // distance to move things in memory
	GC     bool
	Unsort bool
	Ties   bool
}

func drawAgain(t *rapid.T) AgainCase {
	k := AgainCase{By: drawInt(t, 0, 9, "by"), GC: oneIn(t, 50, "gc")}
	switch drawInt(t, 0, 6, "kind") {
	case 0, 1:
		c := drawCorrupt(t)
		if oneIn(t, 3, "good") {
			c.Edits, c.Bombs, c.Raw, c.HdrCount, c.HdrNode = nil, nil, nil, nil, nil
			if len(c.S.Feats) == 0 {
				c.S = drawFile(t, fileGen{maxFeats: 6, maxCols: 3, mode: -1, indexed: 1})
			}
		}
		k.Read = &c
	case 2, 3:
		k.Write = ptr(drawWHistory(t))
		if drawBool(t, "filewrite") {
			k.Write.S = drawFile(t, fileGen{maxFeats: 12, maxCols: 2, indexed: 1, mode: cmGrid, many: 40})
			k.Write.Ops = []WOp{{K: "header"}, {K: pick(t, []string{"indexdata", "indexptr"}, "how")}, {K: "close"}}
		}
	case 4, 5:
		k.Tree = ptr(drawTreeCase(t, 60, 3000, 3))
		k.Ties = drawBool(t, "ties")
	default:
		k.Rec = ptr(drawRecord(t, 6))
		k.Cut = pick(t, []int{0, 0, 1, 2, 5}, "cut")
		k.Flip = drawInt(t, -20, 60, "flip")
	}
	return k
}

func textOf(err error) string { return fmt.Sprintf("%T %v", err, err) }

func traceWrite(c *WHistoryCase, x *Ctx, say func(error) string) (t trace) {
	f := c.S.build()
	m := newWriter(x, f, c.Via, c.Closable, c.Rich)
	if c.CloseErr {
		m.s.closeErr = errInjectedClose
	}
	for _, op := range c.Ops {
		w := m.prepare(op)
		before := len(m.s.data)
		n, err := w.run()
		t.add("%s: %d, %s, wrote %s", w.what, n, say(err), digest(m.s.data[before:]))
		if err == nil && w.done != nil {
			w.done()
		}
		m.closed = m.closed || op.K == "close"
	}
	return
}

func traceTree(k *AgainCase, x *Ctx) (t trace) {
	c := k.Tree
	list := c.L.expand()
	refs := make([]packedrtree.Ref, k.By, k.By+len(list))
	bounds := packedrtree.EmptyBox
	for i, r := range list {
		off := r.Off
		if k.Ties {
			// Told apart by the offset only.
			r, off = list[i/3], int64(i)
		}
		refs = append(refs, packedrtree.Ref{Box: r.B.b().box(), Offset: off})
		bounds.Expand(&refs[len(refs)-1].Box)
	}
	refs = refs[k.By:]
	packedrtree.HilbertSort(refs, bounds)
	t.add("sorted %x", fmt.Sprint(refs))
	prt, err := packedrtree.New(refs, c.NodeSize)
	if err != nil || prt == nil {
		x.Failf("New: %v, %v", prt, err)
	}
	var out bytes.Buffer
	n, err := prt.Marshal(&out)
	t.add("Marshal: %d, %v, %s", n, err, digest(out.Bytes()))
	t.add("%v %v", prt, prt.Bounds())
	for i := 0; i < 2; i++ {
		for _, q := range c.Queries {
			t.add("Search %v finds %v", q, prt.Search(q.b().box()))
		}
	}
	back, err := packedrtree.Unmarshal(bytes.NewReader(out.Bytes()), len(refs), c.NodeSize)
	if err != nil || back == nil {
		x.Failf("Unmarshal: %v, %v", back, err)
	}
	for _, q := range c.Queries {
		t.add("Search of the loaded index %v finds %v", q, back.Search(q.b().box()))
		got, err := packedrtree.Seek(bytes.NewReader(displaced(out.Bytes(), k.By)), len(refs), c.NodeSize, q.b().box())
		t.add("Seek %v finds %v, %v", q, got, err)
	}
	return
}

func traceRecord(k *AgainCase, x *Ctx, texts bool) (t trace) {
	cols := k.Rec.Schema.columns()
	b := encodeProps(k.Rec.Vals)
	b = b[:max(0, len(b)-k.Cut)]
	if k.Flip > 0 && len(b) > 0 {
		b[k.Flip%len(b)] ^= 0x55
	}
	s := newStream(displaced(b, k.By))
	s.frag = k.Rec.Frag
	got, err := flatgeobuf.NewPropReader(s.r()).ReadSchema(k.Rec.Schema.schema(cols))
	if texts {
		t.add("%d values, %s", len(got), textOf(err))
	} else {
		t.add("%d values, failed %v", len(got), err != nil)
	}
	for i := range got {
		t.add("%d %d %T %v %s", got[i].ColIndex, got[i].Type, got[i].Value, got[i].Value, digest(got[i].Col.Table().Bytes))
	}
	return
}

// traceAgain makes the calls of a case with the data elsewhere in memory and
// returns everything they return, write and report.
func traceAgain(k AgainCase, by int, x *Ctx) trace {
	k.By = by
	switch {
	case k.Read != nil:
		b := displaced(k.Read.bytes(), by)
		s := newStream(b)
		s.frag = k.Read.Frag
		if len(b) > 20000 && len(s.frag.Sizes) > 0 {
			s.frag.Sizes = []int{4096}
		}
		return traceRead(k.Read, s, true)
	case k.Write != nil:
		return traceWrite(k.Write, x, textOf)
	case k.Tree != nil:
		return traceTree(&k, x)
	default:
		return traceRecord(&k, x, true)
	}
}

// runProcesses records what another process must observe as well.
func runProcesses(k AgainCase, x *Ctx) {
	t := traceAgain(k, k.By, x)
	x.Cross(t)
	if len(t) > 1 {
		x.NT()
	}
}

func runAgain(k AgainCase, x *Ctx) {
	run := func(by int) trace { return traceAgain(k, by, x) }
	first := run(0)
	if k.GC {
		runtime.GC()
	}
	second := run(k.By)
	first.same(x, "again", second)
	done := make(chan trace)
	var problem any
	go func() {
		var t trace
		defer func() {
			problem = recover()
			done <- t
		}()
		t = run(2 * k.By)
	}()
	third := <-done
	if problem != nil {
		panic(problem)
	}
	first.same(x, "again in another goroutine", third)
	switch {
	case k.Read != nil:
		x.Label("reading")
		x.LabelIf(len(first) > 1, "reading several calls")
	case k.Write != nil:
		x.Label("writing")
	case k.Tree != nil:
		x.Label("index")
		x.LabelIf(k.Ties, "ties")
	default:
		x.Label("properties")
	}
	if len(first) > 1 {
		x.NT()
	}
	if k.Write != nil && len(k.Write.Ops) == 3 && k.Write.Ops[1].K != "index" && k.Write.Ops[0].K == "header" && k.Write.Ops[0].Bad == 0 && k.Write.Ops[1].Bad == 0 {
		// By value or by pointer.
		c := *k.Write
		c.Ops = append([]WOp{}, c.Ops...)
		var outs []trace
		for _, how := range []string{"indexdata", "indexptr"} {
			if c.Ops[1].K == "indexdata" || c.Ops[1].K == "indexptr" {
				c.Ops[1].K = how
				outs = append(outs, traceWrite(&c, x, textOf))
			}
		}
		if len(outs) == 2 {
			x.Label("by value and by pointer")
			outs[0].same(x, "IndexDataPtr instead of IndexData", outs[1])
		}
	}
}

// WaysCase is a file, well-formed or not, to read in different ways.
type WaysCase struct {
	C      CorruptCase
	Frags  []Frag
	Chunks [][]int // ways of dividing the features
	Q      RBox
}

func drawWays(t *rapid.T) WaysCase {
	k := WaysCase{C: drawCorrupt(t), Q: world}
	if oneIn(t, 4, "good") {
		k.C.Edits, k.C.Raw = nil, nil
	}
	if k.C.Raw == nil && drawBool(t, "query") {
		k.Q = drawFileQuery(t, &k.C.S)
	}
	k.C.Frag = Frag{}
	for i := 0; i < 2; i++ {
		f := drawFrag(t)
		f.Rich = false
		k.Frags = append(k.Frags, f)
		var ch []int
		for j := drawInt(t, 1, 4, "nchunk"); j > 0; j-- {
			ch = append(ch, pick(t, []int{1, 1, 2, 3, 0, 7, 1024, 1025}, "chunk"))
		}
		k.Chunks = append(k.Chunks, ch)
	}
	return k
}

func runWays(k WaysCase, x *Ctx) {
	b := k.C.bytes()
	open := func(f Frag) *stream {
		s := newStream(displaced(b, 3))
		s.frag = f
		if len(b) > 20000 && len(f.Sizes) > 0 {
			s.frag.Sizes = []int{4096, 77}
		}
		return s
	}
	// Delivery.
	first := traceRead(&k.C, open(Frag{}), false)
	for _, f := range k.Frags {
		first.same(x, fmt.Sprintf("reading a stream which delivers bytes as %+v, not all at once", f), traceRead(&k.C, open(f), false))
	}
	x.LabelIf(len(first) > 1, "delivery")

	// Division into calls.
	reader := func(s *stream, seekable bool) (*flatgeobuf.FileReader, bool) {
		r := flatgeobuf.NewFileReader(s.view(seekable, false))
		_, err := r.Header()
		return r, err == nil
	}
	type read struct {
		feats []string
		end   string
	}
	var reads []read
	for i, way := range append([][]int{nil, {1}}, k.Chunks...) {
		for _, seekable := range []bool{true, false} {
			r, ok := reader(open(Frag{}), seekable)
			if !ok {
				continue
			}
			var d read
			if way == nil {
				fs, err := r.DataRem()
				if d.end = endOf(err); err == nil {
					d.end = endOf(io.EOF)
				}
				for j := range fs {
					d.feats = append(d.feats, featureID(&fs[j]))
				}
			} else {
				total := 0
				for _, n := range way {
					total += n
				}
				for j := 0; d.end == ""; j++ {
					n := way[j%len(way)]
					if total == 0 {
						n = 1
					}
					fs := make([]flat.Feature, n)
					m, err := r.Data(fs)
					for i := range fs[:m] {
						d.feats = append(d.feats, featureID(&fs[i]))
					}
					if err != nil {
						d.end = endOf(err)
					} else if m < n {
						x.Failf("Data(%d) returns %d features and no error", n, m)
					}
				}
			}
			reads = append(reads, d)
			if !reflect.DeepEqual(reads[0], d) {
				x.Failf("reading in chunks of %v (number %d, seekable %v): %d features, then %s; DataRem gave %d, then %s", way, i, seekable, len(d.feats), d.end, len(reads[0].feats), reads[0].end)
			}
		}
	}
	if len(reads) > 0 {
		x.NT()
		x.Label("reading ends with " + reads[0].end)
		x.LabelIf(len(reads[0].feats) > 0, "some features")
	}

	// Ways of searching.
	r, ok := reader(open(Frag{}), true)
	if !ok {
		return
	}
	prt, err := r.Index()
	if err != nil || prt == nil {
		x.LabelIf(err != nil, "index does not load")
		return
	}
	type found struct {
		feats []string
		ok    bool
	}
	search := func(r *flatgeobuf.FileReader) (f found) {
		fs, err := r.IndexSearch(k.Q.b().box())
		f.ok = err == nil
		for i := range fs {
			f.feats = append(f.feats, featureID(&fs[i]))
		}
		return
	}
	if err := r.Rewind(); err != nil {
		x.Failf("Rewind after Index: %v", err)
	}
	want := search(r)
	x.Label("search")
	if want.ok {
		// The features at the offsets which the index gives.
		hits := toHits(prt.Search(k.Q.b().box()))
		sort.Slice(hits, func(i, j int) bool { return hits[i].Off < hits[j].Off })
		size, err := packedrtree.Size(prt.NumRefs(), prt.NodeSize())
		if err != nil {
			x.Failf("Size(%d, %d): %v", prt.NumRefs(), prt.NodeSize(), err)
		}
		data := b[12+int(le.Uint32(b[8:]))+size:]
		if len(hits) != len(want.feats) {
			x.Failf("IndexSearch %v returns %d features, the index has %d results", k.Q, len(want.feats), len(hits))
		}
		for i, h := range hits {
			if h.Off < 0 || h.Off+4 > int64(len(data)) {
				x.Failf("IndexSearch %v succeeds, but feature %d is at offset %d of %d", k.Q, h.Idx, h.Off, len(data))
			}
			l := int64(le.Uint32(data[h.Off:]))
			if h.Off+4+l > int64(len(data)) || l < 4 {
				x.Failf("IndexSearch %v succeeds, but feature %d at offset %d of %d has length %d", k.Q, h.Idx, h.Off, len(data), l)
			}
			if g := featureBytes(data[h.Off : h.Off+4+l]); g != want.feats[i] {
				x.Failf("IndexSearch %v: feature %d at offset %d is %s; returned %s", k.Q, h.Idx, h.Off, g, want.feats[i])
			}
		}
		x.LabelIf(len(hits) > 0 && len(k.C.Edits) > 0, "search finds something in a changed file")
	}
	x.LabelIf(!want.ok, "search fails")
	x.LabelIf(len(want.feats) > 0, "search finds something")
	for i := 0; i < 4; i++ {
		seekable := i < 2
		f := Frag{}
		if i%2 == 1 {
			f = k.Frags[0]
		}
		r, ok := reader(open(f), seekable)
		if !ok {
			x.Failf("Header fails on the second stream of the same file")
		}
		if got := search(r); !reflect.DeepEqual(got, want) {
			x.Failf("IndexSearch %v (seekable %v, index not loaded): %d features, success %v; with the index loaded %d, %v", k.Q, seekable, len(got.feats), got.ok, len(want.feats), want.ok)
		}
	}
}

func runIndexWays(c BadIndexCase, x *Ctx) {
	data, n, ns := c.corrupt()
	prt, err := packedrtree.Unmarshal(bytes.NewReader(data), n, ns)
	s := newStream(data)
	s.frag = c.Frag
	other, err2 := packedrtree.Unmarshal(s.r(), n, ns)
	if kindOf(err) != kindOf(err2) {
		x.Failf("Unmarshal: %v; from a stream which delivers bytes as %+v: %v", err, c.Frag, err2)
	}
	for _, q := range c.Queries {
		var found []string
		for i, f := range []Frag{{}, c.Frag} {
			s := newStream(append(junk(c.Prefix), data...))
			s.pos, s.frag = int64(c.Prefix), f
			rs, err := packedrtree.Seek(s.rs(), n, ns, q.b().box())
			got := fmt.Sprint(kindOf(err), rs)
			found = append(found, got)
			if found[0] != got {
				x.Failf("Seek %v: %s; from a stream which delivers bytes as %+v: %s", q, clip(found[0], 300), f, clip(got, 300))
			}
			if prt == nil || i > 0 {
				x.LabelIf(i == 0 && err == nil, "index does not load, but search succeeds")
				continue
			}
			x.NT()
			if err != nil {
				x.Failf("Seek %v fails with %v in an index which loads", q, err)
			}
			want := byIdx(toHits(prt.Search(q.b().box())))
			if g := byIdx(toHits(rs)); !sameHits(g, want) {
				x.Failf("Seek %v finds %s, Search of the loaded index %s", q, describe(g), describe(want))
			}
			if w := byIdx(toHits(other.Search(q.b().box()))); !sameHits(w, want) {
				x.Failf("Search %v finds %s in an index loaded in pieces, otherwise %s", q, describe(w), describe(want))
			}
			x.Label("index loads")
		}
	}
}

// Wound is damage to the table of a feature.
type Wound struct {
	F    int // number of the feature
	At   int // position behind the length
	Kind int // 0 byte, 1 u32, 2 everything from there on
	V    uint64
}

// DamageCase is a file with damage in features, and perhaps the index, which
// must not show elsewhere.
type DamageCase struct {
	C       HistoryCase
	Wounds  []Wound
	Index   []FileEdit // damage to the index; if any, it is not used
	Length  int        // > 0: the length of feature Length-1 is changed
	LenBits uint32
}

func drawDamage(t *rapid.T) DamageCase {
	var k DamageCase
	switch drawInt(t, 0, 2, "kind") {
	case 0:
		k.C = drawSequential(t)
	case 1:
		k.C = drawSearches(t)
	default:
		k.C = drawHistory(t)
	}
	k.C.Kind = ""
	if k.C.S.Rep > 0 {
		k.C.S.Rep = 1025
	}
	for i := drawInt(t, 0, 3, "nwounds"); i > 0; i-- {
		w := Wound{F: drawInt(t, 0, 20, "f"), At: pick(t, []int{0, 0, 4, 8, drawInt(t, 0, 200, "at")}, "atk"), Kind: drawInt(t, 0, 2, "wk")}
		w.V = pick(t, []uint64{0, 1, 2, 3, 4, 0xff, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffff8, 0xffffffff, drawUint(t, 0, math.MaxUint64, "v")}, "vk")
		k.Wounds = append(k.Wounds, w)
	}
	if oneIn(t, 3, "indexdamage") {
		for i := drawInt(t, 1, 3, "nindex"); i > 0; i-- {
			e := drawFileEdit(t)
			e.Kind = pick(t, []int{0, 1, 3}, "k")
			k.Index = append(k.Index, e)
		}
		var ops []Op
		for _, op := range k.C.Ops {
			if op.K != "index" && op.K != "search" {
				ops = append(ops, op)
			}
		}
		k.C.Ops = ops
	} else if oneIn(t, 3, "lengthdamage") {
		k.Length = 1 + drawInt(t, 0, 10, "which")
		k.LenBits = uint32(pick(t, []uint64{0, 1, 2, 3, 0x7fffffff, 0xffffffff, 0xfffffffc, 1 << 20, 1 << 30, uint64(drawU32(t))}, "len"))
	}
	return k
}

func runDamage(k DamageCase, x *Ctx) {
	f := k.C.file()
	if len(f.feats) == 0 {
		return
	}
	// The features are slices of other memory than the file.
	all := append([]byte{}, f.bytes...)
	for i := range f.feats {
		at := f.dataAt + int(f.featAt[i])
		f.feats[i] = all[at : at+len(f.feats[i]) : at+len(f.feats[i])]
	}
	hurt := map[int]bool{}
	for _, w := range k.Wounds {
		i := w.F % len(f.feats)
		b := f.feats[i][4:]
		at := w.At % len(b)
		hurt[i] = true
		switch w.Kind {
		case 0:
			b[at] = byte(w.V)
		case 1:
			if at = at / 4 * 4; at+4 <= len(b) {
				le.PutUint32(b[at:], uint32(w.V))
			}
		default:
			for j := range b[at:] {
				b[at+j] = byte(w.V >> (j % 8 * 8))
			}
		}
	}
	for _, e := range k.Index {
		if len(f.index) == 0 {
			break
		}
		b := all[f.indexAt:f.dataAt]
		at := e.At % len(b)
		switch e.Kind {
		case 0:
			b[at] = byte(e.V)
		case 1:
			le.PutUint32(b[at/4*4:], uint32(e.V))
		default:
			le.PutUint64(b[at/8*8:], e.V)
		}
		x.Label("damaged index")
	}
	f.bytes = all
	f.spec = nil // the accessors of damaged features are not of interest
	if k.Length > 0 {
		runLengthDamage(&k, f, x)
		return
	}
	m := k.C.open(x, f)
	for _, op := range k.C.Ops {
		m.step(op)
	}
	m.finish()
	whole := len(f.feats) - len(hurt)
	x.LabelIf(len(hurt) > 0 && whole > 0, "damaged and whole features")
	if m.returned > 0 && (len(hurt) > 0 || len(k.Index) > 0) {
		x.NT()
	}
	// The summaries do not fail on what is left.
	for _, kp := range m.kept[:min(len(m.kept), 10)] {
		if flatgeobuf.FeatureString(&kp.f, nil) == "" {
			x.Failf("empty summary")
		}
	}
}

// runLengthDamage reads a file in which the length of a feature is wrong:
// those before it are read as ever.
func runLengthDamage(k *DamageCase, f *file, x *Ctx) {
	i := (k.Length - 1) % len(f.feats)
	at := f.dataAt + int(f.featAt[i])
	if le.Uint32(f.bytes[at:]) == k.LenBits {
		return
	}
	le.PutUint32(f.bytes[at:], k.LenBits)
	x.Label("damaged length")
	read := func(r *flatgeobuf.FileReader) (fs []flat.Feature, err error) {
		for _, op := range k.C.Ops {
			if op.K == "data" && op.N > 0 {
				p := make([]flat.Feature, min(op.N, 2000))
				n, err := r.Data(p)
				fs = append(fs, p[:n]...)
				if err != nil {
					return fs, err
				}
			}
		}
		p, err := r.DataRem()
		return append(fs, p...), err
	}
	s := newStream(f.bytes)
	s.frag = k.C.Frag
	r := flatgeobuf.NewFileReader(s.view(k.C.Seekable, false))
	if _, err := r.Header(); err != nil {
		x.Failf("Header: %v", err)
	}
	fs, err := read(r)
	if len(fs) < i {
		x.Failf("the length of feature %d of %d is damaged (%#x): only %d features are returned before %v", i, len(f.feats), k.LenBits, len(fs), err)
	}
	m := newReader(x, f, s, k.C.Seekable, false)
	for j := 0; j < i; j++ {
		m.sameFeature(fmt.Sprintf("the length of feature %d is damaged", i), &fs[j], j)
	}
	rest := int64(len(f.bytes) - at - 4)
	if len(fs) > i && (int64(k.LenBits) > rest || k.LenBits < 4) {
		x.Failf("feature %d has length %#x, %d bytes are left, but it is returned", i, k.LenBits, rest)
	}
	if (int64(k.LenBits) > rest || k.LenBits < 4) && (err == nil || err == io.EOF) {
		x.Failf("feature %d has length %#x, %d bytes are left: %v", i, k.LenBits, rest, err)
	}
	x.LabelIf(i > 0, "features before the damage")
	x.NT()
	if !f.indexed {
		return
	}
	// A search which needs only features before it.
	for _, q := range []RBox{drawnQuery(k), world} {
		ids := f.matches(q.b())
		if len(ids) > 0 && ids[len(ids)-1] >= i {
			continue
		}
		s := newStream(f.bytes)
		s.frag = k.C.Frag
		r := flatgeobuf.NewFileReader(s.view(k.C.Seekable, false))
		if _, err := r.Header(); err != nil {
			x.Failf("Header: %v", err)
		}
		fs, err := r.IndexSearch(q.b().box())
		if err != nil || len(fs) != len(ids) {
			x.Failf("IndexSearch %v for features %v, with the length of feature %d damaged: %d, %v", q, ids, i, len(fs), err)
		}
		for j := range fs {
			m.sameFeature("IndexSearch", &fs[j], ids[j])
		}
		x.LabelIf(len(ids) > 0, "search before the damage")
	}
}

func drawnQuery(k *DamageCase) RBox {
	for _, op := range k.C.Ops {
		if op.K == "search" {
			return op.Q
		}
	}
	return RBox{F(math.Inf(-1)), F(math.Inf(-1)), 0, 0}
}

func init() {
	register(&Prop{ID: "I03", Rule: "rapid draws calls of all kinds (reading valid, damaged and arbitrary files, with texts; writer histories; sorting, building, searching and storing indexes with many ties; reading stored properties, whole or damaged) and makes them three times: again after the first time with the data elsewhere in memory, sometimes after a garbage collection, and in another goroutine; in the sub-check processes, in another process. Oracle: everything returned and written is equal, including order, error types and texts, and positions in the stream; IndexData writes what IndexDataPtr writes. Non-trivial: more than one result is compared.",
		Subs: []*Sub{
			sub("again", 90000, 3600000, drawAgain, runAgain),
			sub("processes", 24000, 400000, drawAgain, runProcesses),
		}})
	register(&Prop{ID: "R10", Rule: "rapid draws valid, damaged and arbitrary files as for R05, and indexes as for T07. Oracle: the same results (features, counts, kinds of errors, positions after success) however the stream fragments its reads; the same features and the same end however the features are divided into Data calls, with DataRem, seekable or not; and if the index can be loaded, the same search results loaded, streaming, and on streams which cannot seek. Non-trivial: the header is accepted; for indexes: the index loads.",
		Subs: []*Sub{
			sub("files", 60000, 2400000, drawWays, runWays),
			sub("index", 60000, 2400000, drawBadIndex, runIndexWays),
		}})
	register(&Prop{ID: "R11", Rule: "rapid draws valid files and histories as for R01, R02 and R03 and damages the inside of features' tables, the index (if it is not used), or the length of a feature. Oracle: the cursor model with the damaged bytes as the features' contents; with a wrong length, all features before it and searches for them. Non-trivial: something is damaged and some features are returned.",
		Subs: []*Sub{sub("damage", 80000, 3200000, drawDamage, runDamage)}})
}
