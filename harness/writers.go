package main

// W01..W05: the file writer.

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
	"pgregory.net/rapid"
)

// item is a table to write together with the bytes it has to become.
type item struct {
	bytes []byte
	box   Box4
	feat  *flat.Feature
	hdr   *flat.Header
}

// Ways in which the tables come into being.
const (
	viaExact    = iota // the buffer holds just the table
	viaTrailing        // the buffer goes on after the table
	viaBuilder         // FlatBuffers builder
	viaReader          // returned by the file reader
	viaCount
)

func headerItem(f *file, via int) item {
	it := item{bytes: f.header}
	switch via {
	case viaTrailing:
		it.hdr = flat.GetSizePrefixedRootAsHeader(append(append([]byte{}, f.header...), junk(13)...), 0)
	case viaBuilder:
		b := flatbuffers.NewBuilder(0)
		b.FinishSizePrefixed(bHeader(b, &f.model, f.spec.HL.Rev))
		it.bytes = append([]byte{}, b.FinishedBytes()...)
		it.hdr = flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
	case viaReader:
		r := flatgeobuf.NewFileReader(bytes.NewReader(f.bytes))
		h, err := r.Header()
		if err != nil || h == nil {
			panic(violation{fmt.Sprintf("Header: %v, %v", h, err)})
		}
		it.hdr = h
	default:
		it.hdr = flat.GetSizePrefixedRootAsHeader(append([]byte{}, f.header...), 0)
	}
	return it
}

// featureItems returns the tables of all features of a file. Repeated
// features share a table.
func featureItems(f *file, via int) (r []item) {
	n := len(f.feats)
	if via == viaReader && n > 0 {
		rd := flatgeobuf.NewFileReader(bytes.NewReader(f.bytes))
		if _, err := rd.Header(); err != nil {
			panic(violation{fmt.Sprintf("Header: %v", err)})
		}
		fs, err := rd.DataRem()
		if err != nil || len(fs) != n {
			panic(violation{fmt.Sprintf("DataRem: %d of %d features, %v", len(fs), n, err)})
		}
		for i := range fs {
			r = append(r, item{bytes: f.feats[i], feat: &fs[i]})
		}
	} else {
		m := len(f.spec.Feats)
		for i := 0; i < n; i++ {
			if i >= m {
				r = append(r, r[i%m])
				continue
			}
			it := item{bytes: f.feats[i]}
			switch via {
			case viaTrailing:
				it.feat = flat.GetSizePrefixedRootAsFeature(append(append([]byte{}, f.feats[i]...), junk(1+i%9)...), 0)
			case viaBuilder:
				nf := f.spec.Feats[i].norm()
				b := flatbuffers.NewBuilder(0)
				b.FinishSizePrefixed(bFeature(b, &nf, i%2 == 0))
				it.bytes = append([]byte{}, b.FinishedBytes()...)
				it.feat = flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
			default:
				it.feat = flat.GetSizePrefixedRootAsFeature(append([]byte{}, f.feats[i]...), 0)
			}
			r = append(r, it)
		}
	}
	for i := range r {
		r[i].box = emptyBox4
		if g := f.spec.Feats[i%len(f.spec.Feats)].Geom; g != nil {
			r[i].box, _ = g.bounds()
		}
	}
	return
}

// indexOf builds the index of features written in the given order.
func indexOf(x *Ctx, items []item, boxes []Box4, nodes uint16) (*packedrtree.PackedRTree, *refTree) {
	var bs []Box4
	var offs []int64
	at := int64(0)
	for i := range items {
		b := items[i].box
		if boxes != nil {
			b = boxes[i]
		}
		bs, offs = append(bs, b), append(offs, at)
		at += int64(len(items[i].bytes))
	}
	tree := newRefTree(bs, offs, int(nodes))
	prt, err := packedrtree.Unmarshal(bytes.NewReader(tree.bytes()), len(items), nodes)
	if err != nil || prt == nil {
		x.Failf("Unmarshal of a valid index: %v, %v", prt, err)
	}
	return prt, tree
}

// layout is the parsed form of an index and data section.
type layout struct {
	index []byte
	order []int // item stored at each position
	offs  []int64
	boxes []Box4
}

// parseIndexed checks that b consists of an index over items and of the
// items themselves, in any order.
func parseIndexed(x *Ctx, what string, b []byte, items []item, nodes uint16) layout {
	total := 0
	for _, n := range refLevels(len(items), int(nodes)) {
		total += n
	}
	if len(b) < 40*total {
		x.Failf("%s: %d bytes written, the index alone has %d", what, len(b), 40*total)
	}
	l := layout{index: b[:40*total]}
	byBytes := map[string][]int{}
	for i := range items {
		k := string(items[i].bytes)
		byBytes[k] = append(byBytes[k], i)
	}
	data := b[40*total:]
	for at := 0; at < len(data); {
		if at+4 > len(data) {
			x.Failf("%s: data section ends in a length", what)
		}
		n := 4 + int64(le.Uint32(data[at:]))
		if int64(at)+n > int64(len(data)) {
			x.Failf("%s: data section ends in a feature", what)
		}
		k := string(data[at : at+int(n)])
		is := byBytes[k]
		if len(is) == 0 {
			x.Failf("%s: the data section has a feature at %d which was not given, or was given fewer times", what, at)
		}
		byBytes[k] = is[1:]
		l.order = append(l.order, is[0])
		l.offs = append(l.offs, int64(at))
		l.boxes = append(l.boxes, items[is[0]].box)
		at += int(n)
	}
	if len(l.order) != len(items) {
		x.Failf("%s: the data section has %d of %d features", what, len(l.order), len(items))
	}
	want := newRefTree(l.boxes, l.offs, int(nodes))
	wantBytes := want.bytes()
	for i := range want.boxes {
		g, w := l.index[40*i:40*i+40], wantBytes[40*i:40*i+40]
		if bytes.Equal(g, w) {
			continue
		}
		same := bytes.Equal(g[32:], w[32:])
		for j := 0; j < 4; j++ {
			same = same && math.Float64frombits(le.Uint64(g[8*j:])) == want.boxes[i][j]
		}
		if !same {
			x.Failf("%s: node %d of %d (%d leaves) of the index is % x, want % x", what, i, len(want.boxes), len(items), g, w)
		}
	}
	return l
}

// writer is a file writer together with its model.
type writer struct {
	x        *Ctx
	f        *file
	s        *sink
	w        *flatgeobuf.FileWriter
	closable bool
	hdr      item
	items    []item
	state    int // 0 new, 1 after header, 2 after index or in data
	written  int
	indexed  bool
	closed   bool
	total    int // sum of the counts returned
}

func newWriter(x *Ctx, f *file, via int, closable, rich bool) *writer {
	s := newSink()
	s.rich = rich
	m := &writer{x: x, f: f, s: s, w: flatgeobuf.NewFileWriter(s.view(closable)), closable: closable}
	m.hdr = headerItem(f, via)
	m.items = featureItems(f, via)
	return m
}

// WOp is a call on the file writer.
type WOp struct {
	K   string // header index indexdata indexptr data close
	N   int    `json:",omitempty"` // number of the feature for data
	Bad int    `json:",omitempty"` // kind of wrong argument
}

// announced lists the features which the header announces.
func (m *writer) announced() []item { return m.items[:min(m.f.count, len(m.items))] }

func (m *writer) full() bool { return m.f.count > 0 && m.written >= m.f.count }

// wcall is a call about to be made: what it should append, if it should
// succeed.
type wcall struct {
	ok    bool
	want  []byte
	check func(b []byte) // used instead of want
	run   func() (int, error)
	done  func()
	what  string
}

func (m *writer) prepare(op WOp) (c wcall) {
	x := m.x
	c.what = op.K
	switch op.K {
	case "header":
		h := m.hdr.hdr
		if op.Bad > 0 {
			mod := m.f.model
			switch op.Bad {
			case 1:
				mod.NodeSize = ptr(uint16(1))
			default:
				mod.FeaturesCount = ptr(uint64(1)<<63 + uint64(op.Bad-2))
			}
			h = flat.GetSizePrefixedRootAsHeader(encodeSizePrefixed(mod.tab(), m.f.spec.HL), 0)
			c.what = fmt.Sprintf("Header with node size %d and %d features", h.IndexNodeSize(), h.FeaturesCount())
		}
		c.ok = !m.closed && m.state == 0 && op.Bad == 0
		c.want = append(magicBytes(1), m.hdr.bytes...)
		c.run = func() (int, error) { return m.w.Header(h) }
		c.done = func() { m.state = 1 }
	case "index":
		items, nodes := m.announced(), m.f.nodes
		if m.f.count == 0 {
			items = m.items
		}
		bad := op.Bad
		if nodes < 2 {
			nodes, bad = 2, 9
		}
		if m.f.count == 0 {
			bad = 9
		}
		switch op.Bad {
		case 1:
			items = append(append([]item{}, items...), m.spare())
		case 2:
			if len(items) > 1 {
				items = items[:len(items)-1]
			} else {
				items = append(append([]item{}, items...), m.spare())
			}
		case 3:
			nodes++
			if nodes == 0 {
				nodes = 2
			}
		}
		if len(items) == 0 {
			items = []item{m.spare()}
		}
		var boxes []Box4
		if len(m.f.boxes) == len(items) {
			boxes = m.f.boxes
		}
		prt, tree := indexOf(x, items, boxes, nodes)
		c.ok = !m.closed && m.state == 1 && m.f.indexed && bad == 0
		c.want = tree.bytes()
		c.run = func() (int, error) { return m.w.Index(prt) }
		c.done = func() { m.state, m.indexed = 2, true }
		c.what = fmt.Sprintf("Index with %d references and node size %d (header: %d, %d)", len(items), nodes, m.f.count, m.f.nodes)
	case "indexdata", "indexptr":
		items := m.announced()
		if m.f.count == 0 && op.Bad == 0 {
			items = m.items
		}
		switch op.Bad {
		case 1:
			items = append(append([]item{}, items...), m.spare())
		case 2:
			items = items[:max(0, len(items)-1)]
		case 3:
			items = nil
		case 4:
			items = append([]item{}, items...)
			if len(items) > 0 {
				items[op.N%len(items)].feat = unsuited(items[op.N%len(items)].bytes, op.N)
			}
		}
		c.ok = !m.closed && m.state == 1 && m.f.indexed && len(items) == m.f.count && op.Bad != 4
		c.check = func(b []byte) { parseIndexed(x, op.K, b, items, m.f.nodes) }
		c.run = func() (int, error) {
			if op.K == "indexptr" {
				var ps []*flat.Feature
				for i := range items {
					ps = append(ps, items[i].feat)
				}
				return m.w.IndexDataPtr(ps)
			}
			var fs []flat.Feature
			for i := range items {
				fs = append(fs, *items[i].feat)
			}
			return m.w.IndexData(fs)
		}
		c.done = func() { m.state, m.indexed, m.written = 2, true, len(items) }
		c.what = fmt.Sprintf("IndexData of %d features (header: %d, node size %d)", len(items), m.f.count, m.f.nodes)
	case "data":
		it := m.spare()
		if len(m.items) > 0 {
			it = m.items[op.N%len(m.items)]
		}
		c.ok = !m.closed && m.state > 0 && !m.full() && (!m.f.indexed || m.indexed)
		c.want = it.bytes
		c.what = "Data"
		if op.Bad > 0 {
			it.feat = unsuited(it.bytes, op.Bad)
			c.ok = false
			c.what = "Data with an unsuitable table"
		}
		c.run = func() (int, error) { return m.w.Data(it.feat) }
		c.done = func() { m.state = 2; m.written++ }
	case "close":
		c.ok = !m.closed
		c.run = func() (int, error) { return 0, m.w.Close() }
	default:
		harnessFail("unknown operation %q", op.K)
	}
	return
}

// unsuited makes a feature which the writer has to refuse.
func unsuited(b []byte, kind int) *flat.Feature {
	f := &flat.Feature{}
	switch kind % 4 {
	case 0: // zero value
	case 1: // without a size prefix
		f.Init(b[4:], flatbuffers.UOffsetT(le.Uint32(b[4:])))
	case 2: // cut short
		f.Init(b[:len(b)-1], flatbuffers.UOffsetT(4+le.Uint32(b[4:])))
	case 3: // behind other bytes
		f.Init(append(make([]byte, 8, 8+len(b)), b...), flatbuffers.UOffsetT(12+le.Uint32(b[4:])))
	}
	return f
}

// spare is a feature which is always available.
func (m *writer) spare() item {
	f := Feature{Geom: &Geometry{XY: []F{1, 2}}}
	b := f.bytes()
	return item{bytes: b, feat: flat.GetSizePrefixedRootAsFeature(b, 0), box: Box4{1, 2, 1, 2}}
}

// step makes a call and compares it with the model.
func (m *writer) step(op WOp) {
	yield()
	if op.K == "close" {
		m.stepClose()
		return
	}
	c := m.prepare(op)
	before := len(m.s.data)
	n, err := c.run()
	m.total += n
	out := m.s.data[before:]
	if n != len(out) {
		m.x.Failf("%s returns count %d but writes %d bytes (error %v)", c.what, n, len(out), err)
	}
	if !c.ok {
		if err == nil {
			m.x.Failf("%s is accepted (header announces %d features and node size %d; %d written)", c.what, m.f.count, m.f.nodes, m.written)
		}
		if m.closed && !errors.Is(err, flatgeobuf.ErrClosed) {
			m.x.Failf("%s after Close returns %q, want the closed error", c.what, err)
		}
		if len(out) != 0 {
			m.x.Failf("%s is refused with %q but writes %d bytes", c.what, err, len(out))
		}
		return
	}
	if err != nil {
		m.x.Failf("%s: %v (header announces %d features and node size %d; %d written)", c.what, err, m.f.count, m.f.nodes, m.written)
	}
	if c.check != nil {
		c.check(out)
	} else if !bytes.Equal(out, c.want) {
		m.x.Failf("%s writes %s, want %s", c.what, clip(fmt.Sprintf("% x", out), 400), clip(fmt.Sprintf("% x", c.want), 400))
	}
	c.done()
}

func (m *writer) stepClose() {
	before := len(m.s.data)
	err := m.w.Close()
	if len(m.s.data) != before {
		m.x.Failf("Close writes %d bytes", len(m.s.data)-before)
	}
	switch missing := m.state > 0 && m.f.count > m.written; {
	case m.closed:
		if !errors.Is(err, flatgeobuf.ErrClosed) {
			m.x.Failf("Close after Close returns %v", err)
		}
	case m.closable && m.s.closeErr != nil:
		if err == nil || !missing && !errors.Is(err, m.s.closeErr) {
			m.x.Failf("Close returns %v, want the stream's error", err)
		}
	case missing:
		if err == nil {
			m.x.Failf("Close after %d of %d features returns no error", m.written, m.f.count)
		}
	case m.state > 0:
		if err != nil {
			m.x.Failf("Close of a complete file (%d features, header announces %d): %v", m.written, m.f.count, err)
		}
	}
	m.closed = true
	if m.closable && m.s.closes != 1 {
		m.x.Failf("the stream was closed %d times", m.s.closes)
	}
}

// WriteCase is a whole file to write.
type WriteCase struct {
	S        FileSpec
	Via      int
	Rich     bool // the stream has optional methods
	Mode     int  // 0 index then features, 1 IndexData, 2 IndexDataPtr
	Closable bool
	Read     Frag
	Seekable bool
	Queries  []RBox
}

func drawWrite(t *rapid.T, g fileGen) WriteCase {
	c := WriteCase{S: drawFile(t, g), Via: drawInt(t, 0, viaCount-1, "via"), Mode: drawInt(t, 0, 2, "mode"), Closable: drawBool(t, "closable"), Rich: oneIn(t, 4, "rich"), Seekable: drawBool(t, "seekable")}
	if c.S.n() < 100 {
		c.Read = drawFrag(t)
	}
	for i := drawInt(t, 1, 3, "nq"); i > 0; i-- {
		c.Queries = append(c.Queries, drawFileQuery(t, &c.S))
	}
	return c
}

// write writes the whole file and returns what was written.
func (c *WriteCase) write(x *Ctx, f *file) *writer {
	m := newWriter(x, f, c.Via, c.Closable, c.Rich)
	m.step(WOp{K: "header"})
	one := false
	if f.indexed {
		switch c.Mode {
		case 1:
			m.step(WOp{K: "indexdata"})
			one = true
		case 2:
			m.step(WOp{K: "indexptr"})
			one = true
		default:
			m.step(WOp{K: "index"})
		}
	}
	if !one {
		for i := range m.items {
			m.step(WOp{K: "data", N: i})
		}
	}
	m.step(WOp{K: "close"})
	if m.total != len(m.s.data) {
		x.Failf("the counts returned add up to %d, %d bytes were written", m.total, len(m.s.data))
	}
	return m
}

// readBack reads a written file with the cursor model.
func (c *WriteCase) readBack(x *Ctx, f *file, out []byte) *file {
	g := rawFile(out)
	if d := diff(g.model.norm(), f.model.norm()); d != "" {
		x.Failf("header in the file: %s", d)
	}
	run := func(seekable bool, ops ...Op) {
		s := newStream(out)
		s.frag = c.Read
		m := newReader(x, g, s, seekable, false)
		m.step(Op{K: "header"})
		for _, op := range ops {
			m.step(op)
		}
		m.finish()
	}
	for i, q := range c.Queries {
		if g.indexed {
			run(c.Seekable == (i == 0), Op{K: "search", Q: q})
		}
	}
	run(c.Seekable, Op{K: "index", Q: c.Queries[0]}, Op{K: "data", N: 1}, Op{K: "rem"})
	return g
}

func runW01(c WriteCase, x *Ctx) {
	f := c.S.build()
	m := c.write(x, f)
	if len(f.feats) > 0 {
		x.NT()
	}
	x.LabelIf(f.indexed, "indexed")
	x.LabelIf(f.indexed && c.Mode > 0, "index built by the writer")
	x.Label([]string{"exact buffers", "buffers with trailing bytes", "builder", "tables from the reader"}[c.Via])
	g := c.readBack(x, f, m.s.data)
	if c.Via != viaBuilder && (!f.indexed || c.Mode == 0) {
		// The whole file is known; the writer's patch version is 1.
		want := append(magicBytes(1), f.header...)
		if f.indexed {
			_, tree := indexOf(x, m.items, f.boxes, f.nodes)
			want = append(want, tree.bytes()...)
		}
		for i := range f.feats {
			want = append(want, f.feats[i]...)
		}
		if !bytes.Equal(m.s.data, want) {
			x.Failf("the file differs from the one expected")
		}
	}
	if len(g.feats) != len(f.feats) {
		x.Failf("%d features in the file, %d written", len(g.feats), len(f.feats))
	}
}

func runW02(c WriteCase, x *Ctx) {
	f := c.S.build()
	if c.Mode == 0 {
		c.Mode = 1
	}
	m := c.write(x, f)
	out := m.s.data
	l := parseIndexed(x, "IndexData", out[8+len(m.hdr.bytes):], m.items, f.nodes)
	noCoords := false
	for _, b := range l.boxes {
		noCoords = noCoords || b == emptyBox4
	}
	x.LabelIf(noCoords, "feature without coordinates")
	x.LabelIf(len(l.order) > 1000, "over 1000 features")
	hilbert := false
	for i, o := range l.order {
		hilbert = hilbert || i != o
	}
	x.LabelIf(hilbert, "features reordered")
	for _, q := range c.Queries {
		if noCoords {
			// Whether an infinite box meets nothing at all is undefined.
			for j := range q {
				q[j] = F(math.Max(-math.MaxFloat64, math.Min(math.MaxFloat64, float64(q[j]))))
			}
		}
		var want []int
		for p, b := range l.boxes {
			if b.touches(q.b()) {
				want = append(want, p)
			}
		}
		if len(want) > 0 && len(want) < len(l.boxes) {
			x.NT()
		}
		for _, mode := range []int{0, 1, 2} {
			s := newStream(out)
			s.frag = c.Read
			r := flatgeobuf.NewFileReader(s.view(mode != 0, false))
			if _, err := r.Header(); err != nil {
				x.Failf("Header: %v", err)
			}
			if mode == 2 {
				prt, err := r.Index()
				if err != nil || prt == nil {
					x.Failf("Index: %v, %v", prt, err)
				}
				var got []int
				seen := map[int]bool{}
				for _, res := range prt.Search(q.b().box()) {
					if res.RefIndex < 0 || res.RefIndex >= len(l.offs) || l.offs[res.RefIndex] != res.Offset || seen[res.RefIndex] {
						x.Failf("search result %+v does not give the position of a feature in the data section (%v)", res, l.offs)
					}
					seen[res.RefIndex] = true
					got = append(got, res.RefIndex)
				}
				if len(got) != len(want) {
					x.Failf("search of the loaded index for %v: %v, want %v", q, got, want)
				}
				for _, p := range want {
					if !seen[p] {
						x.Failf("search of the loaded index for %v: %v, want %v", q, got, want)
					}
				}
				if err := r.Rewind(); err != nil {
					x.Failf("Rewind: %v", err)
				}
			}
			fs, err := r.IndexSearch(q.b().box())
			if err != nil || len(fs) != len(want) {
				x.Failf("IndexSearch %v: %d features, %v, want %d", q, len(fs), err, len(want))
			}
			for i, p := range want {
				w := m.items[l.order[p]].bytes
				if b := fs[i].Table().Bytes; len(b) < len(w) || !bytes.Equal(b[:len(w)], w) {
					x.Failf("IndexSearch %v: result %d is not feature %d of the data section", q, i, p)
				}
			}
		}
	}
}

// WHistoryCase is a sequence of calls on a writer.
type WHistoryCase struct {
	S        FileSpec
	Via      int
	Rich     bool // the stream has optional methods
	Closable bool
	CloseErr bool
	Ops      []WOp
}

func drawWHistory(t *rapid.T) WHistoryCase {
	c := WHistoryCase{S: drawFile(t, fileGen{maxFeats: 4, maxCols: 2, mode: cmGrid}), Via: drawInt(t, 0, viaCount-1, "via"), Closable: drawBool(t, "closable"), Rich: oneIn(t, 4, "rich"), CloseErr: oneIn(t, 4, "closeerr")}
	if !oneIn(t, 6, "late") {
		c.Ops = append(c.Ops, WOp{K: "header"})
	}
	if drawBool(t, "index") {
		c.Ops = append(c.Ops, WOp{K: pick(t, []string{"index", "indexdata", "indexptr"}, "ik")})
	}
	for i := drawInt(t, 1, 12, "nops"); i > 0; i-- {
		op := WOp{K: pick(t, []string{"data", "data", "data", "data", "index", "indexdata", "indexptr", "header", "close"}, "op")}
		if op.K == "close" && i > 3 && !oneIn(t, 5, "closenow") {
			op.K = "data"
		}
		switch op.K {
		case "data":
			op.N = drawInt(t, 0, 4, "n")
			if oneIn(t, 6, "unsuited") {
				op.Bad = drawInt(t, 1, 4, "bad")
			}
		case "header":
			op.Bad = drawInt(t, 0, 3, "bad")
		case "index", "indexdata", "indexptr":
			op.Bad = pick(t, []int{0, 0, 0, 1, 2, 3, 4}, "bad")
			if op.Bad == 4 && op.K == "index" {
				op.Bad = 0
			} else if op.Bad == 4 {
				op.N = drawInt(t, 0, 12, "n")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if drawBool(t, "closeatend") {
		c.Ops = append(c.Ops, WOp{K: "close"}, WOp{K: "close"}, WOp{K: "data"})
	}
	return c
}

func runW03(c WHistoryCase, x *Ctx) {
	f := c.S.build()
	m := newWriter(x, f, c.Via, c.Closable, c.Rich)
	if c.CloseErr {
		m.s.closeErr = errInjectedClose
	}
	seen := map[string]bool{}
	refused := 0
	for _, op := range c.Ops {
		before := len(m.s.data)
		wasFull := m.full()
		m.step(op)
		seen[op.K] = true
		x.Label(op.K)
		refused += b2i(len(m.s.data) == before && op.K != "close")
		x.LabelIf(wasFull && op.K == "data" && !m.closed, "data beyond the announced count")
		if !m.closed && m.s.closes != 0 {
			x.Failf("the stream is closed after %s", op.K)
		}
	}
	x.LabelIf(refused > 0, "refused calls")
	x.LabelIf(f.indexed, "indexed")
	if len(m.s.data) > 0 && refused > 0 {
		x.NT()
	}
	if m.total != len(m.s.data) {
		x.Failf("the counts returned add up to %d, %d bytes were written", m.total, len(m.s.data))
	}
}

// WFaultCase enumerates the faults of the stream under a valid history.
type WFaultCase struct {
	S    FileSpec
	Via  int
	Rich bool `json:",omitempty"`
	Mode int
	Once bool
	Stop int // number of features left out at the end
}

func drawWFault(t *rapid.T) WFaultCase {
	return WFaultCase{S: drawFile(t, fileGen{maxFeats: 4, maxCols: 2, mode: cmGrid}), Via: drawInt(t, 0, 1, "via"), Mode: drawInt(t, 0, 2, "mode"), Rich: oneIn(t, 4, "rich"), Once: drawBool(t, "once"), Stop: pick(t, []int{0, 0, 0, 1, 2}, "stop")}
}

func (c *WFaultCase) ops(f *file) (ops []WOp) {
	ops = append(ops, WOp{K: "header"})
	n := len(f.feats)
	if f.indexed {
		ops = append(ops, WOp{K: []string{"index", "indexdata", "indexptr"}[c.Mode]})
		if c.Mode > 0 {
			n = 0
		}
	}
	for i := 0; i < n-c.Stop; i++ {
		ops = append(ops, WOp{K: "data", N: i})
	}
	return
}

func runW04(c WFaultCase, x *Ctx) {
	f := c.S.build()
	m := newWriter(x, f, c.Via, true, c.Rich)
	ops := c.ops(f)
	for _, op := range ops {
		m.step(op)
	}
	whole := append([]byte{}, m.s.data...)
	calls := m.s.calls
	x.LabelIf(f.indexed, "indexed")
	x.LabelIf(f.indexed && c.Mode > 0, "index built by the writer")
	if len(f.feats) > 0 {
		x.NT()
	}
	step := max(1, len(whole)/1500)
	bounds := map[int]bool{}
	for i, at := 0, 0; i < len(ops); i++ {
		for d := -2; d <= 2; d++ {
			bounds[at+d] = true
		}
		switch {
		case i == 0:
			at += 8 + len(m.hdr.bytes)
		case ops[i].K == "data":
			at += len(m.items[ops[i].N].bytes)
		default:
			at += len(f.index)
			bounds[at] = true
		}
	}
	for at := 0; at <= len(whole) && !tired(); at++ {
		if at%step == 0 || bounds[at] {
			c.one(x, f, ops, whole, -1, 0, at)
		}
	}
	effort.Store(0)
	for call := 0; call < calls && !tired(); call++ {
		for _, partial := range []int{0, 1, 7, 1 << 30} {
			c.one(x, f, ops, whole, call, partial, -1)
		}
	}
}

func (c *WFaultCase) one(x *Ctx, f *file, ops []WOp, whole []byte, call, partial, at int) {
	x.labels["fault points"]++
	m := newWriter(x, f, c.Via, true, c.Rich)
	if call >= 0 {
		m.s.faultCall, m.s.partial = call, partial
	} else {
		m.s.faultPos = at
	}
	m.s.once = c.Once
	dead := false   // a partial item was left
	missed := false // an item was left out without a trace
	where := func(op WOp, i int) string {
		return fmt.Sprintf("%s (operation %d; stream fails at call %d accepting %d bytes, or at position %d of %d)", op.K, i, call, partial, at, len(whole))
	}
	all := append(append([]WOp{}, ops...), WOp{K: "data"}, WOp{K: "index"}, WOp{K: "indexdata"}, WOp{K: "header"}, WOp{K: "data"})
	for i, op := range all {
		pc := m.prepare(op)
		before, faulted := len(m.s.data), m.s.faulted
		n, err := pc.run()
		m.total += n
		out := m.s.data[before:]
		what := where(op, i)
		if n != len(out) {
			x.Failf("%s returns count %d, the stream accepted %d bytes", what, n, len(out))
		}
		if dead {
			if err == nil || len(out) > 0 {
				x.Failf("%s writes %d bytes and returns error %v after an earlier failure in the middle of an item", what, len(out), err)
			}
			continue
		}
		if m.s.faulted > faulted {
			x.labels["reported faults"]++
			if !errors.Is(err, errInjected) {
				x.Failf("%s: error %v does not wrap the stream's error", what, err)
			}
			if !pc.ok {
				x.Failf("%s writes although it should be refused", what)
			}
			if pc.want != nil && (len(out) > len(pc.want) || !bytes.Equal(out, pc.want[:len(out)])) {
				x.Failf("%s: what was written is not the start of the item", what)
			}
			if len(out) > 0 {
				dead = true
			} else {
				missed = true
			}
			continue
		}
		if err != nil {
			if len(out) > 0 {
				x.Failf("%s is refused with %q but writes %d bytes", what, err, len(out))
			}
			if pc.ok && !missed {
				x.Failf("%s: %v although the stream did not fail", what, err)
			}
			continue
		}
		if !pc.ok {
			x.Failf("%s is accepted", what)
		}
		if pc.check != nil {
			pc.check(out)
		} else if !bytes.Equal(out, pc.want) {
			x.Failf("%s writes something else than its item", what)
		}
		pc.done()
	}
	if !missed && len(m.s.data) <= len(whole) && !bytes.Equal(m.s.data, whole[:len(m.s.data)]) {
		x.Failf("stream fails at call %d accepting %d bytes, or at position %d: the %d bytes written are not the start of the file of %d bytes", call, partial, at, len(m.s.data), len(whole))
	}
	if dead && len(m.s.data) > len(whole) {
		x.Failf("%d bytes written although the whole file has %d", len(m.s.data), len(whole))
	}
	if m.total != len(m.s.data) {
		x.Failf("the counts returned add up to %d, the stream accepted %d bytes", m.total, len(m.s.data))
	}
	err := m.w.Close()
	if m.s.closes != 1 {
		x.Failf("after a stream failure, Close closes the stream %d times", m.s.closes)
	}
	if f.count > 0 && m.written < f.count && m.state > 0 && err == nil {
		x.Failf("Close after a failure returns no error although only %d of %d features were written", m.written, f.count)
	}
	if err := m.w.Close(); !errors.Is(err, flatgeobuf.ErrClosed) {
		x.Failf("Close after Close returns %v", err)
	}
}

// BadTableCase is a table unsuitable for the writer.
type BadTableCase struct {
	S      FileSpec
	Target string // header, data, indexdata, indexptr
	Kind   string // zero plain nested offset short prefix random trailing bomb odd
	N      int
	V      uint32
	Raw    []byte
	Which  int // position among good features for indexdata
	Bomb   *Bomb
}

func drawBadTable(t *rapid.T) BadTableCase {
	c := BadTableCase{S: drawFile(t, fileGen{maxFeats: 3, maxCols: 2, indexed: 1, mode: cmGrid}), Target: pick(t, []string{"header", "data", "indexdata", "indexptr"}, "target"),
		Kind: pick(t, []string{"zero", "plain", "nested", "offset", "short", "prefix", "random", "trailing", "bomb", "odd", "edit", "edit"}, "kind"), N: drawInt(t, 0, 40, "n"), V: drawU32(t), Which: drawInt(t, 0, 3, "which")}
	switch c.Kind {
	case "random":
		c.Raw = drawRaw(t, 60)
		if drawBool(t, "lead") && len(c.Raw) >= 8 {
			le.PutUint32(c.Raw, uint32(max(0, len(c.Raw)-4+drawInt(t, -3, 3, "d"))))
			le.PutUint32(c.Raw[4:], uint32(drawInt(t, 0, 60, "root")))
		}
	case "bomb":
		c.Bomb = ptr(drawBomb(t))
	}
	return c
}

// suitable is the reference rule for what the writer accepts: a complete
// size-prefixed root table at the start of its buffer. It returns the
// length of the table with its prefix.
func suitable(b []byte, pos uint32) (int, bool) {
	if len(b) < 8 {
		return 0, false
	}
	n := 4 + uint64(le.Uint32(b))
	if uint64(pos) != 4+uint64(le.Uint32(b[4:])) || n > uint64(len(b)) || uint64(pos)+4 > n {
		return 0, false
	}
	return int(n), true
}

func runW05(c BadTableCase, x *Ctx) {
	f := c.S.build()
	x.Label(c.Target + " " + c.Kind)
	tab := f.model.tab()
	l := f.spec.HL
	if c.Target != "header" {
		ft := c.S.Feats[0]
		if ft.Geom == nil {
			ft.Geom = &Geometry{XY: []F{1, 2}}
		}
		if c.Kind == "odd" {
			g := *ft.Geom
			g.XY = append(append([]F{}, g.XY...), 7)
			ft.Geom = &g
		}
		tab, l = ft.tab(), ft.L
	}
	good := encodeSizePrefixed(tab, l)
	var t struct {
		Bytes []byte
		Pos   uint32
	}
	root := func(b []byte, at int) {
		t.Bytes, t.Pos = b, uint32(at+4)+le.Uint32(b[at+4:])
	}
	clean := true // the table is one that must be accepted if it is suitable
	switch c.Kind {
	case "zero":
	case "plain":
		b := encodeRoot(tab, l)
		t.Bytes, t.Pos = b, le.Uint32(b)
	case "nested":
		root(good, 0)
		d := decRoot(good, 4)
		if s, ok := d.sub(map[bool]int{true: 10, false: 0}[c.Target == "header"]); ok {
			t.Pos = uint32(s.pos)
		} else {
			t.Pos += 4 * uint32(1+c.N%3)
		}
		clean = false
	case "offset":
		b := append(junk(c.N+1), good...)
		root(b, c.N+1)
		clean = false
	case "short":
		root(good, 0)
		t.Bytes = good[:max(0, len(good)-1-c.N)]
	case "prefix":
		root(good, 0)
		le.PutUint32(good, c.V)
		if c.N%2 == 0 {
			le.PutUint32(good, uint32(c.N))
		}
		clean = false
	case "random":
		t.Bytes, t.Pos = c.Raw, c.V%70
		if len(c.Raw) >= 8 && c.N%2 == 0 {
			t.Pos = 4 + le.Uint32(c.Raw[4:])
		}
		clean = false
	case "trailing":
		root(append(good, junk(c.N+1)...), 0)
	case "bomb":
		good = c.Bomb.bytes()
		root(good, 0)
		clean = c.Target != "header" && !c.Bomb.Cycle && c.Bomb.Width == 1 && c.Bomb.Depth < 100 && c.Bomb.Shared <= 1000
	case "odd":
		root(good, 0)
		clean = c.Target == "header"
	case "edit":
		root(good, 0)
		at := 8 + c.N%max(1, len(good)-12)
		le.PutUint32(good[at:], c.V)
		clean = false
	}
	size, ok := suitable(t.Bytes, t.Pos)
	backup := append([]byte{}, t.Bytes...)
	s := newSink()
	w := flatgeobuf.NewFileWriter(s.view(false))
	hdr := headerItem(f, viaExact)
	items := featureItems(f, viaExact)
	var base int
	if c.Target != "header" {
		// Announce one more feature than the good ones, no index for data.
		mod := f.model
		mod.FeaturesCount = ptr(uint64(len(items) + 1))
		if c.Target == "data" {
			mod.NodeSize = ptr(uint16(0))
		}
		hb := encodeSizePrefixed(mod.tab(), Layout{})
		n, err := w.Header(flat.GetSizePrefixedRootAsHeader(hb, 0))
		base = 8 + len(hb)
		if err != nil || n != base || len(s.data) != base {
			x.Failf("Header: %d, %v", n, err)
		}
	}
	bad := &flat.Feature{}
	bad.Init(t.Bytes, flatbuffers.UOffsetT(t.Pos))
	var n int
	var err error
	switch c.Target {
	case "header":
		h := &flat.Header{}
		h.Init(t.Bytes, flatbuffers.UOffsetT(t.Pos))
		n, err = w.Header(h)
	case "data":
		n, err = w.Data(bad)
	default:
		fs := []*flat.Feature{}
		for i := range items {
			fs = append(fs, items[i].feat)
		}
		k := c.Which % (len(fs) + 1)
		fs = append(fs[:k:k], append([]*flat.Feature{bad}, fs[k:]...)...)
		if c.Target == "indexptr" {
			n, err = w.IndexDataPtr(fs)
		} else {
			vs := []flat.Feature{}
			for _, p := range fs {
				vs = append(vs, *p)
			}
			n, err = w.IndexData(vs)
		}
	}
	out := s.data[base:]
	if n != len(out) {
		x.Failf("count %d returned, %d bytes written, error %v", n, len(out), err)
	}
	if !bytes.Equal(backup, t.Bytes) {
		x.Failf("the table was modified")
	}
	if !ok {
		x.NT()
		if err == nil {
			x.Failf("accepted although not a complete size-prefixed root table at the start of its buffer (Len=%d, Pos=%d, % x)", len(t.Bytes), t.Pos, t.Bytes[:min(12, len(t.Bytes))])
		}
	} else {
		x.Label("suitable")
		if clean && err != nil {
			x.Failf("suitable table refused: %v", err)
		}
	}
	if err != nil {
		allowed := []byte(nil)
		if c.Target == "header" {
			allowed = magicBytes(1) // the magic number is no part of the table
		}
		if len(out) > len(allowed) || !bytes.Equal(out, allowed[:len(out)]) {
			x.Failf("refused with %q but %d bytes are written", err, len(out))
		}
		if c.Target == "data" {
			// Whatever happens next, the file stays well-formed.
			n, err := w.Data(items[0].feat)
			if n != len(s.data)-base || err == nil && !bytes.Equal(s.data[base:], items[0].bytes) || err != nil && n != 0 {
				x.Failf("Data of a good feature after a refused one: %d, %v, %d bytes written", n, err, len(s.data)-base)
			}
		}
		if c.Target == "header" {
			had := len(s.data)
			for i := 0; i < 2; i++ {
				n, err := w.Data(items[0].feat)
				m, err2 := w.IndexDataPtr([]*flat.Feature{items[0].feat})
				if err == nil || err2 == nil || n != 0 || m != 0 || len(s.data) != had {
					x.Failf("after a refused header, Data and IndexDataPtr return %d, %v and %d, %v, %d bytes written", n, err, m, err2, len(s.data)-had)
				}
				if i == 0 {
					n, err := w.Header(hdr.hdr)
					if n != len(s.data)-had || n != 0 && (had != 0 || err != nil) {
						x.Failf("a good header after a refused one: %d, %v, %d bytes written after %d", n, err, len(s.data)-had, had)
					}
					if err == nil {
						break // the refused one left no trace
					}
				}
			}
		}
		return
	}
	switch c.Target {
	case "header":
		if !bytes.Equal(out, append(magicBytes(1), t.Bytes[:size]...)) {
			x.Failf("%d bytes written, want 8 + %d", len(out), size)
		}
		// The header may be another one than the model's if it was edited.
	case "data":
		if !bytes.Equal(out, t.Bytes[:size]) {
			x.Failf("%d bytes written, want %d", len(out), size)
		}
	default:
		total := size
		for i := range items {
			total += len(items[i].bytes)
		}
		nodes := 0
		for _, k := range refLevels(len(items)+1, int(f.nodes)) {
			nodes += k
		}
		if len(out) != 40*nodes+total {
			x.Failf("%d bytes written, want %d for the index and %d for the features", len(out), 40*nodes, total)
		}
		if !bytes.Contains(out[40*nodes:], t.Bytes[:size]) {
			x.Failf("the feature is not in the file")
		}
	}
}

func init() {
	register(&Prop{ID: "W01", Rule: "rapid draws whole files as in R01; their tables come from exact buffers, buffers with trailing bytes, the FlatBuffers builder, or the file reader; the index is given or built by the writer. Oracle: per call the exact bytes of a reference encoder and the count; index and data written together are compared with a reference index over the features found; the result is read back under the cursor model. Non-trivial: the file has features.",
		Subs: []*Sub{sub("write", 90000, 1600000, func(t *rapid.T) WriteCase {
			return drawWrite(t, fileGen{maxFeats: 7, maxCols: 4, many: 100, mode: -1, sizes: true})
		}, runW01, func() (r []WriteCase) {
			for i := 0; i < 4; i++ {
				r = append(r, WriteCase{S: FileSpec{Feats: bigFeatures(), NodeSize: 3, Unknown: i == 3, CountZero: true}, Via: i, Mode: i % 3, Queries: []RBox{{2, 2, 5, 5}}})
				r = append(r, WriteCase{S: FileSpec{Feats: sweptFeatures(), NodeSize: 16}, Via: i, Mode: i % 3, Queries: []RBox{{2, 2, 5, 5}}})
			}
			for i := 0; i < 3; i++ {
				c := WriteCase{S: manyFeatures(), Via: i, Mode: i, Queries: []RBox{{2, 2, 5, 25}}}
				c.S.NodeSize = []uint16{16, 65535, 10}[i]
				r = append(r, c)
			}
			return
		})}})
	register(&Prop{ID: "W02", Rule: "rapid draws indexed files with nested geometries and duplicates and up to three queries around the extents. Oracle: linear scan over extents computed from the model over all nested parts; features found in the data section as a multiset; positions reported by the loaded index. Non-trivial: some query hits some but not all features.",
		Assum: []string{"coordinates contain no NaN; for collections with a feature without coordinates, queries are finite"},
		Subs: []*Sub{sub("indexdata", 90000, 1600000, func(t *rapid.T) WriteCase {
			c := drawWrite(t, fileGen{maxFeats: 14, maxCols: 1, indexed: 1, many: 100, mode: -1, sizes: true})
			c.S.Boxes = nil
			c.Mode = drawInt(t, 1, 2, "mode")
			return c
		}, runW02, func() (r []WriteCase) {
			for i := 0; i < 3; i++ {
				c := WriteCase{S: manyFeatures(), Mode: 1 + i%2, Queries: []RBox{{2, 2, 5, 25}, {17, 289, 17, 289}, {0, 0, 99, 999}}}
				c.S.NodeSize = []uint16{16, 65535, 10}[i]
				r = append(r, c)
			}
			return
		})}})
	register(&Prop{ID: "W03", Rule: "rapid draws files and sequences of up to 15 writer calls, many out of order or with wrong arguments (second or invalid header, index of another count or node size, more or fewer features than announced, calls after close). Oracle: a model of the writer which knows for each call whether it is accepted and which bytes it appends; refused calls append nothing. Non-trivial: something was written and something refused.",
		Subs: []*Sub{sub("history", 300000, 6000000, drawWHistory, runW03)}})
	register(&Prop{ID: "W04", Level: "fault_enumeration", Rule: "rapid draws files and one of three ways of writing; per case every byte position of the output (every k-th above 1500 bytes, and all around item boundaries) and every write call (accepting none, one, seven or all bytes) fails, once or for good. Oracle: counts equal bytes accepted, error wraps the injected one, what was written is a prefix of the file without fault, nothing follows a partial item. Label 'fault points' counts faults. Non-trivial: the file has features.",
		Subs: []*Sub{sub("faults", 3200, 120000, drawWFault, runW04)}})
	register(&Prop{ID: "W05", Rule: "rapid draws tables which are unsuitable (zero value, plain root, nested, other offset, short buffer, wrong size prefix, random, edited, shared or cyclic geometry parts, odd number of coordinates) or suitable controls, and hands them to each writer call. Oracle: a reference rule for suitability; refused tables leave nothing in the stream but at most the magic number; accepted ones appear exactly up to their size prefix. Non-trivial: the table is unsuitable.",
		Subs: []*Sub{sub("tables", 200000, 4000000, drawBadTable, runW05)}})
}
