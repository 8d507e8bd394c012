package main

// I02: what is returned belongs to the caller, what is given stays the
// caller's: neither side sees what the other does with it later.

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
	"pgregory.net/rapid"
)

// spoil overwrites bytes which belong to the caller.
func spoil(b []byte) {
	for i := range b {
		b[i] ^= 0x5f
	}
}

// spoilAll also overwrites what an append would.
func spoilAll(b []byte) { spoil(b[:cap(b)]) }

func spoilResults(rs packedrtree.Results) {
	rs = rs[:cap(rs)]
	for i := range rs {
		rs[i] = packedrtree.Result{Offset: -7, RefIndex: -9}
	}
}

// OwnRead is a reader history in the course of which the caller overwrites
// what it got.
type OwnRead struct {
	C     HistoryCase
	Spoil []int // cyclic; what happens to each table returned
}

const (
	spoilNothing = iota
	spoilBytes   // overwritten
	spoilGrown   // appended to, then overwritten
	spoilKinds
)

func drawOwnRead(t *rapid.T) OwnRead {
	var k OwnRead
	if oneIn(t, 4, "seq") {
		k.C = drawSequential(t)
	} else {
		k.C = drawHistory(t)
	}
	for i := drawInt(t, 1, 5, "nspoil"); i > 0; i-- {
		k.Spoil = append(k.Spoil, drawInt(t, 0, spoilKinds-1, "spoil"))
	}
	return k
}

func runOwnRead(k OwnRead, x *Ctx) {
	m := k.C.open(x, k.C.file())
	defer m.clean()
	turn := 0
	next := func() int {
		turn++
		return k.Spoil[turn%len(k.Spoil)]
	}
	spoiled := 0
	abuse := func(b []byte) {
		spoiled++
		spoilAll(b)
	}
	type oldIndex struct {
		prt *packedrtree.PackedRTree
		q   RBox
	}
	var old []oldIndex
	for _, op := range k.C.Ops {
		before := len(m.kept)
		o := m.call(op)
		m.check(op, o)
		if m.raw != nil && next() != spoilNothing {
			// What the reader has read already is not needed any more,
			// unless it can go back.
			if b, ok := m.rest2(); ok {
				spoil(m.raw[:len(m.raw)-b])
			}
		}
		if o.prt != nil {
			old = append(old, oldIndex{o.prt, op.Q})
			if next() != spoilNothing {
				spoilResults(o.prt.Search(op.Q.b().box()))
				m.checkIndex(o.prt, op.Q)
			}
		}
		if o.h != nil && next() != spoilNothing {
			abuse(o.h.Table().Bytes)
			o.h.Init(nil, 0)
			m.hdr = nil
		}
		kept := m.kept[:before]
		for _, f := range m.kept[before:] {
			b := f.f.Table().Bytes
			switch next() {
			case spoilBytes:
				abuse(b)
			case spoilGrown:
				// As if a buffer was reused for something else.
				b = append(b, junk(9)...)
				abuse(b)
			default:
				kept = append(kept, f)
			}
		}
		m.kept = kept
		if op.K != "data" || !m.reuse {
			for i := range o.fs {
				if next() != spoilNothing {
					o.fs[i] = flat.Feature{}
				}
			}
		}
	}
	m.finish()
	for _, o := range old {
		m.checkIndex(o.prt, o.q)
	}
	x.LabelIf(k.C.Kind != "", "reader "+k.C.Kind)
	x.LabelIf(len(old) > 0, "index kept")
	x.LabelIf(len(m.kept) > 0 && spoiled > 0, "some tables overwritten, some kept")
	if spoiled > 0 && m.returned > 0 {
		x.NT()
	}
}

// rest2 tells how many bytes a reader of the standard library, which cannot
// go back, has not delivered yet.
func (m *reader) rest2() (int, bool) {
	if b, ok := m.std.(*bytes.Buffer); ok {
		return b.Len(), true
	}
	return 0, false
}

// OwnWrite is a writer history in the course of which the caller overwrites
// what it gave.
type OwnWrite struct {
	C     WHistoryCase
	Built bool // everything is built with one builder, which is reset
}

func drawOwnWrite(t *rapid.T) OwnWrite {
	k := OwnWrite{C: drawWHistory(t), Built: drawBool(t, "built")}
	k.C.CloseErr = false
	if len(k.C.Ops) > 0 && k.C.Ops[0].K != "header" && drawBool(t, "tidy") {
		k.C.Ops = append([]WOp{{K: "header"}}, k.C.Ops...)
	}
	return k
}

func runOwnWrite(k OwnWrite, x *Ctx) {
	c := &k.C
	f := c.S.build()
	m := newWriter(x, f, c.Via, c.Closable, c.Rich)
	b := flatbuffers.NewBuilder(0)
	// lend puts a table's bytes into a buffer which is used for this call
	// only.
	lend := func(tab []byte, i int) []byte {
		if k.Built {
			b.Reset()
			at := b.CreateByteVector(append(append(make([]byte, i%5), tab...), junk(i%3)...))
			v := b.Bytes[len(b.Bytes)-int(at):]
			return v[4+i%5 : 4+i%5+len(tab) : len(v)]
		}
		return append(make([]byte, 0, len(tab)+7), tab...)
	}
	given := 0
	for i, op := range c.Ops {
		var lent [][]byte
		items := append([]item{}, m.items...)
		hdr := m.hdr
		if op.Bad == 0 || op.K != "header" {
			buf := lend(m.hdr.bytes, i)
			if op.K == "header" {
				lent = append(lent, buf)
				m.hdr.hdr = flat.GetSizePrefixedRootAsHeader(buf, 0)
			}
		}
		switch op.K {
		case "data":
			if len(m.items) > 0 {
				j := op.N % len(m.items)
				buf := lend(m.items[j].bytes, i)
				lent = append(lent, buf)
				m.items[j].feat = flat.GetSizePrefixedRootAsFeature(buf, 0)
			}
		case "indexdata", "indexptr":
			for j := range m.items {
				// Each needs its own buffer.
				buf := append(make([]byte, 0, len(m.items[j].bytes)+j%9), m.items[j].bytes...)
				lent = append(lent, buf)
				m.items[j].feat = flat.GetSizePrefixedRootAsFeature(buf, 0)
			}
		}
		var want [][]byte
		for _, l := range lent {
			want = append(want, cp(l))
		}
		m.step(op)
		for j := range lent {
			if !bytes.Equal(lent[j], want[j]) {
				x.Failf("%s changes the table it is given", op.K)
			}
			spoilAll(lent[j])
			given++
		}
		m.items, m.hdr = items, hdr
	}
	if m.total != len(m.s.data) {
		x.Failf("the counts returned add up to %d, %d bytes were written", m.total, len(m.s.data))
	}
	x.LabelIf(k.Built, "builder reused")
	x.LabelIf(f.indexed, "indexed")
	if given > 1 && len(m.s.data) > 0 {
		x.NT()
	}
}

// OwnIndexData checks that slices of features are left alone.
func runOwnSlices(c WriteCase, x *Ctx) {
	f := c.S.build()
	if !f.indexed {
		x.Label("no index")
		return
	}
	m := newWriter(x, f, c.Via, c.Closable, c.Rich)
	m.step(WOp{K: "header"})
	before := len(m.s.data)
	var fs []flat.Feature
	var ps, keepP []*flat.Feature
	var bufs [][]byte
	for i := range m.items {
		buf := cp(m.items[i].bytes)
		bufs = append(bufs, buf)
		ft := flat.GetSizePrefixedRootAsFeature(buf, 0)
		fs = append(fs, *ft)
		ps = append(ps, ft)
	}
	var n int
	var err error
	keepP = append(keepP, ps...)
	keepF := append([]flat.Feature{}, fs...)
	if c.Mode == 2 {
		n, err = m.w.IndexDataPtr(ps)
	} else {
		n, err = m.w.IndexData(fs)
	}
	if err != nil {
		x.Failf("IndexData: %v", err)
	}
	for i := range ps {
		if ps[i] != keepP[i] || !reflect.DeepEqual(*ps[i], keepF[i]) || !reflect.DeepEqual(fs[i], keepF[i]) {
			x.Failf("IndexData changes element %d of the slice it is given", i)
		}
		if !bytes.Equal(bufs[i], m.items[i].bytes) {
			x.Failf("IndexData changes feature %d", i)
		}
		spoil(bufs[i])
		ps[i], fs[i] = nil, flat.Feature{}
	}
	out := m.s.data[before:]
	if n != len(out) {
		x.Failf("IndexData returns %d, writes %d bytes", n, len(out))
	}
	parseIndexed(x, "IndexData", out, m.items, f.nodes)
	if err := m.w.Close(); err != nil {
		x.Failf("Close: %v", err)
	}
	if len(m.s.data) != before+n {
		x.Failf("Close writes %d bytes", len(m.s.data)-before-n)
	}
	if len(ps) > 1 {
		x.NT()
	}
}

// OwnTree uses the references given to New, and the results of searches,
// for other purposes.
type OwnTree struct {
	C    MarshalCase
	Then RefList
}

func runOwnTree(k OwnTree, x *Ctx) {
	c := &k.C
	refs := sortedRefs(&c.L, c.Reverse)
	refs = append(make([]packedrtree.Ref, 0, len(refs)+3), refs...)
	keep := append([]packedrtree.Ref{}, refs...)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize))
	prt := mustNew(x, refs, c.NodeSize)
	if !refsEqual(refs, keep) {
		x.Failf("New changes the references it is given")
	}
	stored := tree.bytes()
	src := append(cp(stored), c.Suffix...)
	loaded, err := packedrtree.Unmarshal(bytes.NewReader(src), len(refs), c.NodeSize)
	if err != nil || loaded == nil {
		x.Failf("Unmarshal: %v, %v", loaded, err)
	}
	buffered, err := packedrtree.Unmarshal(bytes.NewBuffer(src), len(refs), c.NodeSize)
	if err != nil || buffered == nil {
		x.Failf("Unmarshal: %v, %v", buffered, err)
	}
	if !bytes.Equal(src[:len(stored)], stored) {
		x.Failf("Unmarshal changes what it reads")
	}
	spoilAll(src)
	// The references become those of another tree.
	other := sortedRefs(&k.Then, false)
	refs = refs[:cap(refs)]
	for i := range refs {
		refs[i] = other[i%len(other)]
		refs[i].Offset += 77
	}
	second := mustNew(x, refs[:len(keep)], c.NodeSize)
	boxes2, offs2 := split(refs[:len(keep)])
	tree2 := newRefTree(boxes2, offs2, int(c.NodeSize))
	hits := 0
	for i, q := range c.Queries {
		want, want2 := bruteSearch(boxes, offs, q.b()), bruteSearch(boxes2, offs2, q.b())
		hits += len(want)
		b := q.b().box()
		for j, p := range []*packedrtree.PackedRTree{prt, loaded, buffered} {
			what := []string{"Search of a new index", "Search of a loaded index", "Search of an index loaded from a buffer"}[j]
			got := p.Search(b)
			again := p.Search(b)
			checkHits(x, what, q, got, want)
			spoilResults(got)
			checkHits(x, what+", while earlier results are overwritten,", q, again, want)
			if i%2 == 0 {
				_ = append(again, packedrtree.Result{Offset: 1})
			}
			checkHits(x, what+" again", q, p.Search(b), want)
		}
		got2 := second.Search(b)
		checkHits(x, "Search of the second index", q, got2, want2)
		r, err := packedrtree.Seek(newStream(stored).rs(), len(keep), c.NodeSize, b)
		if err != nil {
			x.Failf("Seek: %v", err)
		}
		r2, err := packedrtree.Seek(newStream(tree2.bytes()).rs(), len(keep), c.NodeSize, b)
		if err != nil {
			x.Failf("Seek: %v", err)
		}
		checkHits(x, "Seek", q, r, want)
		spoilResults(r)
		checkHits(x, "Seek in the second index, while the results of the first are overwritten,", q, r2, want2)
	}
	bounds := prt.Bounds()
	bounds.Expand(&packedrtree.Box{XMin: -1e300, YMin: -1e300, XMax: 1e300, YMax: 1e300})
	for _, p := range []*packedrtree.PackedRTree{prt, loaded, buffered} {
		if fromBox(p.Bounds()) != tree.bounds() {
			x.Failf("Bounds %v after all that, want %v", p.Bounds(), tree.bounds())
		}
		var out weaveBuffer
		if _, err := p.Marshal(&out); err != nil {
			x.Failf("Marshal: %v", err)
		}
		compareIndex(x, "Marshal", out.Bytes(), tree)
		spoilAll(out.Bytes())
		var out2 weaveBuffer
		if _, err := p.Marshal(&out2); err != nil {
			x.Failf("second Marshal: %v", err)
		}
		compareIndex(x, "second Marshal", out2.Bytes(), tree)
	}
	if hits > 0 && len(keep) > 1 {
		x.NT()
	}
}

// OwnProps: values of properties.
type OwnProps struct {
	Rec  PropRecord
	Vals []PVal
	Kind string // source of single values
}

func runOwnProps(k OwnProps, x *Ctx) {
	cols := k.Rec.Schema.columns()
	// Single values, written from and read into memory that is overwritten.
	var buf bytes.Buffer
	w := flatgeobuf.NewPropWriter(&buf)
	var ref []byte
	for i := range k.Vals {
		v := &k.Vals[i]
		ref = v.encode(ref)
		if v.Type == 12 || v.Type == 14 {
			b := append(make([]byte, 0, len(v.body())+5), v.body()...)
			if _, err := w.WriteBinary(b); err != nil {
				x.Failf("WriteBinary: %v", err)
			}
			if !bytes.Equal(b, v.body()) {
				x.Failf("WriteBinary changes the bytes it is given")
			}
			spoilAll(b)
		} else if _, err := writeValue(w, v); err != nil {
			x.Failf("writing value %d: %v", i, err)
		}
	}
	if !bytes.Equal(buf.Bytes(), ref) {
		x.Failf("values are written as %s, want %s", clip(fmt.Sprintf("%x", buf.Bytes()), 300), clip(fmt.Sprintf("%x", ref), 300))
	}
	s := newStream(ref)
	s.steps = 1 << 24
	src, raw := s.realReader(k.Kind)
	r := flatgeobuf.NewPropReader(src)
	got := make([]any, len(k.Vals))
	gone := make([]bool, len(k.Vals))
	variable := 0
	for i := range k.Vals {
		var err error
		if got[i], err = readValue(r, k.Vals[i].Type); err != nil {
			x.Failf("reading value %d: %v", i, err)
		}
		sameValue(x, fmt.Sprintf("value %d", i), got[i], &k.Vals[i])
		variable += b2i(isVar(k.Vals[i].Type))
		if b, ok := got[i].([]byte); ok && i%2 == 0 {
			spoilAll(b)
			gone[i] = true
		}
	}
	spoil(raw)
	for i := range got {
		if !gone[i] {
			sameValue(x, fmt.Sprintf("value %d, after other values and the source were overwritten,", i), got[i], &k.Vals[i])
		}
	}
	// A record.
	src, raw = newStream(encodeProps(k.Rec.Vals)).realReader(k.Kind)
	schema := k.Rec.Schema.schema(cols)
	var sb []byte
	switch t := schema.(type) {
	case *flat.Header:
		sb = t.Table().Bytes
	case *flat.Feature:
		sb = t.Table().Bytes
	}
	keep := cp(sb)
	vals, err := flatgeobuf.NewPropReader(src).ReadSchema(schema)
	if err != nil {
		x.Failf("ReadSchema: %v", err)
	}
	if !bytes.Equal(sb, keep) {
		x.Failf("ReadSchema changes the schema")
	}
	checkPropValues(x, "ReadSchema", vals, cols, k.Rec.Vals)
	spoil(raw)
	checkPropValues(x, "ReadSchema, after its source was overwritten,", vals, cols, k.Rec.Vals)
	for i := range vals {
		if b, ok := vals[i].Value.([]byte); ok && i%2 == 0 {
			spoilAll(b)
			// The others must not be affected.
			vals[i].Value = cp(k.Rec.Vals[i].body())
		}
	}
	checkPropValues(x, "ReadSchema, after some values were overwritten,", vals, cols, k.Rec.Vals)
	// A string does not depend on the tables it was made from.
	f := Feature{Geom: &Geometry{XY: []F{1, 2}}, Columns: cols, Props: encodeProps(k.Rec.Vals)}
	if len(cols) < 300 {
		fb := f.bytes()
		a := flatgeobuf.FeatureString(flat.GetSizePrefixedRootAsFeature(fb, 0), nil)
		copied := string([]byte(a))
		spoil(fb)
		if a != copied {
			x.Failf("a summary changes when its feature is overwritten")
		}
	}
	if variable > 1 {
		x.NT()
	}
	x.Label("source " + k.Kind)
}

func init() {
	register(&Prop{ID: "I02", Rule: "rapid draws histories as for R03, W03, T03, Q01 and Q03. In between, the harness overwrites what it got from earlier calls (header and feature tables up to the capacity of their slices, results, binary values, elements of slices) or what it gave to them (tables, references, slices, the memory behind readers of the standard library, one FlatBuffers builder used for everything). Oracle: the models of those checks go on to hold, what was not overwritten is intact, and no call changes what it is given. Non-trivial: something was overwritten while something else is still checked (by sub-check: returned features, two tables given, more than one feature, hits, more than one value of variable length).",
		Subs: []*Sub{
			sub("reading", 60000, 2400000, drawOwnRead, runOwnRead),
			sub("writing", 60000, 2400000, drawOwnWrite, runOwnWrite),
			sub("slices", 12000, 400000, func(t *rapid.T) WriteCase {
				c := drawWrite(t, fileGen{maxFeats: 8, maxCols: 2, indexed: 1, mode: -1})
				c.Mode = max(1, c.Mode)
				return c
			}, runOwnSlices),
			sub("indexes", 30000, 1000000, func(t *rapid.T) OwnTree {
				tc := drawTreeCase(t, 20, 60, 3)
				return OwnTree{C: MarshalCase{L: tc.L, NodeSize: tc.NodeSize, Queries: tc.Queries, Reverse: drawBool(t, "reverse"), Suffix: drawRaw(t, 6)}, Then: drawTreeCase(t, 6, 10, 1).L}
			}, runOwnTree),
			sub("values", 40000, 1500000, func(t *rapid.T) OwnProps {
				k := OwnProps{Rec: drawRecord(t, 5), Vals: drawPVals(t, 1, 6), Kind: pick(t, []string{"bytes", "buffer", "strings", "bufio", "section"}, "kind")}
				for _, vs := range [][]PVal{k.Vals, k.Rec.Vals} {
					for i := range vs {
						if vs[i].Type == 5 {
							vs[i].U &= 0x7f // the rest is a known finding of Q01
						}
					}
				}
				return k
			}, runOwnProps),
		}})
}
