package main

// Well-formed FlatGeobuf files built by the reference encoders, and the
// cursor model of the file reader.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// FileSpec describes a file in a case.
type FileSpec struct {
	H         Header // FeaturesCount and NodeSize are filled in
	HL        Layout
	Feats     []Feature
	Rep       int  `json:",omitempty"` // if > 0, the number of features; Feats are repeated
	Unknown   bool // the header does not give the count
	CountZero bool // an unknown count is stored as an explicit 0
	NodeSize  uint16
	DefNode   bool   // leave the node size absent (means 16)
	Boxes     []RBox `json:",omitempty"` // indexed boxes which replace the extents, cyclic
	Order     int    // leaf order: 0 file order, 1 reversed, n > 1 scattered
	Patch     uint8
}

type file struct {
	spec    *FileSpec
	bytes   []byte
	header  []byte
	model   Header
	indexAt int
	index   []byte
	tree    *refTree
	dataAt  int
	feats   [][]byte
	featAt  []int64 // offset in the data section
	boxes   []Box4  // indexed box, by file order
	indexed bool
	nodes   uint16
	count   int // as the header says, 0 unknown
	leaf    []int
}

func magicBytes(patch uint8) []byte { return []byte{0x66, 0x67, 0x62, 3, 0x66, 0x67, 0x62, patch} }

func (s *FileSpec) n() int {
	if len(s.Feats) == 0 {
		return 0
	}
	if s.Rep > 0 {
		return s.Rep
	}
	return len(s.Feats)
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (s *FileSpec) leafOrder(n int) []int {
	r := make([]int, n)
	k := s.Order
	for n > 0 && k > 1 && gcd(k, n) != 1 {
		k++
	}
	for i := range r {
		switch s.Order {
		case 0:
			r[i] = i
		case 1:
			r[i] = n - 1 - i
		default:
			r[i] = i * k % n
		}
	}
	return r
}

func (s *FileSpec) build() *file {
	f := &file{spec: s, model: s.H}
	n := s.n()
	if !s.Unknown {
		f.count = n
	}
	f.model.FeaturesCount, f.model.NodeSize = nil, nil
	if f.count > 0 || s.CountZero {
		f.model.FeaturesCount = ptr(uint64(f.count))
	}
	f.nodes = s.NodeSize
	if s.DefNode {
		f.nodes = 16
	} else {
		f.model.NodeSize = ptr(s.NodeSize)
	}
	f.indexed = f.count > 0 && f.nodes >= 2
	f.bytes = magicBytes(s.Patch)
	f.header = encodeSizePrefixed(f.model.tab(), s.HL)
	f.bytes = append(f.bytes, f.header...)
	f.indexAt = len(f.bytes)
	enc := make([][]byte, len(s.Feats))
	box := make([]Box4, len(s.Feats))
	for i := range s.Feats {
		enc[i] = s.Feats[i].bytes()
		box[i] = emptyBox4
		if g := s.Feats[i].Geom; g != nil {
			box[i], _ = g.bounds()
		}
	}
	at := int64(0)
	for i := 0; i < n; i++ {
		e := enc[i%len(enc)]
		f.feats = append(f.feats, e)
		f.featAt = append(f.featAt, at)
		at += int64(len(e))
		b := box[i%len(enc)]
		if len(s.Boxes) > 0 {
			b = s.Boxes[i%len(s.Boxes)].b()
		}
		f.boxes = append(f.boxes, b)
	}
	if f.indexed {
		f.leaf = s.leafOrder(n)
		var lb []Box4
		var lo []int64
		for _, i := range f.leaf {
			lb = append(lb, f.boxes[i])
			lo = append(lo, f.featAt[i])
		}
		f.tree = newRefTree(lb, lo, int(f.nodes))
		f.index = f.tree.bytes()
		f.bytes = append(f.bytes, f.index...)
	}
	f.dataAt = len(f.bytes)
	for _, e := range f.feats {
		f.bytes = append(f.bytes, e...)
	}
	return f
}

// matches returns the numbers of the matching features in file order.
func (f *file) matches(q Box4) []int {
	r := []int{}
	for i, b := range f.boxes {
		if b.touches(q) {
			r = append(r, i)
		}
	}
	return r
}

// rawFile analyses an existing file of known good form.
func rawFile(b []byte) *file {
	f := &file{bytes: b}
	hl := int(le.Uint32(b[8:]))
	f.header = b[8 : 12+hl]
	f.indexAt = 12 + hl
	f.model = decRoot(f.header, 4).header()
	f.count = int(*f.model.FeaturesCount)
	f.nodes = *f.model.NodeSize
	f.indexed = f.count > 0 && f.nodes >= 2
	f.dataAt = f.indexAt
	if f.indexed {
		levels := refLevels(f.count, int(f.nodes))
		total := 0
		for _, n := range levels {
			total += n
		}
		f.index = b[f.indexAt : f.indexAt+40*total]
		f.dataAt += 40 * total
	}
	for at := f.dataAt; at < len(b); {
		n := 4 + int(le.Uint32(b[at:]))
		f.feats = append(f.feats, b[at:at+n])
		f.featAt = append(f.featAt, int64(at-f.dataAt))
		at += n
	}
	f.boxes = make([]Box4, len(f.feats))
	if f.indexed {
		byOff := map[int64]int{}
		for i, o := range f.featAt {
			byOff[o] = i
		}
		leaves := f.index[len(f.index)-40*f.count:]
		for i := 0; i < f.count; i++ {
			w := func(j int) float64 { return math.Float64frombits(le.Uint64(leaves[40*i+8*j:])) }
			k, ok := byOff[int64(le.Uint64(leaves[40*i+32:]))]
			if !ok {
				harnessFail("unexpected index in test file")
			}
			f.leaf = append(f.leaf, k)
			f.boxes[k] = Box4{w(0), w(1), w(2), w(3)}
		}
	}
	return f
}

type fileGen struct {
	sizes    bool // some features of any size up to 64 KiB
	maxFeats int
	maxCols  int
	indexed  int // 0 any, 1 yes, 2 no
	many     int // one in that many files has over a thousand features; 0 never
	mode     int // coordinate mode, -1 any
}

func drawFile(t *rapid.T, g fileGen) FileSpec {
	s := FileSpec{H: drawHeader(t, g.maxCols), HL: drawLayout(t)}
	mode := g.mode
	if mode < 0 {
		mode = drawMode(t)
	}
	for i := drawInt(t, 0, g.maxFeats, "nfeats"); i > 0; i-- {
		s.Feats = append(s.Feats, drawFeature(t, s.H.Columns, mode))
	}
	if g.indexed == 1 && len(s.Feats) == 0 {
		s.Feats = append(s.Feats, drawFeature(t, s.H.Columns, mode))
	}
	if g.many > 0 && len(s.Feats) > 0 && oneIn(t, g.many, "many") {
		s.Rep = pick(t, []int{1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000}, "rep")
	}
	if g.sizes && s.Rep == 0 && len(s.Feats) > 0 && oneIn(t, 8, "sized") {
		for i := drawInt(t, 1, 3, "nsized"); i > 0; i-- {
			s.Feats[drawInt(t, 0, len(s.Feats)-1, "which")].Fill = drawLength(t)
		}
	}
	s.Unknown = g.indexed != 1 && oneIn(t, 4, "unknown")
	s.CountZero = drawBool(t, "countzero")
	if g.indexed != 2 && !oneIn(t, 3, "noindex") || g.indexed == 1 {
		s.NodeSize = drawNodeSize(t)
		s.DefNode = oneIn(t, 4, "defnode")
	} else if (s.Unknown || s.n() == 0) && drawBool(t, "defnode") {
		s.DefNode = true
	}
	if oneIn(t, 3, "ownboxes") {
		for i := drawInt(t, 1, 5, "nboxes"); i > 0; i-- {
			s.Boxes = append(s.Boxes, noNaN(drawBox(t, mode)))
		}
	}
	s.Order = pick(t, []int{0, 0, 0, 1, 2, 5, 7}, "order")
	s.Patch = uint8(pick(t, []int{1, 0, 2, 255}, "patch"))
	return s
}

// drawFileQuery draws a query box around the file's boxes.
func drawFileQuery(t *rapid.T, s *FileSpec) RBox {
	var refs []RRef
	for _, b := range s.Boxes {
		refs = append(refs, RRef{B: b})
	}
	for i := range s.Feats {
		if g := s.Feats[i].Geom; g != nil {
			b, ok := g.bounds()
			if ok {
				refs = append(refs, RRef{B: RBox{F(b[0]), F(b[1]), F(b[2]), F(b[3])}})
			}
		}
	}
	return noNaN(drawQuery(t, refs))
}

// Op is a call on the file reader.
type Op struct {
	K string // header index search data rem rewind close
	N int    `json:",omitempty"` // for data: number of features asked for
	Q RBox   `json:",omitempty"`
}

// reader is a file reader together with its model.
type reader struct {
	x        *Ctx
	f        *file
	s        *stream
	r        *flatgeobuf.FileReader
	seekable bool
	closable bool
	state    int // 0 new, 1 after header, 2 in data, 3 at end
	maybe    bool
	pos      int
	closed   bool
	kept     []kept
	hdr      *flat.Header
	deep     bool
	returned int
	passes   int
	searches int
	reuse    bool
	buf      []flat.Feature
	std      io.Reader
	raw      []byte // what the reader reads from, if it is not s
	cleanup  func()
}

type kept struct {
	f flat.Feature
	i int
}

func newReader(x *Ctx, f *file, s *stream, seekable, closable bool) *reader {
	return &reader{x: x, f: f, s: s, r: flatgeobuf.NewFileReader(s.view(seekable, closable)), seekable: seekable, closable: closable, deep: len(f.feats) < 200}
}

// sameFeature checks that f is feature i of the file, byte for byte.
func (m *reader) sameFeature(what string, f *flat.Feature, i int) {
	want := m.f.feats[i]
	t := f.Table()
	if len(t.Bytes) < len(want) || !bytes.Equal(t.Bytes[:len(want)], want) {
		m.x.Failf("%s: feature %d has bytes %s, want %s", what, i, clip(fmt.Sprintf("% x", t.Bytes), 300), clip(fmt.Sprintf("% x", want), 300))
	}
	if uint32(t.Pos) != 4+le.Uint32(want[4:]) {
		m.x.Failf("%s: feature %d has its table at %d, want %d", what, i, t.Pos, 4+le.Uint32(want[4:]))
	}
}

func (m *reader) takeFeatures(what string, fs []flat.Feature, idx []int) {
	for k := range fs {
		m.sameFeature(what, &fs[k], idx[k])
		if len(m.kept) < 400 {
			m.kept = append(m.kept, kept{fs[k], idx[k]})
		}
	}
	m.returned += len(fs)
}

func (m *reader) clean() {
	if m.cleanup != nil {
		m.cleanup()
	}
}

// finish checks that everything returned earlier is still intact.
func (m *reader) finish() {
	for _, k := range m.kept {
		m.sameFeature("feature returned earlier, after later calls", &k.f, k.i)
	}
	if m.hdr != nil {
		if d := diff(accHeader(m.hdr), m.f.model.norm()); d != "" {
			m.x.Failf("header returned earlier, after later calls: %s", d)
		}
	}
	if m.deep && m.f.spec != nil {
		for _, k := range m.kept {
			if d := diff(accFeature(&k.f), m.f.spec.Feats[k.i%len(m.f.spec.Feats)].norm()); d != "" {
				m.x.Failf("feature %d: %s", k.i, d)
			}
		}
	}
	if !m.closed && m.s.closes != 0 {
		m.x.Failf("the stream was closed %d times without Close", m.s.closes)
	}
}

func (m *reader) wantErr(what string, err error) {
	if err == nil {
		m.x.Failf("%s returns no error", what)
	}
	if m.closed && !errors.Is(err, flatgeobuf.ErrClosed) {
		m.x.Failf("%s after Close returns %q, want the closed error", what, err)
	}
}

// callResult is what a call returned.
type callResult struct {
	h   *flat.Header
	prt *packedrtree.PackedRTree
	fs  []flat.Feature
	n   int
	err error
}

func (m *reader) call(op Op) (o callResult) {
	switch op.K {
	case "header":
		o.h, o.err = m.r.Header()
	case "index":
		o.prt, o.err = m.r.Index()
	case "search":
		o.fs, o.err = m.r.IndexSearch(op.Q.b().box())
		o.n = len(o.fs)
	case "data":
		if m.reuse && op.N <= 2000 {
			for len(m.buf) < op.N {
				m.buf = append(m.buf, flat.Feature{})
			}
			o.fs = m.buf[:op.N]
		} else {
			o.fs = make([]flat.Feature, op.N)
		}
		o.n, o.err = m.r.Data(o.fs)
		if o.n < 0 || o.n > len(o.fs) {
			m.x.Failf("Data returns count %d for %d features", o.n, len(o.fs))
		}
	case "rem":
		o.fs, o.err = m.r.DataRem()
		o.n = len(o.fs)
	case "rewind":
		o.err = m.r.Rewind()
	case "close":
		o.err = m.r.Close()
	default:
		harnessFail("unknown operation %q", op.K)
	}
	return
}

func (m *reader) step(op Op) {
	yield()
	m.check(op, m.call(op))
}

// check compares the callResult of a call with the model.
func (m *reader) check(op Op, o callResult) {
	err := o.err
	switch op.K {
	case "header":
		if m.closed || m.state != 0 {
			m.wantErr("Header", err)
			return
		}
		if err != nil || o.h == nil {
			m.x.Failf("Header: %v, %v", o.h, err)
		}
		m.checkHeader(o.h)
		m.hdr = o.h
		m.state, m.pos = 1, 0
	case "index":
		if m.closed || m.state != 1 {
			if m.maybe && !m.closed && err == nil {
				m.checkIndex(o.prt, op.Q)
				m.maybe = !m.f.indexed
				return
			}
			m.wantErr("Index", err)
			if o.prt != nil {
				m.x.Failf("Index returns an index together with error %v", err)
			}
			return
		}
		if !m.f.indexed {
			if o.prt != nil || err != nil && !errors.Is(err, flatgeobuf.ErrNoIndex) {
				m.x.Failf("Index of a file without index: %v, %v", o.prt, err)
			}
			m.state, m.pos, m.maybe = 2, 0, true
			return
		}
		if err != nil {
			m.x.Failf("Index: %v", err)
		}
		m.checkIndex(o.prt, op.Q)
		m.state, m.pos = 2, 0
	case "search":
		if m.closed || m.state != 1 {
			if m.maybe && !m.closed && (err == nil || errors.Is(err, flatgeobuf.ErrNoIndex)) {
				m.searched(op.Q, o.fs, err)
				return
			}
			m.wantErr("IndexSearch", err)
			if o.n != 0 {
				m.x.Failf("IndexSearch returns features together with error %v", err)
			}
			return
		}
		m.searched(op.Q, o.fs, err)
	case "data":
		m.data(o.fs, o.n, err)
	case "rem":
		if m.closed || m.state == 0 {
			m.wantErr("DataRem", err)
			if o.n != 0 {
				m.x.Failf("DataRem returns features together with error %v", err)
			}
			return
		}
		want := m.rest()
		if err != nil || o.n != len(want) {
			m.x.Failf("DataRem at feature %d of %d returns %d features, %v", m.pos, len(m.f.feats), o.n, err)
		}
		m.takeFeatures("DataRem", o.fs, want)
		m.state, m.maybe = 3, false
		m.passes++
	case "rewind":
		if m.closed || m.state == 0 {
			m.wantErr("Rewind", err)
			return
		}
		if m.state == 1 {
			// Nothing to do, so even a non-seekable reader may agree.
			if err != nil && m.seekable {
				m.x.Failf("Rewind just after the header: %v", err)
			}
			return
		}
		if m.seekable {
			if err != nil {
				m.x.Failf("Rewind of a seekable reader: %v", err)
			}
			m.state, m.pos, m.maybe = 1, 0, false
		} else if err == nil && !m.maybe {
			m.x.Failf("Rewind of a non-seekable reader past the header returns no error")
		}
	case "close":
		if m.closed {
			m.wantErr("Close", err)
		} else if m.closable && m.s.closeErr != nil {
			if !errors.Is(err, m.s.closeErr) {
				m.x.Failf("Close returns %v, want the stream's error", err)
			}
		} else if err != nil {
			m.x.Failf("Close: %v", err)
		}
		m.closed = true
		if m.closable && m.s.closes != 1 {
			m.x.Failf("the stream was closed %d times", m.s.closes)
		}
	}
}

func (m *reader) checkHeader(h *flat.Header) {
	if d := diff(accHeader(h), m.f.model.norm()); d != "" {
		m.x.Failf("Header: %s", d)
	}
	if b := h.Table().Bytes; len(b) < len(m.f.header) || !bytes.Equal(b[:len(m.f.header)], m.f.header) {
		m.x.Failf("Header: table has different bytes")
	}
}

func (m *reader) checkIndex(prt *packedrtree.PackedRTree, q RBox) {
	if !m.f.indexed {
		if prt != nil {
			m.x.Failf("Index returns %v for a file without an index", prt)
		}
		return
	}
	if prt == nil {
		m.x.Failf("Index returns nothing")
	}
	if prt.NumRefs() != m.f.count || prt.NodeSize() != m.f.nodes {
		m.x.Failf("Index has %d references and node size %d, want %d and %d", prt.NumRefs(), prt.NodeSize(), m.f.count, m.f.nodes)
	}
	want := []hit{}
	for l, i := range m.f.leaf {
		if m.f.boxes[i].touches(q.b()) {
			want = append(want, hit{m.f.featAt[i], l})
		}
	}
	checkHits(m.x, "Search of the index of the file", q, prt.Search(q.b().box()), want)
}

func (m *reader) searched(q RBox, fs []flat.Feature, err error) {
	if !m.f.indexed {
		if !errors.Is(err, flatgeobuf.ErrNoIndex) || len(fs) != 0 {
			m.x.Failf("IndexSearch of a file without index: %d features, %v", len(fs), err)
		}
		m.state, m.pos, m.maybe = 2, 0, true
		return
	}
	want := m.f.matches(q.b())
	if err != nil {
		m.x.Failf("IndexSearch %v: %v", q, err)
	}
	if len(fs) != len(want) {
		m.x.Failf("IndexSearch %v returns %d features, want %v", q, len(fs), want)
	}
	m.takeFeatures(fmt.Sprintf("IndexSearch %v (want %v)", q, want), fs, want)
	m.state, m.maybe = 3, false
	m.searches++
}

// rest returns the numbers of the features still to read.
func (m *reader) rest() (r []int) {
	if m.state == 3 {
		return
	}
	for i := m.pos; i < len(m.f.feats); i++ {
		r = append(r, i)
	}
	return
}

func (m *reader) data(p []flat.Feature, n int, err error) {
	if n < 0 || n > len(p) {
		m.x.Failf("Data returns count %d for %d features", n, len(p))
	}
	if m.closed || m.state == 0 {
		m.wantErr("Data", err)
		if n != 0 {
			m.x.Failf("Data returns %d features together with error %v", n, err)
		}
		return
	}
	want := m.rest()
	if len(p) > len(want) && err != io.EOF {
		m.x.Failf("Data(%d) at feature %d of %d returns %d, %v, want io.EOF", len(p), m.pos, len(m.f.feats), n, err)
	}
	if len(want) > len(p) {
		want = want[:len(p)]
		if err != nil {
			m.x.Failf("Data(%d) at feature %d of %d returns %d, %v, want no error", len(p), m.pos, len(m.f.feats), n, err)
		}
	}
	if err != nil && err != io.EOF {
		m.x.Failf("Data(%d) at feature %d of %d returns %d, %v", len(p), m.pos, len(m.f.feats), n, err)
	}
	if n != len(want) {
		m.x.Failf("Data(%d) at feature %d of %d returns %d, want %d", len(p), m.pos, len(m.f.feats), n, len(want))
	}
	m.takeFeatures("Data", p[:n], want)
	m.pos += n
	if m.state == 1 {
		m.state = 2
		m.maybe = len(p) == 0
	} else if len(p) > 0 {
		m.maybe = false
	}
	if err == io.EOF {
		m.state = 3
		m.maybe = false
		m.passes++
	}
}

// HistoryCase is a file with a sequence of calls.
type HistoryCase struct {
	S        FileSpec
	Raw      string `json:",omitempty"` // name of a test file used instead
	Seekable bool
	Closable bool
	CloseErr bool
	Frag     Frag
	Prefix   int // bytes in front of the file
	Ops      []Op
	Kind     string `json:",omitempty"` // kind of reader of the standard library to use instead
	Reuse    bool   `json:",omitempty"` // Data is called with the same slice again and again
}

func (c *HistoryCase) file() *file {
	if c.Raw != "" {
		return rawFile(readTestFile(c.Raw))
	}
	return c.S.build()
}

func (c *HistoryCase) open(x *Ctx, f *file) *reader {
	s := newStream(append(junk(c.Prefix), f.bytes...))
	s.pos = int64(c.Prefix)
	s.frag = c.Frag
	if c.CloseErr {
		s.closeErr = errInjectedClose
	}
	if c.Kind == "" {
		m := newReader(x, f, s, c.Seekable, c.Closable)
		m.reuse = c.Reuse
		return m
	}
	r, raw := s.realReader(c.Kind)
	_, seekable := r.(io.Seeker)
	if c, ok := r.(io.Closer); ok {
		m := newReader(x, f, s, seekable, false)
		m.r, m.cleanup = flatgeobuf.NewFileReader(r), func() { c.Close() }
		m.reuse = true
		return m
	}
	m := newReader(x, f, s, seekable, false)
	m.r, m.std, m.raw, m.reuse = flatgeobuf.NewFileReader(r), r, raw, c.Reuse
	return m
}

func runHistory(c *HistoryCase, x *Ctx) *reader {
	m := c.open(x, c.file())
	defer m.clean()
	for _, op := range c.Ops {
		m.step(op)
		x.Label(op.K)
	}
	m.finish()
	x.LabelIf(c.Kind != "", "reader "+c.Kind)
	x.LabelIf(c.Reuse, "slice reused")
	return m
}

// testFiles are the sample files which come with the repository.
func testFiles() (names []string) {
	ms, _ := filepath.Glob(filepath.Join(repoDir(), "testdata/flatgeobuf/*.fgb"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err == nil && len(b) > 12 && b[3] == 3 { // some sample is of an older version
			names = append(names, filepath.Base(m))
		}
	}
	return
}

func readTestFile(name string) []byte {
	b, err := os.ReadFile(filepath.Join(repoDir(), "testdata/flatgeobuf", filepath.Base(name)))
	if err != nil {
		harnessFail("%v", err)
	}
	return b
}

// drawLength draws a length, often one near a power of two.
func drawLength(t *rapid.T) int {
	if drawBool(t, "anysize") {
		return drawInt(t, 1, 9000, "size")
	}
	return max(1, 1<<drawInt(t, 5, 16, "power")+drawInt(t, -16, 16, "delta"))
}

// sweptSizes are all lengths (in steps) at which a buffer of a fixed size
// might end.
func sweptSizes(step int) (r []int) {
	for n := 1; n <= 2200; n += step {
		r = append(r, n)
	}
	for k := 12; k <= 16; k++ {
		for d := -160; d <= 16; d += step {
			r = append(r, 1<<k+d)
		}
	}
	return
}

// sweptFeatures are features of all sizes at which a buffer of a fixed size
// might end. Tables grow in steps of at least 4 bytes.
func sweptFeatures() (fs []Feature) {
	for i, n := range sweptSizes(4) {
		x := F(i)
		fs = append(fs, Feature{Geom: &Geometry{XY: []F{x, x, x + 0.5, x + 0.5}}, Fill: n})
	}
	return
}

// bigFeatures are features whose sizes lie around those at which buffers
// grow.
// manyFeatures describes a file with more features than 16 bits can count.
func manyFeatures() (s FileSpec) {
	for i := 0; i < 19; i++ {
		x := F(i)
		s.Feats = append(s.Feats, Feature{Geom: &Geometry{XY: []F{x, x * x}}, Fill: 40 + 4*i})
	}
	s.Rep, s.NodeSize, s.CountZero = 70000, 16, true
	return
}

func bigFeatures() (fs []Feature) {
	for i, n := range []int{8000, 8096, 8100, 1<<20 - 16, 1 << 20, 1<<20 + 8, 3 << 19, 2<<20 - 8, 2 << 20, 5 << 20, 70000, 1} {
		x := F(i)
		fs = append(fs, Feature{Geom: &Geometry{XY: []F{x, x, x + 0.5, x + 0.5}}, Fill: n})
	}
	return
}
