package main

// T01..T03: search, streaming search, serialization of the index.

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// sortedRefs expands a list and brings it into Hilbert order with the
// package's own sort, as the documentation of New asks for. Both
// directions are documented to be valid.
func sortedRefs(l *RefList, reverse bool) []packedrtree.Ref {
	rr := l.expand()
	refs := make([]packedrtree.Ref, len(rr))
	bounds := emptyBox4
	for i := range rr {
		refs[i] = packedrtree.Ref{Box: rr[i].B.b().box(), Offset: rr[i].Off}
		bounds = bounds.union(rr[i].B.b())
	}
	packedrtree.HilbertSort(refs, bounds.box())
	if reverse {
		for i, j := 0, len(refs)-1; i < j; i, j = i+1, j-1 {
			refs[i], refs[j] = refs[j], refs[i]
		}
	}
	if l.OffSeq {
		step := max(1, l.Step)
		for i := range refs {
			refs[i].Offset = l.Base + int64(i)*step
		}
	}
	return refs
}

func split(refs []packedrtree.Ref) (boxes []Box4, offs []int64) {
	for i := range refs {
		boxes = append(boxes, fromBox(refs[i].Box))
		offs = append(offs, refs[i].Offset)
	}
	return
}

func refsEqual(a, b []packedrtree.Ref) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Offset != b[i].Offset || !sameBits(fromBox(a[i].Box), fromBox(b[i].Box)) {
			return false
		}
	}
	return true
}

type TreeCase struct {
	L        RefList
	NodeSize uint16
	Queries  []RBox
	Reverse  bool
	Scribble bool // change the input list after building
}

func drawTreeCase(t *rapid.T, maxN, maxPat, maxQ int) TreeCase {
	c := TreeCase{NodeSize: drawNodeSize(t)}
	c.L = drawRefList(t, c.NodeSize, maxN, maxPat)
	c.Queries = drawQueries(t, &c.L, maxQ)
	c.Reverse = drawBool(t, "reverse")
	c.Scribble = drawBool(t, "scribble")
	return c
}

func describe(h []hit) string {
	if len(h) > 12 {
		return fmt.Sprintf("%v... (%d)", h[:12], len(h))
	}
	return fmt.Sprint(h)
}

// checkHits compares results in any order with the expected ones in leaf
// order.
func checkHits(x *Ctx, what string, q RBox, got packedrtree.Results, want []hit) {
	if g := byIdx(toHits(got)); !sameHits(g, want) {
		x.Failf("%s %v: got (offset,index) %s, want %s", what, q, describe(g), describe(want))
	}
}

func mustNew(x *Ctx, refs []packedrtree.Ref, nodeSize uint16) *packedrtree.PackedRTree {
	prt, err := packedrtree.New(refs, nodeSize)
	if err != nil || prt == nil {
		x.Failf("New(%d refs, node size %d): %v, %v", len(refs), nodeSize, prt, err)
	}
	return prt
}

func runT01(c TreeCase, x *Ctx) {
	refs := sortedRefs(&c.L, c.Reverse)
	orig := append([]packedrtree.Ref{}, refs...)
	boxes, offs := split(refs)
	prt := mustNew(x, refs, c.NodeSize)
	if !refsEqual(refs, orig) {
		x.Failf("New modified the input list")
	}
	if prt.NumRefs() != len(refs) {
		x.Failf("NumRefs is %d, want %d", prt.NumRefs(), len(refs))
	}
	if prt.NodeSize() != c.NodeSize {
		x.Failf("NodeSize is %d, want %d", prt.NodeSize(), c.NodeSize)
	}
	if c.Scribble {
		for i := range refs {
			refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: -1e9, YMin: -1e9, XMax: 1e9, YMax: 1e9}, Offset: -7}
		}
	}
	levels := len(refLevels(len(refs), int(c.NodeSize)))
	x.Label(fmt.Sprintf("levels=%d", levels))
	x.LabelIf(len(refs) > 100, "refs>100")
	before := prt.String()
	var first packedrtree.Results
	var firstWant []hit
	for i, q := range c.Queries {
		yield()
		want := bruteSearch(boxes, offs, q.b())
		x.LabelIf(len(want) > 0, "query with hits")
		x.LabelIf(len(want) > 0 && len(want) < len(boxes), "query with hits and misses")
		if len(want) > 0 && len(want) < len(boxes) || len(boxes) == 1 {
			x.NT()
		}
		got := prt.Search(q.b().box())
		checkHits(x, "Search", q, got, want)
		if i == 0 {
			first, firstWant = got, want
		}
	}
	// Results already returned and the index itself are unaffected by
	// further searches.
	if len(c.Queries) > 0 {
		checkHits(x, "results of the first Search after more searches of", c.Queries[0], first, firstWant)
		for i := range first {
			first[i] = packedrtree.Result{Offset: -1, RefIndex: -1}
		}
		checkHits(x, "repeated Search", c.Queries[0], prt.Search(c.Queries[0].b().box()), firstWant)
	}
	if s := prt.String(); s != before {
		x.Failf("searching changed the index from %s to %s", before, s)
	}
	if !c.Scribble && !refsEqual(refs, orig) {
		x.Failf("Search modified the input list")
	}
}

// ResultsCase is a list of results to sort, of which the offsets are given.
type ResultsCase struct {
	Off    []int64
	Repeat int // for long lists: they are repeated that often, changed a little
}

func drawResults(t *rapid.T) ResultsCase {
	var c ResultsCase
	kind := drawInt(t, 0, 2, "kind")
	for i := drawInt(t, 0, 30, "n"); i > 0; i-- {
		switch kind {
		case 0:
			c.Off = append(c.Off, int64(drawInt(t, 0, 9, "off")))
		case 1:
			c.Off = append(c.Off, drawI64(t, math.MinInt64, math.MaxInt64, "off"))
		default:
			c.Off = append(c.Off, pick(t, []int64{math.MinInt64, math.MaxInt64, -1, 0, 1, math.MinInt32, math.MaxInt32, math.MaxUint32, 1 << 62, -1 << 62}, "off"))
		}
	}
	if oneIn(t, 30, "long") {
		c.Repeat = drawInt(t, 1, 60, "repeat")
	}
	return c
}

func runResults(c ResultsCase, x *Ctx) {
	var offs []int64
	for r := 0; r <= c.Repeat; r++ {
		for i, o := range c.Off {
			offs = append(offs, o^int64(r*i%7))
		}
	}
	rs := make(packedrtree.Results, len(offs))
	for i, o := range offs {
		rs[i] = packedrtree.Result{Offset: o, RefIndex: i}
	}
	if rs.Len() != len(offs) {
		x.Failf("Len of %d results is %d", len(offs), rs.Len())
	}
	for i := range offs {
		for j := 0; j < len(offs); j += 1 + len(offs)/40 {
			if rs.Less(i, j) != (offs[i] < offs[j]) {
				x.Failf("Less of results with offsets %d and %d is %v", offs[i], offs[j], rs.Less(i, j))
			}
		}
	}
	sort.Sort(rs)
	seen := make([]bool, len(offs))
	for i, r := range rs {
		if r.RefIndex < 0 || r.RefIndex >= len(offs) || seen[r.RefIndex] || r.Offset != offs[r.RefIndex] {
			x.Failf("after sorting, result %d is %v, which was not there before, or is there twice", i, r)
		}
		seen[r.RefIndex] = true
		if i > 0 && rs[i-1].Offset > r.Offset {
			x.Failf("after sorting, results %d and %d have offsets %d and %d", i-1, i, rs[i-1].Offset, r.Offset)
		}
	}
	if len(offs) > 2 {
		x.NT()
	}
}

type SeekCase struct {
	L        RefList
	NodeSize uint16
	Queries  []RBox
	Prefix   int
	Suffix   []byte
	Frag     Frag
	Start    bool // move to the index by reading instead of seeking
}

func drawSeekCase(t *rapid.T) SeekCase {
	c := SeekCase{NodeSize: drawNodeSize(t)}
	c.L = drawRefList(t, c.NodeSize, 60, 2500)
	c.Queries = drawQueries(t, &c.L, 3)
	c.Prefix = pick(t, []int{0, 1, 7, 8, 39, 40, 41, 300}, "prefix")
	c.Suffix = drawRaw(t, 50)
	c.Frag = drawFrag(t)
	if c.L.Pat != nil && len(c.Frag.Sizes) > 0 && c.Frag.Sizes[0] < 40 {
		c.Frag.Sizes = []int{997}
	}
	c.Start = drawBool(t, "start")
	return c
}

func junk(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(37*i + 11)
	}
	return b
}

func ascending(h []hit) bool {
	for i := 1; i < len(h); i++ {
		if h[i].Off < h[i-1].Off {
			return false
		}
	}
	return true
}

func runT02(c SeekCase, x *Ctx) {
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize)).bytes()
	data := append(append(junk(c.Prefix), tree...), c.Suffix...)
	mem, err := packedrtree.Unmarshal(bytes.NewReader(tree), len(refs), c.NodeSize)
	if err != nil || mem == nil {
		x.Failf("Unmarshal of a valid index: %v", err)
	}
	for _, q := range c.Queries {
		s := newStream(data)
		s.frag = c.Frag
		s.pos = int64(c.Prefix)
		got, err := packedrtree.Seek(s.rs(), len(refs), c.NodeSize, q.b().box())
		if err != nil {
			x.Failf("Seek %v: %v", q, err)
		}
		want := bruteSearch(boxes, offs, q.b())
		if len(want) > 0 && len(want) < len(boxes) || len(boxes) == 1 {
			x.NT()
		}
		x.LabelIf(len(want) > 1, "several hits")
		x.LabelIf(len(want) == 0, "no hits")
		x.LabelIf(c.Prefix > 0, "index not at stream start")
		checkHits(x, "Seek", q, got, want)
		checkHits(x, "Search of the loaded index", q, mem.Search(q.b().box()), want)
		if h := toHits(got); !ascending(h) {
			if sameHits(h, want) {
				x.Known("seek-leaf-order", "Seek returns results in leaf order although their offsets do not ascend in leaf order")
			} else {
				x.Failf("Seek %v: results not in ascending order of offset: %s", q, describe(h))
			}
		}
		if want := int64(c.Prefix + len(tree)); s.pos != want {
			x.Failf("Seek %v: stream is at %d after the search, want %d (index %d..%d)", q, s.pos, want, c.Prefix, c.Prefix+len(tree))
		}
	}
}

type MarshalCase struct {
	L        RefList
	NodeSize uint16
	Queries  []RBox
	Reverse  bool
	Frag     Frag
	Suffix   []byte
}

// compareIndex compares serialized bytes with the reference tree: leaves
// and child pointers exactly, inner extents by value (the sign of a zero
// depends on the order of expansion, which nobody promises).
func compareIndex(x *Ctx, what string, got []byte, tree *refTree) {
	want := tree.bytes()
	if len(got) != len(want) {
		x.Failf("%s: %d bytes, want %d", what, len(got), len(want))
	}
	for i := range tree.boxes {
		g, w := got[40*i:40*i+40], want[40*i:40*i+40]
		if bytes.Equal(g, w) {
			continue
		}
		if i < tree.start[0] && bytes.Equal(g[32:], w[32:]) {
			same := true
			for j := 0; j < 4; j++ {
				if math.Float64frombits(le.Uint64(g[8*j:])) != tree.boxes[i][j] {
					same = false
				}
			}
			if same {
				continue
			}
		}
		x.Failf("%s: node %d of %d (%d leaves) is % x, want % x", what, i, len(tree.boxes), tree.levels[0], g, w)
	}
}

func runT03(c MarshalCase, x *Ctx) {
	refs := sortedRefs(&c.L, c.Reverse)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize))
	if len(tree.levels) > 2 && tree.levels[0]%int(c.NodeSize) != 0 {
		x.Label("partially filled nodes")
		x.NT()
	}
	x.Label(fmt.Sprintf("levels=%d", len(tree.levels)))
	prt := mustNew(x, refs, c.NodeSize)
	var out weaveBuffer
	n, err := prt.Marshal(&out)
	if err != nil {
		x.Failf("Marshal: %v", err)
	}
	if n != out.Len() {
		x.Failf("Marshal reports %d bytes but wrote %d", n, out.Len())
	}
	compareIndex(x, "Marshal", out.Bytes(), tree)

	// The reference bytes, read back.
	ref := tree.bytes()
	s := newStream(append(append([]byte{}, ref...), c.Suffix...))
	s.frag = c.Frag
	back, err := packedrtree.Unmarshal(s.r(), len(refs), c.NodeSize)
	if err != nil || back == nil {
		x.Failf("Unmarshal: %v", err)
	}
	if s.pos != int64(len(ref)) {
		x.Failf("Unmarshal consumed %d bytes, want %d", s.pos, len(ref))
	}
	if back.NumRefs() != len(refs) || back.NodeSize() != c.NodeSize {
		x.Failf("Unmarshal gives %d refs, node size %d, want %d, %d", back.NumRefs(), back.NodeSize(), len(refs), c.NodeSize)
	}
	if fromBox(back.Bounds()) != tree.bounds() {
		x.Failf("Bounds of the loaded index are %v, want %v", back.Bounds(), tree.bounds())
	}
	for _, q := range c.Queries {
		checkHits(x, "Search of the loaded index", q, back.Search(q.b().box()), bruteSearch(boxes, offs, q.b()))
	}
	out.Reset()
	if n, err = back.Marshal(&out); err != nil || n != len(ref) {
		x.Failf("Marshal of the loaded index: %d, %v", n, err)
	}
	if !bytes.Equal(out.Bytes(), ref) {
		x.Failf("Marshal of the loaded index gives different bytes")
	}
	// Writing is repeatable and fragmentation of the reader left no trace.
	out.Reset()
	if _, err = prt.Marshal(&out); err != nil {
		x.Failf("second Marshal: %v", err)
	}
	compareIndex(x, "second Marshal", out.Bytes(), tree)
}

// bigTrees are the shapes of the fixed cases with many references: beyond
// 16-bit positions, and around the sizes at which buffers grow.
var bigTrees = []bigTree{{70000, 16}, {66000, 65535}, {65536, 65535}, {33000, 2}, {16383, 300}, {16384, 16384}, {15359, 16}, {15360, 16}, {15361, 16}, {30720, 16}}

type bigTree struct {
	n  int
	ns uint16
}

func (b bigTree) list() RefList {
	return RefList{Pat: &Pattern{N: b.n, W: 256, A: 7919, M: 997, Kind: 0, Extent: 2}, OffSeq: true, Step: 40}
}

var bigQueries = []RBox{{3, 3, 9, 9}, {100.25, 17, 100.5, 300}, {250, 250, 260, 300}, {-1, -1, -0.5, 400}, {-1, -1, 400, 400}}

func init() {
	register(&Prop{ID: "T01", Rule: "rapid draws reference lists (explicit boxes in five coordinate families or parametrised patterns of up to 6000 references), node size and queries derived from the boxes; the oracle is a linear scan. Lists of results are sorted. Non-trivial: some query hits some but not all references (or the list has one element); more than two results.",
		Subs: []*Sub{
			sub("search", 200000, 8000000, func(t *rapid.T) TreeCase { return drawTreeCase(t, 60, 6000, 6) }, runT01, func() (r []TreeCase) {
				for _, b := range bigTrees {
					r = append(r, TreeCase{L: b.list(), NodeSize: b.ns, Queries: bigQueries})
				}
				return
			}),
			sub("results", 100000, 3000000, drawResults, runResults),
		}})
	register(&Prop{ID: "T02", Rule: "as T01, with the index written by a reference encoder into a stream with drawn prefix, suffix and read fragmentation; Seek is compared with a linear scan and with the loaded index. Non-trivial: some query hits some but not all references (or the list has one element).",
		Subs: []*Sub{
			sub("seek", 200000, 8000000, drawSeekCase, runT02, func() (r []SeekCase) {
				for _, b := range bigTrees {
					r = append(r, SeekCase{L: b.list(), NodeSize: b.ns, Queries: bigQueries, Prefix: 8, Suffix: []byte{1}})
				}
				return
			}),
		}})
	register(&Prop{ID: "T03", Rule: "as T01; Marshal is compared node by node with a reference encoder, and the reference bytes are read back with drawn fragmentation and trailing data. Non-trivial: at least three levels with a partially filled node.",
		Subs: []*Sub{
			sub("roundtrip", 200000, 8000000, func(t *rapid.T) MarshalCase {
				c := MarshalCase{NodeSize: drawNodeSize(t)}
				c.L = drawRefList(t, c.NodeSize, 60, 2500)
				c.Queries = drawQueries(t, &c.L, 2)
				c.Reverse = drawBool(t, "reverse")
				c.Frag = drawFrag(t)
				c.Suffix = drawRaw(t, 50)
				return c
			}, runT03, func() (r []MarshalCase) {
				for _, b := range bigTrees {
					r = append(r, MarshalCase{L: b.list(), NodeSize: b.ns, Queries: bigQueries, Frag: Frag{Sizes: []int{4096, 655360, 1 << 20}}, Suffix: []byte{1, 2}})
				}
				return
			}),
		}})
}
