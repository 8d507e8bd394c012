package main

// T07..T08: corrupt index bytes and I/O failures of index operations.

import (
	"bytes"
	"errors"
	"math"
	"runtime"

	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// allocated measures the bytes allocated by f.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// NodeEdit changes one word of a serialized index.
type NodeEdit struct {
	Node int // modulo the number of nodes
	Word int // 0..3 coordinates, 4 offset
	Bits uint64
	Rel  bool // Bits is the number of a node to point to, counted from the edited one
}

type BadIndexCase struct {
	L        RefList
	NodeSize uint16
	Edits    []NodeEdit `json:",omitempty"`
	Bytes    [][2]int   `json:",omitempty"` // position (modulo), value
	Cut      int        // number of bytes cut off, modulo the length plus one
	Raw      []byte     // if not nil, replaces the index
	DeclRefs int64      // declared number of references, 0: the true one
	DeclNode uint16     // declared node size, 0: the true one
	Queries  []RBox
	Prefix   int
	Frag     Frag
	AtEnd    bool // stream position at the very end
}

func drawBadIndex(t *rapid.T) BadIndexCase {
	c := BadIndexCase{NodeSize: uint16(drawInt(t, 2, 5, "ns"))}
	if oneIn(t, 4, "otherns") {
		c.NodeSize = drawNodeSize(t)
	}
	c.L = drawRefList(t, c.NodeSize, 40, 0)
	c.Queries = drawQueries(t, &c.L, 2)
	if drawBool(t, "whole") {
		c.Queries = append(c.Queries, RBox{F(math.Inf(-1)), F(math.Inf(-1)), F(math.Inf(1)), F(math.Inf(1))})
	}
	for i := drawInt(t, 0, 4, "nedits"); i > 0; i-- {
		e := NodeEdit{Node: drawInt(t, 0, 120, "node"), Word: pick(t, []int{4, 4, 4, 4, 0, 1, 2, 3}, "word")}
		switch drawInt(t, 0, 4, "ek") {
		case 0, 1:
			e.Rel, e.Bits = true, uint64(int64(drawInt(t, -60, 60, "rel")))
		case 2:
			e.Bits = pick(t, []uint64{0, 1, 2, math.MaxUint64, math.MaxInt64, 1 << 63, 1 << 62, math.MaxInt64 / 40, math.MaxInt64/40 + 1, 0x8000000000000028, 1 << 31, 1 << 32, 0x7ff8000000000000, 0xfff0000000000000, 0x7ff0000000000000}, "bits")
		case 3:
			e.Bits = uint64(drawInt(t, 0, 200, "bits"))
		default:
			e.Bits = drawUint(t, 0, math.MaxUint64, "bits")
		}
		c.Edits = append(c.Edits, e)
	}
	for i := drawInt(t, 0, 3, "nbytes") - 1; i > 0; i-- {
		c.Bytes = append(c.Bytes, [2]int{drawInt(t, 0, 4000, "at"), drawInt(t, 0, 255, "to")})
	}
	if oneIn(t, 4, "cut") {
		c.Cut = drawInt(t, 0, 5000, "cut")
	}
	if oneIn(t, 6, "raw") {
		c.Raw = []byte{}
		if drawBool(t, "zeros") {
			c.Raw = make([]byte, drawInt(t, 0, 4000, "zeros"))
		} else {
			c.Raw = drawRaw(t, 300)
		}
	}
	switch drawInt(t, 0, 5, "decl") {
	case 0:
		c.DeclRefs = int64(drawInt(t, 1, 200, "declrefs"))
	case 1:
		c.DeclRefs = int64(drawInt(t, 1<<20, 1<<22, "declrefs"))
	case 2:
		c.DeclRefs = drawI64(t, 1<<38, math.MaxInt64/100, "declrefs")
	}
	if oneIn(t, 4, "declns") {
		c.DeclNode = drawNodeSize(t)
	}
	c.Prefix = pick(t, []int{0, 3, 40}, "prefix")
	c.Frag = drawFrag(t)
	return c
}

const allowance = 16 << 20

// corrupt returns the bytes of a corrupt index and its declared shape.
func (c *BadIndexCase) corrupt() (data []byte, numRefs int, nodeSize uint16) {
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize))
	data = tree.bytes()
	for _, e := range c.Edits {
		n := e.Node % len(tree.boxes)
		v := e.Bits
		if e.Rel {
			v += uint64(n)
		}
		le.PutUint64(data[40*n+8*e.Word:], v)
	}
	for _, b := range c.Bytes {
		data[b[0]%len(data)] = byte(b[1])
	}
	if c.Raw != nil {
		data = c.Raw
	}
	data = data[:len(data)-c.Cut%(len(data)+1)]
	numRefs, nodeSize = len(refs), c.NodeSize
	if c.DeclRefs > 0 && c.DeclRefs <= math.MaxInt {
		numRefs = int(c.DeclRefs)
	}
	if c.DeclNode > 0 {
		nodeSize = c.DeclNode
	}
	return
}

func runT07(c BadIndexCase, x *Ctx) {
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	data, numRefs, nodeSize := c.corrupt()
	edited := len(c.Edits)+len(c.Bytes) > 0 || c.Raw != nil
	declared := numRefs != len(refs) || nodeSize != c.NodeSize
	size, err := packedrtree.Size(numRefs, nodeSize)
	if err != nil {
		return
	}
	x.NT()
	x.LabelIf(size > len(data), "shorter than declared")
	x.LabelIf(size > 1<<30, "declares more than 1 GiB")
	x.LabelIf(edited && !declared, "edited words")
	stream := append(junk(c.Prefix), data...)
	firstLeaf := size/40 - numRefs
	checkResults := func(what string, q RBox, rs packedrtree.Results) {
		for _, r := range rs {
			if r.RefIndex < 0 || r.RefIndex >= numRefs {
				x.Failf("%s %v of a corrupt index returns position %d of %d", what, q, r.RefIndex, numRefs)
			}
			at := 40 * (firstLeaf + r.RefIndex)
			if at+40 > len(data) {
				x.Failf("%s %v returns position %d, which lies outside the %d bytes present", what, q, r.RefIndex, len(data))
			}
			if o := int64(le.Uint64(data[at+32:])); o != r.Offset {
				x.Failf("%s %v returns offset %d for position %d, where %d is stored", what, q, r.Offset, r.RefIndex, o)
			}
		}
		if !edited && !declared {
			checkHits(x, what, q, rs, bruteSearch(boxes, offs, q.b()))
		}
	}
	limit := uint64(allowance + 20*len(data))

	var prt *packedrtree.PackedRTree
	s := newStream(stream)
	s.frag = c.Frag
	s.pos = int64(c.Prefix)
	if n := allocated(func() { prt, err = packedrtree.Unmarshal(s.r(), numRefs, nodeSize) }); n > limit {
		x.Failf("Unmarshal with %d references declared allocates %d bytes for an input of %d bytes", numRefs, n, len(data))
	}
	if err == nil && prt == nil {
		x.Failf("Unmarshal returns neither an index nor an error")
	}
	if size > len(data) {
		if err == nil {
			x.Failf("Unmarshal of %d bytes succeeds although %d references with node size %d need %d", len(data), numRefs, nodeSize, size)
		}
	}
	if err != nil && prt != nil {
		x.Failf("Unmarshal returns an index together with error %v", err)
	}
	x.LabelIf(err == nil && edited, "edited index loaded")
	x.LabelIf(err != nil && size <= len(data), "edited index rejected")
	if prt != nil {
		if prt.NumRefs() != numRefs || prt.NodeSize() != nodeSize {
			x.Failf("loaded index reports %d references and node size %d, want %d and %d", prt.NumRefs(), prt.NodeSize(), numRefs, nodeSize)
		}
		_ = prt.String()
		_ = prt.Bounds()
		var out bytes.Buffer
		if n, err := prt.Marshal(&out); err != nil || n != size || !bytes.Equal(out.Bytes(), data[:size]) {
			x.Failf("Marshal of a loaded corrupt index does not return its bytes (%d, %v)", n, err)
		}
	}
	for _, q := range c.Queries {
		if prt != nil {
			checkResults("Search", q, prt.Search(q.b().box()))
		}
		s := newStream(stream)
		s.frag = c.Frag
		s.pos = int64(c.Prefix)
		var rs packedrtree.Results
		if n := allocated(func() { rs, err = packedrtree.Seek(s.rs(), numRefs, nodeSize, q.b().box()) }); n > limit {
			x.Failf("Seek with %d references declared allocates %d bytes for an input of %d bytes", numRefs, n, len(data))
		}
		if err == nil {
			checkResults("Seek", q, rs)
		} else if len(rs) > 0 {
			x.Failf("Seek returns results together with error %v", err)
		}
	}
}

type IndexFaultCase struct {
	L        RefList
	NodeSize uint16
	Query    RBox
	Frag     Frag
	Prefix   int
	Once     bool // the stream recovers after the fault
	Salt     int  `json:",omitempty"` // for large indexes: chooses some of the positions
}

// positions are those at which the stream fails.
func (c *IndexFaultCase) positions(size int) (r []int) {
	if c.L.Pat == nil {
		for at := 0; at <= size+1; at++ {
			r = append(r, at)
		}
		return
	}
	r = spread(size+2, 40, c.Salt)
	for b := 4096; b <= size; b *= 2 {
		for _, k := range []int{1, 3, 1 + c.Salt%7} {
			for d := -1; d <= 1; d++ {
				if at := b*k + d; at <= size {
					r = append(r, at)
				}
			}
		}
	}
	return append(r, size/2, size-40, size-1)
}

func runT08(c IndexFaultCase, x *Ctx) {
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize)).bytes()
	content := append(append(junk(c.Prefix), tree...), 1, 2, 3)
	q := c.Query.b().box()
	want := bruteSearch(boxes, offs, c.Query.b())
	open := func() *stream {
		s := newStream(content)
		s.frag = c.Frag
		s.pos = int64(c.Prefix)
		s.once = c.Once
		return s
	}
	check := func(what string, s *stream, err error, empty bool) bool {
		if s.faulted == 0 {
			if err != nil {
				x.Failf("%s: %v although the stream did not fail", what, err)
			}
			return true
		}
		if err == nil {
			if s.faultFull {
				x.Label("fault with all bytes delivered")
				return true
			}
			x.Failf("%s reports no error although call %d of the stream failed (position %d)", what, s.faultCall, s.faultPos)
		}
		if !errors.Is(err, errInjected) {
			x.Failf("%s: error %q does not wrap the stream's error", what, err)
		}
		if !empty {
			x.Failf("%s returns a result together with error %v", what, err)
		}
		return false
	}
	faults := 0
	each := func(op string, run func(s *stream)) {
		s := open()
		run(s)
		calls := s.calls
		for call := 0; call <= calls && !tired(); call++ {
			for _, partial := range []int{0, 1, 23, 1 << 30} {
				s := open()
				s.faultCall, s.partial = call, partial
				run(s)
				if call < calls && s.faulted == 0 {
					x.Failf("%s: the sequence of stream calls is not repeatable", op)
				}
				faults++
			}
		}
		for _, at := range c.positions(len(tree)) {
			if at > len(tree) || c.L.Pat == nil && len(tree) > 1200 && at%13 > 0 {
				continue
			} else if tired() {
				break
			}
			s := open()
			s.faultPos = int64(c.Prefix + at)
			run(s)
			faults++
		}
	}
	each("Unmarshal", func(s *stream) {
		prt, err := packedrtree.Unmarshal(s.r(), len(refs), c.NodeSize)
		if check("Unmarshal", s, err, prt == nil) {
			if prt == nil {
				x.Failf("Unmarshal returns neither an index nor an error")
			}
			checkHits(x, "Search after Unmarshal", c.Query, prt.Search(q), want)
		}
	})
	each("Seek", func(s *stream) {
		rs, err := packedrtree.Seek(s.rs(), len(refs), c.NodeSize, q)
		if check("Seek", s, err, len(rs) == 0) {
			checkHits(x, "Seek", c.Query, rs, want)
		}
	})
	prt := mustNew(x, refs, c.NodeSize)
	effort.Store(0)
	for _, at := range c.positions(len(tree)) {
		if tired() {
			break
		}
		s := newSink()
		s.faultPos = at
		s.once = c.Once
		n, err := prt.Marshal(s.w())
		if n != len(s.data) {
			x.Failf("Marshal reports %d bytes, the stream accepted %d before failing at %d", n, len(s.data), at)
		}
		if s.faulted > 0 && !errors.Is(err, errInjected) {
			x.Failf("Marshal: error %v does not wrap the stream's error (fault at %d)", err, at)
		}
		if s.faulted == 0 && err != nil {
			x.Failf("Marshal: %v although the stream did not fail", err)
		}
		if at < len(tree) && s.faulted == 0 {
			x.Failf("Marshal writes only %d of %d bytes", len(s.data), len(tree))
		}
		if s.faulted > 1 || s.after > 0 {
			x.Failf("Marshal continues to write after a failure")
		}
		if k := len(s.data) / 40 * 40; k > 0 && at >= len(tree) {
			compareIndex(x, "Marshal", s.data, newRefTree(boxes, offs, int(c.NodeSize)))
		}
		faults++
	}
	x.NT()
	x.labels["fault points"] += faults
}

func init() {
	register(&Prop{ID: "T07", Rule: "rapid draws small indexes and corrupts them: child pointers (relative, boundary, arbitrary), coordinates (NaN, infinities), single bytes, truncation, random or zero bytes, and declared counts and node sizes which disagree with the bytes (also huge ones). Oracle: no panic, no hang (stream call budget and CPU watchdog), results refer to stored leaves inside the declared count, truncation is an error, allocation stays below 16 MiB + 20 bytes per input byte. Non-trivial: the declared size passes validation.",
		Assum: []string{"allocation is measured as the growth of runtime.MemStats.TotalAlloc around the call"},
		Subs: []*Sub{
			sub("corrupt", 60000, 3000000, drawBadIndex, runT07),
		}})
	register(&Prop{ID: "T08", Level: "fault_enumeration", Rule: "rapid draws indexes, queries and fragmentation; per case every read and seek call of Unmarshal and Seek fails once (delivering none, some or all of the requested bytes), every byte position (every 13th if the index exceeds 1200 bytes) fails, and every byte position of Marshal's output fails; of large indexes (to 40000 references) some calls and positions, among them those around the sizes of usual buffers; with and without recovery of the stream. Label 'fault points' counts the injected faults. Non-trivial: every case.",
		Subs: []*Sub{
			sub("faults", 9600, 400000, func(t *rapid.T) IndexFaultCase {
				c := IndexFaultCase{NodeSize: uint16(drawInt(t, 2, 5, "ns"))}
				if oneIn(t, 5, "otherns") {
					c.NodeSize = drawNodeSize(t)
				}
				c.L = drawRefList(t, c.NodeSize, 25, 0)
				c.Query = noNaN(drawQuery(t, c.L.Refs))
				c.Frag = pick(t, []Frag{{}, {EOFNow: true}, {Sizes: []int{40}}, {Sizes: []int{100, 7}}, {Sizes: []int{17, 0, 90}}}, "frag")
				c.Frag.Rich, c.Frag.Scratch = oneIn(t, 4, "rich"), oneIn(t, 4, "scratch")
				c.Prefix = pick(t, []int{0, 8, 41}, "prefix")
				c.Once = drawBool(t, "once")
				return c
			}, runT08),
			sub("large", 200, 20000, func(t *rapid.T) IndexFaultCase {
				c := IndexFaultCase{NodeSize: drawNodeSize(t), Salt: drawInt(t, 0, 1000, "salt")}
				top := pick(t, []int{400, 2000, 8000, 40000}, "max")
				c.L = RefList{Pat: &Pattern{N: drawInt(t, top/4, top, "n"), W: drawInt(t, 1, 200, "w"), A: drawInt(t, 1, 9973, "a"), M: drawInt(t, 1, 997, "m"), Kind: drawInt(t, 0, 3, "kind"), Extent: drawInt(t, 0, 12, "ext")}, OffSeq: true, Step: 8}
				c.Query = noNaN(drawQuery(t, c.L.expand()[:100]))
				c.Frag = pick(t, []Frag{{}, {EOFNow: true}, {Sizes: []int{65536}}, {Sizes: []int{4096, 9000}}}, "frag")
				c.Once = drawBool(t, "once")
				return c
			}, runT08),
		}})
}
