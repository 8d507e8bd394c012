package main

// L01: sizes beyond 32 bits. The streams are computed while they are read, or
// only compared while they are written, so that they need no memory.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"runtime/debug"
	"sort"
	"strconv"
	"syscall"
	"unsafe"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// Grid is an index of N references in rows of W: reference i has the box
// [i/W, i/W+½] × [i%W, i%W+½].
type Grid struct {
	N, W int64
	NS   uint16
}

type grid struct {
	Grid
	levels, start []int64 // leaves first
	span          []int64 // references below a node of the level
	total         int64
	offset        func(i int64) int64
}

// gridFits tells if the index fits in an int64 number of bytes.
func gridFits(g Grid) bool {
	n := refNumNodes(big.NewInt(g.N), int64(g.NS))
	return n.Mul(n, big.NewInt(40)).IsInt64()
}

func (g Grid) open(offset func(i int64) int64) *grid {
	r := &grid{Grid: g, offset: offset}
	span := int64(1)
	for n := g.N; ; {
		r.levels = append(r.levels, n)
		r.span = append(r.span, span)
		r.total += n
		if len(r.levels) > 1 && n == 1 {
			break
		}
		n = n/int64(g.NS) + int64(b2i(n%int64(g.NS) != 0))
		if span > g.N/int64(g.NS) {
			span = g.N
		} else {
			span *= int64(g.NS)
		}
	}
	end := r.total
	for _, n := range r.levels {
		end -= n
		r.start = append(r.start, end)
	}
	return r
}

// put encodes node i of the index.
func (g *grid) put(b []byte, i int64) {
	l := len(g.levels) - 1
	for i >= g.start[l]+g.levels[l] {
		l--
	}
	k := i - g.start[l]
	lo := k * g.span[l]
	last := g.N - 1
	if lo+g.span[l] <= last {
		last = lo + g.span[l] - 1
	}
	x0, x1 := lo/g.W, last/g.W
	y0, y1 := int64(0), g.W-1
	if x0 == x1 {
		y0, y1 = lo%g.W, last%g.W
	}
	le.PutUint64(b, math.Float64bits(float64(x0)))
	le.PutUint64(b[8:], math.Float64bits(float64(y0)))
	le.PutUint64(b[16:], math.Float64bits(float64(x1)+0.5))
	le.PutUint64(b[24:], math.Float64bits(float64(y1)+0.5))
	if l == 0 {
		le.PutUint64(b[32:], uint64(g.offset(k)))
	} else {
		le.PutUint64(b[32:], uint64(g.start[l-1]+k*int64(g.NS)))
	}
}

// fill computes bytes of the index.
func (g *grid) fill(at int64, p []byte) {
	var node [40]byte
	for len(p) > 0 {
		i := at / 40
		from := at % 40
		if from == 0 && len(p) >= 40 {
			g.put(p[:40], i)
			p, at = p[40:], at+40
			continue
		}
		g.put(node[:], i)
		n := copy(p, node[from:])
		p, at = p[n:], at+int64(n)
	}
}

// hits lists the references which a query meets, in order.
func (g *grid) hits(q Box4) (r []int64) {
	x0, y0 := max(0, int64(math.Ceil(q[0]-0.5))), max(0, int64(math.Ceil(q[1]-0.5)))
	x1, y1 := min((g.N-1)/g.W, int64(math.Floor(q[2]))), min(g.W-1, int64(math.Floor(q[3])))
	for x := x0; x <= x1; x++ {
		for y := y0; y <= y1; y++ {
			if i := x*g.W + y; i < g.N {
				r = append(r, i)
			}
		}
	}
	return
}

// Spot is a query around a reference.
type Spot struct {
	At     int64 // number of the reference, modulo their number
	DX, DY int64 // cells beyond it
	Half   bool  // stay between the boxes: no hits
}

func (s Spot) query(g Grid) Box4 {
	i := s.At % g.N
	x, y := float64(i/g.W), float64(i%g.W)
	if s.Half {
		return Box4{x + 0.625, y + 0.625, x + 0.875, y + 0.875}
	}
	return Box4{x + 0.25, y + 0.25, x + 0.25 + float64(s.DX), y + 0.375 + float64(s.DY)}
}

func drawSpot(t *rapid.T, g Grid) Spot {
	s := Spot{DX: int64(pick(t, []int{0, 0, 1, 3}, "dx")), DY: int64(pick(t, []int{0, 0, 1, 5, 20}, "dy")), Half: oneIn(t, 8, "half")}
	switch drawInt(t, 0, 4, "where") {
	case 0:
		s.At = g.N - 1 - int64(drawInt(t, 0, 40, "back"))
	case 1:
		s.At = pick(t, []int64{0, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 - 1, 1 << 16, 1 << 27, 1 << 28, 1 << 29}, "at") + int64(drawInt(t, 0, 20, "plus"))
	default:
		s.At = drawI64(t, 0, g.N-1, "at")
	}
	if s.At < 0 {
		s.At = 0
	}
	return s
}

// vstream is a stream which is computed while it is read.
type vstream struct {
	pos, size int64
	fill      func(at int64, p []byte)
	most      int // bytes delivered at once
	steps     int
	read      int64
}

var errVSeek = errors.New("seek out of range")

func (s *vstream) step() {
	if s.steps--; s.steps < 0 {
		panic(violation{"endless loop of stream calls"})
	}
}

func (s *vstream) Read(p []byte) (int, error) {
	s.step()
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= s.size {
		return 0, io.EOF
	}
	n := len(p)
	if s.most > 0 && n > s.most {
		n = s.most
	}
	if int64(n) > s.size-s.pos {
		n = int(s.size - s.pos)
	}
	s.fill(s.pos, p[:n])
	s.pos += int64(n)
	s.read += int64(n)
	return n, nil
}

type vseek struct{ *vstream }

func (s vseek) Seek(off int64, whence int) (int64, error) {
	s.step()
	base := int64(0)
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = s.pos
	case io.SeekEnd:
		base = s.size
	default:
		return 0, errVSeek
	}
	if off > math.MaxInt64-base || base+off < 0 {
		return 0, errVSeek
	}
	s.pos = base + off
	return s.pos, nil
}

type vread struct{ s *vstream }

func (r vread) Read(p []byte) (int, error) { return r.s.Read(p) }

func drawGrid(t *rapid.T) Grid {
	g := Grid{NS: pick(t, []uint16{2, 3, 7, 16, 16, 16, 100, 1000, 65535}, "ns")}
	switch drawInt(t, 0, 3, "size") {
	case 0: // around the point where the size of the index passes 2³¹ or 2³² bytes
		g.N = pick(t, []int64{1 << 31, 1 << 32}, "bytes") / 40 * int64(g.NS-1) / int64(g.NS)
		g.N += int64(drawInt(t, -70000, 70000, "more"))
	case 1:
		g.N = pick(t, []int64{1 << 31, 1 << 32, 1 << 27, 1 << 28, 1 << 29, 1 << 35, 1 << 36}, "n") + int64(drawInt(t, -3, 3, "more"))
	default:
		g.N = int64(1)<<drawInt(t, 25, 56, "bits") + drawI64(t, 0, 1<<25, "more")
	}
	if !gridFits(g) {
		g.N /= 16
	}
	g.W = pick(t, []int64{1, 2, 16, 100, 4096, 65536, 1 << 20, 1000003, 1 << 28, 1 << 31, 1 << 32}, "w")
	for g.N/g.W >= 1<<50 {
		g.W *= 64
	}
	if g.W > g.N {
		g.W = g.N
	}
	return g
}

// HugeIndex is a streaming search of a huge index.
type HugeIndex struct {
	G       Grid
	At      int64 // position of the index in the stream
	Step    int64
	Most    int
	Queries []Spot
}

func drawHugeIndex(t *rapid.T) HugeIndex {
	c := HugeIndex{G: drawGrid(t), Most: pick(t, []int{0, 0, 4096, 100}, "most")}
	if c.G.NS > 10000 {
		c.Most = 0
	}
	c.At = pick(t, []int64{0, 8, 1 << 31, 1<<32 - 20, 1<<32 + 5, 1 << 40}, "at")
	c.Step = pick(t, []int64{8, 100, 1 << 16, 5}, "step")
	for c.Step > 1 && c.G.N > math.MaxInt64/c.Step {
		c.Step /= 2
	}
	for i := drawInt(t, 1, 4, "nq"); i > 0; i-- {
		c.Queries = append(c.Queries, drawSpot(t, c.G))
	}
	return c
}

func runHugeIndex(c HugeIndex, x *Ctx) {
	g := c.G.open(func(i int64) int64 { return i * c.Step })
	size := g.total * 40
	x.Label(fmt.Sprintf("index of about 2^%d bytes", bitLen(size)))
	x.LabelIf(c.At > 1<<31, "index beyond 2^31")
	if int64(int(g.N)) != g.N || int64(int(size)) != size {
		x.Label("does not fit this host")
		if int64(int(g.N)) != g.N {
			return
		}
		s := &vstream{pos: c.At, size: c.At + size, fill: func(at int64, p []byte) { g.fill(at-c.At, p) }, steps: 1000}
		// An error, or the right results; see below.
		got, err := packedrtree.Seek(vseek{s}, int(g.N), g.NS, c.Queries[0].query(c.G).box())
		if err == nil {
			checkSpot(x, g, c.Queries[0], got)
		}
		if _, err = packedrtree.Unmarshal(vread{s}, int(g.N), g.NS); err == nil {
			x.Failf("Unmarshal of an index larger than the address space succeeds")
		}
		return
	}
	x.NT()
	if n, err := packedrtree.Size(int(g.N), g.NS); err != nil || int64(n) != size {
		x.Failf("Size(%d, %d) is %d, %v, want %d", g.N, g.NS, n, err, size)
	}
	for _, sp := range c.Queries {
		q := sp.query(c.G)
		s := &vstream{pos: c.At, size: c.At + size + 100, most: c.Most, steps: 3000000}
		s.fill = func(at int64, p []byte) {
			if at < c.At || at+int64(len(p)) > c.At+size {
				x.Failf("Seek reads from %d to %d, the index is from %d to %d", at, at+int64(len(p)), c.At, c.At+size)
			}
			g.fill(at-c.At, p)
		}
		got, err := packedrtree.Seek(vseek{s}, int(g.N), g.NS, q.box())
		if err != nil {
			x.Failf("Seek %v in an index of %+v: %v", q, c.G, err)
		}
		want := checkSpot(x, g, sp, got)
		x.LabelIf(want > 1, "several hits")
		if s.pos != c.At+size {
			x.Failf("Seek leaves the stream at %d, the index ends at %d", s.pos, c.At+size)
		}
	}
}

func bitLen(n int64) int { return big.NewInt(n).BitLen() }

func checkSpot(x *Ctx, g *grid, sp Spot, got packedrtree.Results) int {
	q := sp.query(g.Grid)
	want := g.hits(q)
	for i := 0; i < len(got) && i < len(want); i++ {
		if int64(got[i].RefIndex) != want[i] || got[i].Offset != g.offset(want[i]) {
			x.Failf("Seek %v in %+v: result %d is %+v, want reference %d at %d", q, g.Grid, i, got[i], want[i], g.offset(want[i]))
		}
	}
	if len(got) != len(want) {
		x.Failf("Seek %v in %+v: %d results, want %d", q, g.Grid, len(got), len(want))
	}
	return len(want)
}

// HugeOp is a call on the reader of a huge file.
type HugeOp struct {
	K string // search, data, rewind, rem
	S Spot
	N int
}

// HugeFile is a file of G.N features whose sizes repeat.
type HugeFile struct {
	G       Grid // NS 0: no index
	At      int64
	Sizes   []int64
	Rev     bool // the index is in reverse order of the file
	Unknown bool // the header does not give the number of features
	Seek    bool
	Most    int
	Ops     []HugeOp
}

type hugeFile struct {
	*HugeFile
	head    []byte
	g       *grid
	index   int64 // bytes
	data    int64 // position
	cycle   int64
	starts  []int64
	feature []byte
	marker  int
}

func (c *HugeFile) open() *hugeFile {
	f := &hugeFile{HugeFile: c}
	h := Header{Name: []byte("huge"), NodeSize: ptr(c.G.NS)}
	if !c.Unknown {
		h.FeaturesCount = ptr(uint64(c.G.N))
	}
	f.head = append(magicBytes(1), encodeSizePrefixed(h.tab(), Layout{})...)
	for _, n := range c.Sizes {
		f.starts = append(f.starts, f.cycle)
		f.cycle += n
	}
	f.data = c.At + int64(len(f.head))
	if c.G.NS >= 2 && !c.Unknown {
		f.g = c.G.open(func(i int64) int64 { return f.offset(f.leaf(i)) })
		f.index = f.g.total * 40
		f.data += f.index
	}
	ft := Feature{Props: []byte("VerifMrk"), Geom: &Geometry{XY: []F{1, 2}}}
	f.feature = ft.bytes()
	f.marker = bytes.Index(f.feature, ft.Props)
	return f
}

// leaf is the feature to which reference i belongs.
func (f *hugeFile) leaf(i int64) int64 {
	if f.Rev {
		return f.G.N - 1 - i
	}
	return i
}

func (f *hugeFile) offset(i int64) int64 {
	k := int64(len(f.Sizes))
	return i/k*f.cycle + f.starts[i%k]
}

func (f *hugeFile) length(i int64) int64 { return f.Sizes[i%int64(len(f.Sizes))] }

func (f *hugeFile) fill(at int64, p []byte) {
	for len(p) > 0 {
		n := 0
		switch h := f.At + int64(len(f.head)); {
		case at < f.At:
			panic(violation{"reads before the start of the file"})
		case at < h:
			n = copy(p, f.head[at-f.At:])
		case at < f.data:
			n = int(min(int64(len(p)), f.data-at))
			f.g.fill(at-h, p[:n])
		default:
			rel := at - f.data
			i := rel / f.cycle * int64(len(f.Sizes))
			in := rel % f.cycle
			for in >= f.length(i) {
				in -= f.length(i)
				i++
			}
			n = int(min(int64(len(p)), f.length(i)-in))
			q := p[:n]
			if in < int64(len(f.feature)) {
				b := append([]byte{}, f.feature...)
				le.PutUint32(b, uint32(f.length(i)-4))
				le.PutUint64(b[f.marker:], uint64(i))
				q = q[copy(q, b[in:]):]
			}
			clear(q)
		}
		p, at = p[n:], at+int64(n)
	}
}

func (f *hugeFile) check(x *Ctx, what string, ft *flat.Feature, i int64) {
	b := append([]byte{}, f.feature...)
	le.PutUint32(b, uint32(f.length(i)-4))
	le.PutUint64(b[f.marker:], uint64(i))
	t := ft.Table()
	if int64(len(t.Bytes)) != f.length(i) || !bytes.Equal(t.Bytes[:len(b)], b) {
		x.Failf("%s: want feature %d of length %d, got %d bytes starting % x, want % x", what, i, f.length(i), len(t.Bytes), t.Bytes[:min(len(b), len(t.Bytes))], b)
	}
	if p := ft.PropertiesBytes(); !bytes.Equal(p, b[f.marker:f.marker+8]) {
		x.Failf("%s: properties of feature %d are % x", what, i, p)
	}
}

func runHugeFile(c HugeFile, x *Ctx) {
	f := c.open()
	n := c.G.N
	end := f.data + f.offset(n)
	s := &vstream{pos: c.At, size: end, most: c.Most, fill: f.fill, steps: 3000000}
	s.steps += int((f.index + f.offset(n)) >> 8 & (1<<28 - 1))
	var r *flatgeobuf.FileReader
	if c.Seek {
		r = flatgeobuf.NewFileReader(vseek{s})
	} else {
		r = flatgeobuf.NewFileReader(vread{s})
	}
	h, err := r.Header()
	if int64(int(n)) != n && !c.Unknown {
		if err == nil {
			x.Failf("Header accepts %d features", n)
		}
		x.Label("does not fit this host")
		return
	}
	if err != nil || h == nil {
		x.Failf("Header: %v, %v", h, err)
	}
	if s.pos != c.At+int64(len(f.head)) {
		x.Failf("Header leaves the stream at %d, it ends at %d", s.pos, c.At+int64(len(f.head)))
	}
	if f.cycle > 1<<30 {
		defer moreMemory()()
	}
	fits := int64(int(f.index)) == f.index
	x.LabelIf(f.index > 1<<32, "index over 2^32 bytes")
	x.LabelIf(f.offset(n) > 1<<32, "data over 2^32 bytes")
	x.LabelIf(c.At >= 1<<31, "file beyond 2^31")
	x.LabelIf(n > 1<<32, "over 2^32 features")
	x.LabelIf(!c.Seek, "not seekable")
	at, done := int64(0), false
	var buf []flat.Feature
	for i, op := range c.Ops {
		what := fmt.Sprintf("call %d of %v", i, c.Ops)
		switch op.K {
		case "search":
			fs, err := r.IndexSearch(op.S.query(c.G).box())
			if !fits && err != nil {
				x.Label("does not fit this host")
				return
			}
			if f.g == nil {
				if err != flatgeobuf.ErrNoIndex {
					x.Failf("%s: %v", what, err)
				}
				break
			}
			if err != nil {
				x.Failf("%s: %v", what, err)
			}
			var want []int64
			for _, k := range f.g.hits(op.S.query(c.G)) {
				want = append(want, f.leaf(k))
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if len(fs) != len(want) {
				x.Failf("%s: %d features, want %d", what, len(fs), len(want))
			}
			for k := range fs {
				f.check(x, what, &fs[k], want[k])
			}
			x.LabelIf(len(want) > 0 && f.offset(want[len(want)-1]) > 1<<32, "feature beyond 2^32 found")
			done = true
		case "data":
			for len(buf) < op.N {
				buf = append(buf, flat.Feature{})
			}
			want := min(int64(op.N), n-at)
			if done {
				want = 0
			}
			k, err := r.Data(buf[:op.N])
			if !fits && err != nil {
				x.Label("does not fit this host")
				return
			}
			end := done || !c.Unknown && at+want == n || c.Unknown && at+int64(op.N) > n
			if int64(k) != want || end && err != io.EOF || !end && err != nil {
				x.Failf("%s: %d features, %v, want %d", what, k, err, want)
			}
			for j := 0; j < k; j++ {
				f.check(x, what, &buf[j], at+int64(j))
				buf[j] = flat.Feature{}
			}
			at += want
			done = done || end
			x.LabelIf(f.offset(at) > 1<<32, "read beyond 2^32")
		case "rem":
			fs, err := r.DataRem()
			if err != nil || int64(len(fs)) != n-at {
				x.Failf("%s: %d features, %v, want %d", what, len(fs), err, n-at)
			}
			for j := range fs {
				f.check(x, what, &fs[j], at+int64(j))
			}
			at, done = n, true
		case "rewind":
			if err := r.Rewind(); err != nil {
				x.Failf("%s: %v", what, err)
			}
			at, done = 0, false
		}
	}
	x.NT()
}

func drawHugeFile(t *rapid.T) HugeFile {
	c := HugeFile{G: drawGrid(t), Seek: true, Most: pick(t, []int{0, 0, 4096, 100}, "most"), Rev: drawBool(t, "rev")}
	if c.G.NS > 10000 {
		c.Most = 0
	}
	c.At = pick(t, []int64{0, 8, 1 << 31, 1<<32 - 20, 1<<32 + 5, 1 << 40}, "at")
	for i := drawInt(t, 1, 3, "nsizes"); i > 0; i-- {
		c.Sizes = append(c.Sizes, int64(pick(t, []int{128, 132, 200, 1000, 8096, 100000}, "size")))
	}
	if oneIn(t, 6, "noindex") {
		c.G.NS, c.Rev = 0, false
	}
	// The whole file has to be shorter than 2⁶³ bytes.
	for c.G.N > 1<<53/c.Sizes[0] || c.G.N > 1<<44 {
		c.G.N /= 2
	}
	if c.G.W > c.G.N {
		c.G.W = c.G.N
	}
	for i := drawInt(t, 1, 4, "rounds"); i > 0; i-- {
		if c.G.NS > 0 && !oneIn(t, 3, "seq") {
			c.Ops = append(c.Ops, HugeOp{K: "search", S: drawSpot(t, c.G)})
		} else {
			for j := drawInt(t, 1, 3, "reads"); j > 0; j-- {
				c.Ops = append(c.Ops, HugeOp{K: "data", N: pick(t, []int{1, 2, 5, 40}, "n")})
			}
		}
		c.Ops = append(c.Ops, HugeOp{K: "rewind"})
	}
	return c
}

const mib = int64(1 << 20)

func fixedHugeFiles() []HugeFile {
	last := func(n int64) []HugeOp {
		return []HugeOp{{K: "search", S: Spot{At: n - 1}}}
	}
	r := []HugeFile{
		// Streams which cannot seek: over 4 GiB of features, and of index,
		// have to be read over.
		{G: Grid{N: 4500, W: 10, NS: 16}, Sizes: []int64{mib, mib - 100}, Ops: last(4500)},
		{G: Grid{N: 120 << 20, W: 1000, NS: 16}, Sizes: []int64{200, 128}, Ops: []HugeOp{{K: "data", N: 3}, {K: "data", N: 2}}},
	}
	if strconv.IntSize == 64 {
		for _, seek := range []bool{true, false} {
			// Features of over 2 GiB, and over 4 GiB read in sequence.
			r = append(r,
				HugeFile{G: Grid{N: 3, W: 1, NS: 0}, Seek: seek, Sizes: []int64{200, 1<<31 + 100, 1000}, Ops: []HugeOp{{K: "data", N: 1}, {K: "data", N: 1}, {K: "data", N: 2}}},
				HugeFile{G: Grid{N: 4500, W: 10, NS: 16}, Seek: seek, Unknown: true, Sizes: []int64{mib, mib - 100}, Ops: manyReads(100, 46)},
			)
		}
	}
	return r
}

func manyReads(n, times int) (ops []HugeOp) {
	for i := 0; i < times; i++ {
		ops = append(ops, HugeOp{K: "data", N: n})
	}
	return
}

// HugeWrite is a file of features of which some share one big array.
type HugeWrite struct {
	Big   int64 // length of the big feature
	Which []int // feature numbers in order: 0 the big one, others small
	How   int   // 0 IndexDataPtr, 1 IndexData, 2 Index and Data, 3 Data without an index
	NS    uint16
}

// hugeSink takes a file and forgets it, except for what it needs.
type hugeSink struct {
	n     int64
	head  []byte // the beginning
	max   int
	feed  func(p []byte)
	calls int
}

func (s *hugeSink) Write(p []byte) (int, error) {
	s.calls++
	k := len(p)
	s.n += int64(k)
	if m := s.max - len(s.head); m > 0 {
		m = min(m, len(p))
		s.head = append(s.head, p[:m]...)
		p = p[m:]
	}
	if len(p) > 0 {
		s.feed(p)
	}
	return k, nil
}

var untouchedBytes []byte

// untouched is a slice of zero bytes, of which all but the first 4 KiB must
// not be changed. It takes no memory, and is always the same.
func untouched(n int64) []byte {
	if untouchedBytes == nil {
		size := int64(10) << 30
		b, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			harnessFail("mmap: %v", err)
		}
		untouchedBytes = b
	}
	clear(untouchedBytes[:4096])
	return untouchedBytes[:n:n]
}

// moreMemory raises the soft memory limit for a case.
func moreMemory() func() {
	old := debug.SetMemoryLimit(12 << 30)
	return func() {
		debug.SetMemoryLimit(old)
		debug.FreeOSMemory()
	}
}

func runHugeWrite(c HugeWrite, x *Ctx) {
	mk := func(i int, size int64) []byte {
		ft := Feature{Props: []byte(fmt.Sprintf("feature%0200d", i)), Geom: &Geometry{XY: []F{F(i), F(10 * i)}}}
		b := ft.bytes()
		if size > 0 {
			big := untouched(size)
			copy(big, b)
			le.PutUint32(big, uint32(size-4))
			return big
		}
		return b
	}
	n := len(c.Which)
	enc := map[int][]byte{}
	for _, i := range c.Which {
		if enc[i] == nil {
			enc[i] = mk(i, map[bool]int64{true: c.Big}[i == 0])
		}
	}
	var fs []flat.Feature
	var boxes []Box4
	total := int64(0)
	for _, i := range c.Which {
		fs = append(fs, *flat.GetSizePrefixedRootAsFeature(enc[i], 0))
		boxes = append(boxes, Box4{float64(i), float64(10 * i), float64(i), float64(10 * i)})
		total += int64(len(enc[i]))
	}
	x.LabelIf(total > 1<<32, "file over 2^32 bytes")
	if c.How == 3 {
		c.NS = 0
	}
	h := Header{Name: []byte("h"), FeaturesCount: ptr(uint64(n)), NodeSize: ptr(c.NS)}
	hb := encodeSizePrefixed(h.tab(), Layout{})
	headLen := 8 + len(hb)
	indexLen := 0
	if c.NS > 0 {
		for _, k := range refLevels(n, int(c.NS)) {
			indexLen += 40 * k
		}
	}
	s := &hugeSink{max: headLen + indexLen}
	// The data section consists of these features in some order; which one
	// comes next shows in its first bytes.
	var order []int
	var cur []byte
	var first []byte
	at := 0
	s.feed = func(p []byte) {
		for len(p) > 0 {
			if cur == nil {
				// Find out which feature starts here.
				k := min(len(p), 200-len(first))
				first = append(first, p[:k]...)
				if len(first) < 200 {
					return
				}
				for i, e := range enc {
					if bytes.Equal(e[:200], first) {
						cur = e
						order = append(order, i)
					}
				}
				if cur == nil {
					x.Failf("feature %d of the data section starts with % x", len(order), first)
				}
				at = 200
				p = p[k:]
				first = nil
				continue
			}
			k := min(len(p), len(cur)-at)
			if unsafe.SliceData(p) != unsafe.SliceData(cur[at:]) && !bytes.Equal(p[:k], cur[at:at+k]) {
				x.Failf("wrong bytes in feature %d of the data section", len(order)-1)
			}
			at += k
			p = p[k:]
			if at == len(cur) {
				cur = nil
			}
		}
	}
	w := flatgeobuf.NewFileWriter(s)
	reported := int64(0)
	did := func(what string, n int, err error) {
		if err != nil {
			x.Failf("%s: %v", what, err)
		}
		reported += int64(n)
		if reported != s.n {
			x.Failf("after %s %d bytes are reported, %d written", what, reported, s.n)
		}
	}
	k, err := w.Header(flat.GetSizePrefixedRootAsHeader(hb, 0))
	did("Header", k, err)
	switch c.How {
	case 0:
		var ps []*flat.Feature
		for i := range fs {
			ps = append(ps, &fs[i])
		}
		k, err = w.IndexDataPtr(ps)
		did("IndexDataPtr", k, err)
	case 1:
		k, err = w.IndexData(fs)
		did("IndexData", k, err)
	case 2:
		var refs []packedrtree.Ref
		off := int64(0)
		for i := range fs {
			refs = append(refs, packedrtree.Ref{Box: boxes[i].box(), Offset: off})
			off += int64(len(enc[c.Which[i]]))
		}
		prt := mustNew(x, refs, c.NS)
		k, err = w.Index(prt)
		did("Index", k, err)
	}
	if c.How >= 2 {
		for i := range fs {
			k, err = w.Data(&fs[i])
			did("Data", k, err)
		}
	}
	if err = w.Close(); err != nil {
		x.Failf("Close: %v", err)
	}
	if want := int64(headLen+indexLen) + total; s.n != want {
		x.Failf("%d bytes written, want %d", s.n, want)
	}
	if !bytes.Equal(s.head[8:headLen], hb) {
		x.Failf("the header is not the one given")
	}
	if cur != nil || len(order) != n {
		x.Failf("the data section has %d features, the last one complete: %v; want %d", len(order), cur == nil, n)
	}
	given := append([]int{}, c.Which...)
	if c.How >= 2 && fmt.Sprint(order) != fmt.Sprint(given) {
		x.Failf("features are written in the order %v, want %v", order, given)
	}
	if c.NS > 0 {
		leaves := s.head[headLen+indexLen-40*n:]
		off := map[int64]int{}
		pos := int64(0)
		for i, k := range order {
			off[pos] = i
			pos += int64(len(enc[k]))
		}
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			l := leaves[40*i:]
			o := int64(le.Uint64(l[32:]))
			k, ok := off[o]
			if !ok || seen[k] {
				x.Failf("leaf %d refers to offset %d, the features are at %v (sizes %d and small)", i, o, off, c.Big)
			}
			seen[k] = true
			if g, want := math.Float64frombits(le.Uint64(l)), float64(order[k]); g != want {
				x.Failf("leaf %d has x %v, the feature at its offset %d has %v", i, g, o, want)
			}
		}
	}
	sort.Ints(order)
	sort.Ints(given)
	if fmt.Sprint(order) != fmt.Sprint(given) {
		x.Failf("features %v are written, want %v", order, given)
	}
	x.NT()
}

func drawHugeWrite(t *rapid.T) HugeWrite {
	c := HugeWrite{Big: pick(t, []int64{1 << 31, 1<<31 + 1000, 1<<31 - 4, 1<<30 + 7<<27, 3 << 29, 3 << 30, 1<<32 - 8}, "big"), How: drawInt(t, 0, 3, "how"), NS: pick(t, []uint16{2, 3, 16}, "ns")}
	for i := drawInt(t, 2, 9, "n"); i > 0; i-- {
		c.Which = append(c.Which, pick(t, []int{0, 0, 1, 2, 3, 4, 5}, "which"))
	}
	return c
}

func fixedHugeWrites() (r []HugeWrite) {
	for how := 0; how < 4; how++ {
		r = append(r,
			HugeWrite{Big: 3 << 29, Which: []int{1, 0, 0, 0, 2, 3, 0, 4}, How: how, NS: 2},
			HugeWrite{Big: 1<<31 + 500, Which: []int{0, 0, 5, 1, 0}, How: how, NS: 16},
			HugeWrite{Big: 1<<32 - 4, Which: []int{2, 0, 1, 0, 3}, How: how, NS: 16})
	}
	return
}

// HugeValue is a property value of a length around or above 2³¹ or 2³².
type HugeValue struct {
	Len  int64
	Text bool
	Read bool
	Most int
}

func runHugeValue(c HugeValue, x *Ctx) {
	x.NT()
	if c.Read {
		defer moreMemory()()
		s := &vstream{size: c.Len + 4 + 1, most: c.Most, steps: 100000000}
		s.fill = func(at int64, p []byte) {
			clear(p)
			for i := range p {
				if at+int64(i) >= 4 {
					break
				}
				p[i] = byte(c.Len >> (8 * (at + int64(i))))
			}
			if e := at + int64(len(p)); e == c.Len+5 {
				p[len(p)-1] = 77
			}
			// A mark near the end of the value.
			if m := c.Len + 4 - 1; at <= m && m < at+int64(len(p)) {
				p[m-at] = 99
			}
		}
		r := flatgeobuf.NewPropReader(vread{s})
		var last byte
		var n int
		var err error
		if c.Text {
			var v string
			if v, err = r.ReadString(); err == nil {
				n = len(v)
				last = v[n-1]
			}
		} else {
			var v []byte
			if v, err = r.ReadBinary(); err == nil {
				n = len(v)
				last = v[n-1]
			}
		}
		if err != nil || int64(n) != c.Len || last != 99 {
			x.Failf("reading a value of %d bytes: %d bytes, %v", c.Len, n, err)
		}
		if b, err := r.ReadUByte(); err != nil || b != 77 {
			x.Failf("reading on after a value of %d bytes: %d, %v", c.Len, b, err)
		}
		return
	}
	big := untouched(c.Len)
	s := &hugeSink{max: 4}
	at := int64(0)
	s.feed = func(p []byte) {
		if unsafe.SliceData(p) != unsafe.SliceData(big[at:]) && !bytes.Equal(p, big[at:at+int64(len(p))]) {
			x.Failf("wrong bytes at %d", at)
		}
		at += int64(len(p))
	}
	w := flatgeobuf.NewPropWriter(s)
	var n int
	var err error
	if c.Text {
		n, err = w.WriteString(unsafe.String(&big[0], len(big)))
	} else {
		n, err = w.WriteBinary(big)
	}
	if c.Len > math.MaxUint32 {
		if err == nil || n != 0 || s.n != 0 {
			x.Failf("writing a value of %d bytes, which cannot be represented: %d, %v, %d bytes written", c.Len, n, err, s.n)
		}
		x.Label("refused")
		return
	}
	if err != nil || int64(n) != c.Len+4 || s.n != c.Len+4 || int64(le.Uint32(s.head)) != c.Len {
		x.Failf("writing a value of %d bytes: %d, %v, %d bytes written starting % x", c.Len, n, err, s.n, s.head)
	}
}

func hugeValues() (r []HugeValue) {
	if strconv.IntSize < 64 {
		return
	}
	for _, text := range []bool{false, true} {
		for _, n := range []int64{1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 5, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 7, 1<<33 + 3} {
			r = append(r, HugeValue{Len: n, Text: text})
		}
		r = append(r, HugeValue{Len: 1<<31 + 3, Text: text, Read: true, Most: 1 << 20 * b2i(text)})
	}
	return
}

// HugeTree is an index of over 2³¹ bytes in memory.
type HugeTree struct {
	G       Grid
	Queries []Spot
}

func runHugeTree(c HugeTree, x *Ctx) {
	g := c.G.open(func(i int64) int64 { return i * 100 })
	size := g.total * 40
	defer moreMemory()()
	s := &vstream{size: size + 100, fill: g.fill, steps: 3000000}
	prt, err := packedrtree.Unmarshal(vread{s}, int(g.N), g.NS)
	if err != nil || prt == nil {
		x.Failf("Unmarshal of %+v: %v", c.G, err)
	}
	if s.pos != size {
		x.Failf("Unmarshal of %+v consumes %d bytes, want %d", c.G, s.pos, size)
	}
	for _, sp := range c.Queries {
		var want []hit
		for _, i := range g.hits(sp.query(c.G)) {
			want = append(want, hit{i * 100, int(i)})
		}
		if got := byIdx(toHits(prt.Search(sp.query(c.G).box()))); !sameHits(got, want) {
			x.Failf("Search %v in %+v: %s, want %s", sp.query(c.G), c.G, describe(got), describe(want))
		}
	}
	// Written back.
	at := int64(0)
	out := &hugeSink{}
	b := make([]byte, 1<<20)
	out.feed = func(p []byte) {
		for len(p) > 0 {
			k := min(len(p), len(b))
			g.fill(at, b[:k])
			if !bytes.Equal(b[:k], p[:k]) {
				x.Failf("Marshal of %+v: wrong bytes in %d..%d", c.G, at, at+int64(k))
			}
			at, p = at+int64(k), p[k:]
		}
	}
	n, err := prt.Marshal(out)
	if err != nil || int64(n) != size || out.n != size {
		x.Failf("Marshal of %+v: %d, %v, %d bytes written, want %d", c.G, n, err, out.n, size)
	}
	x.NT()
}

func hugeTrees() (r []HugeTree) {
	if strconv.IntSize < 64 {
		return
	}
	for _, g := range []Grid{{N: 51<<20 + 77, W: 5003, NS: 16}} {
		r = append(r, HugeTree{G: g, Queries: []Spot{{At: 0}, {At: g.N - 1, DY: 5}, {At: g.N - 40, DX: 2, DY: 3}, {At: g.N / 2, DX: 1, DY: 1}}})
	}
	return
}

func (s *Sub) only64() *Sub {
	s.Only64 = true
	return s
}

// hugeSubs are some of the cases of L01 for the properties which they also
// concern.
func hugeSubs(id string) []*Sub {
	switch id {
	case "T02":
		return []*Sub{sub("huge", 3000, 100000, drawHugeIndex, runHugeIndex)}
	case "R01", "R02":
		return []*Sub{sub("huge", 3000, 100000, drawHugeFile, runHugeFile)}
	case "W02":
		return []*Sub{sub("huge", 3000, 100000, drawHugeWrite, runHugeWrite, fixedHugeWrites).only64()}
	case "Q01":
		return []*Sub{sub("huge", 0, 0, nil, runHugeValue, func() (r []HugeValue) {
			for _, v := range hugeValues() {
				if !v.Read {
					r = append(r, v)
				}
			}
			return
		}).only64()}
	}
	return nil
}

// addHuge adds these cases; it runs after all properties are registered.
func addHuge() {
	for id, p := range props {
		p.Subs = append(p.Subs, hugeSubs(id)...)
		for _, s := range p.Subs {
			s.Heavy = s.Heavy || s.Name == "huge" || id == "L01"
		}
	}
}

func init() {
	register(&Prop{ID: "L01", Rule: "rapid draws indexes of 2^25 to 2^57 references on a grid, whose nodes are computed as they are read, at positions up to 2^40 in the stream, with queries around drawn references; files of up to 2^44 features computed the same way, with searches, reading and rewinding; files written from features which share one untouched array of up to 4 GiB; and enumerates property values and single features of lengths around 2^31 and 2^32, an index of over 2 GiB in memory, and streams which cannot seek with over 4 GiB to pass over. Oracle: arithmetic on the grid. Non-trivial: the size fits in an int.",
		Subs: []*Sub{
			sub("index", 24000, 900000, drawHugeIndex, runHugeIndex),
			sub("files", 16000, 600000, drawHugeFile, runHugeFile, fixedHugeFiles),
			sub("write", 8000, 400000, drawHugeWrite, runHugeWrite, fixedHugeWrites).only64(),
			sub("values", 0, 0, nil, runHugeValue, hugeValues).only64(),
			sub("memory", 0, 0, nil, runHugeTree, hugeTrees).only64(),
		}})
}
