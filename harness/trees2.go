package main

// T04..T06: index size, Hilbert sort, boxes.

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

type SizeCase struct {
	NumRefs  int64
	NodeSize uint16
}

func drawSizeCase(t *rapid.T) SizeCase {
	c := SizeCase{NodeSize: drawNodeSize(t)}
	if oneIn(t, 6, "anyns") {
		c.NodeSize = uint16(drawUint(t, 0, math.MaxUint16, "ns"))
	} else if oneIn(t, 20, "smallns") {
		c.NodeSize = uint16(drawInt(t, 0, 2, "ns"))
	}
	switch drawInt(t, 0, 7, "k") {
	case 0:
		c.NumRefs = int64(drawInt(t, -2, 3, "n"))
	case 1:
		c.NumRefs = int64(drawInt(t, 1, 3000, "n"))
	case 2: // around powers of the node size
		p := new(big.Int).Exp(big.NewInt(int64(max(2, c.NodeSize))), big.NewInt(int64(drawInt(t, 1, 62, "e"))), nil)
		if !p.IsInt64() {
			p.SetInt64(math.MaxInt64)
		}
		c.NumRefs = p.Int64()
		if d := int64(drawInt(t, -1, 1, "d")); d <= 0 || c.NumRefs < math.MaxInt64 {
			c.NumRefs += d
		}
	case 3: // around the largest count that fits
		lo, hi := int64(1), int64(math.MaxInt)
		limit := big.NewInt(math.MaxInt / 40)
		for ns := int64(max(2, c.NodeSize)); lo < hi; {
			mid := lo + (hi-lo)/2 + (hi-lo)%2
			if refNumNodes(big.NewInt(mid), ns).Cmp(limit) <= 0 {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		c.NumRefs = lo + int64(drawInt(t, -3, 3, "d"))
	case 4:
		c.NumRefs = math.MaxInt - int64(drawInt(t, 0, 100, "d"))
	case 5:
		c.NumRefs = math.MaxInt/40 - 50 + int64(drawInt(t, 0, 100, "d"))
	case 6: // around powers of two
		c.NumRefs = int64(1)<<drawInt(t, 0, 62, "sh") + int64(drawInt(t, -2, 2, "d"))
	default:
		c.NumRefs = int64(drawUint(t, 0, math.MaxUint64, "u") >> drawInt(t, 1, 40, "s"))
	}
	if c.NumRefs > math.MaxInt {
		c.NumRefs = math.MaxInt
	}
	return c
}

func runT04(c SizeCase, x *Ctx) {
	var got int
	var err error
	r, did := panics(func() { got, err = packedrtree.Size(int(c.NumRefs), c.NodeSize) })
	if c.NumRefs < 1 || c.NodeSize < 2 {
		x.Label("invalid parameters")
		if !did {
			x.Failf("Size(%d, %d) does not panic", c.NumRefs, c.NodeSize)
		}
		// The functions which need the size take no such parameters either.
		n := int(c.NumRefs)
		if n >= 0 && n <= 3000 {
			if _, did := panics(func() { packedrtree.New(make([]packedrtree.Ref, n), c.NodeSize) }); !did {
				x.Failf("New with %d references and node size %d does not panic", n, c.NodeSize)
			}
		}
		zero := make([]byte, 4000)
		if _, did := panics(func() { _, err = packedrtree.Unmarshal(bytes.NewReader(zero), n, c.NodeSize) }); !did && err == nil {
			x.Failf("Unmarshal(%d, %d) neither panics nor returns an error", n, c.NodeSize)
		}
		if _, did := panics(func() { _, err = packedrtree.Seek(bytes.NewReader(zero), n, c.NodeSize, packedrtree.EmptyBox) }); !did && err == nil {
			x.Failf("Seek(%d, %d) neither panics nor returns an error", n, c.NodeSize)
		}
		return
	}
	if did {
		x.Failf("Size(%d, %d) panics: %v", c.NumRefs, c.NodeSize, r)
	}
	want := refNumNodes(big.NewInt(c.NumRefs), int64(c.NodeSize))
	want.Mul(want, big.NewInt(40))
	x.LabelIf(c.NumRefs > int64(c.NodeSize), "several levels")
	if want.Cmp(big.NewInt(math.MaxInt)) > 0 {
		x.Label("not representable")
		x.NT()
		if err == nil {
			x.Failf("Size(%d, %d) is %d, want an error since the size is %v", c.NumRefs, c.NodeSize, got, want)
		}
		// The functions which need the size refuse as well.
		if prt, err := packedrtree.Unmarshal(bytes.NewReader(nil), int(c.NumRefs), c.NodeSize); err == nil {
			x.Failf("Unmarshal(%d, %d) returns %v without an error", c.NumRefs, c.NodeSize, prt)
		}
		if rs, err := packedrtree.Seek(bytes.NewReader(nil), int(c.NumRefs), c.NodeSize, packedrtree.EmptyBox); err == nil {
			x.Failf("Seek(%d, %d) returns %v without an error", c.NumRefs, c.NodeSize, rs)
		}
		return
	}
	if c.NumRefs > int64(c.NodeSize) {
		x.NT()
	}
	if err != nil {
		x.Failf("Size(%d, %d): %v, want %v", c.NumRefs, c.NodeSize, err, want)
	}
	if want.Cmp(big.NewInt(int64(got))) != 0 {
		x.Failf("Size(%d, %d) is %d, want %v", c.NumRefs, c.NodeSize, got, want)
	}
	if c.NumRefs <= 3000 {
		x.Label("compared with a serialized index")
		prt := mustNew(x, make([]packedrtree.Ref, c.NumRefs), c.NodeSize)
		var out bytes.Buffer
		if n, err := prt.Marshal(&out); err != nil || n != got || out.Len() != got {
			x.Failf("Size(%d, %d) is %d, but Marshal wrote %d bytes and returned %d, %v", c.NumRefs, c.NodeSize, got, out.Len(), n, err)
		}
	}
}

// HilbertCase: references on a grid whose cell centres are far from any
// rounding boundary, or arbitrary floats.
type HilbertCase struct {
	Cells  [][2]uint16 // grid cells, if Exact
	More   int         `json:",omitempty"` // that many further cells,
	MulX   int         `json:",omitempty"` // each by these steps
	MulY   int         `json:",omitempty"` // from the one before
	X0, Y0 int
	KX, KY int // log2 of the cell size
	Spread int // half size of the boxes around the cell centres, in 1/4 cells
	Refs   []RRef
	FlatX  bool // zero width
	FlatY  bool
}

func drawHilbertCase(t *rapid.T) HilbertCase {
	var c HilbertCase
	if drawBool(t, "general") {
		l := drawRefList(t, 16, 40, 0)
		c.Refs = l.Refs
		return c
	}
	c.X0, c.Y0 = drawInt(t, -100, 100, "x0"), drawInt(t, -100, 100, "y0")
	c.KX, c.KY = drawInt(t, -3, 6, "kx"), drawInt(t, -3, 6, "ky")
	c.FlatX, c.FlatY = oneIn(t, 8, "flatx"), oneIn(t, 8, "flaty")
	mask := uint16(0xFFFF)
	if drawBool(t, "coarse") {
		mask <<= drawInt(t, 8, 15, "bits")
	}
	for i := drawInt(t, 1, 40, "n"); i > 0; i-- {
		c.Cells = append(c.Cells, [2]uint16{uint16(drawUint(t, 0, math.MaxUint16, "hx")) & mask, uint16(drawUint(t, 0, math.MaxUint16, "hy")) & mask})
	}
	if oneIn(t, 150, "more") {
		c.More = drawInt(t, 100, 6000, "nmore")
		c.MulX, c.MulY = drawInt(t, 0, 65535, "mulx"), drawInt(t, 0, 65535, "muly")
	}
	return c
}

// cellRef places a point box at the centre of a grid cell; cells 0 and
// 65535 are placed on the boundary of the bounds.
func (c *HilbertCase) coord(cell uint16, x0, k int, flat bool) float64 {
	unit := math.Ldexp(1, k)
	if flat {
		return float64(x0) * unit
	}
	switch cell {
	case 0:
		return float64(x0) * unit
	case 65535:
		return (float64(x0) + 65535) * unit
	}
	return (float64(x0) + float64(cell) + 0.5) * unit
}

// scaled computes the scaled coordinate of a centre and whether rounding
// could put it into a different cell.
func scaled(lo, hi, min, max float64) (cell uint32, certain bool) {
	w := max - min
	if w == 0 {
		return 0, true
	}
	if math.IsInf(w, 0) || math.IsInf(lo+hi, 0) || math.IsNaN(lo+hi) {
		return 0, false
	}
	mid := (lo + hi) / 2
	v := 65535 * ((mid - min) / w)
	if mid == min && lo == hi {
		return 0, true
	}
	if mid == max && lo == hi {
		return 65535, true
	}
	margin := 1e-9 + 65535*8e-16*(math.Abs(lo)+math.Abs(hi)+math.Abs(min)+math.Abs(max)+w)/w
	if math.IsNaN(v) || margin > 0.25 || v-margin < math.Floor(v) || v+margin >= math.Floor(v)+1 || v < 0 || v >= 65535 {
		return 0, false
	}
	if math.Abs(w) < 1e-300 {
		return 0, false
	}
	return uint32(math.Floor(v)), true
}

func runT05(c HilbertCase, x *Ctx) {
	var refs []packedrtree.Ref
	var bounds Box4
	if c.Refs == nil {
		bounds = Box4{c.coord(0, c.X0, c.KX, c.FlatX), c.coord(0, c.Y0, c.KY, c.FlatY), c.coord(65535, c.X0, c.KX, c.FlatX), c.coord(65535, c.Y0, c.KY, c.FlatY)}
		cells := append([][2]uint16{}, c.Cells...)
		for i := 0; i < c.More; i++ {
			last := cells[len(cells)-1]
			cells = append(cells, [2]uint16{last[0] + uint16(c.MulX), last[1] + uint16(c.MulY)})
		}
		for i, cell := range cells {
			px, py := c.coord(cell[0], c.X0, c.KX, c.FlatX), c.coord(cell[1], c.Y0, c.KY, c.FlatY)
			refs = append(refs, packedrtree.Ref{Box: Box4{px, py, px, py}.box(), Offset: int64(i)})
		}
		// Two references span the bounds.
		refs = append(refs, packedrtree.Ref{Box: Box4{bounds[0], bounds[1], bounds[0], bounds[1]}.box(), Offset: -1},
			packedrtree.Ref{Box: Box4{bounds[2], bounds[3], bounds[2], bounds[3]}.box(), Offset: -2})
	} else {
		bounds = emptyBox4
		for i := range c.Refs {
			refs = append(refs, packedrtree.Ref{Box: c.Refs[i].B.b().box(), Offset: int64(i)})
			bounds = bounds.union(c.Refs[i].B.b())
		}
	}
	orig := append([]packedrtree.Ref{}, refs...)
	packedrtree.HilbertSort(refs, bounds.box())
	// The result is a permutation: offsets are unique.
	seen := map[int64]bool{}
	for i := range refs {
		o := refs[i].Offset
		k := int(o)
		if c.Refs == nil && o < 0 {
			k = len(orig) - 3 - int(o)
			if o == -1 {
				k = len(orig) - 2
			} else {
				k = len(orig) - 1
			}
		}
		if seen[o] || k < 0 || k >= len(orig) || orig[k].Offset != o || !sameBits(fromBox(orig[k].Box), fromBox(refs[i].Box)) {
			x.Failf("the sorted list is not a permutation of the input: element %d is %v", i, refs[i])
		}
		seen[o] = true
	}
	// Descending curve position, as far as the position is certain.
	last, lastI, n := uint32(0), -1, 0
	distinct := map[uint32]bool{}
	for i := range refs {
		b := fromBox(refs[i].Box)
		hx, okx := scaled(b[0], b[2], bounds[0], bounds[2])
		hy, oky := scaled(b[1], b[3], bounds[1], bounds[3])
		if !okx || !oky {
			x.Label("uncertain position")
			continue
		}
		h := hilbertRef(hx, hy)
		if lastI >= 0 && h > last {
			x.Failf("not in descending Hilbert order: element %d %v has position %d, element %d %v has position %d (bounds %v)", lastI, refs[lastI], last, i, refs[i], h, bounds)
		}
		last, lastI = h, i
		n++
		distinct[h] = true
	}
	x.LabelIf(c.FlatX || c.FlatY, "flat bounds")
	x.LabelIf(len(distinct) < n, "ties")
	if len(distinct) >= 3 {
		x.NT()
	}
	x.Label(fmt.Sprintf("exact=%v", c.Refs == nil))
}

type BoxCase struct {
	Start  RBox
	Ops    []RBox // a box, or a point if Pt
	Pt     []bool
	Perm   []int
	Format RBox
}

func drawBoxCase(t *rapid.T) BoxCase {
	var c BoxCase
	mode := drawMode(t)
	c.Start = RBox{F(math.Inf(1)), F(math.Inf(1)), F(math.Inf(-1)), F(math.Inf(-1))}
	if drawBool(t, "start") {
		c.Start = drawBox(t, mode)
	}
	n := drawInt(t, 0, 8, "n")
	for i := 0; i < n; i++ {
		if drawBool(t, "pt") {
			x, y := F(drawCoord(t, mode)), F(drawCoord(t, mode))
			c.Ops = append(c.Ops, RBox{x, y, x, y})
			c.Pt = append(c.Pt, true)
		} else {
			c.Ops = append(c.Ops, drawBox(t, mode))
			c.Pt = append(c.Pt, false)
		}
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if n > 0 {
		c.Perm = drawPerm(t, idx, "perm")
	}
	c.Format = RBox{drawAnyF(t), drawAnyF(t), drawAnyF(t), drawAnyF(t)}
	return c
}

func sameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func fmtG(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', 8, 64)
}

func fmtBox(b Box4) string {
	return "[" + fmtG(b[0]) + "," + fmtG(b[1]) + "," + fmtG(b[2]) + "," + fmtG(b[3]) + "]"
}

func runT06(c BoxCase, x *Ctx) {
	apply := func(b *packedrtree.Box, i int) {
		o := c.Ops[i].b()
		if c.Pt[i] {
			b.ExpandXY(o[0], o[1])
		} else {
			arg := o.box()
			b.Expand(&arg)
			if !sameBits(fromBox(arg), o) {
				x.Failf("Expand changed its argument from %v to %v", o, arg)
			}
		}
	}
	b := c.Start.b().box()
	want := c.Start.b()
	grew := 0
	for i := range c.Ops {
		w := want.union(c.Ops[i].b())
		if w != want {
			grew++
		}
		want = w
		apply(&b, i)
		if fromBox(b) != want {
			x.Failf("step %d: box is %v, want %v", i, b, want)
		}
	}
	if grew >= 2 {
		x.NT()
	}
	b2 := c.Start.b().box()
	for _, i := range c.Perm {
		apply(&b2, i)
	}
	if fromBox(b2) != want {
		x.Failf("box is %v when expanded in another order, want %v", b2, want)
	}
	if !sameBits(fromBox(packedrtree.EmptyBox), emptyBox4) {
		x.Failf("EmptyBox is %v", packedrtree.EmptyBox)
	}
	for _, v := range []Box4{want, c.Format.b()} {
		p := v.box()
		if !sameF(p.Width(), v[2]-v[0]) || !sameF(p.Height(), v[3]-v[1]) {
			x.Failf("box %v has width %v, height %v", v, p.Width(), p.Height())
		}
		if s := p.String(); s != fmtBox(v) {
			x.Failf("String is %s, want %s", s, fmtBox(v))
		}
		r := packedrtree.Ref{Box: p, Offset: int64(math.Float64bits(v[0]) >> (3 * len(c.Ops)))}
		if s := r.String(); s != fmt.Sprintf("Ref{%s,Offset:%d}", fmtBox(v), r.Offset) {
			x.Failf("String of a reference is %s", s)
		}
		if !sameBits(fromBox(p), v) {
			x.Failf("Width, Height or String changed the box from %v to %v", v, p)
		}
	}
}

func runT06Bounds(c TreeCase, x *Ctx) {
	refs := sortedRefs(&c.L, c.Reverse)
	want := emptyBox4
	for i := range refs {
		want = want.union(fromBox(refs[i].Box))
	}
	n := len(refs)
	prt := mustNew(x, refs, c.NodeSize)
	if c.Scribble {
		for i := range refs {
			refs[i] = packedrtree.Ref{}
		}
	}
	if got := prt.Bounds(); fromBox(got) != want {
		x.Failf("Bounds of %d references are %v, want %v", n, got, want)
	}
	b := prt.Bounds()
	b.ExpandXY(1e308, -1e308)
	if got := prt.Bounds(); fromBox(got) != want {
		x.Failf("Bounds changed to %v after changing the returned box, want %v", got, want)
	}
	s := fmt.Sprintf("PackedRTree{Bounds:%s,NumRefs:%d,NodeSize:%d}", fmtBox(fromBox(prt.Bounds())), n, c.NodeSize)
	if prt.String() != s {
		x.Failf("String is %s, want %s", prt.String(), s)
	}
	if n > int(c.NodeSize) {
		x.NT()
		x.Label("several levels")
	}
}

func init() {
	register(&Prop{ID: "T04", Rule: "rapid draws reference counts (small, around powers of the node size, around the largest representable count, near MaxInt, any) and node sizes; the oracle is exact integer arithmetic. Non-trivial: more than two levels, or not representable.",
		Subs: []*Sub{
			sub("size", 600000, 20000000, drawSizeCase, runT04),
		}})
	register(&Prop{ID: "T05", Rule: "rapid draws references on cell centres of a 65536x65536 grid over scaled, shifted or flat bounds (exact positions; up to 6000, in fixed cases 131072), or arbitrary boxes (positions within rounding error of a cell boundary are not compared); the oracle is a bit-at-a-time Hilbert curve. Non-trivial: at least three distinct certain positions.",
		Subs: []*Sub{
			sub("hilbert", 600000, 20000000, drawHilbertCase, runT05, func() (r []HilbertCase) {
				for i, n := range []int{1 << 16, 70000, 1 << 17} {
					r = append(r, HilbertCase{Cells: [][2]uint16{{1, 2}}, More: n, MulX: 7919, MulY: 101 * (i + 1), KX: i})
				}
				return
			}),
		}})
	register(&Prop{ID: "T06", Rule: "rapid draws expansion sequences in five coordinate families, in drawn and permuted order, and reference lists for index bounds; the oracle is coordinate-wise minimum and maximum. Non-trivial: at least two expansions which grow the box; an index of several levels.",
		Subs: []*Sub{
			sub("expand", 400000, 12000000, drawBoxCase, runT06),
			sub("bounds", 200000, 6000000, func(t *rapid.T) TreeCase { c := drawTreeCase(t, 60, 3000, 1); c.Queries = nil; return c }, runT06Bounds),
		}})
}
