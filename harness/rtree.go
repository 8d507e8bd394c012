package main

// Reference packed R-tree, Hilbert curve and box arithmetic.

import (
	"math"
	"math/big"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

type Box4 [4]float64 // xmin, ymin, xmax, ymax

var emptyBox4 = Box4{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}

func (a Box4) union(b Box4) Box4 {
	if b[0] < a[0] {
		a[0] = b[0]
	}
	if b[1] < a[1] {
		a[1] = b[1]
	}
	if b[2] > a[2] {
		a[2] = b[2]
	}
	if b[3] > a[3] {
		a[3] = b[3]
	}
	return a
}

// touches is the intersection of closed boxes: on both axes neither box
// lies entirely on one side of the other.
func (a Box4) touches(b Box4) bool {
	return a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3]
}

func (a Box4) box() packedrtree.Box {
	return packedrtree.Box{XMin: a[0], YMin: a[1], XMax: a[2], YMax: a[3]}
}

func fromBox(b packedrtree.Box) Box4 { return Box4{b.XMin, b.YMin, b.XMax, b.YMax} }

func sameBits(a, b Box4) bool {
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// RBox is a box in a case; Ref is a reference in a case.
type RBox [4]F

func (r RBox) b() Box4 { return Box4{float64(r[0]), float64(r[1]), float64(r[2]), float64(r[3])} }

type RRef struct {
	B   RBox
	Off int64
}

// refTree is a packed R-tree laid out by the reference encoder.
type refTree struct {
	levels []int // number of nodes per level, leaves first
	start  []int // index of the first node per level, leaves first
	boxes  []Box4
	offs   []int64
}

func refLevels(numRefs, nodeSize int) []int {
	levels := []int{numRefs}
	for n := numRefs; ; {
		n = n/nodeSize + b2i(n%nodeSize != 0)
		levels = append(levels, n)
		if n == 1 {
			return levels
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// refNumNodes is the exact number of nodes of all levels.
func refNumNodes(numRefs *big.Int, nodeSize int64) *big.Int {
	one := big.NewInt(1)
	ns := big.NewInt(nodeSize)
	total := new(big.Int).Set(numRefs)
	n := new(big.Int).Set(numRefs)
	for {
		n.Add(n, new(big.Int).Sub(ns, one))
		n.Div(n, ns)
		total.Add(total, n)
		if n.Cmp(one) == 0 {
			return total
		}
	}
}

func newRefTree(boxes []Box4, offs []int64, nodeSize int) *refTree {
	t := &refTree{levels: refLevels(len(boxes), nodeSize)}
	total := 0
	for _, n := range t.levels {
		total += n
	}
	end := total
	for _, n := range t.levels {
		end -= n
		t.start = append(t.start, end)
	}
	t.boxes = make([]Box4, total)
	t.offs = make([]int64, total)
	copy(t.boxes[t.start[0]:], boxes)
	copy(t.offs[t.start[0]:], offs)
	for l := 1; l < len(t.levels); l++ {
		for i := 0; i < t.levels[l]; i++ {
			b := emptyBox4
			first := i * nodeSize
			for j := first; j < first+nodeSize && j < t.levels[l-1]; j++ {
				b = b.union(t.boxes[t.start[l-1]+j])
			}
			t.boxes[t.start[l]+i] = b
			t.offs[t.start[l]+i] = int64(t.start[l-1] + first)
		}
	}
	return t
}

func (t *refTree) bytes() []byte {
	var out []byte
	for i := range t.boxes {
		for _, v := range t.boxes[i] {
			out = le.AppendUint64(out, math.Float64bits(v))
		}
		out = le.AppendUint64(out, uint64(t.offs[i]))
	}
	return out
}

func (t *refTree) bounds() Box4 { return t.boxes[0] }

// hit is one expected search result.
type hit struct {
	Off int64
	Idx int
}

// bruteSearch returns the matching references in leaf order.
func bruteSearch(boxes []Box4, offs []int64, q Box4) []hit {
	r := []hit{}
	for i, b := range boxes {
		if b.touches(q) {
			r = append(r, hit{offs[i], i})
		}
	}
	return r
}

func toHits(rs packedrtree.Results) []hit {
	r := make([]hit, 0, len(rs))
	for _, x := range rs {
		r = append(r, hit{x.Offset, x.RefIndex})
	}
	return r
}

func byIdx(h []hit) []hit {
	r := append([]hit{}, h...)
	sort.Slice(r, func(i, j int) bool {
		if r[i].Idx != r[j].Idx {
			return r[i].Idx < r[j].Idx
		}
		return r[i].Off < r[j].Off
	})
	return r
}

func sameHits(a, b []hit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// hilbertRef is the position of (x, y) on the Hilbert curve of order 16,
// computed one bit at a time. Its orientation is that of the FlatGeobuf
// reference implementation: the curve of order one visits (0,0), (0,1),
// (1,1), (1,0).
func hilbertRef(x, y uint32) uint32 {
	var d uint32
	for s := uint32(1) << 15; s > 0; s >>= 1 {
		rx, ry := uint32(0), uint32(0)
		if x&s != 0 {
			rx = 1
		}
		if y&s != 0 {
			ry = 1
		}
		d += s * s * ((3 * rx) ^ ry)
		if ry == 0 {
			if rx == 1 {
				x = 0xFFFF - x&0xFFFF
				y = 0xFFFF - y&0xFFFF
			}
			x, y = y, x
		}
	}
	return d
}
