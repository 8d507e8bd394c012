package main

// Generators shared by the checks. All randomness comes from rapid.

import (
	"math"

	"pgregory.net/rapid"
)

// oneIn is true with probability about 1/n; false is the simpler value.
func oneIn(t *rapid.T, n int, name string) bool { return drawInt(t, 0, n-1, name) == n-1 }

func pick[T any](t *rapid.T, vs []T, name string) T { return vs[drawInt(t, 0, len(vs)-1, name)] }

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 180, -180, 90, -90, 0.1, math.Pi, 1e300, -1e300, 4503599627370497.5}

// Coordinate modes.
const (
	cmGrid    = iota // small integers: many equal coordinates
	cmQuarter        // multiples of 1/4
	cmGeo            // longitude-like floats
	cmSpecial        // infinities, extremes, signed zeros
	cmAny            // any float except NaN
	cmModes
)

func drawCoord(t *rapid.T, mode int) float64 {
	switch mode {
	case cmGrid:
		return float64(drawInt(t, -6, 6, "c"))
	case cmQuarter:
		return float64(drawInt(t, -800, 800, "c")) / 4
	case cmGeo:
		return drawFloat(t, -180, 180, "c")
	case cmSpecial:
		return pick(t, specialFloats, "c")
	default:
		return drawFloat(t, math.Inf(-1), math.Inf(1), "c")
	}
}

func drawMode(t *rapid.T) int {
	return pick(t, []int{cmGrid, cmGrid, cmGrid, cmQuarter, cmQuarter, cmGeo, cmSpecial, cmAny}, "mode")
}

func drawBox(t *rapid.T, mode int) RBox {
	x, y := drawCoord(t, mode), drawCoord(t, mode)
	switch kind := drawInt(t, 0, 11, "boxkind"); {
	case kind < 6: // ordered box
		x2, y2 := drawCoord(t, mode), drawCoord(t, mode)
		return RBox{F(math.Min(x, x2)), F(math.Min(y, y2)), F(math.Max(x, x2)), F(math.Max(y, y2))}
	case kind < 8: // point
		return RBox{F(x), F(y), F(x), F(y)}
	case kind == 8: // degenerate in x
		y2 := drawCoord(t, mode)
		return RBox{F(x), F(math.Min(y, y2)), F(x), F(math.Max(y, y2))}
	case kind == 9: // small box around
		w := float64(drawInt(t, 0, 2, "w"))
		return RBox{F(x), F(y), F(x + w), F(y + w)}
	case kind == 10:
		if mode >= cmSpecial || drawBool(t, "whole") {
			return RBox{F(math.Inf(-1)), F(math.Inf(-1)), F(math.Inf(1)), F(math.Inf(1))}
		}
		return RBox{F(math.Inf(1)), F(math.Inf(1)), F(math.Inf(-1)), F(math.Inf(-1))}
	default: // unordered corners
		return RBox{F(x), F(y), F(drawCoord(t, mode)), F(drawCoord(t, mode))}
	}
}

// Pattern describes a long reference list by few numbers.
type Pattern struct {
	N, W   int // number of references, width of the grid
	A, M   int // multiplier and modulus of the scattering
	Kind   int
	Extent int // size of the boxes in quarters
}

// RefList is a reference list: explicit references or a pattern.
type RefList struct {
	Refs   []RRef   `json:",omitempty"`
	Pat    *Pattern `json:",omitempty"`
	OffSeq bool     // offsets ascend in list order once the list is sorted
	Step   int64    `json:",omitempty"`
	Base   int64    `json:",omitempty"`
}

func (p *Pattern) box(i int) RBox {
	var x, y float64
	switch p.Kind {
	case 0: // grid
		x, y = float64(i%p.W), float64(i/p.W)
	case 1: // scattered
		x, y = float64(i*p.A%p.M), float64((i*p.A/p.M+i*7)%p.M)
	case 2: // diagonal
		x, y = float64(i), float64(i)
	default: // all on few points
		x, y = float64(i*p.A%p.W), float64(i%3)
	}
	e := float64(p.Extent) / 4 * float64(i%4)
	return RBox{F(x), F(y), F(x + e), F(y + e)}
}

// expand returns the references in drawn order.
func (l *RefList) expand() []RRef {
	if l.Pat == nil {
		return append([]RRef{}, l.Refs...)
	}
	r := make([]RRef, l.Pat.N)
	for i := range r {
		r[i] = RRef{l.Pat.box(i), l.Base + int64((i*l.Pat.A)%l.Pat.N)*max(1, l.Step)}
	}
	return r
}

func drawNodeSize(t *rapid.T) uint16 {
	switch k := drawInt(t, 0, 9, "nsk"); {
	case k < 6:
		return uint16(drawInt(t, 2, 5, "ns"))
	case k < 8:
		return uint16(drawInt(t, 6, 17, "ns"))
	case k == 8:
		return uint16(drawInt(t, 18, 300, "ns"))
	case oneIn(t, 3, "nswide"):
		return uint16(drawInt(t, 2, 65535, "ns"))
	default:
		return uint16(pick(t, []int{16, 2, 65535, 32768, 256, 255, 1024}, "ns"))
	}
}

// drawCount draws a list length which is often around powers of nodeSize.
func drawCount(t *rapid.T, nodeSize int, maxN int) int {
	switch drawInt(t, 0, 5, "cntk") {
	case 0:
		return drawInt(t, 1, min(4, maxN), "n")
	case 1, 2:
		n := 1
		for e := drawInt(t, 1, 5, "exp"); e > 0 && n*nodeSize <= maxN; e-- {
			n *= nodeSize
		}
		return max(1, min(maxN, n+drawInt(t, -1, 1, "d")))
	case 3:
		return drawInt(t, 1, maxN, "n")
	default:
		return drawInt(t, 1, min(maxN, 3*nodeSize+2), "n")
	}
}

// drawRefList draws a list of at most maxN explicit references, or with
// some probability a pattern of at most maxPat.
func drawRefList(t *rapid.T, nodeSize uint16, maxN, maxPat int) RefList {
	var l RefList
	l.OffSeq = drawBool(t, "offseq")
	if maxPat > 0 && oneIn(t, 12, "pattern") {
		n := drawCount(t, min(int(nodeSize), maxPat), maxPat)
		l.Pat = &Pattern{N: n, W: drawInt(t, 1, 80, "w"), A: drawInt(t, 1, 9973, "a"), M: drawInt(t, 1, 997, "m"), Kind: drawInt(t, 0, 3, "kind"), Extent: drawInt(t, 0, 12, "ext")}
		l.Step = int64(drawInt(t, 1, 1000, "step"))
		l.Base = int64(drawInt(t, 0, 3, "base"))
		return l
	}
	n := drawCount(t, int(nodeSize), maxN)
	mode := drawMode(t)
	offMode := drawInt(t, 0, 3, "offmode")
	for i := 0; i < n; i++ {
		r := RRef{B: drawBox(t, mode)}
		if mode != cmGrid && oneIn(t, 8, "mix") {
			r.B = drawBox(t, cmGrid)
		}
		if i > 0 && oneIn(t, 10, "dup") {
			r.B = l.Refs[drawInt(t, 0, i-1, "of")].B
		}
		switch offMode {
		case 0:
			r.Off = int64(i) * 40
		case 1:
			r.Off = int64(drawInt(t, 0, 50, "off"))
		default:
			r.Off = drawI64(t, math.MinInt64, math.MaxInt64, "off")
		}
		l.Refs = append(l.Refs, r)
	}
	return l
}

// drawQuery draws a query box, half of the time derived from the boxes in
// the list so that edges and corners touch.
func drawQuery(t *rapid.T, refs []RRef) RBox {
	switch k := drawInt(t, 0, 9, "qk"); {
	case k < 3:
		return drawBox(t, drawMode(t))
	case k < 4 || len(refs) == 0:
		return drawBox(t, cmGrid)
	case k < 6: // a corner of a box, extended outwards
		b := refs[drawInt(t, 0, len(refs)-1, "qi")].B
		d := F(drawInt(t, 0, 3, "ext"))
		switch drawInt(t, 0, 3, "corner") {
		case 0:
			return RBox{b[2], b[3], b[2] + d, b[3] + d}
		case 1:
			return RBox{b[0] - d, b[1] - d, b[0], b[1]}
		case 2:
			return RBox{b[0] - d, b[3], b[0], b[3] + d}
		default:
			return RBox{b[2], b[1] - d, b[2] + d, b[1]}
		}
	case k < 7: // just misses a box
		b := refs[drawInt(t, 0, len(refs)-1, "qi")].B
		switch drawInt(t, 0, 3, "side") {
		case 0:
			x := F(math.Nextafter(float64(b[2]), math.Inf(1)))
			return RBox{x, b[1], x + 2, b[3]}
		case 1:
			x := F(math.Nextafter(float64(b[0]), math.Inf(-1)))
			return RBox{x - 2, b[1], x, b[3]}
		case 2:
			y := F(math.Nextafter(float64(b[3]), math.Inf(1)))
			return RBox{b[0], y, b[2], y + 2}
		default:
			y := F(math.Nextafter(float64(b[1]), math.Inf(-1)))
			return RBox{b[0], y - 2, b[2], y}
		}
	case k < 8: // exactly a box
		return refs[drawInt(t, 0, len(refs)-1, "qi")].B
	case k < 9: // between two boxes
		a := refs[drawInt(t, 0, len(refs)-1, "qi")].B
		b := refs[drawInt(t, 0, len(refs)-1, "qj")].B
		return RBox{min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])}
	default:
		return RBox{F(math.Inf(-1)), F(math.Inf(-1)), F(math.Inf(1)), F(math.Inf(1))}
	}
}

func noNaN(b RBox) RBox {
	for i := range b {
		if math.IsNaN(float64(b[i])) {
			b[i] = 0
		}
	}
	return b
}

// drawQueries draws 1..n queries; patterns get queries around their grid.
func drawQueries(t *rapid.T, l *RefList, n int) (qs []RBox) {
	refs := l.Refs
	if l.Pat != nil {
		for _, i := range []int{0, l.Pat.N / 2, l.Pat.N - 1, drawInt(t, 0, l.Pat.N-1, "i")} {
			refs = append(refs, RRef{B: l.Pat.box(i)})
		}
	}
	for i := drawInt(t, 1, n, "nq"); i > 0; i-- {
		qs = append(qs, noNaN(drawQuery(t, refs)))
	}
	return
}

func drawFrag(t *rapid.T) Frag {
	f := drawFragSizes(t)
	if oneIn(t, 3, "special") {
		f.Rich, f.Scratch = drawBool(t, "rich"), drawBool(t, "scratch")
	}
	return f
}

func drawFragSizes(t *rapid.T) Frag {
	switch drawInt(t, 0, 5, "fragk") {
	case 0, 1:
		return Frag{EOFNow: drawBool(t, "eofnow")}
	case 2:
		return Frag{Sizes: []int{1}, EOFNow: drawBool(t, "eofnow")}
	case 3:
		return Frag{Sizes: []int{pick(t, []int{2, 3, 4, 7, 8, 39, 40, 41, 100, 512, 4096}, "fs")}, EOFNow: drawBool(t, "eofnow")}
	default:
		f := Frag{EOFNow: drawBool(t, "eofnow")}
		for i := drawInt(t, 1, 5, "nf"); i > 0; i-- {
			f.Sizes = append(f.Sizes, drawInt(t, 0, 60, "fs"))
		}
		f.Sizes = append(f.Sizes, drawInt(t, 1, 60, "fs"))
		return f
	}
}

func drawLayout(t *rapid.T) Layout {
	if drawBool(t, "plain") {
		return Layout{}
	}
	var extra uint8
	if oneIn(t, 4, "extra") {
		extra = uint8(drawInt(t, 1, 5, "extras"))
	}
	return Layout{Extra: extra, VtAfter: drawBool(t, "vtafter"), Rev: drawBool(t, "rev"), Full: drawBool(t, "full"), Pad: uint8(drawInt(t, 0, 3, "pad")), ShareVt: drawBool(t, "share"), Unalign: oneIn(t, 4, "unalign")}
}

// drawBytes draws a byte string; nil if absent is drawn.
func drawText(t *rapid.T) []byte {
	switch k := drawInt(t, 0, 9, "txk"); {
	case k < 2:
		return []byte{}
	case k < 6:
		return drawWord(t)
	case k < 8:
		return drawRunes(t)
	case k == 8:
		return drawRaw(t, 20)
	default:
		n := pick(t, []int{63, 64, 127, 255, 256, 300, 1000}, "len")
		if oneIn(t, 40, "long") {
			n = pick(t, []int{4095, 4096, 5000, 16384, 32768, 65535, 65536, 70000}, "longlen")
		}
		b := make([]byte, n)
		a := drawInt(t, 1, 250, "mul")
		for i := range b {
			b[i] = byte(i*a + a)
		}
		return b
	}
}

func drawRaw(t *rapid.T, maxLen int) []byte {
	return drawByteSlice(t, maxLen, "raw")
}

func opt[T any](t *rapid.T, draw func() T) *T {
	if drawBool(t, "present") {
		v := draw()
		return &v
	}
	return nil
}

func optText(t *rapid.T) []byte {
	if drawBool(t, "present") {
		return drawText(t)
	}
	return nil
}

func drawI32(t *rapid.T) int32 {
	if drawBool(t, "small") {
		return int32(drawInt(t, -3, 300, "i32"))
	}
	return int32(drawI64(t, math.MinInt32, math.MaxInt32, "i32"))
}

func drawU64(t *rapid.T) uint64 {
	switch drawInt(t, 0, 2, "u64k") {
	case 0:
		return uint64(drawInt(t, 0, 300, "u64"))
	case 1:
		return uint64(1)<<drawInt(t, 0, 63, "sh") - uint64(drawInt(t, 0, 1, "m"))
	}
	return drawUint(t, 0, math.MaxUint64, "u64")
}

func drawU32(t *rapid.T) uint32 { return uint32(drawU64(t)) }

func drawAnyF(t *rapid.T) F {
	if oneIn(t, 10, "nan") {
		return F(math.Float64frombits(0x7ff8000000000000 | drawUint(t, 0, 1<<51-1, "nanbits")))
	}
	return F(drawCoord(t, drawInt(t, 0, cmModes-1, "mode")))
}

func drawColumn(t *rapid.T) Column {
	var c Column
	c.Name = drawText(t)
	if oneIn(t, 6, "noname") {
		c.Name = nil
	}
	c.Type = opt(t, func() uint8 { return uint8(drawInt(t, 0, 14, "ct")) })
	if drawBool(t, "rich") {
		c.Title, c.Desc, c.Metadata = optText(t), optText(t), optText(t)
		c.Width, c.Precision, c.Scale = opt(t, func() int32 { return drawI32(t) }), opt(t, func() int32 { return drawI32(t) }), opt(t, func() int32 { return drawI32(t) })
		c.Nullable, c.Unique, c.PrimaryKey = opt(t, func() bool { return drawBool(t, "b") }), opt(t, func() bool { return drawBool(t, "b") }), opt(t, func() bool { return drawBool(t, "b") })
	}
	return c
}

func drawColumns(t *rapid.T, maxN int) []Column {
	n := drawInt(t, 0, maxN, "ncols")
	cs := []Column{}
	for i := 0; i < n; i++ {
		cs = append(cs, drawColumn(t))
	}
	return cs
}

func drawCrs(t *rapid.T) Crs {
	return Crs{optText(t), opt(t, func() int32 { return drawI32(t) }), optText(t), optText(t), optText(t), optText(t)}
}

// drawHeader draws a header; feature count and node size are set by the
// caller.
func drawHeader(t *rapid.T, maxCols int) Header {
	var h Header
	h.Name = optText(t)
	if oneIn(t, 3, "cols") {
		h.Columns = drawColumns(t, maxCols)
	}
	h.GeometryType = opt(t, func() uint8 { return uint8(drawInt(t, 0, 17, "gt")) })
	if drawBool(t, "rich") {
		if drawBool(t, "env") {
			n := pick(t, []int{0, 1, 4, 4, 4, 6, 8}, "nenv")
			h.Envelope = []F{}
			for i := 0; i < n; i++ {
				h.Envelope = append(h.Envelope, F(drawCoord(t, drawMode(t))))
			}
		}
		h.HasZ, h.HasM, h.HasT, h.HasTM = opt(t, func() bool { return drawBool(t, "b") }), opt(t, func() bool { return drawBool(t, "b") }), opt(t, func() bool { return drawBool(t, "b") }), opt(t, func() bool { return drawBool(t, "b") })
		if drawBool(t, "crs") {
			h.Crs = ptr(drawCrs(t))
		}
		h.Title, h.Desc, h.Metadata = optText(t), optText(t), optText(t)
	}
	return h
}

func drawFs(t *rapid.T, n int) []F {
	r := []F{}
	for i := 0; i < n; i++ {
		r = append(r, drawAnyF(t))
	}
	return r
}

// drawGeometry draws a geometry with nested parts. Coordinates are drawn
// in the given mode and contain no NaN.
func drawGeometry(t *rapid.T, mode, depth int) Geometry {
	var g Geometry
	g.Type = opt(t, func() uint8 { return uint8(drawInt(t, 0, 17, "gt")) })
	n := pick(t, []int{0, 1, 1, 1, 2, 3, 5}, "nxy")
	if n > 0 || drawBool(t, "emptyxy") {
		g.XY = []F{}
		for i := 0; i < 2*n; i++ {
			g.XY = append(g.XY, F(drawCoord(t, mode)))
		}
	}
	if oneIn(t, 4, "extra") {
		if drawBool(t, "z") {
			g.Z = drawFs(t, n)
		}
		if drawBool(t, "m") {
			g.M = drawFs(t, n)
		}
		if drawBool(t, "t") {
			g.T = drawFs(t, n)
		}
		if drawBool(t, "tm") {
			g.TM = []uint64{}
			for i := 0; i < n; i++ {
				g.TM = append(g.TM, drawU64(t))
			}
		}
		if drawBool(t, "ends") {
			g.Ends = []uint32{}
			for i := drawInt(t, 0, 3, "nends"); i > 0; i-- {
				g.Ends = append(g.Ends, drawU32(t))
			}
		}
	}
	if depth > 0 && oneIn(t, 4, "parts") {
		g.Parts = []Geometry{}
		for i := drawInt(t, 0, 3, "nparts"); i > 0; i-- {
			g.Parts = append(g.Parts, drawGeometry(t, mode, depth-1))
		}
	}
	return g
}

// PVal is a property value of a given column type.
type PVal struct {
	Col  uint16
	Type uint8
	U    uint64 `json:",omitempty"` // bits of a fixed-size value
	B    []byte // value of a variable-size value
	Fill int    `json:",omitempty"` // if > 0, that many bytes instead of B
}

func (v *PVal) body() []byte {
	if v.Fill > 0 {
		return junk(v.Fill)
	}
	return v.B
}

var fixedSize = map[uint8]int{0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 4, 10: 8}

func isVar(typ uint8) bool { return typ >= 11 && typ <= 14 }

func drawPVal(t *rapid.T, typ uint8) PVal {
	v := PVal{Type: typ}
	if isVar(typ) {
		v.B = drawText(t)
		return v
	}
	switch typ {
	case 2:
		v.U = uint64(drawInt(t, 0, 1, "bool"))
	case 9:
		if drawBool(t, "anybits") {
			v.U = drawUint(t, 0, math.MaxUint32, "bits")
		} else {
			v.U = uint64(math.Float32bits(float32(drawCoord(t, drawMode(t)))))
		}
	case 10:
		v.U = math.Float64bits(float64(drawAnyF(t)))
	default:
		v.U = drawU64(t)
		if n := fixedSize[typ]; n < 8 {
			v.U &= 1<<(8*n) - 1
		}
	}
	return v
}

// encode appends the wire encoding of the value, without column index.
func (v *PVal) encode(b []byte) []byte {
	if isVar(v.Type) {
		d := v.body()
		b = le.AppendUint32(b, uint32(len(d)))
		return append(b, d...)
	}
	for i := 0; i < fixedSize[v.Type]; i++ {
		b = append(b, byte(v.U>>(8*i)))
	}
	return b
}

func encodeProps(vs []PVal) (b []byte) {
	b = []byte{}
	for i := range vs {
		b = le.AppendUint16(b, vs[i].Col)
		b = vs[i].encode(b)
	}
	return
}

func colType(c *Column) uint8 { return *orU(c.Type, 0) }

// drawProps draws property values for a schema.
func drawProps(t *rapid.T, cols []Column, maxN int) (vs []PVal) {
	if len(cols) == 0 {
		return nil
	}
	if drawBool(t, "eachonce") {
		for i := range cols {
			if oneIn(t, 5, "skip") {
				continue
			}
			v := drawPVal(t, colType(&cols[i]))
			v.Col = uint16(i)
			vs = append(vs, v)
			if len(vs) >= maxN {
				break
			}
		}
		return
	}
	for i := drawInt(t, 0, maxN, "nprops"); i > 0; i-- {
		c := drawInt(t, 0, len(cols)-1, "col")
		v := drawPVal(t, colType(&cols[c]))
		v.Col = uint16(c)
		vs = append(vs, v)
	}
	return
}

// drawFeature draws a feature whose properties match its schema.
func drawFeature(t *rapid.T, cols []Column, mode int) Feature {
	f := Feature{L: drawLayout(t)}
	if !oneIn(t, 6, "nogeom") {
		f.Geom = ptr(drawGeometry(t, mode, 2))
	}
	schema := cols
	if oneIn(t, 6, "ownschema") {
		f.Columns = drawColumns(t, 3)
		if len(f.Columns) > 0 {
			schema = f.Columns
		}
	}
	if vs := drawProps(t, schema, 5); vs != nil || drawBool(t, "emptyprops") {
		f.Props = encodeProps(vs)
	}
	return f
}
