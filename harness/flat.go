package main

// F01, F02: the generated tables.

import (
	"bytes"
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	flatbuffers "github.com/google/flatbuffers/go"
	"pgregory.net/rapid"
)

const (
	kHeader = iota
	kColumn
	kCrs
	kGeometry
	kFeature
	kCount
)

type flatTable interface {
	Init(buf []byte, i flatbuffers.UOffsetT)
	Table() flatbuffers.Table
}

// TableCase is one table of any kind.
type TableCase struct {
	Kind   int
	H      *Header   `json:",omitempty"`
	C      *Column   `json:",omitempty"`
	R      *Crs      `json:",omitempty"`
	G      *Geometry `json:",omitempty"`
	F      *Feature  `json:",omitempty"`
	L      Layout
	Prefix int // bytes before the table
	Suffix int // bytes after it
	Init   int // initial size of the builder
	Prior  int // 1: the builder was used before and reset, 2: it holds another object
}

type tableKind struct {
	name        string
	root, sized func(buf []byte, off flatbuffers.UOffsetT) flatTable
	empty       func() flatTable
	acc         func(flatTable) any
	dec         func(fbDec) any
	tab         func(c *TableCase) *fbTab
	norm        func(c *TableCase) any
	build       func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT
	finish      func(b *flatbuffers.Builder, o flatbuffers.UOffsetT)
	finishSized func(b *flatbuffers.Builder, o flatbuffers.UOffsetT)
}

var tableKinds = []tableKind{
	{
		"Header",
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetRootAsHeader(b, o) },
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetSizePrefixedRootAsHeader(b, o) },
		func() flatTable { return &flat.Header{} },
		func(t flatTable) any { return accHeader(t.(*flat.Header)) },
		func(d fbDec) any { return d.header().norm() },
		func(c *TableCase) *fbTab { return c.H.tab() },
		func(c *TableCase) any { return c.H.norm() },
		func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT { return bHeader(b, c.H, c.L.Rev) },
		flat.FinishHeaderBuffer, flat.FinishSizePrefixedHeaderBuffer,
	},
	{
		"Column",
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetRootAsColumn(b, o) },
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetSizePrefixedRootAsColumn(b, o) },
		func() flatTable { return &flat.Column{} },
		func(t flatTable) any { return accColumn(t.(*flat.Column)) },
		func(d fbDec) any { return d.column().norm() },
		func(c *TableCase) *fbTab { return c.C.tab() },
		func(c *TableCase) any { return c.C.norm() },
		func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT { return bColumn(b, c.C, c.L.Rev) },
		flat.FinishColumnBuffer, flat.FinishSizePrefixedColumnBuffer,
	},
	{
		"Crs",
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetRootAsCrs(b, o) },
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetSizePrefixedRootAsCrs(b, o) },
		func() flatTable { return &flat.Crs{} },
		func(t flatTable) any { return accCrs(t.(*flat.Crs)) },
		func(d fbDec) any { return d.crs() },
		func(c *TableCase) *fbTab { return c.R.tab() },
		func(c *TableCase) any { r := *c.R; r.Code = orU(r.Code, 0); return r },
		func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT { return bCrs(b, c.R, c.L.Rev) },
		flat.FinishCrsBuffer, flat.FinishSizePrefixedCrsBuffer,
	},
	{
		"Geometry",
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetRootAsGeometry(b, o) },
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetSizePrefixedRootAsGeometry(b, o) },
		func() flatTable { return &flat.Geometry{} },
		func(t flatTable) any { return accGeometry(t.(*flat.Geometry)) },
		func(d fbDec) any { return d.geometry().norm() },
		func(c *TableCase) *fbTab { return c.G.tab() },
		func(c *TableCase) any { return c.G.norm() },
		func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT { return bGeometry(b, c.G, c.L.Rev) },
		flat.FinishGeometryBuffer, flat.FinishSizePrefixedGeometryBuffer,
	},
	{
		"Feature",
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetRootAsFeature(b, o) },
		func(b []byte, o flatbuffers.UOffsetT) flatTable { return flat.GetSizePrefixedRootAsFeature(b, o) },
		func() flatTable { return &flat.Feature{} },
		func(t flatTable) any { return accFeature(t.(*flat.Feature)) },
		func(d fbDec) any { return d.feature().norm() },
		func(c *TableCase) *fbTab { return c.F.tab() },
		func(c *TableCase) any { return c.F.norm() },
		func(b *flatbuffers.Builder, c *TableCase) flatbuffers.UOffsetT { return bFeature(b, c.F, c.L.Rev) },
		flat.FinishFeatureBuffer, flat.FinishSizePrefixedFeatureBuffer,
	},
}

func drawTable(t *rapid.T) TableCase {
	c := TableCase{Kind: drawInt(t, 0, kCount-1, "kind"), L: drawLayout(t), Prefix: pick(t, []int{0, 0, 1, 4, 7, 64, 300}, "prefix"), Suffix: pick(t, []int{0, 0, 3, 50}, "suffix"),
		Init: pick(t, []int{0, 1, 10, 64, 1024, 5000}, "init"), Prior: drawInt(t, 0, 2, "prior")}
	switch c.Kind {
	case kHeader:
		h := drawFullHeader(t)
		if oneIn(t, 8, "oddtype") {
			h.GeometryType = ptr(uint8(drawInt(t, 18, 255, "gt")))
		}
		c.H = &h
	case kColumn:
		col := drawColumn(t)
		if oneIn(t, 8, "oddtype") {
			col.Type = ptr(uint8(drawInt(t, 15, 255, "ct")))
		}
		c.C = &col
	case kCrs:
		c.R = ptr(drawCrs(t))
	case kGeometry:
		c.G = ptr(drawGeometry(t, drawInt(t, 0, cmModes-1, "mode"), 3))
	default:
		f := drawFeature(t, drawColumns(t, 4), drawInt(t, 0, cmModes-1, "mode"))
		if oneIn(t, 4, "rawprops") {
			f.Props = drawRaw(t, 40)
		}
		c.F = &f
	}
	return c
}

func fixedTables() []TableCase {
	u8, i32, tr, fa := ptr(uint8(7)), ptr(int32(-1234567)), ptr(true), ptr(false)
	s := func(v string) []byte { return []byte(v) }
	col := Column{s("name"), u8, s("title"), s("desc"), i32, ptr(int32(77)), ptr(int32(math.MinInt32)), fa, tr, tr, s("meta")}
	crs := Crs{s("org"), i32, s("name"), s("desc"), s("wkt"), s("code")}
	h := Header{s("name"), []F{1, 2, 3, 4}, u8, tr, tr, tr, tr, []Column{col, {}, col}, ptr(uint64(1 << 63)), ptr(uint16(65535)), &crs, s("title"), s("desc"), s("meta")}
	g := Geometry{[]uint32{1, math.MaxUint32}, []F{1, 2, 3, 4}, []F{5, 6}, []F{7, 8}, []F{9, 10}, []uint64{11, math.MaxUint64}, u8, nil}
	gg := g
	gg.Parts = []Geometry{g, {}, g}
	f := Feature{Geom: &gg, Props: []byte{1, 2, 3}, Columns: []Column{col, {}}}
	return []TableCase{
		{Kind: kHeader, H: &h}, {Kind: kColumn, C: &col}, {Kind: kCrs, R: &crs}, {Kind: kGeometry, G: &gg}, {Kind: kFeature, F: &f},
		{Kind: kHeader, H: &Header{}}, {Kind: kColumn, C: &Column{}}, {Kind: kCrs, R: &Crs{}}, {Kind: kGeometry, G: &Geometry{}}, {Kind: kFeature, F: &Feature{}},
	}
}

// place puts an encoded table between other bytes.
func (c *TableCase) place(b []byte) []byte {
	return append(append(junk(c.Prefix), b...), junk(c.Suffix)...)
}

func runF01(c TableCase, x *Ctx) {
	k := &tableKinds[c.Kind]
	want := k.norm(&c)
	same := func(what string, got any) {
		if d := diff(got, want); d != "" {
			x.Failf("%s %s: %s", k.name, what, d)
		}
	}
	off := flatbuffers.UOffsetT(c.Prefix)
	// Encoded independently, read by the accessors.
	for _, sized := range []bool{false, true} {
		var enc []byte
		get, what := k.root, "found by GetRootAs"
		if sized {
			enc = encodeSizePrefixed(k.tab(&c), c.L)
			get, what = k.sized, "found by GetSizePrefixedRootAs"
		} else {
			enc = encodeRoot(k.tab(&c), c.L)
		}
		buf := c.place(enc)
		keep := cp(buf)
		t := get(buf, off)
		same(what, k.acc(t))
		extras(x, t, &c)
		at := c.Prefix
		if sized {
			at += 4
		}
		pos := decRoot(buf, at).pos
		tb := t.Table()
		if int(tb.Pos) != pos || len(tb.Bytes) != len(buf) || len(buf) > 0 && &tb.Bytes[0] != &buf[0] {
			x.Failf("%s %s: Table is at %d of %d bytes, want %d of %d", k.name, what, tb.Pos, len(tb.Bytes), pos, len(buf))
		}
		t2 := k.empty()
		t2.Init(buf, flatbuffers.UOffsetT(pos))
		same("set up by Init", k.acc(t2))
		if !bytes.Equal(buf, keep) {
			x.Failf("%s %s: the accessors change the buffer", k.name, what)
		}
	}
	// Built by the builder functions, decoded independently.
	for _, sized := range []bool{false, true} {
		b := flatbuffers.NewBuilder(c.Init)
		switch c.Prior {
		case 1:
			k.finish(b, k.build(b, &c))
			b.Reset()
		case 2:
			k.build(b, &c)
		}
		o := k.build(b, &c)
		what := "built and finished"
		at := 0
		if sized {
			k.finishSized(b, o)
			what += " with size prefix"
			at = 4
		} else {
			k.finish(b, o)
		}
		buf := cp(b.FinishedBytes())
		if sized && (len(buf) < 4 || int(le.Uint32(buf)) != len(buf)-4) {
			x.Failf("%s %s: the size prefix is wrong", k.name, what)
		}
		d := decRoot(buf, at)
		d.al = true
		same(what, k.dec(d))
		buf2 := c.place(buf)
		if sized {
			same(what+", read back", k.acc(k.sized(buf2, off)))
		} else {
			same(what+", read back", k.acc(k.root(buf2, off)))
		}
	}
	x.Label(k.name)
	x.LabelIf(c.Prefix > 0, "offset in buffer")
	if present(k.tab(&c)) >= 2 {
		x.NT()
	}
}

func present(t *fbTab) (n int) {
	for i := range t.slots {
		n += b2i(t.slots[i].kind != fbAbsent)
	}
	return
}

// extras checks accessors which the model does not use: elements of
// absent vectors, reuse of objects, and other ways to the same data.
func extras(x *Ctx, t flatTable, c *TableCase) {
	zero := func(what string, is bool) {
		if !is {
			x.Failf("%s: element of an absent vector, want 0", what)
		}
	}
	cols := func(cols []Column, n int, get func(*flat.Column, int) bool) {
		var col flat.Column
		for i := range cols {
			if !get(&col, i) {
				x.Failf("no column %d of %d", i, n)
			}
			if d := diff(accColumn(&col), cols[i].norm()); d != "" {
				x.Failf("column %d: %s", i, d)
			}
		}
		if cols == nil && get(&col, 0) {
			x.Failf("column 0 of no columns")
		}
	}
	switch c.Kind {
	case kHeader:
		h := t.(*flat.Header)
		if c.H.Envelope == nil {
			zero("Envelope", h.Envelope(0) == 0)
		}
		cols(c.H.Columns, h.ColumnsLength(), h.Columns)
		var crs flat.Crs
		if got := h.Crs(&crs); c.H.Crs == nil && got != nil || c.H.Crs != nil && got != &crs {
			x.Failf("Crs does not use the object given")
		} else if got != nil {
			r := *c.H.Crs
			r.Code = orU(r.Code, 0)
			if d := diff(accCrs(&crs), r); d != "" {
				x.Failf("Crs: %s", d)
			}
		}
	case kGeometry:
		g := t.(*flat.Geometry)
		if c.G.Ends == nil {
			zero("Ends", g.Ends(0) == 0)
		}
		if c.G.XY == nil {
			zero("Xy", g.Xy(0) == 0)
		}
		if c.G.Z == nil {
			zero("Z", g.Z(0) == 0)
		}
		if c.G.M == nil {
			zero("M", g.M(0) == 0)
		}
		if c.G.T == nil {
			zero("T", g.T(0) == 0)
		}
		if c.G.TM == nil {
			zero("Tm", g.Tm(0) == 0)
		}
		var p flat.Geometry
		for i := range c.G.Parts {
			if !g.Parts(&p, i) {
				x.Failf("no part %d", i)
			}
			if d := diff(accGeometry(&p), c.G.Parts[i].norm()); d != "" {
				x.Failf("part %d: %s", i, d)
			}
		}
		if c.G.Parts == nil && g.Parts(&p, 0) {
			x.Failf("part 0 of no parts")
		}
	case kFeature:
		f := t.(*flat.Feature)
		cols(c.F.Columns, f.ColumnsLength(), f.Columns)
		if n := f.PropertiesLength(); n != len(c.F.Props) {
			x.Failf("PropertiesLength is %d, want %d", n, len(c.F.Props))
		}
		for i := range c.F.Props {
			if p := f.Properties(i); p != c.F.Props[i] {
				x.Failf("Properties(%d) is %d, want %d", i, p, c.F.Props[i])
			}
		}
		if c.F.Props == nil {
			zero("Properties", f.Properties(0) == 0)
			if f.PropertiesBytes() != nil {
				x.Failf("PropertiesBytes of no properties is not nil")
			}
		}
		var g flat.Geometry
		if got := f.Geometry(&g); c.F.Geom == nil && got != nil || c.F.Geom != nil && got != &g {
			x.Failf("Geometry does not use the object given")
		} else if got != nil {
			if d := diff(accGeometry(&g), c.F.Geom.norm()); d != "" {
				x.Failf("Geometry: %s", d)
			}
		}
	}
}

// F02

type mfield struct {
	name string
	slot int
	size int
	bool bool
	vec  bool
	mut  func(t flatTable, j int, v uint64) bool
	get  func(t flatTable, j int) uint64
}

func f64(v uint64) float64 { return math.Float64frombits(v) }

var mfields = [kCount][]mfield{
	kHeader: {
		{"Envelope", 1, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateEnvelope(j, f64(v)) }, func(t flatTable, j int) uint64 { return math.Float64bits(t.(*flat.Header).Envelope(j)) }},
		{"GeometryType", 2, 1, false, false, func(t flatTable, j int, v uint64) bool {
			return t.(*flat.Header).MutateGeometryType(flat.GeometryType(v))
		}, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Header).GeometryType()) }},
		{"HasZ", 3, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateHasZ(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Header).HasZ())) }},
		{"HasM", 4, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateHasM(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Header).HasM())) }},
		{"HasT", 5, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateHasT(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Header).HasT())) }},
		{"HasTm", 6, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateHasTm(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Header).HasTm())) }},
		{"FeaturesCount", 8, 8, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateFeaturesCount(v) }, func(t flatTable, j int) uint64 { return t.(*flat.Header).FeaturesCount() }},
		{"IndexNodeSize", 9, 2, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Header).MutateIndexNodeSize(uint16(v)) }, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Header).IndexNodeSize()) }},
	},
	kColumn: {
		{"Type", 1, 1, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutateType(flat.ColumnType(v)) }, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Column).Type()) }},
		{"Width", 4, 4, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutateWidth(int32(v)) }, func(t flatTable, j int) uint64 { return uint64(uint32(t.(*flat.Column).Width())) }},
		{"Precision", 5, 4, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutatePrecision(int32(v)) }, func(t flatTable, j int) uint64 { return uint64(uint32(t.(*flat.Column).Precision())) }},
		{"Scale", 6, 4, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutateScale(int32(v)) }, func(t flatTable, j int) uint64 { return uint64(uint32(t.(*flat.Column).Scale())) }},
		{"Nullable", 7, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutateNullable(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Column).Nullable())) }},
		{"Unique", 8, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutateUnique(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Column).Unique())) }},
		{"PrimaryKey", 9, 1, true, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Column).MutatePrimaryKey(v != 0) }, func(t flatTable, j int) uint64 { return uint64(b2i(t.(*flat.Column).PrimaryKey())) }},
	},
	kCrs: {
		{"Code", 1, 4, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Crs).MutateCode(int32(v)) }, func(t flatTable, j int) uint64 { return uint64(uint32(t.(*flat.Crs).Code())) }},
	},
	kGeometry: {
		{"Ends", 0, 4, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateEnds(j, uint32(v)) }, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Geometry).Ends(j)) }},
		{"Xy", 1, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateXy(j, f64(v)) }, func(t flatTable, j int) uint64 { return math.Float64bits(t.(*flat.Geometry).Xy(j)) }},
		{"Z", 2, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateZ(j, f64(v)) }, func(t flatTable, j int) uint64 { return math.Float64bits(t.(*flat.Geometry).Z(j)) }},
		{"M", 3, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateM(j, f64(v)) }, func(t flatTable, j int) uint64 { return math.Float64bits(t.(*flat.Geometry).M(j)) }},
		{"T", 4, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateT(j, f64(v)) }, func(t flatTable, j int) uint64 { return math.Float64bits(t.(*flat.Geometry).T(j)) }},
		{"Tm", 5, 8, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateTm(j, v) }, func(t flatTable, j int) uint64 { return t.(*flat.Geometry).Tm(j) }},
		{"Type", 6, 1, false, false, func(t flatTable, j int, v uint64) bool { return t.(*flat.Geometry).MutateType(flat.GeometryType(v)) }, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Geometry).Type()) }},
	},
	kFeature: {
		{"Properties", 1, 1, false, true, func(t flatTable, j int, v uint64) bool { return t.(*flat.Feature).MutateProperties(j, byte(v)) }, func(t flatTable, j int) uint64 { return uint64(t.(*flat.Feature).Properties(j)) }},
	},
}

// node is one table inside the case's table.
type node struct {
	kind int
	d    fbDec
	t    flatTable
}

func nodes(x *Ctx, n node) (r []node) {
	r = append(r, n)
	cols := func(slot int, get func(*flat.Column, int) bool) {
		for i, s := range n.d.subs(slot) {
			c := &flat.Column{}
			if !get(c, i) {
				x.Failf("no column %d", i)
			}
			r = append(r, node{kColumn, s, c})
		}
	}
	switch t := n.t.(type) {
	case *flat.Header:
		cols(7, t.Columns)
		if s, ok := n.d.sub(10); ok {
			c := t.Crs(nil)
			if c == nil {
				x.Failf("no CRS")
			}
			r = append(r, node{kCrs, s, c})
		}
	case *flat.Geometry:
		for i, s := range n.d.subs(7) {
			g := &flat.Geometry{}
			if !t.Parts(g, i) {
				x.Failf("no part %d", i)
			}
			r = append(r, nodes(x, node{kGeometry, s, g})...)
		}
	case *flat.Feature:
		if s, ok := n.d.sub(0); ok {
			g := t.Geometry(nil)
			if g == nil {
				x.Failf("no geometry")
			}
			r = append(r, nodes(x, node{kGeometry, s, g})...)
		}
		cols(2, t.Columns)
	}
	return
}

type MutOp struct {
	Node, Field, J int
	V              uint64
}

type MutCase struct {
	T     TableCase
	Built bool
	Sized bool
	Ops   []MutOp
}

func drawMut(t *rapid.T) MutCase {
	c := MutCase{T: drawTable(t), Built: oneIn(t, 3, "built"), Sized: drawBool(t, "sized")}
	for i := drawInt(t, 1, 12, "nops"); i > 0; i-- {
		v := drawU64(t)
		if oneIn(t, 4, "pattern") {
			v = 0x8182838485868788
		}
		c.Ops = append(c.Ops, MutOp{drawInt(t, 0, 20, "node"), drawInt(t, 0, 20, "field"), drawInt(t, 0, 30, "j"), v})
	}
	return c
}

// fixedMuts mutates every field of full and of empty tables.
func fixedMuts() (r []MutCase) {
	for _, t := range fixedTables() {
		for _, sized := range []bool{false, true} {
			c := MutCase{T: t, Sized: sized}
			for n := 0; n < 8; n++ {
				for f := 0; f < 8; f++ {
					for j := 0; j < 4; j++ {
						c.Ops = append(c.Ops, MutOp{n, f, j, 0xf1f2f3f4f5f6f7f8 - uint64(j)}, MutOp{n, f, j, uint64(j) * 3})
					}
				}
			}
			r = append(r, c)
		}
	}
	return
}

func runF02(c MutCase, x *Ctx) {
	k := &tableKinds[c.T.Kind]
	var enc []byte
	switch {
	case c.Built:
		b := flatbuffers.NewBuilder(c.T.Init)
		o := k.build(b, &c.T)
		if c.Sized {
			k.finishSized(b, o)
		} else {
			k.finish(b, o)
		}
		enc = b.FinishedBytes()
	case c.Sized:
		enc = encodeSizePrefixed(k.tab(&c.T), c.T.L)
	default:
		enc = encodeRoot(k.tab(&c.T), c.T.L)
	}
	buf := c.T.place(enc)
	want := cp(buf)
	at := c.T.Prefix
	var root flatTable
	if c.Sized {
		at += 4
		root = k.sized(buf, flatbuffers.UOffsetT(c.T.Prefix))
	} else {
		root = k.root(buf, flatbuffers.UOffsetT(c.T.Prefix))
	}
	ns := nodes(x, node{c.T.Kind, decRoot(want, at), root})
	done := 0
	for i, op := range c.Ops {
		n := &ns[op.Node%len(ns)]
		fs := mfields[n.kind]
		f := &fs[op.Field%len(fs)]
		v := op.V
		if f.bool {
			v &= 1
		} else if f.size < 8 {
			v &= 1<<(8*f.size) - 1
		}
		pos, j := 0, 0
		if f.vec {
			p, cnt, ok := n.d.vector(f.slot, f.size)
			if ok && cnt == 0 {
				continue // there is no element to mutate
			}
			if ok {
				j = op.J % cnt
				pos = p + j*f.size
			}
		} else {
			pos = n.d.field(f.slot, f.size)
		}
		what := fmt.Sprintf("mutation %d, %s.%s", i, tableKinds[n.kind].name, f.name)
		if f.vec {
			what += fmt.Sprintf("[%d]", j)
		}
		before := uint64(0)
		if pos == 0 {
			before = f.get(n.t, j)
		}
		did := f.mut(n.t, j, v)
		if did != (pos != 0) {
			x.Failf("%s returns %v, the field is present: %v", what, did, pos != 0)
		}
		if pos != 0 {
			for b := 0; b < f.size; b++ {
				want[pos+b] = byte(v >> (8 * b))
			}
			done++
			x.Label(tableKinds[n.kind].name + "." + f.name)
		} else {
			v = before
		}
		for b := range buf {
			if buf[b] != want[b] {
				x.Failf("%s to %#x at %d: byte %d is %#x, want %#x", what, v, pos, b, buf[b], want[b])
			}
		}
		if got := f.get(n.t, j); got != v {
			x.Failf("%s to %#x: reads as %#x afterwards", what, v, got)
		}
	}
	if d := diff(k.acc(root), k.dec(decRoot(want, at))); d != "" {
		x.Failf("%s after the mutations: %s", k.name, d)
	}
	x.LabelIf(done > 0, "some field mutated")
	x.LabelIf(done < len(c.Ops), "some field absent")
	if done > 0 {
		x.NT()
	}
}

// Enumerations: complete.

type EnumCase struct{ Code int }

func enumCases() (r []EnumCase) {
	for i := 0; i < 256; i++ {
		r = append(r, EnumCase{i})
	}
	return
}

var geometryConsts = []flat.GeometryType{flat.GeometryTypeUnknown, flat.GeometryTypePoint, flat.GeometryTypeLineString, flat.GeometryTypePolygon, flat.GeometryTypeMultiPoint, flat.GeometryTypeMultiLineString, flat.GeometryTypeMultiPolygon, flat.GeometryTypeGeometryCollection, flat.GeometryTypeCircularString, flat.GeometryTypeCompoundCurve, flat.GeometryTypeCurvePolygon, flat.GeometryTypeMultiCurve, flat.GeometryTypeMultiSurface, flat.GeometryTypeCurve, flat.GeometryTypeSurface, flat.GeometryTypePolyhedralSurface, flat.GeometryTypeTIN, flat.GeometryTypeTriangle}
var columnConsts = []flat.ColumnType{flat.ColumnTypeByte, flat.ColumnTypeUByte, flat.ColumnTypeBool, flat.ColumnTypeShort, flat.ColumnTypeUShort, flat.ColumnTypeInt, flat.ColumnTypeUInt, flat.ColumnTypeLong, flat.ColumnTypeULong, flat.ColumnTypeFloat, flat.ColumnTypeDouble, flat.ColumnTypeString, flat.ColumnTypeJson, flat.ColumnTypeDateTime, flat.ColumnTypeBinary}

func runEnum(c EnumCase, x *Ctx) {
	n := uint8(c.Code)
	if got, want := flat.GeometryType(n).String(), geometryName(n); got != want {
		x.Failf("geometry type %d is called %q, want %q", n, got, want)
	}
	if got, want := flat.ColumnType(n).String(), columnTypeName(n); got != want {
		x.Failf("column type %d is called %q, want %q", n, got, want)
	}
	name, ok := flat.EnumNamesGeometryType[flat.GeometryType(n)]
	if ok != (int(n) < len(geometryNames)) || ok && name != geometryNames[n] {
		x.Failf("EnumNamesGeometryType[%d] is %q, %v", n, name, ok)
	}
	name, ok = flat.EnumNamesColumnType[flat.ColumnType(n)]
	if ok != (int(n) < len(typeNames)) || ok && name != typeNames[n] {
		x.Failf("EnumNamesColumnType[%d] is %q, %v", n, name, ok)
	}
	if int(n) < len(geometryNames) {
		x.NT()
		if v, ok := flat.EnumValuesGeometryType[geometryNames[n]]; !ok || uint8(v) != n {
			x.Failf("EnumValuesGeometryType[%s] is %d, %v", geometryNames[n], uint8(v), ok)
		}
		if uint8(geometryConsts[n]) != n {
			x.Failf("GeometryType%s is %d", geometryNames[n], uint8(geometryConsts[n]))
		}
	}
	if int(n) < len(typeNames) {
		if v, ok := flat.EnumValuesColumnType[typeNames[n]]; !ok || uint8(v) != n {
			x.Failf("EnumValuesColumnType[%s] is %d, %v", typeNames[n], uint8(v), ok)
		}
		if uint8(columnConsts[n]) != n {
			x.Failf("ColumnType%s is %d", typeNames[n], uint8(columnConsts[n]))
		}
	}
	if a, b, d, e := len(flat.EnumNamesGeometryType), len(flat.EnumValuesGeometryType), len(flat.EnumNamesColumnType), len(flat.EnumValuesColumnType); a != 18 || b != 18 || d != 15 || e != 15 {
		x.Failf("the enumerations have %d, %d geometry types and %d, %d column types, want 18 and 15", a, b, d, e)
	}
}

func init() {
	register(&Prop{ID: "F01", Rule: "the table has at least two fields present",
		Subs: []*Sub{sub("tables", 100000, 1500000, drawTable, runF01, fixedTables)}})
	enum := sub("enumerations", 0, 0, nil, runEnum, enumCases)
	enum.Once = true
	register(&Prop{ID: "F02", Rule: "at least one present field is mutated; enumerations: known codes",
		Subs: []*Sub{sub("mutations", 100000, 1500000, drawMut, runF02, fixedMuts), enum}})
}
