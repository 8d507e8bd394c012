package main

// Reads tables through the accessors under test into the model, and
// writes the model through the builder functions under test.

import (
	"encoding/json"
	"fmt"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	flatbuffers "github.com/google/flatbuffers/go"
)

func lenOK(n int) int {
	if n < 0 || n > 1<<22 {
		panic(violation{fmt.Sprintf("accessor reports a vector length of %d", n)})
	}
	return n
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func accColumn(c *flat.Column) Column {
	return Column{
		Name: cp(c.Name()), Type: ptr(uint8(c.Type())), Title: cp(c.Title()), Desc: cp(c.Description()),
		Width: ptr(c.Width()), Precision: ptr(c.Precision()), Scale: ptr(c.Scale()),
		Nullable: ptr(c.Nullable()), Unique: ptr(c.Unique()), PrimaryKey: ptr(c.PrimaryKey()), Metadata: cp(c.Metadata()),
	}
}

func accColumns(n int, get func(*flat.Column, int) bool) (r []Column) {
	for i := 0; i < lenOK(n); i++ {
		var c flat.Column
		if !get(&c, i) {
			panic(violation{fmt.Sprintf("no column %d of %d", i, n)})
		}
		r = append(r, accColumn(&c))
	}
	return
}

func accCrs(c *flat.Crs) Crs {
	return Crs{cp(c.Org()), ptr(c.Code()), cp(c.Name()), cp(c.Description()), cp(c.Wkt()), cp(c.CodeString())}
}

func accHeader(h *flat.Header) Header {
	m := Header{
		Name: cp(h.Name()), GeometryType: ptr(uint8(h.GeometryType())),
		HasZ: ptr(h.HasZ()), HasM: ptr(h.HasM()), HasT: ptr(h.HasT()), HasTM: ptr(h.HasTm()),
		Columns: accColumns(h.ColumnsLength(), h.Columns), FeaturesCount: ptr(h.FeaturesCount()), NodeSize: ptr(h.IndexNodeSize()),
		Title: cp(h.Title()), Desc: cp(h.Description()), Metadata: cp(h.Metadata()),
	}
	for i := 0; i < lenOK(h.EnvelopeLength()); i++ {
		m.Envelope = append(m.Envelope, F(h.Envelope(i)))
	}
	if c := h.Crs(nil); c != nil {
		m.Crs = ptr(accCrs(c))
	}
	return m
}

func accGeometry(g *flat.Geometry) Geometry {
	m := Geometry{Type: ptr(uint8(g.Type()))}
	for i := 0; i < lenOK(g.EndsLength()); i++ {
		m.Ends = append(m.Ends, g.Ends(i))
	}
	for i := 0; i < lenOK(g.XyLength()); i++ {
		m.XY = append(m.XY, F(g.Xy(i)))
	}
	for i := 0; i < lenOK(g.ZLength()); i++ {
		m.Z = append(m.Z, F(g.Z(i)))
	}
	for i := 0; i < lenOK(g.MLength()); i++ {
		m.M = append(m.M, F(g.M(i)))
	}
	for i := 0; i < lenOK(g.TLength()); i++ {
		m.T = append(m.T, F(g.T(i)))
	}
	for i := 0; i < lenOK(g.TmLength()); i++ {
		m.TM = append(m.TM, g.Tm(i))
	}
	for i := 0; i < lenOK(g.PartsLength()); i++ {
		var p flat.Geometry
		if !g.Parts(&p, i) {
			panic(violation{fmt.Sprintf("no geometry part %d of %d", i, g.PartsLength())})
		}
		m.Parts = append(m.Parts, accGeometry(&p))
	}
	return m
}

func accFeature(f *flat.Feature) Feature {
	m := Feature{Props: cp(f.PropertiesBytes()), Columns: accColumns(f.ColumnsLength(), f.Columns)}
	m.Props = nilIfEmpty(m.Props)
	if g := f.Geometry(nil); g != nil {
		m.Geom = ptr(accGeometry(g))
	}
	return m
}

// diff describes the difference between two values which serialize
// differently; it is empty if they are equal.
func diff(got, want any) string {
	g, err1 := json.Marshal(got)
	w, err2 := json.Marshal(want)
	if err1 != nil || err2 != nil {
		harnessFail("cannot serialize: %v %v", err1, err2)
	}
	if string(g) == string(w) {
		return ""
	}
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("differ at ...%s; got %s, want %s", clip(string(g[lo:i]), 80), clip(string(g[i:]), 120), clip(string(w[i:]), 120))
}

// Builders. The order chooses between ascending and descending field
// order, both of which are legal.

func bStr(b *flatbuffers.Builder, v []byte) flatbuffers.UOffsetT {
	if v == nil {
		return 0
	}
	return b.CreateByteString(v)
}

func inOrder(rev bool, fs []func()) {
	for i := range fs {
		if rev {
			fs[len(fs)-1-i]()
		} else {
			fs[i]()
		}
	}
}

func bColumn(b *flatbuffers.Builder, c *Column, rev bool) flatbuffers.UOffsetT {
	name, title, desc, meta := bStr(b, c.Name), bStr(b, c.Title), bStr(b, c.Desc), bStr(b, c.Metadata)
	flat.ColumnStart(b)
	inOrder(rev, []func(){
		func() {
			if c.Name != nil {
				flat.ColumnAddName(b, name)
			}
		},
		func() {
			if c.Type != nil {
				flat.ColumnAddType(b, flat.ColumnType(*c.Type))
			}
		},
		func() {
			if c.Title != nil {
				flat.ColumnAddTitle(b, title)
			}
		},
		func() {
			if c.Desc != nil {
				flat.ColumnAddDescription(b, desc)
			}
		},
		func() {
			if c.Width != nil {
				flat.ColumnAddWidth(b, *c.Width)
			}
		},
		func() {
			if c.Precision != nil {
				flat.ColumnAddPrecision(b, *c.Precision)
			}
		},
		func() {
			if c.Scale != nil {
				flat.ColumnAddScale(b, *c.Scale)
			}
		},
		func() {
			if c.Nullable != nil {
				flat.ColumnAddNullable(b, *c.Nullable)
			}
		},
		func() {
			if c.Unique != nil {
				flat.ColumnAddUnique(b, *c.Unique)
			}
		},
		func() {
			if c.PrimaryKey != nil {
				flat.ColumnAddPrimaryKey(b, *c.PrimaryKey)
			}
		},
		func() {
			if c.Metadata != nil {
				flat.ColumnAddMetadata(b, meta)
			}
		},
	})
	return flat.ColumnEnd(b)
}

func bCrs(b *flatbuffers.Builder, c *Crs, rev bool) flatbuffers.UOffsetT {
	org, name, desc, wkt, cs := bStr(b, c.Org), bStr(b, c.Name), bStr(b, c.Desc), bStr(b, c.Wkt), bStr(b, c.CodeString)
	flat.CrsStart(b)
	inOrder(rev, []func(){
		func() {
			if c.Org != nil {
				flat.CrsAddOrg(b, org)
			}
		},
		func() {
			if c.Code != nil {
				flat.CrsAddCode(b, *c.Code)
			}
		},
		func() {
			if c.Name != nil {
				flat.CrsAddName(b, name)
			}
		},
		func() {
			if c.Desc != nil {
				flat.CrsAddDescription(b, desc)
			}
		},
		func() {
			if c.Wkt != nil {
				flat.CrsAddWkt(b, wkt)
			}
		},
		func() {
			if c.CodeString != nil {
				flat.CrsAddCodeString(b, cs)
			}
		},
	})
	return flat.CrsEnd(b)
}

func bUOffsets(b *flatbuffers.Builder, start func(*flatbuffers.Builder, int) flatbuffers.UOffsetT, os []flatbuffers.UOffsetT) flatbuffers.UOffsetT {
	start(b, len(os))
	for i := len(os) - 1; i >= 0; i-- {
		b.PrependUOffsetT(os[i])
	}
	return b.EndVector(len(os))
}

func bColumns(b *flatbuffers.Builder, start func(*flatbuffers.Builder, int) flatbuffers.UOffsetT, cs []Column, rev bool) flatbuffers.UOffsetT {
	if cs == nil {
		return 0
	}
	var os []flatbuffers.UOffsetT
	for i := range cs {
		os = append(os, bColumn(b, &cs[i], rev))
	}
	return bUOffsets(b, start, os)
}

func bF64s(b *flatbuffers.Builder, start func(*flatbuffers.Builder, int) flatbuffers.UOffsetT, v []F) flatbuffers.UOffsetT {
	if v == nil {
		return 0
	}
	start(b, len(v))
	for i := len(v) - 1; i >= 0; i-- {
		if len(v)%2 > 0 { // start has made room for the elements and aligned them
			b.PlaceFloat64(float64(v[i]))
		} else {
			b.PrependFloat64(float64(v[i]))
		}
	}
	return b.EndVector(len(v))
}

func bHeader(b *flatbuffers.Builder, h *Header, rev bool) flatbuffers.UOffsetT {
	name, title, desc, meta := bStr(b, h.Name), bStr(b, h.Title), bStr(b, h.Desc), bStr(b, h.Metadata)
	env := bF64s(b, flat.HeaderStartEnvelopeVector, h.Envelope)
	cols := bColumns(b, flat.HeaderStartColumnsVector, h.Columns, rev)
	var crs flatbuffers.UOffsetT
	if h.Crs != nil {
		crs = bCrs(b, h.Crs, rev)
	}
	flat.HeaderStart(b)
	inOrder(rev, []func(){
		func() {
			if h.Name != nil {
				flat.HeaderAddName(b, name)
			}
		},
		func() {
			if h.Envelope != nil {
				flat.HeaderAddEnvelope(b, env)
			}
		},
		func() {
			if h.GeometryType != nil {
				flat.HeaderAddGeometryType(b, flat.GeometryType(*h.GeometryType))
			}
		},
		func() {
			if h.HasZ != nil {
				flat.HeaderAddHasZ(b, *h.HasZ)
			}
		},
		func() {
			if h.HasM != nil {
				flat.HeaderAddHasM(b, *h.HasM)
			}
		},
		func() {
			if h.HasT != nil {
				flat.HeaderAddHasT(b, *h.HasT)
			}
		},
		func() {
			if h.HasTM != nil {
				flat.HeaderAddHasTm(b, *h.HasTM)
			}
		},
		func() {
			if h.Columns != nil {
				flat.HeaderAddColumns(b, cols)
			}
		},
		func() {
			if h.FeaturesCount != nil {
				flat.HeaderAddFeaturesCount(b, *h.FeaturesCount)
			}
		},
		func() {
			if h.NodeSize != nil {
				flat.HeaderAddIndexNodeSize(b, *h.NodeSize)
			}
		},
		func() {
			if h.Crs != nil {
				flat.HeaderAddCrs(b, crs)
			}
		},
		func() {
			if h.Title != nil {
				flat.HeaderAddTitle(b, title)
			}
		},
		func() {
			if h.Desc != nil {
				flat.HeaderAddDescription(b, desc)
			}
		},
		func() {
			if h.Metadata != nil {
				flat.HeaderAddMetadata(b, meta)
			}
		},
	})
	return flat.HeaderEnd(b)
}

func bGeometry(b *flatbuffers.Builder, g *Geometry, rev bool) flatbuffers.UOffsetT {
	var ends, tm, parts flatbuffers.UOffsetT
	if g.Parts != nil {
		var os []flatbuffers.UOffsetT
		for i := range g.Parts {
			os = append(os, bGeometry(b, &g.Parts[i], rev))
		}
		parts = bUOffsets(b, flat.GeometryStartPartsVector, os)
	}
	if g.Ends != nil {
		flat.GeometryStartEndsVector(b, len(g.Ends))
		for i := len(g.Ends) - 1; i >= 0; i-- {
			if len(g.Ends)%2 > 0 {
				b.PlaceUint32(g.Ends[i])
			} else {
				b.PrependUint32(g.Ends[i])
			}
		}
		ends = b.EndVector(len(g.Ends))
	}
	xy := bF64s(b, flat.GeometryStartXyVector, g.XY)
	z := bF64s(b, flat.GeometryStartZVector, g.Z)
	m := bF64s(b, flat.GeometryStartMVector, g.M)
	t := bF64s(b, flat.GeometryStartTVector, g.T)
	if g.TM != nil {
		flat.GeometryStartTmVector(b, len(g.TM))
		for i := len(g.TM) - 1; i >= 0; i-- {
			if len(g.TM)%2 > 0 {
				b.PlaceUint64(g.TM[i])
			} else {
				b.PrependUint64(g.TM[i])
			}
		}
		tm = b.EndVector(len(g.TM))
	}
	flat.GeometryStart(b)
	inOrder(rev, []func(){
		func() {
			if g.Ends != nil {
				flat.GeometryAddEnds(b, ends)
			}
		},
		func() {
			if g.XY != nil {
				flat.GeometryAddXy(b, xy)
			}
		},
		func() {
			if g.Z != nil {
				flat.GeometryAddZ(b, z)
			}
		},
		func() {
			if g.M != nil {
				flat.GeometryAddM(b, m)
			}
		},
		func() {
			if g.T != nil {
				flat.GeometryAddT(b, t)
			}
		},
		func() {
			if g.TM != nil {
				flat.GeometryAddTm(b, tm)
			}
		},
		func() {
			if g.Type != nil {
				flat.GeometryAddType(b, flat.GeometryType(*g.Type))
			}
		},
		func() {
			if g.Parts != nil {
				flat.GeometryAddParts(b, parts)
			}
		},
	})
	return flat.GeometryEnd(b)
}

func bFeature(b *flatbuffers.Builder, f *Feature, rev bool) flatbuffers.UOffsetT {
	var geom, props flatbuffers.UOffsetT
	if f.Geom != nil {
		geom = bGeometry(b, f.Geom, rev)
	}
	if f.Props != nil {
		flat.FeatureStartPropertiesVector(b, len(f.Props))
		for i := len(f.Props) - 1; i >= 0; i-- {
			if len(f.Props)%2 > 0 {
				b.PlaceByte(f.Props[i])
			} else {
				b.PrependByte(f.Props[i])
			}
		}
		props = b.EndVector(len(f.Props))
	}
	cols := bColumns(b, flat.FeatureStartColumnsVector, f.Columns, rev)
	flat.FeatureStart(b)
	inOrder(rev, []func(){
		func() {
			if f.Geom != nil {
				flat.FeatureAddGeometry(b, geom)
			}
		},
		func() {
			if f.Props != nil {
				flat.FeatureAddProperties(b, props)
			}
		},
		func() {
			if f.Columns != nil {
				flat.FeatureAddColumns(b, cols)
			}
		},
	})
	return flat.FeatureEnd(b)
}
