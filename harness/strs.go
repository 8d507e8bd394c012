package main

// S01: text summaries.

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"pgregory.net/rapid"
)

var geometryNames = []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}

func geometryName(n uint8) string {
	if int(n) < len(geometryNames) {
		return geometryNames[n]
	}
	return "GeometryType(" + strconv.Itoa(int(n)) + ")"
}

func columnTypeName(n uint8) string {
	if int(n) < len(typeNames) {
		return typeNames[n]
	}
	return "ColumnType(" + strconv.Itoa(int(n)) + ")"
}

// headerText is the summary a header should have.
func headerText(h *Header) string {
	n := h.norm()
	h = &n
	var b strings.Builder
	text := func(key string, v []byte) {
		if v != nil {
			b.WriteString(key + ":" + string(v))
		}
	}
	b.WriteString("Header{")
	text("Name", h.Name)
	if len(h.Envelope) > 0 {
		var fs []string
		for _, f := range h.Envelope {
			fs = append(fs, fmtG(float64(f)))
		}
		b.WriteString(",Envelope:[" + strings.Join(fs, ",") + "]")
	}
	b.WriteString(",Type:" + geometryName(*h.GeometryType))
	var flags []string
	for i, p := range []*bool{h.HasZ, h.HasM, h.HasT, h.HasTM} {
		if *p {
			flags = append(flags, []string{"Z", "M", "T", "TM"}[i])
		}
	}
	if flags != nil {
		b.WriteString("," + strings.Join(flags, "|"))
	}
	b.WriteString(",NumColumns:" + strconv.Itoa(len(h.Columns)))
	if *h.FeaturesCount > 0 {
		b.WriteString(",NumFeatures:" + strconv.FormatUint(*h.FeaturesCount, 10))
	} else {
		b.WriteString(",NumFeatures:UNKNOWN")
	}
	if *h.NodeSize > 0 {
		b.WriteString(",NodeSize:" + strconv.Itoa(int(*h.NodeSize)))
	} else {
		b.WriteString(",NO INDEX")
	}
	if c := h.Crs; c != nil {
		b.WriteString(",CRS:{")
		text("Org", c.Org)
		b.WriteString(",Code:" + strconv.Itoa(int(*orU(c.Code, 0))))
		text(",Name", c.Name)
		if c.Wkt != nil {
			b.WriteString(",WKT:" + strconv.Itoa(len(c.Wkt)) + " bytes")
		} else {
			b.WriteString(",WKT:<nil>")
		}
		text(",CodeString", c.CodeString)
		b.WriteString("}")
	} else {
		b.WriteString(",CRS:<nil>")
	}
	text(",Title", h.Title)
	text(",Desc", h.Desc)
	text(",Meta", h.Metadata)
	b.WriteString("}")
	return b.String()
}

// valueText is the text of a property value.
func valueText(v *PVal, lowByte bool) string {
	u := v.U
	if lowByte && v.Type == 5 {
		u &= 0xff
	}
	switch v.Type {
	case 0:
		return strconv.Itoa(int(int8(u)))
	case 2:
		return strconv.FormatBool(u != 0)
	case 3:
		return strconv.Itoa(int(int16(u)))
	case 5:
		return strconv.Itoa(int(int32(u)))
	case 7:
		return strconv.FormatInt(int64(u), 10)
	case 9:
		return fmt.Sprint(math.Float32frombits(uint32(u)))
	case 10:
		return fmt.Sprint(math.Float64frombits(u))
	case 11, 13:
		return string(v.body())
	case 12, 14:
		return fmt.Sprint(append([]byte{}, v.body()...))
	}
	return strconv.FormatUint(u, 10)
}

func featureText(f *Feature, cols []Column, vals []PVal, lowByte bool) string {
	var b strings.Builder
	b.WriteString("Feature{Geometry:")
	if g := f.Geom; g != nil {
		b.WriteString("{Type:" + geometryName(*orU(g.Type, 0)) + ",Bounds:")
		if box, ok := g.bounds(); ok {
			b.WriteString(fmtBox(box))
		} else {
			b.WriteString("<nil>")
		}
		b.WriteString("}")
	} else {
		b.WriteString("<nil>")
	}
	b.WriteString(",Properties:{")
	for i := range vals {
		if i > 0 {
			b.WriteString(",")
		}
		if name := cols[vals[i].Col].Name; len(name) > 0 {
			b.Write(name)
		} else {
			b.WriteString("[" + strconv.Itoa(int(vals[i].Col)) + "]")
		}
		b.WriteString(":" + valueText(&vals[i], lowByte))
	}
	b.WriteString("}}")
	return b.String()
}

func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-30)
	return fmt.Sprintf("...%q; want ...%q", clip(got[lo:], 160), clip(want[lo:], 160))
}

// Headers

type HeaderText struct {
	H       Header
	L       Layout
	Builder bool
}

func drawFullHeader(t *rapid.T) Header {
	h := drawHeader(t, 4)
	h.FeaturesCount = opt(t, func() uint64 { return drawU64(t) })
	h.NodeSize = opt(t, func() uint16 { return uint16(pick(t, []int{0, 1, 2, 16, 17, 255, 256, 65535}, "ns")) })
	return h
}

func drawHeaderText(t *rapid.T) HeaderText {
	c := HeaderText{H: drawFullHeader(t), L: drawLayout(t), Builder: oneIn(t, 4, "builder")}
	if oneIn(t, 10, "oddtype") {
		c.H.GeometryType = ptr(uint8(drawInt(t, 18, 255, "gt")))
	}
	if oneIn(t, 8, "wide") {
		c.H.Columns = make([]Column, drawInt(t, 5, 400, "ncols"))
	}
	return c
}

func runS01Header(c HeaderText, x *Ctx) {
	var buf []byte
	if c.Builder {
		buf = headerItem(&file{model: c.H, spec: &FileSpec{HL: c.L}}, viaBuilder).bytes
	} else {
		buf = encodeSizePrefixed(c.H.tab(), c.L)
	}
	keep := cp(buf)
	h := flat.GetSizePrefixedRootAsHeader(buf, 0)
	want := headerText(&c.H)
	for i := 0; i < 2; i++ {
		yield()
		if got := flatgeobuf.HeaderString(h); got != want {
			x.Failf("header summary differs at %s", firstDiff(got, want))
		}
	}
	if !bytes.Equal(buf, keep) {
		x.Failf("the summary changes the header")
	}
	x.LabelIf(c.H.Crs != nil, "crs")
	x.LabelIf(len(c.H.Envelope) > 0, "envelope")
	if len(c.H.Envelope) > 0 || c.H.Crs != nil || len(c.H.Columns) > 0 {
		x.NT()
	}
}

// Features

type FeatureText struct {
	Geom   *Geometry
	Own    []Column // the feature's schema
	Schema SchemaSpec
	NoSch  bool // no schema is given
	Vals   []PVal
	L      Layout
	NoProp bool // the properties field is absent if there are none
}

func (g *Geometry) noNegZero() {
	for i := range g.XY {
		if g.XY[i] == 0 {
			g.XY[i] = 0
		}
	}
	for i := range g.Parts {
		g.Parts[i].noNegZero()
	}
}

func drawFeatureText(t *rapid.T) FeatureText {
	c := FeatureText{Schema: drawSchema(t), L: drawLayout(t), NoProp: drawBool(t, "noprop")}
	if c.Schema.N > 300 {
		c.Schema.N = 300
	}
	if !oneIn(t, 6, "nogeom") {
		c.Geom = ptr(drawGeometry(t, drawMode(t), 3))
		c.Geom.noNegZero()
		if oneIn(t, 10, "oddtype") {
			c.Geom.Type = ptr(uint8(drawInt(t, 18, 255, "gt")))
		}
	}
	schema := c.Schema.columns()
	if oneIn(t, 3, "own") {
		c.Own = drawColumns(t, 5)
		if len(c.Own) > 0 {
			schema = c.Own
		}
	}
	c.NoSch = len(c.Own) > 0 && drawBool(t, "nosch")
	if !c.NoSch && len(schema) > 0 {
		c.Vals = drawProps(t, schema, 6)
	} else if c.NoSch && len(c.Own) > 0 {
		c.Vals = drawProps(t, c.Own, 6)
	}
	if len(c.Vals) == 0 && len(c.Own) == 0 && oneIn(t, 4, "noschema") {
		c.NoSch = true
	}
	return c
}

func fixedFeatureTexts() (r []FeatureText) {
	// Coordinates in nested parts only, deep and wide.
	g := Geometry{XY: []F{1, 2}}
	for i := 0; i < 40; i++ {
		g = Geometry{Parts: []Geometry{g, {XY: []F{F(i), F(-i)}}}}
	}
	r = append(r, FeatureText{Geom: &g})
	w := Geometry{}
	for i := 0; i < 500; i++ {
		w.Parts = append(w.Parts, Geometry{XY: []F{F(i * 3 % 101), F(i * 7 % 103)}})
	}
	r = append(r, FeatureText{Geom: &w})
	l := Geometry{}
	for i := 0; i < 2000; i++ {
		l.XY = append(l.XY, F(i*37%1009), F(i*91%997))
	}
	r = append(r, FeatureText{Geom: &l}, FeatureText{NoSch: true}, FeatureText{Geom: &Geometry{}, NoSch: true})
	return r
}

func runS01Feature(c FeatureText, x *Ctx) {
	f := Feature{Geom: c.Geom, Columns: c.Own, L: c.L}
	if len(c.Vals) > 0 || !c.NoProp {
		f.Props = encodeProps(c.Vals)
	}
	cols := c.Own
	var schema flatgeobuf.Schema
	if !c.NoSch {
		sc := c.Schema.columns()
		schema = c.Schema.schema(sc)
		if len(cols) == 0 {
			cols = sc
		}
	}
	buf := f.bytes()
	keep := cp(buf)
	ff := flat.GetSizePrefixedRootAsFeature(buf, 0)
	want := featureText(&f, cols, c.Vals, false)
	low := featureText(&f, cols, c.Vals, true)
	for i := 0; i < 2; i++ {
		yield()
		got := flatgeobuf.FeatureString(ff, schema)
		if got != want && got == low {
			x.Known(keyReadInt, fmt.Sprintf("feature summary differs at %s", firstDiff(got, want)))
		} else if got != want {
			// An Int may be shown wrong and something else, too.
			x.Failf("feature summary differs at %s", firstDiff(got, low))
		}
	}
	if !bytes.Equal(buf, keep) {
		x.Failf("the summary changes the feature")
	}
	x.LabelIf(len(c.Own) > 0, "own schema")
	x.LabelIf(len(c.Own) == 0 && !c.NoSch, "given schema")
	x.LabelIf(c.NoSch, "no schema given")
	x.LabelIf(c.Geom != nil && len(c.Geom.Parts) > 0, "nested parts")
	for i := range c.Vals {
		x.LabelIf(len(cols[c.Vals[i].Col].Name) == 0, "unnamed column")
	}
	if len(c.Vals) > 0 && c.Geom != nil {
		x.NT()
	}
}

// Features whose properties cannot be decoded

type BadFeatureText struct {
	F    FeatureText
	Mode int
	Cut  int
	Col  int
	Type uint8
}

func drawBadFeatureText(t *rapid.T) BadFeatureText {
	return BadFeatureText{F: drawFeatureText(t), Mode: drawInt(t, 0, 2, "mode"), Cut: drawInt(t, 1, 40, "cut"), Col: drawInt(t, 0, 300, "col"), Type: uint8(drawInt(t, 15, 255, "type"))}
}

func runS01Bad(c BadFeatureText, x *Ctx) {
	f := Feature{Geom: c.F.Geom, Columns: c.F.Own, L: c.F.L}
	var schema flatgeobuf.Schema
	sc := SchemaSpec{}
	cols := c.F.Own
	if !c.F.NoSch {
		sc = c.F.Schema
		if len(cols) == 0 {
			cols = sc.columns()
		}
	}
	if len(cols) == 0 {
		return
	}
	b := encodeProps(c.F.Vals)
	switch c.Mode {
	case 0: // cut in the last property
		if len(c.F.Vals) == 0 {
			return
		}
		last := len(b) - len(encodeProps(c.F.Vals[:len(c.F.Vals)-1]))
		b = b[:len(b)-1-c.Cut%(last-1)]
	case 1: // no such column
		b = le.AppendUint16(b, uint16(len(cols)+c.Col))
		b = append(b, junk(9)...)
	default: // unknown type
		if len(c.F.Own) > 0 {
			f.Columns = append(append([]Column{}, c.F.Own...), Column{Type: ptr(c.Type)})
		} else {
			sc = SchemaSpec{Cols: append(append([]Column{}, cols...), Column{Type: ptr(c.Type)}), Kind: sc.Kind}
		}
		b = le.AppendUint16(b, uint16(len(cols)))
		b = append(b, junk(9)...)
	}
	f.Props = b
	if !c.F.NoSch {
		schema = sc.schema(sc.columns())
	}
	got := flatgeobuf.FeatureString(flat.GetSizePrefixedRootAsFeature(f.bytes(), 0), schema)
	if strings.HasPrefix(got, "Feature{") && strings.HasSuffix(got, "}}") {
		x.Failf("a feature whose properties cannot be decoded (%s) is shown as %s", []string{"cut", "no such column", "unknown type"}[c.Mode], clip(fmt.Sprintf("%q", got), 300))
	}
	x.Label([]string{"cut", "no such column", "unknown type"}[c.Mode])
	x.NT()
}

func init() {
	register(&Prop{ID: "S01", Rule: "header: has an envelope, a CRS or columns; feature: has a geometry and properties",
		Subs: []*Sub{
			sub("header", 100000, 1500000, drawHeaderText, runS01Header),
			sub("feature", 100000, 1500000, drawFeatureText, runS01Feature, fixedFeatureTexts),
			sub("undecodable properties", 30000, 500000, drawBadFeatureText, runS01Bad),
		}})
}
