package main

// An independent encoder and decoder of FlatBuffers tables, written from
// the FlatBuffers format description and the FlatGeobuf schema
// (header.fbs, feature.fbs). It shares no code with the flatbuffers
// library or the generated package flat.

import (
	"encoding/binary"
	"math"
)

var le = binary.LittleEndian

// Layout chooses between the many valid encodings of the same tables.
type Layout struct {
	VtAfter bool  `json:",omitempty"` // vtable behind the table instead of in front
	Rev     bool  `json:",omitempty"` // fields in reverse slot order
	Full    bool  `json:",omitempty"` // vtable lists trailing absent fields
	Pad     uint8 `json:",omitempty"` // extra padding between objects, multiple of 8 bytes
	ShareVt bool  `json:",omitempty"` // equal vtables are stored once
	Unalign bool  `json:",omitempty"` // no alignment padding at all
	Extra   uint8 `json:",omitempty"` // fields unknown to the schema, after the known ones
}

type fbKind int

const (
	fbAbsent fbKind = iota
	fbScalar
	fbVector // of scalars; strings get a terminating zero
	fbTable
	fbTables
)

type fbVal struct {
	kind fbKind
	size int    // scalar or element size
	bits uint64 // scalar
	raw  []byte // vector elements
	str  bool
	tbls []*fbTab
}

type fbTab struct{ slots []fbVal }

type fbEnc struct {
	buf []byte
	l   Layout
	vts map[string]int
}

func (e *fbEnc) align(n int) {
	if e.l.Unalign {
		return
	}
	for len(e.buf)%n != 0 {
		e.buf = append(e.buf, 0)
	}
}

func (e *fbEnc) put(v uint64, size int) {
	for i := 0; i < size; i++ {
		e.buf = append(e.buf, byte(v>>(8*i)))
	}
}

func (e *fbEnc) patchUOffset(at, target int) {
	le.PutUint32(e.buf[at:], uint32(target-at))
}

// table appends a table and everything it refers to, and returns its
// position.
func (e *fbEnc) table(t *fbTab) int {
	for i := uint8(0); i < e.l.Pad; i++ {
		e.put(0, 8)
	}
	slots := t.slots
	if e.l.Extra > 0 {
		slots = append(append([]fbVal(nil), slots...), extraFields(int(e.l.Extra))...)
	}
	n := len(slots)
	if !e.l.Full {
		for n > 0 && slots[n-1].kind == fbAbsent {
			n--
		}
	}
	vtSize := 4 + 2*n
	var vtPos int
	if !e.l.VtAfter {
		e.align(2)
		vtPos = len(e.buf)
		e.buf = append(e.buf, make([]byte, vtSize)...)
	}
	e.align(8)
	pos := len(e.buf)
	e.put(0, 4)
	vt := make([]byte, vtSize)
	at := make([]int, n)
	for k := 0; k < n; k++ {
		i := k
		if e.l.Rev {
			i = n - 1 - k
		}
		v := &slots[i]
		if v.kind == fbAbsent {
			continue
		}
		sz := 4
		if v.kind == fbScalar {
			sz = v.size
		}
		e.align(sz)
		at[i] = len(e.buf)
		le.PutUint16(vt[4+2*i:], uint16(len(e.buf)-pos))
		if v.kind == fbScalar {
			e.put(v.bits, sz)
		} else {
			e.put(0, 4)
		}
	}
	le.PutUint16(vt[0:], uint16(vtSize))
	le.PutUint16(vt[2:], uint16(len(e.buf)-pos))
	if shared, ok := e.vts[string(vt)]; ok && e.l.ShareVt && e.l.VtAfter {
		vtPos = shared
	} else {
		if e.l.VtAfter {
			e.align(2)
			vtPos = len(e.buf)
			e.buf = append(e.buf, vt...)
		} else {
			copy(e.buf[vtPos:], vt)
		}
		if e.vts == nil {
			e.vts = map[string]int{}
		}
		e.vts[string(vt)] = vtPos
	}
	le.PutUint32(e.buf[pos:], uint32(int32(pos-vtPos)))
	for i := 0; i < n; i++ {
		v := &slots[i]
		switch v.kind {
		case fbVector:
			e.align(4)
			if !e.l.Unalign {
				for (len(e.buf)+4)%v.size != 0 {
					e.buf = append(e.buf, 0)
				}
			}
			e.patchUOffset(at[i], len(e.buf))
			e.put(uint64(len(v.raw)/v.size), 4)
			e.buf = append(e.buf, v.raw...)
			if v.str {
				e.buf = append(e.buf, 0)
			}
		case fbTable:
			e.patchUOffset(at[i], e.table(v.tbls[0]))
		case fbTables:
			e.align(4)
			e.patchUOffset(at[i], len(e.buf))
			e.put(uint64(len(v.tbls)), 4)
			base := len(e.buf)
			e.buf = append(e.buf, make([]byte, 4*len(v.tbls))...)
			for j := range v.tbls {
				e.patchUOffset(base+4*j, e.table(v.tbls[j]))
			}
		}
	}
	return pos
}

// extraFields are fields such as a later version of the schema may add.
func extraFields(n int) []fbVal {
	vs := make([]fbVal, n)
	for i := range vs {
		switch i % 4 {
		case 0:
			vs[i] = fbVal{kind: fbScalar, size: 8, bits: 0xa1a2a3a4a5a6a7a8}
		case 1:
			vs[i] = fbVal{kind: fbScalar, size: 1, bits: 0xb1}
		case 2:
			vs[i] = fbVal{kind: fbVector, size: 1, raw: []byte("unknown"), str: true}
		}
	}
	return vs
}

// encodeRoot encodes a root table without a size prefix.
func encodeRoot(t *fbTab, l Layout) []byte {
	e := &fbEnc{l: l}
	e.put(0, 4)
	pos := e.table(t)
	le.PutUint32(e.buf, uint32(pos))
	return e.buf
}

// encodeSizePrefixed encodes a root table with a size prefix.
func encodeSizePrefixed(t *fbTab, l Layout) []byte {
	e := &fbEnc{l: l}
	e.put(0, 8)
	pos := e.table(t)
	e.align(4)
	le.PutUint32(e.buf, uint32(len(e.buf)-4))
	le.PutUint32(e.buf[4:], uint32(pos-4))
	return e.buf
}

// Value helpers; nil pointers and nil slices are absent fields.

func vU8(p *uint8) fbVal {
	if p == nil {
		return fbVal{}
	}
	return fbVal{kind: fbScalar, size: 1, bits: uint64(*p)}
}

func vBool(p *bool) fbVal {
	if p == nil {
		return fbVal{}
	}
	v := fbVal{kind: fbScalar, size: 1}
	if *p {
		v.bits = 1
	}
	return v
}

func vU16(p *uint16) fbVal {
	if p == nil {
		return fbVal{}
	}
	return fbVal{kind: fbScalar, size: 2, bits: uint64(*p)}
}

func vI32(p *int32) fbVal {
	if p == nil {
		return fbVal{}
	}
	return fbVal{kind: fbScalar, size: 4, bits: uint64(uint32(*p))}
}

func vU64(p *uint64) fbVal {
	if p == nil {
		return fbVal{}
	}
	return fbVal{kind: fbScalar, size: 8, bits: *p}
}

func vStr(b []byte) fbVal {
	if b == nil {
		return fbVal{}
	}
	return fbVal{kind: fbVector, size: 1, raw: b, str: true}
}

func vBytes(b []byte) fbVal {
	if b == nil {
		return fbVal{}
	}
	return fbVal{kind: fbVector, size: 1, raw: b}
}

func vF64s(f []F) fbVal {
	if f == nil {
		return fbVal{}
	}
	raw := make([]byte, 0, 8*len(f))
	for _, x := range f {
		raw = le.AppendUint64(raw, math.Float64bits(float64(x)))
	}
	return fbVal{kind: fbVector, size: 8, raw: raw}
}

func vU32s(f []uint32) fbVal {
	if f == nil {
		return fbVal{}
	}
	raw := make([]byte, 0, 4*len(f))
	for _, x := range f {
		raw = le.AppendUint32(raw, x)
	}
	return fbVal{kind: fbVector, size: 4, raw: raw}
}

func vU64s(f []uint64) fbVal {
	if f == nil {
		return fbVal{}
	}
	raw := make([]byte, 0, 8*len(f))
	for _, x := range f {
		raw = le.AppendUint64(raw, x)
	}
	return fbVal{kind: fbVector, size: 8, raw: raw}
}

// Model of the FlatGeobuf tables.

type Column struct {
	Name       []byte
	Type       *uint8
	Title      []byte
	Desc       []byte
	Width      *int32 `json:",omitempty"`
	Precision  *int32 `json:",omitempty"`
	Scale      *int32 `json:",omitempty"`
	Nullable   *bool  `json:",omitempty"`
	Unique     *bool  `json:",omitempty"`
	PrimaryKey *bool  `json:",omitempty"`
	Metadata   []byte
}

type Crs struct {
	Org        []byte
	Code       *int32
	Name       []byte
	Desc       []byte
	Wkt        []byte
	CodeString []byte
}

type Header struct {
	Name          []byte
	Envelope      []F
	GeometryType  *uint8
	HasZ          *bool
	HasM          *bool
	HasT          *bool
	HasTM         *bool
	Columns       []Column
	FeaturesCount *uint64
	NodeSize      *uint16
	Crs           *Crs
	Title         []byte
	Desc          []byte
	Metadata      []byte
}

type Geometry struct {
	Ends  []uint32
	XY    []F
	Z     []F
	M     []F
	T     []F
	TM    []uint64
	Type  *uint8
	Parts []Geometry
}

type Feature struct {
	Geom    *Geometry
	Props   []byte
	Columns []Column
	L       Layout
	Fill    int `json:",omitempty"` // if > 0, that many property bytes instead of Props
}

func (c *Column) tab() *fbTab {
	return &fbTab{[]fbVal{vStr(c.Name), vU8(c.Type), vStr(c.Title), vStr(c.Desc), vI32(c.Width), vI32(c.Precision), vI32(c.Scale), vBool(c.Nullable), vBool(c.Unique), vBool(c.PrimaryKey), vStr(c.Metadata)}}
}

func (c *Crs) tab() *fbTab {
	return &fbTab{[]fbVal{vStr(c.Org), vI32(c.Code), vStr(c.Name), vStr(c.Desc), vStr(c.Wkt), vStr(c.CodeString)}}
}

func vColumns(cs []Column) fbVal {
	if cs == nil {
		return fbVal{}
	}
	v := fbVal{kind: fbTables}
	for i := range cs {
		v.tbls = append(v.tbls, cs[i].tab())
	}
	return v
}

func (h *Header) tab() *fbTab {
	crs := fbVal{}
	if h.Crs != nil {
		crs = fbVal{kind: fbTable, tbls: []*fbTab{h.Crs.tab()}}
	}
	return &fbTab{[]fbVal{vStr(h.Name), vF64s(h.Envelope), vU8(h.GeometryType), vBool(h.HasZ), vBool(h.HasM), vBool(h.HasT), vBool(h.HasTM), vColumns(h.Columns), vU64(h.FeaturesCount), vU16(h.NodeSize), crs, vStr(h.Title), vStr(h.Desc), vStr(h.Metadata)}}
}

func (g *Geometry) tab() *fbTab {
	parts := fbVal{}
	if g.Parts != nil {
		parts.kind = fbTables
		for i := range g.Parts {
			parts.tbls = append(parts.tbls, g.Parts[i].tab())
		}
	}
	return &fbTab{[]fbVal{vU32s(g.Ends), vF64s(g.XY), vF64s(g.Z), vF64s(g.M), vF64s(g.T), vU64s(g.TM), vU8(g.Type), parts}}
}

func (f *Feature) tab() *fbTab {
	geom := fbVal{}
	if f.Geom != nil {
		geom = fbVal{kind: fbTable, tbls: []*fbTab{f.Geom.tab()}}
	}
	props := f.Props
	if f.Fill > 0 {
		props = junk(f.Fill)
	}
	return &fbTab{[]fbVal{geom, vBytes(props), vColumns(f.Columns)}}
}

func (f *Feature) bytes() []byte { return encodeSizePrefixed(f.tab(), f.L) }

// bounds is the extent over all nested parts; ok is false if there are no
// coordinates.
func (g *Geometry) bounds() (b Box4, ok bool) {
	b = emptyBox4
	var walk func(g *Geometry)
	walk = func(g *Geometry) {
		for i := 0; i+1 < len(g.XY); i += 2 {
			ok = true
			x, y := float64(g.XY[i]), float64(g.XY[i+1])
			b = b.union(Box4{x, y, x, y})
		}
		for i := range g.Parts {
			walk(&g.Parts[i])
		}
	}
	walk(g)
	return
}

// Independent decoder. It fails the case (a violation) if the bytes are
// not a valid encoding.

type fbDec struct {
	b   []byte
	pos int
	al  bool // values have to be aligned
}

func badFB(why string) { panic(violation{"malformed FlatBuffers data: " + why}) }

func (d fbDec) u16(at int) int {
	if at < 0 || at+2 > len(d.b) {
		badFB("offset out of range")
	}
	return int(le.Uint16(d.b[at:]))
}

func (d fbDec) u32(at int) int {
	if at < 0 || at+4 > len(d.b) {
		badFB("offset out of range")
	}
	return int(le.Uint32(d.b[at:]))
}

func decRoot(b []byte, at int) fbDec {
	d := fbDec{b: b}
	d.pos = at + d.u32(at)
	return d
}

func (d fbDec) align(at, size int) {
	if d.al && at%size != 0 {
		badFB("value not aligned")
	}
}

// field returns the position of a field or 0.
func (d fbDec) field(slot, size int) int {
	vt := d.pos - int(int32(d.u32(d.pos)))
	if n := d.u16(vt); 4+2*slot+2 > n {
		return 0
	}
	o := d.u16(vt + 4 + 2*slot)
	if o == 0 {
		return 0
	}
	if o+size > d.u16(vt+2) || d.pos+o+size > len(d.b) {
		badFB("field outside the table")
	}
	d.align(d.pos+o, size)
	return d.pos + o
}

func (d fbDec) scalar(slot, size int, def uint64) uint64 {
	at := d.field(slot, size)
	if at == 0 {
		return def
	}
	v := uint64(0)
	for i := 0; i < size; i++ {
		v |= uint64(d.b[at+i]) << (8 * i)
	}
	return v
}

// vector returns the position of the first element and the number of
// elements, or ok=false if the field is absent.
func (d fbDec) vector(slot, size int) (at, n int, ok bool) {
	f := d.field(slot, 4)
	if f == 0 {
		return 0, 0, false
	}
	v := f + d.u32(f)
	n = d.u32(v)
	if v+4+n*size > len(d.b) {
		badFB("vector outside the buffer")
	}
	d.align(v, 4)
	if n > 0 {
		d.align(v+4, size)
	}
	return v + 4, n, true
}

func (d fbDec) bytes(slot int, str bool) []byte {
	at, n, ok := d.vector(slot, 1)
	if !ok {
		return nil
	}
	if str && (at+n >= len(d.b) || d.b[at+n] != 0) {
		badFB("string without terminating zero")
	}
	return append([]byte{}, d.b[at:at+n]...)
}

func (d fbDec) sub(slot int) (fbDec, bool) {
	f := d.field(slot, 4)
	if f == 0 {
		return fbDec{}, false
	}
	return fbDec{d.b, f + d.u32(f), d.al}, true
}

func (d fbDec) subs(slot int) (r []fbDec) {
	at, n, ok := d.vector(slot, 4)
	if !ok {
		return nil
	}
	for i := 0; i < n; i++ {
		r = append(r, fbDec{d.b, at + 4*i + d.u32(at+4*i), d.al})
	}
	return
}

func (d fbDec) f64s(slot int) (r []F) {
	at, n, _ := d.vector(slot, 8)
	for i := 0; i < n; i++ {
		r = append(r, F(math.Float64frombits(le.Uint64(d.b[at+8*i:]))))
	}
	return
}

func ptr[T any](v T) *T { return &v }

func (d fbDec) column() Column {
	return Column{
		Name: d.bytes(0, true), Type: ptr(uint8(d.scalar(1, 1, 0))), Title: d.bytes(2, true), Desc: d.bytes(3, true),
		Width: ptr(int32(d.scalar(4, 4, math.MaxUint32))), Precision: ptr(int32(d.scalar(5, 4, math.MaxUint32))), Scale: ptr(int32(d.scalar(6, 4, math.MaxUint32))),
		Nullable: ptr(d.scalar(7, 1, 1) != 0), Unique: ptr(d.scalar(8, 1, 0) != 0), PrimaryKey: ptr(d.scalar(9, 1, 0) != 0), Metadata: d.bytes(10, true),
	}
}

func (d fbDec) columns(slot int) (r []Column) {
	for _, s := range d.subs(slot) {
		r = append(r, s.column())
	}
	return
}

func (d fbDec) crs() Crs {
	return Crs{d.bytes(0, true), ptr(int32(d.scalar(1, 4, 0))), d.bytes(2, true), d.bytes(3, true), d.bytes(4, true), d.bytes(5, true)}
}

func (d fbDec) header() Header {
	h := Header{
		Name: d.bytes(0, true), Envelope: d.f64s(1), GeometryType: ptr(uint8(d.scalar(2, 1, 0))),
		HasZ: ptr(d.scalar(3, 1, 0) != 0), HasM: ptr(d.scalar(4, 1, 0) != 0), HasT: ptr(d.scalar(5, 1, 0) != 0), HasTM: ptr(d.scalar(6, 1, 0) != 0),
		Columns: d.columns(7), FeaturesCount: ptr(d.scalar(8, 8, 0)), NodeSize: ptr(uint16(d.scalar(9, 2, 16))),
		Title: d.bytes(11, true), Desc: d.bytes(12, true), Metadata: d.bytes(13, true),
	}
	if s, ok := d.sub(10); ok {
		h.Crs = ptr(s.crs())
	}
	return h
}

func (d fbDec) geometry() Geometry {
	g := Geometry{XY: d.f64s(1), Z: d.f64s(2), M: d.f64s(3), T: d.f64s(4), Type: ptr(uint8(d.scalar(6, 1, 0)))}
	at, n, _ := d.vector(0, 4)
	for i := 0; i < n; i++ {
		g.Ends = append(g.Ends, uint32(d.u32(at+4*i)))
	}
	at, n, _ = d.vector(5, 8)
	for i := 0; i < n; i++ {
		g.TM = append(g.TM, le.Uint64(d.b[at+8*i:]))
	}
	for _, s := range d.subs(7) {
		g.Parts = append(g.Parts, s.geometry())
	}
	return g
}

func (d fbDec) feature() Feature {
	f := Feature{Props: d.bytes(1, false), Columns: d.columns(2)}
	if s, ok := d.sub(0); ok {
		f.Geom = ptr(s.geometry())
	}
	return f
}

// Normal forms: scalars that are absent get their default, vectors other
// than strings which are empty count as absent.

func orU[T any](p *T, def T) *T {
	if p == nil {
		return &def
	}
	return p
}

func (c Column) norm() Column {
	c.Type = orU(c.Type, 0)
	c.Width, c.Precision, c.Scale = orU(c.Width, -1), orU(c.Precision, -1), orU(c.Scale, -1)
	c.Nullable, c.Unique, c.PrimaryKey = orU(c.Nullable, true), orU(c.Unique, false), orU(c.PrimaryKey, false)
	return c
}

func normColumns(cs []Column) (r []Column) {
	for _, c := range cs {
		r = append(r, c.norm())
	}
	return
}

func nilIfEmpty[T any](s []T) []T {
	if len(s) == 0 {
		return nil
	}
	return s
}

func (h Header) norm() Header {
	h.Envelope = nilIfEmpty(h.Envelope)
	h.GeometryType = orU(h.GeometryType, 0)
	h.HasZ, h.HasM, h.HasT, h.HasTM = orU(h.HasZ, false), orU(h.HasM, false), orU(h.HasT, false), orU(h.HasTM, false)
	h.Columns = normColumns(h.Columns)
	h.FeaturesCount, h.NodeSize = orU(h.FeaturesCount, 0), orU(h.NodeSize, 16)
	if h.Crs != nil {
		c := *h.Crs
		c.Code = orU(c.Code, 0)
		h.Crs = &c
	}
	return h
}

func (g Geometry) norm() Geometry {
	g.Ends, g.XY, g.Z, g.M, g.T, g.TM = nilIfEmpty(g.Ends), nilIfEmpty(g.XY), nilIfEmpty(g.Z), nilIfEmpty(g.M), nilIfEmpty(g.T), nilIfEmpty(g.TM)
	g.Type = orU(g.Type, 0)
	var parts []Geometry
	for _, p := range g.Parts {
		parts = append(parts, p.norm())
	}
	g.Parts = parts
	return g
}

func (f Feature) norm() Feature {
	if f.Geom != nil {
		f.Geom = ptr(f.Geom.norm())
	}
	f.Props = nilIfEmpty(f.Props)
	if f.Fill > 0 {
		f.Props, f.Fill = junk(f.Fill), 0
	}
	f.Columns = normColumns(f.Columns)
	f.L = Layout{}
	return f
}
