package main

// Q01..Q04: property values.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"pgregory.net/rapid"
)

const numTypes = 15

var typeNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}

// writeValue writes a value with the method for its type.
func writeValue(w *flatgeobuf.PropWriter, v *PVal) (int, error) {
	switch v.Type {
	case 0:
		return w.WriteByte(int8(v.U))
	case 1:
		return w.WriteUByte(uint8(v.U))
	case 2:
		return w.WriteBool(v.U != 0)
	case 3:
		return w.WriteShort(int16(v.U))
	case 4:
		return w.WriteUShort(uint16(v.U))
	case 5:
		return w.WriteInt(int32(v.U))
	case 6:
		return w.WriteUInt(uint32(v.U))
	case 7:
		return w.WriteLong(int64(v.U))
	case 8:
		return w.WriteULong(v.U)
	case 9:
		return w.WriteFloat(math.Float32frombits(uint32(v.U)))
	case 10:
		return w.WriteDouble(math.Float64frombits(v.U))
	case 11, 13:
		return w.WriteString(string(v.body()))
	default:
		b := v.body()
		keep := cp(b)
		n, err := w.WriteBinary(b)
		if !bytes.Equal(b, keep) {
			panic(violation{"WriteBinary changes the bytes it is given"})
		}
		return n, err
	}
}

// readValue reads a value with the method for its type.
func readValue(r *flatgeobuf.PropReader, typ uint8) (any, error) {
	switch typ {
	case 0:
		return r.ReadByte()
	case 1:
		return r.ReadUByte()
	case 2:
		return r.ReadBool()
	case 3:
		return r.ReadShort()
	case 4:
		return r.ReadUShort()
	case 5:
		return r.ReadInt()
	case 6:
		return r.ReadUInt()
	case 7:
		return r.ReadLong()
	case 8:
		return r.ReadULong()
	case 9:
		return r.ReadFloat()
	case 10:
		return r.ReadDouble()
	case 11, 13:
		return r.ReadString()
	default:
		return r.ReadBinary()
	}
}

// goType is the Go type a value of a column type has.
func goType(typ uint8) string {
	switch typ {
	case 11, 13:
		return "string"
	case 12, 14:
		return "[]uint8"
	}
	return []string{"int8", "uint8", "bool", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"}[typ]
}

// bitsOf returns the bits of a value as they are stored.
func bitsOf(got any) (u uint64, b []byte, ok bool) {
	switch v := got.(type) {
	case int8:
		u = uint64(uint8(v))
	case uint8:
		u = uint64(v)
	case bool:
		u = uint64(b2i(v))
	case int16:
		u = uint64(uint16(v))
	case uint16:
		u = uint64(v)
	case int32:
		u = uint64(uint32(v))
	case uint32:
		u = uint64(v)
	case int64:
		u = uint64(v)
	case uint64:
		u = v
	case float32:
		u = uint64(math.Float32bits(v))
	case float64:
		u = math.Float64bits(v)
	case string:
		b = []byte(v)
	case []byte:
		b = v
	default:
		return 0, nil, false
	}
	return u, b, true
}

const keyReadInt = "readint-low-byte"

// sameValue checks that a value read is the one stored.
func sameValue(x *Ctx, what string, got any, v *PVal) {
	if t := fmt.Sprintf("%T", got); t != goType(v.Type) {
		x.Failf("%s: value of type %s has Go type %s, want %s", what, typeNames[v.Type], t, goType(v.Type))
	}
	u, b, _ := bitsOf(got)
	if isVar(v.Type) {
		if !bytes.Equal(b, v.body()) {
			x.Failf("%s: %s value is %s, want %s", what, typeNames[v.Type], clip(fmt.Sprintf("%q", clip(string(b), 200)), 200), clip(fmt.Sprintf("%q", clip(string(v.body()), 200)), 200))
		}
		return
	}
	if u == v.U {
		return
	}
	if v.Type == 5 && u == v.U&0xff {
		x.Known(keyReadInt, fmt.Sprintf("Int value %d is read as %d", int32(v.U), int32(u)))
		return
	}
	x.Failf("%s: %s value has bits %#x, want %#x", what, typeNames[v.Type], u, v.U)
}

func drawAnyPVal(t *rapid.T) PVal {
	v := drawPVal(t, uint8(drawInt(t, 0, numTypes-1, "type")))
	if isVar(v.Type) && oneIn(t, 16, "large") {
		v.B, v.Fill = nil, drawLength(t)
	}
	return v
}

func drawPVals(t *rapid.T, lo, hi int) (vs []PVal) {
	for i := drawInt(t, lo, hi, "nvals"); i > 0; i-- {
		vs = append(vs, drawAnyPVal(t))
	}
	return
}

func interesting(vs []PVal) bool {
	for i := range vs {
		if v := &vs[i]; len(v.body()) > 0 || v.U > 1 {
			return true
		}
	}
	return false
}

// Q01

type PropStream struct {
	Vals  []PVal
	Lag   []int // after writing value i, values are read until at most Lag[i%len] are unread
	Frag  Frag
	Trail []byte
}

func drawPropStream(t *rapid.T) PropStream {
	c := PropStream{Vals: drawPVals(t, 1, 12), Frag: drawFrag(t), Trail: drawRaw(t, 12)}
	if drawBool(t, "interleaved") {
		for i := drawInt(t, 1, 4, "nlag"); i > 0; i-- {
			c.Lag = append(c.Lag, drawInt(t, 0, 4, "lag"))
		}
	}
	return c
}

// sweptVals are lists of values of all lengths at which a buffer of a fixed
// size might end.
func sweptVals() (r [][]PVal) {
	for i, n := range sweptSizes(1) {
		if i%100 == 0 {
			r = append(r, nil)
		}
		r[len(r)-1] = append(r[len(r)-1], PVal{Type: uint8(11 + (i+i/100)%4), Fill: n})
	}
	return
}

func fixedPropStreams() (r []PropStream) {
	for _, vs := range sweptVals() {
		r = append(r, PropStream{Vals: vs, Trail: []byte{1, 2, 3}})
	}
	for _, n := range []int{1<<16 - 1, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1<<21 + 7, 3 << 20} {
		for _, typ := range []uint8{11, 14} {
			r = append(r, PropStream{Vals: []PVal{{Type: 3, U: 0x8123}, {Type: typ, Fill: n}, {Type: 10, U: 0x7ff8123456789abc}}, Frag: Frag{Sizes: []int{1 << 19, 77777}}, Trail: []byte{1, 2, 3}})
		}
	}
	return
}

type queue struct{ s *stream }

func (q queue) Write(p []byte) (int, error) {
	yield()
	q.s.data = append(q.s.data, p...)
	return len(p), nil
}

type richQueue struct{ queue }

func (q richQueue) WriteString(p string) (int, error) { return q.Write([]byte(p)) }
func (q richQueue) WriteByte(b byte) error {
	_, err := q.Write([]byte{b})
	return err
}

func runQ01(c PropStream, x *Ctx) {
	s := newStream(nil)
	s.steps = 1 << 24
	s.frag = c.Frag
	w := flatgeobuf.NewPropWriter(queue{s})
	if c.Frag.Rich {
		w = flatgeobuf.NewPropWriter(richQueue{queue{s}})
	}
	r := flatgeobuf.NewPropReader(s.r())
	got := make([]any, 0, len(c.Vals))
	var ends []int64
	readOne := func() {
		i := len(got)
		what := fmt.Sprintf("reading value %d", i)
		v, err := readValue(r, c.Vals[i].Type)
		if err != nil {
			x.Failf("%s (%s): %v", what, typeNames[c.Vals[i].Type], err)
		}
		sameValue(x, what, v, &c.Vals[i])
		if s.pos != ends[i] {
			x.Failf("%s: the stream is at %d afterwards, want %d", what, s.pos, ends[i])
		}
		got = append(got, v)
	}
	for i := range c.Vals {
		before := len(s.data)
		n, err := writeValue(w, &c.Vals[i])
		if err != nil {
			x.Failf("writing value %d: %v", i, err)
		}
		if n != len(s.data)-before {
			x.Failf("writing value %d reports %d bytes, wrote %d", i, n, len(s.data)-before)
		}
		ends = append(ends, int64(len(s.data)))
		if len(c.Lag) > 0 {
			for i+1-len(got) > c.Lag[i%len(c.Lag)] {
				readOne()
			}
		}
	}
	s.data = append(s.data, c.Trail...)
	for len(got) < len(c.Vals) {
		readOne()
	}
	for i := range got {
		sameValue(x, fmt.Sprintf("value %d after the last read", i), got[i], &c.Vals[i])
	}
	if rest := s.data[s.pos:]; !bytes.Equal(rest, c.Trail) {
		x.Failf("%d bytes after the values, want %d", len(rest), len(c.Trail))
	}
	types := map[uint8]bool{}
	for i := range c.Vals {
		types[c.Vals[i].Type] = true
		x.Label("type " + typeNames[c.Vals[i].Type])
	}
	x.LabelIf(len(c.Lag) > 0, "interleaved")
	x.LabelIf(len(c.Trail) > 0, "trailing data")
	if len(types) >= 2 && interesting(c.Vals) {
		x.NT()
	}
}

// Q02

type PropWire struct {
	Vals  []PVal
	Frag  Frag
	At    int // position of the fault; checked exhaustively if < 0
	Once  bool
	Short bool // the stream reports a short count without error
}

func drawPropWire(t *rapid.T) PropWire {
	return PropWire{Vals: drawPVals(t, 1, 6), Frag: drawFrag(t), At: drawInt(t, 0, 200, "at"), Once: drawBool(t, "once"), Short: oneIn(t, 4, "short")}
}

// shortSink accepts at most a number of bytes in all and reports short
// counts without an error.
type shortSink struct {
	data []byte
	room int
}

func (s *shortSink) Write(p []byte) (int, error) {
	n := min(len(p), s.room-len(s.data))
	s.data = append(s.data, p[:n]...)
	return n, nil
}

func runQ02(c PropWire, x *Ctx) {
	var ref []byte
	var starts []int
	for i := range c.Vals {
		starts = append(starts, len(ref))
		ref = c.Vals[i].encode(ref)
	}
	starts = append(starts, len(ref))
	out := newSink()
	out.rich = c.Frag.Rich
	w := flatgeobuf.NewPropWriter(out.w())
	for i := range c.Vals {
		v := &c.Vals[i]
		n, err := writeValue(w, v)
		if err != nil {
			x.Failf("writing value %d (%s): %v", i, typeNames[v.Type], err)
		}
		want := ref[starts[i]:starts[i+1]]
		have := out.data[min(len(out.data), starts[i]):]
		if !bytes.Equal(have, want) {
			x.Failf("value %d (%s) is written as %s, want %s", i, typeNames[v.Type], clip(fmt.Sprintf("%x", have), 200), clip(fmt.Sprintf("%x", want), 200))
		}
		if n != len(want) {
			x.Failf("writing value %d (%s) reports %d bytes, want %d", i, typeNames[v.Type], n, len(want))
		}
	}
	s := newStream(ref)
	s.steps = 1 << 24
	s.frag = c.Frag
	r := flatgeobuf.NewPropReader(s.r())
	for i := range c.Vals {
		got, err := readValue(r, c.Vals[i].Type)
		if err != nil {
			x.Failf("reading value %d (%s): %v", i, typeNames[c.Vals[i].Type], err)
		}
		sameValue(x, fmt.Sprintf("encoded value %d", i), got, &c.Vals[i])
	}
	// Faults.
	positions := []int{}
	if len(ref) <= 64 {
		for p := 0; p < len(ref); p++ {
			positions = append(positions, p)
		}
	} else {
		for i, st := range starts {
			if len(starts) > 20 && i%37 != 0 {
				continue
			}
			for d := -1; d <= 5; d++ {
				positions = append(positions, st+d)
			}
		}
		positions = append(positions, c.At, len(ref)/2)
	}
	for _, p := range positions {
		if p < 0 || p >= len(ref) || tired() {
			continue
		}
		if c.Short {
			c.short(x, p)
		} else {
			c.fault(x, p, starts)
		}
	}
	for i := range c.Vals {
		x.Label("type " + typeNames[c.Vals[i].Type])
	}
	x.LabelIf(c.Short, "short counts")
	if interesting(c.Vals) {
		x.NT()
	}
}

func (c *PropWire) fault(x *Ctx, p int, starts []int) {
	out := newSink()
	out.rich = c.Frag.Rich
	out.faultPos = p
	out.once = c.Once
	w := flatgeobuf.NewPropWriter(out.w())
	for i := range c.Vals {
		before := len(out.data)
		n, err := writeValue(w, &c.Vals[i])
		if n != len(out.data)-before {
			x.Failf("fault at %d: writing value %d (%s) reports %d bytes, the stream accepted %d", p, i, typeNames[c.Vals[i].Type], n, len(out.data)-before)
		}
		if out.faulted > 0 {
			if !errors.Is(err, errInjected) {
				x.Failf("fault at %d: writing value %d (%s) returns error %v", p, i, typeNames[c.Vals[i].Type], err)
			}
			return
		}
		if err != nil {
			x.Failf("fault at %d: writing value %d, before the fault, fails: %v", p, i, err)
		}
	}
	if p < starts[len(starts)-1] {
		x.Failf("fault at %d: never reached, %d bytes written", p, len(out.data))
	}
}

func (c *PropWire) short(x *Ctx, p int) {
	out := &shortSink{room: p}
	w := flatgeobuf.NewPropWriter(out)
	for i := range c.Vals {
		before := len(out.data)
		n, _ := writeValue(w, &c.Vals[i])
		if n != len(out.data)-before {
			x.Failf("short stream: writing value %d (%s) reports %d bytes, the stream accepted %d", i, typeNames[c.Vals[i].Type], n, len(out.data)-before)
		}
	}
}

// Q03

// SchemaSpec describes a schema.
type SchemaSpec struct {
	Cols []Column
	// If N > 0 the schema has that many columns instead, whose types
	// cycle.
	N    int `json:",omitempty"`
	A, B int `json:",omitempty"`
	Kind int // what the schema is made of
	L    Layout
}

const (
	schemaHeader = iota
	schemaFeature
	schemaBuilt  // header from a FlatBuffers builder
	schemaCustom // another implementation of the Schema interface
	schemaKinds
)

func (s *SchemaSpec) columns() []Column {
	if s.N == 0 {
		return s.Cols
	}
	cs := make([]Column, s.N)
	for i := range cs {
		cs[i] = Column{Name: []byte(fmt.Sprintf("c%d", i)), Type: ptr(uint8((i*s.A + s.B) % numTypes))}
		if i%7 == 3 {
			cs[i].Width = ptr(int32(i))
		}
	}
	return cs
}

type customSchema struct{ bufs [][]byte }

func (s *customSchema) ColumnsLength() int { return len(s.bufs) }
func (s *customSchema) Columns(obj *flat.Column, j int) bool {
	yield()
	if j < 0 || j >= len(s.bufs) {
		return false
	}
	c := flat.GetRootAsColumn(s.bufs[j], 0)
	t := c.Table()
	obj.Init(t.Bytes, t.Pos)
	return true
}

func (s *SchemaSpec) schema(cols []Column) flatgeobuf.Schema {
	switch s.Kind {
	case schemaFeature:
		f := Feature{Columns: cols, L: s.L}
		return flat.GetSizePrefixedRootAsFeature(f.bytes(), 0)
	case schemaBuilt:
		return headerItem(&file{model: Header{Columns: cols}, spec: &FileSpec{HL: s.L}}, viaBuilder).hdr
	case schemaCustom:
		cs := &customSchema{}
		for i := range cols {
			cs.bufs = append(cs.bufs, encodeRoot(cols[i].tab(), s.L))
		}
		return cs
	}
	h := Header{Columns: cols}
	return flat.GetSizePrefixedRootAsHeader(encodeSizePrefixed(h.tab(), s.L), 0)
}

func drawSchema(t *rapid.T) SchemaSpec {
	s := SchemaSpec{Kind: drawInt(t, 0, schemaKinds-1, "kind"), L: drawLayout(t)}
	if oneIn(t, 5, "wide") {
		s.N = pick(t, []int{255, 256, 257, 300, 511, 1000}, "ncols")
		s.A, s.B = drawInt(t, 0, 14, "a"), drawInt(t, 0, 14, "b")
	} else {
		s.Cols = drawColumns(t, 8)
	}
	return s
}

type PropRecord struct {
	Schema SchemaSpec
	Vals   []PVal
	Frag   Frag
}

func drawRecord(t *rapid.T, maxVals int) PropRecord {
	c := PropRecord{Schema: drawSchema(t), Frag: drawFrag(t)}
	cols := c.Schema.columns()
	if c.Schema.N == 0 {
		c.Vals = drawProps(t, cols, maxVals)
	} else {
		for i := drawInt(t, 0, maxVals, "nprops"); i > 0; i-- {
			k := drawInt(t, 0, c.Schema.N-1, "col")
			if drawBool(t, "high") {
				k = c.Schema.N - 1 - k%(min(c.Schema.N, 50))
			}
			v := drawPVal(t, colType(&cols[k]))
			v.Col = uint16(k)
			c.Vals = append(c.Vals, v)
		}
	}
	return c
}

func fixedRecords() []PropRecord {
	// The last column a schema can have, and one value of each type.
	a := PropRecord{Schema: SchemaSpec{N: 65536, A: 1, B: 5}, Vals: []PVal{{Col: 65535, Type: uint8((65535 + 5) % numTypes), U: 1, B: []byte("x")}, {Col: 0, Type: 5, U: 77}}}
	var b PropRecord
	for i := uint8(0); i < numTypes; i++ {
		b.Schema.Cols = append(b.Schema.Cols, Column{Name: []byte{'a' + i}, Type: ptr(i)})
		b.Vals = append(b.Vals, PVal{Col: uint16(i), Type: i, U: 1, B: []byte{1, 0, 255}})
	}
	return []PropRecord{a, b, {}, {Schema: SchemaSpec{Cols: []Column{{Name: []byte("a")}}}}}
}

// checkPropValues checks a property list against the first values stored.
func checkPropValues(x *Ctx, what string, got []flatgeobuf.PropValue, cols []Column, vals []PVal) {
	for i := range got {
		w := fmt.Sprintf("%s: property %d", what, i)
		g, v := &got[i], &vals[i]
		if g.ColIndex != v.Col {
			x.Failf("%s has column index %d, want %d", w, g.ColIndex, v.Col)
		}
		if uint8(g.Type) != v.Type {
			x.Failf("%s has type %s, want %s", w, g.Type, typeNames[v.Type])
		}
		if g.Col.Table().Bytes == nil {
			x.Failf("%s has no column definition", w)
		}
		if d := diff(accColumn(&g.Col), cols[v.Col].norm()); d != "" {
			x.Failf("%s has a wrong column definition: %s", w, d)
		}
		sameValue(x, w, g.Value, v)
	}
}

func runQ03(c PropRecord, x *Ctx) {
	cols := c.Schema.columns()
	s := newStream(encodeProps(c.Vals))
	s.steps = 1 << 22
	s.frag = c.Frag
	schema := c.Schema.schema(cols)
	got, err := flatgeobuf.NewPropReader(s.r()).ReadSchema(schema)
	if err != nil {
		x.Failf("ReadSchema: %v", err)
	}
	if len(got) != len(c.Vals) {
		x.Failf("ReadSchema returns %d properties, want %d", len(got), len(c.Vals))
	}
	checkPropValues(x, "ReadSchema", got, cols, c.Vals)
	x.Label([]string{"header schema", "feature schema", "built schema", "custom schema"}[c.Schema.Kind])
	x.LabelIf(len(cols) > 255, "more than 255 columns")
	seen := map[uint16]bool{}
	last := -1
	for i := range c.Vals {
		x.LabelIf(seen[c.Vals[i].Col], "repeated column")
		seen[c.Vals[i].Col] = true
		x.LabelIf(int(c.Vals[i].Col) < last, "reordered columns")
		last = int(c.Vals[i].Col)
		x.LabelIf(c.Vals[i].Col > 255, "column index above 255")
	}
	x.LabelIf(len(c.Vals) == 0, "no properties")
	if len(c.Vals) >= 2 {
		x.NT()
	}
}

// Q04

type BadProps struct {
	Rec     PropRecord
	Mode    int
	At      int    // which property is bad
	Col     uint16 // out-of-range column
	BadType uint8
	Declare uint32 // declared length
	Fault   int
	Err     int
	Once    bool
}

const (
	badCut = iota
	badColumn
	badType
	badLength
	badStream
	badSingleShort
	badSingleStream
	badHole
	badModes
)

var badNames = []string{"cut", "column out of range", "unknown type", "length too long", "failing stream", "short single value", "failing single value", "schema without the column"}

func drawBadProps(t *rapid.T) BadProps {
	c := BadProps{Rec: drawRecord(t, 5), Mode: drawInt(t, 0, badModes-1, "mode"), At: drawInt(t, 0, 6, "at"), Fault: drawInt(t, 0, 60, "fault"), Err: drawInt(t, 0, 1, "err"), Once: drawBool(t, "once")}
	if c.Rec.Schema.N > 300 {
		c.Rec.Schema.N = 300
		for i := range c.Rec.Vals {
			if v := &c.Rec.Vals[i]; v.Col >= 300 {
				v.Col -= 15 * ((v.Col-300)/15 + 1)
			}
		}
	}
	n := len(c.Rec.Schema.columns())
	switch drawInt(t, 0, 2, "colk") {
	case 0:
		c.Col = uint16(n)
	case 1:
		c.Col = uint16(min(65535, n+drawInt(t, 0, 300, "d")))
	default:
		c.Col = uint16(drawInt(t, n, 65535, "col"))
	}
	c.BadType = uint8(pick(t, []int{15, 16, 128, 255, drawInt(t, 15, 255, "badtype")}, "badtypek"))
	c.Declare = uint32(pick(t, []int64{1, 2, 100, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}, "declare"))
	if c.Mode == badSingleShort || c.Mode == badSingleStream {
		c.Rec.Vals = []PVal{drawAnyPVal(t)}
		if c.Rec.Vals[0].Fill > 5000 {
			c.Rec.Vals[0].Fill = 300
		}
	}
	return c
}

// holeSchema lacks one column.
type holeSchema struct {
	flatgeobuf.Schema
	hole int
}

func (s holeSchema) Columns(obj *flat.Column, j int) bool {
	return j != s.hole && s.Schema.Columns(obj, j)
}

var errStreams = []error{errInjected, io.ErrUnexpectedEOF}

func runQ04(c BadProps, x *Ctx) {
	vals := c.Rec.Vals
	cols := c.Rec.Schema.columns()
	x.Label(badNames[c.Mode])
	// read returns after checking that what comes with an error is part
	// of what was stored.
	read := func(what string, schema flatgeobuf.Schema, s *stream, cols []Column, vals []PVal) ([]flatgeobuf.PropValue, error) {
		if c.Fault%2 == 0 {
			s.frag = c.Rec.Frag
		}
		got, err := flatgeobuf.NewPropReader(s.r()).ReadSchema(schema)
		if len(got) > len(vals) {
			x.Failf("%s: %d properties returned, %d are stored", what, len(got), len(vals))
		}
		checkPropValues(x, what, got, cols, vals)
		return got, err
	}
	mustFail := func(what string, err error) {
		if err == nil {
			x.Failf("%s: no error", what)
		}
		if err == io.EOF {
			x.Failf("%s: the error is io.EOF", what)
		}
	}
	at := 0
	if len(vals) > 0 {
		at = c.At % (len(vals) + 1)
	}
	switch c.Mode {
	case badCut:
		schema := c.Rec.Schema.schema(cols)
		var ends []int
		b := []byte{}
		for i := range vals {
			ends = append(ends, len(b))
			b = append(b, encodeProps(vals[i:i+1])...)
		}
		ends = append(ends, len(b))
		k := 0
		for cut := 0; cut <= len(b); cut++ {
			for k+1 < len(ends) && ends[k+1] <= cut {
				k++
			}
			near := cut-ends[k] <= 12 || k+1 < len(ends) && ends[k+1]-cut <= 2 || cut%41 == 0
			if !near || tired() {
				continue
			}
			what := fmt.Sprintf("%d property bytes cut at %d", len(b), cut)
			got, err := read(what, schema, newStream(b[:cut]), cols, vals[:k])
			if ends[k] == cut {
				if err != nil {
					x.Failf("%s, after property %d: %v", what, k, err)
				}
				if len(got) != k {
					x.Failf("%s: %d properties, want %d", what, len(got), k)
				}
			} else {
				mustFail(what, err)
			}
		}
		if len(vals) > 0 {
			x.NT()
		}
	case badColumn:
		if int(c.Col) < len(cols) {
			return // all columns exist
		}
		b := encodeProps(vals[:at])
		b = le.AppendUint16(b, c.Col)
		b = append(b, junk(c.Fault%20)...)
		b = append(b, encodeProps(vals[at:])...)
		_, err := read(fmt.Sprintf("column %d of %d", c.Col, len(cols)), c.Rec.Schema.schema(cols), newStream(b), cols, vals[:at])
		mustFail(fmt.Sprintf("column %d of %d", c.Col, len(cols)), err)
		x.NT()
	case badType:
		cols = append(append([]Column{}, cols...), Column{Name: []byte("x"), Type: ptr(c.BadType)})
		b := encodeProps(vals[:at])
		b = le.AppendUint16(b, uint16(len(cols)-1))
		b = append(b, junk(c.Fault%20)...)
		if c.Fault%3 == 0 {
			b = append(b, encodeProps(vals[at:])...)
		}
		what := fmt.Sprintf("column type %d", c.BadType)
		_, err := read(what, c.Rec.Schema.schema(cols), newStream(b), cols, vals[:at])
		mustFail(what, err)
		x.NT()
	case badLength:
		cols = append(append([]Column{}, cols...), Column{Name: []byte("x"), Type: ptr(uint8(11 + c.Fault%4))})
		have := c.Fault % 17
		b := encodeProps(vals[:at])
		b = le.AppendUint16(b, uint16(len(cols)-1))
		b = le.AppendUint32(b, uint32(have)+min(c.Declare, math.MaxUint32-uint32(have)))
		b = append(b, junk(have)...)
		what := fmt.Sprintf("declared length %d with %d bytes", c.Declare, have)
		_, err := read(what, c.Rec.Schema.schema(cols), newStream(b), cols, vals[:at])
		mustFail(what, err)
		x.NT()
	case badStream:
		b := encodeProps(vals)
		if len(b) == 0 {
			return
		}
		schema := c.Rec.Schema.schema(cols)
		for _, p := range spread(len(b)+1, 100, c.Fault) {
			if tired() {
				break
			}
			s := newStream(b)
			s.faultPos = int64(p)
			s.faultErr = errStreams[c.Err]
			s.once = c.Once
			what := fmt.Sprintf("%d property bytes, stream fails at %d", len(b), p)
			_, err := read(what, schema, s, cols, vals)
			if s.faulted > 0 && !s.faultFull && err == nil {
				x.Failf("%s with %v: no error", what, s.faultErr)
			}
			if s.faulted == 0 {
				x.Failf("%s: the stream was read to %d only (error %v)", what, s.pos, err)
			}
		}
		x.NT()
	case badSingleShort:
		b := vals[0].encode(nil)
		for _, cut := range spread(len(b), 400, c.Fault) {
			if tired() {
				break
			}
			s := newStream(b[:cut])
			s.frag = c.Rec.Frag
			_, err := readValue(flatgeobuf.NewPropReader(s.r()), vals[0].Type)
			if err == nil {
				x.Failf("%s value of %d bytes cut at %d: no error", typeNames[vals[0].Type], len(b), cut)
			}
		}
		x.Label("type " + typeNames[vals[0].Type])
		x.NT()
	case badSingleStream:
		b := vals[0].encode(nil)
		for _, p := range spread(len(b), 400, c.Fault) {
			if tired() {
				break
			}
			s := newStream(b)
			s.frag = c.Rec.Frag
			s.faultPos = int64(p)
			s.faultErr = errStreams[c.Err]
			s.once = c.Once
			got, err := readValue(flatgeobuf.NewPropReader(s.r()), vals[0].Type)
			what := fmt.Sprintf("%s value of %d bytes, stream fails at %d", typeNames[vals[0].Type], len(b), p)
			if s.faulted == 0 {
				x.Failf("%s: the stream was read to %d only (error %v)", what, s.pos, err)
			}
			if err == nil && s.faultFull {
				sameValue(x, what, got, &vals[0])
			} else if !errors.Is(err, s.faultErr) {
				x.Failf("%s with %v: error %v", what, s.faultErr, err)
			}
		}
		x.Label("type " + typeNames[vals[0].Type])
		x.NT()
	case badHole:
		if len(vals) == 0 {
			return
		}
		hole := int(vals[c.At%len(vals)].Col)
		first := 0
		for int(vals[first].Col) != hole {
			first++
		}
		what := fmt.Sprintf("schema without column %d", hole)
		_, err := read(what, holeSchema{c.Rec.Schema.schema(cols), hole}, newStream(encodeProps(vals)), cols, vals[:first])
		mustFail(what, err)
		x.NT()
	}
}

func init() {
	register(&Prop{ID: "Q01", Rule: "at least two types of values in the stream, and some value other than 0, 1 and empty",
		Subs: []*Sub{sub("round trip", 200000, 1500000, drawPropStream, runQ01, fixedPropStreams)}})
	register(&Prop{ID: "Q02", Rule: "some value other than 0, 1 and empty; write faults are placed at every position (at the ends of values if there are more than 64 bytes)",
		Subs: []*Sub{sub("wire format", 200000, 1500000, drawPropWire, runQ02, func() (r []PropWire) {
			for _, vs := range sweptVals() {
				r = append(r, PropWire{Vals: vs}, PropWire{Vals: vs, Short: true})
			}
			return
		})}})
	register(&Prop{ID: "Q03", Rule: "at least two properties stored",
		Subs: []*Sub{sub("schema reading", 120000, 1500000, func(t *rapid.T) PropRecord { return drawRecord(t, 12) }, runQ03, fixedRecords)}})
	register(&Prop{ID: "Q04", Rule: "the data is cut, refers to a missing or unknown column, declares too much, or the stream fails",
		Subs: []*Sub{sub("bad properties", 120000, 1500000, drawBadProps, runQ04)}})
}
