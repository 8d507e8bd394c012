package main

// R05, R07 and R08: corrupt files.

import (
	"bytes"
	"errors"
	"io"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"pgregory.net/rapid"
)

// FileEdit is one corruption of a file.
type FileEdit struct {
	Region int // 0 anywhere, 1 header, 2 index, 3 data
	At     int // position, modulo the size of the region
	Kind   int // 0 byte, 1 aligned u32, 2 u16, 3 u64, 4 insert, 5 delete, 6 cut, 7 copy from another place, 8 add to a u32
	V      uint64
	N      int
}

// Bomb describes a feature whose geometry parts are shared or nested in
// each other.
type Bomb struct {
	Width, Depth int
	Cycle        bool
	Points       int
	Shared       int `json:",omitempty"` // if > 0, all have the same coordinates, that many
}

// bytes encodes the feature. Every level of parts is stored once and
// referred to Width times by the level above; the last level refers back
// to the first if Cycle is set.
func (b *Bomb) bytes() []byte {
	buf := make([]byte, 8)
	u16 := func(v ...int) {
		for _, x := range v {
			buf = le.AppendUint16(buf, uint16(x))
		}
	}
	u32 := func(v int) { buf = le.AppendUint32(buf, uint32(v)) }
	// Feature: vtable with one field.
	vt := len(buf)
	u16(6, 8, 4, 0)
	root := len(buf)
	u32(root - vt)
	u32(0)
	geomField := root + 4
	le.PutUint32(buf[4:], uint32(root-4))
	vt = len(buf)
	u16(20, 12, 0, 4, 0, 0, 0, 0, 0, 8)
	var tables []int
	var vectors, shared []int
	for i := 0; i < b.Depth; i++ {
		g := len(buf)
		tables = append(tables, g)
		u32(g - vt)
		u32(0)
		u32(0)
		le.PutUint32(buf[g+4:], uint32(len(buf)-(g+4)))
		if b.Shared > 0 {
			shared = append(shared, g+4)
		}
		u32(2 * b.Points)
		for k := 0; k < 2*b.Points; k++ {
			buf = le.AppendUint64(buf, math.Float64bits(float64(i+k)))
		}
		le.PutUint32(buf[g+8:], uint32(len(buf)-(g+8)))
		n := b.Width
		if i == b.Depth-1 && !b.Cycle {
			n = 0
		}
		u32(n)
		vectors = append(vectors, len(buf))
		for k := 0; k < n; k++ {
			u32(0)
		}
	}
	for i, v := range vectors {
		target := tables[0]
		if i+1 < len(tables) {
			target = tables[i+1]
		} else if !b.Cycle {
			continue
		}
		for k := 0; k < b.Width; k++ {
			le.PutUint32(buf[v+4*k:], uint32(target-(v+4*k)))
		}
	}
	for _, p := range shared {
		le.PutUint32(buf[p:], uint32(len(buf)-p))
	}
	if b.Shared > 0 {
		u32(2 * b.Shared)
		for k := 0; k < 2*b.Shared; k++ {
			buf = le.AppendUint64(buf, math.Float64bits(float64(k)))
		}
	}
	le.PutUint32(buf[geomField:], uint32(tables[0]-geomField))
	le.PutUint32(buf, uint32(len(buf)-4))
	return buf
}

func drawBomb(t *rapid.T) Bomb {
	b := Bomb{Width: pick(t, []int{1, 2, 3, 10, 100}, "width"), Depth: pick(t, []int{1, 2, 30, 60, 900, 1100, 20000}, "depth"), Cycle: drawBool(t, "cycle"), Points: drawInt(t, 0, 1, "points")}
	if b.Width > 3 {
		b.Depth = min(b.Depth, 900)
	}
	if oneIn(t, 6, "shared") {
		b.Shared = pick(t, []int{1, 10, 1000, 20000}, "nshared")
	}
	return b
}

// CorruptCase is a file which is corrupt or just any bytes.
type CorruptCase struct {
	S        FileSpec
	Raw      []byte // if not nil, replaces everything
	Lead     bool   // Raw starts with the magic number
	HdrCount *uint64
	HdrNode  *uint16
	Bombs    []Bomb     `json:",omitempty"` // features added at the end
	Edits    []FileEdit `json:",omitempty"`
	Seekable bool
	Frag     Frag
	Ops      []Op
}

var boundaryU64 = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0xfffff, 0x100000, 0x2000000, 0x2000001, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffc, 0xffffffff,
	1 << 32, 1<<32 + 4, 1 << 45, 1<<63 - 1, 1 << 63, math.MaxUint64}

func drawFileEdit(t *rapid.T) FileEdit {
	e := FileEdit{Region: pick(t, []int{0, 1, 2, 3, 3, 3, 2}, "region"), Kind: pick(t, []int{0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 8}, "editk"), At: drawInt(t, 0, 4000, "at"), N: drawInt(t, 0, 20, "n")}
	switch drawInt(t, 0, 2, "vk") {
	case 0:
		e.V = pick(t, boundaryU64, "v")
	case 1:
		e.V = uint64(drawInt(t, 0, 500, "v"))
	default:
		e.V = drawUint(t, 0, math.MaxUint64, "v")
	}
	if e.Kind == 8 {
		e.V = uint64(int64(drawInt(t, -9, 9, "delta")))
	}
	return e
}

func (c *CorruptCase) bytes() []byte {
	if c.Raw != nil {
		if c.Lead {
			return append(magicBytes(1), c.Raw...)
		}
		return c.Raw
	}
	f := c.S.build()
	h, rest := f.header, f.bytes[f.indexAt:]
	if c.HdrCount != nil || c.HdrNode != nil {
		m := f.model
		if c.HdrCount != nil {
			m.FeaturesCount = c.HdrCount
		}
		if c.HdrNode != nil {
			m.NodeSize = c.HdrNode
		}
		h = encodeSizePrefixed(m.tab(), c.S.HL)
	}
	indexLen := len(f.index)
	b := append(magicBytes(c.S.Patch), h...)
	b = append(b, rest...)
	for i := range c.Bombs {
		b = append(b, c.Bombs[i].bytes()...)
	}
	headerEnd := 8 + len(h)
	for _, e := range c.Edits {
		lo, hi := 0, len(b)
		switch e.Region {
		case 1:
			lo, hi = 8, min(hi, headerEnd)
		case 2:
			lo, hi = headerEnd, min(hi, headerEnd+indexLen)
		case 3:
			lo = headerEnd + indexLen
		}
		if hi <= lo {
			lo, hi = 0, len(b)
		}
		if hi == 0 {
			continue
		}
		at := lo + e.At%(hi-lo)
		putN := func(n int) {
			at = lo + (at-lo)/min(n, 4)*min(n, 4)
			for i := 0; i < n && at+i < len(b); i++ {
				b[at+i] = byte(e.V >> (8 * i))
			}
		}
		switch e.Kind {
		case 0:
			putN(1)
		case 1:
			putN(4)
		case 2:
			putN(2)
		case 3:
			putN(8)
		case 4:
			ins := make([]byte, e.N)
			for i := range ins {
				ins[i] = byte(e.V >> (8 * (i % 8)))
			}
			b = append(b[:at:at], append(ins, b[at:]...)...)
		case 5:
			b = append(b[:at:at], b[min(len(b), at+e.N):]...)
		case 6:
			b = b[:at]
		case 7:
			from := int(e.V % uint64(len(b)))
			copy(b[at:], append([]byte{}, b[from:min(len(b), from+e.N)]...))
		case 8:
			at = lo + (at-lo)/4*4
			if at+4 <= len(b) {
				le.PutUint32(b[at:], le.Uint32(b[at:])+uint32(e.V))
			}
		}
	}
	return b
}

func drawCorrupt(t *rapid.T) CorruptCase {
	var c CorruptCase
	switch k := drawInt(t, 0, 11, "ck"); {
	case k == 0:
		c.Raw = append([]byte{}, drawRaw(t, 120)...)
		c.Lead = drawBool(t, "lead")
	default:
		c.S = drawFile(t, fileGen{maxFeats: 4, maxCols: 3, mode: -1})
		if k == 1 || k == 2 {
			c.S.Unknown, c.S.DefNode, c.S.NodeSize = true, false, 0
			for i := drawInt(t, 1, 2, "nbombs"); i > 0; i-- {
				c.Bombs = append(c.Bombs, drawBomb(t))
			}
			if k == 1 {
				break
			}
		}
		if k == 3 || k == 4 {
			if drawBool(t, "hdrcount") {
				v := uint64(c.S.n() + drawInt(t, -1, 2, "dn"))
				if drawBool(t, "far") {
					v = pick(t, []uint64{1 << 20, 1<<22 + 3, 1 << 31, 1 << 45, 1 << 57, 1 << 58, 1<<63 - 1, 1 << 63, math.MaxUint64}, "count")
				}
				if int64(v) < 0 && v != 1<<63 && v != math.MaxUint64 {
					v = 0
				}
				c.HdrCount = &v
			}
			if drawBool(t, "hdrnode") {
				c.HdrNode = ptr(uint16(pick(t, []int{0, 1, 2, 3, 16, 65535}, "node")))
			}
			if k == 3 {
				break
			}
		}
		for i := drawInt(t, 1, 4, "nedits"); i > 0; i-- {
			c.Edits = append(c.Edits, drawFileEdit(t))
		}
	}
	c.Seekable = drawBool(t, "seekable")
	if oneIn(t, 3, "frag") {
		c.Frag = pick(t, []Frag{{EOFNow: true}, {Sizes: []int{50, 1, 0, 3}}, {Sizes: []int{777}, EOFNow: true}}, "frag")
		c.Frag.Rich, c.Frag.Scratch = oneIn(t, 4, "rich"), oneIn(t, 4, "scratch")
	}
	if !oneIn(t, 10, "headerlate") {
		c.Ops = append(c.Ops, Op{K: "header"})
	}
	for i := drawInt(t, 1, 6, "nops"); i > 0; i-- {
		op := Op{K: pick(t, []string{"data", "data", "rem", "search", "index", "rewind", "rewind", "header"}, "op")}
		switch op.K {
		case "data":
			op.N = drawInt(t, 0, 5, "n")
		case "search", "index":
			op.Q = world
			if drawBool(t, "query") {
				op.Q = drawFileQuery(t, &c.S)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if drawBool(t, "close") {
		c.Ops = append(c.Ops, Op{K: "close"}, Op{K: "data", N: 1})
	}
	return c
}

func schemaOf(h *flat.Header) flatgeobuf.Schema {
	if h == nil {
		return nil
	}
	return h
}

func runR05(c CorruptCase, x *Ctx) {
	b := c.bytes()
	s := newStream(b)
	s.frag = c.Frag
	if len(b) > 20000 && len(c.Frag.Sizes) > 0 {
		s.frag.Sizes = []int{4096}
	}
	m := newReader(x, nil2file, s, c.Seekable, false)
	var hdr *flat.Header
	headerFailed := error(nil)
	summaries := 0
	for i, op := range c.Ops {
		o := m.call(op)
		if o.n < 0 || o.n > len(o.fs) {
			x.Failf("operation %d, %s: reports %d features", i, op.K, o.n)
		}
		if headerFailed != nil {
			if op.K != "close" && (o.err == nil || o.err == io.EOF) {
				x.Failf("operation %d, %s, returns error %v after Header failed with: %v", i, op.K, o.err, headerFailed)
			}
			if o.n != 0 || o.h != nil || o.prt != nil {
				x.Failf("operation %d, %s, delivers data after Header failed with: %v", i, op.K, headerFailed)
			}
			continue
		}
		x.LabelIf(o.err != nil && o.err != io.EOF, "error from "+op.K)
		if op.K == "header" {
			if o.h != nil {
				hdr = o.h
				if o.err == nil {
					// Whoever gets a header needs to know these two.
					what := "feature count"
					func() {
						defer func() {
							if r := recover(); r != nil {
								x.Failf("Header returns a header of which the %s cannot be read: %v", what, r)
							}
						}()
						hdr.FeaturesCount()
						what = "index node size"
						hdr.IndexNodeSize()
					}()
				}
				if flatgeobuf.HeaderString(hdr) == "" {
					x.Failf("empty header summary")
				}
			}
			if o.err != nil && hdr == nil || o.err != nil && o.h != nil {
				headerFailed = o.err
				x.Label("header rejected")
			} else if o.err == nil && o.h == nil {
				x.Failf("Header returns nothing")
			}
		}
		if o.prt != nil {
			_ = o.prt.Bounds()
			o.prt.Search(op.Q.b().box())
		}
		for k := 0; k < o.n && k < 40; k++ {
			summaries++
			for _, sch := range []flatgeobuf.Schema{schemaOf(hdr), nil} {
				if flatgeobuf.FeatureString(&o.fs[k], sch) == "" {
					x.Failf("empty feature summary")
				}
			}
		}
		if len(c.Bombs) > 0 && o.n > 0 {
			x.Label("summary of nested parts")
		}
	}
	if hdr != nil {
		x.NT()
	}
	if summaries > 0 {
		x.Label("features summarised")
	}
}

// nil2file stands for a file without contents in the model.
var nil2file = &file{}

// MagicCase is a stream to check the magic number of.
type MagicCase struct {
	B    []byte // first bytes, replaces those of a valid file
	Cut  int    // if > 0, the stream has only Cut-1 bytes
	Tail bool   // a valid header and data follow
	Frag Frag
	Read bool // read with the file reader too
}

func fixedMagics() (r []MagicCase) {
	for i := 0; i < 8; i++ {
		for v := 0; v < 256; v++ {
			b := magicBytes(1)
			b[i] = byte(v)
			r = append(r, MagicCase{B: b, Tail: true, Read: true})
		}
		r = append(r, MagicCase{B: magicBytes(1), Cut: i + 1, Read: true})
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			b := magicBytes(1)
			b[i], b[j] = b[j], b[i]
			r = append(r, MagicCase{B: b, Tail: true, Read: true})
		}
	}
	return
}

func drawMagic(t *rapid.T) MagicCase {
	c := MagicCase{Tail: drawBool(t, "tail"), Frag: drawFrag(t), Read: true}
	if drawBool(t, "edit") {
		c.B = magicBytes(byte(drawInt(t, 0, 255, "patch")))
		for i := drawInt(t, 0, 3, "nedits"); i > 0; i-- {
			c.B[drawInt(t, 0, 7, "at")] = pick(t, []byte{3, 0x66, 0x67, 0x62, 2, 4, 0, 255, 'F', 'G', 'B'}, "b")
		}
	} else {
		c.B = drawByteSlice(t, 8, "b")
	}
	if oneIn(t, 4, "cutit") {
		c.Cut = 1 + drawInt(t, 0, 9, "cut")
	}
	return c
}

func runR07(c MagicCase, x *Ctx) {
	spec := FileSpec{H: Header{Name: []byte("n")}, Feats: []Feature{{Geom: &Geometry{XY: []F{1, 2}}}}}
	b := append([]byte{}, c.B...)
	c.Tail = c.Tail && len(b) == 8 // else the magic number would run on into it
	if c.Tail {
		b = append(b, spec.build().bytes[8:]...)
	}
	if c.Cut > 0 {
		b = b[:min(len(b), c.Cut-1)]
	}
	want := magicBytes(0)
	good := len(b) >= 8
	for _, i := range []int{0, 1, 2, 4, 5, 6} {
		good = good && b[i] == want[i]
	}
	x.NT()
	x.LabelIf(good, "valid magic number")
	s := newStream(b)
	s.frag = c.Frag
	v, err := flatgeobuf.Magic(s.view(false, false))
	if good != (err == nil) {
		x.Failf("Magic of % x: %v, %v", b[:min(len(b), 8)], v, err)
	}
	if good && (v.Major != b[3] || v.Patch != b[7]) {
		x.Failf("Magic of % x: version %+v", b[:8], v)
	}
	if consumed := min(8, len(b)); s.pos != int64(consumed) {
		x.Failf("Magic consumes %d bytes of a stream of %d", s.pos, len(b))
	}
	for _, seekable := range []bool{false, true} {
		s := newStream(b)
		s.frag = c.Frag
		r := flatgeobuf.NewFileReader(s.view(seekable, false))
		h, err := r.Header()
		accept := good && b[3] == 3
		if accept && c.Tail && c.Cut == 0 {
			x.Label("header accepted")
			if err != nil || h == nil || string(h.Name()) != "n" {
				x.Failf("Header of a file with version bytes %d, %d: %v, %v", b[3], b[7], h, err)
			}
			continue
		}
		if c.Tail && c.Cut > 8 && accept {
			continue // cut in the header, see R04
		}
		if err == nil || err == io.EOF {
			x.Failf("Header of % x returns error %v", b[:min(len(b), 8)], err)
		}
		if h != nil {
			x.Failf("Header of % x returns a header", b[:min(len(b), 8)])
		}
		if !accept && s.pos > 8 {
			x.Failf("Header reads on to byte %d although the magic number or version is wrong", s.pos)
		}
		fs := make([]flat.Feature, 1)
		if n, err := r.Data(fs); n != 0 || err == nil || err == io.EOF {
			x.Failf("Data after a failed Header: %d, %v", n, err)
		}
		if h, err := r.Header(); h != nil || err == nil {
			x.Failf("second Header after a failed Header: %v, %v", h, err)
		}
	}
}

// DeclCase declares more than is there.
type DeclCase struct {
	Kind     string // header, count, feature, prop, columns, envelope
	Declared uint64
	Node     uint16
	Present  int // bytes present after the length field
	Seekable bool
	Op       Op
	Typ      uint8 // column type for prop
	EOFNow   bool
}

func drawSize(t *rapid.T) DeclCase {
	c := DeclCase{Kind: pick(t, []string{"header", "count", "count", "feature", "feature", "prop", "columns", "parts"}, "kind"), Seekable: drawBool(t, "seekable"), EOFNow: drawBool(t, "eofnow")}
	switch c.Kind {
	case "header":
		c.Declared = pick(t, []uint64{1 << 16, 1 << 20, 1 << 24, 32<<20 - 1, 32 << 20, 32<<20 + 1, 33 << 20, 1 << 28, 1 << 31, 1<<31 - 1, math.MaxUint32 - 4, math.MaxUint32 - 3, math.MaxUint32}, "len")
	case "count":
		c.Declared = pick(t, []uint64{1 << 16, 1 << 20, 1 << 22, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 1 << 40, 1 << 45, 1 << 56, 1 << 57, 1<<58 - 1, 1 << 58, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64}, "count")
		c.Declared -= uint64(drawInt(t, 0, 2, "less"))
		c.Node = uint16(pick(t, []int{0, 0, 2, 3, 16, 65535}, "node"))
	default:
		c.Declared = pick(t, []uint64{1 << 16, 1 << 20, 1 << 24, 1 << 26, 1 << 27, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, math.MaxUint32 - 4, math.MaxUint32 - 3, math.MaxUint32}, "len")
		c.Declared -= uint64(drawInt(t, 0, 2, "less"))
	}
	c.Present = pick(t, []int{0, 1, 3, 4, 100, 5000, 65000}, "present")
	c.Op = Op{K: pick(t, []string{"data", "rem", "search", "index"}, "op"), N: drawInt(t, 1, 3, "n"), Q: world}
	c.Typ = pick(t, []uint8{11, 12, 13, 14}, "typ")
	return c
}

const allocAllowance = 48 << 20

func runR08(c DeclCase, x *Ctx) {
	x.NT()
	x.Label("kind " + c.Kind)
	limit := func(what string, n int, f func()) {
		if a := allocated(f); a > allocAllowance+24*uint64(n) {
			x.Failf("%s allocates %d bytes for an input of %d bytes", what, a, n)
		}
	}
	if c.Kind == "prop" {
		b := le.AppendUint32(nil, uint32(c.Declared))
		b = append(b, junk(c.Present)...)
		limitErr := func(what string, f func(r *flatgeobuf.PropReader) error, b []byte) {
			s := newStream(b)
			s.frag.EOFNow = c.EOFNow
			limit(what, len(b), func() {
				if err := f(flatgeobuf.NewPropReader(s.view(false, false))); err == nil {
					x.Failf("%s with declared length %d of %d returns no error", what, c.Declared, c.Present)
				}
			})
		}
		limitErr("ReadBinary", func(r *flatgeobuf.PropReader) error { _, err := r.ReadBinary(); return err }, b)
		limitErr("ReadString", func(r *flatgeobuf.PropReader) error { _, err := r.ReadString(); return err }, b)
		h := Header{Columns: []Column{{Name: []byte("c"), Type: ptr(c.Typ)}}}
		hdr := flat.GetSizePrefixedRootAsHeader(encodeSizePrefixed(h.tab(), Layout{}), 0)
		limitErr("ReadSchema", func(r *flatgeobuf.PropReader) error { _, err := r.ReadSchema(hdr); return err }, append([]byte{0, 0}, b...))
		f := Feature{Props: append([]byte{0, 0}, b...)}
		ff := flat.GetSizePrefixedRootAsFeature(f.bytes(), 0)
		limit("FeatureString", len(b), func() { flatgeobuf.FeatureString(ff, hdr) })
		return
	}
	h := Header{Name: []byte("n"), NodeSize: ptr(uint16(0))}
	feat := Feature{Geom: &Geometry{XY: []F{1, 2}}}
	var b []byte
	declaredOK := false // the declared data is there
	features := 0
	switch c.Kind {
	case "header":
		b = le.AppendUint32(magicBytes(1), uint32(c.Declared))
		if c.Present > 60<<20 || uint64(c.Present) >= c.Declared {
			// All of the header is there: a valid one with a metadata
			// field that fills it.
			m := Header{Name: []byte("n"), NodeSize: ptr(uint16(0)), Metadata: []byte{}}
			base := len(encodeSizePrefixed(m.tab(), Layout{})) - 4
			m.Metadata = make([]byte, int(c.Declared)-base-8)
			e := encodeSizePrefixed(m.tab(), Layout{})
			e = append(e, make([]byte, int(c.Declared)+4-len(e))...)
			le.PutUint32(e, uint32(c.Declared))
			b = append(magicBytes(1), e...)
			declaredOK = true
		} else {
			b = append(b, junk(c.Present)...)
		}
	case "count":
		h.FeaturesCount, h.NodeSize = &c.Declared, &c.Node
		b = append(magicBytes(1), encodeSizePrefixed(h.tab(), Layout{})...)
		if c.Node == 0 {
			e := feat.bytes()
			for n := c.Present; n >= len(e) && c.Declared > uint64(features); n -= len(e) {
				b = append(b, e...)
				features++
			}
		} else {
			b = append(b, make([]byte, c.Present)...)
		}
		x.LabelIf(c.Node > 0, "count with index")
	case "feature":
		b = append(magicBytes(1), encodeSizePrefixed(h.tab(), Layout{})...)
		if c.Present%2 == 0 {
			b = append(b, feat.bytes()...)
			features++
		}
		b = le.AppendUint32(b, uint32(c.Declared))
		b = append(b, junk(c.Present)...)
	case "columns", "parts":
		// The vector's length is corrupt. Nothing is missing as such, so
		// there need not be an error.
		f := Feature{Geom: &Geometry{Parts: []Geometry{{}}}, Columns: []Column{{Type: ptr(uint8(1))}}, Props: []byte{0, 0, 7}}
		fb := f.bytes()
		d := decRoot(fb, 4)
		slot := 2
		if c.Kind == "parts" {
			d, _ = d.sub(0)
			slot = 7
		}
		at, _, _ := d.vector(slot, 4)
		le.PutUint32(fb[at-4:], uint32(c.Declared))
		limit("FeatureString", len(fb), func() { flatgeobuf.FeatureString(flat.GetSizePrefixedRootAsFeature(fb, 0), nil) })
		h.Columns = f.Columns
		hb := encodeSizePrefixed(h.tab(), Layout{})
		at, _, _ = decRoot(hb, 4).vector(7, 4)
		le.PutUint32(hb[at-4:], uint32(c.Declared))
		hdr := flat.GetSizePrefixedRootAsHeader(hb, 0)
		limit("ReadSchema", len(hb), func() {
			flatgeobuf.NewPropReader(bytes.NewReader(f.Props)).ReadSchema(hdr)
		})
		limit("HeaderString", len(hb), func() { flatgeobuf.HeaderString(hdr) })
		return
	}
	s := newStream(b)
	s.frag.EOFNow = c.EOFNow
	m := newReader(x, nil2file, s, c.Seekable, false)
	var o callResult
	limit("Header", len(b), func() { o = m.call(Op{K: "header"}) })
	if c.Kind == "header" {
		if declaredOK && c.Declared <= 32<<20 {
			if o.err != nil || o.h == nil {
				x.Failf("Header of %d bytes is refused: %v", c.Declared, o.err)
			}
			return
		}
		if o.err == nil {
			x.Failf("Header of declared length %d (%d bytes present) is accepted", c.Declared, len(b)-12)
		}
		return
	}
	if o.err != nil {
		if c.Kind == "count" && c.Declared > math.MaxInt {
			return // the documented limit
		}
		if c.Kind == "count" && c.Node > 0 && c.Declared > math.MaxInt/100 {
			return // the index cannot be represented
		}
		x.Failf("Header: %v", o.err)
	}
	total := 0
	for i := 0; ; i++ {
		op := c.Op
		if i > 0 && (op.K == "index" || op.K == "search") {
			op = Op{K: "rem"}
		}
		limit(op.K, len(b), func() { o = m.call(op) })
		total += o.n
		if op.K == "index" && c.Node == 0 && o.err == nil || op.K == "search" && errors.Is(o.err, flatgeobuf.ErrNoIndex) {
			continue
		}
		if o.err != nil || i > len(b) {
			break
		}
	}
	if o.err == nil || o.err == io.EOF {
		x.Failf("declared %s %d, %d bytes present: reading ends with error %v", c.Kind, c.Declared, len(b), o.err)
	}
	if total != features && c.Op.K != "search" && c.Op.K != "index" && c.Node == 0 {
		x.Failf("declared %s %d: %d features returned, %d are present", c.Kind, c.Declared, total, features)
	}
}

func init() {
	register(&Prop{ID: "R05", Rule: "rapid draws valid files and corrupts them (bytes, aligned words set to boundary, random or slightly changed values, inserted, deleted, copied and cut blocks, aimed at header, index or data), declares other counts and node sizes, adds features whose geometry parts are shared or nested in each other, or draws plain random bytes; then up to eight random reader calls, with text summaries of every header and up to 40 features per call. Oracle: no panic, hang, stack exhaustion or memory exhaustion (worker processes watch for these); after a failed Header every later call is an error and delivers nothing. Non-trivial: a header is returned.",
		Subs: []*Sub{
			sub("corrupt", 120000, 6000000, drawCorrupt, runR05, func() (r []CorruptCase) {
				for _, b := range []Bomb{{2, 60, false, 1, 0}, {2, 900, false, 0, 0}, {1, 1, true, 1, 0}, {2, 2, true, 1, 0}, {1, 999, false, 1, 0}, {1, 1001, false, 1, 0}, {1, 300000, false, 0, 0}, {100, 100, true, 0, 0}, {60000, 3, false, 0, 0}, {2, 900, true, 0, 300000}, {60000, 2, false, 0, 500000}, {3, 30, false, 0, 100000}} {
					r = append(r, CorruptCase{S: FileSpec{Unknown: true}, Bombs: []Bomb{b}, Ops: []Op{{K: "header"}, {K: "rem"}}})
				}
				return
			}),
		}})
	register(&Prop{ID: "R07", Rule: "all 256 values of each of the eight bytes, all short streams and all swaps of two bytes are enumerated as fixed cases; rapid draws random and lightly edited magic numbers, cuts and fragmentation. Oracle: comparison with the constant; number of bytes consumed. Non-trivial: every case.",
		Subs: []*Sub{sub("magic", 60000, 1000000, drawMagic, runR07, fixedMagics)}})
	register(&Prop{ID: "R08", Rule: "rapid draws declared header lengths, feature counts with node sizes, feature lengths, property lengths and vector lengths up to the maximum of their type, and how much is present. Oracle: growth of TotalAlloc per call at most 48 MiB + 24 bytes per input byte, and an error where declared data is missing. Non-trivial: every case.",
		Assum: []string{"allocation is measured as the growth of runtime.MemStats.TotalAlloc around the call; the fixed allowance covers a header of 32 MiB"},
		Subs: []*Sub{sub("sizes", 30000, 400000, drawSize, runR08, func() (r []DeclCase) {
			for _, d := range []uint64{32<<20 - 4, 32 << 20, 32<<20 + 4, 40 << 20} {
				r = append(r, DeclCase{Kind: "header", Declared: d, Present: 61 << 20})
			}
			return
		})}})
}
