package main

// R04 and R06: truncated files and failing streams.

import (
	"errors"
	"fmt"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"pgregory.net/rapid"
)

// CutCase enumerates the truncations of a file under one way of reading.
type CutCase struct {
	S        FileSpec
	Seekable bool
	Frag     Frag
	Prefix   int
	Mode     string // data, chunk, rem, index, search, rewound
	Chunk    int
	Q        RBox
	At       int // if >= 0, only this length (set by shrinking)
}

func drawCut(t *rapid.T) CutCase {
	c := CutCase{S: drawFile(t, fileGen{maxFeats: 4, maxCols: 2, mode: -1}), At: -1}
	if c.S.n() == 0 && !oneIn(t, 5, "empty") {
		c.S.Feats = []Feature{drawFeature(t, c.S.H.Columns, cmGrid)}
	}
	c.Mode = pick(t, []string{"data", "chunk", "rem", "index", "search", "rewound"}, "mode")
	c.Seekable = c.Mode == "rewound" || drawBool(t, "seekable")
	c.Frag = pick(t, []Frag{{}, {EOFNow: true}, {Sizes: []int{3, 50}}, {Sizes: []int{16, 0, 5}, EOFNow: true}}, "frag")
	c.Frag.Rich, c.Frag.Scratch = oneIn(t, 4, "rich"), oneIn(t, 4, "scratch")
	c.Prefix = pick(t, []int{0, 0, 11}, "prefix")
	c.Chunk = drawInt(t, 1, 6, "chunk")
	c.Q = drawFileQuery(t, &c.S)
	return c
}

// cutPoints lists the lengths to which a file is cut: all, or for long
// files all around the structural boundaries and a sample elsewhere.
func cutPoints(f *file) (r []int) {
	near := map[int]bool{}
	mark := func(at int) {
		for d := -9; d <= 9; d++ {
			near[at+d] = true
		}
	}
	mark(0)
	mark(8)
	mark(12)
	mark(f.indexAt)
	mark(f.dataAt)
	for i := range f.feats {
		mark(f.dataAt + int(f.featAt[i]))
	}
	mark(len(f.bytes))
	step := max(1, len(f.bytes)/700, int(int64(len(f.bytes))*int64(len(f.bytes))/200000000))
	for at := 0; at < len(f.bytes); at++ {
		if near[at] || at%step == 0 {
			r = append(r, at)
		}
	}
	return
}

func runR04(c CutCase, x *Ctx) {
	f := c.S.build()
	x.NT()
	x.Label("mode " + c.Mode)
	x.LabelIf(f.indexed, "indexed")
	for _, at := range cutPoints(f) {
		if tired() {
			break
		}
		x.labels["truncations"]++
		c.one(x, f, at)
	}
}

func (c *CutCase) one(x *Ctx, f *file, at int) {
	whole := f
	var complete int // features entirely present
	for i := range f.feats {
		if f.dataAt+int(f.featAt[i])+len(f.feats[i]) <= at {
			complete = i + 1
		}
	}
	boundary := at == f.dataAt
	if complete > 0 {
		boundary = at == f.dataAt+int(f.featAt[complete-1])+len(f.feats[complete-1])
	}
	undetectable := f.count == 0 && boundary
	s := newStream(append(junk(c.Prefix), f.bytes[:at]...))
	s.pos = int64(c.Prefix)
	s.frag = c.Frag
	m := newReader(x, whole, s, c.Seekable, false)
	where := fmt.Sprintf("file of %d bytes (header to %d, data from %d, %d features) cut to %d: ", len(f.bytes), f.indexAt, f.dataAt, len(f.feats), at)
	bad := func(what string, err error) {
		if err == nil || err == io.EOF {
			x.Failf("%s%s returns error %v", where, what, err)
		}
	}
	o := m.call(Op{K: "header"})
	if at < f.indexAt {
		bad("Header", o.err)
		if o.h != nil {
			x.Failf("%sHeader returns a header", where)
		}
		o := m.call(Op{K: "data", N: 1})
		bad("Data after failed Header", o.err)
		if o.n != 0 {
			x.Failf("%sData returns features after failed Header", where)
		}
		return
	}
	m.check(Op{K: "header"}, o)
	mode := c.Mode
	if mode == "index" || mode == "rewound" && f.indexed {
		o := m.call(Op{K: "index", Q: c.Q})
		if at < f.dataAt {
			bad("Index", o.err)
			if o.prt != nil {
				x.Failf("%sIndex returns an index", where)
			}
			bad("Data after failed Index", m.call(Op{K: "data", N: 1}).err)
			return
		}
		m.check(Op{K: "index", Q: c.Q}, o)
	}
	if mode == "rewound" {
		if o := m.call(Op{K: "rewind"}); o.err != nil {
			x.Failf("%sRewind: %v", where, o.err)
		}
		m.state, m.pos = 1, 0
		mode = "search"
		if !f.indexed {
			mode = "data"
		}
	}
	switch mode {
	case "search":
		if !f.indexed {
			// Reported as such, or as truncated data; covered by R02.
			return
		}
		o := m.call(Op{K: "search", Q: c.Q})
		if o.err == nil {
			m.check(Op{K: "search", Q: c.Q}, o)
			x.Label("search unaffected")
		} else {
			bad("IndexSearch", o.err)
			if o.n != 0 {
				x.Failf("%sIndexSearch returns features and error %v", where, o.err)
			}
		}
	case "rem":
		o := m.call(Op{K: "rem"})
		c.partial(m, where+"DataRem", o.fs, complete, true)
		if undetectable {
			if o.err != nil {
				x.Failf("%sDataRem: %v", where, o.err)
			}
			return
		}
		bad("DataRem", o.err)
		o = m.call(Op{K: "rem"})
		bad("DataRem after failed DataRem", o.err)
		if o.n != 0 {
			x.Failf("%sDataRem returns features after a failure", where)
		}
	default:
		n := 1
		if mode == "chunk" {
			n = c.Chunk
		}
		total := 0
		for {
			o := m.call(Op{K: "data", N: n})
			c.partial(m, where+"Data", o.fs[:o.n], complete-total, n == 1 && o.err != nil)
			total += o.n
			m.pos += o.n
			if o.err == nil && o.n < n {
				x.Failf("%sData returns %d of %d features and no error", where, o.n, n)
			}
			if o.err == io.EOF && undetectable {
				return
			}
			if o.err != nil {
				bad("Data", o.err)
				break
			}
			if total > complete {
				x.Failf("%sData returns more features than are present", where)
			}
		}
		o := m.call(Op{K: "data", N: n})
		bad("Data after failed Data", o.err)
		if o.n != 0 {
			x.Failf("%sData returns features after a failure", where)
		}
	}
	m.finish()
}

// partial checks features returned from a truncated file: the next ones of
// the original, at most n, exactly n if all is set.
func (c *CutCase) partial(m *reader, what string, fs []flat.Feature, n int, all bool) {
	if len(fs) > n {
		m.x.Failf("%s returns %d features where only %d are present", what, len(fs), n)
	}
	if all && len(fs) < n {
		m.x.Failf("%s returns %d features where %d are present", what, len(fs), n)
	}
	for i := range fs {
		m.sameFeature(what, &fs[i], m.pos+i)
	}
}

// FaultCase enumerates the stream faults of a history.
type FaultCase struct {
	S        FileSpec
	Seekable bool
	CloseErr bool
	Frag     Frag
	Prefix   int
	Ops      []Op
	Once     bool
}

func drawFaultCase(t *rapid.T) FaultCase {
	c := FaultCase{S: drawFile(t, fileGen{maxFeats: 4, maxCols: 2, mode: -1})}
	if c.S.n() == 0 && !oneIn(t, 5, "empty") {
		c.S.Feats = []Feature{drawFeature(t, c.S.H.Columns, cmGrid)}
	}
	c.Seekable = drawBool(t, "seekable")
	c.CloseErr = drawBool(t, "closeerr")
	c.Frag = pick(t, []Frag{{}, {EOFNow: true}, {Sizes: []int{30, 5}}, {Sizes: []int{64, 0, 7}, EOFNow: true}}, "frag")
	c.Frag.Rich, c.Frag.Scratch = oneIn(t, 4, "rich"), oneIn(t, 4, "scratch")
	c.Prefix = pick(t, []int{0, 0, 11}, "prefix")
	c.Once = drawBool(t, "once")
	c.Ops = []Op{{K: "header"}}
	for i := drawInt(t, 1, 5, "nops"); i > 0; i-- {
		op := Op{K: pick(t, []string{"data", "data", "search", "search", "index", "rem", "rewind", "rewind", "header"}, "op")}
		switch op.K {
		case "data":
			op.N = drawInt(t, 1, 4, "n")
		case "search", "index":
			op.Q = drawFileQuery(t, &c.S)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// rewindFaults has all ways of reading a file, with and without an index,
// twice or three times.
func rewindFaults() (r []FaultCase) {
	q := RBox{0, 0, 1, 1}
	ways := []Op{{K: "data", N: 2}, {K: "rem"}, {K: "index"}, {K: "search", Q: q}, {K: "index"}}
	for k := 0; k < 4*125; k++ {
		w := []int{k % 5, k / 5 % 5, k / 25 % 5}
		c := FaultCase{Seekable: true, Once: k/125%2 > 0, Prefix: 11 * (k % 2), Ops: []Op{{K: "header"}}}
		for i := 0; i < 5; i++ {
			x := F(i % 3)
			c.S.Feats = append(c.S.Feats, Feature{Geom: &Geometry{XY: []F{x, x}}, Fill: 8 * i})
		}
		c.S.Order = k / 3 % 3
		if c.S.NodeSize = 2; k >= 250 {
			c.S.NodeSize, c.S.Unknown = 0, k%2 > 0
		}
		for i, j := range w {
			if i > 0 {
				c.Ops = append(c.Ops, Op{K: "rewind"})
			}
			if c.Ops = append(c.Ops, ways[j]); j == 4 {
				c.Ops = append(c.Ops, Op{K: "data", N: 1})
			}
		}
		r = append(r, c)
	}
	return
}

func (c *FaultCase) open(x *Ctx, f *file) *reader {
	s := newStream(append(junk(c.Prefix), f.bytes...))
	s.pos = int64(c.Prefix)
	s.frag = c.Frag
	s.once = c.Once
	if c.CloseErr {
		s.closeErr = errInjectedClose
	}
	return newReader(x, f, s, c.Seekable, true)
}

func runR06(c FaultCase, x *Ctx) {
	f := c.S.build()
	m := c.open(x, f)
	for _, op := range c.Ops {
		m.step(op)
	}
	calls := m.s.calls
	x.LabelIf(f.indexed, "indexed")
	if calls > 2 {
		x.NT()
	}
	stride := 1
	if calls > 400 {
		stride = calls / 400
	}
	for call := 0; call < calls && !tired(); call += stride {
		for _, partial := range []int{0, 1, 1 << 30} {
			c.one(x, f, call, partial, -1)
		}
	}
	effort.Store(0)
	for _, at := range cutPoints(f) {
		if tired() {
			break
		}
		c.one(x, f, -1, 0, at)
	}
}

func (c *FaultCase) one(x *Ctx, f *file, call, partial, at int) {
	m := c.open(x, f)
	if call >= 0 {
		m.s.faultCall, m.s.partial = call, partial
	} else {
		m.s.faultPos = int64(c.Prefix + at)
	}
	x.labels["fault points"]++
	failed := false
	for i, op := range append(append([]Op{}, c.Ops...), Op{K: "data", N: 1}, Op{K: "rem"}, Op{K: "index"}, Op{K: "search", Q: world}, Op{K: "header"}, Op{K: "rewind"}, Op{K: "data", N: 1}) {
		before := m.s.faulted
		o := m.call(op)
		what := fmt.Sprintf("%s (operation %d; stream fails at call %d or position %d of %d, index at %d, data at %d)", op.K, i, call, at, len(f.bytes), f.indexAt, f.dataAt)
		if failed {
			if o.err == nil || o.err == io.EOF {
				x.Failf("%s returns error %v after an earlier stream failure", what, o.err)
			}
			if o.n != 0 || o.h != nil || o.prt != nil {
				x.Failf("%s delivers data after an earlier stream failure", what)
			}
			continue
		}
		if m.s.faulted == before || m.s.faultFull && (o.err == nil || o.err == io.EOF) {
			m.check(op, o)
			continue
		}
		if o.err == nil || o.err == io.EOF {
			x.Failf("%s returns error %v although the stream failed", what, o.err)
		}
		if !errors.Is(o.err, errInjected) {
			x.Failf("%s: error %q does not wrap the stream's error", what, o.err)
		}
		failed = true
		x.labels["reported faults"]++
		if o.h != nil {
			m.checkHeader(o.h)
		}
		if o.prt != nil {
			x.Failf("%s returns an index and error %v", what, o.err)
		}
		switch op.K {
		case "data", "rem":
			if rest := m.rest(); o.n > len(rest) {
				x.Failf("%s returns %d features of %d", what, o.n, len(rest))
			} else {
				m.takeFeatures(what, o.fs[:o.n], rest[:o.n])
			}
		default:
			if o.n != 0 {
				x.Failf("%s returns features and error %v", what, o.err)
			}
		}
	}
	m.finish()
	err := m.r.Close()
	if m.s.closes != 1 {
		x.Failf("after a stream failure, Close closes the stream %d times", m.s.closes)
	}
	if c.CloseErr != errors.Is(err, errInjectedClose) || !c.CloseErr && err != nil {
		x.Failf("after a stream failure, Close returns %v (stream's close error: %v)", err, m.s.closeErr)
	}
	m.closed = true
	m.step(Op{K: "close"})
	m.step(Op{K: "data", N: 1})
}

func init() {
	register(&Prop{ID: "R04", Level: "fault_enumeration", Rule: "rapid draws files, one of six ways of reading (one by one, in chunks, all, index first, search, index-rewind-search) and stream behaviour; per case every proper prefix of the file (for files over 700 bytes every one within 9 bytes of a structural boundary and a regular sample elsewhere) is read. Oracle: features are those of the original and no more than are present, then an error which is neither nil nor io.EOF, repeatedly; label 'truncations' counts prefixes. Non-trivial: every case.",
		Subs: []*Sub{sub("truncate", 4000, 160000, drawCut, runR04)}})
	register(&Prop{ID: "R06", Level: "fault_enumeration", Rule: "rapid draws files and histories of up to six calls; per case every read and seek call fails (delivering none, one or all bytes asked for; at most 400 calls) and every byte position fails (sampled as in R04), once or for good. Oracle: the cursor model until the fault, then an error wrapping the injected one with at most correct features, then errors only; Close still closes. Label 'fault points' counts faults. All ways of reading a file two or three times are fixed cases. Non-trivial: the history makes more than two stream calls.",
		Subs: []*Sub{sub("faults", 1600, 60000, drawFaultCase, runR06, rewindFaults)}})
}
