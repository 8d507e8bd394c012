package main

// R01..R03: reading well-formed files.

import (
	"pgregory.net/rapid"
)

func drawStreamSetup(t *rapid.T, c *HistoryCase) {
	c.Seekable = drawBool(t, "seekable")
	c.Closable = drawBool(t, "closable")
	c.Frag = drawFrag(t)
	if c.S.n() > 200 && len(c.Frag.Sizes) > 0 {
		c.Frag.Sizes = []int{777}
	}
	c.Prefix = pick(t, []int{0, 0, 0, 5, 64}, "prefix")
	c.Reuse = drawBool(t, "reuse")
	if oneIn(t, 6, "std") {
		c.Kind = pick(t, []string{"bytes", "bytes", "bytes", "buffer", "buffer", "bufio", "strings", "section", "file"}, "kind")
		c.Closable = false
		c.CloseErr = false
		if c.Seekable = c.Kind != "buffer" && c.Kind != "bufio"; c.Kind == "section" {
			c.Prefix = 0
		}
	}
}

func drawChunk(t *rapid.T) int { return pick(t, []int{1, 1, 2, 3, 5, 8, 0, 100, 1500}, "chunk") }

func drawSequential(t *rapid.T) HistoryCase {
	c := HistoryCase{S: drawFile(t, fileGen{maxFeats: 8, maxCols: 5, many: 60, mode: -1, sizes: true})}
	drawStreamSetup(t, &c)
	c.Ops = append(c.Ops, Op{K: "header"})
	if drawBool(t, "index") {
		c.Ops = append(c.Ops, Op{K: "index", Q: drawFileQuery(t, &c.S)})
	}
	for i := drawInt(t, 0, 8, "nchunks"); i > 0; i-- {
		c.Ops = append(c.Ops, Op{K: "data", N: drawChunk(t)})
	}
	if drawBool(t, "rem") {
		c.Ops = append(c.Ops, Op{K: "rem"})
	} else {
		c.Ops = append(c.Ops, Op{K: "data", N: 4000})
	}
	c.Ops = append(c.Ops, Op{K: "data", N: 1}, Op{K: "rem"})
	if c.Seekable && oneIn(t, 3, "again") {
		c.Ops = append(c.Ops, Op{K: "rewind"})
		switch drawInt(t, 0, 3, "how") {
		case 0:
			c.Ops = append(c.Ops, Op{K: "search", Q: drawFileQuery(t, &c.S)})
		case 1:
			c.Ops = append(c.Ops, Op{K: "data", N: drawChunk(t)})
		case 2:
			c.Ops = append(c.Ops, Op{K: "index", Q: drawFileQuery(t, &c.S)}, Op{K: "rem"})
		default:
			c.Ops = append(c.Ops, Op{K: "rem"})
		}
	}
	return c
}

func labelFile(x *Ctx, f *file, c *HistoryCase) {
	x.LabelIf(f.indexed, "indexed")
	x.LabelIf(f.count == 0 && len(f.feats) > 0, "unknown count")
	x.LabelIf(len(f.feats) > 1000, "over 1000 features")
	x.LabelIf(c.Seekable, "seekable")
	x.LabelIf(c.Prefix > 0, "file not at stream start")
	x.LabelIf(len(c.Frag.Sizes) > 0, "fragmented reads")
}

func runR01(c HistoryCase, x *Ctx) {
	m := runHistory(&c, x)
	labelFile(x, m.f, &c)
	if len(m.f.feats) > 0 {
		x.NT()
	}
	again := false
	for _, op := range c.Ops {
		again = again || op.K == "rewind"
	}
	x.LabelIf(again, "read again after rewinding")
	if m.returned < len(m.f.feats) || !again && m.returned > len(m.f.feats) || m.passes == 0 {
		x.Failf("only %d of %d features returned", m.returned, len(m.f.feats))
	}
}

func drawSearches(t *rapid.T) HistoryCase {
	g := fileGen{maxFeats: 12, maxCols: 2, indexed: 1, many: 80, mode: -1, sizes: true}
	if oneIn(t, 8, "noindex") {
		g.indexed = 2
	}
	c := HistoryCase{S: drawFile(t, g)}
	drawStreamSetup(t, &c)
	c.Ops = append(c.Ops, Op{K: "header"})
	if !c.Seekable {
		c.Ops = append(c.Ops, Op{K: "search", Q: drawFileQuery(t, &c.S)})
		if g.indexed == 2 {
			c.Ops = append(c.Ops, Op{K: "rem"})
		}
		return c
	}
	for i := drawInt(t, 1, 4, "rounds"); i > 0; i-- {
		switch drawInt(t, 0, 5, "round") {
		case 0:
			c.Ops = append(c.Ops, Op{K: "index", Q: drawFileQuery(t, &c.S)}, Op{K: "data", N: drawChunk(t)}, Op{K: "rewind"})
		case 1:
			c.Ops = append(c.Ops, Op{K: "data", N: drawChunk(t)}, Op{K: "rewind"})
		case 2:
			c.Ops = append(c.Ops, Op{K: "rem"}, Op{K: "rewind"})
		}
		c.Ops = append(c.Ops, Op{K: "search", Q: drawFileQuery(t, &c.S)})
		if g.indexed == 2 {
			c.Ops = append(c.Ops, Op{K: "rem"})
		}
		c.Ops = append(c.Ops, Op{K: "rewind"})
	}
	c.Ops = append(c.Ops, Op{K: "search", Q: drawFileQuery(t, &c.S)})
	return c
}

func runR02(c HistoryCase, x *Ctx) {
	m := runHistory(&c, x)
	labelFile(x, m.f, &c)
	nt := false
	for _, op := range c.Ops {
		if op.K == "search" {
			if n := len(m.f.matches(op.Q.b())); n > 0 && n < len(m.f.feats) {
				nt = true
			}
		}
	}
	if nt && m.f.indexed {
		x.NT()
		x.Label("search with hits and misses")
	}
	x.LabelIf(c.S.Order > 0, "file order differs from index order")
}

func drawHistory(t *rapid.T) HistoryCase {
	c := HistoryCase{S: drawFile(t, fileGen{maxFeats: 5, maxCols: 2, many: 150, mode: -1, sizes: true})}
	drawStreamSetup(t, &c)
	c.CloseErr = oneIn(t, 4, "closeerr") && c.Kind == ""
	if !oneIn(t, 8, "headerlate") {
		c.Ops = append(c.Ops, Op{K: "header"})
	}
	for i := drawInt(t, 1, 14, "nops"); i > 0; i-- {
		op := Op{K: pick(t, []string{"data", "data", "data", "rewind", "rewind", "rewind", "search", "search", "index", "index", "rem", "header", "close"}, "op")}
		if op.K == "close" && i > 3 && !oneIn(t, 6, "closenow") {
			op.K = "rewind"
		}
		switch op.K {
		case "data":
			op.N = drawChunk(t)
		case "search", "index":
			op.Q = drawFileQuery(t, &c.S)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runR03(c HistoryCase, x *Ctx) {
	m := runHistory(&c, x)
	labelFile(x, m.f, &c)
	seen := map[string]bool{}
	rew := 0
	for _, op := range c.Ops {
		seen[op.K] = true
		rew += b2i(op.K == "rewind")
	}
	x.LabelIf(rew > 1, "several rewinds")
	if len(c.Ops) >= 5 && len(seen) >= 3 {
		x.NT()
	}
}

var world = RBox{-1e9, -1e9, 1e9, 1e9}

func init() {
	register(&Prop{ID: "R01", Rule: "rapid draws whole files (headers with arbitrary fields, features with nested geometries, properties and own schemas, five FlatBuffers layouts, known/unknown/zero counts, any index) encoded by a reference encoder, stream fragmentation, seekability, and a division of the reading into calls; the sample files of the repository are fixed cases. Oracle: the cursor model; tables byte for byte and field by field, checked again at the end of the history. Non-trivial: the file has features.",
		Subs: []*Sub{
			sub("sequential", 60000, 2500000, drawSequential, runR01, func() (r []HistoryCase) {
				for _, n := range testFiles() {
					for i := 0; i < 4; i++ {
						c := HistoryCase{Raw: n, Seekable: i&1 == 0, Ops: []Op{{K: "header"}}}
						if i&2 == 0 {
							c.Ops = append(c.Ops, Op{K: "index", Q: world})
						}
						c.Ops = append(c.Ops, Op{K: "data", N: 3}, Op{K: "rem"}, Op{K: "data", N: 1})
						r = append(r, c)
					}
				}
				for i := 0; i < 4; i++ {
					r = append(r, HistoryCase{S: FileSpec{Feats: bigFeatures(), NodeSize: 4, Unknown: i == 3, CountZero: true}, Seekable: i == 0, Frag: Frag{Sizes: [][]int{nil, {1 << 19}, {4096, 1 << 20}, {99999}}[i]},
						Ops: []Op{{K: "header"}, {K: "data", N: 1 + i}, {K: "rem"}}})
				}
				for i := 0; i < 4; i++ {
					c := HistoryCase{S: manyFeatures(), Seekable: i == 0, Frag: Frag{Sizes: [][]int{nil, {1 << 19}, {4096}, {9999}}[i]}, Ops: []Op{{K: "header"}, {K: "data", N: 1 + i*30000}, {K: "rem"}}}
					c.S.Unknown = i == 3
					r = append(r, c)
				}
				for i := 0; i < 4; i++ {
					r = append(r, HistoryCase{S: FileSpec{Feats: sweptFeatures(), NodeSize: 16}, Seekable: i == 0, Frag: Frag{Sizes: [][]int{nil, {512}, {4096}, {8192}}[i]},
						Ops: []Op{{K: "header"}, {K: "data", N: 1 + i}, {K: "rem"}}})
				}
				return
			}),
		}})
	register(&Prop{ID: "R02", Rule: "as R01 with indexed files whose features may be stored in another order than the index, and boxes which may differ from the extents; one or more searches, mixed with index loading, reading and rewinding on seekable streams; one file in eight has no index. Oracle: linear scan over the indexed boxes. Non-trivial: some query hits some but not all features.",
		Subs: []*Sub{
			sub("search", 60000, 2500000, drawSearches, runR02, func() (r []HistoryCase) {
				for _, n := range testFiles() {
					for i, q := range []RBox{world, {-100, 30, -90, 40}, {0, 0, 1, 1}, {-80.5, 36, -80, 37}} {
						c := HistoryCase{Raw: n, Seekable: i != 0, Ops: []Op{{K: "header"}, {K: "search", Q: q}}}
						if c.Seekable {
							c.Ops = append(c.Ops, Op{K: "rewind"}, Op{K: "index", Q: q}, Op{K: "rewind"}, Op{K: "search", Q: q})
						}
						r = append(r, c)
					}
				}
				for i, q := range []RBox{{2, 2, 2, 100}, {3.25, 3.25, 17, 17}, {18, 300, 18, 400}, {0, 0, 99, 999}} {
					for j := 0; j < 2; j++ {
						c := HistoryCase{S: manyFeatures(), Seekable: j == 0, Frag: Frag{Sizes: []int{4096}}, Ops: []Op{{K: "header"}, {K: "search", Q: q}}}
						c.S.NodeSize = []uint16{16, 1000, 65535, 16}[i]
						c.S.Order = 7 * (i % 2)
						r = append(r, c)
					}
				}
				for i, q := range []RBox{{2, 2, 2, 2}, {3.25, 3.25, 7, 7}, {8, 8, 8, 8}, {9.7, 9.7, 99, 99}, {11, 11, 12, 12}, {0, 0, 99, 99}} {
					for j := 0; j < 2; j++ {
						r = append(r, HistoryCase{S: FileSpec{Feats: sweptFeatures(), NodeSize: 16, Order: 5 * (i % 2)}, Seekable: j == 0, Frag: Frag{Sizes: []int{512 << i}}, Ops: []Op{{K: "header"}, {K: "search", Q: RBox{q[0] * 10, q[1] * 10, q[2] * 50, q[3] * 50}}}})
						r = append(r, HistoryCase{S: FileSpec{Feats: bigFeatures(), NodeSize: 3, Order: 5 * (i % 2)}, Seekable: j == 0, Frag: Frag{Sizes: []int{50000*i + 7000}}, Ops: []Op{{K: "header"}, {K: "search", Q: q}}})
					}
				}
				return
			}),
		}})
	register(&Prop{ID: "R03", Rule: "as R01 with random sequences of up to 15 calls of all kinds. Oracle: the cursor model. Non-trivial: at least five calls of at least three kinds.",
		Subs: []*Sub{
			sub("history", 100000, 4000000, drawHistory, runR03, func() (r []HistoryCase) {
				for i := 0; i < 4; i++ {
					c := HistoryCase{S: manyFeatures(), Seekable: i%2 == 0, Frag: Frag{Sizes: []int{1 << 16}}, Ops: []Op{{K: "header"}, {K: "data", N: 33333}, {K: "data", N: 5000}, {K: "rewind"}, {K: "search", Q: RBox{2, 2, 5, 25}}, {K: "rewind"}, {K: "data", N: 66000}, {K: "rem"}, {K: "data", N: 1}}}
					c.S.Unknown = i > 1
					r = append(r, c)
				}
				return
			}),
		}})
}
