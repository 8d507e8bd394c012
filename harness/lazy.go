package main

// R09: a call takes from the stream what it needs and nothing else.

import (
	"fmt"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// visited lists the ranges of nodes which a search has to look at: the root
// and the children of every node that meets the query.
func (t *refTree) visited(q Box4, nodeSize int) (r [][2]int64) {
	top := len(t.levels) - 1
	r = append(r, [2]int64{0, int64(t.levels[top])})
	var down func(level, i int)
	down = func(level, i int) {
		if level == 0 || !t.boxes[t.start[level]+i].touches(q) {
			return
		}
		first := i * nodeSize
		end := min(first+nodeSize, t.levels[level-1])
		r = append(r, [2]int64{int64(t.start[level-1] + first), int64(t.start[level-1] + end)})
		for j := first; j < end; j++ {
			down(level-1, j)
		}
	}
	for i := 0; i < t.levels[top]; i++ {
		down(top, i)
	}
	return
}

// mergeRanges sorts ranges and joins adjacent ones.
func mergeRanges(rs [][2]int64) [][2]int64 {
	sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
	out := [][2]int64{}
	for _, r := range rs {
		if r[0] >= r[1] {
			continue
		}
		if n := len(out); n > 0 && out[n-1][1] >= r[0] {
			out[n-1][1] = max(out[n-1][1], r[1])
		} else {
			out = append(out, r)
		}
	}
	return out
}

func scaleRanges(rs [][2]int64, at, by int64) (out [][2]int64) {
	for _, r := range rs {
		out = append(out, [2]int64{at + r[0]*by, at + r[1]*by})
	}
	return
}

// needs lists what a call may read of the stream.
func (m *reader) needs(op Op, prefix int64, cached bool) [][2]int64 {
	f := m.f
	rs := [][2]int64{}
	add := func(from, to int) {
		rs = append(rs, [2]int64{prefix + int64(from), prefix + int64(to)})
	}
	feat := func(i int) {
		at := f.dataAt + int(f.featAt[i])
		add(at, at+len(f.feats[i]))
	}
	if m.closed {
		return rs
	}
	switch op.K {
	case "header":
		if m.state == 0 {
			add(0, f.indexAt)
		}
	case "index":
		if m.state == 1 && f.indexed && !cached {
			add(f.indexAt, f.dataAt)
		}
	case "search":
		if m.state != 1 || !f.indexed {
			break
		}
		want := f.matches(op.Q.b())
		if m.seekable {
			if !cached {
				rs = append(rs, scaleRanges(f.tree.visited(op.Q.b(), int(f.nodes)), prefix+int64(f.indexAt), 40)...)
			}
			for _, i := range want {
				feat(i)
			}
			break
		}
		add(f.indexAt, f.dataAt)
		if len(want) > 0 {
			last := want[len(want)-1]
			add(f.dataAt, f.dataAt+int(f.featAt[last])+len(f.feats[last]))
		}
	case "data", "rem":
		if m.state == 0 || m.state == 3 {
			break
		}
		want := m.rest()
		more := op.K == "rem" || op.N > len(want)
		if op.K == "data" && op.N < len(want) {
			want = want[:op.N]
		}
		if m.state == 1 && f.indexed && !m.seekable {
			add(f.indexAt, f.dataAt)
		}
		for _, i := range want {
			feat(i)
		}
		if f.count == 0 && more {
			// Only the end of the stream tells that there are no more.
			add(len(f.bytes), len(f.bytes)+1)
		}
	}
	return mergeRanges(rs)
}

// LazyCase is a reader history on a stream which tells what is read.
type LazyCase struct {
	C     HistoryCase
	Trail int // bytes after the file, if its end is known
}

func drawLazy(t *rapid.T) LazyCase {
	var k LazyCase
	switch drawInt(t, 0, 3, "kind") {
	case 0:
		k.C = drawSequential(t)
	case 1:
		k.C = drawSearches(t)
	default:
		k.C = drawHistory(t)
	}
	k.C.Kind = ""
	k.Trail = pick(t, []int{0, 0, 3, 100, 5000}, "trail")
	return k
}

func runLazy(k LazyCase, x *Ctx) {
	f := k.C.file()
	m := k.C.open(x, f)
	defer m.clean()
	if f.count > 0 {
		m.s.data = append(m.s.data, junk(k.Trail)...)
	}
	prefix := int64(k.C.Prefix)
	m.s.need, m.s.needWhat = [][2]int64{}, "NewFileReader"
	cached, skipped, early := false, false, false
	for i, op := range k.C.Ops {
		m.s.need = m.needs(op, prefix, cached)
		m.s.needWhat = fmt.Sprintf("%s (call %d of %v; header to %d, data from %d, end at %d, %d before the file)", op.K, i, k.C.Ops, f.indexAt, f.dataAt, len(f.bytes), prefix)
		moves := m.s.pos
		before := m.s.reads
		misuse := m.closed || m.state == 0 && op.K != "header" || m.state != 0 && op.K == "header"
		o := m.call(op)
		if op.K == "index" && o.prt != nil {
			cached = true
		}
		m.check(op, o)
		if misuse && (m.s.pos != moves || m.s.reads != before) {
			x.Failf("%s, which is refused, reads or seeks", m.s.needWhat)
		}
		early = early || m.state == 2 && m.pos < len(f.feats)
		skipped = skipped || op.K == "search" && o.n > 0 && o.n < len(f.feats)
		if !k.C.Seekable && len(m.s.need) > 0 && o.err == nil && op.K != "index" {
			if want := m.s.need[len(m.s.need)-1][1]; m.s.pos != want && f.count > 0 {
				x.Failf("%s leaves the stream at %d, want %d", m.s.needWhat, m.s.pos, want)
			}
		}
	}
	m.finish()
	labelFile(x, f, &k.C)
	x.LabelIf(f.count > 0 && k.Trail > 0, "data after the file")
	x.LabelIf(skipped, "search passes over features")
	x.LabelIf(early, "stops before the end")
	if early || skipped {
		x.NT()
	}
}

// LazyPart reads one thing of a longer stream.
type LazyPart struct {
	Seek SeekCase
	Vals []PVal
	Frag Frag
}

func runLazyPart(k LazyPart, x *Ctx) {
	c := &k.Seek
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize))
	b := tree.bytes()
	data := append(append(junk(c.Prefix), b...), junk(40+len(c.Suffix))...)
	open := func(what string, need [][2]int64) *stream {
		s := newStream(data)
		s.frag = k.Frag
		s.pos = int64(c.Prefix)
		s.need, s.needWhat = need, what
		return s
	}
	whole := [][2]int64{{int64(c.Prefix), int64(c.Prefix + len(b))}}
	if prt, err := packedrtree.Unmarshal(open("Unmarshal", whole).r(), len(refs), c.NodeSize); err != nil || prt == nil {
		x.Failf("Unmarshal: %v, %v", prt, err)
	}
	if prt, err := packedrtree.Unmarshal(open("Unmarshal", whole).rs(), len(refs), c.NodeSize); err != nil || prt == nil {
		x.Failf("Unmarshal: %v, %v", prt, err)
	}
	for _, q := range c.Queries {
		need := mergeRanges(scaleRanges(tree.visited(q.b(), int(c.NodeSize)), int64(c.Prefix), 40))
		var total int64
		for _, r := range need {
			total += r[1] - r[0]
		}
		s := open(fmt.Sprintf("Seek %v in an index of %d levels", q, len(tree.levels)), need)
		got, err := packedrtree.Seek(s.rs(), len(refs), c.NodeSize, q.b().box())
		if err != nil {
			x.Failf("Seek: %v", err)
		}
		if want := bruteSearch(boxes, offs, q.b()); len(got) != len(want) {
			x.Failf("Seek %v: %d results, want %d", q, len(got), len(want))
		}
		if total < int64(len(b)) {
			x.NT()
			x.Label("search reads part of the index")
		}
	}
	// Values of properties, one at a time.
	var ref []byte
	ends := []int64{0}
	for i := range k.Vals {
		ref = k.Vals[i].encode(ref)
		ends = append(ends, int64(len(ref)))
	}
	s := newStream(append(ref, junk(20)...))
	s.steps = 1 << 24
	s.frag = k.Frag
	s.need, s.needWhat = [][2]int64{}, "NewPropReader"
	r := flatgeobuf.NewPropReader(s.r())
	for i := range k.Vals {
		s.need, s.needWhat = mergeRanges([][2]int64{{ends[i], ends[i+1]}}), "reading a value of type "+typeNames[k.Vals[i].Type]
		if _, err := readValue(r, k.Vals[i].Type); err != nil {
			x.Failf("%s: %v", s.needWhat, err)
		}
	}
	// The magic number.
	s = newStream(append(magicBytes(2), junk(30)...))
	s.frag = k.Frag
	s.need, s.needWhat = [][2]int64{{0, 8}}, "Magic"
	if _, err := flatgeobuf.Magic(s.r()); err != nil {
		x.Failf("Magic: %v", err)
	}
}

func init() {
	register(&Prop{ID: "R09", Rule: "rapid draws files and histories as for R01, R02 and R03, often with other data after the file, indexes with queries as for T02, and sequences of property values. Oracle: the stream knows which ranges each call needs according to the cursor model (the header; the index, or for a search on a seekable stream only the children of nodes which meet the query; the features returned, and on other streams what lies before them; the end of the stream only if the number of features is unknown) and reports every read of, or attempt to read, anything else. Non-trivial: reading stops before the end, or a search passes over features; for the parts: a search reads only a part of the index.",
		Subs: []*Sub{
			sub("files", 90000, 3600000, drawLazy, runLazy),
			sub("parts", 60000, 2400000, func(t *rapid.T) LazyPart {
				return LazyPart{Seek: drawSeekCase(t), Vals: drawPVals(t, 0, 4), Frag: drawFrag(t)}
			}, runLazyPart),
		}})
}
