package main

// The guided mode: a search for cases which is led by what the code under
// test does. A case is determined by the sequence of values which its
// generator draws. The search keeps sequences which reached something new
// (an edge, another number of passes through an edge, comparison operands
// nearer to each other, a label of the oracle) and tries variations of them.
// The oracles are those of the random mode.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// gDraw is one drawn value. Kinds: i signed, u unsigned, f float.
type gDraw struct {
	v, lo, hi uint64
	name      string
	kind      byte
}

// guideT plays a sequence of draws.
type guideT struct {
	in       []gDraw
	pos      int
	out      []gDraw
	rng      prng
	simplest bool // values beyond the sequence are the simplest ones
	exact    bool // the sequence has values only
}

// guide is not nil while a case is generated in the guided mode.
var guide *guideT

// errTooLong ends the generation of a case.
type errTooLong struct{}

const maxDraws = 1 << 16

type prng uint64

func (r *prng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *prng) n(n int) int { return int(r.next() % uint64(n)) }

// fit brings a value into the range of a draw.
func (d *gDraw) fit(v uint64) uint64 {
	if d.kind == 'f' {
		lo, hi := math.Float64frombits(d.lo), math.Float64frombits(d.hi)
		f := math.Float64frombits(v)
		if f != f {
			v &^= 1 << 62 // not NaN
			f = math.Float64frombits(v)
		}
		if f < lo || f > hi {
			f = lo + float64(v>>12)/(1<<52)*(hi-lo)
		}
		return math.Float64bits(f)
	}
	if w := d.hi - d.lo; v-d.lo > w {
		return d.lo + (v-d.lo)%(w+1)
	}
	return v
}

// simple is the simplest value of a draw.
func (d *gDraw) simple() uint64 {
	switch d.kind {
	case 'f':
		return d.fit(0)
	case 'i':
		if int64(d.lo) <= 0 && int64(d.hi) >= 0 {
			return 0
		}
	}
	return d.lo
}

// fresh draws with a bias towards small and extreme values, as rapid does.
func (d *gDraw) fresh(r *prng) uint64 {
	if d.kind == 'f' {
		switch r.n(4) {
		case 0:
			return d.fit(math.Float64bits(float64(int64(r.n(2000)) - 1000)))
		case 1:
			return d.fit(math.Float64bits(float64(int64(r.n(200000))-100000) / 64))
		case 2:
			return d.fit(math.Float64bits(specialFloats[r.n(len(specialFloats))]))
		}
		return d.fit(r.next())
	}
	lo, w, neg := d.lo, d.hi-d.lo, false
	if d.kind == 'i' && int64(d.lo) < 0 && int64(d.hi) >= 0 {
		if neg = r.n(2) == 0; neg {
			lo, w = 1, -d.lo-1
		} else {
			lo, w = 0, d.hi
		}
	}
	bitlen := bits.Len64(w)
	m := math.Max(8, (float64(bitlen)+48)/7)
	g := int(math.Log1p(-float64(r.next()>>11)/(1<<53))/math.Log1p(-1/(m+1))) + 1
	var u uint64
	if g >= 64-(16-int(m))*4 {
		u = w
	} else {
		bitlen = min(bitlen, g)
		for u = r.next() & (1<<bitlen - 1); u > w; {
			u = r.next() & (1<<bitlen - 1)
		}
	}
	if neg {
		return -(lo + u)
	}
	return lo + u
}

func (g *guideT) draw(name string, kind byte, lo, hi uint64) uint64 {
	d := gDraw{lo: lo, hi: hi, name: name, kind: kind}
	if len(g.out) >= maxDraws {
		panic(errTooLong{})
	}
	found := false
	if g.exact {
		if found = g.pos < len(g.in); found {
			d.v = g.in[g.pos].v
			g.pos++
		}
	} else {
		for j := g.pos; j < len(g.in) && j < g.pos+8; j++ {
			if g.in[j].kind == kind && g.in[j].name == name {
				d.v, g.pos, found = d.fit(g.in[j].v), j+1, true
				break
			}
		}
	}
	if !found {
		if g.simplest {
			d.v = d.simple()
		} else {
			d.v = d.fresh(&g.rng)
		}
	}
	g.out = append(g.out, d)
	return d.v
}

// Comparisons which the code under test makes. The hooks may run in several
// goroutines at once; a lost entry does no harm.
type cmpEntry struct{ a, b, mask uint64 }

const cmpBits = 1 << 16

var (
	cmpOn  bool
	cmpLog [256]cmpEntry
	cmpNow [cmpBits / 64]uint64
)

type corpusEntry struct {
	draws []gDraw
	cost  time.Duration
	cmps  []cmpEntry
	tries int
}

type fuzzer struct {
	r        *runner
	s        *Sub
	sr       *SubResult
	rng      prng
	counters []byte
	edges    []byte // of each counter, the buckets seen
	cmps     []uint64
	labels   map[string]byte
	corpus   []*corpusEntry
	edgeN    int
	seen     map[uint64]bool
	dictI    []uint64
	dictF    []uint64
	trace    *os.File
	past     [][]uint64
	execs    int
	total    time.Duration
}

func bucket(n int) byte {
	switch {
	case n == 0:
		return 0
	case n <= 3:
		return 1 << (n - 1)
	case n <= 7:
		return 8
	case n <= 15:
		return 16
	case n <= 31:
		return 32
	case n <= 127:
		return 64
	}
	return 128
}

var buckets = func() (t [256]byte) {
	for i := range t {
		t[i] = bucket(i)
	}
	return
}()

// generate makes the case of a sequence.
func (f *fuzzer) generate(g *guideT) (c any, ok bool) {
	defer func() {
		guide = nil
		if p := recover(); p != nil {
			if _, is := p.(errTooLong); !is {
				panic(p)
			}
		}
	}()
	guide = g
	c = f.s.Gen(nil)
	return c, true
}

// exec runs the oracle on one case. interesting is true if it reached
// something new.
func (f *fuzzer) exec(g *guideT, count bool) (e *corpusEntry, c any, msg string, interesting bool) {
	c, ok := f.generate(g)
	if !ok {
		return nil, nil, "", false
	}
	e = &corpusEntry{draws: g.out}
	vals := make([]uint64, len(g.out))
	for i := range g.out {
		vals[i] = g.out[i].v
	}
	f.leaveTrace(vals)
	if count {
		if len(f.past) < 4096 {
			f.past = append(f.past, vals)
		} else {
			f.past[f.execs%4096] = vals
		}
		f.execs++
	}
	clear(f.counters)
	clear(cmpLog[:])
	clear(cmpNow[:])
	x := newCtx(f.r.p)
	cmpOn = true
	start := time.Now()
	o := runCase(f.s, c, x)
	e.cost = time.Since(start)
	cmpOn = false
	if o.Harness != "" {
		b, _ := json.Marshal(c)
		f.r.res.Harness = fmt.Sprintf("%s/%s: %s\ncase: %s", f.r.p.ID, f.s.Name, o.Harness, clip(string(b), 3000))
		panic(failNow{})
	}
	if o.Violation != "" || !count {
		return e, c, o.Violation, false
	}
	f.total += e.cost
	// Account for it.
	f.sr.Evaluations++
	f.sr.slow(f.s, c, x.cpu)
	for l, n := range x.labels {
		f.sr.Labels[l] += n
		if b := bucket(n); f.labels[l]&b == 0 {
			f.labels[l] |= b
			interesting = true
		}
	}
	for k, d := range x.known {
		if f.sr.Known[k] == "" {
			f.sr.Known[k] = d
		}
		f.sr.Labels["known finding: "+k]++
	}
	if x.nontrivial {
		h := fnv.New64a()
		var b [8]byte
		for _, v := range vals {
			binary.LittleEndian.PutUint64(b[:], v)
			h.Write(b[:])
		}
		if u := h.Sum64(); !f.seen[u] && len(f.seen) < 4<<20 {
			f.seen[u] = true
			f.sr.Hashes = append(f.sr.Hashes, u)
		}
	}
	// What is new?
	for i := 0; i < len(f.counters); i++ {
		if i+8 <= len(f.counters) && binary.LittleEndian.Uint64(f.counters[i:]) == 0 {
			i += 7
			continue
		}
		if b := buckets[f.counters[i]]; b&^f.edges[i] != 0 {
			if f.edges[i] == 0 {
				f.edgeN++
			}
			f.edges[i] |= b
			interesting = true
		}
	}
	for i, w := range cmpNow {
		if w&^f.cmps[i] != 0 {
			f.cmps[i] |= w
			interesting = true
		}
	}
	if x.cpu > time.Second*time.Duration(slowness) {
		interesting = false // what is made from it would be as slow
	}
	return
}

// leaveTrace writes down what is about to run, in case the process dies.
func (f *fuzzer) leaveTrace(vals []uint64) {
	if f.trace == nil {
		return
	}
	b := make([]byte, 8, 8*len(vals)+8)
	binary.LittleEndian.PutUint64(b, uint64(len(vals)))
	for _, v := range vals {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	f.trace.WriteAt(b, 64)
}

func (f *fuzzer) admit(e *corpusEntry) {
	for _, k := range cmpLog {
		if k.a != k.b {
			e.cmps = append(e.cmps, k)
		}
	}
	f.corpus = append(f.corpus, e)
	if len(f.corpus) > 6000 {
		f.corpus = append([]*corpusEntry{}, f.corpus[1000:]...)
	}
}

func (f *fuzzer) parent() *corpusEntry {
	mean := f.total / time.Duration(max(1, f.execs))
	for {
		n := len(f.corpus)
		i := f.rng.n(n)
		if f.rng.n(3) == 0 {
			i = n - 1 - f.rng.n(min(n, max(4, n/8)))
		}
		e := f.corpus[i]
		if e.cost > 4*mean && f.rng.n(int(min(64, e.cost/(mean+1)))) > 2 {
			continue
		}
		e.tries++
		return e
	}
}

// mutate varies a sequence.
func (f *fuzzer) mutate(e *corpusEntry) []gDraw {
	r := &f.rng
	d := append([]gDraw{}, e.draws...)
	if len(d) == 0 {
		return d
	}
	for n := 1 + r.n(2)*r.n(4); n > 0 && len(d) > 0; n-- {
		i := r.n(len(d))
		x := &d[i]
		switch r.n(16) {
		case 0:
			x.v = x.fresh(r)
		case 1:
			x.v = x.fit(r.next())
		case 2, 3: // near
			if x.kind == 'f' {
				x.v = x.fit(math.Float64bits(math.Float64frombits(x.v) + float64(r.n(9)-4)))
			} else {
				x.v = x.fit(x.v + uint64(r.n(33)) - 16)
			}
		case 4:
			x.v = x.fit(x.v ^ 1<<r.n(64))
		case 5: // extremes
			switch r.n(4) {
			case 0:
				x.v = x.lo
			case 1:
				x.v = x.hi
			case 2:
				x.v = x.simple()
			default:
				x.v = x.fit(x.v + 1<<r.n(64))
			}
		case 6: // a constant of the code
			if x.kind == 'f' {
				// Half of the time one which is written as a float.
				n := len(f.dictF)
				if m := f.dictF[0]; m > 1 && r.n(2) == 0 {
					n = int(m)
				}
				if n > 1 {
					x.v = x.fit(f.dictF[1+r.n(n-1)])
				}
			} else if len(f.dictI) > 0 {
				v := f.dictI[r.n(len(f.dictI))]
				if v-x.lo <= x.hi-x.lo {
					x.v = v
				}
			}
		case 7, 8, 9: // comparison operands
			f.useComparison(d, e)
		case 10: // the same value as elsewhere
			y := &d[r.n(len(d))]
			for k := 0; k < 20 && (y.kind != x.kind || y.name != x.name); k++ {
				y = &d[r.n(len(d))]
			}
			if y.kind == x.kind {
				x.v = x.fit(y.v)
			}
		case 11: // leave out
			m := min(1+r.n(1<<r.n(6)), len(d)-i)
			d = append(d[:i], d[i+m:]...)
		case 12: // repeat
			m := min(1+r.n(1<<r.n(6)), len(d)-i)
			at := r.n(len(d) + 1)
			d = append(d[:at:at], append(append([]gDraw{}, d[i:i+m]...), d[at:]...)...)
		case 13: // from another case
			o := f.corpus[r.n(len(f.corpus))].draws
			if len(o) > 0 {
				k := r.n(len(o))
				m := min(1+r.n(1<<r.n(8)), len(o)-k)
				if r.n(2) == 0 {
					d = append(d[:i:i], append(append([]gDraw{}, o[k:k+m]...), d[i:]...)...)
				} else {
					d = append(d[:i:i], append(append([]gDraw{}, o[k:k+m]...), d[min(i+m, len(d)):]...)...)
				}
			}
		case 14: // another end
			d = d[:i]
		case 15: // float particulars
			if x.kind == 'f' {
				v := math.Float64frombits(x.v)
				switch r.n(4) {
				case 0:
					v = math.Nextafter(v, math.Inf(1))
				case 1:
					v = math.Nextafter(v, math.Inf(-1))
				case 2:
					v = -v
				default:
					v *= float64(int(1) << r.n(10))
				}
				x.v = x.fit(math.Float64bits(v))
			} else {
				x.v = x.fresh(r)
			}
		}
	}
	return d
}

// useComparison changes a draw so that a comparison might turn out another
// way.
func (f *fuzzer) useComparison(d []gDraw, e *corpusEntry) {
	r := &f.rng
	if len(e.cmps) == 0 {
		return
	}
	k := e.cmps[r.n(len(e.cmps))]
	a, b := k.a, k.b
	if r.n(2) == 0 {
		a, b = b, a
	}
	b += uint64(r.n(3) - 1)
	// A draw which equals one operand becomes the other.
	if r.n(3) > 0 {
		at := r.n(len(d))
		for n := 0; n < len(d); n++ {
			x := &d[(at+n)%len(d)]
			if x.kind != 'f' && x.v&k.mask == a&k.mask && x.lo != x.hi && x.v != x.fit(b) {
				x.v = x.fit(b)
				return
			}
			if x.kind == 'f' && x.v == a {
				x.v = x.fit(b)
				return
			}
		}
	}
	// A draw on which the operand depends linearly moves by the distance.
	x := &d[r.n(len(d))]
	for n := 0; n < 8 && (x.kind == 'f' || x.hi-x.lo < 16); n++ {
		x = &d[r.n(len(d))]
	}
	if x.kind == 'f' {
		return
	}
	delta := int64(b - a)
	delta /= []int64{1, 1, 1, 2, 4, 8, 12, 16, 40}[r.n(9)]
	if r.n(4) == 0 {
		delta = -delta
	}
	x.v = x.fit(x.v + uint64(delta+int64(r.n(2)*(r.n(9)-4))))
}

// shrink looks for a simpler sequence which fails as well.
func (f *fuzzer) shrink(d []gDraw, c any, msg string) (any, string) {
	end := time.Now().Add(15 * time.Second)
	try := func(in []gDraw) bool {
		if time.Now().After(end) {
			return false
		}
		g := &guideT{in: in, simplest: true}
		e, c2, m, _ := f.exec(g, false)
		if m == "" || len(e.draws) > len(d) {
			return false
		}
		if len(e.draws) == len(d) {
			// Only if it is simpler.
			less := false
			for i := range d {
				if a, b := e.draws[i].weight(), d[i].weight(); a != b {
					less = a < b
					break
				}
			}
			if !less {
				return false
			}
		}
		d, c, msg = e.draws, c2, m
		return true
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for size := len(d); size >= 1; size /= 2 {
			for at := 0; at+size <= len(d); {
				if try(append(append([]gDraw{}, d[:at]...), d[at+size:]...)) {
					again = true
				} else {
					at += size
				}
			}
		}
		for i := 0; i < len(d); i++ {
			set := func(v uint64) bool {
				if i >= len(d) || v == d[i].v {
					return false
				}
				in := append([]gDraw{}, d...)
				in[i].v = v
				return try(in)
			}
			if set(d[i].simple()) {
				again = true
				continue
			}
			for i < len(d) && d[i].kind != 'f' {
				s := d[i].simple()
				if !set(s+uint64(int64(d[i].v-s)/2)) && !set(d[i].v-1) {
					break
				}
				again = true
			}
		}
	}
	return c, msg
}

func (d *gDraw) weight() uint64 {
	switch d.kind {
	case 'f':
		return uint64(min(1e18, math.Abs(math.Float64frombits(d.v))*16)) + d.v&1
	case 'i':
		if int64(d.lo) <= 0 && int64(d.hi) >= 0 {
			if int64(d.v) < 0 {
				return -d.v*2 + 1
			}
			return d.v * 2
		}
	}
	return d.v - d.lo
}

// runGuided searches with one sub-check for some time.
func (r *runner) runGuided(s *Sub, shard int, seed uint64, length time.Duration, dictI, dictF []uint64, trace *os.File) {
	f := &fuzzer{r: r, s: s, rng: prng(subSeed(seed, shard, "guided/"+s.Name)), counters: coverCounters(), labels: map[string]byte{}, seen: map[uint64]bool{}, dictI: dictI, dictF: dictF, trace: trace}
	f.edges = make([]byte, len(f.counters))
	f.cmps = make([]uint64, len(cmpNow))
	f.sr = &SubResult{Sub: s.Name + " (guided)", Labels: map[string]int{}, Known: map[string]string{}}
	defer func() {
		f.sr.Labels["edges reached, sum of all workers"] = f.edgeN
		f.sr.Labels["inputs kept, sum of all workers"] = len(f.corpus)
		r.res.Subs = append(r.res.Subs, *f.sr)
	}()
	if trace != nil {
		var name [64]byte
		copy(name[:], s.Name)
		trace.WriteAt(name[:], 0)
	}
	end := time.Now().Add(length)
	for n := 0; ; n++ {
		if now := time.Now(); now.After(end) {
			return
		}
		g := &guideT{rng: prng(f.rng.next())}
		if len(f.corpus) > 0 && (n >= 64 || n%2 == 1) && f.rng.n(50) > 0 {
			g.in = f.mutate(f.parent())
		}
		e, c, msg, interesting := f.exec(g, true)
		if msg != "" {
			past := append(append([][]uint64{}, f.past[f.execs%len(f.past):]...), f.past[:f.execs%len(f.past)]...)
			if f.execs <= len(f.past) {
				past = f.past
			}
			var before []Prior
			for _, vals := range past[:len(past)-1] {
				if c, ok := f.generate(exactly(vals)); ok {
					b, _ := json.Marshal(c)
					before = append(before, Prior{s.Name, b})
				}
			}
			orig, _ := json.Marshal(c)
			r.res.Failure = &Failure{Sub: s.Name}
			c, msg = f.shrink(e.draws, c, msg)
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			r.res.Failure = &Failure{Sub: s.Name, Msg: msg, Case: b}
			r.res.Past, r.res.Original = before, orig
			return
		}
		if interesting {
			f.admit(e)
		}
	}
}

func exactly(vals []uint64) *guideT {
	g := &guideT{exact: true, simplest: true}
	for _, v := range vals {
		g.in = append(g.in, gDraw{v: v})
	}
	return g
}

// tracedCase finds out which case ran last in a worker which died.
func tracedCase(p *Prop, path string) *Failure {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 72 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b[64:])
	if n > uint64(len(b)-72)/8 {
		return nil
	}
	vals := make([]uint64, n)
	for i := range vals {
		vals[i] = binary.LittleEndian.Uint64(b[72+8*i:])
	}
	name := strings.TrimRight(string(b[:64]), "\x00")
	for _, s := range p.Subs {
		if s.Name == name {
			f := &fuzzer{s: s}
			if c, ok := f.generate(exactly(vals)); ok {
				b, _ := json.Marshal(c)
				return &Failure{Sub: s.Name, Msg: "process died", Case: b}
			}
		}
	}
	return nil
}

// constants collects the literals in the code under test: values which may
// matter to it. The first element of floats is the number of those which
// are not integers in the source, which come first, plus one.
func constants(repo string) (ints, floats []uint64) {
	var real []uint64
	si, sf := map[uint64]bool{}, map[uint64]bool{}
	filepath.WalkDir(repo, func(path string, e os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			if n := e.Name(); path != repo && (strings.HasPrefix(n, ".") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		a, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(a, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch v := constant.MakeFromLiteral(l.Value, l.Kind, 0); l.Kind {
			case token.INT, token.CHAR:
				if u, ok := constant.Uint64Val(constant.ToInt(v)); ok {
					for _, w := range []uint64{u, u - 1, u + 1, -u} {
						if !si[w] {
							si[w] = true
							ints = append(ints, w)
						}
					}
					if b := math.Float64bits(float64(u)); !sf[b] {
						sf[b] = true
						floats = append(floats, b, b|1<<63)
					}
				}
			case token.FLOAT:
				x, _ := constant.Float64Val(v)
				if b := math.Float64bits(x); !sf[b] {
					sf[b] = true
					real = append(real, b, b|1<<63)
				}
			}
			return true
		})
		return nil
	})
	floats = append(append([]uint64{uint64(len(real) + 1)}, real...), floats...)
	return
}

// guidable reports whether the guided mode applies to a sub-check.
func guidable(s *Sub) bool {
	return s.Gen != nil && s.Quick > 0 && !s.Once && !s.Measure && !s.Host && s.Name != "processes" && s.Name != "hosts"
}

// guidedTime is how long each worker searches.
func guidedTime(p *Prop, tier string) time.Duration {
	n := 0
	for _, s := range p.Subs {
		if guidable(s) {
			n++
		}
	}
	if *flagSeconds > 0 {
		return time.Duration(*flagSeconds) * time.Second
	}
	if n == 0 {
		return 0
	}
	if tier == "thorough" {
		return time.Duration(600+120*n) * time.Second
	}
	return min(20, time.Duration(10+2*n)) * time.Second
}

func (r *runner) guidedSubs(shard int, seed uint64, tier string) {
	var subs []*Sub
	for _, s := range r.p.Subs {
		if guidable(s) {
			subs = append(subs, s)
		}
	}
	var trace *os.File
	if r.trace != "" {
		trace, _ = os.Create(r.trace)
	}
	dictI, dictF := constants(os.Getenv("VERIF_REPO"))
	for _, s := range subs {
		r.runGuided(s, shard, seed, guidedTime(r.p, tier)/time.Duration(len(subs)), dictI, dictF, trace)
		if r.res.Failure != nil {
			return
		}
	}
}
