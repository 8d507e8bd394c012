package main

// W06: copying files from a reader to a writer.

import (
	"bytes"
	"errors"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// CopyCase is a file to copy.
type CopyCase struct {
	C     CorruptCase // its calls do not matter
	Chunk int         // features per call; none to read all at once
	Skip  bool        // do not load the index
}

func drawCopy(t *rapid.T) CopyCase {
	k := CopyCase{C: drawCorrupt(t)}
	if oneIn(t, 3, "good") {
		k.C.Edits, k.C.Raw = nil, nil
	}
	k.C.Ops = nil
	k.Chunk = pick(t, []int{1, 0, 2, 3, 100}, "chunk")
	k.Skip = oneIn(t, 8, "skip")
	return k
}

func runCopy(k CopyCase, x *Ctx) {
	src := k.C.bytes()
	s := newStream(append([]byte{}, src...))
	s.frag = k.C.Frag
	if len(src) > 20000 && len(s.frag.Sizes) > 0 {
		s.frag.Sizes = []int{4096, 77}
	}
	r := flatgeobuf.NewFileReader(s.view(k.C.Seekable, false))
	var out bytes.Buffer
	w := flatgeobuf.NewFileWriter(&out)
	written := 0
	// put hands an item which begins at written to the writer. It reports
	// whether to go on.
	put := func(what string, size int, lead int, n int, err error) bool {
		if err != nil {
			if got := out.Len(); got != written && got != written+lead {
				x.Failf("%s is refused (%v) after %d bytes of it were written", what, err, got-written)
			}
			x.Label("refused: " + what)
			return false
		}
		if size >= 0 && n != size || out.Len() != written+n {
			x.Failf("writing %s as read, of %d bytes: %d bytes counted, %d written", what, size, n, out.Len()-written)
		}
		if out.Len() > len(src) {
			x.Failf("%s: %d bytes were written, but the source has %d", what, out.Len(), len(src))
		}
		for i := written; i < written+n; i++ {
			if i != 7 && out.Bytes()[i] != src[i] {
				x.Failf("%s: byte %d of the copy is %#x, not %#x as in the source", what, i, out.Bytes()[i], src[i])
			}
		}
		written += n
		return true
	}

	h, err := r.Header()
	if err != nil {
		return
	}
	x.NT()
	n, err := w.Header(h)
	if !put("the header", -1, 8, n, err) {
		// What was refused is not taken by another writer either.
		return
	}
	var prt *packedrtree.PackedRTree
	if !k.Skip {
		prt, err = r.Index()
		if err != nil && !errors.Is(err, flatgeobuf.ErrNoIndex) {
			x.Label("index does not load")
			return
		}
		if prt != nil {
			n, err = w.Index(prt)
			if err != nil {
				x.Failf("the writer took the header but not the index of the same file: %v", err)
			}
			put("the index", -1, 0, n, err)
			x.Label("index copied")
		} else {
			x.Label("no index")
		}
	}
	copied := 0
	take := func(fs []flat.Feature) bool {
		for i := range fs {
			size := len(fs[i].Table().Bytes)
			n, err := w.Data(&fs[i])
			if !put("a feature", size, 0, n, err) {
				return false
			}
			copied++
		}
		return true
	}
	if k.Chunk == 0 {
		var fs []flat.Feature
		fs, err = r.DataRem()
		if !take(fs) {
			return
		}
	} else {
		fs := make([]flat.Feature, k.Chunk)
		for err == nil {
			var n int
			n, err = r.Data(fs)
			if !take(fs[:n]) {
				return
			}
		}
	}
	x.LabelIf(copied > 0, "features copied")
	x.LabelIf(len(k.C.Edits)+len(k.C.Bombs) > 0 && copied > 0, "features of a damaged file copied")
	if e := endOf(err); k.Chunk == 0 && err == nil || e == endOf(io.EOF) {
		x.Label("copied to the end")
		if err := w.Close(); err != nil {
			x.Failf("closing a complete copy: %v", err)
		}
		if out.Len() != written {
			x.Failf("Close writes %d bytes", out.Len()-written)
		}
		if p := int(s.pos); written != p {
			x.Failf("the copy has %d bytes, but %d were read", written, p)
		}
	}
}

func init() {
	register(&Prop{ID: "W06", Rule: "rapid draws valid, damaged and arbitrary files as for R05, and copies them from a reader to a writer, feature by feature or in larger parts. Oracle: the bytes of the source; what is refused leaves nothing (a header at most the magic number). Non-trivial: the reader accepts the header.",
		Subs: []*Sub{sub("copy", 60000, 2000000, drawCopy, runCopy)}})
}
