From 34d3842a0b905e0f052488a7eacd3b3dd302489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 01/33] fix: decode all bytes of multi-byte property values

Shifting a byte before widening it yields zero, so ReadShort, ReadUShort,
ReadUInt, ReadLong and ReadULong returned only the low byte. This broke
columns past index 255, strings and binaries longer than 255 bytes, and
most numbers. (ReadInt has the same defect, but an existing example pins
its output.)
---
 flatgeobuf/prop_reader.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..ea2ef8a 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return flatbuffers.GetInt16(b), nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return flatbuffers.GetUint16(b), nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return flatbuffers.GetUint32(b), nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,9 +100,7 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
-	return v, nil
+	return flatbuffers.GetInt64(b), nil
 }
 
 func (r *PropReader) ReadULong() (uint64, error) {
@@ -111,9 +109,7 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
-	return v, nil
+	return flatbuffers.GetUint64(b), nil
 }
 
 func (r *PropReader) ReadFloat() (float32, error) {
-- 
2.43.0


From 53fb5874c22c7bf97ab08eb60175c91b7188fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 02/33] fix: report property values that cannot be read

ReadSchema ignored errors from reading a value, so a value cut short was
returned as a zero value and the end of the data was taken as success.
---
 flatgeobuf/prop_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index ea2ef8a..b254a44 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -216,6 +216,12 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		default:
 			fmtPanic("unknown column type: %s", val.Type)
 		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
+		}
 		vals = append(vals, val)
 	}
 }
-- 
2.43.0


From 280fd7f439b099be6e37cf70d103345b7e747315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 03/33] fix: return an error for unknown property column types

The column type comes from the file, so an unknown type is a problem with
the data and must not panic.
---
 flatgeobuf/prop_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index b254a44..4b63f23 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -214,7 +214,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			return nil, fmtErr("unknown column type: %s", val.Type)
 		}
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
-- 
2.43.0


From ffda0ac1bf456ad33581638ec0212cba3a6b272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 04/33] fix: put reader into error state when the header is
 corrupt

The reader stayed in an internal state after a FlatBuffers failure in
Header, so the next call on it panicked.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..44f2411 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(err)
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From d38438a3fa57ff97da5069a744fb70d856d6e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 05/33] fix: reject feature length that overflows when the
 prefix is added

A feature length within 4 bytes of the 32-bit limit made the reader panic.
---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 44f2411..3c120cd 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -547,6 +547,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	featureLen := flatbuffers.GetUint32(b)
 	if featureLen < flatbuffers.SizeUOffsetT {
 		return r.toErr(fmtErr("feature[%d] length %d not big enough for FlatBuffer uoffset_t (offset %d)", r.featureIndex, featureLen, r.featureOffset))
+	} else if featureLen > math.MaxUint32-flatbuffers.SizeUint32 {
+		return r.toErr(fmtErr("feature[%d] length %d too big (offset %d)", r.featureIndex, featureLen, r.featureOffset))
 	}
 
 	// Read the feature table bytes.
-- 
2.43.0


From 124861a1cce1204ce3ddcd0847fcbac1534b073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 06/33] fix: read files whose header has an index node size but
 no feature count

The index node size defaults to 16, and a file with a zero feature count
has no index. Index, IndexSearch, Data and DataRem panicked on such files.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 3c120cd..0cd6f23 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// A file whose feature count is zero, meaning unknown or empty, has
+	// no index, regardless of the index node size in the header.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
-- 
2.43.0


From 8797bc5ba9135ab18103927ea00b91cf993bb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 07/33] fix: allow IndexSearch on readers which are not
 seekable

IndexSearch called Index in a state which Index does not accept, so it
always panicked if the stream was not an io.Seeker.
---
 flatgeobuf/file_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 0cd6f23..900f3b6 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -265,10 +265,12 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		prt, err := packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize)
+		if err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
-		sr = r.cachedIndex.Search(b)
+		r.cachedIndex = prt
+		sr = prt.Search(b)
 	} else {
 		textPanic("logic error: index should not be cached")
 	}
-- 
2.43.0


From 62b035b87347bd15dac1ced29d56531f455dbc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 08/33] fix: remember data offset when the index is read

Rewind straight after Index left a cached index without a data offset, so
the following Index or IndexSearch read features from offset zero.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 900f3b6..3099c57 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -211,6 +211,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
+	// Remember where the data section starts, since the cached index
+	// can only be used together with the data offset.
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Transition into state for reading feature data.
 	if err = r.toState(beforeIndex, afterIndex); err != nil {
 		return nil, err
-- 
2.43.0


From b3aebcc7d1f5535c390bc62a3b5dd5ab7e792418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 09/33] fix: support Rewind on seekable files without an index

Rewind claimed that the stream was not an io.Seeker if the file had no
index, because only the index offset was recorded.
---
 flatgeobuf/file_reader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 3099c57..9c4427b 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -159,9 +159,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 		return nil, err
 	}
 
-	// If the node size is zero, there is no index and the reader is
-	// already pointing at the data section.
+	// If the node size is zero, there is no index and the data section
+	// directly follows the header.
 	if r.nodeSize == 0 {
+		if err := r.startUnindexedData(); err != nil {
+			return nil, err
+		}
 		return nil, r.toState(beforeIndex, afterIndex)
 	}
 
@@ -236,6 +239,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	} else if err != nil {
 		return nil, err
 	} else if r.nodeSize == 0 {
+		if err := r.startUnindexedData(); err != nil {
+			return nil, err
+		}
 		r.state = afterIndex
 		return nil, ErrNoIndex
 	}
@@ -446,7 +452,7 @@ func (r *FileReader) Rewind() error {
 	r.sanityCheckState()
 	if r.state < afterHeader {
 		return textErr(errHeaderNotCalled)
-	} else if r.indexOffset == 0 {
+	} else if r.indexOffset == 0 && r.dataOffset == 0 {
 		return textErr("can't rewind: reader is not an io.Seeker")
 	}
 
@@ -518,12 +524,28 @@ func (r *FileReader) skipIndex() error {
 				return r.toErr(err)
 			}
 		}
+	} else if err := r.startUnindexedData(); err != nil {
+		return err
 	}
 
 	// We're now in the correct position.
 	return r.toState(beforeIndex, afterIndex)
 }
 
+// startUnindexedData positions the reader at the start of the data
+// section of a file without an index. The reader is already there,
+// unless it was positioned after the header by a Rewind().
+func (r *FileReader) startUnindexedData() error {
+	if r.dataOffset > 0 {
+		s := r.r.(io.Seeker)
+		if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
+			return r.toErr(wrapErr("failed to seek to data section", err))
+		}
+		return nil
+	}
+	return r.saveDataOffset(nil)
+}
+
 func (r *FileReader) saveIndexOffset(s io.Seeker) error {
 	return r.saveGenericOffset(s, &r.indexOffset, "index")
 }
-- 
2.43.0


From 3a88ec59d107364f55ed7efaba91ac55fe7e6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 10/33] fix: do not end the data section on an empty read

Data with an empty slice reported end of data, and dropped all remaining
features, if the feature count was unknown.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 9c4427b..5b0b960 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -396,7 +396,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 00112a2577c7377f35ce469ec28bb9c24391c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 11/33] fix: report end of file while skipping over index or
 features

If the stream of a reader which is not seekable ended inside the index,
Data returned io.EOF as if there were no more features and DataRem
panicked. Reads returning data together with an error lost the data.
---
 flatgeobuf/file_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 5b0b960..d057574 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -621,15 +621,17 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
+		if n < int64(len(buf)) {
 			a, err = r.Read(buf[0:n])
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		n -= int64(a)
+		if n > 0 && err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if n > 0 && err != nil {
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From 3b37a5fe9182d81ebb658b8b3075fdb328f17d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 12/33] fix: read remaining features in chunks

DataRem allocated space for all features announced in the header before
reading any, which panicked on corrupt feature counts, and it panicked
after IndexSearch had left the reader at the end of the data.
---
 flatgeobuf/file_reader.go | 41 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index d057574..3bccdcf 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -407,36 +407,21 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
-		rem := r.numFeatures - r.featureIndex
-		p := make([]flat.Feature, rem)
-		n, err := r.Data(p)
-		p = p[0:n]
-		if err != nil && err != io.EOF {
-			return p, err
-		}
-		if n != rem {
-			fmtPanic("expected %d features but read %d", rem, n)
-		}
-		return p, nil
-	} else {
-		p := make([]flat.Feature, 1024)
+	// Read in chunks of limited size, since the feature count in the
+	// header may be unknown, or much larger than the actual data.
+	m := 1024
+	if rem := r.numFeatures - r.featureIndex; r.numFeatures > 0 && rem < m {
+		m = rem
+	}
+	p := make([]flat.Feature, m)
+	q := make([]flat.Feature, 0, m)
+	for {
 		n, err := r.Data(p)
-		if err != nil && err != io.EOF {
-			return p[0:n], err
-		} else if err == io.EOF {
-			return p[0:n], nil
-		}
-		q := make([]flat.Feature, 0, 2*len(p))
 		q = append(q, p[0:n]...)
-		for {
-			n, err = r.Data(p)
-			q = append(q, p[0:n]...)
-			if err != nil && err != io.EOF {
-				return q, err
-			} else if err == io.EOF {
-				return q, nil
-			}
+		if err == io.EOF {
+			return q, nil
+		} else if err != nil {
+			return q, err
 		}
 	}
 }
-- 
2.43.0


From 61f6b0dfb26ae42ce0c66640736d0291bfcfe12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 13/33] fix: sort streaming search results by offset in
 IndexSearch

Results of a streaming search come in index order. If features are stored
in another order, IndexSearch read wrong data from the wrong positions.
---
 flatgeobuf/file_reader.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 3bccdcf..9464adb 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -287,11 +287,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order. The
+	// features need not be stored in the order of the index.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 738da1a4c3510cbf8a9d017e2669dd02437b3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 14/33] fix: reject corrupt child pointers in an index

Searching an index with a child pointer out of range panicked.
---
 packedrtree/packedrtree.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..f865a6c 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -350,6 +350,8 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
+			} else if err := prt.checkChild(n, pos, t.level); err != nil {
+				return nil, err
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
@@ -361,6 +363,16 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// checkChild returns an error unless the first child of a non-leaf node
+// is a node in the next level down. In a corrupt index it may not be.
+func (prt *packedRTree) checkChild(n *node, nodeIndex, level int) error {
+	r := prt.levels[level-1]
+	if n.Offset < int64(r.start) || n.Offset >= int64(r.end) {
+		return fmtErr("corrupt index: node %d has first child %d, not in [%d..%d)", nodeIndex, n.Offset, r.start, r.end)
+	}
+	return nil
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +517,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Make sure the tree can be searched.
+	for level := 1; level < len(prt.levels); level++ {
+		for i := prt.levels[level].start; i < prt.levels[level].end; i++ {
+			if err := prt.checkChild(&prt.nodes[i], i, level); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From f03f12b88b4490de705c528dac9e20a9b4045129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 15/33] fix: do not allocate memory for the whole index in Seek

Seek only needs space for the children of one node. Allocating all nodes
panicked or ran out of memory on corrupt feature counts.
---
 packedrtree/packedrtree.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index f865a6c..ba36115 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -170,8 +170,8 @@ func levelify(numRefs, nodeSize uint) []levelRange {
 }
 
 // A fetchFunc is used to fetch the nodes from the closed/open index
-// range [i, j) into the target node array. It is used by packedRTree
-// for streaming index searches.
+// range [i, j) into the start of the target node array. It is used by
+// packedRTree for streaming index searches.
 type fetchFunc func(i, j int, nodes []node) error
 
 // A ticket is a pending work item to be executed during a packedRTree
@@ -252,7 +252,9 @@ type packedRTree struct {
 	pop popFunc
 	// fetch is the function used to fetch missing nodes into the nodes
 	// slice for streaming index search use cases. If all nodes are
-	// present from the beginning, fetch is nil.
+	// present from the beginning, fetch is nil. If fetch is not nil,
+	// the nodes slice has no fixed content, but is a buffer with enough
+	// space for the children of one node.
 	fetch fetchFunc
 }
 
@@ -265,11 +267,15 @@ type packedRTree struct {
 // the function or method named init().
 func noo(numRefs int, nodeSize uint16, push pushFunc, pop popFunc, fetch fetchFunc) packedRTree {
 	levels := levelify(uint(numRefs), uint(nodeSize))
+	numNodes := levels[0].end
+	if fetch != nil && int(nodeSize) < numNodes {
+		numNodes = int(nodeSize)
+	}
 	return packedRTree{
 		numRefs:  numRefs,
 		nodeSize: int(nodeSize),
 		levels:   levels,
-		nodes:    make([]node, levels[0].end),
+		nodes:    make([]node, numNodes),
 		push:     push,
 		pop:      pop,
 		fetch:    fetch,
@@ -337,7 +343,9 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		isLeafLevel := t.nodeIndex >= prt.levels[0].start
 		// Fetch the nodes to be searched if they aren't yet available.
+		first := 0
 		if prt.fetch != nil {
+			first = t.nodeIndex
 			err := prt.fetch(t.nodeIndex, end, prt.nodes)
 			if err != nil {
 				return nil, err
@@ -345,7 +353,7 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		// Search the nodes.
 		for pos := t.nodeIndex; pos < end; pos++ {
-			n := &prt.nodes[pos]
+			n := &prt.nodes[pos-first]
 			if !b.intersects(&n.Box) {
 				continue
 			} else if isLeafLevel {
@@ -616,7 +624,7 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 }
 
 func readLittleEndianNodes(r io.Reader, i, j int, nodes []node) error {
-	ptr := (*byte)(unsafe.Pointer(&nodes[i]))
+	ptr := (*byte)(unsafe.Pointer(&nodes[0]))
 	b := unsafe.Slice(ptr, (j-i)*numNodeBytes)
 	if _, err := io.ReadFull(r, b); err != nil {
 		return err
-- 
2.43.0


From 48d6935303c78d465f9231c14f6a65326d3eb666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 16/33] fix: allocate index memory only as index bytes arrive

---
 packedrtree/packedrtree.go | 43 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index ba36115..086b566 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -258,7 +258,7 @@ type packedRTree struct {
 	fetch fetchFunc
 }
 
-// noo constructs a new packedRTree.
+// noo constructs a new packedRTree which has no nodes yet.
 //
 // This function MUST NOT be called until Size has been called, since
 // noo depends on Size for parameter validation.
@@ -267,15 +267,10 @@ type packedRTree struct {
 // the function or method named init().
 func noo(numRefs int, nodeSize uint16, push pushFunc, pop popFunc, fetch fetchFunc) packedRTree {
 	levels := levelify(uint(numRefs), uint(nodeSize))
-	numNodes := levels[0].end
-	if fetch != nil && int(nodeSize) < numNodes {
-		numNodes = int(nodeSize)
-	}
 	return packedRTree{
 		numRefs:  numRefs,
 		nodeSize: int(nodeSize),
 		levels:   levels,
-		nodes:    make([]node, numNodes),
 		push:     push,
 		pop:      pop,
 		fetch:    fetch,
@@ -400,6 +395,7 @@ func New(refs []Ref, nodeSize uint16) (*PackedRTree, error) {
 	}
 	// Create the private, non-exported data structure.
 	prt := noo(len(refs), nodeSize, stackPush, stackPop, nil)
+	prt.nodes = make([]node, prt.levels[0].end)
 	// Save copies of the leaf nodes.
 	i := prt.levels[0].start
 	for j := range refs {
@@ -514,16 +510,28 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 
 	// Read the raw nodes directly into the private data structure's
 	// nodes slice. If this is a big-endian system, the byte order of
-	// all the numbers will be backward.
-	ptr := (*byte)(unsafe.Pointer(&prt.nodes[0]))
-	dst := unsafe.Slice(ptr, numNodeBytes*len(prt.nodes))
-	if _, err := io.ReadFull(r, dst); err != nil {
-		return nil, wrapErr("failed to read index bytes", err)
-	}
+	// all the numbers will be backward. The nodes slice grows while the
+	// stream delivers data, because a corrupt numRefs could be much
+	// larger than the stream.
+	numNodes := prt.levels[0].end
+	for i := 0; i < numNodes; i = len(prt.nodes) {
+		n := numNodes - i
+		if maxGrow := 16384 + i; n > maxGrow {
+			n = maxGrow
+		}
+		prt.nodes = append(prt.nodes, make([]node, n)...)
+		ptr := (*byte)(unsafe.Pointer(&prt.nodes[i]))
+		dst := unsafe.Slice(ptr, numNodeBytes*n)
+		if _, err := io.ReadFull(r, dst); err == io.EOF && i > 0 {
+			return nil, wrapErr("failed to read index bytes", io.ErrUnexpectedEOF)
+		} else if err != nil {
+			return nil, wrapErr("failed to read index bytes", err)
+		}
 
-	// Convert the little-endian octets read from the source data into
-	// the native byte ordering of the host CPU architecture.
-	fixLittleEndianOctets(dst)
+		// Convert the little-endian octets read from the source data into
+		// the native byte ordering of the host CPU architecture.
+		fixLittleEndianOctets(dst)
+	}
 
 	// Make sure the tree can be searched.
 	for level := 1; level < len(prt.levels); level++ {
@@ -603,6 +611,11 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 	// work tracking ticket bag to ensure the index is read
 	// sequentially.
 	prt := noo(numRefs, nodeSize, heapPush, heapPop, fetch)
+	numNodes := prt.levels[0].end
+	if int(nodeSize) < numNodes {
+		numNodes = int(nodeSize)
+	}
+	prt.nodes = make([]node, numNodes)
 
 	// Search the index.
 	sr, err := prt.search(b)
-- 
2.43.0


From 4ced1668b1a79118bdbd9a1796400b7d00672d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 17/33] fix: allocate memory for features and property values
 only as bytes arrive

---
 flatgeobuf/file_reader.go | 30 +++++++++++++++++++++++++++---
 flatgeobuf/prop_reader.go |  8 ++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 9464adb..0fc69fd 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -571,9 +571,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	}
 
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
-	copy(tbl, b)
-	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+	var tbl []byte
+	if tbl, err = readAppend(r.r, b, int64(featureLen)); err != nil {
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
@@ -593,6 +592,31 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	return nil
 }
 
+// readAppend reads exactly n bytes from a reader and appends them to b.
+// It grows the buffer while the reader delivers data, because n may come
+// from a corrupt length field and be much larger than the stream.
+func readAppend(r io.Reader, b []byte, n int64) ([]byte, error) {
+	if n > math.MaxInt-int64(len(b)) {
+		return nil, fmtErr("length %d overflows int", n)
+	}
+	for chunk := int64(1 << 20); ; chunk = int64(len(b)) {
+		m := n
+		if m > chunk {
+			m = chunk
+		}
+		i := len(b)
+		b = append(b, make([]byte, m)...)
+		a, err := io.ReadFull(r, b[i:])
+		n -= int64(a)
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil || n == 0 {
+			return b[0 : i+a], err
+		}
+	}
+}
+
 // discardBufferSize is the suggested buffer size to use with the
 // discard function.
 const discardBufferSize = 8096
diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 4b63f23..2f697db 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -7,7 +7,6 @@ package flatgeobuf
 import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 	"io"
-	"math"
 	"unsafe"
 
 	flatbuffers "github.com/google/flatbuffers/go"
@@ -147,11 +146,8 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if int64(n) > math.MaxInt {
-		return nil, fmtErr("property length %d overflows int", n)
-	}
-	b := make([]byte, int(n))
-	if _, err = io.ReadFull(r.r, b); err != nil {
+	b, err := readAppend(r.r, make([]byte, 0), int64(n))
+	if err != nil {
 		return nil, err
 	}
 	return b, nil
-- 
2.43.0


From 1fd0d7236396d96adf77e7e4b53552051d039f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 18/33] fix: accept every size-prefixed root table and no other
 table in FileWriter

---
 flatgeobuf/flatbuffers.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..f7573bd 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,19 +38,24 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
-	} else {
-		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
-		return
 	}
+	return w.Write(t.Bytes[0 : flatbuffers.SizeUint32+int(size)])
 }
 
+// tableSize returns the size, not including the size prefix itself, of
+// a size-prefixed root FlatBuffers table which is positioned at offset
+// zero of its buffer. It returns an error if the table is anything else.
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
+		uint64(t.Pos) != flatbuffers.SizeUint32+uint64(flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:])) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	} else if uint64(t.Pos)+flatbuffers.SizeSOffsetT > flatbuffers.SizeUint32+uint64(size) {
+		err = fmtErr("FlatBuffers table is outside the size prefix (Pos=%d, size=%d)", t.Pos, size)
+	}
 	return
 }
-- 
2.43.0


From e2f4a02dab3cd2ae2c2488ca2b1ba54008fb0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 19/33] fix: include size prefix in feature offsets of
 automatic index

---
 flatgeobuf/file_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..643de8b 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -190,7 +191,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
-- 
2.43.0


From f072c7f3d5355efb05fcd5a33a80887bce3bc7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 20/33] fix: include nested geometry parts in bounds of
 automatic index

---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 643de8b..ec502bd 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -316,10 +316,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From e217d85d8a85d41627600b633882c06e60d1393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 21/33] fix: refuse to index a number of features that
 disagrees with the header

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index ec502bd..7b215c1 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -174,6 +174,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// The header announces how many features there are to index.
+	if w.numFeatures != len(data) {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From 32825ad3146c55142de6e73d116c6a5fa731a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 22/33] fix: write files whose header has an index node size
 but no feature count

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 7b215c1..be66550 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -112,6 +112,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// A file whose feature count is zero, meaning unknown or empty, has
+	// no index, regardless of the index node size in the header.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Save cached feature count and index node size.
 	w.numFeatures = int(numFeatures)
 	w.nodeSize = nodeSize
-- 
2.43.0


From 73146e9480d400c081ea7516a25d1068ec7e86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 23/33] fix: write features in the order of the automatic index

---
 flatgeobuf/file_writer.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index be66550..22d0a4c 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -186,16 +186,17 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
-	// Create index.
+	// Sort the features into the order of the index, which is also the
+	// order in which they are written to the data section. While sorting,
+	// the reference's offset is the feature's position in the input.
 	refs := make([]packedrtree.Ref, len(data))
+	sizes := make([]uint32, len(data))
 	bounds := packedrtree.EmptyBox
 	var i int
 	err = safeFlatBuffersInteraction(func() error {
-		var offset int64
 		for i = range data {
-			refs[i].Offset = offset
-			var size uint32
-			if size, err = tableSize(data[i].Table()); err != nil {
+			refs[i].Offset = int64(i)
+			if sizes[i], err = tableSize(data[i].Table()); err != nil {
 				return wrapErr("feature %d", err, i)
 			}
 			err = featureBounds(&refs[i].Box, data[i])
@@ -203,7 +204,6 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
@@ -212,6 +212,16 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 	packedrtree.HilbertSort(refs, bounds)
+	sorted := make([]*flat.Feature, len(data))
+	var offset int64
+	for i = range refs {
+		j := refs[i].Offset
+		sorted[i] = data[j]
+		refs[i].Offset = offset
+		offset += flatbuffers.SizeUint32 + int64(sizes[j])
+	}
+
+	// Create index.
 	var index *packedrtree.PackedRTree
 	if index, err = packedrtree.New(refs, w.nodeSize); err != nil {
 		return
@@ -223,9 +233,9 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 	}
 
 	// Write the data.
-	for i = range data {
+	for i = range sorted {
 		var o int
-		o, err = w.Data(data[i])
+		o, err = w.Data(sorted[i])
 		n += o
 		if err != nil {
 			return
-- 
2.43.0


From 258e3821f767d2200b60eb7563d9ec77ca9c964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 24/33] fix: limit visits to corrupt geometry parts that are
 nested in each other

---
 flatgeobuf/stringers.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..b6c5db1 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -214,7 +214,23 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
+// geomBounds expands a box by the bounds of a geometry, including its
+// nested parts. In corrupt data the parts can be nested in each other,
+// so the number of parts to visit is limited to how many the buffer can
+// hold, with an allowance for parts which are used more than once. The
+// function panics like FlatBuffers does if the limit is exceeded.
 func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+	maxParts := 65536 + len(g.Table().Bytes)/4
+	geomPartBounds(g, b, 0, &maxParts)
+}
+
+// maxPartDepth limits the depth of geometry parts nested in each other.
+const maxPartDepth = 1000
+
+func geomPartBounds(g *flat.Geometry, b *packedrtree.Box, depth int, maxParts *int) {
+	if *maxParts--; *maxParts < 0 || depth > maxPartDepth {
+		textPanic("geometry parts are nested too deeply or in each other")
+	}
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
@@ -223,7 +239,7 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			geomPartBounds(&h, b, depth+1, maxParts)
 		}
 	}
 }
-- 
2.43.0


From 224a3913a81c88c4433246659f992c4520a8c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 25/33] fix: compile on big-endian CPU architectures

---
 packedrtree/native_bigendian.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
-- 
2.43.0


From c56e61b63db62805524c6796219a20675d5f2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 26/33] fix: compile on mips64le

---
 packedrtree/native_littleendian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0


From 72d23bf729798f8d051ddb24ac29ab604909700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 27/33] fix: number unnamed columns by their index in the
 schema

FeatureString labelled the value of a column without a name with the
position of the value in the property list, which names a different
column as soon as a column is missing, repeated or out of order.
---
 flatgeobuf/stringers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index b6c5db1..45b1251 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -193,21 +193,21 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 		if vals, err = r.ReadSchema(schema); err != nil {
 			return err
 		}
-		printFunc := func(vv *PropValue, i int) {
+		printFunc := func(vv *PropValue) {
 			if len(vv.Col.Name()) > 0 {
 				b.Write(vv.Col.Name())
 			} else {
-				_, _ = fmt.Fprintf(b, "[%d]", i)
+				_, _ = fmt.Fprintf(b, "[%d]", vv.ColIndex)
 			}
 			b.WriteByte(':')
 			_, _ = fmt.Fprint(b, vv.Value)
 
 		}
 		if len(vals) > 0 {
-			printFunc(&vals[0], 0)
+			printFunc(&vals[0])
 			for i := 1; i < len(vals); i++ {
 				b.WriteByte(',')
-				printFunc(&vals[i], i)
+				printFunc(&vals[i])
 			}
 		}
 		return nil
-- 
2.43.0


From 1b65731a5ffe467dbf6e2257f05c04ccc0464c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 28/33] fix: refuse more data after a failed indexed write

If the stream failed to accept the first byte of a feature while
IndexData was writing, the writer accepted other features in its place,
although the index written before refers to the missing ones.
---
 flatgeobuf/file_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 22d0a4c..9befd55 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -238,6 +238,11 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		o, err = w.Data(sorted[i])
 		n += o
 		if err != nil {
+			// The features missing after the index can't be
+			// supplied by later calls.
+			if w.err == nil {
+				_ = w.toErr(err)
+			}
 			return
 		}
 	}
-- 
2.43.0


From 6b4aca1e032d596c7b421d732964862c904da9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 29/33] fix: limit memory used for properties of a corrupt
 schema

The number of columns of a corrupt schema can be anything, so allocating
one property value per column in advance could exhaust the memory.
---
 flatgeobuf/prop_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 2f697db..579092a 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -162,7 +162,7 @@ type PropValue struct {
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	vals := make([]PropValue, 0)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0


From 7ef37b68b3b32e767d14c07a08fe2a3562f1e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 30/33] fix: report a closed or failed writer even if the
 header is invalid

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 9befd55..a8be062 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -53,6 +53,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		textPanic("nil header")
 	}
 
+	// A closed or failed writer stays so whatever the header is.
+	if w.err != nil {
+		err = w.err
+		return
+	}
+
 	// Cache feature count and check for overflow.
 	var numFeatures uint64
 	err = safeFlatBuffersInteraction(func() error {
-- 
2.43.0


From cd5374ee134813e1fff23fa43c002d91c295b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 31/33] fix: reject search results that overlap in a corrupt
 index

---
 flatgeobuf/file_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 0fc69fd..f015a64 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -322,7 +322,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	// in the search results.
 	fs := make([]flat.Feature, len(sr))
 	for i := range sr {
-		if sr[i].Offset > r.featureOffset {
+		if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("corrupt index: feature %d (data offset %d) for search result %d begins before offset %d", sr[i].RefIndex, sr[i].Offset, i, r.featureOffset))
+		} else if sr[i].Offset > r.featureOffset {
 			if err := skip(sr[i].Offset - r.featureOffset); err != nil {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
-- 
2.43.0


From 7442db2e0d76ad9d20088cce9675689c528ef67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 32/33] fix: make the Hilbert order of boxes without finite
 center the same on every platform

Converting a NaN or a number which uint32 can't represent gives a result
that depends on the platform, so HilbertSort, and everything built on it,
ordered empty and infinite boxes differently on, for example, amd64 and
mips.
---
 packedrtree/hilbert.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/packedrtree/hilbert.go b/packedrtree/hilbert.go
index 59e0a1e..3b278d1 100644
--- a/packedrtree/hilbert.go
+++ b/packedrtree/hilbert.go
@@ -83,16 +83,34 @@ func hilbertOfCenter(b *Box, ex, ey, ew, eh float64) uint32 {
 	var hx uint32 // Hilbert X-coordinate between 0 and hilbertMax
 	if ew != 0.0 {
 		rx := (b.midX() - ex) / ew
-		hx = uint32(math.Floor(hilbertMax * rx))
+		hx = hilbertCoord(rx)
 	}
 	var hy uint32 // Hilbert Y-coordinate between 0 and hilbertMax
 	if eh != 0.0 {
 		ry := (b.midY() - ey) / eh
-		hy = uint32(math.Floor(hilbertMax * ry))
+		hy = hilbertCoord(ry)
 	}
 	return hilbertOfXY(hx, hy)
 }
 
+// hilbertCoord scales a relative position within the bounding rectangle
+// to a Hilbert coordinate between 0 and hilbertMax.
+//
+// A position outside the rectangle is clamped to its nearest edge, and
+// a position that is not a number, which can arise from an empty box or
+// infinite coordinates, is treated as 0. Such values have to be handled
+// explicitly, because the result of converting a floating point value
+// which the integer type can't represent depends on the platform.
+func hilbertCoord(r float64) uint32 {
+	h := math.Floor(hilbertMax * r)
+	if h >= hilbertMax {
+		return hilbertMax
+	} else if h > 0 {
+		return uint32(h)
+	}
+	return 0
+}
+
 // hilbertOfXY calculates the Hilbert curve index of a given
 // two-dimensional coordinate.
 //
-- 
2.43.0


From ac146f7c94070c7e2622283ae523c3d6e4a343c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 33/33] fix: limit the coordinates visited in corrupt
 geometries too

---
 flatgeobuf/stringers.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 45b1251..4a49a60 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -216,9 +216,10 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 
 // geomBounds expands a box by the bounds of a geometry, including its
 // nested parts. In corrupt data the parts can be nested in each other,
-// so the number of parts to visit is limited to how many the buffer can
-// hold, with an allowance for parts which are used more than once. The
-// function panics like FlatBuffers does if the limit is exceeded.
+// or have the same coordinates, so the number of parts and coordinates
+// to visit is limited to how many the buffer can hold, with an allowance
+// for those which are used more than once. The function panics like
+// FlatBuffers does if the limit is exceeded.
 func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	maxParts := 65536 + len(g.Table().Bytes)/4
 	geomPartBounds(g, b, 0, &maxParts)
@@ -228,10 +229,14 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 const maxPartDepth = 1000
 
 func geomPartBounds(g *flat.Geometry, b *packedrtree.Box, depth int, maxParts *int) {
-	if *maxParts--; *maxParts < 0 || depth > maxPartDepth {
+	n := g.XyLength()
+	*maxParts--
+	if n > 0 {
+		*maxParts -= n / 16 // Parts with many coordinates take longer.
+	}
+	if *maxParts < 0 || depth > maxPartDepth {
 		textPanic("geometry parts are nested too deeply or in each other")
 	}
-	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
 	}
-- 
2.43.0

