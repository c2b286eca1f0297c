From b4e632703c49629f9cd16f9d1986b77cea70a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 01/17] fix: pagefile: wrap the ring index when writing the
 free page queue

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From f530a6e9ef58691abf70206216cb2ea3d45b9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 02/17] fix: btree: decode vector components by bit pattern

UnmarshalBinary converted the stored 32-bit pattern to float32 by value, so
every vector read back from disk was wrong. Use math.Float32frombits, the
inverse of the encoder's math.Float32bits.
---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From e4c3f932add50be6d19f8bc8eb84c4340a109a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/17] fix: appendable: reject truncated file and index
 metadata

IndexMeta.UnmarshalBinary checked for two bytes fewer than it reads and
sliced with 16-bit arithmetic, so short records and records with a name
length near 65535 crashed it. A truncated count was read as zero. Both
decoders now answer such bytes with an error.
---
 pkg/appendable/appendable.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..15fdf37 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -134,7 +134,10 @@ func (m *FileMeta) UnmarshalBinary(buf []byte) error {
 
 	m.ReadOffset = binary.LittleEndian.Uint64(buf[2:])
 
-	e, _ := binary.Uvarint(buf[10:])
+	e, n := binary.Uvarint(buf[10:])
+	if n <= 0 {
+		return fmt.Errorf("invalid entry count")
+	}
 	m.Entries = e
 
 	return nil
@@ -160,17 +163,20 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
-	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	nameLength := int(binary.LittleEndian.Uint16(buf[4:]))
+	if len(buf) < 6+nameLength {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-	tl, _ := binary.Uvarint(buf[6+nameLength:])
+	tl, n := binary.Uvarint(buf[6+nameLength:])
+	if n <= 0 {
+		return fmt.Errorf("invalid total field value length")
+	}
 	m.TotalFieldValueLength = tl
 	return nil
 }
-- 
2.43.0


From 4cdd430abf7edd10cc1dc9e9a806cd6847a70be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 04/17] fix: linkedpage: read back metadata of length 255

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..e56c482 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -132,7 +132,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 	}
 	// the first byte represents the length
 	length := buf[0]
-	return buf[1 : 1+length], nil
+	return buf[1 : 1+int(length)], nil
 }
 
 func (m *LinkedPage) UnmarshalMetadata(bu encoding.BinaryUnmarshaler) error {
-- 
2.43.0


From 27beba69b2aac34dbd2de31d103cba394efefcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 05/17] fix: mmap: report the number of bytes written when the
 mapping grows

---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..cfc5a1c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -150,11 +150,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 32895152b28d943083a9561a10e54913df840230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 06/17] fix: hnsw: restore both heap orders after a distance
 update

---
 pkg/hnsw/heap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..7387c15 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -216,9 +216,10 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// the new item may belong above or below its children, so both directions
+	// have to be checked
+	d.up(i)
+	d.down(i, d.Len())
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From a39283213979be3bcffffa0155ba4b75bb7f1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 07/17] fix: hnsw: give a cloned heap its own items

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 7387c15..bc9f3fc 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	// distance updates modify items in place, so the clone needs its own
+	for i, item := range d.items {
+		n.items[i] = &Item{id: item.id, dist: item.dist}
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From 61f4cc5b9ea8b2e536bf57ff10d46b4b71dccadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 08/17] fix: bptree: report a failure to read the root pointer

root() answered an error reading the root pointer with "empty tree", so an
insert replaced the whole tree by a new root and a lookup found nothing.
---
 pkg/bptree/bptree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..ec1a547 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -23,7 +23,10 @@ type BPTree struct {
 
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
-	if err != nil || mp.Length == 0 {
+	if err != nil {
+		return nil, mp, err
+	}
+	if mp.Length == 0 {
 		return nil, mp, nil
 	}
 	root, err := t.readNode(mp)
-- 
2.43.0


From e12637170fcaa96da635ee2ac813b8ccd178bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 09/17] fix: bptree: compare the full key length with the width

A key whose length differs from the width by a multiple of 65536 was accepted.
---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index ec1a547..fda56f7 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -255,7 +255,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width)-1 {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0


From 8337c065d50d41ade248597e2cba6380ccce0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 10/17] fix: bptree: start a scan at the next leaf when the key
 is past the end of one

A search key greater than the last key of a leaf but smaller than the first
key of the next one ended the scan at once, although later entries exist.
---
 pkg/bptree/bptree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index fda56f7..64ef3c2 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -114,9 +114,15 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index < p.records[0].node.NumPointers() {
+			return true
+		}
+		// every entry of this leaf is smaller than the key, so the first entry
+		// that is not smaller is at the start of the next leaf, if there is one.
+		p.records[0].index--
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From fddd5c94dabf53bff7640f4442e93b87539a864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 11/17] fix: bptree: an absent empty value is not contained in
 the tree

Find answers "no such entry" with a zero key, whose empty value Contains took
for a match.
---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 64ef3c2..8e491c9 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -158,12 +158,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From 1aec444c25dfd7c883229a1262b1e1ca74dc0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 12/17] fix: jsonl: point at the value when white space
 precedes the colon

The recorded range then began at the colon or before it and did not parse, so
the key read back as empty.
---
 pkg/handlers/jsonl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..fb12931 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,10 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			// the value starts after the :, which need not follow the key directly
+			keyEnd := dec.InputOffset()
+			colon := bytes.IndexByte(r[data.Offset+uint64(keyEnd):], ':')
+			fieldOffset := keyEnd + int64(colon) + 1
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From ff7bc2b206747d7f21a8a5f145e594deef4c4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 13/17] fix: jsonl: only strings have n-grams

A null or a number in a search field failed the synchronization.
---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index fb12931..2013ec1 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -154,7 +154,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From 0f9907e15053b56e0ea58f623ff2984591005449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 14/17] fix: csv: take the header from the first line of the
 file

It was recovered from the names of the indexes, which lose order, duplicates and
columns without a value, and are empty after a synchronization of the header
alone, so that the next row became the header.
---
 pkg/handlers/csv.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..2513e57 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -37,11 +37,19 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	// the first line of the file is the header, also when an earlier
+	// synchronization has read it.
+	if i := bytes.IndexByte(df, '\n'); i != -1 {
+		slog.Info("Parsing CSV headers")
+		headers, err = csv.NewReader(bytes.NewReader(df[:i])).Read()
+		if err != nil {
+			slog.Error("failed to parse CSV header", "error", err)
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
+		if metadata.ReadOffset == 0 {
+			metadata.ReadOffset = uint64(i) + 1
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
@@ -49,18 +57,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			break
 		}
 
-		if len(headers) == 0 {
-			slog.Info("Parsing CSV headers")
-			dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
-			headers, err = dec.Read()
-			if err != nil {
-				slog.Error("failed to parse CSV header", "error", err)
-				return fmt.Errorf("failed to parse CSV header: %w", err)
-			}
-			metadata.ReadOffset += uint64(i) + 1
-			continue
-		}
-
 		dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
 
 		if err := c.handleCSVLine(f, df, dec, headers, []string{}, pointer.MemoryPointer{
-- 
2.43.0


From dbe8275baa01cde577feb1d512c1c6034ad24c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 15/17] fix: csv: skip blank lines

A blank line failed the synchronization.
---
 pkg/handlers/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 2513e57..b86fbf3 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -148,6 +148,10 @@ func (c CSVHandler) Parse(value []byte) []byte {
 
 func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.Reader, headers []string, path []string, data pointer.MemoryPointer) error {
 	record, err := dec.Read()
+	if err == io.EOF {
+		// a blank line holds no record
+		return nil
+	}
 	if err != nil {
 		slog.Error("Failed to read CSV record at index", "error", err)
 		return fmt.Errorf("failed to read CSV record: %w", err)
-- 
2.43.0


From 1d34eece11ba8e4b4c2616f3993058a296dffa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 16/17] fix: csv: point at the text of quoted fields

The ranges of a quoted field and of all fields after it were off, so their keys
read back as other values.
---
 pkg/handlers/csv.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index b86fbf3..ca93cce 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -123,7 +123,13 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
-	parsed, fieldType := InferCSVField(string(value))
+	// a quote is doubled in the file, and only occurs in quoted fields
+	return csvKey(strings.ReplaceAll(string(value), `""`, `"`))
+}
+
+// csvKey returns the key under which a field is indexed.
+func csvKey(fieldValue string) []byte {
+	parsed, fieldType := InferCSVField(fieldValue)
 
 	switch fieldType {
 	case appendable.FieldTypeFloat64:
@@ -157,7 +163,7 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
-	cumulativeLength := uint64(0)
+	line := df[data.Offset : data.Offset+uint64(data.Length)]
 
 	for fieldIndex, fieldValue := range record {
 		if fieldIndex >= len(headers) {
@@ -169,8 +175,14 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
+		// point at the field's text, without the quotes around it
+		_, column := dec.FieldPos(fieldIndex)
+		fieldOffset := column - 1
 		fieldLength := uint32(len(fieldValue))
+		if fieldOffset < len(line) && line[fieldOffset] == '"' {
+			fieldOffset++
+			fieldLength += uint32(strings.Count(fieldValue, `"`))
+		}
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -180,15 +192,13 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		}
 
 		mp := pointer.MemoryPointer{
-			Offset: fieldOffset,
+			Offset: data.Offset + uint64(fieldOffset),
 			Length: fieldLength,
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: csvKey(fieldValue), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From 49531514f9f8387f4212125566a82901d4999588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 17/17] fix: appendable: refuse a field name that does not fit
 before adding its index

The slot was added first, so a field name too long for it left an index without
metadata behind, which made every later lookup of an index fail.
---
 pkg/appendable/index_file.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..c50e99c 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -13,6 +13,10 @@ import (
 
 const CurrentVersion = 1
 
+// maxFieldName is the longest field name whose index metadata always fits a slot
+// of 252 bytes: 6 bytes precede the name and up to 10 follow it.
+const maxFieldName = 252 - 6 - 10
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -170,6 +174,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > maxFieldName {
+		return nil, nil, fmt.Errorf("field name is too long to be indexed: %d bytes", len(name))
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0

