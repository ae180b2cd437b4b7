From da861f5aca93e7bb49dfed9980dae7e30e2d91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 01/51] fix: search memtables newest first in Get

---
 dkv/memtable/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index 4651c6d..311c440 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -3,6 +3,7 @@ package memtable
 import (
 	"fmt"
 	"iter"
+	"slices"
 	"strings"
 	"sync"
 
@@ -72,7 +73,9 @@ func (l *List) Put(key []byte, value []byte, seqNum uint64) (full bool) {
 }
 
 func (l *List) Get(key []byte) (kv.Entry, error) {
-	for _, t := range l.tablesSnap() {
+	// Search from the active table back to the oldest sealed table so that the
+	// latest write is found first.
+	for _, t := range slices.Backward(l.tablesSnap()) {
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From c5a24115915cda08ad2cc0d794b57114095a8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 02/51] fix: return the newest entry among overlapping SST
 tables in LevelList.Get

---
 dkv/sst/level_list.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 9d5eb7c..f199606 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -80,7 +80,10 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 	return NewLevelListOfTables(levels)
 }
 
+// Get returns the newest entry for the key. Level 0 tables may overlap each
+// other so the candidate tables are compared by sequence number.
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
+	var newest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
 		v, err := t.Get(key)
 		if err != nil {
@@ -89,9 +92,14 @@ func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 			}
 			return nil, fmt.Errorf("table %#v, %w", t, err)
 		}
-		return v, nil
+		if newest == nil || v.SeqNum() > newest.SeqNum() {
+			newest = v
+		}
+	}
+	if newest == nil {
+		return nil, kv.ErrNotFound
 	}
-	return nil, kv.ErrNotFound
+	return newest, nil
 }
 
 func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-- 
2.43.0


From 4de17631cbc6c9c3aebf0bd2006b0b14ff51baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 03/51] fix: keep tombstones when scanning memtables so deletes
 mask flushed entries

---
 dkv/db.go                | 13 ++++++++++++-
 dkv/memtable/memtable.go |  8 +++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index aa86028..40a26c1 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -202,7 +202,18 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	sstables := db.currentSSTables()
 	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
-	return kv.MergeEntries(iters)
+
+	// Return the merged entries without deleted records
+	return func(yield func(kv.Entry) bool) {
+		for entry := range kv.MergeEntries(iters) {
+			if entry.IsDelete() {
+				continue
+			}
+			if !yield(entry) {
+				return
+			}
+		}
+	}
 }
 
 // Checkpoint initiates a DB checkpoint associated with the caller's provided
diff --git a/dkv/memtable/memtable.go b/dkv/memtable/memtable.go
index 4f015d7..0a3f846 100644
--- a/dkv/memtable/memtable.go
+++ b/dkv/memtable/memtable.go
@@ -55,14 +55,12 @@ func (t *MemTable) Delete(key []byte, seqNum uint64) (full bool) {
 	return t.size > uint64(t.memSize)
 }
 
-// ScanPrefix returns all entries matching the prefix in ascending order. This
-// method transparently omits deleted entries.
+// ScanPrefix returns all entries matching the prefix in ascending order. Deleted
+// entries are included so that they mask older entries in sealed memtables and
+// sstables.
 func (t *MemTable) ScanPrefix(prefix []byte) iter.Seq[kv.Entry] {
 	return func(yield func(kv.Entry) bool) {
 		for node := range t.zt.AscendPrefix(prefix) {
-			if isDeleteOp(node) {
-				continue
-			}
 			if !yield(newEntryFromNode(node)) {
 				return
 			}
-- 
2.43.0


From 5fc3d98211ecb85220ae642c973de01b3d7aa944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 04/51] fix: read memtables before taking the SST snapshot in
 Get and ScanPrefix

---
 dkv/db.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 40a26c1..4f8593a 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -183,25 +183,28 @@ func (db *DB) Delete(key []byte) {
 }
 
 func (db *DB) Get(key []byte) (kv.Entry, error) {
-	sstables := db.currentSSTables()
-
 	// First try to get from the memtables
 	v, err := db.mtables.Get(key)
 	if err == nil {
 		return v, nil
 	}
 
-	// Then try the SSTables
+	// Then try the SSTables. The SSTables must be obtained after searching the
+	// memtables because a concurrent flush moves entries from the memtables to
+	// the SSTables.
 	if err == kv.ErrNotFound {
-		return sstables.Get(key)
+		return db.currentSSTables().Get(key)
 	}
 
 	return nil, err
 }
 
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-	sstables := db.currentSSTables()
-	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
+	// Obtain the memtables before the SSTables because a concurrent flush moves
+	// entries from the memtables to the SSTables.
+	memEntries := db.mtables.ScanPrefix(prefix, errOut)
+	sstEntries := db.currentSSTables().ScanPrefix(prefix, errOut)
+	iters := []iter.Seq[kv.Entry]{memEntries, sstEntries}
 
 	// Return the merged entries without deleted records
 	return func(yield func(kv.Entry) bool) {
-- 
2.43.0


From 62ef741008aa2ab45a7b43f56f1b8a9a6c40be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 05/51] fix: record the true sequence number range of written
 SST tables

---
 dkv/sst/table_writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 0176881..198c447 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -66,7 +66,9 @@ func writeEntry(t *Table, entry kv.Entry) {
 	}
 	// Set ending entry values
 	t.endKey = entry.Key()
-	t.endSeqNum = entry.SeqNum()
+	// Entries are ordered by key so the sequence numbers can be in any order
+	t.startSeqNum = min(t.startSeqNum, entry.SeqNum())
+	t.endSeqNum = max(t.endSeqNum, entry.SeqNum())
 
 	// Add to metadata
 	t.searchIndex.IndexOffset(t.size)
-- 
2.43.0


From e695076912d0e231898104af6597bf558c3038ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 06/51] fix: stop picking tables from newer levels once major
 compaction has met its goal

---
 dkv/sst/compaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/compaction.go b/dkv/sst/compaction.go
index 5bfeef4..383757e 100644
--- a/dkv/sst/compaction.go
+++ b/dkv/sst/compaction.go
@@ -53,6 +53,7 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 	// Go through all non-base levels from oldest to newest and pick tables to
 	// merge into base level.
 	var tablesToMerge []*Table
+pickTables:
 	for level := range levels.AscendLevels(1) {
 		tableIter := slices.SortedFunc(level.AllTables(), OrderOldToNew)
 
@@ -62,7 +63,7 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 			sar = sar.WithCompactedBytes(int64(candidate.Size()))
 			tablesToMerge = append(tablesToMerge, candidate)
 			if sar.Percentage() < c.MaxSizeAmplificationPercent {
-				break
+				break pickTables
 			}
 		}
 	}
-- 
2.43.0


From ea6f02aaf48734fbb5eb10e4172e1b0ffaacf3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 07/51] fix: don't panic when searching a table for a key
 before its first key

---
 dkv/sst/search_index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dkv/sst/search_index.go b/dkv/sst/search_index.go
index 09bb3a3..d886a42 100644
--- a/dkv/sst/search_index.go
+++ b/dkv/sst/search_index.go
@@ -51,6 +51,10 @@ func (si *SearchIndex) Search(targetKey []byte, readKey func(offset int64) ([]by
 	// BinarySearch returns the _greater_ index when we don't find an exact match
 	// so subtract one here to start searching from the earlier index.
 	if !isExact {
+		// A key before the first indexed key can't be in the table
+		if foundIndex == 0 {
+			return 0, 0, nil
+		}
 		foundIndex--
 	}
 
-- 
2.43.0


From 6072b93e0bdf65dc2e6c8ebcb3dc1e310f728547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 08/51] fix: keep SearchUnique's half-open interval from
 skipping elements

---
 util/sliceu/sliceu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sliceu/sliceu.go b/util/sliceu/sliceu.go
index 6916104..19dcd6c 100644
--- a/util/sliceu/sliceu.go
+++ b/util/sliceu/sliceu.go
@@ -104,7 +104,7 @@ func SearchUnique[S ~[]E, E, T any](x S, target T, cmp func(E, T) int) (int, boo
 		if cmpValue < 0 {
 			low = i + 1
 		} else {
-			high = i - 1
+			high = i
 		}
 	}
 
-- 
2.43.0


From d203bb2add8da15ef1b93cb4bc4def004a67d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 09/51] fix: carry segment sequence numbers across WAL rotation
 so Truncate keeps unflushed entries

---
 dkv/wal/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 8656180..ccf2b06 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -92,9 +92,9 @@ func (w *Writer) Rotate(fs storage.FileSystem) *Writer {
 
 	// Include all data from previous buffers
 	for i, b := range w.sealedBuffers {
-		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf}
+		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf, latestSeqNum: b.latestSeqNum}
 	}
-	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf}
+	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf, latestSeqNum: w.latestSeqNum}
 
 	// And initialize a new active buffer
 	nextLog.activeBuffer = &bufferSegment{}
-- 
2.43.0


From c5edd9fdb0593842e62a9e1192f52d56b7812dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 10/51] fix: record the tables of new checkpoints so NeedsTable
 reports them

---
 dkv/recovery/checkpoint_list.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index eba92ae..cba9ec6 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -34,11 +34,19 @@ type CheckpointHandle struct {
 // Add creates a new checkpoint, taking ownership of the LevelList reference.
 // Checkpoint is responsible for the LevelList and WAL cleanup when destroyed.
 func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) {
+	tableURISet := make(map[string]struct{})
+	for level := range ll.DescendLevels() {
+		for t := range level.AllTables() {
+			tableURISet[t.URI()] = struct{}{}
+		}
+	}
+
 	cp := &Checkpoint{
-		ID:         ckptID,
-		Levels:     ll,
-		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
-		LastSeqNum: lastSeqNum,
+		ID:          ckptID,
+		Levels:      ll,
+		WALs:        []wal.Handle{w.Handle(ll.LatestSeqNum)},
+		tableURIset: tableURISet,
+		LastSeqNum:  lastSeqNum,
 	}
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
-- 
2.43.0


From 460ff3af4c8512d19c2f4a79c49dd273976ba59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 11/51] fix: keep table files when a neighbor fails to answer
 whether it needs them

---
 dkv/sst/table.go                       | 1 +
 workers/operator/operator_partition.go | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index baa830a..727b36a 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -110,6 +110,7 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
 		if err != nil {
 			slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
+			return
 		}
 
 		if canDelete {
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index 91a04f5..b702a2f 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -69,7 +69,12 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 		}
 	}
 
-	return !neighborNeedsTable, err
+	// When a neighbor couldn't answer it may still need the table
+	if err != nil {
+		return false, err
+	}
+
+	return !neighborNeedsTable, nil
 }
 
 var _ kv.DataOwnership = &OperatorPartition{}
-- 
2.43.0


From 537641fd50e9627e6f4e30d09efd7f47d85222f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 12/51] fix: ask every neighbor before deleting a restored
 table file

---
 workers/operator/operator_partition.go | 27 ++++----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index b702a2f..7c6525e 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -27,12 +27,9 @@ func (o *OperatorPartition) OwnsKey(key []byte) bool {
 }
 
 func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
-	// If this partition owns the entire key range then there's no need to check
-	// other operators.
-	otherRange := partitioning.KeyGroupRangeFromBytes(startKey[:2], endKey[:2])
-	if o.keyGroupRange.Contains(otherRange) {
-		return true, nil
-	}
+	// Every neighbor is asked, even when this partition owns the table's entire
+	// key range. Neighbors restored from the same checkpoint reference all of the
+	// checkpoint's tables no matter which of the keys they own.
 
 	// Setup context to race the NeedsTable calls.
 	ctx, cancel := context.WithCancel(context.Background())
@@ -46,7 +43,7 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 	results := make(chan result, len(o.neighbors))
 	for _, neighbor := range o.neighbors {
 		go func() {
-			needsTable, err := neighbor.NeedsTable(ctx, uri, startKey, endKey)
+			needsTable, err := neighbor.operator.NeedsTable(ctx, uri)
 			results <- result{needsTable, err}
 			if needsTable {
 				cancel() // Can cancel the other NeedsTable calls
@@ -83,19 +80,3 @@ type neighborPartition struct {
 	keyGroupRange partitioning.KeyGroupRange
 	operator      proto.Operator
 }
-
-func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string, startKey []byte, endKey []byte) (bool, error) {
-	// Derive the key group range from the start and end keys of a table.
-	tableKeyGroupRange := partitioning.KeyGroupRange{
-		Start: int(partitioning.KeyGroupFromBytes(startKey[:2])),
-		End:   int(partitioning.KeyGroupFromBytes(endKey[:2])) + 1,
-	}
-
-	// If the neighboring operator's key group range doesn't intersect with the
-	// table's key range then we don't need to ask if it needs the table.
-	if !o.keyGroupRange.Overlaps(tableKeyGroupRange) {
-		return false, nil
-	}
-
-	return o.operator.NeedsTable(ctx, filePath)
-}
-- 
2.43.0


From 854c5ecff255454f54aa5e8214bca996252431b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 13/51] fix: preserve binary table keys in checkpoint documents

---
 dkv/sst/table.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 727b36a..7a7b0fe 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -66,8 +66,8 @@ func NewTable(file storage.File) *Table {
 }
 
 type TableDocument struct {
-	StartKey    string
-	EndKey      string
+	StartKey    []byte // Keys are arbitrary bytes, which JSON strings can't represent
+	EndKey      []byte
 	Size        uint64
 	EntriesSize uint64
 	URI         string
@@ -85,8 +85,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		file:        fs.Open(doc.URI),
 		size:        int64(doc.Size),
 		entriesSize: int64(doc.EntriesSize),
-		startKey:    []byte(doc.StartKey),
-		endKey:      []byte(doc.EndKey),
+		startKey:    doc.StartKey,
+		endKey:      doc.EndKey,
 		startSeqNum: doc.StartSeqNum,
 		endSeqNum:   doc.EndSeqNum,
 	}
@@ -101,8 +101,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 	params := CleanupParams{
 		deleteFunc:    t.file.CreateDeleteFunc(),
 		dataOwnership: dataOwnership,
-		startKey:      []byte(doc.StartKey),
-		endKey:        []byte(doc.EndKey),
+		startKey:      doc.StartKey,
+		endKey:        doc.EndKey,
 		uri:           doc.URI,
 	}
 
@@ -352,8 +352,8 @@ func (t *Table) ensureMetadataLoaded() {
 
 func (t *Table) Document() TableDocument {
 	return TableDocument{
-		StartKey:    string(t.startKey),
-		EndKey:      string(t.endKey),
+		StartKey:    t.startKey,
+		EndKey:      t.endKey,
 		Size:        uint64(t.size),
 		EntriesSize: uint64(t.entriesSize),
 		URI:         t.file.URI(),
-- 
2.43.0


From ebb795587c8a81de318cbb5c78908579c81d98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 14/51] fix: don't write an empty trailing table in WriteRun

---
 dkv/sst/table_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 198c447..43dc70b 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -101,6 +101,10 @@ func (c *TableWriter) WriteRun(entries iter.Seq[kv.Entry], targetSize uint64) ([
 		for buffer.size < int(targetSize) {
 			entry, ok := next()
 			if !ok {
+				// All the entries may have already been written
+				if len(buffer.entries) == 0 {
+					return tables, nil
+				}
 				t, err := c.Write(buffer.all())
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 8d281393bb14262223c5af8ce048b59d2ff4f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 15/51] fix: don't read past the entries of an empty SST table

---
 dkv/storage/cursor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/storage/cursor.go b/dkv/storage/cursor.go
index 5ca5799..3e19004 100644
--- a/dkv/storage/cursor.go
+++ b/dkv/storage/cursor.go
@@ -10,16 +10,17 @@ type Cursor struct {
 	File       io.ReaderAt
 	offset     int64
 	debug      bool
+	bounded    bool
 	startBound uint64
 	endBound   uint64
 }
 
 func NewBoundedCursor(reader io.ReaderAt, start, end uint64) *Cursor {
-	return &Cursor{File: reader, startBound: start, endBound: end}
+	return &Cursor{File: reader, bounded: true, startBound: start, endBound: end}
 }
 
 func (c *Cursor) Move(offset int64) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if offset < int64(c.startBound) {
 			panic(fmt.Sprintf("cursor move to %d before start bound %d", offset, c.startBound))
 		}
@@ -34,7 +35,7 @@ func (c *Cursor) Move(offset int64) {
 
 // Read implements io.Reader.
 func (c *Cursor) Read(p []byte) (n int, err error) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if c.offset >= int64(c.endBound) {
 			return 0, io.EOF
 		}
-- 
2.43.0


From 8b6c680b1dd4137baf4d1c6886883bb7fe1d9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 16/51] fix: merge checkpoints of several instances into
 overlapping level 0 tables and serialize all of their WALs

---
 dkv/recovery/checkpoint.go      |  7 ++---
 dkv/recovery/checkpoint_list.go | 55 +++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 75981c5..1d99844 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -62,16 +62,13 @@ func (cp *Checkpoint) Destroy() error {
 }
 
 func (cp *Checkpoint) Document() checkpointDocument {
-	if len(cp.WALs) > 1 {
-		panic("should not serialize a checkpoint with multiple WALs")
-	}
 	doc := checkpointDocument{
 		ID:         cp.ID,
 		Levels:     cp.Levels.Document(),
 		LastSeqNum: cp.LastSeqNum,
 	}
-	if len(cp.WALs) == 1 {
-		doc.WALs = []wal.HandleDocument{cp.WALs[0].Document()}
+	for _, handle := range cp.WALs {
+		doc.WALs = append(doc.WALs, handle.Document())
 	}
 
 	return doc
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index cba9ec6..0342e59 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -166,23 +166,52 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		checkpointDocs[i] = doc.Checkpoints[ckptIndex]
 	}
 
-	// Merge the checkpoint documents into the first
-	compositeCheckpointDoc, rest := checkpointDocs[0], checkpointDocs[1:]
-	for _, doc := range rest {
-		// Merge WAL handles
-		compositeCheckpointDoc.WALs = append(compositeCheckpointDoc.WALs, doc.WALs...)
-
-		// Merge level list
-		for levelIndex, level := range doc.Levels {
-			compositeCheckpointDoc.Levels[levelIndex] = append(compositeCheckpointDoc.Levels[levelIndex], level...)
-		}
-	}
-
-	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
+	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, mergeCheckpointDocuments(checkpointDocs))
 
 	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
 }
 
+// mergeCheckpointDocuments combines the documents of one aggregate checkpoint
+// into a single document.
+func mergeCheckpointDocuments(docs []checkpointDocument) checkpointDocument {
+	if len(docs) == 1 {
+		return docs[0]
+	}
+
+	// Tables from different DKV instances can overlap in any level so they're all
+	// placed in level 0, which is the only level that allows for overlap. The same
+	// file may be in several documents if the instances were themselves restored
+	// from a common checkpoint.
+	composite := checkpointDocument{ID: docs[0].ID}
+	tableURIs := ds.NewSet[string](0)
+	walURIs := ds.NewSet[string](0)
+	var tables []sst.TableDocument
+	levelCount := 1
+	for _, doc := range docs {
+		composite.LastSeqNum = max(composite.LastSeqNum, doc.LastSeqNum)
+		levelCount = max(levelCount, len(doc.Levels))
+		for _, walDoc := range doc.WALs {
+			if walURIs.Has(walDoc.URI) {
+				continue
+			}
+			walURIs.Add(walDoc.URI)
+			composite.WALs = append(composite.WALs, walDoc)
+		}
+		for _, level := range doc.Levels {
+			for _, tableDoc := range level {
+				if tableURIs.Has(tableDoc.URI) {
+					continue
+				}
+				tableURIs.Add(tableDoc.URI)
+				tables = append(tables, tableDoc)
+			}
+		}
+	}
+	composite.Levels = make([][]sst.TableDocument, levelCount)
+	composite.Levels[0] = tables
+	return composite
+}
+
 // Example format:
 //
 //	{
-- 
2.43.0


From 7fe49938f407de7cc9b751e76d1519969393ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 17/51] fix: tolerate WAL files already deleted by another
 instance restored from the same checkpoint

---
 dkv/recovery/checkpoint.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 1d99844..c9982f0 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -1,6 +1,8 @@
 package recovery
 
 import (
+	"errors"
+	"io/fs"
 	"iter"
 
 	"reduction.dev/reduction/dkv/kv"
@@ -53,7 +55,9 @@ func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwner
 
 func (cp *Checkpoint) Destroy() error {
 	for _, wal := range cp.WALs {
-		if err := wal.Delete(); err != nil {
+		// Instances restored from a common checkpoint share WAL files so another
+		// instance may have already deleted the file.
+		if err := wal.Delete(); err != nil && !errors.Is(err, fs.ErrNotExist) {
 			return err
 		}
 	}
-- 
2.43.0


From 61e02e8535cb5610d9e6664a837d825d24c7ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 18/51] fix: don't overwrite the restored checkpoint's SST
 files

---
 dkv/db.go               |  1 +
 dkv/sst/table_writer.go | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/dkv/db.go b/dkv/db.go
index 4f8593a..ea9e19b 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -135,6 +135,7 @@ func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
 	latestCP := db.checkpoints.Latest()
 	db.sstables = latestCP.Levels
 	db.seqNum = latestCP.Levels.LatestSeqNum
+	db.tableWriter.SkipExisting(latestCP.Levels)
 
 	// Start a new writer that doesn't write to a file yet.
 	db.wal = wal.NewWriter(db.fs, latestCP.NextWALID(), db.maxWALSize)
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 43dc70b..f47723b 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -4,7 +4,10 @@ import (
 	"fmt"
 	"iter"
 	"math"
+	"path/filepath"
 	"slices"
+	"strconv"
+	"strings"
 	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/fields"
@@ -29,6 +32,22 @@ func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	return &TableWriter{fs: fs, id: atomicNum}
 }
 
+// SkipExisting advances the writer's table ID past the IDs of the given levels'
+// tables so that new tables don't overwrite existing files.
+func (c *TableWriter) SkipExisting(ll *LevelList) {
+	for level := range ll.DescendLevels() {
+		for t := range level.AllTables() {
+			id, err := strconv.ParseInt(strings.TrimSuffix(filepath.Base(t.Name()), ".sst"), 10, 64)
+			if err != nil {
+				continue // Not a file name this writer can create
+			}
+			if c.id.Load() <= id {
+				c.id.Store(id + 1)
+			}
+		}
+	}
+}
+
 func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
-- 
2.43.0


From 42ae110da35d5f5ebaf1307513ec41cf712f32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 19/51] fix: keep the files of a closed database when its
 tables are garbage collected

---
 dkv/db.go                    | 25 ++++++++++++++++++++++---
 dkv/sst/table.go             | 10 ++++++++++
 dkv/sst/table_writer.go      | 15 +++++++++++----
 workers/operator/operator.go | 13 +++++++++++--
 4 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index ea9e19b..700638a 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -6,6 +6,7 @@ import (
 	"log/slog"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/bg"
 	"reduction.dev/reduction/dkv/kv"
@@ -33,7 +34,7 @@ type DB struct {
 	seqNum        uint64 // The latest sequence number written
 	mu            *sync.RWMutex
 	logger        *slog.Logger
-	dataOwnership kv.DataOwnership
+	dataOwnership *closableOwnership
 }
 
 type DBOptions struct {
@@ -112,7 +113,7 @@ func New(options DBOptions) *DB {
 		tasks:         bg.NewAsyncGroup(),
 		checkpoints:   recovery.NewCheckpointList(),
 		logger:        options.Logger,
-		dataOwnership: options.DataOwnership,
+		dataOwnership: &closableOwnership{DataOwnership: options.DataOwnership},
 	}
 
 	return db
@@ -255,8 +256,26 @@ func (db *DB) NeedsTable(filePath string) bool {
 	return db.checkpoints.IncludesTable(filePath)
 }
 
+// Close waits for background tasks and leaves all files in place. The in-memory
+// objects of a closed database may be garbage collected while another database
+// uses its files to recover from a checkpoint.
 func (db *DB) Close() error {
-	return nil
+	db.tableWriter.KeepFiles()
+	db.dataOwnership.closed.Store(true)
+	return db.tasks.Wait()
+}
+
+// closableOwnership gives up exclusive ownership of tables once closed.
+type closableOwnership struct {
+	kv.DataOwnership
+	closed atomic.Bool
+}
+
+func (o *closableOwnership) ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error) {
+	if o.closed.Load() {
+		return false, nil
+	}
+	return o.DataOwnership.ExclusivelyOwnsTable(uri, startKey, endKey)
 }
 
 func (db *DB) Diagnostics() string {
diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 7a7b0fe..c27b849 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -12,6 +12,7 @@ import (
 	"runtime/debug"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/VictoriaMetrics/metrics"
 	"reduction.dev/reduction/dkv/bloom"
@@ -49,6 +50,12 @@ type Table struct {
 
 // NewTable initializes a new, empty table
 func NewTable(file storage.File) *Table {
+	return newTable(file, &atomic.Bool{})
+}
+
+// newTable initializes a table whose file is kept when the table is garbage
+// collected after keepFiles is set.
+func newTable(file storage.File, keepFiles *atomic.Bool) *Table {
 	t := &Table{
 		file:        file,
 		searchIndex: &SearchIndex{},
@@ -57,6 +64,9 @@ func NewTable(file storage.File) *Table {
 	}
 
 	runtime.AddCleanup(t, func(f func() error) {
+		if keepFiles.Load() {
+			return
+		}
 		if err := f(); err != nil {
 			slog.Error("table cleanup", "err", err)
 		}
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index f47723b..187af32 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -21,15 +21,22 @@ const conservativeBytesPerEntry = 500
 
 // Table writer is a factory for creating tables that keeps track of the table ID.
 type TableWriter struct {
-	fs storage.FileSystem
-	id *atomic.Int64
+	fs        storage.FileSystem
+	id        *atomic.Int64
+	keepFiles *atomic.Bool
 }
 
 // Create a TableWriter with a given file system and starting table ID.
 func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	atomicNum := &atomic.Int64{}
 	atomicNum.Store(id)
-	return &TableWriter{fs: fs, id: atomicNum}
+	return &TableWriter{fs: fs, id: atomicNum, keepFiles: &atomic.Bool{}}
+}
+
+// KeepFiles stops the garbage collection of this writer's tables from deleting
+// their files.
+func (c *TableWriter) KeepFiles() {
+	c.keepFiles.Store(true)
 }
 
 // SkipExisting advances the writer's table ID past the IDs of the given levels'
@@ -52,7 +59,7 @@ func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
 
-	table := NewTable(f)
+	table := newTable(f, c.keepFiles)
 	for e := range entries {
 		writeEntry(table, e)
 	}
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 835de06..762c8ea 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -131,8 +131,10 @@ func (o *Operator) Start(ctx context.Context) error {
 	<-ctx.Done() // Afterward, begin shutdown
 
 	o.Logger.Info("stopping")
-	if err := o.db.Close(); err != nil {
-		return err
+	if o.db != nil {
+		if err := o.db.Close(); err != nil {
+			return err
+		}
 	}
 	if o.registerPoller != nil {
 		o.registerPoller.Stop()
@@ -199,6 +201,13 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	// Update status to loading before opening database
 	o.status.LoadingStarted()
+
+	// A redeployed operator recovers from the files of its previous database
+	if o.db != nil {
+		if err := o.db.Close(); err != nil {
+			o.Logger.Error("closing previous database", "err", err)
+		}
+	}
 	dkvOpenStart := time.Now()
 
 	// Initialize the DKV filesystem using the ID for a prefix
-- 
2.43.0


From 4c9b0ec32034b8b3182e7808e4c5d1a97529615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 20/51] fix: guard the DKV checkpoint list and never drop
 checkpoints newer than the retained ones

---
 dkv/recovery/checkpoint_list.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 0342e59..05ecc9f 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"sync"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -17,6 +18,7 @@ import (
 const checkpointsFileName = "checkpoints"
 
 type CheckpointList struct {
+	mu                        sync.Mutex // Protects the lists and serializes saving
 	checkpoints               []*Checkpoint
 	checkpointsPendingRemoval []*Checkpoint // Track removed checkpoints so they can be destroyed on Save
 }
@@ -48,10 +50,16 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 		tableURIset: tableURISet,
 		LastSeqNum:  lastSeqNum,
 	}
+
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
 
 func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
+
 	// Collect a list of checkpoint docs for serialization
 	checkpointDocs := make([]checkpointDocument, len(cl.checkpoints))
 	for i, ckpt := range cl.checkpoints {
@@ -90,20 +98,32 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 }
 
 func (cl *CheckpointList) IsEmpty() bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return len(cl.checkpoints) == 0
 }
 
 func (cl *CheckpointList) Latest() *Checkpoint {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
-// RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
-// aren't really removed until the next successful Save.
+// RetainOnly keeps only the checkpoints with the specified IDs in the list.
+// Checkpoints newer than the specified IDs are still in progress so they're kept
+// too. Other checkpoints aren't really removed until the next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
+
 	idsSet := ds.SetOf(ids...)
+	var newestID uint64
+	for _, id := range ids {
+		newestID = max(newestID, id)
+	}
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
-		if idsSet.Has(cp.ID) {
+		if idsSet.Has(cp.ID) || cp.ID > newestID {
 			nextCheckpoints = append(nextCheckpoints, cp)
 		} else {
 			cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, cp)
@@ -117,6 +137,8 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	for _, cp := range cl.checkpoints {
 		if cp.IncludesTable(uri) {
 			return true
-- 
2.43.0


From e128104953cb64a83ff7915c75c906dd319dddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 21/51] fix: replace the source splitter when the job restarts
 instead of panicking at the next checkpoint

---
 storage/snapshots/store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 8759f1c..7320858 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -164,7 +164,8 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-	s.sourceSplitters = append(s.sourceSplitters, splitter)
+	// A restarted job replaces the source splitter
+	s.sourceSplitters = []connectors.SourceSplitter{splitter}
 }
 
 func (s *Store) finishSnapshot(snap *jobSnapshot) {
-- 
2.43.0


From f5927b51151ecb1728a5dea526785f917eb8cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 22/51] fix: report snapshot publication errors on the store's
 error channel

---
 storage/snapshots/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 7320858..6dd6703 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -56,6 +56,7 @@ func NewStore(params *NewStoreParams) *Store {
 		log:                        slog.With("instanceID", "job"),
 		savepointURI:               params.SavepointURI,
 		subscriber:                 params.CheckpointEvents,
+		errChan:                    params.ErrChan,
 		retainedCheckpointsUpdated: params.RetainedCheckpointsUpdated,
 	}
 
-- 
2.43.0


From cdc33f59e1fc753549a65d89be491c326bbed8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 23/51] fix: ignore duplicate source runner checkpoint
 acknowledgements

---
 storage/snapshots/snapshot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index eedb3fb..b1a4c0f 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -78,6 +78,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	}
 	if wasCompleted {
 		slog.Warn("received another source runner checkpoint from same id", "id", ckpt.SourceRunnerId)
+		return nil
 	}
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
-- 
2.43.0


From 1e1c5532e5fac61e9713f9f52d19606f07607322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 24/51] fix: load the snapshot with the highest checkpoint id

---
 storage/snapshots/store.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 6dd6703..7bd3bb4 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -280,29 +280,28 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for first (latest) snapshot file.
-		// Checkpoint IDs are encoded so that files will be in reverse chronological
-		// order.
-		var latestCheckpointFile string
+		// For a new job, check the file store for the snapshot with the highest
+		// checkpoint ID. There's more than one snapshot file when the job stopped
+		// before removing an obsolete one.
 		for filePath, err := range s.fileStore.List() {
 			if err != nil {
 				return err
 			}
-			if filepath.Ext(filePath) == ".snapshot" {
-				latestCheckpointFile = filePath
-				break
+			if filepath.Ext(filePath) != ".snapshot" {
+				continue
+			}
+			snap, err := s.SnapshotForURI(filePath)
+			if err != nil {
+				return err
+			}
+			if loadedCheckpoint == nil || snap.Id > loadedCheckpoint.Id {
+				loadedCheckpoint = snap
 			}
 		}
 
-		if latestCheckpointFile == "" {
+		if loadedCheckpoint == nil {
 			return nil // No checkpoint to load
 		}
-
-		snap, err := s.SnapshotForURI(latestCheckpointFile)
-		if err != nil {
-			return err
-		}
-		loadedCheckpoint = snap
 	}
 
 	// Set the initial checkpoint ID counter
-- 
2.43.0


From dc0c7fd37f1767619747d50ce45181a0998abc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 25/51] fix: remove the remaining files when one is already
 missing

---
 storage/locations/local_directory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 83f95ad..c9d2b30 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -93,7 +93,7 @@ func (d *LocalDirectory) Remove(paths ...string) error {
 			if errors.As(err, &pathErr) {
 				// Ignore path errors to match how S3 doesn't error if a file
 				// doesn't exist.
-				return nil
+				continue
 			}
 			return fmt.Errorf("removing file %s: %w", fullPath, err)
 		}
-- 
2.43.0


From d4b951cceb07d4658d987f6924611f8fc0cca0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 26/51] fix: publish local files atomically

---
 storage/locations/local_directory.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index c9d2b30..7628f61 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -32,27 +32,39 @@ func (d *LocalDirectory) Write(fname string, reader io.Reader) (string, error) {
 		return "", fmt.Errorf("Directory.Write error creating directory %s: %w", d.Path, err)
 	}
 
-	targetFile, err := os.Create(fullPath)
+	// Write to a temporary file first so that a partially written file is never
+	// visible at the final path.
+	tmpFile, err := os.CreateTemp(destDir, ".tmp-*")
 	if err != nil {
 		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
 	}
+	defer os.Remove(tmpFile.Name())
 
-	_, err = io.Copy(targetFile, reader)
+	_, err = io.Copy(tmpFile, reader)
 	if err != nil {
+		tmpFile.Close()
 		return "", err
 	}
-	err = targetFile.Close()
+	err = tmpFile.Close()
+	if err != nil {
+		return "", err
+	}
+	err = os.Chmod(tmpFile.Name(), 0644)
+	if err != nil {
+		return "", err
+	}
+	err = os.Rename(tmpFile.Name(), fullPath)
 	if err != nil {
 		return "", err
 	}
 
 	for _, s := range d.subscriptions {
 		s <- FileEvent{
-			Path: targetFile.Name(),
+			Path: fullPath,
 			Op:   OpCreate,
 		}
 	}
-	return targetFile.Name(), nil
+	return fullPath, nil
 }
 
 // Read accepts both relative and absolute paths or URIs.
-- 
2.43.0


From ae4fe9731e5d4444f10c69120b21a5884d2d1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 27/51] fix: publish and announce completed snapshots in order

---
 storage/snapshots/store.go | 44 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 7bd3bb4..93c6167 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -30,6 +30,26 @@ type Store struct {
 	state                      storeState
 	stateMu                    sync.Mutex
 	sourceSplitters            []connectors.SourceSplitter
+	publications               taskChain // Publishes snapshots in the order they completed
+	notifications              taskChain // Announces retained checkpoints in the order they were published
+}
+
+// taskChain runs functions in the background, one after another. The run method
+// must not be called concurrently.
+type taskChain struct {
+	prevDone chan struct{}
+}
+
+func (c *taskChain) run(fn func()) {
+	prevDone, done := c.prevDone, make(chan struct{})
+	c.prevDone = done
+	go func() {
+		if prevDone != nil {
+			<-prevDone
+		}
+		defer close(done)
+		fn()
+	}()
 }
 
 type storeState struct {
@@ -176,16 +196,18 @@ func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	}
 	snap.splitterState = s.sourceSplitters[0].Checkpoint()
 
-	go func() {
+	s.publications.run(func() {
 		uri, err := s.finishSnapshotAsync(snap)
-		if err != nil {
-			s.errChan <- err
-			return
-		}
-		if s.subscriber != nil {
-			s.subscriber <- uri
-		}
-	}()
+		go func() {
+			if err != nil {
+				s.errChan <- err
+				return
+			}
+			if s.subscriber != nil {
+				s.subscriber <- uri
+			}
+		}()
+	})
 }
 
 func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
@@ -224,9 +246,9 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 
 		// Notify subscribers of new list of checkpoints to retain (just the completed one)
 		if s.retainedCheckpointsUpdated != nil {
-			go func() {
+			s.notifications.run(func() {
 				s.retainedCheckpointsUpdated <- []uint64{snap.id}
-			}()
+			})
 		}
 	}
 
-- 
2.43.0


From 181c269f4826e7cd78b39786ec0e4d9019ea2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 28/51] fix: copy the savepoint's own checkpoint files rather
 than the latest checkpoint's

---
 dkv/recovery/list_files.go              | 38 ++++++++++++++++++++-----
 storage/snapshots/savepoint_artifact.go |  4 +--
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/dkv/recovery/list_files.go b/dkv/recovery/list_files.go
index e07b3f9..2aa36d8 100644
--- a/dkv/recovery/list_files.go
+++ b/dkv/recovery/list_files.go
@@ -2,24 +2,48 @@ package recovery
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
+	"slices"
 )
 
+// ListFiles lists the files referenced by the latest checkpoint.
 func ListFiles(reader io.Reader) ([]string, error) {
-	// Decode reader data into checkpoint list JSON document
-	data, err := io.ReadAll(reader)
+	listDoc, err := readCheckpointListDocument(reader)
 	if err != nil {
 		return nil, err
 	}
+	return listDoc.Checkpoints[len(listDoc.Checkpoints)-1].files(), nil
+}
 
-	listDoc := checkpointListDocument{}
-	if err := json.Unmarshal(data, &listDoc); err != nil {
+// ListCheckpointFiles lists the files referenced by the checkpoint with the
+// given ID.
+func ListCheckpointFiles(reader io.Reader, ckptID uint64) ([]string, error) {
+	listDoc, err := readCheckpointListDocument(reader)
+	if err != nil {
 		return nil, err
 	}
+	i := slices.IndexFunc(listDoc.Checkpoints, func(doc checkpointDocument) bool {
+		return doc.ID == ckptID
+	})
+	if i == -1 {
+		return nil, fmt.Errorf("checkpoint %d not found in checkpoints file", ckptID)
+	}
+	return listDoc.Checkpoints[i].files(), nil
+}
 
-	// Always use the latest checkpoint
-	ckpt := listDoc.Checkpoints[len(listDoc.Checkpoints)-1]
+// Decode reader data into checkpoint list JSON document
+func readCheckpointListDocument(reader io.Reader) (checkpointListDocument, error) {
+	listDoc := checkpointListDocument{}
+	data, err := io.ReadAll(reader)
+	if err != nil {
+		return listDoc, err
+	}
+	err = json.Unmarshal(data, &listDoc)
+	return listDoc, err
+}
 
+func (ckpt checkpointDocument) files() []string {
 	fileNames := []string{}
 
 	// Add WAL file names to output
@@ -34,5 +58,5 @@ func ListFiles(reader io.Reader) ([]string, error) {
 		}
 	}
 
-	return fileNames, nil
+	return fileNames
 }
diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index c8fc41c..858b4bb 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -25,7 +25,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 		}
 
 		// Get a list of URIs that the checkpoint references.
-		files, err := recovery.ListFiles(bytes.NewBuffer(checkpointsData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(checkpointsData), opCkpt.CheckpointId)
 		if err != nil {
 			return "", err
 		}
@@ -72,7 +72,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Get a list of referenced files to copy into place
-		files, err := recovery.ListFiles(bytes.NewBuffer(cpData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(cpData), opCkpt.CheckpointId)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4f8f3942a9da035e96b8be157b279ea0932aa2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 29/51] fix: discard the in-progress checkpoint of a failed
 assembly

---
 jobs/job.go                | 3 +++
 storage/snapshots/store.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/jobs/job.go b/jobs/job.go
index d779939..60b04bb 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -293,6 +293,9 @@ func (j *Job) evaluateClusterStatus() {
 func (j *Job) start() error {
 	j.log.Info("starting")
 
+	// A checkpoint started by a previous assembly can't complete anymore
+	j.snapshotStore.DiscardPending()
+
 	// Get the job's current checkpoint which may be nil
 	ckpt := j.snapshotStore.CurrentCheckpoint()
 
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 93c6167..5d7f1b8 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -137,6 +137,14 @@ func (s *Store) CreateSavepoint(operatorIDs, sourceRunnerIDs []string) (cpID uin
 	return s.state.checkpointID, true, nil
 }
 
+// DiscardPending abandons an in-progress checkpoint whose assembly can no longer
+// complete it so that a new assembly can start its own.
+func (s *Store) DiscardPending() {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	s.state.pendingSnapshot = nil
+}
+
 func (s *Store) AddOperatorSnapshot(req *snapshotpb.OperatorCheckpoint) error {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-- 
2.43.0


From 0e03fd714528395957780cd8ace7d381f0a23ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 30/51] fix: close the previous source splitter when restarting
 the job

---
 jobs/job.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jobs/job.go b/jobs/job.go
index 60b04bb..16b9843 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -299,6 +299,13 @@ func (j *Job) start() error {
 	// Get the job's current checkpoint which may be nil
 	ckpt := j.snapshotStore.CurrentCheckpoint()
 
+	// A previous assembly's splitter must not assign splits to the new assembly
+	if j.sourceSplitter != nil {
+		if err := j.sourceSplitter.Close(); err != nil {
+			j.log.Error("failed to close the previous source splitter", "err", err)
+		}
+	}
+
 	// Create the source splitter
 	j.sourceSplitter = j.config.Sources[0].NewSourceSplitter(j.assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
 		AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
-- 
2.43.0


From a02ab91ba22e7d78218a36482b419ec6566148ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 31/51] fix: flush only the timed-out batch in ReorderFetcher

---
 batching/reorder_fetcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fc35a81..7cc6c83 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -43,8 +43,8 @@ func NewReorderFetcher[T, R any](ctx context.Context, params NewReorderFetcherPa
 	go func() {
 		for {
 			select {
-			case <-rf.batcher.BatchTimedOut:
-				rf.flush(ctx, CurrentBatch)
+			case token := <-rf.batcher.BatchTimedOut:
+				rf.flush(ctx, token)
 			case <-ctx.Done():
 				return
 			}
-- 
2.43.0


From a83b9ef9ee8ef6b191f1594475a301647e3453e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 32/51] fix: reserve reorder slots in the order batches are
 taken

---
 batching/reorder_fetcher.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 7cc6c83..a113776 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -2,6 +2,7 @@ package batching
 
 import (
 	"context"
+	"sync"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -15,6 +16,10 @@ type ReorderFetcher[T, R any] struct {
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
 	buffer     *ReorderBuffer[[]R]
+
+	// Sequence numbers must be reserved in the order that the size and timeout
+	// flushers take batches.
+	flushMu sync.Mutex
 }
 
 type NewReorderFetcherParams[T, R any] struct {
@@ -69,15 +74,16 @@ func (d *ReorderFetcher[T, R]) Flush(ctx context.Context) {
 
 // flush the current batch and then asynchronously run the `FetchBatch` callback.
 func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
+	d.flushMu.Lock()
 	events := d.batcher.Flush(token)
-	if d.batcher == nil {
-		panic("batcher became nil")
-	}
 	if len(events) == 0 {
+		d.flushMu.Unlock()
 		return
 	}
 
 	seqNum := d.buffer.Reserve()
+	d.flushMu.Unlock()
+
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
-- 
2.43.0


From e94c4aa10a01047066de92d7890f97269612cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 33/51] fix: don't count a replaced value twice in
 SortedCache's size

---
 util/ds/sorted_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index e8fc497..69146c1 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -23,7 +23,9 @@ func NewSortedCache(maxSizeBytes uint64) *SortedCache {
 
 func (s *SortedCache) Push(addValue []byte) {
 	s.byteSize += uint64(len(addValue))
-	s.tree.ReplaceOrInsert(addValue)
+	if replaced, ok := s.tree.ReplaceOrInsert(addValue); ok {
+		s.byteSize -= uint64(len(replaced))
+	}
 }
 
 func (s *SortedCache) Pop() (min []byte, ok bool) {
-- 
2.43.0


From 5e8164b3d94bbfd5aa632ead144a71655f8505aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 34/51] fix: don't treat a partially loaded timer cache as
 complete

---
 workers/operator/timer_store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 3f2ab50..7bdc6bf 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -187,16 +187,18 @@ func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	prefix[2] = 0x01 // Schema byte
 
 	var err error
+	allDataInCache := true
 	for entry := range pq.db.ScanPrefix(prefix, &err) {
 		pq.cache.Push(entry.Key())
 		if pq.cache.IsFull() {
+			allDataInCache = false // there may be more entries in the DB
 			break
 		}
 	}
 	if err != nil {
 		panic(err)
 	}
-	pq.allDataInCache = true
+	pq.allDataInCache = allDataInCache
 }
 
 var _ ds.QueuePartition[[]byte] = &KeyGroupPriorityQueue{}
-- 
2.43.0


From 2daa908f1938c6ef038b489f1d6e713da77ae7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 35/51] fix: keep only the earliest timers in a partial timer
 cache

---
 util/ds/sorted_cache.go         | 4 ++++
 workers/operator/timer_store.go | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index 69146c1..5c63f8d 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -48,6 +48,10 @@ func (s *SortedCache) Peek() (min []byte, ok bool) {
 	return s.tree.Min()
 }
 
+func (s *SortedCache) PeekLast() (max []byte, ok bool) {
+	return s.tree.Max()
+}
+
 func (s *SortedCache) Delete(key []byte) {
 	deleted, ok := s.tree.Delete(key)
 	if ok {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 7bdc6bf..c401700 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -145,7 +145,13 @@ func (pq *KeyGroupPriorityQueue) Pop() ([]byte, bool) {
 
 func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 	pq.loadFromDB()
-	pq.cache.Push(data)
+
+	// When the DB may have more items than the cache, the cache must hold the
+	// first items of the queue. Items after the last cached one stay in the DB.
+	last, ok := pq.cache.PeekLast()
+	if pq.allDataInCache || (ok && bytes.Compare(data, last) < 0) {
+		pq.cache.Push(data)
+	}
 
 	// If pushing the item exceeded the cache capacity, evict items until we're back under the limit
 	for pq.cache.IsFull() && !pq.cache.IsEmpty() {
-- 
2.43.0


From c3b875def3db09f77a84702eb20c04574b05522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 36/51] fix: start the operator watermark at the epoch

---
 workers/operator/timer_registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 3f42798..7e88f10 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -33,6 +33,7 @@ func NewTimerRegistry(store *TimerStore, srIDs []string) *TimerRegistry {
 	return &TimerRegistry{
 		upstreams: upstreams,
 		store:     store,
+		watermark: time.Unix(0, 0),
 	}
 }
 
-- 
2.43.0


From b522f88fcd38165d0213a69ce87b3f8845111dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 37/51] fix: don't checkpoint an operator whose pending events
 failed

---
 workers/operator/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 762c8ea..348444e 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -352,7 +352,10 @@ func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string,
 	}
 
 	if o.checkpoint.hasAllBarriers() {
-		o.processEventBatch(ctx, batching.CurrentBatch) // Must flush any pending events before checkpointing
+		// Must flush any pending events before checkpointing
+		if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
+			return err
+		}
 		cp, err := o.db.Checkpoint(o.checkpoint.checkpointID)()
 		if err != nil {
 			return err
-- 
2.43.0


From a556600b991a99f365dd5a3532676156f3c03522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 38/51] fix: don't apply events of a previous deployment after
 an operator is redeployed

---
 workers/operator/checkpoint.go |  9 +++++-
 workers/operator/operator.go   | 58 ++++++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/workers/operator/checkpoint.go b/workers/operator/checkpoint.go
index ec58ef9..758c0e8 100644
--- a/workers/operator/checkpoint.go
+++ b/workers/operator/checkpoint.go
@@ -2,6 +2,7 @@ package operator
 
 import (
 	"fmt"
+	"sync"
 
 	"reduction.dev/reduction/proto/workerpb"
 	"reduction.dev/reduction/util/sliceu"
@@ -11,6 +12,7 @@ type checkpoint struct {
 	checkpointID        uint64
 	srIDs               map[string]struct{}
 	allBarriersReceived chan struct{}
+	release             sync.Once
 }
 
 func newCheckpoint(checkpointID uint64, srIDs []string) *checkpoint {
@@ -27,11 +29,16 @@ func (c *checkpoint) registerBarrier(senderID string, barrier *workerpb.Checkpoi
 	}
 	delete(c.srIDs, senderID)
 	if len(c.srIDs) == 0 {
-		close(c.allBarriersReceived)
+		c.releaseSenders()
 	}
 	return nil
 }
 
+// releaseSenders unblocks the senders waiting for the remaining barriers.
+func (c *checkpoint) releaseSenders() {
+	c.release.Do(func() { close(c.allBarriersReceived) })
+}
+
 func (c *checkpoint) hasAllBarriers() bool {
 	return len(c.srIDs) == 0
 }
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 348444e..d39f0a2 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -35,6 +35,7 @@ type Operator struct {
 	userHandler             proto.Handler
 	Logger                  *slog.Logger
 	mu                      *sync.RWMutex
+	eventMu                 sync.Mutex // Held while processing an event and while deploying
 	clock                   clocks.Clock
 	events                  chan func()
 	stop                    context.CancelFunc
@@ -53,6 +54,7 @@ type Operator struct {
 	stateStore     *KeyedStateStore
 	timerRegistry  *TimerRegistry
 	sourceRunners  *upstreams
+	deployment     int // Identifies the current deployment
 
 	checkpoint *checkpoint
 }
@@ -158,6 +160,9 @@ func (o *Operator) Halt() {
 }
 
 func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperatorRequest, sink connectors.SinkWriter) error {
+	// Wait for the event in progress to finish with the previous deployment.
+	o.eventMu.Lock()
+	defer o.eventMu.Unlock()
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
@@ -174,6 +179,17 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		panic(fmt.Sprintf("operator id %s was not included in assembly ids provided by job, %v", o.id, req.Operators))
 	}
 
+	// Drop the events and the unfinished checkpoint of the previous deployment.
+	// Source runners read the events that weren't checkpointed again.
+	o.deployment++
+	if o.checkpoint != nil {
+		o.checkpoint.releaseSenders()
+		o.checkpoint = nil
+	}
+	if o.eventBatcher != nil {
+		o.eventBatcher.Flush(batching.CurrentBatch)
+	}
+
 	// Instantiate key space members
 	o.keySpace = partitioning.NewKeySpace(int(req.KeyGroupCount), len(req.Operators))
 	keyGroupRanges := o.keySpace.KeyGroupRanges()
@@ -255,29 +271,40 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 
 	// Block the sender to align checkpoint barriers if needed
 	o.mu.RLock()
+	deployment := o.deployment
 	waitOnAlignment := o.checkpoint.alignSender(senderID)
 	o.mu.RUnlock()
 	waitOnAlignment()
 
 	// Collect the err response from the queued event.
 	respErr := make(chan error)
-	switch typedEvent := req.Event.(type) {
-	case *workerpb.Event_KeyedEvent:
+	enqueue := func(handle func() error) {
 		o.events <- func() {
-			respErr <- o.handleUserEvent(ctx, typedEvent.KeyedEvent)
+			// Ignore events left over from a previous deployment
+			if deployment != o.deployment {
+				respErr <- nil
+				return
+			}
+			respErr <- handle()
 		}
+	}
+	switch typedEvent := req.Event.(type) {
+	case *workerpb.Event_KeyedEvent:
+		enqueue(func() error {
+			return o.handleUserEvent(ctx, typedEvent.KeyedEvent)
+		})
 	case *workerpb.Event_Watermark:
-		o.events <- func() {
-			respErr <- o.handleWatermark(ctx, senderID, typedEvent.Watermark)
-		}
+		enqueue(func() error {
+			return o.handleWatermark(ctx, senderID, typedEvent.Watermark)
+		})
 	case *workerpb.Event_CheckpointBarrier:
-		o.events <- func() {
-			respErr <- o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
-		}
+		enqueue(func() error {
+			return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
+		})
 	case *workerpb.Event_SourceComplete:
-		o.events <- func() {
-			respErr <- o.handleSourceComplete(senderID)
-		}
+		enqueue(func() error {
+			return o.handleSourceComplete(senderID)
+		})
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
 	}
@@ -293,12 +320,17 @@ func (o *Operator) processEvents(ctx context.Context) error {
 			if !ok {
 				return nil
 			}
+			o.eventMu.Lock()
 			event()
+			o.eventMu.Unlock()
 		case batchToken, ok := <-o.eventBatcher.BatchTimedOut:
 			if !ok {
 				return nil
 			}
-			if err := o.processEventBatch(ctx, batchToken); err != nil {
+			o.eventMu.Lock()
+			err := o.processEventBatch(ctx, batchToken)
+			o.eventMu.Unlock()
+			if err != nil {
 				return err
 			}
 		case <-ctx.Done():
-- 
2.43.0


From 5411da9d563b11d2bbc346f8e580f3bd9bcdab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 39/51] fix: stop the previous deployment and drop its events
 when a source runner is redeployed

---
 workers/sourcerunner/operator_cluster.go |  25 ++-
 workers/sourcerunner/source_runner.go    | 219 ++++++++++++++---------
 2 files changed, 155 insertions(+), 89 deletions(-)

diff --git a/workers/sourcerunner/operator_cluster.go b/workers/sourcerunner/operator_cluster.go
index 6a9df88..6860094 100644
--- a/workers/sourcerunner/operator_cluster.go
+++ b/workers/sourcerunner/operator_cluster.go
@@ -62,6 +62,7 @@ func (c *operatorCluster) flush() {
 }
 
 type batchingOperator struct {
+	ctx     context.Context
 	op      proto.Operator
 	batcher *batching.EventBatcher[*workerpb.Event]
 	errChan chan<- error
@@ -70,6 +71,7 @@ type batchingOperator struct {
 
 func newBatchingOperator(ctx context.Context, op proto.Operator, params batching.EventBatcherParams, errChan chan<- error) *batchingOperator {
 	o := &batchingOperator{
+		ctx:     ctx,
 		op:      op,
 		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params),
 		batches: make(chan []*workerpb.Event),
@@ -82,13 +84,9 @@ func newBatchingOperator(ctx context.Context, op proto.Operator, params batching
 			case <-ctx.Done():
 				return
 			case batchToken := <-o.batcher.BatchTimedOut:
-				if err := o.op.HandleEventBatch(ctx, o.batcher.Flush(batchToken)); err != nil {
-					o.errChan <- err
-				}
+				o.send(o.batcher.Flush(batchToken))
 			case batch := <-o.batches:
-				if err := o.op.HandleEventBatch(ctx, batch); err != nil {
-					o.errChan <- err
-				}
+				o.send(batch)
 			}
 		}
 	}()
@@ -96,6 +94,16 @@ func newBatchingOperator(ctx context.Context, op proto.Operator, params batching
 	return o
 }
 
+func (o *batchingOperator) send(batch []*workerpb.Event) {
+	if o.ctx.Err() != nil {
+		return
+	}
+	err := o.op.HandleEventBatch(o.ctx, batch)
+	if err != nil && o.ctx.Err() == nil {
+		o.errChan <- err
+	}
+}
+
 func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 	o.batcher.Add(event)
 	if o.batcher.IsFull() {
@@ -104,5 +112,8 @@ func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 }
 
 func (o *batchingOperator) Flush() {
-	o.batches <- o.batcher.Flush(batching.CurrentBatch)
+	select {
+	case o.batches <- o.batcher.Flush(batching.CurrentBatch):
+	case <-o.ctx.Done():
+	}
 }
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 6a9b555..9271f28 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -5,7 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
-	"math"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -27,12 +27,8 @@ import (
 type SourceRunner struct {
 	host                string // A host name used to contract this SourceRunner
 	ID                  string
-	sourceReader        connectors.SourceReader
 	userHandler         proto.Handler
-	operators           *operatorCluster
 	job                 proto.Job
-	watermarker         *wmark.Watermarker
-	watermarkTicker     *time.Ticker
 	clock               clocks.Clock
 	isHalting           atomic.Bool
 	stopLoop            context.CancelFunc      // Signal to stop the event loop if running
@@ -41,27 +37,43 @@ type SourceRunner struct {
 	sourceReaderFactory func(*jobconfigpb.Source) connectors.SourceReader
 	errChan             chan error
 	batchingParams      batching.EventBatcherParams
-	outputStream        chan *workerpb.Event
-	keyEventChannel     *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
-	initDone            chan struct{}                 // Used by HandleStart to wait until Start finishes initializing
-	sourceChannel       *connectors.ReadSourceChannel // The channel to read events from the source
-
-	// Checkpoint barriers are enqueued for processing in series with other events.
-	checkpointBarrier chan *workerpb.CheckpointBarrier
+	initDone            chan struct{} // Used by HandleStart to wait until Start finishes initializing
 
 	Logger         *slog.Logger
 	registerPoller *clocks.Ticker
 
-	// Add a context field to SourceRunner for use in HandleAssignSplits
-	ctx context.Context
-
 	runnerCtx context.Context // Context tied to SourceRunner lifecycle
 
-	startSourceChannelCh chan struct{} // signal to start the source channel
+	mu      sync.Mutex  // Guards current and stopLoop
+	current *deployment // The latest deployment or nil before the first one
+}
+
+// A deployment has the state created by HandleDeploy. Redeploying must not mix
+// anything left over from the previous deployment into the next one.
+type deployment struct {
+	ctx             context.Context
+	sourceReader    connectors.SourceReader
+	sourceChannel   *connectors.ReadSourceChannel // The channel to read events from the source
+	operators       *operatorCluster
+	watermarker     *wmark.Watermarker
+	watermarkTicker *time.Ticker
+	outputStream    chan *workerpb.Event
+	keyEventChannel *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
+
+	// Checkpoint barriers are enqueued for processing in series with other events.
+	checkpointBarrier chan *workerpb.CheckpointBarrier
 
 	splitsWereAssigned chan []*workerpb.SourceSplit // channel for split assignment requests
 }
 
+// output puts an event on the deployment's output stream.
+func (d *deployment) output(event *workerpb.Event) {
+	select {
+	case d.outputStream <- event:
+	case <-d.ctx.Done():
+	}
+}
+
 type NewParams struct {
 	Host                string
 	UserHandler         proto.Handler
@@ -84,10 +96,7 @@ func New(params NewParams) *SourceRunner {
 		ID:                  srID,
 		host:                params.Host,
 		job:                 params.Job,
-		watermarker:         &wmark.Watermarker{},
-		watermarkTicker:     time.NewTicker(math.MaxInt64), // initialize with ticker that never ticks
 		userHandler:         params.UserHandler,
-		checkpointBarrier:   make(chan *workerpb.CheckpointBarrier, 1),
 		Logger:              log,
 		clock:               params.Clock,
 		stopLoop:            func() {},          // initialize with noop
@@ -96,9 +105,7 @@ func New(params NewParams) *SourceRunner {
 		sourceReaderFactory: params.SourceReaderFactory,
 		errChan:             make(chan error),
 		batchingParams:      params.EventBatching,
-		outputStream:        make(chan *workerpb.Event, 1_000),
 		initDone:            make(chan struct{}),
-		splitsWereAssigned:  make(chan []*workerpb.SourceSplit, 1),
 	}
 
 	if sr.sourceReaderFactory == nil {
@@ -145,15 +152,6 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 		cancel(result)
 	}()
 
-	r.keyEventChannel = batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
-		Batcher: batching.NewEventBatcher[[]byte](ctx, r.batchingParams),
-		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
-			return r.userHandler.KeyEventBatch(ctx, events)
-		},
-		ErrChan:    r.errChan,
-		BufferSize: r.batchingParams.MaxSize,
-	})
-
 	close(r.initDone) // Signal that initialization is done
 
 	<-ctx.Done() // Afterward begin shutdown process
@@ -161,8 +159,9 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 	r.Logger.Info("starting shutdown")
 	defer r.Logger.Info("shutdown complete")
 
+	r.mu.Lock()
 	r.stopLoop()
-	r.watermarkTicker.Stop()
+	r.mu.Unlock()
 	r.registerPoller.Stop()
 
 	if !r.isHalting.Load() {
@@ -198,36 +197,67 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		panic("exactly one source required")
 	}
 
-	r.watermarkTicker = time.NewTicker(time.Millisecond * 200)
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	// Stop the previous deployment
+	r.stopLoop()
 
 	deploymentCtx, cancel := context.WithCancel(context.Background())
 	r.stopLoop = cancel
-	r.ctx = deploymentCtx // assign loopCtx to r.ctx for later use
 
-	r.sourceReader = r.sourceReaderFactory(msg.Sources[0])
-	r.sourceChannel = connectors.NewReadSourceChannel(r.sourceReader)
+	sourceReader := r.sourceReaderFactory(msg.Sources[0])
 
 	ops := make([]proto.Operator, len(msg.Operators))
 	for i, op := range msg.Operators {
 		ops[i] = r.operatorFactory(r.ID, op)
 	}
-	r.operators = newOperatorCluster(r.ctx, &newClusterParams{
-		keyGroupCount:  int(msg.KeyGroupCount),
-		operators:      ops,
-		batchingParams: r.batchingParams,
-		errChan:        r.errChan,
-	})
+
+	d := &deployment{
+		ctx:           deploymentCtx,
+		sourceReader:  sourceReader,
+		sourceChannel: connectors.NewReadSourceChannel(sourceReader),
+		operators: newOperatorCluster(deploymentCtx, &newClusterParams{
+			keyGroupCount:  int(msg.KeyGroupCount),
+			operators:      ops,
+			batchingParams: r.batchingParams,
+			errChan:        r.errChan,
+		}),
+		watermarker:     &wmark.Watermarker{},
+		watermarkTicker: time.NewTicker(time.Millisecond * 200),
+		outputStream:    make(chan *workerpb.Event, 1_000),
+		keyEventChannel: batching.NewReorderFetcher(deploymentCtx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
+			Batcher: batching.NewEventBatcher[[]byte](deploymentCtx, r.batchingParams),
+			FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
+				results, err := r.userHandler.KeyEventBatch(ctx, events)
+				if deploymentCtx.Err() != nil {
+					return nil, nil // a stopped deployment doesn't need the results
+				}
+				return results, err
+			},
+			ErrChan:    r.errChan,
+			BufferSize: r.batchingParams.MaxSize,
+		}),
+		checkpointBarrier:  make(chan *workerpb.CheckpointBarrier, 1),
+		splitsWereAssigned: make(chan []*workerpb.SourceSplit, 1),
+	}
+	r.current = d
 
 	go func() {
-		if err := r.processEvents(r.ctx); err != nil {
+		if err := r.processEvents(d); err != nil {
 			r.Logger.Error("processEvents stopped with error", "err", err)
 		}
 		cancel()
 	}()
 	go func() {
-		for opEvent := range r.outputStream {
-			if err := r.sendOperatorEvent(opEvent); err != nil {
-				r.errChan <- err
+		for {
+			select {
+			case <-d.ctx.Done():
+				return
+			case opEvent := <-d.outputStream:
+				if err := r.sendOperatorEvent(d, opEvent); err != nil {
+					r.errChan <- err
+				}
 			}
 		}
 	}()
@@ -235,40 +265,43 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	return nil
 }
 
-func (r *SourceRunner) processEvents(ctx context.Context) error {
+func (r *SourceRunner) processEvents(d *deployment) error {
+	ctx := d.ctx
+	defer d.watermarkTicker.Stop()
+
+	// The source's read functions. Set to nil when there's nothing left to read.
+	reads := d.sourceChannel.C
+
 	for {
 		select {
 		case <-ctx.Done():
 			r.Logger.Info("stopping source runner loop", "cause", context.Cause(ctx))
 			return nil
-		case splits := <-r.splitsWereAssigned:
-			if err := r.sourceReader.AssignSplits(splits); err != nil {
+		case splits := <-d.splitsWereAssigned:
+			if err := d.sourceReader.AssignSplits(splits); err != nil {
 				return err
 			}
 			if len(splits) > 0 {
-				if r.sourceChannel == nil {
-					return fmt.Errorf("sourceChannel is nil")
-				}
-				r.sourceChannel.Start(r.ctx)
+				d.sourceChannel.Start(ctx)
 			}
-		case <-r.watermarkTicker.C:
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}}
-		case barrier := <-r.checkpointBarrier:
-			if err := r.createCheckpoint(barrier.CheckpointId); err != nil {
+		case <-d.watermarkTicker.C:
+			d.output(&workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
+		case barrier := <-d.checkpointBarrier:
+			if err := r.createCheckpoint(d, barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}}
-		case readFunc, ok := <-r.sourceChannel.C:
+			d.output(&workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}})
+		case readFunc, ok := <-reads:
 			if !ok {
 				// Channel closed, Flush events, Send watermark, send source complete event
-				r.keyEventChannel.Flush(ctx)
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{
+				d.keyEventChannel.Flush(ctx)
+				d.output(&workerpb.Event{Event: &workerpb.Event_Watermark{
 					Watermark: &workerpb.Watermark{},
-				}}
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_SourceComplete{}}
+				}})
+				d.output(&workerpb.Event{Event: &workerpb.Event_SourceComplete{}})
 
 				// Stop reading from sourceChannel
-				r.sourceChannel = nil
+				reads = nil
 				continue
 			}
 
@@ -285,24 +318,39 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 
 			// Process the events
 			for _, e := range events {
-				r.sendKeyEvent(ctx, e)
+				r.sendKeyEvent(d, e)
 			}
 		}
 	}
 }
 
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
-	r.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}
+	r.mu.Lock()
+	d := r.current
+	r.mu.Unlock()
+	if d == nil {
+		r.Logger.Warn("ignoring checkpoint because there is no deployment", "id", id)
+		return
+	}
+	select {
+	case d.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}:
+	case <-d.ctx.Done():
+	}
 }
 
-func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
+func (r *SourceRunner) sendOperatorEvent(d *deployment, event *workerpb.Event) error {
 	switch typedEvent := event.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
 		// Get the async result for this placeholder event
-		asyncResult := <-r.keyEventChannel.Output
+		var asyncResult []*handlerpb.KeyedEvent
+		select {
+		case asyncResult = <-d.keyEventChannel.Output:
+		case <-d.ctx.Done():
+			return nil
+		}
 		for _, event := range asyncResult {
-			r.watermarker.AdvanceTime(event.Timestamp.AsTime())
-			r.operators.routeEvent(event.Key, &workerpb.Event{
+			d.watermarker.AdvanceTime(event.Timestamp.AsTime())
+			d.operators.routeEvent(event.Key, &workerpb.Event{
 				Event: &workerpb.Event_KeyedEvent{
 					KeyedEvent: event,
 				},
@@ -310,31 +358,31 @@ func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
 		}
 		return nil
 	case *workerpb.Event_Watermark:
-		typedEvent.Watermark.Timestamp = timestamppb.New(r.watermarker.CurrentWatermark())
-		return r.operators.broadcastEvent(typedEvent.Watermark)
+		typedEvent.Watermark.Timestamp = timestamppb.New(d.watermarker.CurrentWatermark())
+		return d.operators.broadcastEvent(typedEvent.Watermark)
 	case *workerpb.Event_CheckpointBarrier:
-		return r.operators.broadcastEvent(typedEvent.CheckpointBarrier)
+		return d.operators.broadcastEvent(typedEvent.CheckpointBarrier)
 	case *workerpb.Event_SourceComplete:
-		if err := r.operators.broadcastEvent(typedEvent.SourceComplete); err != nil {
+		if err := d.operators.broadcastEvent(typedEvent.SourceComplete); err != nil {
 			return err
 		}
-		r.operators.flush()
+		d.operators.flush()
 		return nil
 	default:
 		return fmt.Errorf("unknown operator event type: %T", typedEvent)
 	}
 }
 
-func (r *SourceRunner) sendKeyEvent(ctx context.Context, event []byte) {
+func (r *SourceRunner) sendKeyEvent(d *deployment, event []byte) {
 	// Put a placeholder on the output stream that will be joined with the async
 	// KeyEvent result.
-	r.outputStream <- &workerpb.Event{Event: &workerpb.Event_KeyedEvent{}}
-	r.keyEventChannel.Add(ctx, event)
+	d.output(&workerpb.Event{Event: &workerpb.Event_KeyedEvent{}})
+	d.keyEventChannel.Add(d.ctx, event)
 }
 
 // createCheckpoint gets checkpoint data from the source reader and notifies the job.
-func (r *SourceRunner) createCheckpoint(id uint64) error {
-	data := r.sourceReader.Checkpoint()
+func (r *SourceRunner) createCheckpoint(d *deployment, id uint64) error {
+	data := d.sourceReader.Checkpoint()
 	return r.job.OnSourceRunnerCheckpointComplete(context.Background(), &jobpb.SourceRunnerCheckpointCompleteRequest{
 		CheckpointId:   id,
 		SplitStates:    data,
@@ -344,9 +392,16 @@ func (r *SourceRunner) createCheckpoint(id uint64) error {
 
 // HandleAssignSplits is invoked to assign new splits and start reading from them.
 func (r *SourceRunner) HandleAssignSplits(splits []*workerpb.SourceSplit) error {
-	if r.sourceReader == nil {
+	r.mu.Lock()
+	d := r.current
+	r.mu.Unlock()
+	if d == nil {
 		return fmt.Errorf("sourceReader is not initialized")
 	}
-	r.splitsWereAssigned <- splits
-	return nil
+	select {
+	case d.splitsWereAssigned <- splits:
+		return nil
+	case <-d.ctx.Done():
+		return fmt.Errorf("deployment is stopped")
+	}
 }
-- 
2.43.0


From 0d2ea845774d95e614eafdac2eb021741bb06ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 40/51] fix: redeploy source runners before operators

---
 jobs/assembly.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 9d2bcd6..c6001da 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -78,12 +78,19 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		})
 	}
 
+	// Source runners must stop sending events of a previous deployment before
+	// operators load their checkpoints.
+	if err := eg.Wait(); err != nil {
+		return err
+	}
+
 	// Create list of ranges from checkpoints
 	ckptRanges := make([]partitioning.KeyGroupRange, len(ckpt.GetOperatorCheckpoints()))
 	for i, opCkpt := range ckpt.GetOperatorCheckpoints() {
 		ckptRanges[i] = partitioning.KeyGroupRangeFromProto(opCkpt.KeyGroupRange)
 	}
 
+	eg, gctx = errgroup.WithContext(context.Background())
 	opCkptAssignments := partitioning.AssignRanges(cfg.KeySpace().KeyGroupRanges(), ckptRanges)
 	for i, op := range a.operators {
 		eg.Go(func() error {
-- 
2.43.0


From 5dac5f6ce94d3411722494062c46a59144ca5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 41/51] fix: don't run a job whose source splitter failed to
 start

---
 jobs/job.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jobs/job.go b/jobs/job.go
index 16b9843..1408c90 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -329,7 +329,9 @@ func (j *Job) start() error {
 	}
 
 	// Start the source splitter with a checkpoint if available and allow it to run background work.
-	j.sourceSplitter.Start(sourceCkpt)
+	if err := j.sourceSplitter.Start(sourceCkpt); err != nil {
+		return fmt.Errorf("starting source splitter: %w", err)
+	}
 
 	j.taskQueue <- func() error {
 		j.log.Info("running")
-- 
2.43.0


From a385cfd6a04b3d2b7f338b2057dede9f8d7cab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 42/51] fix: don't panic when loading kinesis shards from a
 checkpoint

---
 connectors/kinesis/source_splitter_shard.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/connectors/kinesis/source_splitter_shard.go b/connectors/kinesis/source_splitter_shard.go
index f4e5d67..b8c4f6f 100644
--- a/connectors/kinesis/source_splitter_shard.go
+++ b/connectors/kinesis/source_splitter_shard.go
@@ -41,9 +41,8 @@ func newSourceSplitterShardFromKinesis(shard kinesistypes.Shard) SourceSplitterS
 }
 
 func newSourceSplitterShardFromProto(shard *kinesispb.SourceSplitterShard) SourceSplitterShard {
-	var start, end *big.Int
-	start.SetBytes(shard.HashKeyRange.Start)
-	end.SetBytes(shard.HashKeyRange.End)
+	start := new(big.Int).SetBytes(shard.HashKeyRange.Start)
+	end := new(big.Int).SetBytes(shard.HashKeyRange.End)
 
 	return SourceSplitterShard{
 		ShardID:      shard.ShardId,
-- 
2.43.0


From c1ff969a6a1814b51ac239c9f6060e0e7394c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 43/51] fix: assign each restored kinesis shard once and only
 when its parents are finished

---
 connectors/kinesis/source_splitter.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 24d63f5..3389648 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -68,20 +68,18 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 	s.ctx = ctx
 	s.cancel = cancel
 
-	var pendingShards []SourceSplitterShard
-
 	// Load the splitter state
 	var splitterState kinesispb.SplitterState
 	if err := proto.Unmarshal(ckpt.GetSplitterState(), &splitterState); err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal splitter state: %w", err)
 	}
 
-	// Build a list of shards that need to be assigned
-	pendingShards = make([]SourceSplitterShard, len(splitterState.AssignedShards))
+	// Load the shards that weren't finished
+	loadedShards := make([]SourceSplitterShard, len(splitterState.AssignedShards))
 	for i, shard := range splitterState.GetAssignedShards() {
-		pendingShards[i] = newSourceSplitterShardFromProto(shard)
+		loadedShards[i] = newSourceSplitterShardFromProto(shard)
 	}
-	s.splitTracker.LoadSplits(pendingShards, splitterState.LastAssignedShardId)
+	s.splitTracker.LoadSplits(loadedShards, splitterState.LastAssignedShardId)
 
 	// Load the split states to get the cursors
 	for _, splitState := range ckpt.GetSplitStates() {
@@ -97,10 +95,9 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 	if err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 	}
-	pendingShards = append(pendingShards, s.splitTracker.AvailableSplits()...)
 
 	// Do the initial split assignment
-	s.assignShards(ctx, pendingShards)
+	s.assignShards(ctx, s.splitTracker.AvailableSplits())
 
 	// Setup background shard assignment
 	s.shardDiscoveryTicker = time.NewTicker(s.shardDiscoveryInterval)
-- 
2.43.0


From acff4615ee44ab1639804b14b140fe2a83d397fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 44/51] fix: checkpoint the kinesis shards that wait for their
 parents

---
 connectors/kinesis/source_splitter.go | 4 +++-
 connectors/kinesis/split_tracker.go   | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 3389648..226e90c 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -147,7 +147,9 @@ func (s *SourceSplitter) Close() error {
 
 // Checkpoint returns a snapshot of the splitter's state for checkpointing.
 func (s *SourceSplitter) Checkpoint() []byte {
-	splits := s.splitTracker.AssignedSplits()
+	// Shards waiting for their parents may precede the last assigned shard and
+	// wouldn't be discovered again.
+	splits := s.splitTracker.KnownSplits()
 	pbShards := make([]*kinesispb.SourceSplitterShard, len(splits))
 	for i, shard := range splits {
 		pbShards[i] = shard.toProto()
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 1d4a460..3d29ee0 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -105,6 +105,14 @@ func (st *SplitTracker) AvailableSplits() []SourceSplitterShard {
 	return available
 }
 
+// KnownSplits are all of the tracked splits, assigned or not.
+func (st *SplitTracker) KnownSplits() []SourceSplitterShard {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	return st.knownSplits.Values()
+}
+
 func (st *SplitTracker) AssignedSplits() []SourceSplitterShard {
 	st.mu.Lock()
 	defer st.mu.Unlock()
-- 
2.43.0


From 8ad460e832179a56b3e8982522771a153d06fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 45/51] fix: never move back the last assigned kinesis shard

---
 connectors/kinesis/split_tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 3d29ee0..c4cabea 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -54,8 +54,9 @@ func (st *SplitTracker) TrackAssigned(shards []SourceSplitterShard) {
 		st.assignedSplits[shard.ShardID] = struct{}{}
 	}
 
-	if len(shards) > 0 {
-		st.LastAssignedSplitID = shards[len(shards)-1].ShardID
+	// Shard IDs are increasing. Going back would discover finished shards again.
+	for _, shard := range shards {
+		st.LastAssignedSplitID = max(st.LastAssignedSplitID, shard.ShardID)
 	}
 }
 
-- 
2.43.0


From 47ea754aa63e74e36e74ec3457366bd39d3f745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 46/51] fix: don't block the job's task queue when notifying
 finished splits

---
 connectors/kinesis/source_splitter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 226e90c..0fa26af 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -132,7 +132,10 @@ func (s *SourceSplitter) IsSourceSplitter() {}
 
 func (s *SourceSplitter) NotifySplitsFinished(sourceRunnerID string, splitIDs []string) {
 	s.splitTracker.RemoveSplits(splitIDs)
-	s.splitsDidFinish <- struct{}{}
+	select {
+	case s.splitsDidFinish <- struct{}{}:
+	default: // already signaled
+	}
 }
 
 func (s *SourceSplitter) Close() error {
-- 
2.43.0


From fbf44222072c7a4e683f2dd4103588517e2e154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 47/51] fix: assign checkpoints of any order to operator ranges

---
 partitioning/key_space.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/partitioning/key_space.go b/partitioning/key_space.go
index 93c79c5..af1cf9e 100644
--- a/partitioning/key_space.go
+++ b/partitioning/key_space.go
@@ -92,22 +92,17 @@ func keyGroupRanges(keyGroupCount, rangeCount int) []KeyGroupRange {
 
 // Return a slice where each slice index corresponds to an item in `to` where
 // the value is a list of KegGroup indices assigned from the `from`
-// KeyGroupRanges.
+// KeyGroupRanges. The `from` ranges may be in any order.
 func AssignRanges(to []KeyGroupRange, from []KeyGroupRange) [][]int {
 	assignments := make([][]int, len(to))
-	fromIdx := 0
+
 	for toIdx, toRange := range to {
-		// Advance fromIdx to the first possible overlap
-		for fromIdx < len(from) && from[fromIdx].End <= toRange.Start {
-			fromIdx++
-		}
-		j := fromIdx
-		for j < len(from) && from[j].Start < toRange.End {
-			if toRange.Overlaps(from[j]) {
-				assignments[toIdx] = append(assignments[toIdx], j)
+		for fromIdx, fromRange := range from {
+			if toRange.Overlaps(fromRange) {
+				assignments[toIdx] = append(assignments[toIdx], fromIdx)
 			}
-			j++
 		}
 	}
+
 	return assignments
 }
-- 
2.43.0


From 8ca9972dec3e665990ec061e4f4653e25ddc6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 48/51] fix: read back namespaces longer than 255 bytes

---
 workers/operator/keyed_state_store.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/workers/operator/keyed_state_store.go b/workers/operator/keyed_state_store.go
index b2c6c54..3da25f1 100644
--- a/workers/operator/keyed_state_store.go
+++ b/workers/operator/keyed_state_store.go
@@ -76,8 +76,10 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 // Schema is 0x00, subject-key and namespace are length encoded and data is the
 // data bytes as-is.
 func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data []byte) []byte {
-	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte + namespace + data
-	buf := make([]byte, 2+1+4+len(subjectKey)+1+len(namespace)+len(data))
+	namespaceLen := binary.AppendUvarint(nil, uint64(len(namespace)))
+
+	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + namespace length varint + namespace + data
+	buf := make([]byte, 2+1+4+len(subjectKey)+len(namespaceLen)+len(namespace)+len(data))
 	offset := 0
 
 	// Key group prefix
@@ -97,8 +99,7 @@ func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data
 	offset += copy(buf[offset:], subjectKey)
 
 	// Namespace length
-	buf[offset] = uint8(len(namespace))
-	offset += 1
+	offset += copy(buf[offset:], namespaceLen)
 
 	// Namespace content
 	offset += copy(buf[offset:], namespace)
@@ -139,8 +140,8 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	}
 
 	// Read the namespace value
-	var namespaceLen uint8
-	if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+	namespaceLen, err := binary.ReadUvarint(r)
+	if err != nil {
 		panic(err)
 	}
 	namespace = make([]byte, namespaceLen)
@@ -149,7 +150,7 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	}
 
 	// Read remaining data
-	data, err := io.ReadAll(r)
+	data, err = io.ReadAll(r)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From d5e0e473ae6fea64fa99d1f869ce85660a7e85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 49/51] fix: restore savepoints stored in S3

The savepoint's directory lost a slash of its scheme so none of its files were found.
---
 storage/snapshots/savepoint_artifact.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index 858b4bb..3db0240 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 
 	"reduction.dev/reduction/dkv/recovery"
+	"reduction.dev/reduction/dkv/storage"
 	"reduction.dev/reduction/proto/snapshotpb"
 	"reduction.dev/reduction/storage/locations"
 )
@@ -56,7 +57,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 
 // Copy files from a savepoint into place to be read as checkpoints.
 func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepointURI string, jobCheckpoint *snapshotpb.JobCheckpoint) error {
-	spDir := filepath.Dir(savepointURI)
+	spDir, _ := path.Split(savepointURI)
 
 	for _, opCkpt := range jobCheckpoint.GetOperatorCheckpoints() {
 		opID, baseFileName, err := parseDKVURI(opCkpt.DkvFileUri)
@@ -65,7 +66,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Read the checkpoints data
-		checkpointsPath := filepath.Join(spDir, "dkv", opID, baseFileName)
+		checkpointsPath := storage.Join(spDir, "dkv", opID, baseFileName)
 		cpData, err := fs.Read(checkpointsPath)
 		if err != nil {
 			return fmt.Errorf("reading checkpoints file (%s): %v", checkpointsPath, err)
@@ -85,7 +86,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 			}
 
 			// Source is a file referenced by a DKV checkpoint that's been copied to the savepoint directory
-			src := filepath.Join(spDir, "dkv", opPrefix, baseFileName)
+			src := storage.Join(spDir, "dkv", opPrefix, baseFileName)
 			if err := fs.Copy(src, file); err != nil {
 				return err
 			}
-- 
2.43.0


From bbd6ade2b9bd524a535a1ba0fc7f26ad2f599424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 50/51] fix: delete S3 files from the bucket they're in

The function deleting a file opened by its URI used the file system's bucket.
---
 dkv/storage/s3_filesystem.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dkv/storage/s3_filesystem.go b/dkv/storage/s3_filesystem.go
index 4839c02..b6b200e 100644
--- a/dkv/storage/s3_filesystem.go
+++ b/dkv/storage/s3_filesystem.go
@@ -205,10 +205,11 @@ func (o *S3Object) URI() string {
 
 func (o *S3Object) CreateDeleteFunc() func() error {
 	fs := o.fs
+	bucket := o.bucket
 	key := o.key
 	return func() error {
 		_, err := fs.client.DeleteObject(context.Background(), &s3.DeleteObjectInput{
-			Bucket: &fs.bucket,
+			Bucket: &bucket,
 			Key:    &key,
 		})
 		return err
-- 
2.43.0


From ea02e236a69ce60cfa149b321844916d15fbd294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 51/51] fix: read back the files of a directory given by a
 relative path

Its listed paths and URIs were resolved relative to the directory again.
---
 storage/locations/local_directory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 7628f61..97e238e 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -17,6 +17,11 @@ type LocalDirectory struct {
 }
 
 func NewLocalDirectory(path string) *LocalDirectory {
+	// Listed paths and URIs must be absolute to be told apart from paths relative
+	// to the directory.
+	if absPath, err := filepath.Abs(path); err == nil {
+		path = absPath
+	}
 	return &LocalDirectory{
 		Path:          path,
 		subscriptions: make([]chan FileEvent, 0),
-- 
2.43.0

