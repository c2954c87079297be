From 3e9647310587abe578d2103bde9ba3c8436117f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 01/37] hooks: device I/O callbacks behind the verif build tag

---
 nvm/devio.go       | 20 +++++++++++++++
 nvm/devio_verif.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++
 nvm/file.go        | 10 ++++----
 3 files changed, 88 insertions(+), 5 deletions(-)
 create mode 100644 nvm/devio.go
 create mode 100644 nvm/devio_verif.go

diff --git a/nvm/devio.go b/nvm/devio.go
new file mode 100644
index 0000000..5e34e50
--- /dev/null
+++ b/nvm/devio.go
@@ -0,0 +1,20 @@
+// +build !verif
+
+package nvm
+
+import "os"
+
+//all the I/O of FileNVM on the underlying device goes through these functions,
+//see devio_verif.go for the instrumented version
+
+func deviceReadAt(f *os.File, buf []byte, off int64) (int, error) {
+	return f.ReadAt(buf, off)
+}
+
+func deviceWriteAt(f *os.File, buf []byte, off int64) (int, error) {
+	return f.WriteAt(buf, off)
+}
+
+func deviceSync(f *os.File) error {
+	return dataSync(f)
+}
diff --git a/nvm/devio_verif.go b/nvm/devio_verif.go
new file mode 100644
index 0000000..8a47bc0
--- /dev/null
+++ b/nvm/devio_verif.go
@@ -0,0 +1,63 @@
+// +build verif
+
+package nvm
+
+import "os"
+
+//VerifIO describes one operation on the underlying device of a FileNVM
+type VerifIO struct {
+	Op    string //"read", "write" or "sync"
+	Path  string
+	Off   int64
+	Buf   []byte
+	After bool //false: about to start, true: just finished
+	N     int  //only if After
+	Err   error
+}
+
+//VerifHook is called before and after every device operation, on the calling
+//goroutine. If the call before the operation returns an error, the operation is
+//not executed and fails with that error.
+var VerifHook func(io *VerifIO) error
+
+func deviceReadAt(f *os.File, buf []byte, off int64) (n int, err error) {
+	if VerifHook == nil {
+		return f.ReadAt(buf, off)
+	}
+	io := &VerifIO{Op: "read", Path: f.Name(), Off: off, Buf: buf}
+	if err = VerifHook(io); err != nil {
+		return 0, err
+	}
+	n, err = f.ReadAt(buf, off)
+	io.After, io.N, io.Err = true, n, err
+	VerifHook(io)
+	return n, err
+}
+
+func deviceWriteAt(f *os.File, buf []byte, off int64) (n int, err error) {
+	if VerifHook == nil {
+		return f.WriteAt(buf, off)
+	}
+	io := &VerifIO{Op: "write", Path: f.Name(), Off: off, Buf: buf}
+	if err = VerifHook(io); err != nil {
+		return 0, err
+	}
+	n, err = f.WriteAt(buf, off)
+	io.After, io.N, io.Err = true, n, err
+	VerifHook(io)
+	return n, err
+}
+
+func deviceSync(f *os.File) (err error) {
+	if VerifHook == nil {
+		return dataSync(f)
+	}
+	io := &VerifIO{Op: "sync", Path: f.Name()}
+	if err = VerifHook(io); err != nil {
+		return err
+	}
+	err = dataSync(f)
+	io.After, io.Err = true, err
+	VerifHook(io)
+	return err
+}
diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..b1414f0 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -135,7 +135,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 }
 
 func (self *FileNVM) Sync() error {
-	return dataSync(self.file)
+	return deviceSync(self.file)
 }
 
 func (self *FileNVM) Position() uint64 {
@@ -218,7 +218,7 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
 	}
 	rlen := util.Min(maxLen, bufLen)
-	return nvm.file.ReadAt(buf[:rlen], int64(nvm.viewStart)+off)
+	return deviceReadAt(nvm.file, buf[:rlen], int64(nvm.viewStart)+off)
 }
 
 func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
@@ -236,7 +236,7 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 
 	newPosition := nvm.cursor_position + len
 
-	n, err = nvm.file.ReadAt(buf[:len], int64(nvm.cursor_position))
+	n, err = deviceReadAt(nvm.file, buf[:len], int64(nvm.cursor_position))
 
 	if err != nil && err != io.EOF {
 		return 0, err
@@ -268,7 +268,7 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 
 	len := util.Min(maxLen, bufLen)
 
-	if n, err = nvm.file.WriteAt(buf[:len], realPos); err != nil {
+	if n, err = deviceWriteAt(nvm.file, buf[:len], realPos); err != nil {
 		return -1, errors.Wrap(err, "FileNVM failed to write")
 	}
 	return n, nil
@@ -285,7 +285,7 @@ func (nvm *FileNVM) Write(buf []byte) (n int, err error) {
 	len := util.Min(maxLen, bufLen)
 	newPosition := nvm.cursor_position + len
 
-	if n, err = nvm.file.WriteAt(buf[:len], int64(nvm.cursor_position)); err != nil {
+	if n, err = deviceWriteAt(nvm.file, buf[:len], int64(nvm.cursor_position)); err != nil {
 		return -1, errors.Wrap(err, "FileNVM failed to write")
 	}
 
-- 
2.43.0


From 50fb5ac0e914670c663bb0037d1e3dc56716ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 02/37] fix: block.FromBytes accepts an empty slice

---
 block/aligned_bytes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..ea2a232 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,6 +61,9 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
+	if len(src) == 0 {
+		return NewAlignedBytes(0, blockSize), true
+	}
 	a := alignment(src, blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
-- 
2.43.0


From fc0bb4b606f4e4076bb17b89d2ff1686686081d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 03/37] fix: block.FromBytes copies unaligned input to the
 aligned part of its buffer

---
 block/aligned_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index ea2a232..ceb11eb 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -68,7 +68,7 @@ func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From 1e67a290f4d30526277364fd806f0e21421d4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 04/37] fix: LumpId.Compare orders ids that are 2^63 or more
 apart

---
 lump/lump.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lump/lump.go b/lump/lump.go
index 262b649..7c2b24d 100644
--- a/lump/lump.go
+++ b/lump/lump.go
@@ -66,7 +66,14 @@ func (id LumpId) Write(w io.Writer) (int, error) {
 }
 
 func (left LumpId) Compare(right LumpId) int {
-	return int(left.lo - right.lo)
+	switch {
+	case left.lo < right.lo:
+		return -1
+	case left.lo > right.lo:
+		return 1
+	default:
+		return 0
+	}
 }
 
 func EmptyLump() LumpId {
-- 
2.43.0


From e5e5e32bd74482b6ffdbc66d66953fea32672609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 05/37] fix: LumpIndex counts each stored id exactly once

---
 lumpindex/lump_index.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..582095f 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,29 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
+	index.insert(id, n)
+}
+
+//insert counts the id only if it is new
+func (index *LumpIndex) insert(id lump.LumpId, n uint64) {
+	if _, ok := index.tree.Get(id.U64()); !ok {
+		atomic.AddUint64(&index.counts, 1)
+	}
 	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
+	if !index.tree.Delete(id.U64()) {
+		return false
+	}
 	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	return true
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 99df9d25e31401befc7051d75f9267ff9c7e105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 06/37] fix: Usage reports a maximum segment size of 0 when the
 store is full

---
 storage/storage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index bac392b..eef93fd 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -263,13 +263,18 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	//0 if not even one block is free
+	var maxSegmentSize uint64
+	if n := store.alloc.MaxSegmentSize(); n > 0 {
+		maxSegmentSize = util.Min(lump.LUMP_MAX_SIZE, n*blockSize-LUMP_DATA_TRAILER_SIZE)
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    maxSegmentSize,
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
-- 
2.43.0


From aac03e73dab005283681a52b6d5e8463b95a3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 07/37] fix: offset reads and writes cover every block they
 touch and stop at the object's end

GetWithOffset and Update read too few blocks when the range crossed a block
boundary, overflowed uint32, looked for the padding size in the wrong block
and ignored write errors; a range ending in the last 514 bytes of a portion
now looks at the trailer.
---
 storage/data_region.go | 88 +++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..e14e4d2 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -127,32 +127,56 @@ func (region *DataRegion) readBlocks(readOffset int64, blockCount int) ([]byte,
 	return ab.AsBytes(), nil
 }
 
+//An object ends somewhere in the last (block_size + LUMP_DATA_TRAILER_SIZE) bytes of its portion
+func (region *DataRegion) mayReachObjectEnd(end uint32, onDiskSize uint32) bool {
+	return uint64(end)+uint64(region.block_size.AsU32())+LUMP_DATA_TRAILER_SIZE > uint64(onDiskSize)
+}
+
+//The real size of an object. data must reach to the end of its portion
+func (region *DataRegion) objectSize(data []byte, onDiskSize uint32) (uint32, error) {
+	paddingSize := uint32(util.GetUINT16(data[len(data)-LUMP_DATA_TRAILER_SIZE:]))
+	if paddingSize+LUMP_DATA_TRAILER_SIZE > onDiskSize {
+		return 0, errors.Wrap(internalerror.StorageCorrupted, "padding size is bigger than the object")
+	}
+	return onDiskSize - paddingSize - LUMP_DATA_TRAILER_SIZE, nil
+}
+
 //thread safe
 func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
 	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	end := uint64(startOffset) + uint64(len(payload))
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
 	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
-	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+	prefixPadding := startOffset % region.block_size.AsU32()
+	blockCount := int(region.shiftBlockSize(prefixPadding + uint32(len(payload))))
+	mayReachEnd := region.mayReachObjectEnd(uint32(end), onDiskSize)
+	if mayReachEnd {
+		//the last block knows where the object ends
+		blockCount = int((offsetToDisk + uint64(onDiskSize) - readOffset) / uint64(region.block_size.AsU16()))
+	}
+	data, err := region.readBlocks(int64(readOffset), blockCount)
 	if err != nil {
 		return err
 	}
-	prefixPadding := startOffset % region.block_size.AsU32()
-	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
+	if mayReachEnd {
+		objectSize, err := region.objectSize(data, onDiskSize)
+		if err != nil {
+			return err
+		}
+		if end > uint64(objectSize) {
 			return errors.Wrap(internalerror.InvalidInput,
 				"object reserved capacity exceeded")
 		}
 	}
+	if len(payload) == 0 {
+		return nil
+	}
+	copy(data[prefixPadding:], payload)
 
 	/*
 		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
@@ -162,7 +186,7 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 		// data is already aligned since it's returned from AlignedBytes
 		_, err = region.nvm.Write(data)
 	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	_, err = region.nvm.WriteAt(data, int64(readOffset))
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 	return err
@@ -196,9 +220,10 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 	if err != nil {
 		return 0, err
 	}
-	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
-	size = uint32(dataPortion.Len)*uint32(region.block_size) -
-		paddingSize - LUMP_DATA_TRAILER_SIZE
+	size, err = region.objectSize(buf, uint32(dataPortion.Len)*uint32(region.block_size))
+	if err != nil {
+		return 0, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(region.block_size)))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
@@ -225,9 +250,12 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 	if _, err := region.nvm.ReadAt(ab.AsBytes(), int64(offset)); err != nil {
 		return lump.LumpData{}, err
 	}
-	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
+	size, err := region.objectSize(ab.AsBytes(), ab.Len())
+	if err != nil {
+		return lump.LumpData{}, err
+	}
 
-	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
+	ab.Resize(size)
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(ab.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
@@ -243,31 +271,37 @@ func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 
 	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(startOffset)+uint64(length) > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
 	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
 	prefixPadding := startOffset % region.block_size.AsU32()
 
+	//If length is small, the end of the object can not be inside the requested range
+	if !region.mayReachObjectEnd(startOffset+length, onDiskSize) {
+		data, err := region.readBlocks(int64(newReadStart), int(region.shiftBlockSize(prefixPadding+length)))
+		if err != nil {
+			return nil, err
+		}
+		return data[prefixPadding : prefixPadding+length], nil
+	}
+
+	//In this case, if length is too big(reach to the end of object), prevent to read the padding data
 	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+		int((offset+uint64(onDiskSize)-newReadStart)/uint64(region.block_size.AsU16())))
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
+	objectSize, err := region.objectSize(data, onDiskSize)
+	if err != nil {
+		return nil, err
 	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	if startOffset > objectSize {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
+	realFileSize := prefixPadding + util.Min32(length, objectSize-startOffset)
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-- 
2.43.0


From ebd79687209a435f60c0b85ce9d67bcb1d0d4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 08/37] fix: GetWithOffset of an embedded object is cut at the
 object's end instead of panicking

---
 storage/storage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index eef93fd..eb00cd5 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -467,7 +467,12 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
-		return data[startOffset : startOffset+length], nil
+		if uint64(startOffset) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "startOffset > object length")
+		}
+		//same as data objects, never read over the end of object
+		end := util.Min(uint64(startOffset)+uint64(length), uint64(len(data)))
+		return data[startOffset:end], nil
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From 39389f86a29301ab5d175ad5ea0e4e5391a2bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 09/37] fix: a Put that fails releases its blocks and leaves
 the caller's buffer alone

Write errors leaked the allocated portion, a full store had already resized
the caller's buffer so that a retry stored padding, and nil or oversized data
panicked or wrapped around uint16.
---
 storage/data_region.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index e14e4d2..c21045e 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -59,8 +59,20 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
 //thread-safe
 func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
+	if data.Inner == nil || data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump data is nil or too big")
+	}
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
+	//allocate before data is changed, so that the caller could retry with the same data
+	region.Lock()
+	data_portion, err := region.allocator.Allocate(uint16(region.shiftBlockSize(size)))
+	region.Unlock()
+
+	if err != nil {
+		return portion.DataPortion{}, err
+	}
+
 	//Aligned
 	data.Inner.AlignResize(size)
 
@@ -72,16 +84,6 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	}
 	util.PutUINT16(data.Inner.AsBytes()[trailer_offset:], uint16(padding_len))
 
-	requiredBlocks := region.shiftBlockSize(data.Inner.Len())
-
-	region.Lock()
-	data_portion, err := region.allocator.Allocate(uint16(requiredBlocks))
-	region.Unlock()
-
-	if err != nil {
-		return portion.DataPortion{}, err
-	}
-
 	offset, len := data_portion.ShiftBlockToBytes(region.block_size)
 	if len != data.Inner.Len() {
 		panic(fmt.Sprintf("should be the same in data_region put userdata:%d , diskdata:%d",
@@ -96,12 +98,16 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	if _, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset)); err != nil {
+		region.Release(data_portion)
+		data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
+		return portion.DataPortion{}, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return data_portion, nil
 }
 
 //thread-safe
-- 
2.43.0


From 22c162891acccd92689348d60a2fee3560dd3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 10/37] fix: an operation changes the index and releases space
 only once it is in the journal

Put and PutEmbed dropped (and released) the old object without any record
before writing the new one, Delete ignored journal errors, DeleteRange and
Delete ran garbage collection against an index that did not match the journal
yet, DeleteRange never released its portions. Objects were lost, revived or
leaked when the journal or the data region was full or after a reopen.
---
 storage/journal/region.go |  10 ++-
 storage/storage.go        | 148 +++++++++++++++++++-------------------
 2 files changed, 80 insertions(+), 78 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..cd4f53d 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -132,11 +132,17 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
+	//once the record is in the journal, we should update the index as well
 	//because journal GC start after append, to prevent to be GCed
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRecord:
+		index.Delete(v.LumpID)
+	case DeleteRange:
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
@@ -297,6 +303,7 @@ func (journal *JournalRegion) trySync() {
 }
 
 //Write Journal, Update Index
+//All Record* functions update the index if and only if the record is written
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
@@ -305,7 +312,6 @@ func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.Lump
 	return journal.appendWithGC(index, record)
 }
 
-//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordEmbed(index *lumpindex.LumpIndex, id lump.LumpId, data []byte) error {
 	if len(data) > lump.MAX_EMBEDDED_SIZE {
 		return internalerror.InvalidInput
diff --git a/storage/storage.go b/storage/storage.go
index eb00cd5..8d22356 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -479,40 +479,67 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
+	if lumpdata.Inner == nil {
+		return false, errors.Wrap(internalerror.InvalidInput, "lump data is nil")
+	}
+	size := lumpdata.Inner.Len()
+
+	//Close() waits for the write
+	store.i.RLock()
+	if !store.opened {
+		store.i.RUnlock()
+		return false, internalerror.StorageClosed
+	}
 	dataPortion, err := store.dataRegion.Put(lumpdata)
+	store.i.RUnlock()
 	if err != nil {
 		return
 	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
 
 	store.jr.Lock()
-	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
-	store.jr.Unlock()
+	defer store.jr.Unlock()
 
+	old, getErr := store.index.Get(lumpid)
+	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 	if err != nil {
 		// revert the dataPortion
 		store.dataRegion.Release(dataPortion)
+		lumpdata.Inner.Resize(size)
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
-	if int64(lumpdata.Inner.Len()) == 1 {
-
-		panic("FUCK")
+	if getErr == nil {
+		store.releasePortion(old)
+		updated = true
 	}
 	return
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
+	updated, err = store.put(lumpid, lumpdata)
+	if errors.Cause(err) != internalerror.StorageFull {
+		return
+	}
+	//The old and the new data can not be stored side by side, delete the old one and try again
+	deleted, _, err2 := store.Delete(lumpid)
+	if err2 != nil || !deleted {
+		return false, err
+	}
+	_, err = store.put(lumpid, lumpdata)
+	return true, err
+}
+
+func (store *Storage) releasePortion(p portion.Portion) {
+	if v, ok := p.(portion.DataPortion); ok {
+		store.dataRegion.Release(v)
 	}
-	return updated, store.put(lumpid, lumpdata)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -552,7 +579,8 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		_, err = store.put(lumpid, lumpdata)
+		return err
 	}
 
 	// update exist object; `reservation` is ignored in this case
@@ -569,25 +597,26 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
-}
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
 
-func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
+	old, getErr := store.index.Get(lumpid)
+	if err = store.journalRegion.RecordEmbed(store.index, lumpid, data); err != nil {
+		return
+	}
+	if getErr == nil {
+		store.releasePortion(old)
+		updated = true
+	}
 	return
 }
 
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
-
+func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
 	store.i.Lock()
 	defer store.i.Unlock()
 	if !store.opened {
@@ -601,39 +630,14 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
-	if doRecord {
-		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-	}
-
-	var releasedSize uint32
-
-	switch v := p.(type) {
-	case portion.DataPortion:
-		releasedSize = uint32(v.Len) * uint32(store.innerNVM.BlockSize().AsU16())
-		store.dataRegion.Release(v)
-	case portion.JournalPortion:
-		releasedSize = uint32(v.Len)
-
+	store.jr.Lock()
+	defer store.jr.Unlock()
+	if err = store.journalRegion.RecordDelete(store.index, lumpid); err != nil {
+		return false, 0, err
 	}
 
-	/*
-		switch v := p.(type) {
-		case portion.JournalPortion:
-			if doRecord {
-				return true, store.journalRegion.RecordDelete(store.index, lumpid)
-			}
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-	*/
-	return true, releasedSize, nil
+	store.releasePortion(p)
+	return true, p.SizeOnDisk(store.innerNVM.BlockSize()), nil
 }
 
 /*
@@ -717,25 +721,21 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
+	portions := make([]portion.Portion, 0)
+	store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
+		portions = append(portions, p)
+		return nil
+	})
+
 	store.jr.Lock()
-	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
-	store.jr.Unlock()
-	if err != nil {
+	defer store.jr.Unlock()
+	if err := store.journalRegion.RecordDeleteRange(store.index, start, end); err != nil {
 		return err
 	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
-		switch v := p.(type) {
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-		return nil
-
-	})
+	for _, p := range portions {
+		store.releasePortion(p)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
@@ -805,9 +805,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From ed5a2f98a3444a1fa75fff27a5499f4b873fc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 11/37] fix: PutWithOffset refuses nil or oversized objects
 instead of panicking or wrapping around

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 8d22356..ca91225 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -571,11 +571,17 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	}
 	p, err := store.index.Get(lumpid)
 	store.i.RUnlock()
+	if lumpdata.Inner == nil {
+		return errors.Wrap(internalerror.InvalidInput, "lump data is nil")
+	}
 	payload := lumpdata.AsBytes()
 
 	if err != nil {
 		// Only one error possible, which is "object could not be found",
 		// meaning this is a new object. Padding necessary zeros and call `put`
+		if util.Max(uint64(reservation), uint64(startOffset)+uint64(len(payload))) > lump.LUMP_MAX_SIZE {
+			return errors.Wrap(internalerror.InvalidInput, "object is too big")
+		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-- 
2.43.0


From e1aeb0a3b2b0b4c286d284c00d208c263aa5fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 12/37] fix: reads hold the index lock so that the blocks they
 read can not be reused under them

---
 storage/storage.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index ca91225..f4de5ad 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -386,15 +386,14 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//keep the lock while reading, or the blocks could be released and reused by others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
 
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -415,13 +414,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//keep the lock while reading, or the blocks could be released and reused by others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -447,13 +446,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//keep the lock while reading, or the blocks could be released and reused by others
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 106b44bb3ad5041369253b293d13137a65478814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 13/37] fix: PutWithOffset is atomic with respect to readers
 and other writers of the object

---
 storage/storage.go | 58 ++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index f4de5ad..57f55f3 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -478,7 +478,9 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
+var errObjectExists = errors.New("object exists")
+
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData, onlyNew bool) (updated bool, err error) {
 	if lumpdata.Inner == nil {
 		return false, errors.Wrap(internalerror.InvalidInput, "lump data is nil")
 	}
@@ -506,7 +508,11 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 	defer store.jr.Unlock()
 
 	old, getErr := store.index.Get(lumpid)
-	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
+	if onlyNew && getErr == nil {
+		err = errObjectExists
+	} else {
+		err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
+	}
 	if err != nil {
 		// revert the dataPortion
 		store.dataRegion.Release(dataPortion)
@@ -522,7 +528,7 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	updated, err = store.put(lumpid, lumpdata)
+	updated, err = store.put(lumpid, lumpdata, false)
 	if errors.Cause(err) != internalerror.StorageFull {
 		return
 	}
@@ -531,7 +537,7 @@ func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 	if err2 != nil || !deleted {
 		return false, err
 	}
-	_, err = store.put(lumpid, lumpdata)
+	_, err = store.put(lumpid, lumpdata, false)
 	return true, err
 }
 
@@ -563,39 +569,51 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
-	if !store.opened {
-		store.i.RUnlock()
-		return internalerror.StorageClosed
-	}
-	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if lumpdata.Inner == nil {
 		return errors.Wrap(internalerror.InvalidInput, "lump data is nil")
 	}
 	payload := lumpdata.AsBytes()
 
-	if err != nil {
-		// Only one error possible, which is "object could not be found",
-		// meaning this is a new object. Padding necessary zeros and call `put`
+	for {
+		exist, err := store.update(lumpid, payload, startOffset)
+		if exist || err != nil {
+			return err
+		}
+
+		// this is a new object. Padding necessary zeros and call `put`
 		if util.Max(uint64(reservation), uint64(startOffset)+uint64(len(payload))) > lump.LUMP_MAX_SIZE {
 			return errors.Wrap(internalerror.InvalidInput, "object is too big")
 		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		_, err = store.put(lumpid, lumpdata)
-		return err
+		_, err = store.put(lumpid, lump.NewLumpDataWithAb(data), true)
+		// someone else created the object in the meantime, update it
+		if err != errObjectExists {
+			return err
+		}
 	}
+}
 
-	// update exist object; `reservation` is ignored in this case
+// update exist object
+func (store *Storage) update(lumpid lump.LumpId, payload []byte, startOffset uint32) (exist bool, err error) {
+	// nobody should read the object while it is changed
+	store.i.Lock()
+	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	p, err := store.index.Get(lumpid)
+	if err != nil {
+		// Only one error possible, which is "object could not be found",
+		return false, nil
+	}
 
 	switch v := p.(type) {
 	case portion.DataPortion:
-		return store.dataRegion.Update(v, startOffset, payload)
+		return true, store.dataRegion.Update(v, startOffset, payload)
 	case portion.JournalPortion:
 		// TODO?
-		return errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
+		return true, errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
 	default:
 		panic("never here")
 	}
-- 
2.43.0


From cd46fb7039061e3f136844c19d644b085fe1af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 14/37] fix: Close can not deadlock with other calls, always
 releases the file, and closed stores answer every call

---
 storage/storage.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 57f55f3..6151c25 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -216,6 +216,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
@@ -351,6 +353,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
@@ -665,9 +670,13 @@ func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err
 
 /*
 return value: len([]float) no more than 12800 points, each point is 4MB
-//thread-UNSAFE
 */
 func (store *Storage) GetAllocationStatus() []float64 {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return nil
+	}
 	//each point represents 4M bytes
 	blockSizeBytes := store.storageHeader.BlockSize.AsU32()
 
@@ -683,6 +692,8 @@ func (store *Storage) GetAllocationStatus() []float64 {
 		total = 12800 * n //max size is 50GB
 	}
 
+	store.dataRegion.Lock()
+	defer store.dataRegion.Unlock()
 	return store.alloc.GetAllocationBitStatus(n, total)
 }
 
@@ -709,20 +720,24 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
+	//same order as all the others: i, jr
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
 	fmt.Printf("close")
 	store.opened = false
 	store.updateCapacityStopper.Stop() //will wait goroutine's end
+	//release the file even if journalSync panics
+	defer func() {
+		store.innerNVM.Close()
+		store.index.Free()
+		store.alloc.Free()
+	}()
 	store.journalSync()
-	store.innerNVM.Close()
-	store.index.Free()
-	store.alloc.Free()
 }
 
 func (store *Storage) RunSideJobOnce(countSideJob int) {
-- 
2.43.0


From e99231e6d25298eb7a073b9bc8219c08da6a4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 15/37] fix: older journal records of the same object and
 blocks are garbage

Putting, deleting and putting an object again into the same blocks left several
records that garbage collection kept for ever, until the journal was full.
---
 storage/journal/region.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index cd4f53d..a531c7b 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -22,6 +22,8 @@ const (
 	//performance related
 	GC_QUEUE_SIZE = 0x2000
 	SYNC_INTERVAL = 0x2000
+	//limit the memory used by lastPut
+	LAST_PUT_SIZE = 0x10000
 )
 
 type JournalRegion struct {
@@ -30,6 +32,9 @@ type JournalRegion struct {
 	gcQueue       *queue.Queue
 	syncCountDown int
 	gcAfterAppend bool
+	//where the newest PutRecord of an id is, as far as it is known.
+	//The same blocks could be put, deleted and put again: only the newest record is not garbage
+	lastPut map[lump.LumpId]uint64
 }
 
 func (journal *JournalRegion) SetAutomaticGcMode(gc bool) {
@@ -81,6 +86,7 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 		gcQueue:       q,
 		syncCountDown: SYNC_INTERVAL,
 		gcAfterAppend: true,
+		lastPut:       make(map[lump.LumpId]uint64),
 	}, nil
 }
 
@@ -137,10 +143,15 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	switch v := record.(type) {
 	case PutRecord:
 		index.InsertDataPortion(v.LumpID, v.DataPortion)
+		if len(journal.lastPut) >= LAST_PUT_SIZE {
+			journal.lastPut = make(map[lump.LumpId]uint64)
+		}
+		journal.lastPut[v.LumpID] = journal.ring.Tail() - uint64(record.ExternalSize())
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
 	case DeleteRecord:
 		index.Delete(v.LumpID)
+		delete(journal.lastPut, v.LumpID)
 	case DeleteRange:
 		index.DeleteRange(v.Start, v.End)
 	}
@@ -183,7 +194,11 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 			return true
 		}
 
-		return dataPortion != v.DataPortion
+		if dataPortion != v.DataPortion {
+			return true
+		}
+		last, known := Journal.lastPut[v.LumpID]
+		return known && last != entry.Start.AsU64()
 	case EmbedRecord:
 		//not found in current index, is garbage
 		if p, err = index.Get(v.LumpID); err != nil {
-- 
2.43.0


From 2034d670820c3463b92ae8f082b24b5728fc032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 16/37] fix: journal GC never drops a record it could not
 relocate and never gives up unflushed ones

A relocation that failed with a full journal lost the object, GcAllEntries
wrote the new head before the relocated records were flushed, skipped entries
that were queued already, and looped for ever once nothing could move.
---
 storage/journal/region.go | 54 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index a531c7b..bf869bf 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -219,6 +219,19 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
+//move a record which is still used to the tail
+func (journal *JournalRegion) relocate(index *lumpindex.LumpIndex, entry JournalEntry) error {
+	err := journal.append(index, entry.Record)
+	if err != internalerror.JournalStorageFull {
+		return err
+	}
+	//everything before this entry is either garbage or was relocated, its space can be reused
+	if err = journal.writeUnusedJournalHeader(entry.Start.AsU64()); err != nil {
+		return err
+	}
+	return journal.append(index, entry.Record)
+}
+
 func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
@@ -229,8 +242,10 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 			entry := e.(JournalEntry)
 
 			if journal.isGarbage(index, entry) == false {
-				record := entry.Record
-				journal.append(index, record)
+				if err := journal.relocate(index, entry); err != nil {
+					//keep the entry, try again in the next gc
+					journal.gcQueue.PushFront(entry)
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -259,9 +274,16 @@ ENDFOR:
 
 }
 
-func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+//The relocated records must be on disk before the old ones are given up
+func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) error {
+	if err := journal.ring.Flush(); err != nil {
+		return err
+	}
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		return err
+	}
 	journal.ring.ReleaseBytesUntil(head)
+	return nil
 }
 
 func (journal *JournalRegion) fillGCQueue() {
@@ -376,7 +398,12 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 
 func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
 	for journal.gcQueue.Len() != 0 {
+		before := journal.gcQueue.Len()
 		journal.gcOnce(index)
+		if journal.gcQueue.Len() == before {
+			//the journal is full or the device failed
+			return
+		}
 	}
 }
 
@@ -398,21 +425,26 @@ func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []Journa
 
 //maybe sync
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
+	//entries which are already in the queue are the oldest ones
+	journal.gcAllEntriesInQueue(index)
 	tail := journal.ring.Tail()
-	for {
+	for journal.gcQueue.Len() == 0 {
 		before_head := journal.ring.Head()
 
-		if journal.gcQueue.Len() == 0 {
-			journal.fillGCQueue()
-		}
-
+		journal.fillGCQueue()
 		journal.gcAllEntriesInQueue(index)
 
-		if between(before_head, tail, journal.ring.Head()) {
+		if before_head == journal.ring.Head() || between(before_head, tail, journal.ring.Head()) {
 			break
 		}
 	}
-	journal.writeUnusedJournalHeader(journal.ring.Head())
+	head := journal.ring.Head()
+	if front := journal.gcQueue.Front(); front != nil {
+		head = front.(JournalEntry).Start.AsU64()
+	}
+	if err := journal.writeUnusedJournalHeader(head); err != nil {
+		fmt.Printf("failed to write the journal header %+v\n", err)
+	}
 	//assert head == unreleased_head
 	//journal.headerRegion.WriteTo(journal.ring.Head())
 	//journal.Sync()
-- 
2.43.0


From 254417aa86c96db56285b53ce13c2274f2f968dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 17/37] fix: the journal write buffer never drops buffered
 bytes and reports read errors and EOF

Seeking back inside the buffer and writing less shrank it and lost the bytes
behind, errors while loading sectors were ignored, and reading at the end of
the device returned 0, nil for ever.
---
 storage/journal/nvm_buffer.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..c619c77 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -85,15 +85,18 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	//fmt.Printf("len: ", jb.readBuf.Len())
 	//Seek the aligned sector and read from disk
 	if _, err := jb.nvm.Seek(int64(readBufStart), io.SeekStart); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	innerReadSize, err := jb.nvm.Read(jb.readBuf.AsBytes())
 	if err != nil && err != io.EOF {
-		return -1, err
+		return 0, err
 	}
 
 	start := jb.position - readBufStart
+	if uint64(innerReadSize) <= start && len(buf) > 0 {
+		return 0, io.EOF
+	}
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
 	readSize := end - start
 
@@ -120,12 +123,13 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		start := jb.position - writeBufStart
 		end := uint32(start) + uint32(len(buf))
 
-		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+		//never shrink the buffer, its tail could be dirty
+		if oldLen := jb.writeBuf.Len(); end > oldLen {
+			jb.writeBuf.AlignResize(end)
+			if err := jb.loadWriteBuffer(oldLen); err != nil {
+				jb.writeBuf.Truncate(oldLen)
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -149,8 +153,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.loadWriteBuffer(0); err != nil {
+				jb.writeBuf.Truncate(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -158,6 +164,15 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//read the write buffer from offset "from" on
+func (jb *JournalNvmBuffer) loadWriteBuffer(from uint32) error {
+	if _, err := jb.nvm.Seek(int64(jb.writeBufOffset+uint64(from)), io.SeekStart); err != nil {
+		return err
+	}
+	_, err := io.ReadFull(jb.nvm, jb.writeBuf.AsBytes()[from:])
+	return err
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
-- 
2.43.0


From 7f2f9b81f3f0415ebe2c84a56f1bf6691a7c0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 18/37] fix: wrapping the journal ring around is checked before
 anything is written

A record that did not fit in front of the head left a GoToFront record leading
to stale records, and a crash before the first sector was flushed revived them.
A failed write no longer moves the tail.
---
 storage/journal/ring_buffer.go | 58 ++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..426b73f 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -2,6 +2,7 @@ package journal
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"sync/atomic"
@@ -96,35 +97,32 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	}
 
 	//2. check overflow
+	position := ring.tail
 	if ring.isOverFlow(record) {
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+		//the record must fit before the head, check it before anything is changed
+		position = 0
+		if ring.checkFreeSpaceInFront(record) == false {
+			err = internalerror.JournalStorageFull
 			return
 		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
+		//the front must be readable before GoToFront leads there
+		if err = ring.writeRecords(0, EndOfRecords{}); err != nil {
+			return
+		}
+		if err = ring.nvm.Flush(); err != nil {
+			return
+		}
+		if err = ring.writeRecords(ring.tail, GoToFront{}); err != nil {
 			return
 		}
-
-		//Jump to front
-		ring.tail = 0
-		return ring.Enqueue(record)
-	}
-
-	//3. write data
-	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-		return
-	}
-	if err = record.WriteTo(ring.nvm); err != nil {
-		return
 	}
-	ring.tail = ring.nvm.Position()
 
-	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	//3. write data and End OF Record
+	if err = ring.writeRecords(position, record, EndOfRecords{}); err != nil {
 		return
 	}
+	preTail := position
+	ring.tail = position + uint64(record.ExternalSize())
 
 	switch r := record.(type) {
 	case EmbedRecord:
@@ -135,6 +133,26 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+//write all the records at position, or nothing
+func (ring *JournalRingBuffer) writeRecords(position uint64, records ...JournalRecord) (err error) {
+	var buf bytes.Buffer
+	for _, record := range records {
+		if err = record.WriteTo(&buf); err != nil {
+			return
+		}
+	}
+	if _, err = ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
+		return
+	}
+	_, err = ring.nvm.Write(buf.Bytes())
+	return
+}
+
+func (ring *JournalRingBuffer) checkFreeSpaceInFront(record JournalRecord) bool {
+	writeEnd := uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+	return ring.nvm.BlockSize().CeilAlign(writeEnd) <= ring.unreleasedHead
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
-- 
2.43.0


From 36f089c58a0f5113d6ed875bff39a3f0c3d9f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 19/37] fix: a damaged journal is refused with an error and
 opening it always terminates

RestoreIndex and unknown tags panicked, two GoToFront records recursed for
ever, and JournalEntries reported a wrong start for every entry.
---
 storage/journal/record.go      |  2 +-
 storage/journal/region.go      | 19 ++++++++++-------
 storage/journal/ring_buffer.go | 38 ++++++++++++++++++++++------------
 3 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..6c5fa76 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -319,7 +319,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index bf869bf..18b3aa2 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -90,16 +91,21 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
-	var err error
-	iter := journal.ring.BufferedIter()
+	iter, err := journal.ring.BufferedIter()
+	if err != nil {
+		return errors.Wrap(err, "Can not restore journal")
+	}
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "Can not restore journal")
 			}
 			break
 		}
@@ -126,10 +132,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 426b73f..b6dbc7b 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -8,6 +8,7 @@ import (
 	"sync/atomic"
 
 	"github.com/klauspost/readahead"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/address"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/nvm"
@@ -222,20 +223,27 @@ func (iter DequeueIter) PopFront() (entry JournalEntry, err error) {
 
 /*Use buffer and update tail*/
 type BufferedIter struct {
-	fastReader readahead.ReadSeekCloser
-	ring       *JournalRingBuffer
+	fastReader   readahead.ReadSeekCloser
+	ring         *JournalRingBuffer
+	isSecondLoop bool
 }
 
 //Update the ring.tail
-func (iter BufferedIter) PopFront() (entry JournalEntry, err error) {
+func (iter *BufferedIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.fastReader)
 	if err != nil {
 		return JournalEntry{}, err
 	}
 	switch record.(type) {
 	case GoToFront:
+		if iter.isSecondLoop == true {
+			return JournalEntry{}, errors.Wrap(internalerror.StorageCorrupted, "has two GoToFront in journal")
+		}
+		iter.isSecondLoop = true
 		iter.ring.tail = 0
-		iter.fastReader.Seek(0, io.SeekStart)
+		if _, err = iter.fastReader.Seek(0, io.SeekStart); err != nil {
+			return JournalEntry{}, err
+		}
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.tail
@@ -256,11 +264,12 @@ func (iter BufferedIter) Close() {
 
 /*No buffer and update nothing*/
 type ReadIter struct {
-	ring *JournalRingBuffer
+	ring    *JournalRingBuffer
+	current uint64
 }
 
 /* No buffer and update nothing */
-func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
+func (iter *ReadIter) PopFront() (entry JournalEntry, err error) {
 	record, err := ReadRecordFrom(iter.ring.nvm)
 	if err != nil {
 		return JournalEntry{}, err
@@ -268,34 +277,36 @@ func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
 	switch record.(type) {
 	case GoToFront:
 		iter.ring.nvm.Seek(0, 0)
+		iter.current = 0
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.head
 		return JournalEntry{}, internalerror.NoEntries
 	default:
 		entry = JournalEntry{
-			Start:  address.AddressFromU64(iter.ring.head),
+			Start:  address.AddressFromU64(iter.current),
 			Record: record,
 		}
-		//current = entry.End()
+		iter.current = entry.End()
 		return entry, nil
 	}
 }
 
 /*Use Buffer and update tail*/
-func (ring *JournalRingBuffer) BufferedIter() BufferedIter {
+func (ring *JournalRingBuffer) BufferedIter() (BufferedIter, error) {
 	ra, err := readahead.NewReadSeekerSize(ring.nvm, 4, 1<<20)
 	if err != nil {
-		panic("should not happen in create readahead buf")
+		return BufferedIter{}, err
 	}
 
 	if _, err := ra.Seek(int64(ring.head), 0); err != nil {
-		panic(fmt.Sprintf("panic in new DequeueIter %+v", err))
+		ra.Close()
+		return BufferedIter{}, err
 	}
 	return BufferedIter{
 		ring:       ring,
 		fastReader: ra,
-	}
+	}, nil
 }
 
 /*User Buffer and update head*/
@@ -318,7 +329,8 @@ func (ring *JournalRingBuffer) ReadIter() ReadIter {
 		panic(fmt.Sprintf("panic in new DequeueIter %+v", err))
 	}
 	return ReadIter{
-		ring: ring,
+		ring:    ring,
+		current: ring.unreleasedHead,
 	}
 }
 
-- 
2.43.0


From d45ec2f92b7890ce0d9e202fb08cd69eebe2e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 20/37] fix: failing to create or open a store returns an
 error, releases the file and leaves none behind

---
 nvm/file.go        |  4 ++-
 storage/storage.go | 78 ++++++++++++++++++++++++++++++----------------
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index b1414f0..aa31e9d 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -23,7 +23,7 @@ type FileNVM struct {
 
 func fileExists(path string) bool {
 	info, err := os.Stat(path)
-	if os.IsNotExist(err) {
+	if err != nil {
 		return false
 	}
 	return !info.IsDir()
@@ -74,6 +74,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -120,6 +121,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/storage/storage.go b/storage/storage.go
index 6151c25..5eaab88 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"os"
 	"sync"
 	"time"
 
@@ -63,18 +64,33 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
 	index := lumpindex.NewIndex()
+	//on failure, the file must be available for others again
+	success := false
+	defer func() {
+		if !success {
+			snapNVM.Close()
+			index.Free()
+		}
+	}()
+
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
+	if journalNVM == nil || dataNVM == nil {
+		return nil, errors.Wrap(internalerror.StorageCorrupted, "regions are outside of the file")
+	}
 
 	journalRegion, err := journal.OpenJournalRegion(journalNVM)
 	if err != nil {
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
@@ -115,6 +131,7 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		updateUsageInfo(s)
 	})
 
+	success = true
 	return s, nil
 }
 
@@ -144,71 +161,80 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	if err != nil {
 		return nil, err
 	}
-	snapNVM, err := nvm.NewSnapshotNVM(file)
-	if err != nil {
+	if err = initializeStorage(file, journal_ratio); err != nil {
+		file.Close()
+		os.Remove(path)
 		return nil, err
 	}
+	file.Close()
+
+	return OpenCannylsStorage(path)
+}
 
+func initializeStorage(file *nvm.FileNVM, journal_ratio float64) error {
 	headBuf := new(bytes.Buffer)
-	header := makeHeader(snapNVM, journal_ratio)
+	header, err := makeHeader(file, journal_ratio)
+	if err != nil {
+		return err
+	}
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
-		return nil, err
+		return err
 	}
 	//now headBuf's len should be at least 512
 
-	journal.InitialJournalRegion(headBuf, snapNVM.BlockSize())
+	journal.InitialJournalRegion(headBuf, file.BlockSize())
 	//headbuf should be header(512) + (journal header)512 + (journal)512
 
-	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
+	alignedBufHead := block.FromBytes(headBuf.Bytes(), file.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
-
-	if err = snapNVM.Sync(); err != nil {
-		return nil, err
+	if _, err = file.Write(alignedBufHead.AsBytes()); err != nil {
+		return err
 	}
-	snapNVM.Close()
 
-	return OpenCannylsStorage(path)
+	return file.Sync()
 }
 
-func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
+func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (header nvm.StorageHeader, err error) {
 
 	//total size
 	totalSize := file.Capacity()
 	headerSize := file.BlockSize().CeilAlign(uint64(nvm.FULL_HEADER_SIZE))
+	blockSize := uint64(file.BlockSize().AsU16())
 
 	//check capacity
-	if totalSize < headerSize+uint64(file.BlockSize().AsU16()*3) {
-		panic("file size is too small")
+	if totalSize < headerSize+blockSize*3 {
+		return header, errors.Wrap(internalerror.InvalidInput, "file size is too small")
 	}
 
 	//check journal size
+	if !(journal_ratio >= 0 && journal_ratio < 1) {
+		return header, errors.Wrap(internalerror.InvalidInput, "journal ratio must be in [0, 1)")
+	}
 	tmp := float64(file.Capacity()) * journal_ratio
 	journalSize := file.BlockSize().CeilAlign(uint64(tmp))
 	if journalSize > MAX_JOURNAL_REGION_SIZE {
-		panic("journal size is too big")
+		return header, errors.Wrap(internalerror.InvalidInput, "journal size is too big")
 	}
 
-	if journalSize < uint64(file.BlockSize().AsU16()*2) {
-		journalSize = uint64(file.BlockSize().AsU16() * 2)
+	if journalSize < blockSize*2 {
+		journalSize = blockSize * 2
 	}
 
+	if journalSize+headerSize+blockSize > totalSize {
+		return header, errors.Wrap(internalerror.InvalidInput, "no space for data region")
+	}
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
-		panic(fmt.Sprintf("data size is too big: %d", dataSize))
-	}
-
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
+		return header, errors.Wrapf(internalerror.InvalidInput, "data size is too big: %d", dataSize)
 	}
 
-	header := nvm.DefaultStorageHeader()
+	header = *nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
 	header.DataRegionSize = dataSize
-	return *header
+	return header, nil
 }
 
 func (store *Storage) Header() nvm.StorageHeader {
-- 
2.43.0


From 822335d723d0cf628247d6c6ad8cd17e6f95b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 21/37] fix: device layers refuse positions outside of their
 view and read never written bytes as zero

---
 nvm/file.go   | 24 ++++++++++++++++--------
 nvm/header.go |  4 ++++
 nvm/memory.go | 12 +++++++++---
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index aa31e9d..9056584 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -163,6 +163,9 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 	if block.Min().CeilAlign(uint64(position)) != position {
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "position %d is outside of the device in split", position)
+	}
 
 	//TODO
 	leftNVM := &FileNVM{
@@ -202,13 +205,16 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	realFilePosition := nvm.viewStart + uint64(abs)
 
 	nvm.cursor_position = realFilePosition
-	return offset, nil
+	return abs, nil
 }
 
 //read,write threadSafe
 func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 	if !block.Min().IsAligned(uint64(off)) {
-		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
+	}
+	if off < 0 || uint64(off) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "%d is outside of the device in read", off)
 	}
 
 	maxLen := nvm.Capacity() - uint64(off)
@@ -244,20 +250,22 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 		return 0, err
 	}
 
-	if n < int(len) {
-		nvm.file.Seek(int64(newPosition), io.SeekStart)
-		nvm.cursor_position = newPosition
-		return int(len), nil
+	//the file is sparse: it could be shorter than the device, the rest was never written
+	for i := n; i < int(len); i++ {
+		buf[i] = 0
 	}
 
 	nvm.cursor_position = newPosition
-	return n, nil
+	return int(len), nil
 }
 
 func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 
 	if !block.Min().IsAligned(uint64(offset)) {
-		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
+	}
+	if offset < 0 || uint64(offset) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "%d is outside of the device in write", offset)
 	}
 
 	realPos := int64(nvm.viewStart) + offset
diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..0c533a1 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -147,6 +147,10 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 		return nil, internalerror.InvalidInput
 	}
 
+	if !blockSize.IsAligned(journalRegionSize) || !blockSize.IsAligned(dataRegionSize) {
+		return nil, internalerror.InvalidInput
+	}
+
 	//EOF
 	var buf [1]byte
 	if _, err = reader.Read(buf[:]); err != io.EOF {
diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..b2765a2 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -47,7 +47,7 @@ func (memory *MemoryNVM) RawSize() int64 {
 }
 
 func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
-	if memory.BlockSize().CeilAlign(p) != p {
+	if memory.BlockSize().CeilAlign(p) != p || p > memory.Capacity() {
 		return nil, nil, internalerror.InvalidInput
 	}
 
@@ -85,8 +85,8 @@ func (memory *MemoryNVM) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (memory *MemoryNVM) Read(buf []byte) (n int, err error) {
-	memory.RLock()
-	defer memory.RUnlock()
+	memory.Lock()
+	defer memory.Unlock()
 	if memory.position >= uint64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -120,6 +120,9 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
+	if off < 0 {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "negative offset: %d", off)
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -130,6 +133,9 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
+	if off < 0 || !memory.BlockSize().IsAligned(uint64(off)) || !memory.BlockSize().IsAligned(uint64(len(p))) {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "not aligned: offset %d, length %d", off, len(p))
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
-- 
2.43.0


From dcfec80f240d1874b8579dc56e79ce8763e70074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 22/37] fix: reading a snapshot is independent of the read
 size, of seeks and of concurrent writes

Reads bigger than a region panicked, SeekCurrent was relative to the read-ahead
position, SeekEnd panicked, a region could be overwritten between the lookup and
the read, and a reader of a deleted snapshot dereferenced nil.
---
 nvm/snapnvm.go | 154 ++++++++++++++++++++-----------------------------
 1 file changed, 64 insertions(+), 90 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..e9e2b48 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -476,121 +476,95 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 }
 
 type SnapshotReader struct {
-	snap          *SnapNVM
-	offset        uint64
-	buf           *block.AlignedBytes
-	waterHighMark int
-	waterLowMark  int
+	snap     *SnapNVM
+	backfile *BackingFile
+	offset   uint64
+	//the cached region
+	buf      *block.AlignedBytes
+	bufStart uint64
+	bufEnd   uint64
 }
 
 func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
-		snap:          snap,
-		buf:           ab,
-		offset:        0,
-		waterHighMark: 0,
-		waterLowMark:  0,
+		snap:     snap,
+		backfile: snap.myBackfile,
+		buf:      ab,
 	}
 }
 
 //read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
 	switch whence {
-	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
-	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
-	case 2:
-		panic("not supported so far")
+	case io.SeekStart:
+	case io.SeekCurrent:
+		offset += int64(self.offset)
+	case io.SeekEnd:
+		offset += int64(self.backfile.rawCapacity)
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	if offset < 0 || offset > int64(self.backfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.backfile.rawCapacity)
+	}
+	self.offset = uint64(offset)
+	return offset, nil
 }
 
 //read thread-safe
 func (self *SnapshotReader) Read(p []byte) (n int, err error) {
-
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
-
-	regionSize := self.snap.myBackfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
-		panic("Read data too big")
+	if len(p) == 0 {
+		return 0, nil
 	}
-	start := self.offset / regionSize * regionSize
-	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
-	//read the whole region size
-	if self.waterHighMark == self.waterLowMark {
-
-		if self.offset == self.snap.myBackfile.rawCapacity {
-			return 0, io.EOF
+	if self.offset >= self.backfile.rawCapacity {
+		return 0, io.EOF
+	}
+	if self.offset < self.bufStart || self.offset >= self.bufEnd {
+		if err = self.readRegion(); err != nil {
+			return 0, err
 		}
-		onBacking, onOrigin := self.snap.myBackfile.GetCopyOffset(start, start+regionSize)
-		/*
-			fmt.Printf("onBacking is %+v, onOrigin is %+v, offset is %d, start is %d\n",
-				onBacking, onOrigin, self.offset, start)
-		*/
-
-		if len(onBacking) == 1 {
-			self.buf.Resize(uint32(self.snap.myBackfile.regionSize))
-			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
-			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else if len(onOrigin) == 1 {
-			self.buf.Resize(uint32(maxLen))
-			/*
-				if _, err = self.snap.originFile.Seek(int64(uint64(onOrigin[0])*regionSize), io.SeekStart); err != nil {
-					panic("failed to seek")
-				}
-				n, err = io.ReadFull(self.snap.originFile, self.buf.AsBytes())
-			*/
-			start := int64(uint64(onOrigin[0]) * regionSize)
-			n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), start)
-			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
-			//if originFile is shorter than expected
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else {
-			panic("bad happend")
+		if self.offset >= self.bufEnd {
+			return 0, io.ErrUnexpectedEOF
 		}
-		self.waterHighMark = int(util.Min(uint64(maxLen), uint64(n)))
-		self.waterLowMark = int(self.offset % regionSize)
-		self.offset = start + uint64(self.waterHighMark)
+	}
+	n = copy(p, self.buf.AsBytes()[self.offset-self.bufStart:self.bufEnd-self.bufStart])
+	self.offset += uint64(n)
+	return n, nil
+}
 
+//read the whole region of the current offset
+func (self *SnapshotReader) readRegion() (err error) {
+	//nobody should write between the lookup and the read
+	self.snap.RLock()
+	defer self.snap.RUnlock()
+	if self.snap.myBackfile != self.backfile {
+		return errors.New("snapshot is deleted")
 	}
-	/*
-		fmt.Printf("waterHighMark %d, waterLowMark %d, offset %d\n",
-			self.waterHighMark, self.waterLowMark, self.offset)
-	*/
-	l := len(p)
-	if l < self.waterHighMark-self.waterLowMark {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterLowMark+l])
-		self.waterLowMark += l
-		return l, nil
+
+	regionSize := self.backfile.RegionSize()
+	start := self.offset / regionSize * regionSize
+	maxLen := util.Min(self.backfile.rawCapacity-start, regionSize)
+
+	self.bufStart, self.bufEnd = 0, 0
+	var n int
+	onBacking, onOrigin := self.backfile.GetCopyOffset(start, start+regionSize)
+	if len(onBacking) == 1 {
+		self.buf.Resize(uint32(regionSize))
+		n, err = self.backfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
+	} else if len(onOrigin) == 1 {
+		self.buf.Resize(uint32(maxLen))
+		n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), int64(start))
 	} else {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:])
-		n := self.waterHighMark - self.waterLowMark
-		self.waterLowMark += n
-		return n, nil
+		panic("bad happend")
 	}
+	//originFile could be shorter than expected
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err
+	}
+	self.bufStart = start
+	self.bufEnd = start + util.Min(maxLen, uint64(n))
+	return nil
 }
 
 type SnapNVM struct {
-- 
2.43.0


From ea134a6aec6b15b42f7b50506bf96f905583f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 23/37] fix: writes bigger than a snapshot region work, and a
 failing copy-on-write fails the write

---
 nvm/snapnvm.go | 106 +++++++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index e9e2b48..3445138 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -344,7 +344,7 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
 //WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
@@ -362,23 +362,28 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
 	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
+	if _, err := bf.file.Seek(int64(bf.JournalEnd), io.SeekStart); err != nil {
+		return err
+	}
 	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+		return err
 	}
 	//Write data
 	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+		return err
 	}
-	bf.dataEnd += bf.regionSize
 	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+		return err
+	}
+	if err := bf.file.Sync(); err != nil {
+		return err
 	}
 
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
@@ -636,28 +641,38 @@ func (self *SnapNVM) Unlock() {
 	self.rawSnapNVM.mu.Unlock()
 }
 
+//save the regions which are about to be changed into backing file
+//positional reads only: raw SnapNVM shares its cursor with originFile
+func (self *SnapNVM) copyOnWrite(start uint64, size uint64) error {
+	raw := self.rawSnapNVM
+	if raw.myBackfile == nil || size == 0 || start >= self.originFile.ViewEnd() {
+		return nil
+	}
+	end := util.Min(start+size, self.originFile.ViewEnd())
+	_, onOrigin := raw.myBackfile.GetCopyOffset(start, end)
+	for i := 0; i < len(onOrigin); i++ {
+		//although n could be less than regionSize at the end of file, we still write
+		//the whole regionSize to backfile
+		regionStart := int64(uint64(onOrigin[i]) * raw.myBackfile.RegionSize())
+		_, err := util.ReadFull(raw.originFile, raw.ab.AsBytes(), regionStart)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return err
+		}
+		if err = raw.myBackfile.WriteOffset(raw.ab.AsBytes(), onOrigin[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	realPos := self.originFile.ViewStart() + uint64(off)
-	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if off < 0 {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "negative offset: %d", off)
+	}
+	if err = self.copyOnWrite(self.originFile.ViewStart()+uint64(off), uint64(len(buf))); err != nil {
+		return 0, err
 	}
 	return self.originFile.WriteAt(buf, off)
 }
@@ -665,35 +680,9 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	start := self.originFile.Position() //start is a relative position
-	realPos := self.originFile.ViewStart() + start
-	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-		/*
-			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
-				onOrigin, start, realPos, realPos+uint64(len(buf)))
-		*/
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.copyOnWrite(self.originFile.ViewStart()+self.originFile.Position(), uint64(len(buf))); err != nil {
+		return 0, err
 	}
-	self.originFile.Seek(int64(start), io.SeekStart)
 	return self.originFile.Write(buf)
 }
 
@@ -731,7 +720,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
@@ -827,8 +819,8 @@ func (self *SnapNVM) Position() uint64 {
 }
 
 func (self *SnapNVM) RawSize() int64 {
-	self.Lock()
-	self.Unlock()
+	self.RLock()
+	defer self.RUnlock()
 	return self.rawSnapNVM.originFile.RawSize()
 }
 
-- 
2.43.0


From 010e343148bf330b67a2281579205be76498f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 24/37] fix: snapshots live beside their store, match it
 exactly and survive a crash while being made

Snapshot files were created in the working directory but looked up beside the
store, 'a' found the snapshots of 'a_b', a partly written region or header broke
the next open, short store names panicked and deleting one leaked its file.
---
 nvm/snapnvm.go | 56 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 3445138..534bde7 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -289,6 +290,8 @@ func (bf *BackingFile) Delete() {
 	if err := os.Remove(bf.fileName); err != nil {
 		panic("delete failed")
 	}
+	bf.file.Close()
+	bf.tree.Free()
 }
 
 //give [start, end) of the buf
@@ -389,7 +392,9 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
 	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	//it becomes a snapshot once its header is complete
+	tmpName := fileName + ".tmp"
+	file, err := os.OpenFile(tmpName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -404,12 +409,17 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
-	if err = header.WriteTo(file); err != nil {
+	if err = header.WriteTo(file); err == nil {
+		if err = file.Sync(); err == nil {
+			err = os.Rename(tmpName, fileName)
+		}
+	}
+	if err != nil {
+		file.Close()
+		os.Remove(tmpName)
 		return nil, err
 	}
 
-	file.Sync()
-
 	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
 		file:           file,
@@ -435,7 +445,8 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	var header *BackingFileHeader
 	header, err = readBackingFileHeaderFrom(file)
 	if err != nil {
-		panic(fmt.Sprint(err.Error()))
+		file.Close()
+		return nil, err
 	}
 
 	fmt.Printf("header is %+v\n", header)
@@ -447,7 +458,9 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	info, _ := file.Stat()
 	var dataEnd = util.Max(dataStart, uint64(info.Size()))
 
+	//a region which is not complete was never used
 	n := (dataEnd - dataStart) >> header.RegionShift
+	dataEnd = dataStart + n<<header.RegionShift
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
@@ -582,6 +595,30 @@ type SnapNVM struct {
 	rawSnapNVM *SnapNVM
 }
 
+//snapshots of prefix are prefix_UUID_lusf.snapshot
+func findBackingFiles(prefix string) (matches []string, err error) {
+	directory, err := os.Open(filepath.Dir(prefix))
+	if err != nil {
+		return nil, err
+	}
+	defer directory.Close()
+	names, err := directory.Readdirnames(-1)
+	if err != nil {
+		return nil, err
+	}
+	for _, name := range names {
+		id := strings.TrimPrefix(name, filepath.Base(prefix)+"_")
+		id = strings.TrimSuffix(id, "_lusf.snapshot")
+		if name != filepath.Base(prefix)+"_"+id+"_lusf.snapshot" {
+			continue
+		}
+		if parsed, err := uuid.FromString(id); err == nil && parsed.String() == id {
+			matches = append(matches, filepath.Join(filepath.Dir(prefix), name))
+		}
+	}
+	return matches, nil
+}
+
 func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 
 	if originFile.splited {
@@ -593,13 +630,10 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	///a/b/c/d/EXXX.lusf => EXXX
 	//../../../ASDF.lusf => ASDF
 	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
+	prefix := filepath.Join(fileDirectory, strings.TrimSuffix(baseName, ".lusf"))
+	matches, err := findBackingFiles(prefix)
 	if err != nil {
-		panic(err.Error())
+		return nil, err
 	}
 	if len(matches) == 0 {
 		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
-- 
2.43.0


From a6af4842c6318d777c80f071056a2d355716f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 25/37] fix: kanils puts all bytes of a file

A read shorter than the buffer made the next reads overwrite what was read
before, and a file that shrank was stored with trailing zeros.
---
 cmd/kanils/main.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..d9a7cb5 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -346,17 +346,8 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
-- 
2.43.0


From 4c33dff8d792417dc84cff5d35674e9e392eff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 26/37] fix: kanils Dump reports an object it can not read

---
 cmd/kanils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index d9a7cb5..93ddf59 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -143,7 +143,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
-- 
2.43.0


From ea84bd79f553084644b95c06cbcc920bf52239de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 27/37] fix: readup makes one backup at a time, of the moment
 it was requested, and reports failing to start it

---
 cmd/readup/main.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..fa1535d 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync/atomic"
 
 	"io"
 	"os"
@@ -36,7 +37,8 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+//1 while a backup is running
+var backupRuning int32
 
 //put
 type PutRequest struct {
@@ -278,29 +280,38 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
 
+		//the backup has the contents of now, not of the time the worker starts
+		reader, err := store.GetSnapshotReader()
+		if err != nil {
+			atomic.StoreInt32(&backupRuning, 0)
+			c.String(500, err.Error())
+			return
+		}
+
+		//open backup file, name is start time
+		fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
+		backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
+		if err != nil {
+			store.DeleteSnapshot()
+			atomic.StoreInt32(&backupRuning, 0)
+			c.String(500, err.Error())
+			return
+		}
+
 		backupStopper := util.NewStopper()
 		backupStopper.RunWorker(func() {
-			//open backup file, name is start time
-			defer func() {
-				backupRuning = false
-			}()
-
-			reader, err := store.GetSnapshotReader()
-			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
-			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
-			if err != nil {
-				return
-			}
+			defer atomic.StoreInt32(&backupRuning, 0)
+			defer backfile.Close()
+
 			var buf [512 << 10]byte
 			for {
 				select {
 				case <-backupStopper.ShouldStop():
-					backfile.Close()
 					return
 				case <-time.After(100 * time.Millisecond):
 					n, err := reader.Read(buf[:])
@@ -310,7 +321,6 @@ func ServeStore(store *storage.Storage) {
 					}
 					if n == 0 {
 						store.DeleteSnapshot()
-						backfile.Close()
 						return
 					}
 					n, err = backfile.Write(buf[0:n])
@@ -320,6 +330,7 @@ func ServeStore(store *storage.Storage) {
 				}
 			}
 		})
+		c.Status(200)
 	})
 
 	r.POST("/put/*id", func(c *gin.Context) {
-- 
2.43.0


From 281dddbc179d4caa876afbb014076d0e05b03d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 28/37] fix: allocators join the rest of a split free run with
 its next neighbour

---
 storage/allocator/allocator.go      | 3 ++-
 storage/allocator/judy_allocator.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/allocator/allocator.go b/storage/allocator/allocator.go
index 36798ea..cea2126 100644
--- a/storage/allocator/allocator.go
+++ b/storage/allocator/allocator.go
@@ -117,7 +117,8 @@ func (alloc *BtreeDataPortionAlloc) Allocate(size uint16) (free portion.DataPort
 			alloc.deleteFreePortion(p)
 			p, free = p.SlicePart(size)
 			if p.Len() > 0 {
-				alloc.addFreePortion(p)
+				//the shrunken portion may fit together with its next neighbour now
+				alloc.addFreePortion(alloc.mergeFreePortions(p))
 			}
 			isAllocated = true
 			return false
diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index 5ca01bc..be9bb50 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -181,7 +181,8 @@ func (alloc *JudyPortionAlloc) Allocate(size uint16) (free portion.DataPortion,
 			alloc.deletePortion(p)
 			p, free = p.SlicePart(size)
 			if p.Len() > 0 {
-				alloc.addPortion(p)
+				//the shrunken portion may fit together with its next neighbour now
+				alloc.addPortion(alloc.mergeFreePortions(p))
 			}
 			alloc.updateMaxSegmentSize()
 			return free, nil
-- 
2.43.0


From 46c86df08ed05bee5321944a3f295336e26eaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 29/37] fix: a header with another header size is refused

---
 nvm/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nvm/header.go b/nvm/header.go
index 0c533a1..d9ee7f3 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -87,6 +87,8 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 	var headerSize uint16
 	if err := binary.Read(reader, binary.BigEndian, &headerSize); err != nil {
 		return nil, errors.Wrap(internalerror.InvalidInput, "read header size failed")
+	} else if headerSize != HEADER_SIZE {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "header size not match: %v", headerSize)
 	}
 
 	reader = io.LimitReader(reader, int64(headerSize))
-- 
2.43.0


From d6bdb320654d7ad267a7d07d2607ebf726341135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 30/37] fix: reading nothing from the journal write buffer
 never panics

---
 storage/journal/nvm_buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index c619c77..1d74450 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -70,6 +70,9 @@ func (jb *JournalNvmBuffer) Seek(offset int64, whence int) (int64, error) {
 
 //Direct Read
 func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	if jb.isDirty(jb.position, len(buf)) {
 		//trigger flush
 		if err := jb.flushWriteBuffer(); err != nil {
@@ -94,7 +97,7 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	}
 
 	start := jb.position - readBufStart
-	if uint64(innerReadSize) <= start && len(buf) > 0 {
+	if uint64(innerReadSize) <= start {
 		return 0, io.EOF
 	}
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
-- 
2.43.0


From ad3589534638904d968527b3a3314bfe582b488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 31/37] fix: blocks are reused only after the record that
 released them has left the write buffer

---
 storage/data_region.go |  9 +++++++++
 storage/storage.go     | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index c21045e..95dec85 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -26,6 +26,8 @@ type DataRegion struct {
 	allocator  allocator.DataPortionAlloc
 	nvm        nvm.NonVolatileMemory
 	block_size block.BlockSize
+	//called with newly allocated blocks before they are written, could be nil
+	beforeWrite func(portion.DataPortion) error
 }
 
 func NewDataRegion(alloc allocator.DataPortionAlloc, nvm nvm.NonVolatileMemory) *DataRegion {
@@ -73,6 +75,13 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 		return portion.DataPortion{}, err
 	}
 
+	if region.beforeWrite != nil {
+		if err = region.beforeWrite(data_portion); err != nil {
+			region.Release(data_portion)
+			return portion.DataPortion{}, err
+		}
+	}
+
 	//Aligned
 	data.Inner.AlignResize(size)
 
diff --git a/storage/storage.go b/storage/storage.go
index 5eaab88..6137082 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -32,6 +32,7 @@ const (
 	MINOR_VERSION           uint16 = 1
 	MAX_JOURNAL_REGION_SIZE uint64 = (1 << 40) - 1
 	MAX_DATA_REGION_SIZE    uint64 = MAX_JOURNAL_REGION_SIZE * uint64(block.MIN)
+	MAX_UNFLUSHED_PORTIONS         = 0x1000
 )
 
 type Storage struct {
@@ -45,6 +46,8 @@ type Storage struct {
 	alloc                 allocator.DataPortionAlloc
 	updateCapacityStopper *util.Stopper
 	opened                bool
+	//blocks whose release may not be in the journal file yet, protected by jr
+	unflushed []portion.DataPortion
 }
 
 type StorageUsage struct {
@@ -126,6 +129,8 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		opened:                true,
 	}
 
+	dataRegion.beforeWrite = s.flushReleased
+
 	//RunWorker == go func()
 	s.updateCapacityStopper.RunWorker(func() {
 		updateUsageInfo(s)
@@ -574,10 +579,28 @@ func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated b
 
 func (store *Storage) releasePortion(p portion.Portion) {
 	if v, ok := p.(portion.DataPortion); ok {
+		store.unflushed = append(store.unflushed, v)
 		store.dataRegion.Release(v)
 	}
 }
 
+//Blocks could be written again only if the record which released them is in the journal file,
+//or after a crash their previous owner would come back with the data of others
+func (store *Storage) flushReleased(p portion.DataPortion) error {
+	store.jr.Lock()
+	defer store.jr.Unlock()
+	//do not let the list grow forever
+	if len(store.unflushed) >= MAX_UNFLUSHED_PORTIONS {
+		return store.journalFlush()
+	}
+	for _, r := range store.unflushed {
+		if r.Start.AsU64() < p.End() && p.Start.AsU64() < r.End() {
+			return store.journalFlush()
+		}
+	}
+	return nil
+}
+
 // padding payload with necessary zeros before and after, return:
 // [0: startOffset) + [startOffset, startOffset+len(payload)) + [startOffset+len(payload), reservation)
 // prefix zero        payload                                   suffix zero
@@ -738,11 +761,20 @@ func (store *Storage) Flush() {
 	if !store.opened {
 		return
 	}
-	store.journalRegion.Flush()
+	store.journalFlush()
+}
+
+func (store *Storage) journalFlush() error {
+	if err := store.journalRegion.Flush(); err != nil {
+		return err
+	}
+	store.unflushed = nil
+	return nil
 }
 
 func (store *Storage) journalSync() {
 	store.journalRegion.Sync()
+	store.unflushed = nil
 }
 
 func (store *Storage) Close() {
-- 
2.43.0


From d8a14d51ab705c3eb025094b687347a860b5bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 32/37] fix: kanils Resize refuses a size the header can not
 describe

---
 cmd/kanils/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index 93ddf59..d7acdf0 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -65,6 +65,9 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
+	if newSize > nvm.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is bigger than the maximum size %d", newSize, nvm.MAX_DATA_REGION_SIZE)
+	}
 	fmt.Printf("setting new size to %d\n", newSize)
 	header.DataRegionSize = newSize
 
-- 
2.43.0


From 3d461787a992e0796e4aabab5f513563d37b1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 33/37] fix: kanils Resize keeps an existing snapshot unchanged

---
 cmd/kanils/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index d7acdf0..51effad 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -60,7 +60,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if err != nil {
 		return err
 	}
-	defer fileNVM.Close()
+	//an existing snapshot must keep the old header
+	snapNVM, err := nvm.NewSnapshotNVM(fileNVM)
+	if err != nil {
+		fileNVM.Close()
+		return err
+	}
+	defer snapNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
@@ -79,10 +85,10 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), fileNVM.BlockSize())
 	alignedBufHead.Align()
 	//now headBuf's len should be at least 512
-	if _, err = fileNVM.Seek(0, io.SeekStart); err != nil {
+	if _, err = snapNVM.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 996c0e668556aa6ef105c042beb586b540329cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 34/37] fix: a snapshot saves only what was there when it was
 created

---
 nvm/snapnvm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 534bde7..bb77dc3 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -679,10 +679,15 @@ func (self *SnapNVM) Unlock() {
 //positional reads only: raw SnapNVM shares its cursor with originFile
 func (self *SnapNVM) copyOnWrite(start uint64, size uint64) error {
 	raw := self.rawSnapNVM
-	if raw.myBackfile == nil || size == 0 || start >= self.originFile.ViewEnd() {
+	if raw.myBackfile == nil {
 		return nil
 	}
+	//what is behind rawCapacity was not there when the snapshot was created
 	end := util.Min(start+size, self.originFile.ViewEnd())
+	end = util.Min(end, raw.myBackfile.rawCapacity)
+	if start >= end {
+		return nil
+	}
 	_, onOrigin := raw.myBackfile.GetCopyOffset(start, end)
 	for i := 0; i < len(onOrigin); i++ {
 		//although n could be less than regionSize at the end of file, we still write
-- 
2.43.0


From b0e2927fc4f14b85d7685c6a7391e2886e279623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 35/37] fix: of several callers creating one store at a time
 only one succeeds

---
 nvm/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index 9056584..d8dd7af 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -45,7 +45,8 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	//exclusively: of several callers creating the same file, only one may initialize it
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
-- 
2.43.0


From bd72339ea0717400a3d14f43f8264fd3a7bea56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 36/37] fix: closing a store releases the memory of its
 snapshot's region table

---
 nvm/snapnvm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index bb77dc3..fa42985 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -276,6 +276,7 @@ func (bf *BackingFile) Close() {
 	bf.Lock()
 	defer bf.Unlock()
 	bf.file.Close()
+	bf.tree.Free()
 }
 
 func (bf *BackingFile) Sync() error {
-- 
2.43.0


From 4ea6c71fdf903527bfb2b5ff5d9486a48a0fdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 37/37] fix: a damaged snapshot file is refused with an error
 when a store is opened

---
 nvm/snapnvm.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index fa42985..99acfdb 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -72,22 +72,21 @@ func (entry BitmapEntry) WriteTo(writer io.Writer) (err error) {
 	return
 }
 
-func ReadRecordFrom(reader io.Reader) BitmapEntry {
-	var buf [4]byte
+func ReadRecordFrom(reader io.Reader) (BitmapEntry, error) {
+	var buf [12]byte
 	if _, err := io.ReadFull(reader, buf[:]); err != nil {
-		panic("can not read from disk: from ReadRecordFrom")
-	}
-	checksum := binary.BigEndian.Uint32(buf[:])
-	var originOffset uint32
-	var snapOffset uint32
-	binary.Read(reader, binary.BigEndian, &originOffset)
-	binary.Read(reader, binary.BigEndian, &snapOffset)
-	bitmap := BitmapEntry{OriginOffset: originOffset, SnapOffset: snapOffset}
+		return BitmapEntry{}, errors.Wrap(err, "can not read from disk: from ReadRecordFrom")
+	}
+	checksum := binary.BigEndian.Uint32(buf[:4])
+	bitmap := BitmapEntry{
+		OriginOffset: binary.BigEndian.Uint32(buf[4:8]),
+		SnapOffset:   binary.BigEndian.Uint32(buf[8:]),
+	}
 	//check entry's crc
 	if bitmap.CheckSum() != checksum {
-		panic("check sum failed")
+		return BitmapEntry{}, errors.Wrap(internalerror.StorageCorrupted, "check sum failed")
 	}
-	return bitmap
+	return bitmap, nil
 }
 
 func (self *BackingFileHeader) WriteTo(writer io.Writer) (err error) {
@@ -466,10 +465,16 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
 	if _, err = file.Seek(512, io.SeekStart); err != nil {
-		panic("seek failed")
+		file.Close()
+		return nil, err
 	}
 	for i := uint64(0); i < n; i++ {
-		entry := ReadRecordFrom(file)
+		entry, err := ReadRecordFrom(file)
+		if err != nil {
+			file.Close()
+			tree.Free()
+			return nil, err
+		}
 		entryDataEnd := dataStart + uint64(entry.SnapOffset+1)*(1<<header.RegionShift)
 		dataEnd = util.Max(dataEnd, entryDataEnd)
 		//fmt.Printf("entry %d %d\n", entry.OriginOffset, entry.SnapOffset)
-- 
2.43.0

