From e44268c26ab8c19371abf423b62a2ffea8e20f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 01/49] fix: copy unaligned bytes to the aligned start of the
 new buffer

FromBytes copied into the raw buffer instead of its aligned window, so the
content was shifted (and its tail lost) whenever the allocation was not
already aligned; an empty slice panicked.
---
 block/aligned_bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..ceb11eb 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,11 +61,14 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
+	if len(src) == 0 {
+		return NewAlignedBytes(0, blockSize), true
+	}
 	a := alignment(src, blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From d0e80e003f21310fca2388adf01af250dabdf6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 02/49] fix: never shrink the journal write buffer

A write that ends before the end of the buffered range shrank the buffer,
dropping pending bytes, and then underflowed the length difference and
panicked.
---
 storage/journal/nvm_buffer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..6a32131 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -121,9 +121,12 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		end := uint32(start) + uint32(len(buf))
 
 		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
+		//a rewrite inside the buffer must not drop the bytes behind it
+		if uint64(end) > oldLen {
+			jb.writeBuf.AlignResize(end)
+		}
 
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
+		if uint64(jb.writeBuf.Len()) > oldLen {
 			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
 			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
 		}
-- 
2.43.0


From 9beb3a62b018282b6ee220aeb228f7c51f0c3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 03/49] fix: keep the lump count exact

Overwriting an id (also when journal GC moves an embedded record) counted it
twice, and deleting an absent id (replaying a journal does) counted it down.
---
 lumpindex/lump_index.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..9e458e8 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,30 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
+	index.insert(id, n)
+}
+
+//only a new id changes the count, an overwrite does not
+func (index *LumpIndex) insert(id lump.LumpId, n uint64) {
+	_, exist := index.tree.Get(id.U64())
 	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	if !exist {
+		atomic.AddUint64(&index.counts, 1)
+	}
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
-	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	ok := index.tree.Delete(id.U64())
+	if ok {
+		atomic.AddUint64(&index.counts, ^uint64(0))
+	}
+	return ok
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From 0ff76f77ed990d6c872a0d551e36ac706301edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 04/49] fix: range reads and offset updates across block
 boundaries

The number of blocks ignored the offset inside the first block, so ranges
crossing a block boundary were read or written truncated or panicked, the
size check looked at the wrong block, offsets near 2^32 overflowed, device
write errors were dropped, and ranges beyond an embedded object panicked.
---
 storage/data_region.go | 102 ++++++++++++++++++++++++-----------------
 storage/storage.go     |   3 ++
 2 files changed, 64 insertions(+), 41 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..45cf9be 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -127,42 +127,69 @@ func (region *DataRegion) readBlocks(readOffset int64, blockCount int) ([]byte,
 	return ab.AsBytes(), nil
 }
 
+//readRange reads the blocks which cover [startOffset, startOffset + length) of the
+//object. The range must lie inside the portion. If the range may reach the end of
+//the object, the last block is read as well, and objectSize is the size of the
+//object; otherwise objectSize is an upper bound of the range.
+//thread-safe
+func (region *DataRegion) readRange(dataPortion portion.DataPortion,
+	startOffset uint32, length uint32) (data []byte, readOffset uint64, objectSize uint32, err error) {
+
+	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
+
+	//both are offsets inside the portion
+	start := region.block_size.FloorAlign(uint64(startOffset))
+	end := region.block_size.CeilAlign(uint64(startOffset) + uint64(length))
+
+	//padding is less than a block, so the object can not end before this offset
+	var atLeast uint32 = 0
+	if maxTail := region.block_size.AsU32() - 1 + LUMP_DATA_TRAILER_SIZE; onDiskSize > maxTail {
+		atLeast = onDiskSize - maxTail
+	}
+	needSize := uint64(startOffset)+uint64(length) > uint64(atLeast)
+	if needSize {
+		end = uint64(onDiskSize)
+	}
+	readOffset = offset + start
+	if end > start {
+		data, err = region.readBlocks(int64(readOffset), int((end-start)/uint64(region.block_size.AsU16())))
+		if err != nil {
+			return nil, 0, 0, err
+		}
+	}
+	objectSize = atLeast
+	if needSize {
+		objectSize = onDiskSize - LUMP_DATA_TRAILER_SIZE - uint32(util.GetUINT16(data[len(data)-2:]))
+	}
+	return data, readOffset, objectSize, nil
+}
+
 //thread safe
 func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
-	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	_, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
+	end := uint64(startOffset) + uint64(len(payload))
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
-	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
-	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+	data, readOffset, objectSize, err := region.readRange(dataPortion, startOffset, uint32(len(payload)))
 	if err != nil {
 		return err
 	}
+	if end > uint64(objectSize) {
+		return errors.Wrap(internalerror.InvalidInput,
+			"object reserved capacity exceeded")
+	}
+	if len(payload) == 0 {
+		return nil
+	}
 	prefixPadding := startOffset % region.block_size.AsU32()
 	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
-			return errors.Wrap(internalerror.InvalidInput,
-				"object reserved capacity exceeded")
-		}
-	}
 
-	/*
-		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
-		if err != nil {
-			return err
-		}
-		// data is already aligned since it's returned from AlignedBytes
-		_, err = region.nvm.Write(data)
-	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	// data is already aligned since it's returned from AlignedBytes
+	_, err = region.nvm.WriteAt(data, int64(readOffset))
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 	return err
@@ -241,35 +268,28 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 	startOffset uint32, length uint32) ([]byte, error) {
 
-	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
+	_, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	if uint64(startOffset)+uint64(length) > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
-	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
-	prefixPadding := startOffset % region.block_size.AsU32()
-
-	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+	data, _, objectSize, err := region.readRange(dataPortion, startOffset, length)
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
-	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
+	if startOffset > objectSize {
 		return nil, errors.Wrap(internalerror.InvalidInput,
 			"startOffset > object length")
 	}
+	//do not return the padding behind the object
+	length = util.Min32(length, objectSize-startOffset)
+	prefixPadding := startOffset % region.block_size.AsU32()
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	if length == 0 {
+		return []byte{}, nil
+	}
+	return data[prefixPadding : prefixPadding+length], nil
 }
diff --git a/storage/storage.go b/storage/storage.go
index bac392b..e8df675 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -462,6 +462,9 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
+		if uint64(startOffset)+uint64(length) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
+		}
 		return data[startOffset : startOffset+length], nil
 	default:
 		panic("never here")
-- 
2.43.0


From 678409b5d70bdeddf2e5a20a2dd0ea90b42a2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 05/49] fix: refuse too large lumps, release blocks of a failed
 data write

A lump above the maximum size overflowed the 16 bit block count and panicked
after allocating, a failed device write leaked the allocated blocks, and a
failed put left the caller's data padded so that a retry stored the padding.
---
 storage/data_region.go | 18 +++++++++++++++---
 storage/storage.go     |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 45cf9be..c738b9d 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -59,7 +59,12 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
 //thread-safe
 func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
-	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
+	if data.Inner == nil || data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump is too big")
+	}
+
+	dataLen := data.Inner.Len()
+	size := dataLen + LUMP_DATA_TRAILER_SIZE
 
 	//Aligned
 	data.Inner.AlignResize(size)
@@ -79,6 +84,8 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	region.Unlock()
 
 	if err != nil {
+		//give the data back as it was, the caller may try it again
+		data.Inner.Resize(dataLen)
 		return portion.DataPortion{}, err
 	}
 
@@ -96,12 +103,17 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	if _, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset)); err != nil {
+		//nothing refers to the portion, so do not leak it
+		region.Release(data_portion)
+		data.Inner.Resize(dataLen)
+		return portion.DataPortion{}, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return data_portion, nil
 }
 
 //thread-safe
diff --git a/storage/storage.go b/storage/storage.go
index e8df675..d892fb8 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -542,6 +542,9 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	if err != nil {
 		// Only one error possible, which is "object could not be found",
 		// meaning this is a new object. Padding necessary zeros and call `put`
+		if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE || reservation > lump.LUMP_MAX_SIZE {
+			return errors.Wrap(internalerror.InvalidInput, "lump is too big")
+		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-- 
2.43.0


From dd20cfdf7d2c3f8c3f0d18480b45b6cfdac1c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 06/49] fix: largest segment of a full store is zero

Without any free block the computation underflowed and reported the maximum
lump size as allocatable.
---
 storage/storage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index d892fb8..6b89fd2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -263,13 +263,18 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	//no lump at all fits when there is no free block
+	var maxSegmentSize uint64 = 0
+	if n := store.alloc.MaxSegmentSize(); n > 0 {
+		maxSegmentSize = n*blockSize - LUMP_DATA_TRAILER_SIZE
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, maxSegmentSize),
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
-- 
2.43.0


From a87ed20f68fcb1352fa5820ee2c91210444ca425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 07/49] fix: do not ignore device read errors in the journal
 write buffer

A sector which could not be read was filled with leftover bytes of the buffer
and written back over its stored records.
---
 storage/journal/nvm_buffer.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 6a32131..895fe49 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -127,8 +127,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		}
 
 		if uint64(jb.writeBuf.Len()) > oldLen {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+			if err := jb.load(oldLen); err != nil {
+				jb.writeBuf.Truncate(uint32(oldLen))
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -152,8 +154,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.load(0); err != nil {
+				jb.writeBuf.Truncate(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -161,6 +165,17 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//load fills the write buffer behind its first "from" bytes with the stored data
+func (jb *JournalNvmBuffer) load(from uint64) error {
+	if _, err := jb.nvm.Seek(int64(jb.writeBufOffset+from), io.SeekStart); err != nil {
+		return err
+	}
+	if _, err := jb.nvm.Read(jb.writeBuf.AsBytes()[from:]); err != nil && err != io.EOF {
+		return err
+	}
+	return nil
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
-- 
2.43.0


From 8836d1d1ac97af072f97d724fba55a8af4446b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 08/49] fix: never leave the journal without its end when it
 wraps or a write fails

The end of the previous lap was overwritten by the first record at the front
before its own end record was there, and the position advanced although the
record was not written.
---
 storage/journal/ring_buffer.go | 42 +++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..15bb077 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -97,11 +97,21 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//2. check overflow
 	if ring.isOverFlow(record) {
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+		//the record goes to the front, so it must fit in there
+		if ring.nvm.BlockSize().CeilAlign(uint64(record.ExternalSize())+END_OF_RECORDS_SIZE) > ring.unreleasedHead {
+			err = internalerror.JournalStorageFull
 			return
 		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
+
+		//The front still holds old records: end them on the device
+		//before GoToFront can lead there
+		if err = ring.writeAt(0, EndOfRecords{}); err != nil {
+			return
+		}
+		if err = ring.nvm.Sync(); err != nil {
+			return
+		}
+		if err = ring.writeAt(ring.tail, GoToFront{}); err != nil {
 			return
 		}
 
@@ -112,17 +122,16 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//3. write data
 	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-		return
-	}
-	if err = record.WriteTo(ring.nvm); err != nil {
-		return
+	if err = ring.writeAt(preTail, record); err == nil {
+		newTail := ring.nvm.Position()
+		//4. write End OF Record
+		if err = ring.writeAt(newTail, EndOfRecords{}); err == nil {
+			ring.tail = newTail
+		}
 	}
-	ring.tail = ring.nvm.Position()
-
-	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	if err != nil {
+		//the journal still ends here
+		ring.writeAt(preTail, EndOfRecords{})
 		return
 	}
 
@@ -135,6 +144,13 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+func (ring *JournalRingBuffer) writeAt(position uint64, record JournalRecord) error {
+	if _, err := ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
+		return err
+	}
+	return record.WriteTo(ring.nvm)
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
-- 
2.43.0


From 0e94ecaea073cfdf0128754b8b74dc9e4665d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 09/49] fix: journal GC must not lose live records when the
 journal is full or crashes

A live record that could not be appended again was dropped from the queue and
then released. The head moved past records before their copies were durable.
A full journal is reclaimed before an append gives up.
---
 storage/journal/region.go | 77 ++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..be2057f 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -145,10 +145,19 @@ func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record Jo
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
 
-	if err = journal.append(index, record); err != nil {
+	err = journal.append(index, record)
+	//the first round may only have finished the current gcQueue
+	for i := 0; i < 2 && err == internalerror.JournalStorageFull && journal.gcAfterAppend; i++ {
+		if !journal.reclaim(index) {
+			break
+		}
+		err = journal.append(index, record)
+	}
+	if err != nil {
 		return err
 	}
 	if journal.gcAfterAppend {
+		//the record is in the journal. GC goes on later if it fails now
 		journal.gcOnce(index)
 	}
 	journal.trySync()
@@ -198,7 +207,8 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+//if a live record can not be appended again, it stays in the queue
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
@@ -209,7 +219,9 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 
 			if journal.isGarbage(index, entry) == false {
 				record := entry.Record
-				journal.append(index, record)
+				if err = journal.append(index, record); err != nil {
+					journal.gcQueue.PushFront(entry)
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -235,12 +247,45 @@ ENDFOR:
 			journal.ring.ReleaseBytesUntil(head)
 		}
 	*/
-
+	return
 }
 
-func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+//release the records in front of the first one which is still in gcQueue.
+//The live ones were appended again, these copies and then the new head must be
+//durable before the old records can be overwritten
+func (journal *JournalRegion) writeUnusedJournalHeader() error {
+	head := journal.ring.Head()
+	if front := journal.gcQueue.Front(); front != nil {
+		head = front.(JournalEntry).Start.AsU64()
+	}
+	if err := journal.ring.Sync(); err != nil {
+		return err
+	}
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		return err
+	}
+	if err := journal.ring.Sync(); err != nil {
+		return err
+	}
 	journal.ring.ReleaseBytesUntil(head)
+	return nil
+}
+
+//make room in a full journal, return false if nothing could be released
+func (journal *JournalRegion) reclaim(index *lumpindex.LumpIndex) bool {
+	before := journal.ring.unreleasedHead
+	if journal.gcQueue.Len() == 0 {
+		journal.fillGCQueue()
+	}
+	for journal.gcQueue.Len() != 0 {
+		if err := journal.gcOnce(index); err != nil {
+			break
+		}
+	}
+	if err := journal.writeUnusedJournalHeader(); err != nil {
+		return false
+	}
+	return journal.ring.unreleasedHead != before
 }
 
 func (journal *JournalRegion) fillGCQueue() {
@@ -250,10 +295,9 @@ func (journal *JournalRegion) fillGCQueue() {
 		return
 	}
 
-	if err = journal.ring.Flush(); err != nil {
+	if err = journal.writeUnusedJournalHeader(); err != nil {
 		panic(fmt.Sprintf("fillGCQueue %+v", err))
 	}
-	journal.writeUnusedJournalHeader(journal.ring.head)
 
 	var i int
 	i = 0
@@ -353,10 +397,14 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+//return false if the journal is so full that some entries stay in the queue
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) bool {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if err := journal.gcOnce(index); err != nil && !journal.reclaim(index) {
+			return false
+		}
 	}
+	return true
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -378,20 +426,23 @@ func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []Journa
 //maybe sync
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 	tail := journal.ring.Tail()
-	for {
+	//finish the current queue first, the entries behind it are left
+	done := journal.gcAllEntriesInQueue(index)
+	for done {
 		before_head := journal.ring.Head()
 
 		if journal.gcQueue.Len() == 0 {
 			journal.fillGCQueue()
 		}
 
-		journal.gcAllEntriesInQueue(index)
+		done = journal.gcAllEntriesInQueue(index)
 
 		if between(before_head, tail, journal.ring.Head()) {
 			break
 		}
 	}
-	journal.writeUnusedJournalHeader(journal.ring.Head())
+	//nothing is released if it fails
+	journal.writeUnusedJournalHeader()
 	//assert head == unreleased_head
 	//journal.headerRegion.WriteTo(journal.ring.Head())
 	//journal.Sync()
-- 
2.43.0


From 0d5d5a1d703ccec6a1bfdeb83a754a5efa1a4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 10/49] fix: update the index together with the journal record,
 before GC runs

GC after the append dropped the just written put record as garbage, or moved
records of lumps in a deleted range behind the range record. A delete whose
record could not be written was still applied in memory and reappeared.
---
 storage/journal/region.go | 12 ++++++---
 storage/storage.go        | 52 +++++++++++++++------------------------
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index be2057f..a040524 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -132,11 +132,17 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
-	//because journal GC start after append, to prevent to be GCed
+	//we should update the index as well, because journal GC starts after append:
+	//a new record must not look like garbage, and what it replaces must
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRecord:
+		index.Delete(v.LumpID)
+	case DeleteRange:
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
@@ -340,7 +346,7 @@ func (journal *JournalRegion) trySync() {
 	}
 }
 
-//Write Journal, Update Index
+//Write Journal, Update Index. If it fails, both are as before
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
diff --git a/storage/storage.go b/storage/storage.go
index 6b89fd2..d7acfe2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -496,12 +496,6 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
-	if int64(lumpdata.Inner.Len()) == 1 {
-
-		panic("FUCK")
-	}
 	return
 }
 
@@ -602,15 +596,16 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
 	if doRecord {
 		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
+		err = store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+		if err != nil {
+			return false, 0, err
+		}
+	} else if ok := store.index.Delete(lumpid); ok == false {
+		//Because previous Get is ok, this Delete will surely success
+		panic("Delete after Get failed, something bad happend")
 	}
 
 	var releasedSize uint32
@@ -719,24 +714,21 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 		return internalerror.StorageClosed
 	}
 	store.jr.Lock()
-	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
-	store.jr.Unlock()
-	if err != nil {
-		return err
-	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
-		switch v := p.(type) {
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
+	defer store.jr.Unlock()
+	var released []portion.DataPortion
+	store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
+		if v, ok := p.(portion.DataPortion); ok {
+			released = append(released, v)
 		}
 		return nil
-
 	})
+	if err := store.journalRegion.RecordDeleteRange(store.index, start, end); err != nil {
+		return err
+	}
+	for _, v := range released {
+		store.dataRegion.Release(v)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
@@ -806,9 +798,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From 4527b284e3552dd55e2590430391888235d5e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 11/49] fix: GC must recognize old put records of a lump that
 got the same portion again

They looked live and were all appended again, so a journal with few live
records became full.
---
 storage/journal/region.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index a040524..ab392c6 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -305,10 +305,11 @@ func (journal *JournalRegion) fillGCQueue() {
 		panic(fmt.Sprintf("fillGCQueue %+v", err))
 	}
 
-	var i int
-	i = 0
+	entries := make([]JournalEntry, 0, GC_QUEUE_SIZE)
+	//the last of the entries about each lump
+	last := make(map[lump.LumpId]int)
 	iter := journal.ring.DequeueIter()
-	for i < GC_QUEUE_SIZE {
+	for len(entries) < GC_QUEUE_SIZE {
 		entry, err := iter.PopFront()
 		//fmt.Printf("read entry: %+v, err: %+v\n", entry, err)
 		if err == internalerror.NoEntries {
@@ -317,8 +318,21 @@ func (journal *JournalRegion) fillGCQueue() {
 		if err != nil {
 			panic(fmt.Sprintf("Journal failed to read entries %+v", err))
 		}
+		switch record := entry.Record.(type) {
+		case PutRecord:
+			last[record.LumpID] = len(entries)
+		case EmbedRecord:
+			last[record.LumpID] = len(entries)
+		}
+		entries = append(entries, entry)
+	}
+	for i, entry := range entries {
+		//The others are garbage. The index can not tell this if a lump gets the
+		//same portion again
+		if record, ok := entry.Record.(PutRecord); ok && last[record.LumpID] != i {
+			continue
+		}
 		journal.gcQueue.PushBack(entry)
-		i++
 	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.GcQueueSize.M(int64(journal.gcQueue.Len())))
-- 
2.43.0


From 39f3ee18f75f046c1d56eae61668c6b2e84f8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 12/49] fix: put writes the new data before it replaces the old
 value

A failed or interrupted overwrite lost the old value, blocks were reused while
the journal on disk still referred to them, puts were not checked against close
or concurrent creation, and close could deadlock with other operations.
---
 storage/storage.go | 195 ++++++++++++++++++++++++++++-----------------
 1 file changed, 121 insertions(+), 74 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index d7acfe2..c5ae420 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/pkg/errors"
@@ -44,6 +45,10 @@ type Storage struct {
 	alloc                 allocator.DataPortionAlloc
 	updateCapacityStopper *util.Stopper
 	opened                bool
+	//data portions which no lump uses any more, protected by jr. The journal on the
+	//device may still refer to them, so they are kept until it is synced
+	pendingRelease []portion.DataPortion
+	pendingBlocks  uint64 //atomic
 }
 
 type StorageUsage struct {
@@ -272,7 +277,7 @@ func (store *Storage) Usage() StorageUsage {
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
-		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
+		DataFreeBytes:     (store.alloc.FreeCount() + atomic.LoadUint64(&store.pendingBlocks)) * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
 		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, maxSegmentSize),
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
@@ -477,34 +482,79 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
-	dataPortion, err := store.dataRegion.Put(lumpdata)
-	if err != nil {
-		return
+//write the data and then the journal record. If onlyNew is set and the lump exists,
+//nothing is changed and updated is true
+func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData, onlyNew bool) (updated bool, err error) {
+	store.i.RLock()
+	if !store.opened {
+		store.i.RUnlock()
+		return false, internalerror.StorageClosed
+	}
+	dataPortion, putErr := store.dataRegion.Put(lumpdata)
+	store.i.RUnlock()
+	if putErr != nil && errors.Cause(putErr) != internalerror.StorageFull {
+		return false, putErr
 	}
 
 	store.i.Lock()
 	defer store.i.Unlock()
-
 	store.jr.Lock()
-	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
-	store.jr.Unlock()
+	defer store.jr.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
 
-	if err != nil {
+	old, err := store.index.Get(lumpid)
+	updated = err == nil
+	if updated && onlyNew {
+		if putErr == nil {
+			store.dataRegion.Release(dataPortion)
+		}
+		return true, nil
+	}
+
+	if putErr != nil && len(store.pendingRelease) > 0 {
+		store.journalSync()
+		dataPortion, putErr = store.dataRegion.Put(lumpdata)
+	}
+	if v, ok := old.(portion.DataPortion); ok && putErr != nil {
+		//the space of the old data is the last resort
+		if err = store.journalRegion.RecordDelete(store.index, lumpid); err != nil {
+			return false, err
+		}
+		old = nil
+		store.releaseLater(v)
+		store.journalSync()
+		dataPortion, putErr = store.dataRegion.Put(lumpdata)
+	}
+	if putErr != nil {
+		return updated, putErr
+	}
+
+	if err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
 		// revert the dataPortion
 		store.dataRegion.Release(dataPortion)
-		return
+		return updated, err
 	}
+	store.releaseLater(old)
+	return updated, nil
+}
 
-	return
+//jr must be locked
+func (store *Storage) releaseLater(p portion.Portion) {
+	v, ok := p.(portion.DataPortion)
+	if !ok {
+		return
+	}
+	store.pendingRelease = append(store.pendingRelease, v)
+	atomic.AddUint64(&store.pendingBlocks, uint64(v.Len))
+	if len(store.pendingRelease) >= journal.SYNC_INTERVAL {
+		store.journalSync()
+	}
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
-	}
-	return updated, store.put(lumpid, lumpdata)
+	return store.put(lumpid, lumpdata, false)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -529,62 +579,74 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
-	if !store.opened {
-		store.i.RUnlock()
-		return internalerror.StorageClosed
-	}
-	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	payload := lumpdata.AsBytes()
 
-	if err != nil {
-		// Only one error possible, which is "object could not be found",
-		// meaning this is a new object. Padding necessary zeros and call `put`
+	for {
+		exist, err := store.update(lumpid, payload, startOffset)
+		if exist || err != nil {
+			return err
+		}
+
+		// this is a new object. Padding necessary zeros and call `put`
 		if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE || reservation > lump.LUMP_MAX_SIZE {
 			return errors.Wrap(internalerror.InvalidInput, "lump is too big")
 		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		exist, err = store.put(lumpid, lump.NewLumpDataWithAb(data), true)
+		if !exist || err != nil {
+			return err
+		}
+		// another one created it in the meantime
 	}
+}
 
-	// update exist object; `reservation` is ignored in this case
+// update exist object
+func (store *Storage) update(lumpid lump.LumpId, payload []byte, startOffset uint32) (exist bool, err error) {
+	store.i.Lock()
+	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	p, err := store.index.Get(lumpid)
+	if err != nil {
+		// Only one error possible, which is "object could not be found"
+		return false, nil
+	}
 
 	switch v := p.(type) {
 	case portion.DataPortion:
-		return store.dataRegion.Update(v, startOffset, payload)
+		return true, store.dataRegion.Update(v, startOffset, payload)
 	case portion.JournalPortion:
 		// TODO?
-		return errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
+		return true, errors.Wrap(internalerror.InvalidInput, "embedt object does not support update")
 	default:
 		panic("never here")
 	}
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, err := store.index.Get(lumpid)
+	updated = err == nil
+	if err = store.journalRegion.RecordEmbed(store.index, lumpid, data); err != nil {
+		return updated, err
+	}
+	store.releaseLater(old)
+	return updated, nil
 }
 
 func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
-	return
-}
-
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
-
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return false, 0, internalerror.StorageClosed
 	}
@@ -596,40 +658,18 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	if doRecord {
-		store.jr.Lock()
-		err = store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-		if err != nil {
-			return false, 0, err
-		}
-	} else if ok := store.index.Delete(lumpid); ok == false {
-		//Because previous Get is ok, this Delete will surely success
-		panic("Delete after Get failed, something bad happend")
+	if err = store.journalRegion.RecordDelete(store.index, lumpid); err != nil {
+		return false, 0, err
 	}
-
-	var releasedSize uint32
+	store.releaseLater(p)
 
 	switch v := p.(type) {
 	case portion.DataPortion:
-		releasedSize = uint32(v.Len) * uint32(store.innerNVM.BlockSize().AsU16())
-		store.dataRegion.Release(v)
+		size = uint32(v.Len) * uint32(store.innerNVM.BlockSize().AsU16())
 	case portion.JournalPortion:
-		releasedSize = uint32(v.Len)
-
+		size = uint32(v.Len)
 	}
-
-	/*
-		switch v := p.(type) {
-		case portion.JournalPortion:
-			if doRecord {
-				return true, store.journalRegion.RecordDelete(store.index, lumpid)
-			}
-		case portion.DataPortion:
-			store.dataRegion.Release(v)
-		}
-	*/
-	return true, releasedSize, nil
+	return true, size, nil
 }
 
 /*
@@ -675,13 +715,20 @@ func (store *Storage) Flush() {
 
 func (store *Storage) journalSync() {
 	store.journalRegion.Sync()
+
+	released := store.pendingRelease
+	store.pendingRelease = nil
+	for _, v := range released {
+		atomic.AddUint64(&store.pendingBlocks, ^uint64(v.Len-1))
+		store.dataRegion.Release(v)
+	}
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
@@ -726,7 +773,7 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 		return err
 	}
 	for _, v := range released {
-		store.dataRegion.Release(v)
+		store.releaseLater(v)
 	}
 	return nil
 }
-- 
2.43.0


From a51bc3fd18a0e289f84cb48caa2fdf28c10c9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 13/49] fix: keep the index locked while a lump is read

The blocks could be released and reused by another lump in between. Also do not
read the journal of a closed store.
---
 storage/storage.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index c5ae420..2978db7 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -356,6 +356,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
@@ -391,15 +394,14 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//the portion belongs to the lump as long as the lock is held
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
 
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -420,13 +422,13 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 }
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
+	//the portion belongs to the lump as long as the lock is held
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -452,13 +454,13 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 }
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
+	//the portion belongs to the lump as long as the lock is held
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ae2fd7414bbd6246aa2f20f83d0643e9bab0ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 14/49] fix: report the positions of journal entries

---
 storage/journal/ring_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 15bb077..c509121 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -259,6 +259,7 @@ type ReadIter struct {
 
 /* No buffer and update nothing */
 func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
+	start := iter.ring.nvm.Position()
 	record, err := ReadRecordFrom(iter.ring.nvm)
 	if err != nil {
 		return JournalEntry{}, err
@@ -272,7 +273,7 @@ func (iter ReadIter) PopFront() (entry JournalEntry, err error) {
 		return JournalEntry{}, internalerror.NoEntries
 	default:
 		entry = JournalEntry{
-			Start:  address.AddressFromU64(iter.ring.head),
+			Start:  address.AddressFromU64(start),
 			Record: record,
 		}
 		//current = entry.End()
-- 
2.43.0


From d780660b2c0162654b1fb280e9acbaa168b40b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 15/49] fix: continue a backing file behind its last complete
 region

---
 nvm/snapnvm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..73764de 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -442,7 +442,9 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	info, _ := file.Stat()
 	var dataEnd = util.Max(dataStart, uint64(info.Size()))
 
+	//the last region may be incomplete after a crash, it is written again
 	n := (dataEnd - dataStart) >> header.RegionShift
+	dataEnd = dataStart + n<<header.RegionShift
 
 	//fmt.Printf("snapshot number of entry is %d\n", n)
 
-- 
2.43.0


From f0ef66409b4498cd6a6b4081d5741f6ca2f3c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 16/49] fix: read a snapshot region and its origin under the
 lock of the writers

A region could be overwritten after it was found not to be copied yet, and a
reader of a deleted snapshot read another snapshot or crashed.
---
 nvm/snapnvm.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 73764de..0b0e770 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -479,6 +479,7 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 
 type SnapshotReader struct {
 	snap          *SnapNVM
+	backfile      *BackingFile
 	offset        uint64
 	buf           *block.AlignedBytes
 	waterHighMark int
@@ -489,6 +490,7 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
 		snap:          snap,
+		backfile:      snap.myBackfile,
 		buf:           ab,
 		offset:        0,
 		waterHighMark: 0,
@@ -500,8 +502,8 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
 	self.waterHighMark = 0
 	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
+	if offset > int64(self.backfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.backfile.rawCapacity)
 	}
 	switch whence {
 	case 0:
@@ -520,31 +522,35 @@ func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
 //read thread-safe
 func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
+	//a region must not be overwritten while it is read from the origin file
+	self.snap.RLock()
+	defer self.snap.RUnlock()
+	if self.snap.myBackfile != self.backfile {
+		return 0, errors.Errorf("the snapshot was deleted")
+	}
 
-	regionSize := self.snap.myBackfile.RegionSize()
+	regionSize := self.backfile.RegionSize()
 	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
+	if uint64(len(p)) > self.backfile.RegionSize() {
 		panic("Read data too big")
 	}
 	start := self.offset / regionSize * regionSize
-	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
+	maxLen := util.Min(self.backfile.rawCapacity-start, regionSize)
 	//read the whole region size
 	if self.waterHighMark == self.waterLowMark {
 
-		if self.offset == self.snap.myBackfile.rawCapacity {
+		if self.offset == self.backfile.rawCapacity {
 			return 0, io.EOF
 		}
-		onBacking, onOrigin := self.snap.myBackfile.GetCopyOffset(start, start+regionSize)
+		onBacking, onOrigin := self.backfile.GetCopyOffset(start, start+regionSize)
 		/*
 			fmt.Printf("onBacking is %+v, onOrigin is %+v, offset is %d, start is %d\n",
 				onBacking, onOrigin, self.offset, start)
 		*/
 
 		if len(onBacking) == 1 {
-			self.buf.Resize(uint32(self.snap.myBackfile.regionSize))
-			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
+			self.buf.Resize(uint32(self.backfile.regionSize))
+			n, err = self.backfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
 			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
 			if err != nil && err != io.EOF {
 				return -1, err
-- 
2.43.0


From fb656c643d2a523a25c7e4d5e762bb57fd43de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 17/49] fix: keep the backing file beside its store and find no
 other store's one

---
 nvm/snapnvm.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 0b0e770..b2b06e9 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -611,6 +612,31 @@ type SnapNVM struct {
 	rawSnapNVM *SnapNVM
 }
 
+//prefix is the path of the store without .lusf, the backing files are
+//beside the store: prefix_UUID_lusf.snapshot
+func findBackingFiles(prefix string) (matches []string, err error) {
+	dir, err := os.Open(filepath.Dir(prefix))
+	if err != nil {
+		return nil, err
+	}
+	defer dir.Close()
+	names, err := dir.Readdirnames(-1)
+	if err != nil {
+		return nil, err
+	}
+	start, end := filepath.Base(prefix)+"_", "_lusf.snapshot"
+	for _, name := range names {
+		if len(name) < len(start)+len(end) || !strings.HasPrefix(name, start) || !strings.HasSuffix(name, end) {
+			continue
+		}
+		//the store a must not find the backing files of the store a_b
+		if _, err := uuid.FromString(name[len(start) : len(name)-len(end)]); err == nil {
+			matches = append(matches, filepath.Join(filepath.Dir(prefix), name))
+		}
+	}
+	return matches, nil
+}
+
 func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 
 	if originFile.splited {
@@ -622,13 +648,10 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 	///a/b/c/d/EXXX.lusf => EXXX
 	//../../../ASDF.lusf => ASDF
 	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
+	prefix := filepath.Join(fileDirectory, strings.TrimSuffix(baseName, ".lusf"))
+	matches, err := findBackingFiles(prefix)
 	if err != nil {
-		panic(err.Error())
+		return nil, err
 	}
 	if len(matches) == 0 {
 		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
-- 
2.43.0


From 7859cbfddc06b1c122081fe038e31d36babd9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 18/49] fix: no broken or unreadable backing file after a crash
 or a device error

---
 nvm/snapnvm.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index b2b06e9..2d0923a 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -290,6 +290,7 @@ func (bf *BackingFile) Delete() {
 	if err := os.Remove(bf.fileName); err != nil {
 		panic("delete failed")
 	}
+	bf.file.Close()
 }
 
 //give [start, end) of the buf
@@ -385,7 +386,9 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
 	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
-	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
+	//it gets its name when the header is there, so a crash leaves no broken backing file
+	tmpName := fileName + ".tmp"
+	file, err := os.OpenFile(tmpName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -400,7 +403,12 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
-	if err = header.WriteTo(file); err != nil {
+	if err = header.WriteTo(file); err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+	if err != nil {
+		file.Close()
+		os.Remove(tmpName)
 		return nil, err
 	}
 
@@ -424,7 +432,8 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 }
 
 func OpenBackingFile(fileName string) (*BackingFile, error) {
-	file, err := os.OpenFile(fileName, os.O_RDWR, 0755)
+	//an entry must be on the device before its region, as in CreateBackingFile
+	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
@@ -708,8 +717,8 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 		for i := 0; i < len(onOrigin); i++ {
 			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
 			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				return -1, err
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
@@ -742,8 +751,8 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
 			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
 			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				return -1, err
 			}
 			//although n could be less than regionSize at the end of file, we still write
 			//the whole regionSize to backfile
@@ -857,11 +866,11 @@ func (self *SnapNVM) createSnapshotIfNeeded() (err error) {
 	}
 	size := self.originFile.Capacity()
 
-	self.myBackfile, err = CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
-	fmt.Printf("backingfile is %+v\n", self.myBackfile)
+	backfile, err := CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
 	if err != nil {
 		return err
 	}
+	self.myBackfile = backfile
 	regionSize := self.myBackfile.RegionSize()
 	self.ab = block.NewAlignedBytes(int(regionSize), block.Min())
 	return
-- 
2.43.0


From 83029b3504a87c1e39e6cbe0dce8e57718eab4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 19/49] fix: a failed open or create releases the file, create
 never opens an existing one

---
 nvm/file.go        |  4 +++-
 storage/storage.go | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..a312982 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -45,7 +45,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
@@ -74,6 +74,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -120,6 +121,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/storage/storage.go b/storage/storage.go
index 2978db7..34f1962 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"os"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -66,6 +67,13 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	if err != nil {
 		return nil, err
 	}
+	//release the file and its lock if the store can not be opened
+	opened := false
+	defer func() {
+		if !opened {
+			file.Close()
+		}
+	}()
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
 		return nil, err
@@ -120,6 +128,7 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		updateUsageInfo(s)
 	})
 
+	opened = true
 	return s, nil
 }
 
@@ -149,6 +158,14 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	if err != nil {
 		return nil, err
 	}
+	//leave no unusable file behind if the store can not be created
+	created := false
+	defer func() {
+		if !created {
+			file.Close()
+			os.Remove(path)
+		}
+	}()
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
 		return nil, err
@@ -167,11 +184,14 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
+		return nil, err
+	}
 
 	if err = snapNVM.Sync(); err != nil {
 		return nil, err
 	}
+	created = true
 	snapNVM.Close()
 
 	return OpenCannylsStorage(path)
-- 
2.43.0


From 1b27f425acbf03038790bdbfabbf9eb11b709aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 20/49] fix: kanils reads whole and empty files, Resize keeps
 snapshots and limits

---
 cmd/kanils/main.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..c0408be 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -60,11 +60,20 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if err != nil {
 		return err
 	}
-	defer fileNVM.Close()
+	//a snapshot must keep the old header
+	snapNVM, err := nvm.NewSnapshotNVM(fileNVM)
+	if err != nil {
+		fileNVM.Close()
+		return err
+	}
+	defer snapNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
+	if newSize > storage.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is too big", newSize)
+	}
 	fmt.Printf("setting new size to %d\n", newSize)
 	header.DataRegionSize = newSize
 
@@ -76,13 +85,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), fileNVM.BlockSize())
 	alignedBufHead.Align()
 	//now headBuf's len should be at least 512
-	if _, err = fileNVM.Seek(0, io.SeekStart); err != nil {
+	if _, err = snapNVM.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return nil
+	return snapNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
@@ -143,7 +152,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
@@ -346,17 +355,8 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
-- 
2.43.0


From d5bdcc196306c7906023e18c37c64c0d92473cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 21/49] fix: readup keeps serving without free ids and runs one
 backup at a time

---
 cmd/readup/main.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..51819dc 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync/atomic"
 
 	"io"
 	"os"
@@ -36,7 +37,7 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+var backupRuning int32 = 0
 
 //put
 type PutRequest struct {
@@ -139,9 +140,9 @@ func ServeStore(store *storage.Storage) {
 					if req.isAutoId {
 						id, have = chooseID(store)
 						if !have {
-							req.resultChan <- PutResult{id.U64(), NoLumpIdSpaceError, nil}
+							results = append(results, PutResult{id.U64(), NoLumpIdSpaceError, req.resultChan})
 							span.End()
-							return
+							continue
 						}
 					}
 					var err error
@@ -278,7 +279,7 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
@@ -287,10 +288,14 @@ func ServeStore(store *storage.Storage) {
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
 			defer func() {
-				backupRuning = false
+				atomic.StoreInt32(&backupRuning, 0)
 			}()
 
 			reader, err := store.GetSnapshotReader()
+			if err != nil {
+				fmt.Println(err)
+				return
+			}
 			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
 			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
 			if err != nil {
-- 
2.43.0


From 30a35e2648afc936f5670f401954e8f0c188759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 22/49] fix: do not copy regions behind the end of the snapshot

---
 nvm/snapnvm.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 2d0923a..f3f2588 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -715,6 +715,11 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
 
 		for i := 0; i < len(onOrigin); i++ {
+			//the snapshot ends before this region, and the backing file may have
+			//no room for it if the store has grown
+			if uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize() >= self.rawSnapNVM.myBackfile.rawCapacity {
+				continue
+			}
 			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
 			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
 			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
@@ -746,6 +751,11 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 				onOrigin, start, realPos, realPos+uint64(len(buf)))
 		*/
 		for i := 0; i < len(onOrigin); i++ {
+			//the snapshot ends before this region, and the backing file may have
+			//no room for it if the store has grown
+			if uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize() >= self.rawSnapNVM.myBackfile.rawCapacity {
+				continue
+			}
 			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
 
 			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-- 
2.43.0


From e14a43a1af84c7bf439ac00f61cc95fd02fbee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 23/49] fix: no half overwritten end of the journal after a
 power failure

---
 storage/journal/ring_buffer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index c509121..5108660 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -122,10 +122,18 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//3. write data
 	preTail := ring.tail
+	//The old end may cross two sectors of the device. Both must be replaced before
+	//one of them is written again, or only half of it is left after a power failure
+	sectorSize := uint64(ring.nvm.BlockSize().AsU16())
+	replaceBoth := !ring.nvm.maybeDirty && preTail%sectorSize+END_OF_RECORDS_SIZE > sectorSize
 	if err = ring.writeAt(preTail, record); err == nil {
 		newTail := ring.nvm.Position()
 		//4. write End OF Record
-		if err = ring.writeAt(newTail, EndOfRecords{}); err == nil {
+		err = ring.writeAt(newTail, EndOfRecords{})
+		if err == nil && replaceBoth {
+			err = ring.nvm.Sync()
+		}
+		if err == nil {
 			ring.tail = newTail
 		}
 	}
-- 
2.43.0


From 53b650b7aec4e60740bce681839fe99d8ab5d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 24/49] verif: hooks at the device operations (build tag verif)

---
 nvm/file.go      | 16 ++++++++++++++++
 nvm/snapnvm.go   |  6 ++++++
 nvm/verif_off.go |  8 ++++++++
 nvm/verif_on.go  | 16 ++++++++++++++++
 4 files changed, 46 insertions(+)
 create mode 100644 nvm/verif_off.go
 create mode 100644 nvm/verif_on.go

diff --git a/nvm/file.go b/nvm/file.go
index a312982..9e58402 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -137,6 +137,10 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 }
 
 func (self *FileNVM) Sync() error {
+	if err := verifIO("sync", self.file, 0, nil); err != nil {
+		return err
+	}
+	defer verifIO("synced", self.file, 0, nil)
 	return dataSync(self.file)
 }
 
@@ -220,6 +224,9 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 		return -1, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d, in read", bufLen)
 	}
 	rlen := util.Min(maxLen, bufLen)
+	if err = verifIO("read", nvm.file, int64(nvm.viewStart)+off, buf[:rlen]); err != nil {
+		return 0, err
+	}
 	return nvm.file.ReadAt(buf[:rlen], int64(nvm.viewStart)+off)
 }
 
@@ -238,6 +245,9 @@ func (nvm *FileNVM) Read(buf []byte) (n int, err error) {
 
 	newPosition := nvm.cursor_position + len
 
+	if err = verifIO("read", nvm.file, int64(nvm.cursor_position), buf[:len]); err != nil {
+		return 0, err
+	}
 	n, err = nvm.file.ReadAt(buf[:len], int64(nvm.cursor_position))
 
 	if err != nil && err != io.EOF {
@@ -270,6 +280,9 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 
 	len := util.Min(maxLen, bufLen)
 
+	if err = verifIO("write", nvm.file, realPos, buf[:len]); err != nil {
+		return -1, err
+	}
 	if n, err = nvm.file.WriteAt(buf[:len], realPos); err != nil {
 		return -1, errors.Wrap(err, "FileNVM failed to write")
 	}
@@ -287,6 +300,9 @@ func (nvm *FileNVM) Write(buf []byte) (n int, err error) {
 	len := util.Min(maxLen, bufLen)
 	newPosition := nvm.cursor_position + len
 
+	if err = verifIO("write", nvm.file, int64(nvm.cursor_position), buf[:len]); err != nil {
+		return -1, err
+	}
 	if n, err = nvm.file.WriteAt(buf[:len], int64(nvm.cursor_position)); err != nil {
 		return -1, errors.Wrap(err, "FileNVM failed to write")
 	}
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index f3f2588..be1a66d 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -287,6 +287,7 @@ func (bf *BackingFile) Sync() error {
 func (bf *BackingFile) Delete() {
 	bf.Lock()
 	defer bf.Unlock()
+	verifIO("backing-delete", bf.file, 0, nil)
 	if err := os.Remove(bf.fileName); err != nil {
 		panic("delete failed")
 	}
@@ -364,11 +365,13 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
 	//Write journal
+	verifIO("backing-entry", bf.file, int64(bf.JournalEnd), nil)
 	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
 	if err := entry.WriteTo(bf.file); err != nil {
 		panic("write failed")
 	}
 	//Write data
+	verifIO("backing-data", bf.file, int64(bf.dataEnd), buf)
 	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
 		panic("im panic")
 	}
@@ -381,6 +384,7 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
 	bf.file.Sync()
+	verifIO("backing-done", bf.file, int64(bf.dataEnd), nil)
 }
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
@@ -403,7 +407,9 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
+	verifIO("backing-header", file, 0, nil)
 	if err = header.WriteTo(file); err == nil {
+		verifIO("backing-rename", file, 0, nil)
 		err = os.Rename(tmpName, fileName)
 	}
 	if err != nil {
diff --git a/nvm/verif_off.go b/nvm/verif_off.go
new file mode 100644
index 0000000..46b8959
--- /dev/null
+++ b/nvm/verif_off.go
@@ -0,0 +1,8 @@
+// +build !verif
+
+package nvm
+
+import "os"
+
+//a hook of the verification harness, see verif_on.go
+func verifIO(op string, file *os.File, offset int64, buf []byte) error { return nil }
diff --git a/nvm/verif_on.go b/nvm/verif_on.go
new file mode 100644
index 0000000..f46091a
--- /dev/null
+++ b/nvm/verif_on.go
@@ -0,0 +1,16 @@
+// +build verif
+
+package nvm
+
+import "os"
+
+//VerifIO is called before (and for "synced" after) each device operation. It may
+//record it, wait, or return an error, which is then the result of the operation
+var VerifIO func(op string, name string, offset int64, buf []byte) error
+
+func verifIO(op string, file *os.File, offset int64, buf []byte) error {
+	if VerifIO == nil {
+		return nil
+	}
+	return VerifIO(op, file.Name(), offset, buf)
+}
-- 
2.43.0


From 5b7f1c422b9dfd99464f6613f690788e3469ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 25/49] fix: report a wrong padding size instead of crashing on
 it

---
 storage/data_region.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index c738b9d..5419861 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -171,11 +171,23 @@ func (region *DataRegion) readRange(dataPortion portion.DataPortion,
 	}
 	objectSize = atLeast
 	if needSize {
-		objectSize = onDiskSize - LUMP_DATA_TRAILER_SIZE - uint32(util.GetUINT16(data[len(data)-2:]))
+		if objectSize, err = region.objectSize(onDiskSize, data); err != nil {
+			return nil, 0, 0, err
+		}
 	}
 	return data, readOffset, objectSize, nil
 }
 
+//blocks end with the last block of the object. It may hold anything if the data was
+//not on the device before a power failure
+func (region *DataRegion) objectSize(onDiskSize uint32, blocks []byte) (uint32, error) {
+	padding := uint32(util.GetUINT16(blocks[len(blocks)-2:]))
+	if padding >= region.block_size.AsU32() || padding+LUMP_DATA_TRAILER_SIZE > onDiskSize {
+		return 0, errors.Wrap(internalerror.StorageCorrupted, "wrong padding size")
+	}
+	return onDiskSize - padding - LUMP_DATA_TRAILER_SIZE, nil
+}
+
 //thread safe
 func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
@@ -235,9 +247,10 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 	if err != nil {
 		return 0, err
 	}
-	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
-	size = uint32(dataPortion.Len)*uint32(region.block_size) -
-		paddingSize - LUMP_DATA_TRAILER_SIZE
+	size, err = region.objectSize(uint32(dataPortion.Len)*uint32(region.block_size), buf)
+	if err != nil {
+		return 0, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(region.block_size)))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
@@ -264,9 +277,11 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 	if _, err := region.nvm.ReadAt(ab.AsBytes(), int64(offset)); err != nil {
 		return lump.LumpData{}, err
 	}
-	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
-
-	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
+	size, err := region.objectSize(len, ab.AsBytes())
+	if err != nil {
+		return lump.LumpData{}, err
+	}
+	ab.Resize(size)
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(ab.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-- 
2.43.0


From 4c4e952a2b6f374c59a468f693f1f68c99fbf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 26/49] fix: keep the old lump if a device error prevents
 storing the new one

---
 storage/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 34f1962..2926d9a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -539,7 +539,7 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData, onlyNew bo
 		store.journalSync()
 		dataPortion, putErr = store.dataRegion.Put(lumpdata)
 	}
-	if v, ok := old.(portion.DataPortion); ok && putErr != nil {
+	if v, ok := old.(portion.DataPortion); ok && errors.Cause(putErr) == internalerror.StorageFull {
 		//the space of the old data is the last resort
 		if err = store.journalRegion.RecordDelete(store.index, lumpid); err != nil {
 			return false, err
-- 
2.43.0


From 2c642d95f43db1942775632a8e5dca95072054b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 27/49] fix: an unknown record tag is a corruption, not a crash

---
 storage/journal/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..448c19a 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -319,7 +319,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
-- 
2.43.0


From 7e20c0386127c0198bc71961995ef45dd8a512d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 28/49] fix: opening a store with a corrupt journal is an
 error, not a crash

---
 storage/journal/region.go | 13 +++++++------
 storage/storage.go        |  4 +++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index ab392c6..d4545e8 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -84,16 +85,19 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
 	var err error
 	iter := journal.ring.BufferedIter()
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "can not restore journal")
 			}
 			break
 		}
@@ -120,10 +124,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
diff --git a/storage/storage.go b/storage/storage.go
index 2926d9a..c0b9a58 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -87,7 +87,9 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
-- 
2.43.0


From 784eefd6b72e0c8adc8fca6502d7bd9f540d70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 29/49] fix: the allocator merges the rest of a split free
 segment with its neighbour

---
 storage/allocator/allocator.go      | 3 ++-
 storage/allocator/judy_allocator.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/allocator/allocator.go b/storage/allocator/allocator.go
index 36798ea..df52c20 100644
--- a/storage/allocator/allocator.go
+++ b/storage/allocator/allocator.go
@@ -117,7 +117,8 @@ func (alloc *BtreeDataPortionAlloc) Allocate(size uint16) (free portion.DataPort
 			alloc.deleteFreePortion(p)
 			p, free = p.SlicePart(size)
 			if p.Len() > 0 {
-				alloc.addFreePortion(p)
+				//together they may have been too long for one portion
+				alloc.addFreePortion(alloc.mergeFreePortions(p))
 			}
 			isAllocated = true
 			return false
diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index 5ca01bc..ec42876 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -181,7 +181,8 @@ func (alloc *JudyPortionAlloc) Allocate(size uint16) (free portion.DataPortion,
 			alloc.deletePortion(p)
 			p, free = p.SlicePart(size)
 			if p.Len() > 0 {
-				alloc.addPortion(p)
+				//together they may have been too long for one portion
+				alloc.addPortion(alloc.mergeFreePortions(p))
 			}
 			alloc.updateMaxSegmentSize()
 			return free, nil
-- 
2.43.0


From e58897a69b1900fd7f210fb9c258dd27af0c419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 30/49] fix: a new allocator knows its largest segment

---
 storage/allocator/allocator.go      | 1 +
 storage/allocator/judy_allocator.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/storage/allocator/allocator.go b/storage/allocator/allocator.go
index df52c20..6de173e 100644
--- a/storage/allocator/allocator.go
+++ b/storage/allocator/allocator.go
@@ -57,6 +57,7 @@ func NewBtreeAlloc() *BtreeDataPortionAlloc {
 func BuildBtreeDataPortionAlloc(capacitySector uint32) *BtreeDataPortionAlloc {
 	alloc := NewBtreeAlloc()
 	alloc.addFreePortion(portion.NewFreePortion(address.AddressFromU32(0), capacitySector))
+	alloc.updateMaxSegmentSize()
 	return alloc
 }
 
diff --git a/storage/allocator/judy_allocator.go b/storage/allocator/judy_allocator.go
index ec42876..9d8b556 100644
--- a/storage/allocator/judy_allocator.go
+++ b/storage/allocator/judy_allocator.go
@@ -121,6 +121,7 @@ func NewJudyAlloc() *JudyPortionAlloc {
 func BuildJudyAlloc(capacitySector uint32) *JudyPortionAlloc {
 	alloc := NewJudyAlloc()
 	alloc.addPortion(newJudyPortion(address.AddressFromU64(0), capacitySector))
+	alloc.updateMaxSegmentSize()
 	return alloc
 }
 
-- 
2.43.0


From 16921ae30b1ff2d0e50c9d3984698431dd355125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 31/49] fix: a record that runs past the end of the journal is
 an error, not a hang

---
 storage/journal/nvm_buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 895fe49..8120247 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -100,6 +100,10 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	//fmt.Printf("inner read size: %d,buf len %d, readSize %d, start: %d, end :%d\n", innerReadSize, len(buf), readSize, start, end)
 	copy(buf[:readSize], jb.readBuf.AsBytes()[start:end])
 	jb.position += readSize
+	if readSize == 0 && len(buf) > 0 {
+		//a reader must not wait here for more data
+		return 0, io.EOF
+	}
 	return int(readSize), nil
 
 }
-- 
2.43.0


From ecc5f835345f7a958e8e3a17b810bbf6ae53e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 32/49] fix: reading a snapshot of a closed store fails instead
 of crashing

---
 nvm/snapnvm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index be1a66d..1b21295 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -569,7 +569,7 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 			n, err = self.backfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
 			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
 			if err != nil && err != io.EOF {
-				return -1, err
+				return 0, err
 			}
 			if n == 0 {
 				return 0, io.EOF
@@ -584,11 +584,11 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 			*/
 			start := int64(uint64(onOrigin[0]) * regionSize)
 			n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), start)
-			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
 			//if originFile is shorter than expected
 			if err != nil && err != io.EOF {
-				return -1, err
+				return 0, err
 			}
+			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
 			if n == 0 {
 				return 0, io.EOF
 			}
-- 
2.43.0


From 06acff23ef6a7fc6747fd88249ff2e4f34cb7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 33/49] fix: seeking in a snapshot keeps within it and is
 relative to the bytes read

---
 nvm/snapnvm.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 1b21295..b462550 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -516,23 +516,25 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 
 //read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.backfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.backfile.rawCapacity)
-	}
+	var pos int64
 	switch whence {
 	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
+		pos = offset
 	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
+		//self.offset is the end of the buffered bytes
+		pos = int64(self.offset) - int64(self.waterHighMark-self.waterLowMark) + offset
 	case 2:
 		panic("not supported so far")
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	if pos < 0 || pos > int64(self.backfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", pos, self.backfile.rawCapacity)
+	}
+	self.waterHighMark = 0
+	self.waterLowMark = 0
+	self.offset = uint64(pos)
+	return pos, nil
 }
 
 //read thread-safe
-- 
2.43.0


From 2ca529a3f16f5f8f50fe12917252f6aeabae9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 34/49] fix: reading a snapshot into a large buffer is no
 reason to panic

---
 nvm/snapnvm.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index b462550..1ee5cea 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -548,10 +548,6 @@ func (self *SnapshotReader) Read(p []byte) (n int, err error) {
 	}
 
 	regionSize := self.backfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.backfile.RegionSize() {
-		panic("Read data too big")
-	}
 	start := self.offset / regionSize * regionSize
 	maxLen := util.Min(self.backfile.rawCapacity-start, regionSize)
 	//read the whole region size
-- 
2.43.0


From ca465caf6a41244784b9cfdec2543f7faa385674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 35/49] verif: a hook before the device lock is taken (build
 tag verif)

---
 nvm/snapnvm.go   | 2 ++
 nvm/verif_off.go | 2 ++
 nvm/verif_on.go  | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 1ee5cea..7768f96 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -707,6 +707,7 @@ func (self *SnapNVM) Unlock() {
 }
 
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
+	verifEnter("enter-write", self)
 	self.Lock()
 	defer self.Unlock()
 	realPos := self.originFile.ViewStart() + uint64(off)
@@ -778,6 +779,7 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 }
 
 func (self *SnapNVM) ReadAt(buf []byte, off int64) (n int, err error) {
+	verifEnter("enter-read", self)
 	self.RLock()
 	defer self.RUnlock()
 	return self.originFile.ReadAt(buf, off)
diff --git a/nvm/verif_off.go b/nvm/verif_off.go
index 46b8959..541267c 100644
--- a/nvm/verif_off.go
+++ b/nvm/verif_off.go
@@ -6,3 +6,5 @@ import "os"
 
 //a hook of the verification harness, see verif_on.go
 func verifIO(op string, file *os.File, offset int64, buf []byte) error { return nil }
+
+func verifEnter(op string, n *SnapNVM) {}
diff --git a/nvm/verif_on.go b/nvm/verif_on.go
index f46091a..8d13958 100644
--- a/nvm/verif_on.go
+++ b/nvm/verif_on.go
@@ -14,3 +14,11 @@ func verifIO(op string, file *os.File, offset int64, buf []byte) error {
 	}
 	return VerifIO(op, file.Name(), offset, buf)
 }
+
+//before the lock of the device is taken: an operation may be held up here while
+//others use the device
+func verifEnter(op string, n *SnapNVM) {
+	if VerifIO != nil {
+		VerifIO(op, n.rawSnapNVM.originFile.file.Name(), 0, nil)
+	}
+}
-- 
2.43.0


From af05ad581844d66ee7787d5cbb58273a3d83a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 36/49] fix: a path that can not be looked up is no existing
 file, not a crash

---
 nvm/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index 9e58402..3f49f59 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -23,7 +23,7 @@ type FileNVM struct {
 
 func fileExists(path string) bool {
 	info, err := os.Stat(path)
-	if os.IsNotExist(err) {
+	if err != nil {
 		return false
 	}
 	return !info.IsDir()
-- 
2.43.0


From d8bf7c0098c5d3808579c127d53da697e3470030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 37/49] fix: creating a store of an impossible size fails
 instead of crashing

---
 storage/storage.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index c0b9a58..05ed83f 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -174,7 +174,10 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	}
 
 	headBuf := new(bytes.Buffer)
-	header := makeHeader(snapNVM, journal_ratio)
+	header, err := makeHeader(snapNVM, journal_ratio)
+	if err != nil {
+		return nil, err
+	}
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
 		return nil, err
@@ -199,7 +202,7 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	return OpenCannylsStorage(path)
 }
 
-func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
+func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (nvm.StorageHeader, error) {
 
 	//total size
 	totalSize := file.Capacity()
@@ -207,14 +210,14 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 
 	//check capacity
 	if totalSize < headerSize+uint64(file.BlockSize().AsU16()*3) {
-		panic("file size is too small")
+		return nvm.StorageHeader{}, errors.Wrap(internalerror.InvalidInput, "file size is too small")
 	}
 
 	//check journal size
 	tmp := float64(file.Capacity()) * journal_ratio
 	journalSize := file.BlockSize().CeilAlign(uint64(tmp))
 	if journalSize > MAX_JOURNAL_REGION_SIZE {
-		panic("journal size is too big")
+		return nvm.StorageHeader{}, errors.Wrap(internalerror.InvalidInput, "journal size is too big")
 	}
 
 	if journalSize < uint64(file.BlockSize().AsU16()*2) {
@@ -224,7 +227,7 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
-		panic(fmt.Sprintf("data size is too big: %d", dataSize))
+		return nvm.StorageHeader{}, errors.Wrapf(internalerror.InvalidInput, "data size is too big: %d", dataSize)
 	}
 
 	if dataSize < uint64(file.BlockSize().AsU16()) {
@@ -235,7 +238,7 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
 	header.DataRegionSize = dataSize
-	return *header
+	return *header, nil
 }
 
 func (store *Storage) Header() nvm.StorageHeader {
-- 
2.43.0


From 002272819ea248cd9c5cbe01c0dd4e8185bedf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 38/49] fix: a new store stays locked until it is open, and no
 file is left if it can not be opened

---
 storage/storage.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 05ed83f..e012398 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -74,6 +74,16 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 			file.Close()
 		}
 	}()
+	store, err := openCannylsStorage(file, header)
+	if err != nil {
+		return nil, err
+	}
+	opened = true
+	return store, nil
+}
+
+//the caller closes file if the store can not be opened
+func openCannylsStorage(file *nvm.FileNVM, header *nvm.StorageHeader) (*Storage, error) {
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
 		return nil, err
@@ -130,7 +140,6 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		updateUsageInfo(s)
 	})
 
-	opened = true
 	return s, nil
 }
 
@@ -164,8 +173,8 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	created := false
 	defer func() {
 		if !created {
-			file.Close()
 			os.Remove(path)
+			file.Close()
 		}
 	}()
 	snapNVM, err := nvm.NewSnapshotNVM(file)
@@ -196,10 +205,13 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	if err = snapNVM.Sync(); err != nil {
 		return nil, err
 	}
+	//the file stays locked, nobody else can open it before
+	store, err := openCannylsStorage(file, &header)
+	if err != nil {
+		return nil, err
+	}
 	created = true
-	snapNVM.Close()
-
-	return OpenCannylsStorage(path)
+	return store, nil
 }
 
 func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (nvm.StorageHeader, error) {
-- 
2.43.0


From af1fe77f0ce3790b7395ec706d5c396f2993229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 39/49] fix: read the header of a store under its lock

---
 nvm/file.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 3f49f59..efee505 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -110,12 +110,9 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 		parsedFile.Close()
 		return nil, nil, err
 	}
-
-	capacity := header.StorageSize()
+	defer parsedFile.Close()
 
 	//reopen the file
-	parsedFile.Close()
-
 	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
 		return nil, nil, err
 	}
@@ -124,7 +121,16 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 		f.Close()
 		return nil, nil, err
 	}
-	err = nil
+
+	//the former owner may have changed the header before it gave up the lock
+	if _, err = parsedFile.Seek(0, io.SeekStart); err == nil {
+		header, err = ReadFromFile(parsedFile)
+	}
+	if err != nil {
+		f.Close()
+		return nil, nil, err
+	}
+	capacity := header.StorageSize()
 	nvm = &FileNVM{
 		file:            f,
 		cursor_position: 0,
-- 
2.43.0


From 0e54a60c00e8dfdad46ba24ff4c71429093934af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 40/49] fix: refuse a header with an unaligned journal region

---
 nvm/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nvm/header.go b/nvm/header.go
index 5c230f8..9162858 100644
--- a/nvm/header.go
+++ b/nvm/header.go
@@ -147,6 +147,11 @@ func ReadFrom(reader io.Reader) (*StorageHeader, error) {
 		return nil, internalerror.InvalidInput
 	}
 
+	//the regions start at block borders
+	if !blockSize.IsAligned(journalRegionSize) {
+		return nil, errors.Wrapf(internalerror.InvalidInput, "journal region size %d is not aligned", journalRegionSize)
+	}
+
 	//EOF
 	var buf [1]byte
 	if _, err = reader.Read(buf[:]); err != io.EOF {
-- 
2.43.0


From da497be29c035fc2f79470f259e19506b8eb622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 41/49] fix: taking a lump is atomic, a newer upload is not
 deleted unseen

---
 cmd/readup/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 51819dc..d271a0b 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 
 	"io"
@@ -109,6 +110,9 @@ func ServeStore(store *storage.Storage) {
 
 	reqeustChan := make(chan PutRequest, 20)
 
+	//a lump must not be replaced while it is taken
+	var takeMu sync.Mutex
+
 	//cannyls storage routine
 	cannylsStopper := util.NewStopper()
 
@@ -137,9 +141,11 @@ func ServeStore(store *storage.Storage) {
 					_, span := trace.StartSpan(req.ctx, "write cannyls")
 					var id lump.LumpId = lump.FromU64(0, req.id)
 					var have bool
+					takeMu.Lock()
 					if req.isAutoId {
 						id, have = chooseID(store)
 						if !have {
+							takeMu.Unlock()
 							results = append(results, PutResult{id.U64(), NoLumpIdSpaceError, req.resultChan})
 							span.End()
 							continue
@@ -154,6 +160,7 @@ func ServeStore(store *storage.Storage) {
 					*/
 					_, err = store.Put(id, req.data)
 					//}
+					takeMu.Unlock()
 					span.Annotate(nil, "Cannyls: put data done")
 					span.End()
 					var result PutResult
@@ -196,17 +203,22 @@ func ServeStore(store *storage.Storage) {
 
 	//call delete
 	r.GET("/random", func(c *gin.Context) {
+		takeMu.Lock()
 		id, have := store.MinId()
 		if !have {
+			takeMu.Unlock()
 			c.String(404, "do not have")
 			return
 		}
 		data, err := store.Get(id)
+		if err == nil {
+			_, _, err = store.Delete(id)
+		}
+		takeMu.Unlock()
 		if err != nil {
 			c.String(500, err.Error())
 			return
 		}
-		store.Delete(id)
 		c.Status(200)
 		c.Header("content-length", fmt.Sprintf("%d", len(data)))
 		c.Stream(func(w io.Writer) bool {
-- 
2.43.0


From 635bf9fc9a473c4bb0a526560c18d8ec8a18ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 42/49] fix: a connection left open at the shutdown does not
 keep the store from being closed

---
 cmd/readup/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index d271a0b..c186ee7 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -434,7 +434,9 @@ func ServeStore(store *storage.Storage) {
 			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
 			defer cancel()
 			if err := srv.Shutdown(ctx); err != nil {
-				panic("Server Shutdown failed")
+				//some connection is still open, the store must be closed all the same
+				fmt.Printf("Server Shutdown failed: %v\n", err)
+				srv.Close()
 			}
 			httpStopper.Stop() //wait for the ListenAndServe finish.
 
-- 
2.43.0


From a1da4d20ba4d2a20b25067624c10068af5ee1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 43/49] fix: a store without room for data is refused, its only
 block lay behind the file

---
 storage/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index e012398..ded9d8d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -243,7 +243,7 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (nvm.StorageH
 	}
 
 	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
+		return nvm.StorageHeader{}, errors.Wrap(internalerror.InvalidInput, "no room for data")
 	}
 
 	header := nvm.DefaultStorageHeader()
-- 
2.43.0


From 4928c9cd7a3a640d553ce7f11f211028ee073fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 44/49] fix: accesses and splits outside of a device or view
 are refused

---
 nvm/file.go    | 12 ++++++++++++
 nvm/memory.go  | 10 ++++++++++
 nvm/snapnvm.go | 11 ++++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index efee505..36f0b11 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -174,6 +174,10 @@ func (nvm *FileNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolati
 		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in split", position)
 	}
 
+	if position > nvm.Capacity() {
+		return nil, nil, errors.Wrapf(internalerror.InvalidInput, "behind the end :%d in split", position)
+	}
+
 	//TODO
 	leftNVM := &FileNVM{
 		file:            nvm.file,
@@ -221,6 +225,10 @@ func (nvm *FileNVM) ReadAt(buf []byte, off int64) (n int, err error) {
 		return int(off), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", off)
 	}
 
+	if off < 0 || uint64(off) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "outside of the device :%d in read", off)
+	}
+
 	maxLen := nvm.Capacity() - uint64(off)
 	if maxLen == 0 {
 		return 0, io.EOF
@@ -276,6 +284,10 @@ func (nvm *FileNVM) WriteAt(buf []byte, offset int64) (n int, err error) {
 		return int(offset), errors.Wrapf(internalerror.InvalidInput, "not aligned :%d in seek", offset)
 	}
 
+	if offset < 0 || uint64(offset) > nvm.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "outside of the device :%d in write", offset)
+	}
+
 	realPos := int64(nvm.viewStart) + offset
 	maxLen := nvm.Capacity() - uint64(offset)
 	bufLen := uint64(len(buf))
diff --git a/nvm/memory.go b/nvm/memory.go
index 61cdb1d..784d68f 100644
--- a/nvm/memory.go
+++ b/nvm/memory.go
@@ -51,6 +51,10 @@ func (memory *MemoryNVM) Split(p uint64) (sp1 NonVolatileMemory, sp2 NonVolatile
 		return nil, nil, internalerror.InvalidInput
 	}
 
+	if p > uint64(len(memory.vec)) {
+		return nil, nil, internalerror.InvalidInput
+	}
+
 	l, err := NewFromVec(memory.vec[0:p])
 	if err != nil {
 		return nil, nil, internalerror.InvalidInput
@@ -120,6 +124,9 @@ func (memory *MemoryNVM) BlockSize() block.BlockSize {
 func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 	memory.RLock()
 	defer memory.RUnlock()
+	if off < 0 {
+		return 0, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
@@ -130,6 +137,9 @@ func (memory *MemoryNVM) ReadAt(p []byte, off int64) (n int, err error) {
 func (memory *MemoryNVM) WriteAt(p []byte, off int64) (n int, err error) {
 	memory.Lock()
 	defer memory.Unlock()
+	if off < 0 {
+		return 0, internalerror.InvalidInput
+	}
 	if off >= int64(len(memory.vec)) {
 		return 0, io.EOF
 	}
diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 7768f96..0553154 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -302,6 +302,9 @@ func (bf *BackingFile) Delete() {
 func (bf *BackingFile) GetCopyOffset(start uint64, end uint64) (onBacking []uint32, onOrigin []uint32) {
 	bf.RLock()
 	defer bf.RUnlock()
+	if start >= end {
+		return
+	}
 	n0 := start / bf.regionSize
 	n1 := (end - 1) / bf.regionSize
 	for i := n0; i <= n1; i++ {
@@ -710,6 +713,9 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	verifEnter("enter-write", self)
 	self.Lock()
 	defer self.Unlock()
+	if off < 0 || uint64(off) > self.originFile.Capacity() {
+		return 0, errors.Wrapf(internalerror.InvalidInput, "outside of the device :%d in write", off)
+	}
 	realPos := self.originFile.ViewStart() + uint64(off)
 	if self.rawSnapNVM.myBackfile != nil {
 		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
@@ -813,7 +819,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
-- 
2.43.0


From 18c8056dbad7f7a144c473d0e37de12cff946ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 45/49] fix: seeking in a file device returns the new position

---
 nvm/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvm/file.go b/nvm/file.go
index 36f0b11..5ad1019 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -216,7 +216,7 @@ func (nvm *FileNVM) Seek(offset int64, whence int) (int64, error) {
 	realFilePosition := nvm.viewStart + uint64(abs)
 
 	nvm.cursor_position = realFilePosition
-	return offset, nil
+	return abs, nil
 }
 
 //read,write threadSafe
-- 
2.43.0


From fb7452b3557b1f2832b984aedab8407aaade0fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 46/49] fix: saving a region for the snapshot leaves the
 position of the device alone

---
 nvm/snapnvm.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 0553154..3f3b601 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -731,8 +731,7 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 			if uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize() >= self.rawSnapNVM.myBackfile.rawCapacity {
 				continue
 			}
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
+			n, err = util.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes(), int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()))
 			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 				return -1, err
 			}
@@ -767,11 +766,10 @@ func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 			if uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize() >= self.rawSnapNVM.myBackfile.rawCapacity {
 				continue
 			}
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
 
 			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
 			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
+			n, err = util.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes(), int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()))
 			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 				return -1, err
 			}
-- 
2.43.0


From 37aa807532e98ce9c37d156cae2410d8933bf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 47/49] fix: a snapshot of a file longer than its store ends
 with the store

---
 nvm/snapnvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 3f3b601..84883c6 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -889,7 +889,8 @@ func (self *SnapNVM) createSnapshotIfNeeded() (err error) {
 	}
 	size := self.originFile.Capacity()
 
-	backfile, err := CreateBackingFile(self.prefix, uint64(size), uint64(self.originFile.RawSize()))
+	//the file may be longer than its store, which has no part in what follows it
+	backfile, err := CreateBackingFile(self.prefix, uint64(size), util.Min(size, uint64(self.originFile.RawSize())))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9c6b50e49094d6ce20e852c6e32fd2c884382d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 48/49] verif: lock entries of the store can be observed (build
 tag verif)

---
 storage/storage.go   |  5 ++---
 storage/verif_off.go |  8 ++++++++
 storage/verif_on.go  | 31 +++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 3 deletions(-)
 create mode 100644 storage/verif_off.go
 create mode 100644 storage/verif_on.go

diff --git a/storage/storage.go b/storage/storage.go
index ded9d8d..516fd63 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"fmt"
 	"os"
-	"sync"
 	"sync/atomic"
 	"time"
 
@@ -36,8 +35,8 @@ const (
 )
 
 type Storage struct {
-	i                     sync.RWMutex
-	jr                    sync.Mutex //protect journal region(read/write)
+	i                     rwMutex
+	jr                    mutex //protect journal region(read/write)
 	storageHeader         *nvm.StorageHeader
 	dataRegion            *DataRegion
 	journalRegion         *journal.JournalRegion
diff --git a/storage/verif_off.go b/storage/verif_off.go
new file mode 100644
index 0000000..ee4dfc2
--- /dev/null
+++ b/storage/verif_off.go
@@ -0,0 +1,8 @@
+// +build !verif
+
+package storage
+
+import "sync"
+
+type mutex = sync.Mutex
+type rwMutex = sync.RWMutex
diff --git a/storage/verif_on.go b/storage/verif_on.go
new file mode 100644
index 0000000..5b5f576
--- /dev/null
+++ b/storage/verif_on.go
@@ -0,0 +1,31 @@
+//go:build verif
+// +build verif
+
+package storage
+
+import "sync"
+
+// VerifLock is called before a lock of the store is taken: an operation may be held
+// up here while others go on
+var VerifLock func(op string)
+
+func verifLock(op string) {
+	if VerifLock != nil {
+		VerifLock(op)
+	}
+}
+
+type mutex struct{ m sync.Mutex }
+
+func (l *mutex) Lock()         { verifLock("lock"); l.m.Lock() }
+func (l *mutex) Unlock()       { l.m.Unlock() }
+func (l *mutex) TryLock() bool { return l.m.TryLock() }
+
+type rwMutex struct{ m sync.RWMutex }
+
+func (l *rwMutex) Lock()          { verifLock("lock"); l.m.Lock() }
+func (l *rwMutex) Unlock()        { l.m.Unlock() }
+func (l *rwMutex) RLock()         { verifLock("rlock"); l.m.RLock() }
+func (l *rwMutex) RUnlock()       { l.m.RUnlock() }
+func (l *rwMutex) TryLock() bool  { return l.m.TryLock() }
+func (l *rwMutex) TryRLock() bool { return l.m.TryRLock() }
-- 
2.43.0


From 8e3579058ea03c39afd6b80c611d58d5b6b0008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:13 +0000
Subject: [PATCH 49/49] fix: a put must leave the caller's data as they were

The padding and the trailer stayed in the data, so that putting the same data
again stored another, longer value.
---
 storage/data_region.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storage/data_region.go b/storage/data_region.go
index 5419861..0cc9cd8 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -113,6 +113,8 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
+	//the caller may put it again, without padding and trailer
+	data.Inner.Resize(dataLen)
 	return data_portion, nil
 }
 
-- 
2.43.0

