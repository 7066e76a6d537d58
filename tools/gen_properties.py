#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))
S="storage/storage.go";DR="storage/data_region.go";JR="storage/journal/region.go";RB="storage/journal/ring_buffer.go"
NB="storage/journal/nvm_buffer.go";LI="lumpindex/lump_index.go";SN="nvm/snapnvm.go";FN="nvm/file.go"
AL="storage/allocator/judy_allocator.go";AB="storage/allocator/allocator.go"

prop("C01","The store behaves as an ordered map from lump id to bytes",
 "Every sequential history of puts, embedded puts, deletes, range deletes, reads, size queries, listings, minimum/maximum/first/empty-id queries and usage counts returns exactly what an ordered map from 64-bit ids to byte strings would return, whatever maintenance (flush, sync, side jobs, journal garbage collection) runs in between. "
 "Put and delete report truthfully whether an earlier value existed, a range delete covers exactly the half-open range, and the reported number of lumps is the number of lumps.",
 ["histories","inputs"],"all sequences of API calls with all ids, sizes (0 bytes to the maximum), embedded and block-stored, interleaved with all maintenance calls",
 "Tests run a few fixed call sequences on fresh stores with tiny values; they never compare a long mixed history with a reference, nor the counts.",
 [S,LI,JR,DR],[("index update and journal append per operation",S),("judy-tree index",LI)],
 ["return values of the public Storage API"],[("index","id -> portion map","storage.Storage.index"),("counts","number of lumps","lumpindex.LumpIndex.counts")])

prop("C02","Close and reopen preserves every lump",
 "After any history of operations and a clean close, reopening the file succeeds and yields exactly the same ids, contents and lump count, and the reopened store keeps behaving as that map (also across further close/reopen cycles).",
 ["histories","configurations"],"all histories (including those that wrap the journal, run GC, fill the store or the journal) and journal/data sizes",
 "One test reopens after one range delete; no test reopens after wrap-around, GC, overwrites, failed operations, or repeatedly.",
 [S,JR,RB,"storage/journal/record.go","storage/journal/journal_header_region.go",AL],
 [("journal replay","journal.JournalRegion.RestoreIndex"),("allocator rebuild","allocator.RestoreFromIndex"),("Close syncs","storage.Storage.Close")],
 ["List/Get/Usage after OpenCannylsStorage"])

prop("C03","A killed process loses only an unflushed suffix",
 "If the process dies between any two device writes, reopening succeeds and every lump is as in one single state of the history that is not older than the last completed flush, sync, or automatic sync point: a prefix of the operations, with no lump lost, resurrected, torn or showing another lump's bytes. "
 "(In-place offset updates write through at once, so such an update may be visible although earlier unflushed operations are lost. Each device write is taken to be atomic.)",
 ["crash_points","histories"],"every device-write boundary of every history, including inside GC, wrap-around, header updates, close and range deletes",
 "No test crashes the store; all reopen tests close cleanly first.",
 [S,JR,RB,NB,"storage/journal/journal_header_region.go",DR],
 [("write-ahead order data -> record -> flush","storage.Storage.put"),("end-of-records marker after each append","journal.JournalRingBuffer.Enqueue"),("header moves only after re-append","journal.JournalRegion.fillGCQueue")],
 ["device write sequence; store reopened from each image"],[("tail/head/unreleasedHead","ring pointers","journal.JournalRingBuffer")],
 "record of device writes and syncs at the file layer (build tag verif)")

prop("C04","A power failure never loses synced lumps",
 "If the machine loses power, so that any subset of the device writes issued since the last completed device sync may be missing, reopening succeeds and every lump not touched since the last completed store sync reads back exactly as it was then, and every other lump is present only if it existed at some point since, absent only if it was absent at some point since, and an embedded one reads as one of the values it had since (the bytes of a block-stored lump written after that sync may be incomplete).",
 ["crash_points","histories","fault_sequences"],"every cut point and every subset of unsynced whole writes, across GC and journal-space reuse",
 "No test simulates lost writes; ordering bugs between header, journal and data writes are invisible while the page cache survives.",
 [S,JR,RB,NB,DR,FN],[("sync before releasing journal space",JR),("data sync covers data and journal","nvm.FileNVM.Sync"),("freed blocks reused only after the superseding record is synced",S)],
 ["store reopened from reordered/lossy images"],(), "record of device writes and syncs at the file layer (build tag verif)")

prop("C05","Journal garbage collection is invisible to users",
 "Automatic GC, side jobs and full journal GC, at any moment and in any number, change no lump: the map read through the API, and the map a reopen would produce, are the same before and after, no deleted lump reappears and no live lump disappears, even when the journal is full or a GC pass is interrupted midway.",
 ["histories","crash_points"],"all placements of GC steps between and inside operations, all journal fill levels",
 "GC tests look at ring pointers of one fixed history; they never check contents after GC plus reopen, nor GC on a full journal.",
 [JR,RB,S],[("re-append of live records","journal.JournalRegion.gcOnce"),("garbage test","journal.JournalRegion.isGarbage"),("header update","journal.JournalRegion.writeUnusedJournalHeader")],
 ["Get/List before and after, and on a reopened copy"],[("gcQueue","dequeued but not yet re-appended records","journal.JournalRegion.gcQueue")])

prop("C06","Failed operations leave the store unchanged",
 "An operation that returns an error (store full, journal full, value too large, invalid range, or a device error) leaves every lump, the lump count and the free space as they were, both as seen through the open store and after a reopen, and the store keeps working for operations that can succeed. "
 "The one exception: an overwrite attempted while the data area is full may have removed the previous version of that lump, consistently in memory and on disk.",
 ["fault_sequences","inputs","histories"],"every failing call at every fill level and every single failing device write",
 "Tests check that an error is returned, never the state afterwards; device errors are never injected.",
 [S,JR,DR,RB],[("undo on failed append","storage.Storage.put"),("capacity checks before writing","journal.JournalRingBuffer.checkFreeSpace")],
 ["error returns; Get/List/Usage afterwards and after reopen"],(),"fault injection at device writes (build tag verif)")

prop("C07","Data blocks are exclusively owned and fully accounted",
 "At every moment no data block belongs to two lumps, free space plus space held by lumps plus space awaiting a sync equals the data capacity, and the reported largest segment is really allocatable. "
 "Once everything is deleted and synced the whole capacity is free again, including after reopen; nothing leaks or is freed twice on any path, including failures, overwrites and concurrent creations.",
 ["histories","schedules","fault_sequences"],"all histories of put/overwrite/delete/range-delete/failure/reopen, all fill levels",
 "Tests never relate the free count to live lumps and never inspect block ownership.",
 [S,DR,AL,AB,LI],[("allocate/release pairing","storage.DataRegion"),("restore from index","allocator.RestoreFromIndex")],
 ["Usage(); GetRecord(id) block ranges; allocation status"],[("free portions","two judy sets","allocator.JudyPortionAlloc")])

prop("C08","The block allocator never hands out overlapping or lost space",
 "For every sequence of allocations and releases, both allocators return a segment of exactly the requested length, disjoint from all segments in use and inside the capacity, fail exactly when no contiguous free run is long enough, merge neighbours so that free counts and the largest run are exact, and when rebuilt from the set of used segments behave the same.",
 ["histories","inputs","configurations"],"all allocate/release sequences and all used-segment sets, both implementations",
 "Tests try a handful of fixed sequences per allocator and never compare the two or check maximality after arbitrary fragmentation.",
 [AL,AB,"portion/portion.go"],[("best-fit over size tree + merge on start tree",AL)],["Allocate/Release/FreeCount/MaxSegmentSize/RestoreFromIndex"])

prop("C09","Concurrent operations are linearizable",
 "Operations issued concurrently on one store appear to take effect one at a time, each between its call and its return: a get never returns bytes of another lump, a mixture of two values, or a missing result for a lump that existed throughout, and no acknowledged update is lost.",
 ["schedules"],"all interleavings of concurrent puts, overwrites, offset updates, deletes, range deletes, reads, GC, sync and close, paused at every device access",
 "The one concurrency test writes disjoint ids and reads after completion; no overwrites, deletes or block reuse race with reads.",
 [S,DR,SN],[("index lock then journal lock",S)],["call/return history of the public API"],(),"pause points at device reads/writes (build tag verif)")

prop("C10","No deadlock; close is final and loses nothing acknowledged",
 "Any mix of concurrent calls, including close and snapshot calls, terminates. "
 "A call that returns success before or during a close is present after reopen, every call that starts after close has returned fails or reports nothing without touching the file, and closing twice is harmless.",
 ["schedules"],"all lock acquisition orders of concurrent API calls including close at every point",
 "Tests close a store only from one goroutine with nothing else running.",
 [S,SN],[("lock order",S),("opened flag checked under lock",S)],["call completion within a bound; reopen after close"],[("opened","store is open","storage.Storage.opened")],"pause points at device accesses (build tag verif)")

prop("C11","A snapshot reader returns the store image of the snapshot moment",
 "Bytes read through a snapshot reader, in any chunking, after any seek and while any writes, deletes, GC or resizes of lumps go on concurrently, are exactly the file image at the moment the snapshot was created, so that a copy made from it opens as a store with exactly the lumps of that moment.",
 ["schedules","histories"],"all interleavings of snapshot reads with store writes over any regions",
 "One test copies a snapshot without concurrent writes spanning regions and never opens the copy against an expected map.",
 [SN,S],[("copy-on-write before overwrite","nvm.SnapNVM.WriteAt/Write"),("region map","nvm.BackingFile.GetCopyOffset")],["bytes read; store opened from the copy"],[("tree","origin region -> backup slot","nvm.BackingFile.tree")],"pause points at origin reads/writes")

prop("C12","A snapshot survives reopen and crash and belongs to its own store",
 "After closing (or being killed) and reopening, an undeleted snapshot of a store is found again and still reads as the image of its creation moment, later overwrites are still preserved first, and a store never picks up, alters or deletes a snapshot of a store with a different path; deleting the snapshot removes it for good.",
 ["crash_points","configurations","histories"],"kills at every backing-file write, store paths with any directory or name, repeated reopen",
 "Snapshot tests work in the current directory with one store and reopen after clean close only.",
 [SN],[("backing-file journal replay","nvm.OpenBackingFile"),("lookup by name","nvm.NewSnapshotNVM")],["snapshot reader bytes after reopen; files in the store's directory"],(),"record of backing-file writes")

prop("C13","Range reads and in-place updates are byte-exact",
 "Reading a byte range of a lump returns exactly those bytes clipped to the lump's end, and writing at an offset changes exactly those bytes, for all offsets, lengths and block alignments. "
 "Requests that start beyond the lump, exceed its reserved space, or overflow are refused without any change and never crash; creating a lump with an offset and reservation zero-fills the rest.",
 ["inputs"],"all (size, offset, length) combinations across one or more blocks, block-stored and embedded lumps",
 "Tests use a handful of offsets inside one block; cross-block reads/updates and boundaries are not sampled.",
 [DR,S],[("block-aligned read-modify-write","storage.DataRegion.Update"),("clipping by padding trailer","storage.DataRegion.GetWithOffset")],["GetWithOffset/PutWithOffset/Get/GetSize results"])

prop("C14","The journal ring keeps records in order and never overwrites live ones",
 "Records appended to the journal are read back in append order, exactly once each, with their contents and positions, across any number of wrap-arounds and record sizes; an append either succeeds without touching any record not yet released or reports that the journal is full and changes nothing; and replay after reopening sees exactly the records appended since the stored head.",
 ["histories","inputs","crash_points"],"all sequences of append/dequeue/release with all record sizes on rings of few sectors",
 "Ring tests append a few records once; wrap-around with unreleased records and failing appends at the wrap is not covered.",
 [RB,JR,NB],[("free-space check and wrap marker","journal.JournalRingBuffer.Enqueue"),("iterators",RB)],["journal entries via dequeue/replay; embedded data reads"],[("unreleasedHead/head/tail","ring pointers",RB)])

prop("C15","The journal write buffer is transparent",
 "Seeks, reads and writes of any size and position through the journal's write buffer behave like direct reads and writes on a byte array; after a flush or sync the device holds exactly that array, and flushing never alters bytes outside those written.",
 ["inputs","histories"],"all sequences of seek/read/write/flush with positions around sector boundaries",
 "Buffer tests perform a few writes; overlapping rewrites that move backwards or shrink the buffered range are not covered.",
 [NB,"block/aligned_bytes.go"],[("write-back buffer of whole sectors",NB)],["bytes read back and device image"],[("writeBuf/writeBufOffset/maybeDirty","pending bytes",NB)])

prop("C16","Corrupted journal records are detected",
 "A journal record whose stored bytes were altered is reported as corruption when it is read and never silently interpreted as a different record, and every record that is written is read back identical.",
 ["inputs"],"all records and all single-byte alterations",
 "Codec tests round-trip one record of each kind and never alter bytes.",
 ["storage/journal/record.go"],[("adler32 checksum per record","storage/journal/record.go")],["ReadRecordFrom result"])

prop("C17","Writes stay inside their own region",
 "No operation ever changes the header sector after creation, journal activity never writes outside the journal area, and storing, updating or deleting a lump never changes a byte of a data block owned by another lump or of the journal's unreleased records.",
 ["histories","inputs","configurations"],"every device write of every history and region geometry",
 "Tests only read through the API, so a stray write into an unused or rarely read area goes unnoticed.",
 [FN,SN,"nvm/header.go",DR,NB],[("split views bound every access","nvm.FileNVM.Split/Write/WriteAt")],["device write offsets against lump block ranges"],(),"record of device writes")

prop("C18","A store file is open at most once; failed opens and creates leave no trace",
 "At any time at most one open handle owns a store file: a second open or a create over an existing store fails without altering the file, a failed open or create releases everything so that a later correct open succeeds, and after close the file can be opened again.",
 ["schedules","histories","configurations","fault_sequences"],"all sequences and concurrent attempts of create/open/close, invalid paths, headers and sizes",
 "Tests check the lock once through an external command and never probe failed opens or concurrent attempts.",
 [FN,"nvm/nvm_linux.go",S,"nvm/header.go"],[("exclusive file lock","nvm.lockFileWithExclusiveLock"),("refuse existing path","nvm.CreateIfAbsent")],["results of create/open/close; file bytes"])

prop("C19","The command-line tool preserves and reports store contents faithfully",
 "Each command-line invocation acts on the store as the corresponding map operation and its effect is visible to the next invocation; growing the data area, journal GC, dumps and header reports change no lump, growing makes the added space usable, and shrinking or invalid requests are refused unchanged.",
 ["histories","inputs"],"all sequences of create/put/put-file/get/delete/dump/journal/gc/resize invocations",
 "The tool has no tests at all.",
 ["cmd/kanils/main.go",S],[("open, one operation, close per invocation","cmd/kanils/main.go"),("header rewrite on resize","cmd/kanils/main.go:expandDataRegionSize")],["process output; store reopened through the API"])

prop("C20","The HTTP server never loses or confuses an acknowledged upload",
 "An upload acknowledged by the HTTP server is durable at that moment (it survives a kill right after the reply) and is returned byte-for-byte by a later download of the id in the reply; concurrent uploads that ask for a fresh id get distinct unused ids and never overwrite an existing lump; concurrent requests to take a lump never hand the same one out twice; a backup opens as a store with the lumps of one moment; and the server keeps serving after failed requests.",
 ["schedules","crash_points","histories"],"all interleavings of concurrent clients uploading, downloading, taking and snapshotting, killed at any time",
 "The server has no tests at all.",
 ["cmd/readup/main.go",S],[("single writer loop with group sync before replies","cmd/readup/main.go:ServeStore"),("fresh id = max id + 1","storage.Storage.GenerateEmptyId")],["HTTP replies; store reopened after kill"])

prop("C21","Garbage collection always reclaims journal space under churn",
 "With automatic GC on, an endless sequence of puts, overwrites and deletes whose live set needs only a small fraction of the journal never runs out of journal space and never blocks, and after deleting everything and running full GC the journal is empty again.",
 ["histories","configurations"],"unbounded churn histories over journals of any size of at least a few sectors, live sets up to a quarter of the journal",
 "The long-loop tests stop at the first error and still pass, and they keep no live lumps.",
 [JR,RB],[("refill the GC queue above half usage","journal.JournalRegion.gcOnce"),("release processed space","journal.JournalRegion.fillGCQueue")],["errors returned by puts/deletes; journal usage"],[("usage","bytes between unreleased head and tail",RB)])

prop("C22","Devices and split views behave as bounded, isolated arrays of sectors",
 "A memory, file or snapshot-capable device, and every view split from one (to any depth), reads back at each position what was last written there and holds exactly its capacity: a transfer that reaches behind the end is cut there, one that starts outside or is not aligned is refused and changes nothing, seeks return and set the position within the device (also relative to the position or the end), reads and writes advance only their own view by what they transferred, and a split at any aligned position within gives two views that together are the device and have nothing in common.",
 ["inputs","histories","configurations"],"all sequences of seeks, reads, writes (positioned or not), splits and syncs with all offsets and lengths on all device kinds and views of views, with and without a snapshot",
 "The tests make one split and a few transfers inside of the device; none looks at the rest of the device after an access at a border, outside, or through another view.",
 [FN,SN,"nvm/memory.go","nvm/nvm.go"],[("a view is a range of the file with its own cursor","nvm.FileNVM.Split/Seek"),("every transfer is cut at the end of the view","nvm.FileNVM.Read/Write/ReadAt/WriteAt"),("offsets relative to start, position and end","nvm.ConvertToOffset"),("regions saved before a write through any view","nvm.SnapNVM.Write/WriteAt")],
 ["results of the device calls; the bytes of the whole file; positions and capacities of all views"],[("views","start, end and cursor of each view","nvm.FileNVM")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
