#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable as text)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Within a session the store behaves exactly like a map from id to bytes",
 "After any sequence of puts (whole, embedded, at an offset), deletes and range deletes, interleaved with syncs, flushes, background jobs, journal collection and snapshots, reading an object returns exactly the bytes the acknowledged operations left there, and an absent id is reported as absent. The reported object sizes and the replaced/deleted answers of the operations agree with that map. No operation accepted as valid input ever panics.",
 ["inputs","histories","configurations"],
 "all operation sequences over all ids and payload sizes, store capacities and journal ratios; journal wraps and space reuse included",
 "The tests run a handful of fixed sequences in large stores: no wrapped journal with live embedded objects, no overwrite with another kind of object, no misaligned payload buffers, no interleaving with GC or snapshots.",
 ["storage/storage.go","storage/data_region.go","storage/journal/region.go","storage/journal/ring_buffer.go","lumpindex/lump_index.go","block/aligned_bytes.go"],
 [("index maps id to data or journal portion","lumpindex/lump_index.go Get/InsertDataPortion/InsertJournalPortion"),("object data carries its padding length in the last two bytes","storage/data_region.go Put/Get"),("overwrite releases the previous portion","storage/storage.go Put/PutEmbed/deleteIfExist")],
 ["Get","GetSize","GetSizeOnDisk","return values of Put/PutEmbed/Delete/DeleteRange"])

p("C02","Closing and reopening a store changes nothing a user can observe",
 "After any history, closing the store and opening it again gives the same set of ids, the same bytes and sizes for every object, the same file count, the same free space and the same range-query answers. The reopened store keeps working as if it had never been closed, over any number of close/open cycles. Opening always terminates.",
 ["histories","configurations"],
 "all histories (puts of every kind, deletes, range deletes, GC, wraps of the journal, several reopen cycles) over store geometries",
 "Tests reopen a store two or three times after a few puts; none reopens with a wrapped journal, after range deletes mixed with GC, or compares free space and counts before and after.",
 ["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/allocator/judy_allocator.go","lumpindex/lump_index.go"],
 [("journal replay rebuilds the index","storage/journal/region.go RestoreIndex"),("allocator rebuilt from the index","storage/allocator/judy_allocator.go RestoreFromIndex"),("close flushes and syncs the journal","storage/storage.go Close")],
 ["CloseStorage + OpenCannylsStorage, then List/Get/Usage"])

p("C03","A crash at any device write loses nothing that was synced before it",
 "If the process stops after any individual device write or sync, what reached the device so far (device writes persist in order) opens again without error, in bounded time. Every object not touched since the last completed sync has exactly its synced contents, or is still absent; what reopens is exactly the state after some prefix of the operations issued since that sync: an object deleted, replaced or created since then has its old state or its new one, never anything else. (Replacing an object in a store too full to hold both versions is a delete followed by a put; an offset write in place may be partly done.) No two surviving objects share space, and the reopened store accepts new operations, collects its journal and reopens again with the same contents. Even without any sync call at most the last ten thousand changes can be lost, and none once two background jobs have run after them.",
 ["histories","crash_points"],
 "all histories x every device write/sync in them, including crashes inside journal wrap, GC relocation, header update, and while an earlier crash was being recovered from",
 "No test stops between two device writes; every test closes the store cleanly (which syncs) before reopening it.",
 ["storage/storage.go","storage/journal/region.go","storage/journal/ring_buffer.go","storage/journal/nvm_buffer.go","nvm/file.go"],
 [("data is written before its journal record","storage/storage.go put"),("end-of-records marker follows every record; wrap marker","storage/journal/ring_buffer.go Enqueue"),("journal head is only moved past entries already relocated and flushed","storage/journal/region.go fillGCQueue/GcAllEntries")],
 ["raw device contents after each write, reopened with OpenCannylsStorage"],
 "a callback after each device write and sync (build tag verif) so that every intermediate device image can be captured")

p("C04","Disk space is accounted for exactly: no sharing, no leaks, truthful usage",
 "At every moment no two objects occupy the same disk block and no object lies outside the data area, and the reported free space is exactly the data capacity minus the blocks the stored objects need. The reported file count is the number of stored objects. An object of the reported maximum segment size can be stored and a larger one is refused; a zero maximum means nothing fits. The reported journal usage is the part of the journal between its oldest kept byte and its end, and the allocation picture shows the occupied share of every 4 MiB of the data area.",
 ["histories","inputs","configurations"],
 "all histories, also right after reopen and after failed operations, up to a completely full store",
 "Tests check the free count after a few allocations of the allocator alone; no test compares the accounting with the live objects after overwrites, failures or reopen, nor fills the last block.",
 ["storage/storage.go","storage/data_region.go","storage/allocator/judy_allocator.go","lumpindex/lump_index.go"],
 [("allocator tracks free portions and a free counter","storage/allocator/judy_allocator.go addPortion/deletePortion"),("release on overwrite, delete and failure","storage/storage.go"),("object counter","lumpindex/lump_index.go counts")],
 ["Usage","GetRecord","GetAllocationStatus","StorageFull answers"])

p("C05","The space allocator hands out disjoint ranges and finds space when it exists",
 "For every sequence of allocations and releases each granted range has the requested length, lies inside the capacity and is disjoint from all other granted ranges; a request is refused only if no contiguous free run is long enough, and released neighbours join again. Free count, largest free run and per-area occupancy are exact. Rebuilding an allocator from the set of granted ranges gives an allocator with the same state, and the two allocator implementations agree on all of this.",
 ["inputs","histories","configurations"],
 "all allocate/release/restore sequences over small capacities (dense fragmentation) and capacities beyond the 24-bit run length limit",
 "Unit tests allocate and release a dozen fixed ranges and compare a few results; fragmentation patterns, restore from arbitrary sets and exactness of refusals are not reached.",
 ["storage/allocator/judy_allocator.go","storage/allocator/allocator.go","portion/portion.go"],
 [("size-ordered and start-ordered trees of free portions","storage/allocator/judy_allocator.go"),("merge of adjacent free portions on release","mergeFreePortions"),("rebuild from the used portions","RestoreFromIndex, RestoreFromIndexWithJudy")],
 ["Allocate/Release results","FreeCount","MaxSegmentSize","GetAllocationBitStatus"])

p("C06","Journal collection is invisible, complete, and keeps the journal from filling up",
 "Collecting the journal (automatically, by background jobs or in full), at any moment, never changes, loses or revives an object, now or after a reopen. A full collection leaves exactly the live records in the journal: as many entries as stored objects, and everything else reusable. With automatic collection always on (or, without it, with background jobs run often enough), a workload whose live records fit in an eighth of a journal of at least eight sectors runs forever without a journal-full error.",
 ["histories","configurations"],
 "all histories interleaved with automatic, background and full collection at every position, for all journal sizes; unboundedly long overwrite/delete workloads over a bounded live set",
 "Tests run full GC once on an unwrapped journal with a few records; none interleaves GC with range deletes and reopen, calls it with a partly processed queue, or runs many laps.",
 ["storage/journal/region.go","storage/journal/ring_buffer.go","storage/storage.go"],
 [("garbage test against the index","storage/journal/region.go isGarbage"),("relocation of live entries","gcOnce, GcAllEntries"),("release of the head","writeUnusedJournalHeader, ReleaseBytesUntil")],
 ["JournalSnapshot entries","Usage().JournalUsageBytes","Get/List before and after, and after reopen"])

p("C07","An operation that fails leaves the store as it was",
 "An operation that reports an error (out of data space, journal full, invalid size or offset, absent object, closed store) changes no other object and leaks no space. Its own target either keeps its old contents or, only when it was being replaced in a store without room for both versions, is consistently absent; the answer is the same now and after a reopen. A failed write leaves the caller's data unchanged, so that the same call can be repeated. A failed operation never blocks later valid ones, and deleting objects always makes an out-of-data-space store writable again.",
 ["histories","inputs","fault_sequences"],
 "all histories that run into full data space, a full journal, oversize or otherwise invalid arguments",
 "One test fills a store and expects the error; none looks at the state after the failure, or reopens after it.",
 ["storage/storage.go","storage/journal/ring_buffer.go","storage/data_region.go","lump/lump.go"],
 [("space checks before anything is written","storage/journal/ring_buffer.go checkFreeSpace"),("rollback of the allocation","storage/storage.go put"),("argument checks","storage/data_region.go Update/GetWithOffset, journal RecordEmbed")],
 ["error values, then Get/List/Usage and the same after reopen"])

p("C08","Every journal record survives encoding and decoding, at its declared size",
 "Encoding any journal record and decoding it gives the same record back, the encoded length is exactly the declared length, and consecutive records decode one after another. A record with any bit changed, or cut short, is never decoded into a different record (changes of several bytes that collide in the 32-bit checksum excepted).",
 ["inputs"],
 "all records of every kind with all ids, block ranges and payloads up to the maximum, all single-bit and short multi-byte changes, all truncations",
 "Tests encode one example of each kind; boundary lengths, corruption and truncation are not covered.",
 ["storage/journal/record.go","util/util.go"],
 [("adler32 over the record, stored in front","storage/journal/record.go CheckSum, ReadRecordFrom"),("declared sizes used for space accounting","ExternalSize")],
 ["WriteTo/ReadRecordFrom"])

p("C09","A damaged journal or image is refused, never silently turned into other data",
 "If bytes of the live journal records of a closed store are damaged (bits flipped, bytes or sectors overwritten) opening it either refuses loudly or gives exactly the undamaged contents. A file that is not an image of this format (wrong magic, version, header size, block size or region sizes), or that ends before the end of its journal records, is refused with an error. The same holds for the region table of a snapshot file next to the store. Damage to the data of an object changes at most what that object reads as, and it never reads as more than its own blocks hold. Opening never hangs or crashes, whatever the files hold.",
 ["inputs","fault_sequences","histories"],
 "all short damage patterns within the journal record area and the region table of a snapshot, and all single-field damage of the file header, over generated stores",
 "No test damages a journal; header tests try one or two wrong fields on an in-memory copy.",
 ["storage/journal/record.go","storage/journal/region.go","nvm/header.go","nvm/file.go","nvm/snapnvm.go"],
 [("checksum and tag check of every record","storage/journal/record.go ReadRecordFrom"),("magic, version and size checks","nvm/header.go ReadFrom")],
 ["OpenCannylsStorage on a damaged copy"])

p("C10","Every device layer behaves like a plain array of bytes",
 "For every sequence of aligned reads, writes, seeks, positional reads and writes, syncs and splits, a memory device, a file device, a snapshotting device (with or without an active snapshot) and any split view of them return exactly what was last written at each position, and writes never reach outside the view. Misaligned requests and ones that start outside the view are refused without effect; one that crosses the end of the view is cut there. A file device keeps its contents over close and open.",
 ["inputs","histories","configurations"],
 "all operation sequences over device sizes, view nestings and positions, including the last sector and never-written areas",
 "Tests use a few fixed offsets on one device; nested views, end-of-device clipping, unwritten areas and agreement between kinds of device are not covered.",
 ["nvm/memory.go","nvm/file.go","nvm/snapnvm.go","nvm/nvm.go"],
 [("view start/end arithmetic","nvm/file.go Split, Seek, ReadAt, WriteAt"),("alignment checks","nvm/file.go"),("copy-on-write in front of each write","nvm/snapnvm.go Write/WriteAt")],
 ["return values and contents of Read/Write/ReadAt/WriteAt/Seek/Position"])

p("C11","A snapshot is an exact, immutable image of the moment it was taken",
 "Reading a snapshot returns exactly the device contents at the moment it was created, whatever is written, deleted, collected or reopened afterwards and however the reads are sized and positioned, and saving it as a file gives a store with exactly the objects of that moment. Creating, reading and deleting snapshots never changes the live store. Snapshots of one store are never confused with those of another store in the same directory.",
 ["histories","inputs","configurations","schedules"],
 "all histories before and after the snapshot, all read sizes and seek patterns, reopen in between, several stores in one directory, concurrent writers, stores of megabytes to terabytes with any number of regions",
 "Tests overwrite a few regions and compare the whole image once; reopen in the middle, partly grown files, several stores, and odd read sizes are not covered.",
 ["nvm/snapnvm.go","storage/storage.go"],
 [("first write to a region saves its old contents","nvm/snapnvm.go Write, WriteAt, BackingFile.WriteOffset"),("reader picks saved or current region","SnapshotReader.Read"),("backing file found again on open","NewSnapshotNVM, OpenBackingFile")],
 ["GetSnapshotReader, CreateSnapshot, DeleteSnapshot, backup file opened as a store"])

p("C12","Ordered queries agree with the sorted set of stored ids",
 "Listing, range listing with a limit, first id at or after a bound, smallest and largest id answer exactly as the sorted set of stored ids does, over the whole 64-bit id space including both ends. A range delete removes exactly the ids in its half-open range. A generated empty id is never in use, and one is produced whenever any id is free.",
 ["inputs","histories"],
 "all sets of ids (dense, sparse, at 0 and at the maximum) and all bounds and limits, after any history",
 "Tests list a few small ids; ids above 2^63, the maximum id, empty and inverted ranges and limits are barely touched.",
 ["lumpindex/lump_index.go","storage/storage.go","lump/lump.go"],
 [("ordered JudyL array","lumpindex/lump_index.go"),("empty id choice","storage/storage.go GenerateEmptyId")],
 ["List","ListRange","First","MinId","MaxId","GenerateEmptyId","DeleteRange"])

p("C13","Reads and writes at an offset touch exactly the requested bytes",
 "Reading a range of an object returns exactly those bytes of it, cut at the object's end; ranges starting beyond the end are refused. Writing at an offset into an existing object changes exactly those bytes and nothing else, and never grows the object: a write that does not fit is refused without effect. Creating an object at an offset zero-fills everything around the payload and gives it the larger of the reserved size and the end of the payload.",
 ["inputs","histories"],
 "all object sizes, offsets, lengths (block boundaries, the padding area, 32-bit overflow included) and sequences of offset writes",
 "Tests use some random offsets inside one size of object; reads and writes straddling a block boundary by less than a block, the last bytes of a block and overflow are not reached.",
 ["storage/data_region.go","storage/storage.go","block/aligned_bytes.go"],
 [("read-modify-write of whole blocks","storage/data_region.go Update"),("block window of a range read","storage/data_region.go GetWithOffset"),("zero padding","storage/storage.go paddingWithZero")],
 ["GetWithOffset","PutWithOffset","Get","GetSize"])

p("C14","Create, open and close follow the documented life cycle",
 "A store file is created only where none exists (of several simultaneous creators exactly one succeeds, and it has what it asked for), with the requested capacity split into header, journal and data exactly as its header says; it is open in at most one place at a time, and closing or failing to open always makes it available again. On a closed store every operation reports that the store is closed (or gives its empty answer) without panicking, hanging or touching the file, and closing twice is harmless. Invalid paths and sizes are refused without leaving a file behind.",
 ["configurations","inputs","histories"],
 "all capacities, journal ratios and paths, all operations after close, all open/close orders including failing opens, all schedules of simultaneous creators and openers",
 "Tests create a few large stores and check one operation after close; tiny or odd geometries, locks after failures and the remaining operations are not covered.",
 ["storage/storage.go","nvm/file.go","nvm/nvm_linux.go","nvm/header.go"],
 [("exclusive non-blocking file lock","nvm/nvm_linux.go lockFileWithExclusiveLock"),("opened flag","storage/storage.go"),("geometry computation","storage/storage.go makeHeader")],
 ["CreateCannylsStorage/OpenCannylsStorage/Close and every operation afterwards"])

p("C15","Concurrent use is linearizable and never deadlocks",
 "When several goroutines use one store at once (reads, sizes, offset reads, puts, embedded puts, offset writes, deletes, range deletes, syncs, collection, background jobs, close) every result is one that some sequential order of the operations would give (a replacing put in a full store counts as a delete and a put), and the final contents are those of that order, in memory and after reopen. No combination of calls deadlocks, crashes or has a data race.",
 ["schedules","histories"],
 "all interleavings of concurrent operations on shared and distinct ids, including operations concurrent with close",
 "One test runs concurrent puts and gets without checking a history; no test uses the race detector, forces reuse of freed blocks under readers, or closes the store under load.",
 ["storage/storage.go","storage/data_region.go","nvm/snapnvm.go","nvm/file.go","lumpindex/lump_index.go"],
 [("index lock, then journal lock","storage/storage.go i, jr"),("allocator lock","storage/data_region.go"),("atomic counters","lumpindex, allocator, ring buffer")],
 ["recorded concurrent histories, checked with a linearizability checker; race detector"],
 "delays at device operations (build tag verif) to widen the interleavings")

p("C16","The storage header round-trips and describes the file exactly",
 "Writing any valid header and reading it back gives the same header, in exactly the declared number of bytes and padded to its block size. Any header whose magic, version, header size, block size or region sizes are not valid, and any truncated header, is refused. The regions a header describes partition the file: header, journal and data follow each other without gap or overlap.",
 ["inputs"],
 "all header field values (every block size, all region sizes up to and beyond the limits), all truncations and field mutations",
 "Tests round-trip the default header only.",
 ["nvm/header.go","storage/storage.go"],
 [("field-by-field codec with a limited reader","nvm/header.go ReadFrom/WriteTo"),("region split","SplitRegion, RegionSize, StorageSize")],
 ["WriteTo/ReadFrom/WriteHeaderRegionTo/SplitRegion"])

p("C17","Ids, integers, addresses, block ranges and buffers convert without loss",
 "Every id, fixed-width integer, address, block range and packed index entry converts to its other representations and back without loss, id order is numeric order over the whole range, and addresses, block ranges, id texts and id slices that are out of range are refused rather than truncated. An aligned buffer keeps its contents over every resize, alignment and construction, and always starts and ends on a block boundary in memory.",
 ["inputs"],
 "all 64-bit ids, 40-bit addresses, 16/24-bit lengths, all strings and byte slices, all buffer sizes and alignments of the source slice, all resize sequences",
 "Tests check single values; source slices at odd memory alignments, sizes near 2^16 and 2^24, and ids more than 2^63 apart are not covered.",
 ["lump/lump.go","util/util.go","address/address.go","portion/portion.go","lumpindex/lump_index.go","block/aligned_bytes.go","block/block.go"],
 [("big-endian helpers","util/util.go"),("bit packing of portions","portion/portion.go, lumpindex fromValueToPortion"),("aligned buffer arithmetic","block/aligned_bytes.go")],
 ["conversion functions and AlignedBytes methods"])

p("C18","A failing device is reported and never corrupts what is stored",
 "When a device read, write or sync fails (or the disk has no room for what a snapshot must save), the operation that needed it fails visibly (by an error, or by stopping with a panic where a sync of the journal fails) and is never acknowledged as done; objects it did not target keep exactly their contents, and no space is lost once the device works again. After reopening, every object that was synced before the first failure and not touched since has exactly its synced contents.",
 ["fault_sequences","histories"],
 "all histories x failure of any device read, write or sync in them (single, repeated, or from some point on)",
 "No test injects an I/O error.",
 ["storage/storage.go","storage/data_region.go","storage/journal/region.go","storage/journal/nvm_buffer.go","nvm/file.go"],
 [("error propagation from the device to the API","storage/data_region.go, storage/journal/*"),("rollback of allocations","storage/storage.go put")],
 ["operation results under injected device errors, state afterwards and after reopen"],
 "a callback before each device operation (build tag verif) that can make it fail")

p("C19","The command-line tool does what it says to the store file",
 "For every sequence of command-line calls (create, put of a value or a file, get, delete, dump, header, journal, journal collection, resize) each call prints and stores exactly what the same sequence on a map would give: what is put is what get prints and what any later program reads, whatever the file's size or contents. Resizing only grows the data area, keeps every object (and what an existing snapshot shows) and makes the new space usable. A failing call says so and leaves the store as it was.",
 ["inputs","histories"],
 "all command sequences with generated keys, values and files (empty, short, large, binary)",
 "The command has no tests at all.",
 ["cmd/kanils/main.go","storage/storage.go"],
 [("each command opens, acts and closes","cmd/kanils/main.go"),("file reader loop","readUpData"),("header rewrite","expandDataRegionSize")],
 ["process output and the store file, read back through the library"])

p("C20","The HTTP server keeps every acknowledged upload, even when killed",
 "An upload answered with success is returned byte for byte by a later download, including after the server process is killed at any moment and started again; an upload that was cut off either happened or did not; automatically chosen ids never overwrite an existing object and concurrent uploads all get their own answers. Downloads of absent ids and invalid requests get an error status and change nothing. A backup made through the server opens as a store with the contents of the moment it was requested (or of the snapshot that already existed then), while the server keeps serving.",
 ["schedules","crash_points","inputs","histories"],
 "all request sequences, concurrent uploads, and kill points",
 "The server has no tests at all.",
 ["cmd/readup/main.go","storage/storage.go","util/stopper.go"],
 [("group commit: put all queued requests, sync, then answer","cmd/readup/main.go ServeStore"),("id choice","chooseID"),("backup worker","/snapshot/backup")],
 ["HTTP responses of the server process; restarts after kill -9"])

p("C21","The journal write buffer is transparent",
 "For every sequence of seeks, reads, writes, flushes and syncs at arbitrary byte positions, the journal's write-back buffer returns exactly what was last written, never loses or moves a byte, and refuses writes beyond the end. After a flush the underlying device holds exactly the same bytes, and nothing outside the written sectors has changed.",
 ["inputs","histories"],
 "all sequences of byte-granular operations, positions in every relation to the buffered window (before, inside, adjoining, across, beyond), all device sizes",
 "Tests do a handful of forward writes; backward overwrites of a multi-sector buffer, gaps, and reads across the buffered window are not reached.",
 ["storage/journal/nvm_buffer.go","block/aligned_bytes.go"],
 [("buffered window extended or flushed on each write","storage/journal/nvm_buffer.go Write, flushWriteBuffer"),("flush before overlapping reads","isDirty, Read")],
 ["Read/Write/Seek/Position/Flush and the device underneath"])

p("C22","Snapshots taken and read while others write are consistent points in time",
 "A snapshot created or read while other goroutines write, delete and collect opens as a valid store, and its contents are those of one single moment between the start and the end of the creating call: objects written together in order never appear out of order, and no object appears torn. Reading it never blocks or disturbs the writers, and has no data race with them.",
 ["schedules","histories"],
 "all interleavings of writers with snapshot creation, reading and deletion",
 "Snapshot tests are single-threaded.",
 ["nvm/snapnvm.go","storage/storage.go"],
 [("device lock shared by all views","nvm/snapnvm.go rawSnapNVM.mu"),("copy-on-write under the write lock","SnapNVM.Write/WriteAt")],
 ["snapshot image opened as a store, compared with the recorded history"],
 "delays at device operations (build tag verif)")
p("C23","A store leaves nothing behind: no files, goroutines or native memory",
 "Closing a store, and failing to create or open one, releases everything it had: open file descriptors, background goroutines and the memory allocated outside of Go for its index, its free space and its snapshot, without the help of finalizers; no temporary file stays in the directory. While a store stays open, a history that ends with the store empty again (writes, deletes, queries, journal collection, snapshots created, read and deleted) holds no more of these than before, however often it is repeated.",
 ["histories","inputs","faults"],
 "all histories of operations and all kinds of refused creations and openings, repeated any number of times",
 "Tests open a store once or twice per process and never look at what is left; a leak shows only after many repetitions, as an exhausted process.",
 ["storage/storage.go","storage/allocator/judy_allocator.go","lumpindex/lump_index.go","nvm/file.go","nvm/snapnvm.go","storage/journal/ring_buffer.go","util/stopper.go"],
 [("native trees freed by hand","storage/storage.go Close, lumpindex Free, judy_allocator Free"),("clean-up on failing paths","storage/storage.go OpenCannylsStorage, nvm/file.go Open"),("background worker stopped by Close","util/stopper.go"),("temporary native bitmap","judy_allocator.go GetAllocationBitStatus")],
 ["CreateCannylsStorage/OpenCannylsStorage/Close and every operation; /proc/self/fd, goroutine count, allocator statistics, directory"],
 "device errors while opening come from a callback (build tag verif)")

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
