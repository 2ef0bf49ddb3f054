#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("D01", "HashDBM is a faithful persistent map under every history and tuning",
 "For every sequence of operations (point, compound and multi-record updates, clear, iteration with removal, rebuild, synchronize, close and reopen) and every valid tuning (update mode, CRC, compression or encryption, offset width, alignment, bucket count, free-block pool, file class), every status, returned value, count and traversal of a hash database equals that of an in-memory map. "
 "A traversal or full scan of an unchanging database visits every record exactly once, in any mode. "
 "After any history the file also passes the library's own consistency checks.",
 ["histories", "inputs", "configurations"],
 "All operation histories over binary keys/values (empty, sizes around every varint/padding boundary, colliding buckets) x all tuning combinations x reopen points.",
 "Unit tests replay a few fixed histories with a handful of tunings; free-block reuse, in-place shrink/grow, duplicate versions in appending mode and reopen after each are combinatorial.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm.h", "tkrzw_dbm.cc"],
 [("bucket chains and record rewriting", "HashDBMImpl::ProcessImpl, ReadValueRecord, WriteNewRecord"),
  ("free block pool", "FreeBlockPool (tkrzw_dbm_hash_impl.cc)"),
  ("metadata save/load", "HashDBMImpl::SaveMetadata/LoadMetadata"),
  ("iterator by bucket", "HashDBMIteratorImpl::ReadKeys")],
 [("hash buckets", "file offsets of the newest record of each chain", "file region after the 128-byte header")],
 ["Status and out-parameters of the DBM interface", "ValidateHashBuckets/ValidateRecords"])

prop("D02", "TreeDBM is a faithful ordered persistent map for any comparator and tuning",
 "For every sequence of operations, page size, branch limit, cache size, page-update mode, hash tuning and built-in or custom key comparator, a tree database behaves as an in-memory map ordered by that comparator: values, statuses, counts, first/last, forward and backward traversal, and lower/upper jumps all agree. "
 "This still holds after the database is closed and reopened, synchronized, rebuilt or cleared at any point of the history.",
 ["histories", "inputs", "configurations"],
 "All histories x {page sizes from 1 byte up, 2+ branches, 1+ cached pages} x all comparators x reopen points x iterator positions.",
 "The tests use sequential keys and one or two page sizes; node division/merge at several levels, cache eviction in between, and cursors parked between leaves need generated histories.",
 ["tkrzw_dbm_tree.cc", "tkrzw_dbm_tree_impl.cc", "tkrzw_key_comparators.h"],
 [("division and merging of nodes", "TreeDBMImpl::DivideNodes/MergeNodes/ReorganizeTree"),
  ("page cache write back", "TreeDBMImpl::AdjustCaches/FlushLeafCacheOne"),
  ("persistent tree metadata", "TreeDBMImpl::SaveMetadata/LoadMetadata, TreeDBM::ParseMetadata"),
  ("cursor positioning", "TreeDBMIteratorImpl")])

prop("D03", "SkipDBM sorts, reduces and publishes updates exactly at synchronization",
 "For every stream of updates, sort memory limit, step unit, level and offset width, after a synchronization with a given reducer a skip database holds exactly the records obtained by stably sorting old records and new updates by key and applying the reducer to each key's values (removal markers resolved first); with no synchronization nothing new is visible and a revert discards the pending updates. "
 "Lookup by key, lookup by index, forward/backward traversal, jumps, counting and merging other skip databases agree with that sorted list, also after reopening.",
 ["histories", "inputs", "configurations"],
 "All update streams (duplicates, removals, any order) x all built-in reducers x tunings x sync/reopen/merge points.",
 "Tests cover one reducer at a time with small regular inputs; external-sort spills, multi-level skip offsets and merge order need arbitrary streams and sizes.",
 ["tkrzw_dbm_skip.cc", "tkrzw_dbm_skip_impl.cc", "tkrzw_dbm_skip.h"],
 [("external merge sort", "RecordSorter (tkrzw_dbm_skip_impl.cc)"), ("skip offsets", "SkipDBMImpl::WriteRecord, SkipRecord::Search"),
  ("finalization", "SkipDBMImpl::FinishStorage/UpdateRecords")])

prop("D04", "On-memory databases are faithful maps and survive save and reload",
 "For every sequence of operations and every valid tuning, the on-memory hash, on-memory tree, standard hash, standard tree, and (below capacity) cache databases return the statuses, values, counts and traversals of an in-memory map, in key order for the ordered ones. "
 "After synchronize or close with a file, reopening that file yields the identical content.",
 ["histories", "inputs", "configurations"],
 "All histories over binary keys/values x classes x bucket counts/comparators x save and reload points.",
 "Tests run common fixed scenarios on default tunings.",
 ["tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc"],
 [("flat record export/import", "FlatRecord, TinyDBMImpl::ExportRecords/ImportRecords"), ("B+ tree on memory", "BabyDBMImpl::DivideNodes/MergeNodes"),
  ("serialized records", "TinyRecord/CacheRecord")])

prop("D05", "CacheDBM evicts least-recently-used records and never exceeds its capacity",
 "For every sequence of operations and capacities, a cache database never retains more records than its record capacity nor more than its memory capacity allows, and evicts records only when a capacity is exceeded. "
 "The evicted record of a slot is the one least recently used (read or written, (read or written; plain traversals do not count)), every retained record has its latest value, and removed or evicted records are really gone.",
 ["histories", "inputs", "configurations"],
 "All histories x capacities; per-slot LRU order is a function of the whole history.",
 "Tests check counts after bulk insertion only, not which records remain.",
 ["tkrzw_dbm_cache.cc", "tkrzw_dbm_cache.h"],
 [("LRU list", "CacheSlot::Process/MoveToLast/FreeFirstRecord")])

prop("D06", "PolyDBM and ShardDBM add nothing but routing for every backend and parameters",
 "A polymorphic database configured by textual parameters behaves exactly as the class those parameters or the file extension select, and a sharded database behaves as the disjoint union of its shards: every operation, count, clear, rebuild, synchronize, copy, export and reopen acts on all the data of the union, and ordered backends are traversed in global key order in both directions. "
 "Unknown classes or inconsistent shard sets are refused with an error.",
 ["histories", "inputs", "configurations"],
 "All backends x textual parameter maps x shard counts x histories with multi-record operations across shards.",
 "Tests use a few classes and three shards with simple keys.",
 ["tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc"],
 [("parameter parsing", "GetClassImpl, SetHashTuningParams, ... (tkrzw_dbm_poly.cc)"), ("routing by hash", "ShardDBM::Process/ProcessMulti"),
  ("k-way merged iterator", "ShardDBM::Iterator")])

prop("D07", "Compound operations have their documented meaning on every database class",
 "On every database class, append, increment, compare-exchange (also with wildcards and multiple records), compare-and-append, rename of a key, pop of the first record, timestamped push, multi get/set/append/remove and export/copy produce the statuses, outputs and final contents their documentation defines in terms of plain get and set. "
 "A failing compound operation leaves every record unchanged.",
 ["inputs", "histories"],
 "All arguments (absent keys, equal keys, empty values, non-numeric values, extreme integers) x prior contents x classes.",
 "Each operation is tested with two or three argument combinations on one starting state.",
 ["tkrzw_dbm.h", "tkrzw_dbm.cc", "tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc"],
 [("record processors", "DBM::RecordProcessorIncrement, RecordProcessorCompareExchange, ..."), ("default method bodies", "DBM::Rekey, PopFirst, PushLast, CompareExchangeMulti")])

prop("D08", "Iterators stay correct while the database is being updated",
 "On every class, a traversal that runs while records are inserted, updated or removed reports each record that was present throughout and untouched exactly as stored, reports no record that never existed, terminates once updates stop, and on ordered classes never goes backwards. "
 "Removing through an iterator removes exactly the current record and moves to the next; operations on an invalidated iterator fail gracefully instead of misbehaving.",
 ["histories", "inputs"],
 "All interleavings of one or more iterators' moves with updates and clear/rebuild in one thread, all classes.",
 "Tests iterate over mostly static databases.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_skip.cc"],
 [("iterator lists and invalidation", "*IteratorImpl and iterators_ in each class")])

prop("D09", "Rebuilding preserves all content, also while updates go on",
 "Rebuilding a database with any new tuning keeps exactly the same records, count, metadata and record order, leaves a consistent file with no leftover temporary file, and reclaims space. "
 "Updates made by other threads during an online rebuild are neither lost nor undone.",
 ["configurations", "histories", "schedules"],
 "All contents x old/new tunings x concurrent update histories.",
 "Tests rebuild a fixed database a few times.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc"],
 [("append-while-copying rebuild", "HashDBMImpl::RebuildImpl"), ("import", "HashDBMImpl::ImportFromFileForwardImpl")])

prop("R01", "Appending mode with sync restore rolls back exactly to the last sync",
 "If a process or system crashes at any point while a hash or tree database in the appending mode is being used, opening it with the sync restore mode yields exactly the content at the last completed synchronization (or at the one that was in progress; while the database is being cleared, any part of it may be gone). "
 "The reopened database is usable: it can be updated, synchronized, closed and opened again without loss.",
 ["crash_points", "histories", "configurations"],
 "Every file-system operation of every history is a crash point, with the last write torn at any byte, plus loss of unsynchronized writes after hard synchronization.",
 "Tests copy an open file at one or two points.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_hash_impl.cc"],
 [("append-only records, header written at sync", "HashDBMImpl::Synchronize/SaveMetadata"), ("restore", "HashDBM::RestoreDatabase, HashDBMImpl::Open")])

prop("R02", "Default restore keeps every completed update after a crash",
 "After a crash at any point between file-system writes, opening a hash database whose file is not buffered in the process with the default restore mode yields every record as of its last completed update, except that the records of the operation in progress may be in the state before or after it (or, with in-place updates, missing); a tree database yields only records which existed, and every record untouched since the last synchronization if no page was divided, merged or being written meanwhile. "
 "No record that was never written appears, and the restored database passes consistency checks.",
 ["crash_points", "histories", "configurations"],
 "Every write boundary of every history in both update modes, all CRC modes and restore shortcuts.",
 "Tests kill at a clean operation boundary of a fixed history.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_tree.cc"],
 [("forward import of raw records", "HashDBMImpl::ImportFromFileForward"), ("shortcuts", "HashDBMImpl::Open")])

prop("R03", "File replacement is atomic: a crash leaves the old or the new database",
 "For databases stored by whole-file replacement (skip, on-memory hash and tree, cache and standard ones) and for rebuilds, a crash at any point during synchronize, close, rebuild or restore leaves a file that opens to either the previous or the new content, never a mixture or an unreadable file. "
 "A leftover temporary file does not affect later operations.",
 ["crash_points", "histories"],
 "Every file-system operation boundary and torn write inside each replacing operation.",
 "Tests never interrupt a save.",
 ["tkrzw_dbm_skip.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_hash.cc", "tkrzw_file_util.cc"],
 [("write temporary then rename", "SaveImpl of each class; DisablePathOfFile/Rename of File")])

prop("R04", "Any past file size of an appending database reproduces that moment's content",
 "For a hash database in the appending mode, restoring with the end offset set to a file size observed at some moment reproduces exactly the content at that moment, for every such moment since the last rebuild; special offsets mean the last synchronization and everything. "
 "Restoring never modifies the source file.",
 ["histories", "configurations"],
 "All histories x all observed sizes x all tunings, healthy or unclosed sources.",
 "Tests restore one or two fixed offsets.",
 ["tkrzw_dbm_hash.cc"],
 [("restore to an end offset", "HashDBM::RestoreDatabase, HashDBMImpl::ImportFromFileForward/Backward")])

prop("R05", "Corrupt or foreign files never crash the process and CRCs reveal damage",
 "Opening, reading, updating, validating, rebuilding, restoring, importing from or inspecting a file of any class, a message queue, an update log, flat records or TSV text whose bytes were altered, truncated, extended or are arbitrary ends with a status in bounded time, never with a crash, memory error or out-of-bounds access (for tree databases: restoring; operations on a tree whose node links were damaged are a known finding). "
 "With record CRCs of hash databases, damage to a value within the strength of the checksum is reported by validation and importing, and whatever restoring or importing returns is a record that had been written, never damaged data.",
 ["inputs", "fault_sequences", "configurations"],
 "All byte-level mutations of valid files of every format, and arbitrary files.",
 "Tests corrupt one or two fixed bytes.",
 ["tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip_impl.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_common_impl.cc", "tkrzw_message_queue.cc"],
 [("bounds and magic checks", "HashRecord::ReadMetadataKey, SkipRecord::ReadMetadataKey, FlatRecord::Read"), ("CRC check", "HashRecord::ReadBody/CheckCRC")])

prop("R06", "I/O errors are reported and never lose committed data silently",
 "When any single file-system call fails (no space, I/O error, permission) during any operation, that operation or the next synchronize or close reports an error, no later operation hangs or crashes, and no operation that was reported successful together with a successful close or synchronize is lost. "
 "The original database file is never deleted or replaced by an incomplete one because of such a failure.",
 ["fault_sequences", "histories"],
 "Every system call of every history as the failing one, each errno.",
 "Tests never inject faults.",
 ["tkrzw_file_pos.cc", "tkrzw_file_mmap.cc", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_tiny.cc"],
 [("status propagation", "Status operator|= chains; healthy_ flags")])

prop("R07", "Copying a live database file gives an independent usable snapshot",
 "The file produced by copying a live database is a complete database with exactly the content at the moment of the copy, and reading or further updating the copy or the original, in any update mode, loses or changes no record in either. "
 "Exporting to another database or to a flat file and importing back, or the text forms, transfers every record exactly.",
 ["histories", "inputs", "configurations"],
 "All contents (binary keys/values) x classes x update modes x later histories on both files.",
 "Tests copy and read back but rarely keep writing to the copy.",
 ["tkrzw_dbm.h", "tkrzw_dbm.cc", "tkrzw_dbm_hash.cc", "tkrzw_dbm_common_impl.cc", "tkrzw_file_util.cc"],
 [("copy inside exclusive synchronization", "DBM::CopyFileData, HashDBMImpl::Synchronize"), ("flat records", "ExportDBMToFlatRecords/ImportDBMFromFlatRecords, ExportDBMToTSV")])

prop("R08", "Open modes, locks, preconditions and metadata are honoured",
 "A database or file opened read-only is never modified on storage and refuses updates; operations on a closed object and double opens are refused without side effects; truncate, no-create, no-lock and no-wait options do what they say; two writers cannot hold the same file unless locking is disabled. "
 "Database type, opaque metadata, counts and sizes reported after reopening equal those set before.",
 ["histories", "configurations"],
 "All classes x open options x sequences of lifecycle calls, legal or not.",
 "Tests check a few legal lifecycles.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_file_pos.cc", "tkrzw_file_mmap.cc", "tkrzw_file_std.cc"],
 [("open flags and flock", "OpenFileWithLock paths in tkrzw_sys_*.h"), ("guards", "open_/writable_/healthy_ checks")])

prop("U01", "Replaying update logs reproduces the database",
 "For every update history on every updatable class with an update logger attached, applying the logged set, remove and clear operations in order to an empty database reproduces the final content exactly, and applying the logs between two synchronizations to the earlier state gives the later one. "
 "Serialized logs parse back to the same operation, and filters by timestamp, server and database index select exactly the matching logs.",
 ["histories", "inputs", "configurations"],
 "All histories incl. compound, multi-record, iterator-driven, sharded updates and clears.",
 "Tests log a few sets and removes.",
 ["tkrzw_dbm_ulog.cc", "tkrzw_dbm_ulog.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_shard.cc"],
 [("logging inside the record lock", "update_logger_->WriteSet/WriteRemove/WriteClear call sites"), ("log format", "DBMUpdateLoggerMQ::WriteLog/ParseUpdateLog/ApplyUpdateLog")])

prop("U02", "The message queue delivers every message once, in order, across files",
 "For every sequence of writes, timestamp updates, synchronizations, rotations, reopenings and removals of old files, each reader receives exactly the messages with a timestamp at or above its minimum, in writing order, with intact content and monotonic timestamps, whether reading live, waiting concurrently or afterwards from the files. "
 "After a crash at any point, all synchronized messages are readable and a writer can continue.",
 ["histories", "schedules", "crash_points"],
 "All write/reader histories x file size limits x crash points x reader/writer interleavings.",
 "Tests use one writer and fixed messages.",
 ["tkrzw_message_queue.cc", "tkrzw_message_queue.h"],
 [("rotation by size", "MessageQueueImpl::Write"), ("reader advance", "MessageQueueReaderImpl::Read"), ("message checksum", "MessageQueue::ReadNextMessage")])

prop("T01", "Concurrent operations on a database are linearizable",
 "For every class and every interleaving of threads issuing single-record operations (reads, updates, appends, increments, compare-exchanges, pops), there is one total order consistent with real time that explains every result and the final content. "
 "Counting, synchronizing, rebuilding and traversing at the same time never breaks this and never deadlocks.",
 ["schedules", "histories"],
 "All thread schedules of 2..8 threads over contended keys, for all classes and tunings.",
 "Tests check only a final count or sum after a fixed threaded workload.",
 ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_thread_util.h"],
 [("record and page locks", "HashMutex, SlottedMutex, leaf mutexes")])

prop("T02", "Multi-record operations are atomic and isolated between threads",
 "Multi-record processing, multi compare-exchange, rename of a key and synchronization with a file processor take effect as a whole: no concurrent multi-record read or locked reader ever observes a part of one, also across buckets, slots, pages and after restart. "
 "Concurrent multi-record operations on overlapping key sets in any order never deadlock.",
 ["schedules", "histories"],
 "All schedules of concurrent transfers over overlapping key sets, all classes.",
 "Tests run two or three record cases in one thread.",
 ["tkrzw_thread_util.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc"],
 [("ordered multi locking", "ScopedHashLockMulti, sorted leaf locking in ProcessMulti")])

prop("T03", "The asynchronous adapter gives the synchronous results through futures",
 "For every sequence of asynchronous calls, each returned future yields the status and values the same call would have produced synchronously at some point after the request, with a single worker the results equal sequential execution in order, and destroying or draining the adapter completes every request exactly once. "
 "Post-processors run once per completed task.",
 ["histories", "schedules"],
 "All call sequences x numbers of workers x waiting patterns.",
 "Tests call each method once.",
 ["tkrzw_dbm_async.cc", "tkrzw_dbm_async.h", "tkrzw_thread_util.h"],
 [("task queue", "TaskQueue, AsyncDBM::* tasks"), ("futures", "StatusFuture")])

prop("T04", "Threading primitives keep mutual exclusion and complete every task",
 "For every interleaving, the mutexes provided (slotted, spin, spin-shared, spin-write-preferring, rehashable key locks) never let a writer coincide with any other holder of the same key, upgrades and try-locks tell the truth, task queues run every accepted task exactly once before stopping, wait counters and signal brokers lose no wake-up, and atomic sets behave as sets.",
 ["schedules", "histories"],
 "All interleavings of lock/unlock/upgrade/rehash/enqueue/stop.",
 "Tests use a single fixed contention pattern.",
 ["tkrzw_thread_util.h"],
 [("lock words", "SpinSharedMutex, SpinWPSharedMutex, HashMutex"), ("queues", "TaskQueue, WaitCounter, SignalBroker, AtomicSet")])

prop("I01", "Secondary indices are exact multi-maps",
 "For every history of adds, removes and checks of key-value pairs, file, memory and standard-map indices of any key/value types and comparators contain exactly the set of pairs added and not removed; value lookups with a limit, existence checks, counts, and iteration from any jump point in both directions are exact and ordered. "
 "File indices keep this across synchronize, rebuild, close and reopen.",
 ["histories", "inputs", "configurations"],
 "All histories over arbitrary byte-string pairs (prefixes of each other, embedded NUL and 0xff) x index classes x comparators.",
 "Tests use short ASCII keys.",
 ["tkrzw_index.h", "tkrzw_key_comparators.h", "tkrzw_str_util.cc"],
 [("pair serialization", "SerializeStrPair, PairKeyComparator")])

prop("L01", "The C interface mirrors the C++ interface exactly",
 "For every sequence of calls, each C function returns the same outcome, sets the same status code and produces the same data and final database content as the corresponding C++ operation, with length-aware binary-safe arguments. "
 "Everything it allocates can be freed with the documented functions without leaks or invalid accesses.",
 ["histories", "inputs"],
 "All call sequences over binary data, null/implicit lengths and default arguments.",
 "Tests call each function once with ASCII data.",
 ["tkrzw_langc.cc", "tkrzw_langc.h"],
 [("wrappers", "tkrzw_dbm_*, tkrzw_async_dbm_*, tkrzw_index_*, tkrzw_file_*")])

prop("S01", "String utilities obey their definitions for arbitrary input",
 "For every input, conversions between numbers, text and byte strings, splitting and joining, searching, edit distance, escaping, Base64/URL/C/JSON-style encodings, case folding, UTF conversions and integer/float big-endian forms give the results of straightforward reference definitions; every encoder/decoder pair round-trips. "
 "Malformed input is handled without reading out of bounds.",
 ["inputs"],
 "All byte strings and numbers incl. extremes, empty, embedded NUL, malformed UTF-8/encodings.",
 "Tests use example tables.",
 ["tkrzw_str_util.cc", "tkrzw_str_util.h", "tkrzw_lib_common.cc", "tkrzw_lib_common.h"],
 [("codecs", "StrEncode*/StrDecode*, StrEscapeC/StrUnescapeC"), ("search", "StrSearch* family")])

prop("S02", "Hashes and checksums are stable, incremental and match the standards",
 "For every input and any split into pieces, continued hashing or checksumming equals the one-shot result, CRC-4/8/16/32 equal the standard bitwise definitions, MurmurHash equals its published algorithm, and FNV-1a is that of the library's frozen multiplier; bucket, shard and slot selection derived from them is deterministic, in range, and unchanged so that existing files stay readable. "
 "Variable-length and fixed-width integer encodings round-trip for every value.",
 ["inputs"],
 "All byte strings, seeds, split points, bucket counts and integers.",
 "Tests use a few constants.",
 ["tkrzw_hash_util.cc", "tkrzw_hash_util.h", "tkrzw_lib_common.cc", "tkrzw_str_util.cc"],
 [("hash kernels", "HashMurmur, HashFNV, HashCRC*Continuous"), ("integer codecs", "WriteVarNum/ReadVarNum, WriteFixNum/ReadFixNum")])

prop("S03", "Compressors and ciphers round-trip and reject damaged data safely",
 "For every input and every supported compressor or cipher and level, decompressing compressed data returns the original bytes and size, equal inputs stay decodable by a fresh instance with the same parameters, and metadata describes a compressor that can decode it. "
 "Decompressing arbitrary or damaged bytes never crashes; formats with checksums never return wrong data as success.",
 ["inputs", "configurations"],
 "All byte strings incl. empty, incompressible and large x classes x levels/keys x damage.",
 "Tests use one or two texts.",
 ["tkrzw_compress.cc", "tkrzw_compress.h", "tkrzw_sys_compress_aes.h"],
 [("codecs", "DummyCompressor, ZLibCompressor, ZStdCompressor, LZ4Compressor, LZMACompressor, RC4Compressor, AESCompressor")])

prop("S04", "Container templates behave as their reference containers",
 "For every operation history, linked hash maps, LRU and two-level LRU caches and heap/top-k helpers agree with a reference list-plus-map: lookups, order, moves to either end, removals, saturation and iteration, for any bucket count and rehash.",
 ["histories", "inputs"],
 "All operation sequences and sizes.",
 "Tests use short fixed sequences.",
 ["tkrzw_containers.h"],
 [("linked hash map", "LinkedHashMap"), ("caches", "LRUCache, DoubleLRUCache"), ("heap", "HeapByCost")])

prop("S05", "Every file class is an exact byte array, also with parallel access",
 "For every file class and access option, any history of reads, writes, appends, expansions, truncations, synchronizations, renames and reopenings returns the statuses, bytes, offsets and sizes of an in-memory byte array, and the stored file equals it after close. "
 "Concurrent appends and expansions get disjoint regions that together fill the file, and concurrent writes to disjoint regions never disturb each other.",
 ["histories", "inputs", "schedules", "configurations"],
 "All histories x {std, mmap, positional; parallel and atomic; block/direct/padding/mini-page/cache options} x allocation strategies.",
 "Tests use fixed offsets and one strategy.",
 ["tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_file_std.cc", "tkrzw_file_poly.cc", "tkrzw_sys_file_mmap_std.h", "tkrzw_sys_file_pos_std.h"],
 [("space allocation", "AllocateSpace/Expand/Append atomics"), ("truncation at close", "Close of each class")])

prop("S06", "File-system utilities follow the path and file algebra",
 "For every path string, normalization is idempotent, joining, splitting into directory, base name and extension are consistent with each other, and expressions with dots or repeated separators name the same file; reading, writing, appending, copying, renaming, atomic replacing, temporary naming, directory listing and recursive removal act exactly on the named files. "
 "Line reading and page-cache helpers return exactly the underlying bytes.",
 ["inputs", "histories"],
 "All path strings and small directory trees.",
 "Tests use a few sample paths.",
 ["tkrzw_file_util.cc", "tkrzw_file_util.h"],
 [("path functions", "NormalizePath, JoinPath, PathToBaseName, PathToDirectoryName"), ("line reader", "FileReader"), ("page cache", "PageCache")])

prop("S07", "Time utilities are mutually inverse and match the civil calendar",
 "For every time value and offset, formatting to and parsing from W3C-DTF and RFC 1123 forms agree with the proleptic Gregorian calendar and round-trip to the same second (and fraction where kept), time zone offsets included; calendar conversion and its inverse agree with the system library, expressions of no known form give NaN, and the result depends on the expression alone.",
 ["inputs"],
 "All times of years 1970..9999 and before, all offsets, arbitrary strings.",
 "Tests use a few dates.",
 ["tkrzw_time_util.cc", "tkrzw_time_util.h"],
 [("conversions", "MakeUniversalTime, FormatDateW3CDTF, ParseDateStrRFC1123, ParseDateStrW3CDTF")])

prop("S08", "Key comparators are total orders consistent with their meaning",
 "Every built-in key comparator, including the pair forms, is antisymmetric, transitive and total on arbitrary byte strings and orders keys by the meaning its name states (bytes, case-insensitive text, decimal, hexadecimal, real numbers, big-endian signed integers and floats, pairs by key then value). "
 "Keys they consider equal address the same record in every ordered database.",
 ["inputs"],
 "All byte-string pairs/triples incl. malformed numbers, NaN, different lengths.",
 "Tests compare a dozen pairs.",
 ["tkrzw_key_comparators.h", "tkrzw_str_util.h"],
 [("comparators", "LexicalKeyComparator ... PairFloatBigEndianKeyComparator")])

prop("S09", "Text search over a database finds exactly the matching keys in order",
 "For every database content, pattern, mode (contain, begin, end, regular expression, edit distance in byte or character form, contained word, case variants) and capacity, key search returns exactly the keys a naive scan selects, in the documented order, up to the capacity. "
 "Prefix search on ordered databases gives the same set as on unordered ones.",
 ["inputs", "configurations"],
 "All key sets, patterns incl. multi-byte and regex metacharacters, capacities.",
 "Tests use a handful of ASCII keys.",
 ["tkrzw_dbm_common_impl.cc", "tkrzw_dbm_common_impl.h", "tkrzw_dbm.h"],
 [("search dispatch", "SearchDBMModal, SearchDBM, SearchDBMForwardMatch, SearchDBMRegex, SearchDBMEditDistance")])

prop("X01", "Command-line tools act exactly as the library and report by exit status",
 "For every sequence of tool invocations creating, setting, getting, removing, listing, rebuilding, restoring, merging, exporting, importing and inspecting database or update-log files, the outputs, exit statuses and resulting files agree with the same operations performed through the library on the same data. "
 "A failing operation exits non-zero and leaves the database usable.",
 ["histories", "inputs", "configurations"],
 "All command sequences x classes x options over escaped binary keys/values.",
 "The make-check targets run a fixed script and only look at exit codes.",
 ["tkrzw_dbm_util.cc", "tkrzw_ulog_util.cc", "tkrzw_cmd_util.cc"],
 [("sub commands", "ProcessCreate/ProcessGet/ProcessSet/... in tkrzw_dbm_util.cc"), ("argument parser", "ParseCommandArguments")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
seen = set()
with open(out, "w") as f:
    for p in P:
        assert p["id"] not in seen; seen.add(p["id"])
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print("schema ok", len(P))
except ImportError:
    print("written", len(P))
