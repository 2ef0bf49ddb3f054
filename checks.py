# The checks: binaries of the harness, and for each property the suites which decide it.
BINS = {
    'map': {'sources': ['h_map.cc']},
    'skip': {'sources': ['h_skip.cc']},
}
TOOLS = []
CHECKS = {}


def check(prop, bin, suites, rule, note, technique='stateful model-based property testing', secs=25,
          thorough_secs=600, level='exploration', assumptions=(), extra=(), **kw):
    runs = [dict(bin=bin, suites=suites, secs=secs, thorough_secs=thorough_secs, **kw)]
    runs += [dict(e) for e in extra]
    CHECKS[prop] = {
        'runs': runs, 'rule': rule, 'level': level, 'technique': technique,
        'level_note': note, 'assumptions': list(assumptions),
        'tools': any(r.pop('tools', False) for r in runs)}


HISTORY = ('A case is a generated tuning (file class, allocation, blocks, and every tuning parameter of '
           'the class) and a generated history of operations on few colliding keys; every answer is '
           'compared with a std::map model, and the whole content at the end and after reopening. '
           'Non-trivial: at least 3 operations, and at least 3 changed records.')
SEARCH = ('Random search with shrinking, under AddressSanitizer: it shows the absence of failures in the '
          'generated cases only. Trusted: the reference model in the harness, the compiler, the '
          'sanitizer, and the kernel\'s files on tmpfs.')

check('D01', 'map', 'hash_map', HISTORY, SEARCH)
check('D02', 'map', 'tree_map', HISTORY, SEARCH)
check('D04', 'map', 'mem_map', HISTORY, SEARCH)
check('D06', 'map', 'poly_shard', HISTORY, SEARCH)
check('D07', 'map', 'compound', HISTORY, SEARCH)
check('D03', 'skip', 'skip_sort',
      'A case is a generated tuning and a generated history of updates, removals, merges, '
      'synchronizations with a reducer, reverts, rebuilds and reopenings; the visible content is compared '
      'in every way of access with a stable sort and reduction. Non-trivial: at least 3 updates and a '
      'synchronization.', SEARCH)

PURE = ('A case is a generated input of the functions (boundary values, few-letter texts, arbitrary bytes, '
        'in buffers of exactly their size); the results are compared with straightforward reference '
        'definitions or by round trips. Non-trivial: an input which is not empty or of a single letter.')
BINS['str'] = {'sources': ['h_str.cc']}
check('S01', 'str', 'str_number,str_text,str_search,str_regex,str_codec', PURE, SEARCH,
      technique='property-based testing against reference definitions')
BINS['util'] = {'sources': ['h_util.cc']}
REFS = 'property-based testing against reference definitions'
check('S02', 'util', 'hash_codec', PURE, SEARCH, technique=REFS, secs=15)
check('S03', 'util', 'compress_rt', PURE, SEARCH, technique=REFS, secs=20)
check('S04', 'util', 'containers',
      'A case is a generated history on linked hash maps, LRU caches, heaps or sets, compared with lists '
      'and sets of the standard library. Non-trivial: at least 4 changes.', SEARCH, secs=15)
check('S07', 'util', 'time_util', PURE, SEARCH, technique=REFS, secs=15)
check('S08', 'util', 'comparators', PURE, SEARCH, technique=REFS, secs=15)

# The calls which the recorder of file effects replaces.
WRAP = ('open64 close pwrite64 pread64 write read fstat64 ftruncate64 truncate64 rename unlink fsync sync_file_range msync mmap64 '
        'mremap munmap memcpy memset __asan_memcpy __asan_memset').split()
BINS['crash'] = {'sources': ['h_crash.cc', 'fs.cc'], 'link': ['-Wl,--wrap=' + w for w in WRAP]}
CRASH = ('A case is a generated tuning and a generated history of updates, synchronizations, closes, rebuilds and '
         'clears, whose effects on the file system are recorded call by call (including stores to mapped memory). '
         'Then crash points are generated (half of them inside of a synchronization), the files at that moment are '
         'rebuilt, and the database is opened, compared, updated, closed and opened again. Each crash point is an '
         'evaluation. Non-trivial: at least 3 changed records%s.')
CRASHED = 'crash-point exploration over recorded file-system effects, against a model of the history'
check('R01', 'crash', 'crash_sync_hash,crash_sync_tree', CRASH % ' and a synchronization', SEARCH, technique=CRASHED)
check('R02', 'crash', 'crash_default_hash,crash_default_tree', CRASH % '', SEARCH, technique=CRASHED)
check('R03', 'crash', 'crash_replace_skip,crash_replace_mem,crash_rebuild_hash,crash_rebuild_tree,crash_restore_hash,crash_restore_tree', CRASH % ' and a synchronization', SEARCH, technique=CRASHED)
check('R04', 'crash', 'end_offset_hash,end_offset_tree',
      'A case is a generated tuning and a generated history in the appending mode, where the file size is observed after '
      'each operation (hash) or each synchronization (tree). Then the file, closed or copied while it is open, is restored '
      'to generated observed sizes and special offsets; each restoration is an evaluation, with full comparison, '
      'consistency checks, updates and reopening. Non-trivial: at least 3 changed records and 3 observed sizes.', SEARCH)
check('D05', 'map', 'cache_lru',
      'A case is a generated capacity and a generated history of reads, updates, removals, traversals, rebuilds with other '
      'capacities and reopenings on keys of few slots; the retained records are compared exactly with lists in the order '
      'of use. Non-trivial: at least 3 updates and an evicted record.', SEARCH, secs=15)
check('D08', 'map', 'iter_update',
      'A case is a generated class and tuning and a generated history of updates interleaved with up to 3 traversals, '
      'which also remove and set records through the iterators. For each traversal the records which were untouched, the '
      'ones seen and the order are tracked. Non-trivial: at least 3 changed records and 3 steps.', SEARCH)
BINS['conc'] = {'sources': ['h_conc.cc']}
CONC = ('A case is a generated class and tuning, and generated operations of 2 to 4 threads on few keys with generated '
        'delays, with synchronizing, rebuilding, counting, traversing or other updates in the background; the calls are '
        'stamped, and a sequential order which explains all results and the final content is searched. Then the database '
        'is validated and opened again. Non-trivial: at least 3 overlapping pairs of calls.')
LIN = 'generated concurrent histories with a linearizability checker'
check('T01', 'conc', 'conc_single,conc_first', CONC, SEARCH, technique=LIN, secs=20,
      extra=[dict(bin='conc', suites='conc_single,conc_first', flavor='tsan', secs=15, thorough_secs=600)])
check('T02', 'conc', 'conc_multi', CONC, SEARCH, technique=LIN, secs=20,
      extra=[dict(bin='conc', suites='conc_multi', flavor='tsan', secs=10, thorough_secs=400)])
check('D09', 'map', 'rebuild_hist', HISTORY + ' Online rebuilding is checked with concurrent histories (see T01). '
      'Non-trivial: at least 3 changed records and a rebuilding, or 3 overlapping pairs of calls.', SEARCH,
      technique='stateful model-based property testing, and ' + LIN, secs=15,
      extra=[dict(bin='conc', suites='conc_rebuild', secs=20, thorough_secs=600)])
BINS['file'] = {'sources': ['h_file.cc']}
check('S05', 'file', 'file_map,file_conc',
      'A case is a generated file class, allocation and access option, and a generated history of reads, writes, '
      'appends, expansions, truncations, synchronizations, renames, zones and reopenings, compared with a byte array and '
      'with the stored file; or generated operations of 2 to 4 threads on regions of their own and appended records. '
      'Non-trivial: at least 3 updates, or 20 concurrent operations.', SEARCH)
check('S06', 'file', 'path_util,fs_util,page_cache,file_readers',
      'A case is a generated pair of path expressions, or a generated history on a small directory tree, a page cache or '
      'a file of records, compared with a model. Non-trivial: at least 2 components, or 2 changes or records.', SEARCH, secs=20)
BINS['index'] = {'sources': ['h_index.cc']}
check('I01', 'index', 'index_str,index_std',
      'A case is a generated class of index, tuning, comparator and types, and a generated history of adds, removes, '
      'lookups, traversals, synchronizations, rebuilds and reopenings on few colliding pairs, compared with a set of '
      'pairs; the whole content at the end and after reopening. Non-trivial: at least 4 changes.', SEARCH, secs=20)
BINS['ulog'] = {'sources': ['h_ulog.cc']}
check('U01', 'ulog', 'ulog_map,ulog_param,ulog_skip,ulog_filter,ulog_strings',
      'A case is a generated class, tuning, logger and history of all kinds of updates, whose logs are replayed after each '
      'step and compared with the content; or generated logs of several servers and databases which are parsed, filtered '
      'and applied; or generated threads whose logs have to make the final content. Non-trivial: at least 3 logs (2 for the '
      'filters).', SEARCH, technique='stateful model-based property testing, sequential and concurrent',
      extra=[dict(bin='conc', suites='conc_ulog', secs=8, thorough_secs=300)])
BINS['mq'] = {'sources': ['h_mq.cc', 'fs.cc'], 'link': ['-Wl,--wrap=' + w for w in WRAP]}
check('U02', 'mq', 'mq_map,mq_crash,mq_parse_time,mq_conc,mq_fault',
      'A case is a generated history of writing, reading with several readers, timestamps, synchronizations, rotations, '
      'removals of old files and reopenings, compared with a list of messages and with the files; or a history with '
      'generated crash points or failures of opening the next file, or generated writers and readers in threads. Non-trivial: at least 3 messages, or a time '
      'expression with a unit or a sign.', SEARCH, technique='stateful model-based property testing with crash points and threads',
      extra=[dict(bin='mq', suites='mq_conc', flavor='tsan', secs=8, thorough_secs=300)])

BINS['async'] = {'sources': ['h_async.cc']}
check('T03', 'async', 'async_seq,async_par,async_drain,async_future',
      'A case is a generated class, tuning, number of workers and sequence of requests with generated waits, whose arguments '
      'are destroyed when the request has been made. With one worker every result, the calls of the postprocessor and the '
      'content equal those of the synchronous calls on another database; with several the results are explained by an order '
      'which respects the times of the requests (searched for); with requests by several threads each one is done once when '
      'the adapter is destroyed or drained. Non-trivial: at least 5 requests, or 2 at a time.', SEARCH,
      technique='differential property testing against synchronous calls, and ' + LIN, secs=20,
      extra=[dict(bin='async', suites='async_par,async_drain', flavor='tsan', secs=8, thorough_secs=300)])
BINS['search'] = {'sources': ['h_search.cc']}
check('S09', 'search', 'search_dbm,search_text',
      'A case is a generated class, tuning and set of keys of ASCII, multi-byte and invalid parts, or a text file, and '
      'generated queries: mode, pattern derived from the keys (or a generated regular expression in one of five grammars with '
      'its own matcher), capacity and stale results, compared with a naive scan. Non-trivial: a query which some but not all '
      'keys match.', 'Key sets of up to 400 keys. ' + SEARCH, technique='differential property testing against naive scans', secs=15)
BINS['xfer'] = {'sources': ['h_xfer.cc']}
check('R07', 'xfer', 'copy_live,xfer,import_foreign',
      'A case is a generated class, tuning and history with copies of the live database, to new places or over other files, '
      'each of which goes on with a history of its own (interleaved with those of the others) and is compared with a model of '
      'its own, also after reopening; or generated contents exported to another class, directly or by flat records, keys, '
      'text or escaped text in a file of a generated class, and imported. Non-trivial: a copy and at least 3 changes, or 3 '
      'records.', SEARCH, technique='stateful model-based and round-trip property testing', secs=18)
BINS['life'] = {'sources': ['h_life.cc']}
check('R08', 'life', 'life_dbm,life_file,life_lock',
      'A case is a generated class, tuning and sequence of lifecycle calls, legal or not: opens for reading and writing with '
      'every combination of options, of absent, impossible and already open databases and files, every operation of a closed '
      'object and every update of one open for reading, metadata changes, renaming, and reopening, checked against a state '
      'model and against the bytes of the files; or a database held by one process while others open it with and without '
      'waiting. Non-trivial: at least 4 events, or a refused lock.', SEARCH,
      technique='stateful model-based property testing', secs=20)
BINS['corrupt'] = {'sources': ['h_corrupt.cc']}
check('R05', 'corrupt', 'corrupt_hash,corrupt_skip,corrupt_mem,corrupt_restore,corrupt_crc,corrupt_mq,corrupt_text',
      'A case is a valid file of a class (or a foreign file) damaged by generated changes: bit flips, integers and lengths '
      'of extreme values, copied pieces, truncation, extension, insertion and erasure in headers, buckets, records and node '
      'bodies; then opening by any kind of file, any operations, validation, rebuilding, restoring and importing. Sanitizers '
      'and a time limit are the oracle, and with record checksums a model of everything written. Message queues, update logs, '
      'flat records and text are damaged likewise. Non-trivial: the bytes really changed and at least one call was made '
      'on the result.', SEARCH, technique='mutation-based fuzzing against sanitizers and a model', secs=25)
BINS['fault'] = {'sources': ['h_fault.cc', 'fs.cc'], 'link': ['-Wl,--wrap=' + w for w in WRAP]}
check('R06', 'fault', 'fault_hash,fault_tree,fault_skip,fault_mem',
      'A case is a generated tuning and history of operations, some of which are called with a generated failure of one '
      'system call (or of all later ones): write, truncation, opening, synchronization, renaming, mapping, reading and so on, '
      'with whole or half effects. After each, statuses, records and files are compared with what may be left, and the '
      'database is closed and opened without failures. Non-trivial: at least one call has failed.', SEARCH,
      technique='stateful model-based fault injection', secs=25)
BINS['thread'] = {'sources': ['h_thread.cc']}
check('T04', 'thread', 'thread_mutex_seq,thread_mutex,thread_queue,thread_counter,thread_signal,thread_set',
      'A case is a generated sequence of calls of a mutex, compared with a model of its holders; or generated threads '
      'with delays which lock keys, slots, buckets, all or several of them, exclusively or shared, with upgrading, '
      'downgrading and rehashing, and which track who holds what; or tasks, counters, signals and sets used by generated '
      'threads, which count what was done and received. A lost notification shows as a hang. Non-trivial: at least 3 '
      'changes or tasks, 4 concurrent operations, or 2 waiting threads.', SEARCH,
      technique='model-based property testing and generated concurrent histories with invariants', secs=20,
      extra=[dict(bin='thread', suites='thread_mutex,thread_queue,thread_counter,thread_signal,thread_set', flavor='tsan', secs=12, thorough_secs=400)])
BINS['langc'] = {'sources': ['h_langc.cc']}
check('L01', 'langc', 'langc_dbm,langc_util,langc_file,langc_index,langc_bulk,langc_leak',
      'A case is a generated class, tuning and history of operations through the C interface, synchronous or with futures, '
      'with explicit and implicit lengths in buffers of exactly their size, compared with the model of the C++ interface; or '
      'generated inputs of the string functions, histories on files and indices, whole contents exported, searched and '
      'restored; or repeated calls whose allocated memory may not grow. Non-trivial: at least 3 changes, or an input of at '
      'least 2 bytes.', SEARCH, technique='differential and stateful model-based property testing')
