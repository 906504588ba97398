#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Exact-match map semantics",
  "After any sequence of Add, overwriting Add and Remove on one writer handle, an exact lookup of a key returns success with the byte-exact value of the last successful Add/overwrite of that key that was not followed by a successful Remove, and not-found otherwise. A non-overwriting Add of a present key reports already-exists and changes nothing, and Remove of an absent key reports not-found and changes nothing. This holds for every key length from 1 to 256 bytes and every value length from 1 to 32767 bytes, for every byte content, and an update of one key never changes what any other key returns.",
  ["histories", "inputs"], "every history of Add/overwrite/Remove over any set of keys with any prefix relation, key bytes and lengths up to the limits and any value sizes",
  "Unit tests add and remove a few fixed or random key lists with short values; they do not combine splits, merges of compressed edges, buffer reuse, long edges, shared prefixes and large values in every order.",
  ["src/dict.cpp", "src/dict_mem.cpp", "src/detail/search_engine.cpp", "src/db.cpp", "src/free_list.cpp"],
  [("insert: new edge / split / node insert / data update", "dict.cpp Dict::Add, dict_mem.cpp AddRootEdge/AddLink/InsertNode/UpdateNode"),
   ("delete and node shrink", "dict.cpp DeleteDataFromEdge, dict_mem.cpp RemoveEdgeByIndex"),
   ("lookup", "detail/search_engine.cpp findInternal/traverseFromEdge")],
  ["DB::Add", "DB::Remove", "DB::Find"])

p("P02", "Count and iteration are exact",
  "On a quiescent database Count equals the number of keys present, a full iteration yields every present key with its current value exactly once and nothing else, and a prefix iteration yields exactly the present keys that start with the given prefix, each once. This is true after any history of insertions, overwrites, removals and clear-all.",
  ["histories", "inputs"], "every history of updates and every prefix (present, absent, ending inside a compressed edge, empty)",
  "Tests iterate after inserting a fixed list, or after removing everything; the reachable tree shapes and prefix end points are unbounded.",
  ["src/iterator.cpp", "src/dict.cpp", "src/db.h", "src/drm_base.h"],
  [("node-by-node traversal with a string queue", "iterator.cpp load_node/next_dbt_buffer/next"), ("prefix iterator setup", "iterator.cpp init/begin(prefix)"),
   ("entry counter", "dict.cpp Dict::Add/DeleteDataFromEdge")], ["DB::Count", "DB::begin", "DB::begin(prefix)"])

p("P03", "Longest-prefix lookup is exact",
  "A longest-prefix lookup returns the value of the longest present key that is a (non-strict) prefix of the query and reports that key's length as the match length; it reports not-found exactly when no present key is a prefix of the query.",
  ["histories", "inputs"], "every reachable set of keys and every query string, including queries ending inside compressed edges and queries longer than any key",
  "One unit test uses a handful of nested keys; whether an intermediate node's own value or a deeper partial match wins depends on tree shape.",
  ["src/detail/search_engine.cpp", "src/db.cpp"], [("prefix search keeping last match", "search_engine.cpp findPrefixInternal/traversePrefixFromEdge")], ["DB::FindLongestPrefix"])

p("P04", "Lower-bound lookup is exact",
  "A lower-bound lookup returns the largest present key that is not greater than the query in unsigned byte-wise lexicographic order, together with that key's value, and reports not-found exactly when no present key is less than or equal to the query. The answer does not depend on state left in reused output arguments.",
  ["histories", "inputs"], "every reachable set of keys and every query string with any byte values",
  "mb_bound_test runs one random key list against std::map on one tree shape; edge cases (long compressed edges, values on inner nodes, leaf root edges, bytes above 0x7f) need many shapes.",
  ["src/detail/search_engine.cpp", "src/db.cpp"], [("bounded descent with last-smaller-edge backtracking", "search_engine.cpp lowerBound/traverseToLowerBound")], ["DB::FindLowerBound"])

p("P05", "Contents survive close and reopen",
  "Everything the database answers (exact, prefix and bound lookups, iteration, count) is the same after closing all handles and opening the database again, in the same or another process, and a database that is reopened goes on obeying the map semantics for all later operations. Data of a reader opened at any time equals the writer's data.",
  ["histories", "configurations"], "every update history with close/reopen at any points and every legal memory-cap and block-size configuration, including data that spans several file blocks or lies outside the mapped window",
  "Tests reopen once after a simple fill and mostly look at the count; interplay of reopen with free lists, multiple blocks and unmapped blocks is not sampled.",
  ["src/db.cpp", "src/dict.cpp", "src/drm_base.cpp", "src/rollable_file.cpp", "src/free_list.cpp", "src/mmap_file.cpp", "src/resource_pool.cpp"],
  [("header mapping", "drm_base.cpp, dict_mem.cpp"), ("rollable block files", "rollable_file.cpp"), ("free list store/load on close/open", "free_list.cpp, drm_base.cpp")], ["DB::Close", "DB::DB"])

p("P06", "Readers never see torn or wrong data during updates",
  "While one writer performs any updates, each exact or longest-prefix lookup of any concurrent reader that reports success returns exactly a value that was current for the matched key at some moment between the lookup's start and end; it reports not-found only if the key was absent at some such moment, and otherwise may only ask to try again. Keys that are not being touched are always found with their value.",
  ["schedules", "histories"], "every interleaving of a lookup with the individual memory writes of any sequence of writer operations",
  "Tests run readers and a writer on threads and hit a handful of timings; a torn edge copy or a reused node appears only in particular interleavings.",
  ["src/lock_free.cpp", "src/lock_free.h", "src/detail/lf_guard.h", "src/detail/search_engine.cpp", "src/dict_mem.cpp", "src/dict.cpp"],
  [("modification counters and offset cache", "lock_free.cpp WriterLockFreeStart/Stop, ReaderLockFreeStart/Stop"), ("copy-on-write of nodes and edges", "dict_mem.cpp"), ("retry on modification", "search_engine.cpp")],
  ["DB::Find", "DB::FindLongestPrefix"])

p("P07", "A stalled or dead writer never blocks or misleads readers",
  "If the writer stops at any instruction, temporarily or for ever, every later reader lookup still terminates, still returns the exact current value of every key the interrupted operation does not concern, and for the key being updated returns its old or its new state. A reader can also be opened in that situation.",
  ["crash_points", "schedules"], "every stop point of the writer inside any update operation, and every key",
  "Abnormal-exit unit tests stop the writer at a few hand-picked points by constructing the header state by hand.",
  ["src/lock_free.cpp", "src/detail/search_engine.cpp", "src/dict_mem.cpp"],
  [("saved edge image for readers", "lock_free.cpp ReaderLockFreeStop"), ("publish order of new nodes and data", "dict_mem.cpp, dict.cpp")], ["DB::Find", "DB::FindLongestPrefix"])

p("P08", "A writer crash loses nothing but the update in flight",
  "If the writer process dies at any point, the next writer opens the database successfully and finds every key with exactly the value of its last completed update, except that the single operation in flight is either entirely applied or entirely not applied. After that, all further operations follow the map semantics, and no completed update is ever undone or corrupted later.",
  ["crash_points", "histories"], "every point (individual shared-memory store) at which the writer process can be killed in every operation of any history, including a crash during recovery, followed by any further operations",
  "The unit tests fabricate three or four exception states in memory; they cannot reach each store of each operation on each tree shape, nor the reuse of leaked buffers afterwards.",
  ["src/dict.cpp", "src/lock_free.cpp", "src/dict_mem.cpp", "src/db.cpp", "src/free_list.cpp"],
  [("exception record", "dict_mem.cpp header->excep_*, dict.cpp ExceptionRecovery"), ("write order inside each update", "dict_mem.cpp AddLink/InsertNode/UpdateNode")], ["DB::DB (writer)", "DB::Find", "DB::begin"])

p("P09", "At most one writer per database",
  "At any time at most one handle in all processes has a database open for writing; every other attempt to open it as writer fails with a writer-exists status and disturbs neither the existing writer nor the data. Once the writer closes its handle or its process dies, a new writer can open the database.",
  ["histories", "schedules"], "every sequence of writer opens, failed opens, closes and process deaths by any number of handles in any number of processes",
  "One unit test opens a second writer once; sequences with failed handles being closed, and several processes, are not covered.",
  ["src/db.cpp", "src/resource_pool.cpp", "src/util/utils.cpp"],
  [("advisory file lock and in-process path registry", "db.cpp PreCheckDB/Close, utils.cpp acquire_file_lock_wait_n, resource_pool.cpp")], ["DB::DB", "DB::Close", "DB::Status"])

p("P10", "Acknowledged async updates are applied once, in order",
  "Every Add, overwrite or Remove that a non-writer handle submits and that is acknowledged as accepted is applied to the database exactly once, and the accepted updates of one submitting thread take effect in submission order; an update answered with try-again or an error is never applied. After submitters stop and the async writer has drained, the contents equal the result of applying all accepted updates.",
  ["schedules", "histories", "configurations"], "every interleaving of several submitters with the async writer, every queue size from 1 to 8, queues full and wrapping around, submitters that die in the middle of a submission",
  "Multi-process tests add distinct keys once and then check presence; ordering, lost acknowledgements and wrap-around races need specific interleavings.",
  ["src/shmq_update.cpp", "src/shm_queue_mgr.cpp", "src/async_writer.cpp", "src/util/shm_mutex.cpp"],
  [("ring slots with in_use/num_reader ownership", "dict.cpp/shmq_update.cpp SHMQ_*"), ("consumer loop", "async_writer.cpp async_writer_thread")], ["DB::Add on a reader", "DB::Remove on a reader"])

p("P11", "Resource collection preserves the contents",
  "Running resource collection at any time leaves the set of keys and their values, the count and all lookup and iteration answers unchanged, leaves no pending garbage behind when it was not skipped, and the database keeps obeying the map semantics for every later operation and after reopening.",
  ["histories", "inputs"], "every update history, every mix of buffer sizes and tree shapes, thresholds on index and data collection separately, repeated collections, and data spanning several blocks",
  "Unit tests collect after one random fill/removal pattern and check lookups of the survivors once.",
  ["src/mb_rc.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/rollable_file.cpp"],
  [("reorder, compact and remap buffers", "mb_rc.cpp ReorderBuffers/CollectBuffers/MoveIndexBuffer/MoveDataBuffer")], ["DB::CollectResource", "DB::GetPendingDataBufferSize", "DB::Find"])

p("P12", "Reads and async updates during collection are correct",
  "A reader that looks up keys at any moment while resource collection runs finds every key that is present with its current value and no removed key, and updates submitted through the async queue while collection is running are applied exactly once and are visible after it finishes.",
  ["schedules"], "every point of a collection run at which a reader performs a lookup or a producer submits an update",
  "The collector is tested on a quiescent database; no test reads or submits at chosen points of a collection run.",
  ["src/mb_rc.cpp", "src/async_writer.cpp", "src/detail/search_engine.cpp", "src/dict.cpp"],
  [("separate RC root searched first by readers", "dict.cpp reader_rc_off, mb_rc.cpp ProcessRCTree"), ("task processing inside collection", "async_writer.cpp ProcessTask")], ["DB::CollectResource", "DB::Find"])

p("P13", "A crash during resource collection loses no data",
  "If the process dies at any point of resource collection, the database can be opened again by a writer, every key is found with exactly its value, no removed key reappears, and further operations and a further collection behave correctly.",
  ["crash_points"], "every shared-memory store of a collection run as a kill point, over databases with different garbage patterns",
  "The repository has one simulated abnormal exit during collection, at hand-written header states.",
  ["src/mb_rc.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/db.cpp"],
  [("rc exception states and recovery", "mb_rc.cpp ExceptionRecovery, header->rc_*, excep_lf_offset")], ["DB::DB (writer)", "DB::CollectResource"])

p("P14", "Eviction removes only the oldest entries",
  "When collection is asked to limit the database, the entries it removes are the least recently added or overwritten ones at bucket granularity: no surviving entry is in an older bucket than a removed one that was not since overwritten. Surviving entries keep their values, nothing is removed when the limits are not exceeded, exceeding the count limit by a factor of two removes something when the oldest entries are within reach of the pass, and the count matches what is left. (Ages are told apart as long as at most 65,535 buckets are in use.)",
  ["histories"], "every history of additions, overwrites and removals with any bucket size and any limits, including bucket-number wrap-around",
  "eviction tests check one fill pattern with one bucket size.",
  ["src/mb_rc.cpp", "src/dict.cpp"], [("bucket index from update counter", "dict.cpp ReserveData"), ("pruning", "mb_rc.cpp LRUEviction / async_writer.cpp PruneByLRU")], ["DB::CollectResource", "DB::Count"])

p("P15", "A backup is an exact independent copy",
  "A backup taken at any point is a complete database that opens and answers every lookup and iteration exactly as the source did at that moment; later changes to the source do not show in the backup, and taking a backup does not change the source.",
  ["histories", "configurations"], "every history before the backup, every data volume including several blocks, and any later changes to source or backup",
  "One test backs up one filled database and compares lookups.",
  ["src/mb_backup.cpp", "src/db.cpp"], [("header and file copy", "mb_backup.cpp DBBackup::Backup")], ["DB::Backup"])

p("P16", "The jemalloc allocation mode is semantically equivalent",
  "A database created in jemalloc mode obeys exactly the same map, prefix, bound, iteration, count and clear-all semantics as one in the default mode, for every history.",
  ["histories", "inputs", "configurations"], "every history and input in jemalloc mode, combined with prefix cache, clear-all and concurrent reader handles in the same or another process",
  "The jemalloc tests insert, look up and remove one generated key list in one order.",
  ["src/rollable_file.cpp", "src/dict_mem.cpp", "src/dict.cpp", "src/mmap_file.cpp"],
  [("arena over the mapped files", "rollable_file.cpp Malloc/Free/extent hooks"), ("reserve/release through the arena", "dict_mem.cpp, dict.cpp")], ["DB::*"])

p("P17", "jemalloc restart keeps all data or none",
  "Reopening a jemalloc database with the keep option gives back exactly the complete contents of the last writer and stays correct for later operations; without the option, or when the saved state cannot be trusted, it opens as an empty, fully usable database. It never opens with partial or corrupted contents, whether the previous writer closed or died.",
  ["histories", "crash_points", "configurations"], "every history, close/kill at any store, and repeated restarts with and without the keep option",
  "Rebuild tests restart after one generated load in an undisturbed state.",
  ["src/db.cpp", "src/dict.cpp", "src/rollable_file.cpp", "src/drm_base.h"], [("startup rebuild", "db.cpp RunStartupRebuild, dict.cpp startup shrink/rebuild")], ["DB::DB (writer)"])

p("P18", "Reader-guarded memory is not reused too early",
  "While the startup rebuild of a jemalloc database moves data, every concurrent reader keeps finding every key with its exact value, and no memory that a reader could still be using is reused before that reader has finished or died.",
  ["schedules", "crash_points"], "every interleaving of reader lookups with the rebuild and its quarantine draining, any number of readers up to and beyond the slot limit, readers that die inside a lookup",
  "The tests run a reader in a loop during one rebuild and look at counters.",
  ["src/db.cpp", "src/dict.cpp", "src/drm_base.h"], [("reader epoch slots and barrier fallback", "db.cpp BeginReaderEpochGuard/EndReaderEpochGuard"), ("quarantine", "dict.cpp")], ["DB::Find"])

p("P19", "The prefix cache is transparent",
  "With the prefix cache enabled, for the writer and for readers, every lookup gives exactly the answer it would give without the cache, after every history of insertions, overwrites, removals, clear-all, collection and reopening, and for readers that enable the cache later.",
  ["histories", "inputs", "schedules"], "every history and every key, in particular keys sharing their first 2 to 4 bytes with others, and cache slots that collide",
  "prefix_cache_test checks hits on keys that were just added; entries that become stale are not provoked.",
  ["src/util/prefix_cache.cpp", "src/detail/search_engine.cpp", "src/dict.cpp"], [("seeding", "dict.cpp SeedCanonicalBoundariesAfterAdd"), ("use", "search_engine.cpp seedFromCache / prefix_cache.cpp GetDepth")], ["DB::Find", "DB::FindLongestPrefix"])

p("P20", "Clear-all empties the database and only that",
  "Clear-all makes every key absent, the count zero and iteration empty; the database stays fully usable by the writer and by readers that were open before, and survives reopening. No value from before ever reappears, and a crash during it leaves every key either absent or with its exact old value.",
  ["histories", "crash_points", "configurations"], "every history around clear-all in default, jemalloc and prefix-cache modes, with readers open across it and with the writer killed at any store inside it",
  "Tests call RemoveAll on one filled database and check the count.",
  ["src/dict.cpp", "src/dict_mem.cpp", "src/free_list.cpp", "src/rollable_file.cpp"], [("reset of index and data", "dict.cpp RemoveAll, dict_mem.cpp ClearMem/ClearRootEdges")], ["DB::RemoveAll", "DB::RemoveAllSync"])

p("P21", "Rejected or mismatched opens do no harm",
  "Opening with an invalid configuration, in a directory without a database or with a damaged header, or with sizes or modes that do not fit the stored database, never yields a handle that gives wrong answers. An open that is refused (invalid configuration, missing directory, another owner), every open for reading, and the death of a process during such an open leave the stored data exactly as it was. A valid open for writing that cannot use what is stored (no or damaged header, different block or queue sizes or memory allocator) deliberately re-initialises: it yields an empty, fully usable database and nothing of the old contents; a process that dies in the middle of that leaves either something unusable, which the next writer re-initialises, or the finished empty database.",
  ["configurations", "fault_sequences"], "every sequence of opens with any mix of configurations, header truncation, version mismatch or file removal, updates, copies, and deaths at any point",
  "Header tests corrupt one field each; combinations, interrupted opens and the subsequent correct open are not checked.",
  ["src/db.cpp", "src/drm_base.cpp", "src/dict.cpp"], [("validation", "db.cpp ValidateConfig/PreCheckDB, drm_base.cpp ValidateHeaderFile"), ("re-initialisation", "db.cpp ReInit")], ["DB::DB", "DB::Status"])

p("P22", "Memory-only databases behave like file databases",
  "A memory-only database obeys the same map, prefix, bound, iteration, count, clear-all and collection semantics as a file database for the handles of its process, and leaves no files in the database directory.",
  ["histories", "configurations"], "every history on memory-only databases with writer and reader handles in one process",
  "One test adds and finds a few keys.",
  ["src/mmap_file.cpp", "src/rollable_file.cpp", "src/db.cpp", "src/resource_pool.cpp"], [("anonymous mappings shared through the resource pool", "resource_pool.cpp, mmap_file.cpp")], ["DB::*"])

p("P23", "Invalid arguments are rejected without effect",
  "Operations with out-of-range arguments (empty or over-long keys, empty or over-long values, null keys) or not permitted for the handle (lookup on an async writer, update on a closed handle) return an error and leave contents, count and later behaviour unchanged. Lookups with arguments longer than any storable key report not-found or the correct prefix rather than failing.",
  ["inputs", "histories"], "every operation, every boundary length, at every point of a history",
  "Only a few invalid calls are tried, on an empty database.",
  ["src/db.cpp", "src/dict.cpp", "src/shmq_update.cpp", "src/detail/search_engine.cpp"], [("argument checks", "dict.cpp Add/Remove, db.cpp Find/InDB")], ["DB::*"])

p("P24", "Space freed by updates is reused, never shared",
  "No two live keys or internal structures ever occupy the same storage, and storage freed by removals and overwrites is reused: freed storage is used again for the same size class (up to the capacity of the free lists, 256 buffers per class), so repeating a cycle of updates that returns to the same contents does not grow the used storage. Used storage is exactly what is live plus the reported pending garbage (apart from gaps at the ends of blocks after a collection), and the pending garbage is zero after a full collection.",
  ["histories"], "every cyclic history of additions, overwrites and removals with any mix of sizes, with reopens in between",
  "free_list_test exercises the list in isolation; leaks and double releases in whole-operation histories are not looked for.",
  ["src/free_list.cpp", "src/dict_mem.cpp", "src/dict.cpp", "src/drm_base.cpp"], [("size-class free lists", "free_list.cpp"), ("reserve/release", "dict.cpp ReserveData/ReleaseBuffer, dict_mem.cpp ReserveNode/ReleaseNode")], ["DB::GetPendingDataBufferSize", "DB::GetPendingIndexBufferSize", "DB::PrintStats"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
assert all(len(x["title"]) <= 80 for x in P)
print(len(P))
