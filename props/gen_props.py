# Writes properties.jsonl (kept so that statements are edited in one readable place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
S,L,Q,R,ST,T="src/shard.rs","src/lists.rs","src/queues.rs","src/router.rs","src/store.rs","src/typed.rs"
p("C01","Concurrent key-value operations are linearizable",
"Every get, contains, set, replace (with or without an expected value), get_or_create and remove takes effect atomically at one instant between its call and its return, also while shards are being compacted in the background, split or merged. In particular the previous values they return form one sequential history per key, and get_or_create / compare-and-replace let exactly one of several racing callers win.",
["schedules","histories","configurations"],"all interleavings of client threads with each other, with background compaction threads and with splits and merges, for all shard sizes and thresholds",
"test_multithreading and test_atomics run a few real-thread races whose interleaving nobody controls, with shards too big to compact or split during the race; the row-by-row hand-over between the old and the compacted file is never raced on purpose.",
[S,R,ST],[("row locks held across lookup+write",S+": operate_on_row_mut"),("choice of source/target file by compacted_up_to",S+": operate_on_row"),("re-routing after a split",R+": insert"),("upgrade and swap at end of compaction",S+": background_compact")],
[("compacted_up_to","rows below it live in the compaction target",S)],["CandyStore public KV methods"])
p("C02","Acknowledged key-value operations survive a process crash",
"After the process is killed at any instant and the store is reopened, every key holds the outcome of the last operation that was acknowledged on it, and an operation that was in flight has either happened completely or not at all; no read ever returns bytes that were never written as that key's value. This holds again after any number of further crashes, including crashes during reopening.",
["crash_points","schedules","histories","configurations"],"every instruction boundary at which durable state changes (each store to the mapped header, each write, each file-system operation), in foreground and background threads, repeatedly",
"candy-crasher kills a child at random wall-clock times with a handful of big shards; nothing in the test suite places a crash between the individual header stores, inside a split, a compaction or a recovery.",
[S,R,ST],[("value bytes, then offset, then signature publication",S+": insert"),("write to temp file then rename",S+": split, begin_compaction"),("resume of an interrupted compaction",S+": open"),("largest overlapping shard wins",R+": consolidate_ranges")],
(),["CandyStore::open","get","iter"])
p("C03","The store always reopens after a crash",
"After a process crash at any instant - during first creation, normal operation, clear, split, compaction, merge or a previous recovery - opening the same directory with the same configuration succeeds without manual repair, neither panics nor hangs, and the store it returns accepts and serves operations normally.",
["crash_points","schedules","configurations"],"all crash points in all life-cycle phases, several crashes in a row, all initial-shard counts and shard sizes",
"The existing tests only reopen stores that were dropped in an orderly way, and candy-crasher never crashes the initial creation, clear or the recovery itself on purpose.",
[S,R,ST],[("shard discovery and consolidation",R+": load, treeify"),("header validation",S+": Shard::open"),("initial shard creation and clear",R+": create_initial_shards, clear")],
(),["CandyStore::open"])
p("C04","Behaves as a plain map under any history and configuration",
"For any sequence of key-value operations, with any mixture of usable shard sizes, compaction thresholds, initial shard counts and compaction threads, and with compactions, splits, merges, flushes and orderly close/reopen happening in between, every operation returns what the same operation on an in-memory map returns, and the final contents are equal.",
["histories","inputs","configurations","schedules"],"all operation sequences, key and value sizes including empty, all configurations whose shard has room for a few entries of the sizes used beyond its compaction threshold, all timings of background compaction relative to the single client",
"Tests use one or two fixed configurations and mostly check one feature at a time; where background compaction is in its 64-row walk when an operation arrives is left to chance.",
[S,R,ST],[("lookup by signature then full key",S+": get, try_replace"),("copying live entries",S+": do_compaction, split, merge"),("drop waits for compaction",S+": Drop for Shard")],
(),["CandyStore public KV methods"])
p("C05","Lists behave as insertion-ordered maps",
"For any sequence of list operations on any number of lists, each list behaves as an insertion-ordered map: setting an existing item keeps its position, promoting moves it to the tail, pops and peeks return the true head or tail, forward and backward iteration give exactly the live items in order and in reverse order, and list_len equals their number while no operation has been interrupted. Removals leaving holes, list compaction, discarding, shard compaction, splits and reopening never change what is observed.",
["histories","inputs","configurations","schedules"],"all operation sequences over several lists and items, all configurations, all background-compaction timings",
"test_lists checks a few hand-written sequences; interactions of removal at head, tail and middle with re-insertion, promotion, compaction of the list and relocation of shards are unexplored.",
[L,S],[("list header {head,tail,count}",L+": List"),("chain entries index->item hash",L+": get_from_list_at_index"),("index suffix on the item value",L+": _insert_to_list")],
(),["set_in_list","iter_list","pop_list_head","list_len"])
p("C06","Queues behave as double-ended queues with stable indices",
"For any sequence of queue operations each queue behaves as a double-ended queue: elements come out in order from either end, an element keeps the index returned when it was pushed until it is removed, tail pushes get indices above and head pushes indices below every live element, removal by index removes exactly that element, and iteration, peeks, queue_len and queue_range agree with the live elements.",
["histories","inputs","configurations","schedules"],"all sequences of pushes, pops, extends, indexed removals and discards at either end, all configurations and background timings",
"test_queues covers a few fixed sequences; removing the only or an edge element by index, and continuing afterwards, is one of many unexercised combinations.",
[Q,S],[("queue header {head,tail,count}",Q+": Queue"),("per-index item keys",Q+": make_queue_item_key")],
(),["push_to_queue_tail","pop_queue_head","remove_from_queue","iter_queue"])
p("C07","Concurrent list and queue operations are linearizable",
"Concurrent insertions, replacements, removals, lookups, pushes, pops, peeks, extends and length queries on the same list or queue take effect atomically, as if executed one after the other: every element is popped or removed exactly once and with its current value, none is lost or duplicated, and a pop or peek reports emptiness only if the list or queue was empty at some instant during the call.",
["schedules","histories"],"all interleavings of client threads on shared and on different lists and queues, with background compaction and splits",
"test_list_multithreading style tests only check end totals after uncontrolled real-thread races.",
[L,Q],[("keyed lock per list/queue",L+": lock_list"),("pop = iterate then remove",L+": owned_pop_list_head"),("header update under lock",Q+": _push_to_queue, _pop_queue")],
(),["pop_list_head","pop_queue_head","set_in_list","push_to_queue_tail"])
p("C08","Lists and queues stay consistent across process crashes",
"After a crash at any instant and a reopen, acknowledged list and queue operations are fully present and an interrupted atomic one (set, replace, get_or_create, remove, pop, push) is either entirely visible or entirely absent: looking an item up and iterating always agree, the order of surviving elements is unchanged, none appears twice. All later operations on these lists and queues keep behaving normally and never panic.",
["crash_points","schedules","histories"],"every durable-state change inside multi-step list and queue operations, repeated crashes, continued operation afterwards; operations documented as not crash-safe (promotion, list compaction) and bulk ones (discard, extend) are checked only for the items they do not touch",
"No test crashes inside a list or queue operation; each of them performs two to four separate durable updates.",
[L,Q,S],[("order of header / chain / item updates",L+": _insert_to_list, owned_remove_from_list"),("order of header / item updates",Q+": _push_to_queue, _pop_queue")],
(),["get_from_list","iter_list","iter_queue"])
p("C09","Iteration is complete and never returns garbage",
"An iteration over a quiescent store yields every live key exactly once with its current value and nothing else, also when stopped and resumed from its cookie at any point. While other threads insert, replace and remove keys, and the store compacts and splits shards because of it, every key that is left untouched during the iteration is still yielded, and every yielded pair was really stored under that key at some time during the iteration.",
["schedules","histories","configurations"],"all interleavings of an iterator (stopped and resumed at any entry) with writers, compactions and splits; merges and clear during an iteration are excluded",
"Tests iterate quiescent stores or stores with one big shard, so entries never move under the iterator.",
[ST,S],[("position = shard, row, column",ST+": CandyStoreIterator"),("row hand-over during compaction and split",S+": do_compaction, split")],
(),["iter","iter_raw","iter_from_cookie"])
p("C10","At most one open store per directory",
"While a store is open on a directory every other attempt to open it fails with an error and disturbs nothing; after it has been closed, dropped, has failed to open, or its process has crashed, the directory can be opened again. This holds for any number of racing openers.",
["schedules","crash_points","fault_sequences"],"all interleavings of racing opens, closes and crashes, also with stale lock files and failing opens",
"test_loading style tests open one store at a time; a race of two opens or a lock left by a crash is not tested.",
[ST],[("flock on .lock taken before any shard is touched",ST+": CandyStore::open")],
(),["CandyStore::open"])
p("C11","I/O errors never lose or corrupt acknowledged data",
"When file-system calls fail (I/O error, disk full, failing open, rename, unlink or sync) or are interrupted or only partly done, each affected operation reports an error or succeeds properly, every key still reads as its last acknowledged value or as the value of a failed attempt to change it and never as anything else, and short or interrupted reads and writes go unnoticed. Once the errors stop, operations, compactions and splits work again, at once and after a reopen, without losing anything acknowledged.",
["fault_sequences","schedules","histories"],"failure of any single or several file-system calls at any point of foreground operations, background compactions, splits, merges and opening",
"No test injects a failing or short system call.",
[S,R,ST],[("error propagation",S+": write_kv, begin_compaction, split"),("failed background compaction",S+": background_compact, wait_for_compaction")],
(),["all CandyStore methods"])
p("C12","Flushed data survives power loss",
"Everything acknowledged before a flush() that returned successfully, and not modified afterwards, is readable with exactly its value after a power failure at any later instant at which no shard is part-way through a compaction, no matter which later unsynced pages reached the disk and regardless of compactions and splits before, during or after the flush.",
["crash_points","schedules","fault_sequences"],"all power-failure points after a flush (README: a machine crash part-way through a compaction may leave the store inconsistent, so those are process kills here), all subsets of unsynced pages and all prefixes of unsynced directory operations, all timings of background compaction",
"Tests never lose the page cache; flush() is called only in smoke tests.",
[S,ST],[("fdatasync of each shard",S+": flush"),("rename of compaction and split results",S+": background_compact, split")],
(),["flush","open","get"])
p("C13","With flush aggregation every acknowledged write survives power loss",
"With the flush_aggregation feature and a delay configured, every set, replace, get_or_create and remove that has returned success, and whose key was not modified afterwards, survives a power failure at any later instant at which no shard is part-way through a compaction, for any number of concurrent writers sharing a sync and any concurrent compactions and splits; and no combination of writers, compaction and sync deadlocks.",
["crash_points","schedules","fault_sequences"],"all interleavings of writers around the aggregation window, all power-failure points, all subsets of unsynced pages",
"test_flush_agg measures elapsed time only; it never loses power and never runs compaction concurrently.",
[S],[("leader/follower sync with delay",S+": flush_aggregation")],
(),["set","remove","open","get"])
p("C14","No deadlock, no lost wake-up, bounded progress",
"Any mixture of concurrent public operations - including stats, flush, clear, merge_small_shards, iteration, list compaction and dropping the store - completes: no operation waits forever, none panics, and dropping the store returns and ends all of its background threads.",
["schedules","configurations","fault_sequences"],"all interleavings of all public operations with fair scheduling, all compaction-thread counts, tiny to large shards",
"Tests time out only by chance; lock-order inversions between the router, file, row, compaction-handle and list locks need specific interleavings or unbalanced shard trees.",
[R,S,L],[("lock hierarchy node > compaction handle > files > row",R+", "+S),("merge recursion",R+": _merge"),("waiting for compaction",S+": wait_for_compaction")],
(),["all CandyStore methods"])
p("C15","Statistics account for exactly the live data",
"Whenever no operation is in progress, stats().num_entries() equals the number of live entries and data_bytes() is never smaller than their total key and value size, and exactly equal to it if no crash or I/O error has happened; num_shards equals the number of shard files (after an I/O error, from the next clean open on). Asking for statistics never fails or panics, also after crashes and while other operations run.",
["histories","crash_points","schedules"],"all histories with compactions, splits, merges, reopenings and crashes; concurrent stats calls",
"Tests compare stats on a few fixed sequences without crashes or concurrency.",
[S,"src/stats.rs",R],[("insert/remove/wasted counters in the header",S+": insert, remove, do_compaction"),("aggregation",ST+": stats")],
(),["stats"])
p("C16","Disk usage stays bounded and no stray files remain",
"The total size of a store's files stays bounded by a function of its live data and configuration no matter how many times keys are overwritten, removed and re-created; obsolete shard files and leftovers of interrupted splits, merges, compactions or clears are gone after the next open without I/O errors and never influence the contents.",
["histories","crash_points","configurations"],"arbitrarily long overwrite/delete histories, all crash points",
"Tests check compaction once on a fixed sequence; leftover files after crashes are not looked at.",
[S,R],[("compaction threshold",S+": insert, begin_compaction"),("cleanup at load",R+": load")],
(),["directory contents","stats"])
p("C17","Rejected operations leave no trace",
"An operation that is refused because its key, value or entry is too large (or its arguments are invalid) returns an error and changes nothing observable: keys, list and queue contents, lengths, ranges, order and statistics are as if it had never been called, also under concurrency and after reopening; entries of maximal allowed size are accepted, stored and read back intact.",
["inputs","histories","schedules","configurations"],"all sizes around the limits for all operations of all collection kinds, in any state and any concurrent schedule",
"Tests check that oversized keys and values return an error, not what happens to the list or queue they were aimed at.",
[ST,L,Q,"src/lib.rs"],[("size checks",ST+": ensure_sizes, insert_internal")],
(),["set","set_in_list","push_to_queue_tail","extend_queue"])
p("C18","Plain, typed, list, queue and big items never interfere",
"Items written through one interface (plain keys, each typed key type, lists, typed lists, queues, typed queues, big values) and different lists and queues never affect or appear in another, whatever their key bytes, and typed values read back equal to what was written; plain iteration shows plain keys only (where an interface is documented as a layer over another - a typed list over the list with its serialised name, a big value over the queue with its key - the two are one object). This holds through concurrent use, compaction, splits, discards and reopening.",
["inputs","histories","schedules"],"all key bytes including ones that imitate another interface's internal keys' prefixes, all mixes of interfaces running concurrently",
"Tests use friendly, disjoint keys for each interface.",
[ST,T,L,Q],[("namespace suffix bytes",ST+": USER_NAMESPACE.."),("type ids",T+": CandyTypedKey")],
(),["all interfaces"])
p("C19","Hash collisions are invisible",
"Keys, list items and queue elements whose hashes collide completely or partly behave exactly like any other keys in every operation, list, queue and iteration, through concurrent use, compaction, splits, merges and reopening. When so many colliding entries exist that no further split can make room, the insertion fails with an error and everything stored before remains intact and usable.",
["inputs","histories","schedules"],"all sets of keys and items colliding in shard, row and signature (not two list names with the same 64-bit hash), all operation sequences and interleavings on them",
"test_list_collisions uses a whitebox mask on a single list scenario; real collisions of ordinary keys are practically never sampled.",
[S,"src/hashing.rs",L],[("full key comparison after signature match",S+": get, try_replace, remove"),("row full -> split",S+": insert")],
(),["all KV methods"])
p("C20","Big values round-trip and replace cleanly",
"A big value of any length (including zero and multiples of the chunk size) reads back exactly as last set, replacing it leaves nothing of the old value, removing it makes it absent, and set_big and remove_big report correctly whether it existed; interleaved operations on other keys, compactions, splits and reopening do not matter, and after a crash other big values are intact.",
["inputs","histories","schedules","crash_points"],"all lengths around chunk boundaries, all sequences of set/get/remove on several big keys, the operations on one big key not overlapping each other (documented as not atomic), all background timings, crashes in other operations",
"Tests set and get one big value.",
[ST,Q],[("chunks kept as a queue",ST+": set_big, get_big")],
(),["set_big","get_big","remove_big"])
p("C21","Merging small shards preserves everything and terminates",
"merge_small_shards, called in any state and at any fill level, returns, keeps every key, list and queue intact, leaves a store on which all operations continue to work, and lowers the number of shards exactly when it reports that it did. Concurrent operations merely wait for it, and a crash, background compaction or I/O error at any point during it loses nothing.",
["histories","schedules","crash_points","configurations","fault_sequences"],"all shapes of the shard tree (balanced or not), all in-progress compactions, all crash points and single I/O failures",
"test_merge uses one balanced tree with idle compaction threads.",
[R,S],[("recursive pairwise merge and reload",R+": _merge, merge_small_shards"),("copy to merge_ file and rename",S+": merge")],
(),["merge_small_shards","get","iter"])
p("C22","Clear is complete and atomic",
"After clear() returns the store is empty in every respect (keys, lists, queues, iteration, statistics) and fully usable, and nothing from before it ever reappears, also after crashes and reopening. If the process crashes during clear(), the reopened store holds either everything as before or nothing.",
["crash_points","schedules","histories"],"all crash points during clear, clear concurrent with background compactions and client operations, with one or many shards",
"Tests call clear once on an idle store and never crash in it.",
[R,ST],[("removal of shard files and re-creation",R+": clear")],
(),["clear","open","iter"])
p("C23","Unrecognised or damaged files are refused, never destroyed",
"Opening a store in which a shard file has a wrong magic, a different version or is truncated below its header fails with an error and leaves that file's bytes and the contents of all other shards unchanged, so that everything is readable again once the file is restored; only with clear_on_unsupported_version set are such shards - and no others - reset, and then the store opens and works. A healthy store is never reset or rejected, even when reads are short or interrupted.",
["fault_sequences","inputs","configurations"],"all header corruptions and truncations (to a non-zero length below the header) of any shard that is not superseded by another, all configurations, short and interrupted reads",
"test_unsupported style tests change one version byte of one shard.",
[S],[("header validation at open",S+": Shard::open")],
(),["CandyStore::open"])
p("C24","Closing releases everything, and nothing leaks while open",
"Once a store is dropped, or an open has failed, its background threads end within bounded time, no descriptor, mapping, lock or deleted file of it stays in use, and its files are not changed any more. While a store is open and idle, what it holds on to is bounded by its configuration and its number of shards - some descriptors and mappings per shard, the configured compaction threads - however many compactions, splits, merges, clears and failed operations there were before.",
["thread_schedules","histories","fault_sequences","configurations"],"all operations by one or several threads, closing at any moment, I/O errors and failed opens, any number of re-opens in one process",
"Tests never look at descriptors, mappings or threads, and each opens a handful of stores in a process that soon ends.",
[S,R,ST],[("compaction thread pool and replacement of files",S+": CompactionThreadPool, background_compact, Drop for Shard"),("removal of merged and split shards",R)],
(),["CandyStore::open","drop"])
p("C25","Shards do not hold each other up",
"There is no global locking: while an I/O call on one shard's file (by a reader, writer, split or compaction) takes arbitrarily long, operations on keys of all other shards still complete. While a background compaction runs - however long any of its I/O calls takes - reads and writes of keys of the same shard complete too, except for those of the one row it is copying at that moment. (Merging, clearing, and operations that need all shards, such as flush, statistics and iteration, are not covered.)",
["thread_schedules","fault_sequences","histories"],"all interleavings of key operations with splits and background compactions, any I/O call of a shard being stuck, any number of shards",
"Tests use a fast disk on which nothing is ever stuck, and never look at who waits for whom.",
[R,S,ST],[("locks of the shard tree during splits",R+": insert, node lock"),("locks held by a compaction",S+": begin_compaction, background_compact, operate_on_row")],
(),["get","set","replace","get_or_create","remove"])
p("C26","Operations cost a constant number of I/O calls",
"However much the store holds and whatever its history, and apart from splitting a shard: looking up or removing a key (plain, typed, or an item in a list by its key) makes at most one read if it exists and none if it does not; inserting a new key makes one write and no read; replacing a key's value makes one read and at most one write; replace of a missing key makes none, and of one with another value than expected only the read; get_or_create of an existing key makes one read. Updating an existing list item makes at most two reads and one write, inserting into a list or pushing to a queue at most four of each, removing or popping an item at most ten reads and two writes, and peeking, length and range at most four reads. Except for starting a compaction none of these makes other system calls on files (open, sync, truncate, rename, ...).",
["histories","inputs","thread_schedules","configurations"],"all histories of all these operations, any number and size of entries, with compactions and splits going on",
"Tests never count I/O calls; extra calls change no result.",
[S,ST,"src/lists.rs","src/queues.rs"],[("reading and writing of entries",S+": get, insert, remove, try_replace, ShardRow::lookup"),("list bookkeeping","src/lists.rs: _insert_to_list")],
(),["get","set","replace","get_or_create","remove","set_in_list","push_to_queue_tail"])
p("C27","Operation counters count exactly what happened",
"Counting starts at zero when a store is opened or cleared. Whenever no operation is in progress (and without I/O errors), stats() reports: num_read_ops/num_read_bytes and num_write_ops/num_write_bytes - exactly the entries (key and value) read from and written to shard files, by operations as well as by compactions, splits and merges; entries_under_128/under_1k/under_8k/under_32k/over_32k - the written entries by size, each in exactly one class; num_compactions and num_splits - those finished; num_positive_lookups - gets (and contains) that found their key and get_or_creates of existing keys; num_negative_lookups - gets that did not; num_updates - sets and replaces that changed an existing value. No count is lost or doubled when many threads work at once. last_compaction_stats and last_split_stats hold the latest (at most eight) since stats() was last called.",
["thread_schedules","histories","configurations"],"all histories of all operations by one or several threads, with compactions, splits, merges, clears and re-opens",
"One test looks at a few counters after a fixed sequence.",
["src/stats.rs",S,ST],[("counters","src/stats.rs: InternalStats"),("counting",S+": read_kv, write_kv, get, try_replace, background_compact, split")],
(),["stats","clear"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
