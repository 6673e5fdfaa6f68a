#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})
SH, SY, SP, US, LS, OP, LB, RW = ("src/shard.rs", "src/sync.rs", "src/sync_placeholder.rs", "src/unsync.rs",
                              "src/linked_slab.rs", "src/options.rs", "src/lib.rs", "src/rw_lock.rs")

p("C01", "Lookups return exactly the latest live value of the key",
  "Every lookup (get, peek, contains, mutable access, iteration, get-or-insert and guard lookups, with an owned or an equivalent borrowed key) returns exactly the value most recently stored under that key while the entry is resident, and nothing otherwise. It never returns a value stored under another key (even one with the same hash), a superseded value, or a value that was removed, evicted or refused.",
  ["histories", "inputs", "configurations"], "for every sequence of API calls, key set (including fully colliding hashes), weighter, lifecycle and configuration of the sync and unsync caches",
  "tests look up a handful of keys after a handful of inserts with the default hasher; slots and hash-table positions are only reused under long mixed histories with evictions, ghosts, placeholders and collisions",
  [SH, SY, US, LS], [("map", "hash table from key hash to slab slot", SH), ("entries", "slab of resident, placeholder and ghost entries", SH)],
  [("search / search_resident compare keys, not hashes", SH), ("insert_existing replaces value in place", SH), ("slab slots reused through a free list", LS)],
  ["return values of all lookups", "peek of every key after every call"])

p("C02", "Concurrent operations on the sync cache are linearizable per key",
  "For every concurrent history of get, peek, contains, insert, replace, remove, retain, clear and guard calls on one key of the sync cache there is one sequential order of the calls, consistent with real time, in which each call returns what a sequential cache returns. A completed insert or remove is visible to every call that starts later, and no call observes a value before it was offered or after it was superseded. (An insert through a guard is two steps in that order: callers waiting for the load obtain the value, then it is stored.)",
  ["schedules", "histories"], "for every schedule of every small program of concurrent calls on shared keys",
  "the stress tests assert only that a value read equals its key, or the final count of loads; they never order reads against writes",
  [SY, SP, SH, RW], [("shards", "per-shard reader-writer lock around all state", SY), ("placeholder state", "loading state published before the entry becomes resident", SP)],
  [("one write-lock critical section per mutation", SY), ("guard insert: publish to waiters, then fill under the shard lock", SP)],
  ["start and end of each call with its result, in scheduler order"])

p("C03", "Resident weight stays within capacity; eviction only under pressure",
  "After every insert-like call that admits an item of positive weight, the total weight of resident items is at most the capacity of the cache, unless every resident item of positive weight other than the new one is pinned. No other call increases the total weight above capacity, except growing an item in place through a mutable reference. A call evicts nothing while the items together fit within the capacity.",
  ["histories", "inputs", "configurations"], "for every sequence of calls, every weight assignment (zero, equal to or above capacity, huge), pinning and capacity",
  "the unit tests never compare weight against capacity after evictions of mixed weights; fuzzing of the total exists only outside the test suite and is never run to completion",
  [SH, SY, US], [("weight_hot, weight_cold", "sum of weights per class", SH), ("weight_capacity", "budget of the shard", SH)],
  [("make-room loops around advance_cold", SH), ("oversized items refused on entry", SH)],
  ["weight(), capacity() and peek of every key after every call", "lifecycle callbacks"])

p("C04", "Reported length and weight always equal the actual contents",
  "At every quiescent point the reported number of items, total weight and emptiness equal the number, the summed weight and the absence of items that lookups and iteration can find, for both caches and any number of shards. Iteration and retain visit every resident item exactly once and nothing else. This holds after in-place changes of weight through mutable references as well.",
  ["histories", "inputs", "configurations"], "for every sequence of calls, including in-place weight changes, zero-weight transitions, refusals and abandoned guards",
  "two unit tests compare weight after one or two mutations; bookkeeping is spread over a dozen sites that adjust counters independently",
  [SH, US, SY], [("num_hot, num_cold, weight_hot, weight_cold", "running totals", SH)],
  [("cold_change_weight on drop of a mutable reference", SH), ("remove_internal, insert_existing, advance_* adjust totals", SH)],
  ["len(), weight(), is_empty(), iter(), retain visits, peek of every key"])

p("C05", "Every displaced value is handed to on_evict exactly once",
  "Each value that leaves the cache because of an insert-like request (evicted, overwritten, or refused on entry) is handed together with its key to the lifecycle's on_evict exactly once, in that request, and no other value is. Values removed explicitly (remove, retain, clear, drain), handed back to the caller or overwritten through a mutable reference are never reported. before_evict is called exactly once immediately before the decision for each evicted or refused item and never for an overwritten one.",
  ["histories", "inputs"], "for every sequence of calls and every lifecycle and weighter",
  "no unit test installs a lifecycle; exactly-once needs the whole-history balance of values in, resident, returned and reported",
  [SH, US, SY, LB], [("lifecycle request state", "collects what a request displaced", LB)],
  [("on_evict calls in advance_cold, advance_hot, insert_existing, overweight handlers", SH)],
  ["lifecycle callbacks of every call", "contents before and after every call"])

p("C06", "Pinned and zero-weight items are never evicted",
  "An item that is pinned or has weight zero is never evicted: it stays resident until it is overwritten or removed explicitly, no matter how much pressure later inserts create, and its own insertion is never refused. If before_evict reduces the weight of an item to zero the item stays resident with weight zero. before_evict is never called on pinned or zero-weight items.",
  ["histories", "inputs", "configurations"], "for every mix of pinned, zero-weight and ordinary items, including caches completely filled by pinned items",
  "one unit test keeps a single zero-weight item under one access pattern; pinning is not tested at all",
  [SH, LB], [("is_pinned", "user predicate", LB), ("rings", "zero-weight items are linked in no ring", SH)],
  [("pinned entries skipped by both clock hands", SH), ("zero weight after before_evict unlinks instead of removing", SH)],
  ["lifecycle callbacks", "peek of every key"])

p("C07", "Lifecycle requests are begun and ended exactly once, in order",
  "Every insert-like call that reaches the cache begins exactly one request before any other callback, passes that same request state to each callback it makes, and ends the request exactly once after all of them. The with-lifecycle variants return that request state instead of ending the request, and failed calls drop it without ending the request. Calls that store nothing (lookups, removals, hits of get-or-insert, abandoned guards) make no lifecycle request at all.",
  ["histories", "inputs"], "for every API call in every cache state",
  "no test observes begin_request, end_request or the identity of request states",
  [SY, US, SP, SH, LB], [("RequestState", "user state threaded through one request", LB)],
  [("begin_request / end_request around shard calls", SY), ("Guard::insert_internal", US), ("PlaceholderGuard::insert", SP)],
  ["order and identity of lifecycle callbacks of every call"])

p("C08", "Inserts and replaces take effect exactly when they should",
  "An insert whose item is no heavier than the cache's hot share of capacity (or is pinned, or is made light enough by before_evict) is admitted: afterwards the key holds the new value, or that value was reported evicted in the same request. A heavier item is refused: it is reported evicted and afterwards the key holds nothing. A replace behaves the same but only for a resident key, returning the unstored pair as an error otherwise and never creating an entry.",
  ["histories", "inputs", "configurations"], "for every weight, pinning, before_evict behaviour, entry state of the key (absent, resident hot or cold, recently evicted, load pending) and configuration",
  "replace is not covered by a test and oversized or pinned items are not either",
  [SH, SY, US], [("weight_target_hot", "admission limit", SH)],
  [("admission test at the head of insert and replace_placeholder", SH), ("handle_insert_overweight", SH), ("insert_existing", SH)],
  ["return values, callbacks and contents after every insert or replace"])

p("C09", "Removal and reads affect exactly what they name",
  "remove returns and removes exactly the entry of its key; retain removes exactly the items its predicate rejects; clear and drain empty the cache, drain yielding each item exactly once even if not fully consumed. None of these, nor any lookup, failed call, reserve or abandoned guard, changes any other entry. Afterwards the cache remains fully usable.",
  ["histories", "inputs"], "for every cache state reachable by any history, in both caches and any number of shards",
  "tests cover retain on ten freshly inserted hot items; never with cold, zero-weight, ghost or pending entries, and drain, clear and remove are untested",
  [SH, SY, US, LS], [("rings and free list", "structure shared by all entries", LS)],
  [("remove_internal unlinks and fixes ring heads", SH), ("drain resets heads, totals, table and slab", SH)],
  ["contents before and after each call", "items yielded"])

p("C10", "At most one caller loads a missing key at a time",
  "While a guard for a key is held and has not been overtaken by an insert, remove or clear of that key, no other caller (thread or future) obtains a guard for it, and no get-or-insert closure for it runs. When the holder inserts a value, every caller that was waiting receives that value instead of a guard; when the holder gives up, exactly one waiting caller receives the guard. A caller that finds the key resident never receives a guard.",
  ["schedules", "histories"], "for every interleaving of blocking, timed and async callers, abandoned guards, cancelled futures and interfering writes",
  "the tests count loads for one fixed program per API under whatever schedules happen to occur; the shuttle test checks only the final value",
  [SP, SH, SY], [("placeholder", "marks a key as being loaded", SH), ("waiters", "callers parked on a placeholder", SP)],
  [("upsert_placeholder under the shard write lock", SH), ("drop_uninserted_slow wakes one waiter or removes the placeholder", SP)],
  ["results of guard calls, loader runs, guard lifetimes"])

p("C11", "Waiting callers always make progress",
  "No caller waiting for a key being loaded is forgotten: once the guard is used, dropped (also by unwinding from a panicking or failing loader) or its future cancelled, some waiter receives the value or the guard and is woken, whatever the mix of threads, timed waits that expire and futures that are dropped or polled with changing wakers. No schedule of cache calls deadlocks.",
  ["schedules", "fault_sequences"], "for every interleaving, with cancellation or expiry of any waiter at any point, panics of loaders, and spurious wake-ups",
  "a lost wake-up needs a cancellation or expiry racing with a hand-over; the tests cancel at random millisecond timers only",
  [SP, SY], [("waiters", "registered wakers and parked threads", SP), ("notified", "per-waiter notification flag", SP)],
  [("Waiter::notify under the state lock", SP), ("drop_pending_waiter passes a received hand-over on", SP), ("timeout path re-checks under the lock", SP)],
  ["wakes, polls and completions of every waiter", "deadlock detection by the scheduler"])

p("C12", "A guard's insert succeeds exactly when its reservation still stands",
  "Inserting through a guard succeeds exactly if the key was not inserted, removed or cleared by another caller since the guard was created; it then stores precisely that value under the guard's key, subject to admission. Otherwise it returns the value as an error and leaves the cache unchanged, never overwriting the newer entry or another caller's pending load. A value given to waiters is the one passed to the insert.",
  ["histories", "schedules"], "for every history that interleaves guards with inserts, removes, clears and new guards of the same and other keys, reusing internal slots",
  "the tests never remove or overwrite a key while its guard is held and then use the guard",
  [SP, SH], [("placeholder identity", "shared allocation compared by address", SP)],
  [("replace_placeholder checks slot and identity", SH), ("remove_placeholder checks slot and identity", SH)],
  ["result of guard inserts, contents before and after"])

p("C13", "Eviction follows the documented clock policy exactly",
  "New keys enter the hot class while they fit its share of the capacity (loaded keys: while they fit the capacity) and recently evicted keys always do; other keys enter cold. Under pressure the oldest cold item is evicted, or promoted to hot if it was used since entering; when hot exceeds its share (or cold has nothing to evict) the hot hand evicts the next item without uses left, taking one of at most two recorded uses from the items it passes and skipping pinned ones. Keys evicted from cold are remembered, oldest forgotten first, up to the ghost share of the estimated items. The shares are 0.97 (hot) and 0.5 (ghost) unless configured otherwise. The items each request evicts are exactly those of this policy, for concurrent calls in some order of the calls.",
  ["histories", "schedules", "inputs", "configurations"], "for every sequence or concurrent history of calls, weights, pins, hot and ghost shares",
  "the tests never look at which item is evicted",
  [SH, LS, OP], [("hot, cold, ghost rings", "clock order", SH), ("referenced", "uses left", SH)],
  [("advance_cold, advance_hot, advance_ghost", SH), ("insert, insert_existing, replace_placeholder choose the class", SH)],
  ["sequence of evictions of every call", "contents after every call"])

p("C14", "Peeks, soft replaces and failed calls never influence eviction",
  "Calls documented not to affect hotness (peek, mutable peek, contains, length and weight queries, iteration, reserve, lookups of absent keys, failed replaces of absent keys) leave all later evictions exactly as if they had not been made. A soft replace leaves them as if the item had held the new value without being used again. Growing internal tables never changes what is evicted later.",
  ["histories"], "for every history and every insertion of neutral calls into it",
  "it relates two executions; no test compares two",
  [SH, SY, US], [("referenced", "uses of an entry", SH)],
  [("peek does not touch the use counter", SH), ("soft replace keeps the use counter", SH)],
  ["evictions of twin executions with and without the neutral calls"])

p("C15", "The cache keeps no keys, values or memory beyond its contents",
  "At every quiescent point the keys and values alive inside a cache are exactly those of the resident items, plus the keys of loads whose guards are still held; each key and value given to the cache is dropped exactly once. Abandoned or failed loads leave nothing behind, and the cache's memory stays bounded by its peak number of items, pending loads and remembered keys over arbitrarily long histories. Dropping the cache releases everything.",
  ["histories", "fault_sequences"], "for every history, including failing and panicking loaders, cancelled futures and refused items",
  "no test counts live keys or values or measures memory after many failed loads",
  [SH, US, SP, LS], [("entries", "slab slots", LS)],
  [("remove_placeholder on abandoned guards", SH), ("slab free list", LS), ("ghost list bounded", SH)],
  ["live instances of keys and values", "allocated bytes after long runs"])

p("C16", "Timed waits end when they should",
  "A timed guard lookup reports a timeout only if the key's load was still pending when the timeout expired, never earlier than the timeout, and not substantially later than the timeout; with a zero timeout it does not wait. If the load ends before, the caller obtains the value or the guard then, not only when its timeout expires. A timed-out caller leaves the pending load and the other waiters undisturbed.",
  ["schedules", "inputs"], "for every timeout and every moment at which the load may finish, be abandoned or be overtaken",
  "the tests retry timeouts in a loop and never look at how long a wait took",
  [SP, SY], [("start, timeout", "deadline of the wait", SP)],
  [("park_timeout loop", SP), ("waiter removed on expiry", SP)],
  ["result and duration of timed lookups"])

p("C17", "Hit and miss counters count each lookup exactly once",
  "With statistics enabled, every get, mutable get, get-or-insert and guard lookup adds exactly one to hits if it finds the key resident (or being loaded by another caller) and exactly one to misses if it does not; no other call changes either counter. The counters never decrease and are summed over all shards.",
  ["histories", "schedules"], "for every sequence of calls in either cache",
  "the stats feature is not enabled by any test",
  [SH, SY, US], [("hits, misses", "counters per shard", SH)],
  [("record_hit / record_miss at each lookup", SH)],
  ["hits() and misses() after every call"])

p("C18", "A cloned cache is identical and independent",
  "A clone of an unsync cache holds the same items, reports the same length, weight and capacity, and from then on behaves call for call, including evictions, as the original would have. Operations on either never affect the other.",
  ["histories"], "for every history before the clone and every pair of continuations",
  "no test clones a cache",
  [US, SH, LS], [("all shard state", "copied field by field", SH)],
  [("Clone for CacheShard and Resident", SH)],
  ["twin executions of original and clone"])

p("C19", "Any configuration yields a cache of the requested capacity",
  "For every number of shards, estimated items and weight capacity, the number of shards is the requested number rounded up to a power of two, halved while a shard's equal share of the estimated items is below 32 (never below one). All shards have equal capacity, and the total capacity is at least the requested one and less than it plus the number of shards (for requests below half the integer range). Every key is served consistently by all operations whatever the number of shards, total weight stays within the total capacity, and a long stream of distinct unit-weight keys fills it completely. Missing options are reported as errors and shares outside zero to one are rejected.",
  ["configurations", "inputs"], "for every shard count, item estimate, capacity, hot and ghost share and hash function",
  "tests construct five sizes with default options and never read the resulting configuration back",
  [SY, OP], [("shards, shards_mask", "routing of hashes", SY)],
  [("with_options rounds and splits", SY), ("shard_for", SY), ("OptionsBuilder", OP)],
  ["num_shards(), shard_capacity(), capacity(), weight()", "operations on many keys"])

p("C20", "Every legal call terminates without panicking",
  "No sequence of legal calls with well-behaved user code (weights whose sums fit 64 bits) makes any cache operation panic, loop forever or corrupt the cache, whatever the mix of capacities (including zero and one), weights, pinned items, ghosts and pending loads. Eviction terminates even when everything is pinned.",
  ["histories", "inputs", "configurations"], "for every sequence of legal calls, in optimised builds and in builds with assertions",
  "the internal consistency checks are only exercised by three tests on tiny states",
  [SH, LS, SP, SY, US], [("rings, free list", "linked structure", LS)],
  [("advance_hot stops after a pass without unpinned items", SH), ("slab link/unlink/remove", LS)],
  ["completion of every call within a deadline", "panics"])

p("C21", "User code runs outside the locks and may call back into the cache",
  "Loader closures and futures, begin_request, end_request and the disposal of a request's state run while the calling thread holds none of the cache's locks: from inside them, any operation on the same cache (any key, any shard, nested to any depth) completes, except waiting for a load that the caller itself has in progress. begin_request sees the cache as it was before the request, a loader sees its key pending, end_request sees the cache as the request left it, and whatever the nested calls did is respected by the outer call: a key inserted or removed meanwhile makes the outer guard insert fail instead of overwriting. With the default lifecycle a value that a request displaces is dropped outside the locks, too (the last one, if there are several). A failing or panicking loader leaves the cache usable.",
  ["histories"], "for every nesting of calls inside the user code that calls run",
  "no test calls the cache from a loader or a lifecycle hook",
  [SY, SP], [("shards", "locked shard", SY), ("state of a pending load", "value, waiters", SP)],
  [("get_or_insert_with runs the loader between two lock sections", SY), ("PlaceholderGuard::insert", SP), ("insert, replace: end_request after unlock", SY)],
  ["nested calls, what they see and return", "completion of every call within a deadline"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
