"""The properties, in one place: python3 sim/properties.py writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note, level=level))


S, I, H, C, F, CP = "schedules", "inputs", "histories", "configurations", "fault_sequences", "crash_points"

prop("C01", "ChunkChan delivers every accepted item exactly once and in order",
     "While its context is alive, every item a ChunkChan accepted (through Add or the incoming channel) comes out exactly once, in chunks of at least one and at most the configured size, and nothing that was not put in comes out, not even once the incoming channel is closed. Items accepted one after the other come out in that order, whether chunks are read from C or handed to the chunk function, and a chunk that was delivered is never changed afterwards. When everything was consumed, Sizes reports zero for both sides.",
     [S, I, C], "every interleaving of producers, the chunking goroutine and the consumers, every buffer and chunk size (also unbuffered), every arrival pattern around the timeout, slow consumers and stalled goroutines",
     "the tests send 100 items from one goroutine to one reader at one configuration; they never race the ticker with a full chunk, nor a slow consumer with a full buffer",
     ["chans/chunk_chan.go"], [("one goroutine collects and sends chunks, a fresh slice per chunk", "chans/chunk_chan.go: run")],
     ["ChunkChan.Add", "ChunkChan.Incoming", "ChunkChan.C", "WithChunkFunc", "ChunkChan.Sizes"],
     "seeded schedules; producers put unique items in, the recorded deliveries are compared with the accepted items")
prop("C02", "ChunkChan delivers full chunks at once and part chunks within the timeout",
     "While a consumer is ready, a chunk is delivered as soon as it is full, and an item is delivered at the latest one chunk timeout after it was accepted. Chunks that are not full are sent only by the timeout: two incomplete chunks in a row are a whole number of timeouts (at least one) apart.",
     [S, I, C], "every arrival pattern, chunk size, timeout and buffer size, with consumers that are always ready and no goroutine held up",
     "one test waits for one partial chunk and never looks at when it came",
     ["chans/chunk_chan.go"], [("ticker of the chunk timeout", "chans/chunk_chan.go: run"), ("send when the chunk is full", "chans/chunk_chan.go: run")],
     ["ChunkChan.C", "WithChunkFunc", "WithChunkTimeout"],
     "simulated clock: delivery instants are exact, so both bounds are checked to the nanosecond")
prop("C03", "ShardChan routes every message once, in order, to the shard of its key",
     "While its context is alive, every message a ShardChan accepted is delivered exactly once, by the shard its key selects (the key modulo the number of shards, never negative), nothing else is delivered, not even once the incoming channel is closed, and messages of one shard accepted one after the other come out in that order. One worker runs at a time per shard, it is told its shard, and a busy worker keeps neither the others nor the dispatcher from working as long as its shard's buffer has room. Add fails only when the context is done, and C of a shard that does not exist is nil.",
     [S, I, C], "every interleaving of producers, dispatcher and workers or readers, every shard count, buffer size and shard function (also with negative results), slow and blocked workers, stalled goroutines",
     "the tests use two fixed shards with equal loads and only count what arrived",
     ["chans/shard_chan.go"], [("one dispatcher goroutine, one channel per shard", "chans/shard_chan.go: Build")],
     ["ShardChan.Add", "ShardChan.C", "WithWorkerFunc", "ShardChan.Sizes"],
     "seeded schedules; deliveries are compared with accepted messages per shard")
prop("C04", "ShardChunk delivers each item once, in chunks of one shard, in order and on time",
     "While its context is alive, every item a ShardChunk accepted is delivered exactly once, in a chunk of at most the configured size that holds items of one shard only (the one the item's key selects), nothing else is delivered, and items of a shard accepted one after the other come out in that order. Delivered chunks never change afterwards. With ready consumers, a full chunk is delivered at once and every item at the latest one chunk timeout after it was accepted.",
     [S, I, C], "every interleaving of producers, dispatcher, chunkers and consumers; every shard count, chunk size, timeout, buffer size and shard function; stalled goroutines and slow consumers",
     "the tests drain one configuration and count",
     ["chans/shard_chunk_chan.go", "chans/chunk_chan.go", "chans/shard_chan.go"], [("a ShardChan that feeds one ChunkChan per shard", "chans/shard_chunk_chan.go")],
     ["ShardChunk.Add", "ShardChunk.C", "WithChunkFunc", "ShardChunk.Sizes"],
     "as C01-C03, over the composition")
prop("C05", "Cancelling the context stops ChunkChan, ShardChan and ShardChunk completely",
     "Once the context of a ChunkChan, ShardChan or ShardChunk is cancelled, everyone blocked in Add returns (ShardChan's with the context's error) and so does every later Add that finds no room. All goroutines of the channel end, whatever was full, slow or half way through at that moment, once the user's functions return.",
     [S, C, F], "cancellation at every instant of every schedule, with full buffers, absent consumers and slow user functions, at every configuration",
     "no test cancels while anything is blocked",
     ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"], [("every blocking operation also waits for the context", "chans/*.go")],
     ["Add", "number of goroutines"],
     "seeded cancellation points; the simulator counts the goroutines left")
prop("C06", "A Runner runs every accepted task exactly once, on at most its workers",
     "While its context is alive, a Runner runs every accepted task exactly once, never more at a time than it has workers, and as many at a time as it has workers; a task does not wait while a worker is idle. Tasks that want a context get the runner's. With one worker, tasks of one kind run in the order in which they were submitted.",
     [S, I, C], "every interleaving of submitters and workers, all worker counts and buffer sizes, tasks of any length, tasks of both kinds, stalled goroutines",
     "there is no test that can see two tasks in one worker, a lost task or an idle worker",
     ["workers/runner.go"], [("one goroutine per worker, two task channels", "workers/runner.go")],
     ["Runner.Run", "Runner.RunWithContext"],
     "seeded schedules; the recorded starts and ends of tasks are compared with the submissions on a simulated clock")
prop("C07", "Cancelling a Runner frees every submitter and ends every worker",
     "Once the context of a Runner is cancelled, every submission that is blocked on a full buffer returns, and so does every later one. All workers end when the tasks they are running return, or after a few that were queued, not after the whole queue.",
     [S, C, F], "cancellation at every instant of every schedule, with full buffers and tasks under way",
     "no test cancels a busy runner",
     ["workers/runner.go"], [("submitting and working also wait for the context", "workers/runner.go")],
     ["Runner.Run", "Runner.RunWithContext", "number of goroutines"],
     "seeded cancellation points; the simulator counts the goroutines left")
prop("C08", "SimpleMap is linearizable",
     "Concurrent operations on a SimpleMap (Get, Set, Delete, Has, SetIfNotExists, SetIfNotExistsWithFunc, Size) have the results they would have one at a time, in an order compatible with real time. In particular exactly one of several concurrent SetIfNotExists of an absent key wins, and the function of SetIfNotExistsWithFunc is called exactly when its value is stored; when it panics, so does the operation, which then changes nothing.",
     [S, H], "every interleaving of every history of operations on few keys, stalled goroutines",
     "the map has no concurrent test",
     ["collections/map.go"], [("one read-write lock", "collections/map.go")],
     ["SimpleMap.*"], "seeded schedules; histories of up to 40 operations are checked for linearizability against a sequential map")
prop("C09", "ShardMap is linearizable per key, and shards do not wait for each other",
     "Concurrent operations on each key of a ShardMap have the results they would have one at a time, in an order compatible with real time (Clear counts as deleting every key), for every shard function that names existing shards. Size is exact when the map is at rest and otherwise between the number of keys that were certainly there all along and of those that may have been there. An operation never waits for a function that SetIfNotExistsWithFunc runs for a key of another shard.",
     [S, H, C], "every interleaving of every history on few keys, every shard count and shard function (all keys in one shard included), stalled goroutines",
     "the map has no concurrent test",
     ["collections/shard_map.go"], [("one read-write lock per shard", "collections/shard_map.go")],
     ["ShardMap.*"], "seeded schedules; per-key linearizability against a sequential register with delete")
prop("C10", "HashSet is a linearizable bounded set that evicts its oldest member",
     "Concurrent operations on a HashSet have the results they would have one at a time, in an order compatible with real time; exactly one of several concurrent HasOrCreate of an absent key returns false. With a maximum, the set never has more members than that, and the member that was added first goes first. Adding a key that is present changes nothing.",
     [S, H, C], "every interleaving of every history of Add, Has, HasOrCreate, Delete, Count, Keys and Clear, with and without a maximum, stalled goroutines",
     "the set has no test; eviction order only shows after particular sequences of Add, Delete and Clear",
     ["collections/hash_set.go"], [("lock around map and insertion list", "collections/hash_set.go")],
     ["HashSet.*"], "linearizability against an ordered list of members")
prop("C11", "MapMutex and MapRWMutex are one independent lock per key",
     "MapMutex and MapRWMutex give mutual exclusion per key: one holder at a time, or in MapRWMutex any number of readers at once and no writer. Nobody waits for a key unless another holder of that very key (or a writer waiting for it) keeps it out, and a lock that is released is granted to those waiting for it. Unlocking a key that was never locked does nothing.",
     [S, H], "every interleaving of lock and unlock operations on a few keys, first use of a key by several at once, keys held throughout, stalled goroutines",
     "the locks have no test",
     ["collections/lock_map.go"], [("one mutex per key, created once under a lock", "collections/lock_map.go")],
     ["Lock", "Unlock", "RLock", "RUnlock"], "occupancy of the critical sections, and waiting intervals on the simulated clock")
prop("C12", "TwoKeyMap keeps both keys of every entry in step",
     "Concurrent operations on a TwoKeyMap have the results they would have one at a time, in an order compatible with real time, where every entry has exactly one first and one second key. Put replaces whatever entries share either of its keys, removing by either key removes the whole entry, and removing an unknown key does nothing. Get, GetByK2, Len, Keys and KeysK2 always describe the same set of entries.",
     [S, H], "every interleaving of every history on few keys of each kind, so that keys collide crosswise, stalled goroutines",
     "there is no test in which two entries share one key",
     ["collections/two_key_map.go"], [("one lock around the three maps", "collections/two_key_map.go")],
     ["TwoKeyMap.*"], "linearizability against a set of (k1, k2, value)")
prop("C13", "RequestMap runs one function per key and gives its result to all callers",
     "A RequestMap never runs two functions for one key at the same time, and all callers of a key get what a function called with that key returned (or the initial value), value and error of the same function together. While an outcome is kept, be it a value or an error, no further function runs for its key. Calls for different keys do not wait for each other, functions may use the map for other keys, and at rest Count is the number of keys kept.",
     [S, H, C, F], "every interleaving of calls with and without errors on few keys, slow and failing functions, functions that use the map, initial values, stalled goroutines",
     "the tests check one key with one fixed order",
     ["collections/request_map.go"], [("one entry per key with a lock of its own", "collections/request_map.go")],
     ["GetOrCreate", "GetOrCreateWithErr", "Count"], "every function call and every result is recorded and matched")
prop("C14", "RequestMap keeps a result for its time, and no longer",
     "A RequestMap keeps a result (or an initial value) for at least its time to live after the function returned it (or the map was made): until then calls get it and no function runs for the key. It is gone at most 150 ms after that: later calls never get it, and Count, which includes keys whose function is running, no longer includes it. Once the context is cancelled, no goroutine of the map is left.",
     [S, H, C], "every timing of calls around the expiry of results of several keys, slow functions, results that expire together or apart, cancellation, stalled goroutines",
     "one test sleeps past one expiry",
     ["collections/request_map.go"], [("a list of expiry times and a worker that ticks", "collections/request_map.go")],
     ["GetOrCreate", "GetOrCreateWithErr", "Count", "number of goroutines"],
     "simulated clock; ages of results are exact")
prop("C15", "RequestMap.Timeout bounds the wait and never invents a result",
     "A function wrapped by Timeout returns the wrapped function's value and error as soon as they come, if they come before the limit, and otherwise a zero value and ErrTimeout at the limit, not earlier and not later (exactly at the limit either may happen). Within GetOrCreateWithErr all callers of a key share that one outcome, and no goroutine is left once the wrapped functions have returned.",
     [S, I, F], "every pair of limit and running time (equal ones included), failing and slow functions, shared and separate calls, stalled goroutines",
     "the test tries one fast and one slow function",
     ["collections/request_map.go"], [("a goroutine per call and a timer", "collections/request_map.go: Timeout")],
     ["Timeout", "GetOrCreateWithErr", "number of goroutines"], "simulated clock; outcomes are compared with running times")

prop("C16", "ResponseMap gives every Wait of a key the first value set for it",
     "Every Wait for a key of a ResponseMap gets the value of the first Set of that key, no matter whether it began before or after it, how many wait and how many set: at once when the value is there, otherwise as soon as it comes, and the zero value when the response timeout passes first. Nobody gets a value that was not set for its key, and neither a Set nor a Wait of one key holds up those of another.",
     [S, H], "every interleaving of Sets and Waits on few keys, several of each for one key, timeouts that meet Sets, stalled goroutines",
     "the tests set one value for one waiter",
     ["collections/response_map.go"], [("an entry per key, made by whoever comes first, with a channel that closes when the value is there", "collections/response_map.go")],
     ["ResponseMap.Wait", "ResponseMap.Set"], "outcomes of all Waits of a key are compared with the Sets and with each other")
prop("C17", "ResponseMap waits for its timeout and cleans up after its clear timeout",
     "A Wait on a ResponseMap without a value returns the zero value exactly when the response timeout since its call has passed, or when its key's entry is cleaned before. An entry exists from the first Set or Wait of its key until the first cleaning (every clear timeout since the map was made) at which it is older than the clear timeout; after that the key starts anew. Once the context is cancelled nothing is cleaned any more and, when the Waits have returned, no goroutine is left.",
     [S, H, C, F], "every timing of Sets and Waits around timeouts and cleanings, every pair of timeouts, cancellation at any time, stalled goroutines where several things meet",
     "the tests wait for one timeout of one key",
     ["collections/response_map.go"], [("a timer per Wait, a ticker for cleaning", "collections/response_map.go")],
     ["ResponseMap.Wait", "ResponseMap.Set", "number of goroutines"], "simulated clock: an exact reference model of entries, cleanings and timeouts")
prop("C18", "WaitMap gives one value to everyone who waits for a key",
     "Every Wait for a key of a WaitMap gets the value of the Set that came first while no value was kept, or the zero value when the request timeout came first, and all who wait at the same time get the same. A Wait returns at once when a value is kept, otherwise as soon as one comes, and nobody gets a value that was not set for its key; neither a Set nor a Wait of one key holds up those of another.",
     [S, H], "every interleaving of Sets and Waits on few keys, timeouts that meet Sets, stalled goroutines",
     "the tests have one Set at a time and no concurrent timeout",
     ["collections/wait_map.go"], [("a list of channels per key, a kept value per key, one lock", "collections/wait_map.go")],
     ["WaitMap.Wait", "WaitMap.Set"], "outcomes of all Waits of a key are compared with the Sets and with each other")
prop("C19", "WaitMap keeps a value for its time and gives up at the request timeout",
     "A WaitMap keeps a value for exactly its time to live: Waits in that time get it at once and Sets are ignored; afterwards the key starts anew. When nobody sets a value within the request timeout of the first of those waiting, all of them get the zero value at that instant and it is kept like a value. When the context is cancelled everyone waiting gets the zero value and what is kept is dropped, no goroutine is left, and Count is at any time the number of keys waited for plus the number of keys kept.",
     [S, H, C, F], "every timing of Sets and Waits around the timeouts and the ends of kept values, repeated use of one key, every pair of timeouts, cancellation at any time",
     "the tests wait for one timeout; none uses a key again after its waiters were served",
     ["collections/wait_map.go"], [("a goroutine per first waiter and per kept value", "collections/wait_map.go")],
     ["WaitMap.Wait", "WaitMap.Set", "WaitMap.Count", "number of goroutines"], "simulated clock: an exact reference model of waiters, timeouts and kept values")
prop("C20", "HolderMap ends all Waits of an entry with its first outcome",
     "All Waits on one entry of a HolderMap end with the same outcome, that of the first of Release, Error, timeout and cancellation, whenever they began; none is forgotten and none gets another. Get, Update, Release, Error, Count and Wait have, per key, the results they would have one at a time in an order compatible with real time, the object of an entry being that of its first Wait until it is updated. An operation on a key that is not there says so, and no operation but Wait ever waits.",
     [S, H], "every interleaving of Waits, Releases, Errors, Updates and Gets on few keys, timeouts and cancellation that meet them, stalled goroutines",
     "the tests release one waiter at a time",
     ["collections/holder_map.go"], [("an entry per key with a lock, a list of waiters and a first outcome", "collections/holder_map.go")],
     ["HolderMap.*"], "linearizability per key, a Wait being two steps (joining and leaving); agreement of outcomes")
prop("C21", "HolderMap entries time out, are kept for their time and end with the context",
     "A Wait on a HolderMap that nothing else ends fails with a timeout exactly when the timeout since the first Wait of its entry has passed. An entry that has its outcome is kept for exactly the destroy time, in which Waits return that outcome at once and Get its object, and is then gone for Get, Update, Release, Error and Count until a Wait makes a new one. When the context is cancelled everyone waiting gets the context's error, all entries go, and no goroutine is left.",
     [S, H, C, F], "every timing of operations around timeouts and removals, every pair of durations, repeated use of one key, cancellation at any time",
     "one test waits for one timeout",
     ["collections/holder_map.go"], [("a goroutine and a timer per entry", "collections/holder_map.go")],
     ["HolderMap.*", "number of goroutines"], "simulated clock: an exact reference model of entries")
prop("C22", "GuavaMap is linearizable",
     "Concurrent operations on a GuavaMap (Get, Set, Has, HasOrCreate, Delete, Clear, Size, GetStored) have the results they would have one at a time, in an order compatible with real time, whatever is configured besides: GetStored is a copy of one instant, and of several concurrent HasOrCreate of an absent key exactly one stores its value.",
     [S, H, C], "every interleaving of every history on few keys, with and without maximum, loader and unload function, stalled goroutines",
     "the tests use the map from one goroutine, apart from one load test that only counts",
     ["collections/guava_map.go"], [("one read-write lock around the entries", "collections/guava_map.go")],
     ["GuavaMap.*"], "linearizability against a sequential cache")
prop("C23", "GuavaMap never exceeds its maximum and evicts the oldest entry",
     "A GuavaMap with a maximum never has more entries than that, seen by anyone at any time. Storing a new key in a full map removes exactly one entry, the one that was stored first (overwriting or reading an entry does not make it younger, deleting and storing it again does), no matter through which operation entries are stored or go.",
     [S, H, C], "every interleaving of every history with maxima from one up, mixing Set, HasOrCreate, loads, LockForUpdate, Delete and Clear, stalled goroutines",
     "the eviction test stores keys through Set only, from one goroutine",
     ["collections/guava_map.go"], [("a list of keys in the order they were stored, kept in step with the entries", "collections/guava_map.go")],
     ["GuavaMap.Size", "GuavaMap.GetStored", "GuavaMap.Has", "GuavaMap.Get"], "linearizability against an ordered list of entries with a maximum")
prop("C24", "GuavaMap entries expire exactly when they should",
     "With a write timeout, an entry of a GuavaMap is there for exactly that time since it was stored or overwritten last; with a read timeout, for exactly that time since it was stored, overwritten or used (Get, Has, HasOrCreate) last; with both, the last write or use decides which of the two counts from then on. No timeout of an earlier entry of a key ever removes a later one. Entries that are gone and a cancelled context leave no goroutine behind.",
     [S, H, C, F], "every timing of operations around the expiry of several entries, all combinations of timeouts, maximum and loader, entries deleted and stored again, uses that meet the timeout, cancellation, stalled goroutines",
     "the tests sleep past single expiries of single keys",
     ["collections/guava_map.go"], [("a timer and a deadline per entry", "collections/guava_map.go: createHolder, touch, expired")],
     ["GuavaMap.*", "number of goroutines"], "simulated clock: an exact reference model; where things meet, bounds")
prop("C25", "GuavaMap loads what is missing, and shares a load when asked to",
     "Get of a key that is not in a GuavaMap with a loader returns what a load of that key within the call gave (or a value stored meanwhile): a loaded value is stored, a load that fails or panics stores nothing and its error (or panic) goes to nobody but the Get that ran it. With load locking, a key is never loaded by two at once, and nobody loads it again while a loaded value is there. A load, however slow, keeps no operation on another key waiting.",
     [S, H, C, F], "every interleaving of Gets with each other and with Set, Delete, Clear and eviction, slow and failing loads, stalled goroutines",
     "one test counts loads with sleeps; no test has failing loads or other keys",
     ["collections/guava_map.go", "collections/lock_map.go"], [("load outside the lock, look again before storing", "collections/guava_map.go: Get"), ("a mutex per key around loads", "collections/guava_map.go: lockLoad")],
     ["GuavaMap.Get", "load function"], "every load is recorded and matched with the Gets; linearizability with loads as part of Get")
prop("C26", "GuavaMap unloads every entry that goes exactly once",
     "The unload function of a GuavaMap is called exactly once for every entry that goes, be it by Delete, Clear, eviction or timeout, with the key and the last value stored, and soon after it went. It is called for nothing else: not for overwriting, not for deleting what is not there, and not for entries that stay. A slow unload function keeps no operation waiting, and it may use the map.",
     [S, H, C, F], "every interleaving of every history, with and without maximum and timeouts, removals that meet timeouts, stalled goroutines",
     "one test waits for one unload of one key",
     ["collections/guava_map.go"], [("one place that removes an entry", "collections/guava_map.go: safeDelete, Clear")],
     ["unload function"], "calls are matched with the removals of the linearization, or of the exact timed model")
prop("C27", "GuavaMap.LockForUpdate makes updates of a key one after the other",
     "LockForUpdate of a GuavaMap never runs two update functions of one key at once, stores what the function returned before the next one of that key runs, and returns it; updates of different keys, and other operations meanwhile, do not wait for it. When the function panics, nothing is stored and the key can be updated again. Entries it stores are entries like any other.",
     [S, H, C, F], "every interleaving of updates of few keys, slow and panicking functions, together with other operations, stalled goroutines",
     "LockForUpdate has no concurrent test",
     ["collections/guava_map.go"], [("a counted mutex per key", "collections/guava_map.go: lockKey, unlockKey")],
     ["GuavaMap.LockForUpdate"], "updates read and write a counter, whose last value tells about lost updates; occupancy of the functions; waiting time on the simulated clock")
prop("C28", "StructUniqSet is a linearizable set of values",
     "Concurrent operations on a StructUniqSet (Add, Has, Remove, Count) have the results they would have one at a time, in an order compatible with real time, where two values are one element exactly when the hash function (by default, one over the whole content) maps them to one hash: exactly one of several concurrent Adds of an element that is not there returns true. When the hash function fails or panics, so does the operation, which then changes nothing.",
     [S, H, C], "every interleaving of every history on few elements, values of several shapes built anew each time, own and default hash functions, failing ones included, stalled goroutines",
     "the set has no test",
     ["collections/struct_uniq_set.go"], [("a map by hash under one lock", "collections/struct_uniq_set.go")],
     ["StructUniqSet.*"], "linearizability against a set of contents")
prop("C29", "StructUniqSet forgets elements after their time to live",
     "An element of a StructUniqSet is there for at least its time to live since it was added (unless it is removed) and is gone at most one check interval later, no matter what was added, removed and added again before. When the context is cancelled no goroutine is left.",
     [S, H, C, F], "every timing of Add, Remove, Has and Count around the expiry of several elements, every pair of durations, elements removed and added again, cancellation, stalled goroutines",
     "the set has no test",
     ["collections/struct_uniq_set.go"], [("a list of elements in the order of their time, checked at an interval", "collections/struct_uniq_set.go: Build")],
     ["StructUniqSet.*", "number of goroutines"], "simulated clock; presence is compared with the age of the element")
prop("C30", "AES gives every plaintext back, never repeats a ciphertext, accepts no other",
     "With a key of 16, 24 or 32 bytes, Decrypt gives back exactly what Encrypt was given, for any data and any AES with the same key, and two encryptions never give the same ciphertext or share a key stream, even of equal data at the same instant by different AES of one key. Decrypt fails, without a panic, on everything that Encrypt with this key did not produce: damaged, truncated, extended, spliced or foreign data. Keys of other lengths give an error, neither operation changes its input or an earlier result, and one AES may be used by many at once.",
     [I, S, C, F], "all data, keys, corruptions and interleavings of users of shared and separate instances, random sources that repeat nothing but differ in one byte only, or give few bytes at a time",
     "the tests decrypt one fixed string",
     ["crypto/aes.go"], [("AES-GCM with a random nonce in front of the ciphertext", "crypto/aes.go")],
     ["AES.Encrypt", "AES.Decrypt"], "simulated random source and corruption of ciphertexts; concurrent users")
prop("C31", "A saved CryptoFS loads as exactly what was added, or Save said it failed",
     "When CryptoFSBuilder.Save returns nil, loading the file with the same key gives exactly the files and folders that were added, as they were when they were added, whatever the file held before. When adding or saving fails or the process dies at any point, the file afterwards loads as the old content, as the new one, or not at all; a load that meets errors of the disk fails or is exact; interrupted and short system calls are not noticed. A damaged, torn or truncated encrypted file, a truncated plain one, and a wrong, missing or superfluous key give an error.",
     [F, CP, I, S], "all trees of files, disk errors, short and interrupted calls and a full disk at every system call of adding, saving and loading, crashes between and within them, damage at rest, loads during a save of an encrypted file",
     "the tests save and load one folder on a disk that never fails",
     ["crypto_fs/crypto_fs.go", "crypto/aes.go"], [("one gob message, encrypted as a whole", "crypto_fs/crypto_fs.go: Save, CryptoFSFromFile"), ("errors of adding are kept for Save", "crypto_fs/crypto_fs.go: fail")],
     ["CryptoFSBuilder.Save", "CryptoFSFromFile"], "disk faults and crashes at the system call layer; what loads is compared with a model of the tree")
prop("C32", "A loaded CryptoFS serves every file in full to any number of readers",
     "Every file of a loaded CryptoFS opens by the path it was added under, and every handle reads the whole content in order from its start and then EOF, with buffers of any size, independently of other handles, other goroutines, the disk, and what callers do to their buffers and lists. Stat, ReadDir and fs.WalkDir describe exactly the tree that was added; what was not added gives fs.ErrNotExist, and ReadDir of a file an error.",
     [S, I, H], "all trees and interleavings of readers with several handles each, reads of any size (also empty), files deleted from the disk meanwhile",
     "the tests read each file once with one call",
     ["crypto_fs/crypto_fs.go"], [("a reader of its own per handle", "crypto_fs/crypto_fs.go: Open, openFile")],
     ["CryptoFS.Open", "CryptoFS.ReadDir", "fs.File", "fs.WalkDir"], "each read is compared with the content at the handle's position")
prop("C33", "GZipData and GUnzipData give the data back, and damage does not pass",
     "GUnzipData gives back exactly what GZipData was given, for any data and any number of concurrent users, and neither changes its input or an earlier result. Damaged data gives an error or, where the damage does not touch the content, the original, and never a panic or other data; truncated data always gives an error.",
     [I, S, F], "all data, corruptions (bit flips, bursts, truncation, splices) and interleavings of users",
     "the tests unzip one string",
     ["zip/gzip.go"], [("gzip with its checksum, read to its end", "zip/gzip.go")],
     ["GZipData", "GUnzipData"], "corruption of compressed data; concurrent users")
prop("C34", "ReadNBytes gives exactly the next bytes of the stream or an error",
     "ReadNBytes returns exactly the next n bytes of the connection, as soon as they are there and however they are fragmented, and takes nothing beyond them, so that consecutive calls give consecutive pieces of the stream; n = 0 returns at once. When the stream ends before, it fails with io.EOF (nothing came) or io.ErrUnexpectedEOF (part came), and with the connection's own error when that ends it, and never succeeds with fewer bytes.",
     [I, S, F], "every fragmentation and timing of the stream, ends and errors at every point, also together with the last bytes or after empty reads, many connections at once",
     "there is no test",
     ["net/read.go"], [("io.ReadFull", "net/read.go")],
     ["ReadNBytes"], "simulated connection whose peer follows a seeded script; exact comparison in content and time")
prop("C35", "ReadNBytesWithTimeout fails exactly at its timeout and leaves no deadline",
     "ReadNBytesWithTimeout returns what ReadNBytes would when that is decided before the timeout, and otherwise fails with the timeout's error exactly when it has passed. Whether it succeeds or fails, the connection has no read deadline afterwards, so that later reads wait as long as they need to, and its writes are never affected. When the deadline cannot be set, that error is returned and nothing is read.",
     [I, S, F], "every timing of the stream around the timeout, sequences of calls with and without timeouts on one connection, concurrent writes, failing SetReadDeadline, many connections at once",
     "there is no test",
     ["net/read.go"], [("a read deadline, cleared when the call ends", "net/read.go")],
     ["ReadNBytesWithTimeout", "net.Conn"], "simulated connection and clock; exact comparison in content and time")
prop("C36", "A flow processor runs its routes in order up to the first failure",
     "A built processor runs the routes in the order in which they were added and within each the conditions and steps in theirs, each at most once per event, up to the first condition that is false or step that fails, and none after it. It returns that step's own error, an error for a false condition, and nil when all ran. Many events may be processed at once, each with its own state.",
     [I, S, C], "all routes, conditions, failing and slow steps, and interleavings of events processed at once",
     "the only tests do not compile",
     ["flow/processor.go"], [("a chain of functions per route", "flow/processor.go")],
     ["ProcessorBuilder.Build"], "each processing is compared with a plain interpretation of the routes")

prop("C41", "Collections keep nothing of keys that have come and gone",
     "What a long-lived collection keeps is bounded by what it holds at one time, not by how many keys it has ever seen. Once the entries of GuavaMap, HashSet, TwoKeyMap, SimpleMap and ShardMap are deleted, cleared, evicted or expired, once the times of the entries of RequestMap, ResponseMap, WaitMap, HolderMap and StructUniqSet have passed, and once a key's lock in MapMutex or MapRWMutex is free, whatever the operations and outcomes (failed loads, errors, timeouts) were, the collection keeps neither the keys nor the values nor anything else of them: no memory (also not with the context it was given) and no goroutine.",
     [H, S, C, F], "every sequence of operations over many keys, every configuration, failing and slow functions, and interleavings of several users",
     "the tests use a handful of keys and never look at memory or goroutines",
     ["collections/guava_map.go", "collections/request_map.go", "collections/response_map.go", "collections/wait_map.go", "collections/holder_map.go", "collections/hash_set.go", "collections/struct_uniq_set.go", "collections/lock_map.go", "collections/two_key_map.go", "collections/map.go", "collections/shard_map.go"],
     [("safeDelete, eviction and expiry", "collections/guava_map.go"), ("cleaning goroutines", "collections/request_map.go, response_map.go, struct_uniq_set.go"), ("a goroutine per key with timers", "collections/wait_map.go, holder_map.go"), ("locks counted by users", "collections/lock_map.go")],
     ["GuavaMap", "RequestMap", "ResponseMap", "WaitMap", "HolderMap", "HashSet", "TwoKeyMap", "Map", "StructUniqSet", "MapMutex", "MapRWMutex"],
     "hundreds of keys pass through; weak references, the heap after collections of garbage and the goroutines tell what is kept")

prop("C42", "Instances are independent of each other",
     "What an instance of any component gives, and when, follows from the settings it was built with and from what is done with it alone. Other instances, also ones that the same builder built before or after with the same or other settings, their values, load and cancellation, and what becomes of the builder afterwards do not show in its results, its callbacks or their timing, and no value of one ever comes out of another. A clone of a Set shares nothing with it. (Instances that were given one incoming channel with WithIncomingChan share that channel.)",
     [S, H, C], "every component, settings, plans of operations of two or three instances at once with what happens between and after their builds, and all interleavings",
     "the tests build one instance from each builder and use it alone",
     ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "flow/processor.go", "collections/guava_map.go", "collections/request_map.go", "collections/response_map.go", "collections/wait_map.go", "collections/holder_map.go", "collections/hash_set.go", "collections/struct_uniq_set.go", "collections/lock_map.go", "collections/two_key_map.go", "collections/map.go", "collections/shard_map.go", "collections/set.go"],
     [("Build makes all state anew and copies the settings", "every Build method"), ("nothing is kept in package variables but errors", "all packages")],
     ["Build of every builder"],
     "every plan runs once on an instance that is alone and once among others of one builder; the two histories, with simulated times, must be equal")

prop("C43", "Functions given to a component may use it",
     "A function that was given to a component - the loader, unloader or update function of a GuavaMap, the functions of GetOrCreate, GetOrCreateWithErr and Timeout of a RequestMap, chunk, shard and worker functions of ChunkChan, ShardChan and ShardChunk, a function run by a Runner, the hash function of a StructUniqSet, a step of a flow - may call the operations of the same instance and cancel its context. Every call returns, within the function and without; results and values stay those of their keys; what is added from within comes out once, like everything else; and the goroutines end after cancellation. A function may only not wait for itself: a load does not ask for its own key, an update does not update its own, nor do two of them ask for each other's. (The exception are the functions of SetIfNotExistsWithFunc of SimpleMap and ShardMap, which run while the map is locked.)",
     [S, C], "settings, plans of operations of clients and of nested operations of the functions (to any depth), points of cancellation, stalls and interleavings",
     "the tests give functions that only count or sleep",
     ["collections/guava_map.go", "collections/request_map.go", "collections/struct_uniq_set.go", "chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "flow/processor.go"],
     [("functions are called after the mutex was released", "collections/guava_map.go, request_map.go, struct_uniq_set.go"), ("workers call functions without holding anything", "chans, workers")],
     ["every function given to a component"],
     "clients and functions run random plans; each ends within bounded simulated time; values carry their key and items are counted as they come out")

prop("C44", "What has nothing to do sleeps",
     "An instance with nothing to do - without items, tasks or entries, or with only callers and callbacks that wait for one another or for something outside - executes nothing but a few statements whenever one of its own timers fires: the chunk timeout of ChunkChan and ShardChunk, the check interval of StructUniqSet, the 100 ms of RequestMap, the clear timeout of ResponseMap, and the timeouts of entries. Callers blocked in Add, Run, Wait, GetOrCreate, Get, LockForUpdate, Lock or RLock do not run until what they wait for happens. Nothing spins, and nothing polls more often than that, however long it lasts.",
     [S, C], "settings, the operations that led to the state, interleavings, and waits of up to days",
     "the tests end as soon as they have their results",
     ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "collections/guava_map.go", "collections/request_map.go", "collections/response_map.go", "collections/wait_map.go", "collections/holder_map.go", "collections/struct_uniq_set.go", "collections/lock_map.go", "collections/map.go"],
     [("goroutines block in select on channels and timers", "chans, workers, collections"), ("waiters block on channels and mutexes", "collections")],
     ["goroutines of every component; blocking operations"],
     "the statements executed during a long watch, in simulated time, of an instance at rest are counted against the timers that fired")

prop("C45", "Timeouts count the time that passes, whatever the wall clock shows",
     "Every wait of the library is for elapsed time: the chunk timeouts, the read and write timeouts of GuavaMap, how long RequestMap keeps a result and Timeout waits, the times of ResponseMap, WaitMap and HolderMap, the lifetime in StructUniqSet and the deadline of ReadNBytesWithTimeout. When the system's clock is set forward or back, by milliseconds or by years, any number of times, or runs fast or slow or backwards, nothing ends, expires, is delivered or is removed earlier or later for it.",
     [S, I], "the timed scenarios' settings, operations and interleavings, and every course of the wall clock (jumps of 1 ms to 10 years every 0.5 ms to 1 h, drifts)",
     "tests run by a clock nobody sets, and cannot set one",
     ["collections/guava_map.go", "collections/request_map.go", "collections/response_map.go", "collections/struct_uniq_set.go", "collections/wait_map.go", "collections/holder_map.go", "chans/chunk_chan.go", "chans/shard_chunk_chan.go", "net/read.go"],
     [("time.Time values that carry the monotonic clock, and timers", "collections, net"), ("tickers", "chans, collections")],
     ["what each timed component shows, by the exact elapsed time"],
     "the scenarios of C02, C04, C14, C15, C17, C19, C21, C23, C24, C26, C29 and C35 run under a simulated wall clock that is set and drifts, with their own oracles on elapsed time")

prop("C46", "Channels hold no more than their buffers, and Sizes tells how much",
     "When the consumers of a ChunkChan, ShardChan or ShardChunk stop, no more is accepted than the buffers hold plus what each stage has in hand (one chunk or message); who adds more waits, and goes on when room is made. Nobody is blocked adding while there is room, and while the outgoing buffers have room everything has gone there within the timeout. At rest Sizes reports exactly what is queued, ShardCount the number of shards. Built without a shard function, ShardChan and ShardChunk fail with ErrShardFuncIsNil.",
     [S, I, C], "every configuration (shards, sizes, also unbuffered, own incoming channel, function or reader), every number of items and producers, consumers that stop, go on and stop again at any time, stalled goroutines",
     "no test stops a consumer, and none looks at Sizes but once",
     ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"],
     [("bounded channels between the stages", "chans: Build"), ("lengths of the channels", "chans: Sizes")],
     ["Add", "Sizes", "C", "ShardCount", "Build"],
     "after every stop of the consumers, what was accepted and not delivered is compared with what Sizes and the channels tell, between exact bounds")

prop("C47", "Every file that is opened is closed again, whatever fails",
     "AddFile, AddFolder, Save and CryptoFSFromFile leave no file or directory open when they return, whether they succeed or fail, at whatever point: a file that cannot be opened, read, written or closed, a full disk, a key that does not fit, a file that cannot be decrypted or decoded.",
     [F, I], "every tree of files, every sequence of adding, saving and loading (also with builders that are used again), disk errors, short and interrupted calls at every system call, bad keys and paths",
     "the tests meet no disk error, and do not count descriptors",
     ["crypto_fs/crypto_fs.go"],
     [("Close on every path", "crypto_fs/crypto_fs.go: AddFile, Save"), ("os.ReadFile, os.ReadDir", "crypto_fs/crypto_fs.go")],
     ["the descriptors of the process"],
     "the lowest free file descriptor is the same before and after every call, under errors injected at the system calls")

prop("C48", "A collection whose context has ended leaves nothing behind and blocks nobody",
     "The context of a GuavaMap, RequestMap, ResponseMap, WaitMap, HolderMap or StructUniqSet may be cancelled, or its deadline or its parent's may pass, at any instant: before the instance is built, while callers wait and functions run, and before further calls. All goroutines of the instance end soon, however long its timeouts and lifetimes are. Waits on a WaitMap and a HolderMap end at once; every other call takes no longer than its own timeout and the functions it calls, and nothing panics. Results are still those given for the key, zero or an error; a GuavaMap, RequestMap, ResponseMap and StructUniqSet can be used further, without anything that expires by itself; WaitMap and HolderMap hold no entry any more.",
     [S, C, F], "every instant of the end of the context, every way in which it ends, every setting (durations short, or longer than any run), operations of clients before, at and after that instant, stalled goroutines",
     "no test cancels a context that a collection is given, except in the end",
     ["collections/guava_map.go", "collections/request_map.go", "collections/response_map.go", "collections/wait_map.go", "collections/holder_map.go", "collections/struct_uniq_set.go"],
     [("every goroutine of a collection also waits for the context", "collections")],
     ["operations of all collections with a context", "number of goroutines", "Count, Size"],
     "clients run random plans around the end of the context; the simulator bounds each call in simulated time and counts the goroutines that are left")


def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    n = len(P)
    prop(id, title, statement, over, text, why, files, mechanism, observe, "")
    NA.append((P.pop(n), reason))


NA = []
na("C37", "CompareSlice splits two lists into removed, added and common elements",
   "For any two lists, CompareSlice returns which elements of the first are missing in the second, which of the second are missing in the first, and which are in both, by id, in the order of the lists and without changing them.",
   [I], "all pairs of lists", "the test compares one pair", ["comparer/comparer.go"], [("a map by id", "comparer/comparer.go")], ["CompareSlice"],
   "a pure sequential function of its arguments: no schedule, clock, I/O or other party for a simulator to vary; input generation alone would be another technique")
na("C38", "Byte packing and unpacking of integers are inverse to each other",
   "GetIntFromBytes gives back the number GetBytesFromInt packed into enough bytes, and UnpackUint gives back what PackUint packed with the same byte order, for every value and width.",
   [I], "all values, widths and byte orders", "there is no test", ["net/to_bytes.go"], [("shifts by eight bits", "net/to_bytes.go")], ["GetBytesFromInt", "PackUint"],
   "pure sequential functions: nothing for a simulator to vary")
na("C39", "Integer helpers compute minima, maxima and moved decimal points",
   "Min and Max (of every type) return the smaller and the larger argument, and IntPointMove moves the decimal point of an integer by the given number of places, for every value.",
   [I], "all values", "the test samples a few", ["math/minmax.go", "math/decimal_int.go"], [("comparisons and repeated multiplication", "math")], ["Min", "Max", "IntPointMove"],
   "pure sequential functions: nothing for a simulator to vary")
na("C40", "Set behaves like a mathematical set",
   "The operations of Set (adding, removing, membership, values, equality, cloning, clearing) have the results of mathematical sets, for every sequence of operations by one user.",
   [I, H], "all sequences of operations by one user", "the tests try a few", ["collections/set.go"], [("a map with empty values", "collections/set.go")], ["Set.*"],
   "Set is documented and built for one goroutine and has no time, I/O or other party: nothing for a simulator to vary")

TECH = "deterministic simulation with fault injection: seeded search over schedules, timings and faults of the real code in one process"
NOTE = "Real code under the simulator ({note}). Sampled, not exhaustive: a seed is one exactly repeatable run; trusts the simulator (patched Go runtime scheduler, virtual clock) and the oracle in sim/harness."


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P + [n[0] for n in NA]:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check.sh --setup",
        "hooks": {
            "guard": "none in /repo: the seams (scheduler, clock, randomness, system calls) are put into a private copy of the Go standard library and of /repo's sources with go build -overlay",
            "enable": "sim/build.py instruments /repo's current working tree into a temporary directory and builds with -overlay; /repo itself is untouched",
            "source_commits": [],
        },
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check.sh " + p["id"],
            "thorough_cmd": "./check.sh " + p["id"],
            "technique": TECH,
            "level": p["level"],
            "level_note": NOTE.format(note=p["note"]),
        } for p in P],
        "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
        "notes": "./check.sh --replay FILE runs a replay file again; ./check.sh --determinism compares runs of equal seeds across processes. VERIF_SEED and VERIF_TIER are honoured; AXSIM_BUDGET (seconds) overrides the time budget.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
