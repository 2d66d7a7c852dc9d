#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept readable here; run to regenerate).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Concurrent map: basic operations are linearizable",
 "Under any concurrent use, every Load, Store, LoadOrStore, LoadAndDelete, Delete and Clear of the concurrent map returns what some single sequential order of the calls, consistent with the order in which they really began and ended, would return on an ordinary map. So no completed store is lost, no deleted or cleared value reappears, and LoadOrStore and LoadAndDelete each have one winner per value. No such call panics or blocks forever, and the map is free of data races.",
 ["schedules","histories","inputs"],"every interleaving of any number of goroutines, every sequence of operations and keys, including promotion of the internal copy and re-use of deleted keys",
 "The tests are sequential checks plus one reflect/quick comparison against a mutex map run single-threaded and one concurrent-range smoke test; they never judge a concurrent history.",
 ["xsync/map.go"],[("lock-free read path over an immutable snapshot plus per-entry CAS","xsync/map.go Load/Store/tryStore/LoadOrStore/LoadAndDelete"),("slow path under the mutex, promotion after enough misses","xsync/map.go missLocked/dirtyLocked"),("expunged entries","xsync/map.go tryExpungeLocked/unexpungeLocked")],
 [("contents","abstract key -> value mapping","xsync/map.go Map.read + Map.dirty")],["return values of the public methods"])
p("C02","Concurrent map: compute operations are atomic read-modify-writes",
 "ComputeIfAbsent and ComputeIfPresent of the concurrent map act as one atomic step with respect to every other operation on the key: among concurrent callers exactly one installs a value for an absent key and everybody gets that value, and a present key's new value is the callback's result for precisely the value it replaces, so concurrent updates are never lost and a concurrently deleted key is not recreated by ComputeIfPresent. The callback is given the right key (and value) and is not run at all when the key is present (for ComputeIfAbsent) or absent (for ComputeIfPresent) during the whole call. A callback that panics leaves the contents unchanged and the map usable.",
 ["schedules","histories"],"every interleaving of compute calls with all other map operations on the same and other keys, including a callback that panics",
 "Each compute operation is tested single-threaded with one or two calls; no test runs two compute operations on one key concurrently or lets a callback panic.",
 ["xsync/map.go"],[("compute then CAS on the entry","xsync/map.go tryComputeIfAbsent/tryComputeIfPresent"),("slow path under the mutex","xsync/map.go ComputeIfAbsent/ComputeIfPresent")],
 [("contents","abstract key -> value mapping","xsync/map.go")],["return values and callback arguments"])
p("C03","Concurrent map: Range visits what it must, and only what was there",
 "A Range call reports no key twice, reports every key that is in the map for the whole duration of the call (unless the callback stopped it), and reports only key/value pairs that were in the map at some moment during the call. After the callback returns false no further callback happens. The callback may itself load, store, delete or range over the same map.",
 ["schedules","histories"],"every interleaving of Range with concurrent and re-entrant modifications, every map content and every stopping point",
 "One test ranges while other goroutines store fixed keys, and asserts only that a snapshot has no duplicates; deletion, clearing, promotion and re-entrant modification during a Range are not tested.",
 ["xsync/map.go","xsync/shared_map.go"],[("promotion of the dirty copy before iterating","xsync/map.go Range")],
 [("contents over the interval of the call","values each key held between start and end","xsync/map.go")],["callback arguments"])
p("C04","Sharded map: any shard count behaves as one map",
 "For every positive shard count and all string keys, the sharded map is observably one map: single-key operations (Load, Has, Store, LoadOrStore, Delete, ComputeIfAbsent, ComputeIfPresent) are linearizable, LoadOrStore answers true exactly when it stored, and a key always lives in the one shard GetShard returns for it. MStore stores every given pair, Clear removes every key that is not concurrently re-stored, and Range visits each key present throughout exactly once across all shards and stops everywhere when the callback says stop.",
 ["schedules","inputs","configurations","histories"],"every shard count >= 1, every set of string keys, every interleaving of operations",
 "Tests use a few ASCII keys, two or three shard counts and one goroutine; routing, stopping in the middle of a shard and concurrent use of several shards are not covered.",
 ["xsync/shared_map.go","xsync/map.go"],[("hash of the key masked by shard count - 1","xsync/shared_map.go GetShard/fnv32/getShardBlockSize"),("per-shard delegation","xsync/shared_map.go")],
 [("contents","union of the shards' mappings","xsync/shared_map.go SharedMap.b")],["return values, Range callbacks, GetShard"])
p("C05","Resource manager: one live resource per key, each closed once",
 "For each key at most one creation runs at a time, no creation starts while the key holds a resource, and until it is removed every Get returns that same resource; a failed creation is reported to the callers that waited for it and is not remembered. A Get that starts after Remove returned never yields the removed resource, and Remove answers true exactly when a resource was held. Close closes every held resource exactly once and reports all their errors, and a Get overlapping Close neither panics nor leaves a resource behind that nobody closed.",
 ["schedules","histories","fault_sequences"],"every interleaving of Get, Remove and Close over any keys, with creations and closings that succeed or fail in any pattern",
 "All resource-manager tests are sequential with one key; concurrent Get/Remove/Close and several failing closers are never run.",
 ["xsync/resourcemanager.go","xerror/err.go"],[("per-key single flight around lookup and creation","xsync/resourcemanager.go Get"),("map guarded by a read/write lock","xsync/resourcemanager.go"),("error batching","xerror/err.go")],
 [("resources","key -> live resource","xsync/resourcemanager.go ResourceManager.resources")],["Get/Remove/Close results, create and Close callbacks"])
p("C06","Spin lock: mutual exclusion, exact TryLock, no lost wake-up",
 "At any moment at most one caller holds the spin lock: between a successful Lock or TryLock and the matching Unlock no other Lock or TryLock succeeds. TryLock never waits, succeeds on a free lock and fails on a held one. Once holders release it, every waiting Lock eventually returns.",
 ["schedules","histories"],"every interleaving of Lock, TryLock and Unlock by any number of goroutines",
 "One test increments a counter under the lock with real goroutines; a window of a few instructions in which two callers enter is not reliably hit, and TryLock under contention is untested.",
 ["xsync/spinlock.go"],[("compare-and-swap acquire with back-off","xsync/spinlock.go Lock/TryLock"),("release store","xsync/spinlock.go Unlock")],
 [("holder","who owns the lock","xsync/spinlock.go Spinlock.lock")],["call/return order of Lock, TryLock, Unlock"])
p("C07","Write-once value and channel: exactly one winning write",
 "For the write-once value and the write-once channel, of any number of concurrent or repeated writes of non-nil values of any, also differing, types exactly one reports true and all others report false without panicking or blocking. A reader of the value sees nothing until the winning write and from then on only the winning value; every reader agrees. The channel delivers the winning value exactly once and is closed after it.",
 ["schedules","histories","inputs"],"every interleaving of writers and readers and every mix of value types",
 "The tests write ints from many goroutines once and read at the end; readers concurrent with writers, mixed dynamic types and the close of the channel are not checked under schedules.",
 ["xonce/value.go","xonce/chan.go"],[("compare-and-swap from empty","xonce/value.go Write"),("compare-and-swap flag, send, close","xonce/chan.go Write")],
 [("cell","empty or the winning value","xonce/value.go, xonce/chan.go")],["Write/Value results, channel receives"])
p("C08","Ring: Take returns the last n added values in order",
 "For every capacity and every concurrent history of Add and Take, Take returns the most recently added values, at most the capacity many, oldest first, as of some moment during the call consistent with the order of all Adds. No added value among the last capacity-many is missing, duplicated or out of order, and a returned slice is not changed by later Adds.",
 ["schedules","histories","inputs"],"every capacity >= 1, every number of Adds (also exact multiples of the capacity), every interleaving",
 "Tests add a handful of values to one capacity; boundaries (exactly full, wrapped several times) and concurrent Take are sampled, not covered.",
 ["xring/xring.go"],[("index modulo capacity","xring/xring.go Add/Take"),("read/write lock","xring/xring.go")],
 [("last values","bounded suffix of the added sequence","xring/xring.go Ring.elements")],["Take results"])
p("C09","Byte-slice pool: right size, exclusive ownership",
 "Malloc returns a slice of exactly the requested length whose capacity is at least the larger of length and requested capacity, whatever was freed before. From the moment a slice is handed out until it is freed no other caller is given memory overlapping it, under any concurrent mix of allocations and frees, including frees of slices that the pool never handed out.",
 ["schedules","histories","inputs"],"every sequence and interleaving of Malloc/MallocSize/Free with any sizes and capacities",
 "Tests check lengths and capacities of fresh slices; ownership across concurrent reuse and freeing of re-sliced or foreign slices is not examined.",
 ["xbytes/pool.go"],[("one pool per capacity, created once","xbytes/pool.go getOrCreatePool"),("re-slicing on Malloc and Free","xbytes/pool.go Malloc/Free")],
 [("live buffers","memory currently owned by callers","xbytes/pool.go bytesPoolMap")],["returned slices' length, capacity, memory"])
p("C10","Task with context: result, cancellation and deferred function",
 "A task run under a context is started at most once, and never if the context was already done; the call returns the task's own error after the task finished, the context's error only after the context was done, or re-raises in the caller a panic of the task. The call does not wait for a running task once the context is done, and waits for the task otherwise. The deferred function runs exactly once per call, after the outcome is known and before the call returns or panics, on every path, and no goroutine stays behind after the task itself ends.",
 ["schedules","fault_sequences","histories"],"every interleaving of task completion, task panic, cancellation and deadline, for all entry points (Do, DoWithTimeout, DoWithoutDefer)",
 "Tests use sleeps to force one order of completion and cancellation; simultaneous completion, cancellation and panic, and the number of deferred calls, are not checked.",
 ["xtask/do.go"],[("buffered result and panic channels","xtask/do.go Do"),("select between outcome and context","xtask/do.go Do"),("deferred function","xtask/do.go Do")],
 [("outcome","not started, running, finished(err), panicked","xtask/do.go")],["callbacks, result, panic value"])
p("C11","Retry stops at the first success and reports every failure",
 "With a retry count of n >= 0 (3 by default) the function is called until it first succeeds and at most n+1 times, never concurrently; the result is nil exactly when some attempt succeeded. Otherwise the result carries every attempt's error in order: the single error itself when there was one attempt, else an error whose text is the errors' texts joined by newlines. An error batch ignores nil errors, is empty exactly when none was added, and never loses or reorders errors.",
 ["fault_sequences","inputs"],"every retry count and every pattern of failing and succeeding attempts; every sequence of additions to a batch",
 "Three fixed patterns are tested; the number of calls, the order of collected errors and other retry counts are not.",
 ["xtask/retry.go","xerror/err.go"],[("attempt loop","xtask/retry.go DoWithRetry"),("error batch","xerror/err.go BatchError")],
 [("attempts","errors so far","xtask/retry.go")],["calls of the function, returned error"])
p("C12","Worker: bounded concurrency, every accepted task settled once",
 "A worker of size n >= 1 never has more than n accepted tasks that are not yet settled (deferred function returned); a further Run waits until one settles and then proceeds. Every accepted task has its deferred function called exactly once; its function is called at most once, exactly once if its context is not cancelled, and never if the context was done before Run. A task settles as soon as its function has ended or its context is done.",
 ["schedules","histories","fault_sequences"],"every worker size, any number of tasks, every interleaving of running, finishing and cancelling",
 "The test runs 100 tasks and checks totals; the bound on simultaneous tasks and exactly-once of the deferred function under cancellation are not observed.",
 ["xworker/xworker.go","xtask/do.go"],[("slot channel acquired before the goroutine starts","xworker/xworker.go Run"),("slot released in the deferred function","xworker/xworker.go Run")],
 [("slots","accepted and unsettled tasks","xworker/xworker.go Worker.c")],["start/end of task and deferred function, return of Run"])
p("C13","Barriers: nothing passes once the context is done",
 "A write through a write barrier that starts after its context is done reports failure and never delivers its value; a read through a read barrier that starts after its context is done reports failure and consumes nothing. While the context is live, every write that reports success delivers its value exactly once, in order, every read that reports success returns the next value of the channel, and a call reports failure only if the context was done before it returned.",
 ["schedules","histories"],"every interleaving of writers, readers and cancellation over buffered and unbuffered channels",
 "Each barrier has one test with a single goroutine pair and one cancellation point.",
 ["xbarrier/readbarrier.go","xbarrier/writebarrier.go"],[("context check before the channel operation","xbarrier/*.go")],
 [("channel","values in flight","user channel"),("cancelled","context done","context")],["results of Read/Write, values received"])
p("C14","Map-reduce: every item mapped once, every write delivered once",
 "With a context that stays live, every generated item is given to the map function exactly once, every value it writes reports success and appears exactly once in the output, and nothing else does, for any number of items and workers. At most the configured number of map functions run at the same time. The output ends exactly when generation and all map functions have finished.",
 ["schedules","inputs","configurations"],"every interleaving, any number of items, worker counts >= 1, zero or more writes per item, channel and stream forms",
 "Tests map ten items with one worker and count the outputs; parallel workers, several or no writes per item and premature end are not tested.",
 ["xmapreduce/xmapreduce.go","xworker/xworker.go","xbarrier/writebarrier.go"],[("dispatch loop with wait group and close","xmapreduce/xmapreduce.go doMap"),("bounded worker","xworker/xworker.go"),("write barrier","xbarrier/writebarrier.go")],
 [("in flight","items taken but not finished","xmapreduce/xmapreduce.go doMap")],["map calls, writes, output channel"])
p("C15","Map-reduce: cancellation ends the output",
 "Once the context is cancelled the output ends: it is closed without waiting for map functions that ignore the cancellation or for a generator that is blocked. The map function is still called at most once per item, every delivered value was written once by a map function, a write started after the cancellation reports failure (and none panics), and nothing is lost that was written successfully before the output was drained.",
 ["schedules","fault_sequences"],"every moment of cancellation relative to generating, mapping, writing and reading, any worker count, slow or stuck map functions and generators",
 "Two tests cancel at one point, separated by one-second sleeps; cancellation while workers are busy or writers blocked is untested.",
 ["xmapreduce/xmapreduce.go","xworker/xworker.go","xtask/do.go","xbarrier/writebarrier.go"],[("select on the context in the dispatch loop","xmapreduce/xmapreduce.go doMap"),("context-aware worker","xworker/xworker.go")],
 [("cancelled","context done","context")],["output channel, map calls, write results"])
p("C16","Streams: sequential stages are exact list transformations",
 "For every finite input and every composition of them, the stream sources and stages Of, From, Range, Distinct, Buffer, Split, SplitSteam, Sort, Reverse, Tail, Skip, Limit, Merge, Group and Peek produce exactly the list that their definition on finite lists gives: same elements, multiplicities and order (Group: groups in any order, members in input order; Sort: any ordering of equal elements). Peek runs its action on every element in order before the stream ends. Split, SplitSteam, Tail, Skip and Limit reject invalid sizes by panicking.",
 ["inputs","programs","schedules"],"every input list, every size parameter including 0, 1, length-1, length, length+1, every pipeline of stages, every goroutine schedule",
 "One or two literal examples per stage; compositions and boundary sizes are not explored.",
 ["xstream/xstream.go","xstream/ring.go"],[("one goroutine per stage connected by channels","xstream/xstream.go"),("tail ring buffer","xstream/ring.go")],
 [("current list","elements flowing out of a stage","xstream/xstream.go")],["elements received from the resulting stream"])
p("C17","Streams: parallel stages lose, duplicate and overlap nothing beyond limits",
 "Walk, Map, Filter, FlatMap and ParallelFinish call their function exactly once per element (FlatMap: per member of list elements, none for nil elements), and the resulting stream holds exactly the values those calls emitted, each once, ending only after all calls have finished. At most the configured number of calls run at the same time (one when unset or not positive), so with one worker input order is kept.",
 ["schedules","inputs","configurations"],"every worker count, every input list and function, every interleaving",
 "Tests run three or four elements, mostly with one worker, and sort the result before comparing.",
 ["xstream/xstream.go","xstream/option.go"],[("semaphore channel and wait group","xstream/xstream.go Walk"),("options","xstream/option.go loadOptions")],
 [("running calls","user functions in flight","xstream/xstream.go Walk")],["function calls, elements received"])
p("C18","Streams: Concat merges and Copy replicates without loss",
 "Concat of any streams yields every element of every stream exactly once, keeping each input stream's own order, and ends exactly when all of them have ended. Copy gives every named copy the complete element sequence in the original order, for every set of names and buffer sizes, as long as all copies are consumed side by side (one after another only as far as the buffers hold the stream).",
 ["schedules","inputs","configurations"],"any number of streams, lengths, buffer sizes and every interleaving of their goroutines and consumers",
 "Tests concatenate two or three tiny streams and sort the result; Copy is tested once with two names.",
 ["xstream/xstream.go"],[("one forwarding goroutine per input and a wait group","xstream/xstream.go Concat"),("fan-out loop","xstream/xstream.go Copy")],
 [("remaining","elements not yet forwarded","xstream/xstream.go")],["elements received per stream"])
p("C19","Streams: terminal operations compute the right answer",
 "On every finite stream Count is the number of elements, Foreach and ForeachOrdered visit all elements forwards and backwards respectively, AnyMach and AllMach equal the logical or/and of the predicate (false and true on an empty stream, where the predicate is not called; never called after the answer is decided), FindFirst and FindLast return the first and last element or ErrNoElement exactly when there is none, and collecting into a group-by yields exactly the elements partitioned by key in input order.",
 ["inputs","programs","schedules"],"every finite stream and predicate, after every pipeline of preceding stages",
 "One literal example per operation.",
 ["xstream/xstream.go","xstream/collection.go"],[("terminal loops","xstream/xstream.go"),("group collector","xstream/collection.go")],
 [("answer","fold over the list","xstream/xstream.go")],["results and callback sequences"])
p("C20","Streams: pipelines terminate and leave nothing running",
 "When a pipeline over a finite source is consumed to its end or closed by any terminal operation, including those that answer early, every upstream element is drained: the generating function runs to completion, no call or goroutine of the pipeline stays blocked, and the consumer always sees the end of the stream. This holds also for stages that discard elements (Limit, Tail and Skip of any valid size, Filter) and for many pipelines in use at once.",
 ["schedules","programs","inputs"],"every pipeline, terminal operation, buffer and worker size, and every interleaving",
 "Leak checks run after a fixed literal pipeline per operation on real schedules only.",
 ["xstream/xstream.go"],[("drain on early answers","xstream/xstream.go drain"),("closing the output exactly once","xstream/xstream.go"),("unbounded goroutine pool","xstream/xstream.go startGoroutine")],
 [("blocked goroutines","goroutines waiting at the end","xstream/xstream.go")],["termination of generators, end of streams, goroutine completion"])
p("C21","String joiner: prefix, separated pieces, suffix, in every call order",
 "After any sequence of writes (string, bytes, byte, rune), Grow, Reset and queries, the joiner's String is the prefix, then the pieces written since creation or the last Reset separated by the separator, then the suffix; an empty piece still counts as a piece. Len is the length of that String, Cap is at least Len, and at least n more right after Grow(n), which panics for a negative n; Grow and queries change nothing else, and each write reports the number of bytes of its own piece.",
 ["histories","inputs"],"every option combination and every sequence of calls",
 "Tests write three pieces in a row per method; Reset or Grow followed by writes with a separator is not tested.",
 ["xstring/stringjoiner.go"],[("separator before every piece but the first","xstring/stringjoiner.go tryWriteStep"),("reset","xstring/stringjoiner.go Reset")],
 [("pieces","byte strings written since reset","xstring/stringjoiner.go Joiner.b")],["String, Len, Cap, write results"])
p("C22","Binary codec: exact big-endian format, round trip, clean failures",
 "Every bool, 16- and 32-bit value and byte string up to 65535 bytes is written in the documented big-endian, length-prefixed form, and a sequence of reads in the same order returns exactly the sequence written, consuming exactly those bytes, however the reader splits the data into short reads. A byte string too long for its length prefix is refused with an error and nothing is written. Truncated input yields an error and never a made-up value, writer and reader errors are reported, and results are not altered by later calls.",
 ["inputs","histories","fault_sequences"],"every value and sequence, every way a reader may split or end its data, every failing writer position",
 "Tests use one value per function, whole reads only and one truncated input each.",
 ["xbinary/xbinary.go","xbytes/pool.go"],[("explicit byte shifts","xbinary/xbinary.go Write*"),("length prefix and full read","xbinary/xbinary.go WriteBytes/ReadBytes"),("pooled scratch buffers","xbytes/pool.go")],
 [("wire","bytes written and not yet read","io.Writer/io.Reader")],["bytes on the wire, results, errors"])
p("C23","Pooled buffered I/O: no state leaks between users",
 "A pooled buffered reader or writer behaves exactly as a fresh one for its new source or sink, apart from the size of its buffer: it never yields bytes or errors belonging to an earlier user, never emits bytes an earlier user left unflushed, and between Get and Put it belongs to one user only. The sized variants provide at least the requested buffer size regardless of what was recycled before.",
 ["histories","schedules","inputs"],"every sequence and interleaving of Get, partial use, Put and reuse, any sizes",
 "Tests get and put the same object in a loop without reading; leftovers, errors and mixed sizes are not checked.",
 ["xio/buffer.go"],[("reset on get and put","xio/buffer.go"),("size check","xio/buffer.go GetBuffer*Size")],
 [("recycled objects","readers/writers in the pool","xio/buffer.go bufReaderPool/bufWriterPool")],["bytes read/written, buffer size"])
p("C24","Strings: slicing, padding, rotating and reversing count characters",
 "On every valid UTF-8 string, Sub, Left and Right return the characters between the given positions (negative positions count from the end, out-of-range ones are clamped, never panicking); the Pad functions give exactly the requested number of characters with the original inside (centre: the extra one on the right) or the string unchanged when it is long enough; Rotate(s, n) equals n single-step rotations for every n; Reverse reverses the characters; RepeatChar, RemoveChar, RemoveString, Len and Shuffle (a permutation) likewise work on characters.",
 ["inputs"],"every valid UTF-8 string and every integer argument, including 0, negative and beyond the length",
 "Tests list mostly ASCII literals; combinations of multi-byte text with negative or large arguments are not covered.",
 ["xstring/xstring.go"],[("rune counting and clamping","xstring/xstring.go sub/pad*/Rotate/Reverse")],[],["return values"])
p("C25","Strings: comparison and search",
 "For all valid UTF-8 strings: EqualsIgnoreCase holds exactly when both have the same number of characters and these are pairwise equal ignoring case; EndsWith and its variants, RegionMatches, Contains, ContainsIgnoreCase, ContainsAnySubstrings, Index, IndexAny and EqualsAny agree with their character-wise definition (Index and IndexAny give byte offsets; Contains and EndsWithAny of an empty string are false); IndexOfDifference, its two-string form, Difference and CommonPrefix are consistent with the longest common character prefix of their arguments.",
 ["inputs"],"every tuple of valid UTF-8 strings, offsets and lengths",
 "Tests list literal ASCII examples; prefixes of each other, empty strings, multi-byte characters and negative offsets are mostly missing.",
 ["xstring/xstring.go"],[("character-wise comparison","xstring/xstring.go RegionMatches/EndsWith/EqualsIgnoreCase"),("longest common prefix","xstring/xstring.go IndexOfDifference/CommonPrefix")],[],["return values"])
p("C26","Strings: abbreviation never exceeds the width and keeps the right part",
 "Whenever Abbreviate succeeds on a non-empty string and marker the result has at most maxWidth characters; it is the string itself if that fits, else the string's beginning plus marker, marker plus the string's end, or marker, a middle part starting at the offset, and marker, as chosen by the offset. It fails exactly when maxWidth is too small to hold the marker(s) and a character. With an empty marker the string is cut to maxWidth characters; an empty string is returned unchanged.",
 ["inputs"],"every string, marker, offset (also negative and beyond the end) and width",
 "All tests use offset 0.",
 ["xstring/xstring.go"],[("case analysis on offset and width","xstring/xstring.go Abbreviate")],[],["return values and errors"])
p("C27","Strings: classification, defaults and clean-up",
 "For every valid UTF-8 string the predicates answer by its characters: IsAlpha, IsNumeric, IsAlphanumeric hold for non-empty strings of letters, digits, either; IsNumerical for the digits 0-9 with at most one decimal point after the first digit; IsBlank for strings of white space or none; IsEmpty/Any/None/Not forms are the corresponding combinations (no arguments count as any empty/blank). DeleteWhitespace removes all white space and nothing else, the Trim functions remove exactly the leading and/or trailing characters named, and the Default functions substitute exactly for blank or empty strings.",
 ["inputs"],"every valid UTF-8 string and argument list",
 "Tests list literal examples, nearly all ASCII.",
 ["xstring/xstring.go"],[("per-character loops","xstring/xstring.go Is*/DeleteWhitespace/Trim*/DefaultIf*")],[],["return values"])
p("C28","Max and Min return one of their arguments, the right one",
 "For all arguments MaxInt, MinInt, MaxInt64, MinInt64 and the float forms return one of their two arguments, the maximum respectively minimum, over the whole range of the type; for floats a NaN argument yields NaN unless the other argument is the infinity that dominates it, and -0 is below +0.",
 ["inputs"],"every pair of values of each type, including the extremes of the integer types",
 "Tests use small integers and a few float literals.",
 ["xmath/xmath.go"],[("comparison","xmath/xmath.go")],[],["return values"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
