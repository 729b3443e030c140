#!/usr/bin/env python3
# Single source of /verif/properties.jsonl (run by hand after editing).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": ["src/" + f for f in files],
                  "mechanism": [{"name": a, "where": "src/" + b} for a, b in mech],
                  **({"state": state} if state else {}),
                  "observe_at": observe or [], "hook_needed": None}})

# ---- text ---------------------------------------------------------------
p("C01", "String view searches agree with the mathematical definition",
  "For every haystack, needle (character, character set or string) and start position, find, rfind, findFirstOf, findFirstNotOf, findLastOf and findLastNotOf return exactly the first (or last) position permitted by the start position at which the match condition holds, and npos exactly when there is none. All overloads of one search (character, view, NUL-terminated string, pointer and length) agree, and no search reads outside either string.",
  ["inputs"], "every content and length of both strings, and every start position including positions at, past and far past the end and npos",
  "TestStringView checks a handful of literal strings; off-by-one, wrap-around and boundary positions need all contents and positions.",
  ["StringView.h"], [("find/rfind/findFirstOf/... loops", "StringView.h")], ["return values of the search methods"])
p("C02", "String view slicing, trimming and comparison are exact and bounded",
  "substr, left, right, leftClipped, rightClipped, clipped, removePrefix/removeSuffix, copy and the trim functions yield exactly the specified sub-range of the original characters, and at, substr, compare, clipped, copy and their relatives throw std::out_of_range exactly when the request exceeds the view. compare, startsWith, endsWith and the six relational operators agree with lexicographic order of the character sequences, and str() round-trips the contents.",
  ["inputs"], "every view content and length, and every pair of counts/positions over the whole unsigned range",
  "Tests use fixed literals; sums that wrap (l + r), n == size and full-range counts are not sampled.",
  ["StringView.h"], [("range checks and clamping", "StringView.h"), ("compare", "StringView.h")], ["returned views", "std::out_of_range"])
p("C03", "Splitting yields every token once, in order, and covers the input",
  "split invokes the action once per token, in order, with exactly the maximal delimiter-free runs between consecutive delimiters (empty tokens included), so that the tokens joined by the delimiters give back the input. The variant that disallows empty tokens invokes it with exactly the non-empty ones, in the same order, and an exception from the action ends the iteration at that token.",
  ["inputs"], "every input sequence and every delimiter placement up to the bound",
  "There is no test of split in the repository.",
  ["Split.h"], [("split loops", "Split.h")], ["calls made to the action"])
p("C04", "Hashing is a function of the byte content alone",
  "Hashing raw data depends only on the bytes and their number: equal contents at different addresses hash equal, and every documented way of hashing the same characters (string view, std::string, C string, character range, string hasher) gives the same value. The hash reads no byte outside the given range and accepts every length including zero.",
  ["inputs"], "every byte content up to the bound, at any alignment",
  "Hash.h has no test; tests elsewhere hash a few literals.",
  ["Hash.h", "StringView.h", "StringHasher.h"], [("hashRawData", "Hash.h"), ("hash_value", "StringView.h"), ("StringHasher", "StringHasher.h")])
# ---- numbers ------------------------------------------------------------
p("C05", "Mixed-signedness integer comparisons follow the mathematical integers",
  "integralEqual, integralLess and all their relatives, for every combination of integral operand types and signedness, return what comparing the operands as mathematical integers would; integralZero/Positive/Negative and their negations classify by mathematical sign. isPowerOfTwo holds exactly for positive powers of two, min/max return the smallest/largest argument, and toSigned/toUnsigned preserve the bit pattern.",
  ["inputs"], "every pair of values of every tested pair of integer types (8 to 64 bit, signed and unsigned)",
  "The tests sample boundary constants; a wrong promotion shows only for particular value pairs and type pairs.",
  ["IntegralComparisons.h", "IsPowerOfTwo.h", "Min.h", "Max.h", "ToSigned.h", "ToUnsigned.h", "SignedToUnsigned.h"],
  [("IntegralComparisons overloads", "IntegralComparisons.h"), ("isPowerOfTwo", "IsPowerOfTwo.h")])
p("C06", "Wide unsigned integers compute modulo 2^N",
  "For every wide unsigned integer type the library provides (any bit width and block type, and the 128-bit type), addition, subtraction, multiplication, negation, increment, decrement, bitwise operators, shifts by any amount, and comparisons give exactly the result of the same operation on mathematical integers modulo 2^N, in both the compound and the binary form. Bits outside the declared width never influence any result.",
  ["inputs"], "all operand values and shift counts at the listed widths and block types",
  "There is no test of these types in the repository; carry chains and block-boundary shifts need particular operands.",
  ["uint_t.h", "uint128_t.h", "integer_demotion.h"], [("add/sub/mul carry loops", "uint_t.h"), ("shift operators", "uint_t.h"), ("uint128_t operators", "uint128_t.h")])
p("C07", "Wide integer division satisfies q*d + r = n with r < d",
  "For every numerator and every non-zero divisor the quotient and remainder operators of the wide unsigned integers return the unique q and r with n = q*d + r and 0 <= r < d, in the compound, binary and combined forms and for every bit width including widths that do not fill the last block.",
  ["inputs"], "all numerators and all non-zero divisors at the listed widths",
  "No test exists; long-division loops fail only for particular numerator/divisor bit patterns.",
  ["uint_t.h", "uint128_t.h"], [("divMod", "uint_t.h"), ("operator/=, operator%=", "uint128_t.h")])
p("C08", "Wide integer conversions preserve the value modulo the target width",
  "Constructing a wide unsigned integer from any non-negative built-in integer or from another wide integer, and converting back, yields the source value modulo 2^(target width); conversion to bool is true exactly for non-zero values, numeric_limits min/max are the true extremes, and demotion returns the lossless built-in type when one exists.",
  ["inputs"], "all source values for the listed source and target widths",
  "No test exists; truncation errors appear only for sources with bits above the target width.",
  ["uint_t.h", "uint128_t.h", "integer_demotion.h"], [("converting constructors", "uint_t.h"), ("conversion operators", "uint128_t.h")])
p("C09", "UUID generation and text form are well formed and loss free",
  "The textual form of every UUID has the canonical 8-4-4-4-12 lower-case hexadecimal layout of its sixteen bytes in order, converting that text back yields the same UUID, and text of any other form (the letter case of the digits aside) is refused with the documented exception. Hashing a UUID depends on its sixteen bytes only, and generating a UUID from a name is a function of the name only, in the fixed namespace of the library.",
  ["inputs"], "all 2^128 byte contents", "The test looks at a fixed UUID.",
  ["Uuid.h"], [("Uuid", "Uuid.h")])
# ---- bits, packing ------------------------------------------------------
p("C10", "A bit vector behaves as the sequence of booleans written to it",
  "After any sequence of construction (also from iterators of any category), assign, push_back, pop_back, append, resize, bit assignment, copy, move, swap and clear operations, size, element access and equality of a bit vector are exactly those of the corresponding sequence of booleans. Equality never depends on bits beyond the size, no operation accesses memory outside the blocks that hold the sequence, and one that runs out of memory leaves the sequence as it was.",
  ["histories", "inputs"], "every sequence of operations up to the bound with every bit value and length, including lengths that are not a multiple of the block size",
  "The bit vector has no test in the repository; errors in partially filled blocks need particular length combinations followed by further operations.",
  ["BitVector.h"], [("BitVec::append / push_back / resize", "BitVector.h"), ("operator==", "BitVector.h")])
p("C11", "Packed layouts give each field its own bytes and round-trip values",
  "In a packed structure every field occupies exactly sizeof(field) bytes at the sum of the sizes of the preceding fields, writing one field changes no byte of any other, and reading returns the value last written, at any base alignment. The total size is the sum of the field sizes for the static, dynamic and maybe-dynamic variants, and all accessor kinds agree.",
  ["inputs"], "all field values, all dynamic field lengths and all write orders up to the bound",
  "Tests write a few constants; overlap or truncation shows up only for particular field values and dynamic sizes.",
  ["PackingInfo.h", "DynamicPackingInfo.h", "MaybeDynamicPackingInfo.h", "PackedStruct.h", "DynamicPackedStruct.h", "MaybeDynamicPackedStruct.h", "PackedStructAccessor.h", "ConstPackedStructAccessor.h", "PackedRawData.h"],
  [("fieldOffset", "PackingInfo.h"), ("dynamic offsets", "DynamicPackingInfo.h")])
p("C12", "Unaligned pointers and references behave like aligned ones",
  "Reading and writing a trivially copyable value through an unaligned pointer or reference at any byte address transfers exactly sizeof(T) bytes and yields the value written, and touches no neighbouring byte. Pointer arithmetic, differences, ordering and indexing agree with ordinary pointers to an array of T, including negative offsets.",
  ["inputs"], "all values, all byte offsets and all index pairs within a buffer",
  "There is no test of unaligned pointers.",
  ["UnalignedPointer.h", "UnalignedReference.h", "ConstUnalignedReference.h"],
  [("UnalignedPointer arithmetic", "UnalignedPointer.h"), ("memcpy access", "UnalignedReference.h")])
p("C13", "The circular buffer is a bounded FIFO of its elements",
  "For every capacity and every sequence of writes, reads, actor-based writes and reads, and manual haveWritten/haveRead bookkeeping, elements are read exactly once, unmodified and in write order; every transfer moves as many elements as requested, space and contents permit and reports that number. Available data plus available space always equals the capacity, contiguous sizes never extend past the array end, and no access leaves the array.",
  ["histories", "inputs"], "every operation sequence up to the bound, every transfer size and every element value, at every small capacity",
  "TestCircBufferSCSP pushes one pattern; wrap-around combined with particular partial transfers is not sampled.",
  ["CircBufferSCSP.h"], [("operate / haveWritten / haveRead", "CircBufferSCSP.h")],
  state=[{"name": "offsets and fill count", "meaning": "position of next read/write", "where": "src/CircBufferSCSP.h"}])
p("C14", "Circular buffer hand-over is safe under every schedule",
  "With one producer and one consumer thread, under every interleaving, the consumer receives exactly the elements produced, in order and with their written contents; there is no data race on the elements. A producer blocked for space or a consumer blocked for data always wakes once space or data exists, so neither waits forever.",
  ["schedules"], "every interleaving of the synchronisation operations of one producer and one consumer, with spurious wake-ups, for bounded numbers of elements",
  "A test run samples a few schedules; a lost wake-up or early publication needs a particular interleaving.",
  ["CircBufferSCSP.h"], [("CircBufferScspLocking", "CircBufferSCSP.h"), ("waitAvailable", "CircBufferSCSP.h")])
# ---- resources ----------------------------------------------------------
p("C15", "Identifiers handed out by a pool are unique while held",
  "No two live holders of one pool ever have the same identifier, under every sequence of reserve, release, move, move-assignment and destruction and every interleaving of threads; a released identifier becomes available again exactly once. Reserving succeeds whenever fewer than all values of the identifier type are held, and throws the pool's ReserveException, leaving the pool unchanged, exactly when all are held.",
  ["histories", "schedules"], "every bounded sequence of pool operations from arbitrary pool positions, including wrap-around and exhaustion, and two-thread interleavings",
  "The test reserves a few identifiers in order; wrap-around, exhaustion and aliasing moves are not reached.",
  ["IdentifierPool.h"], [("State::reserve / recycle", "IdentifierPool.h"), ("IdHolder", "IdentifierPool.h")])
p("C16", "A shared resource map exposes at most one object per key",
  "At every moment all live handles obtained for one key refer to the same object, which stays alive at least until the last of them is dropped; after the last handle for a key is dropped the object is destroyed and the key disappears, so that a later request constructs afresh. size, empty, forEach and waitForEmpty reflect exactly the keys with a live or pending object, and a failing constructor leaves the map as it was, its exception reaching the caller.",
  ["histories", "schedules"], "every bounded sequence of requests and drops over a few keys, with failing constructors, and interleavings of two or three threads",
  "The test walks one sequential scenario; revival during destruction needs a particular interleaving.",
  ["SharedResourceMap.h"], [("getResource and its deleter", "SharedResourceMap.h")])
p("C17", "The LRU cache keeps exactly the most recently used values alive",
  "After any sequence of insert, get, clear and external releases, the cache itself keeps alive exactly the values of the min(limit, n) most recently used keys, get returns the value most recently inserted for the key if it is kept by the cache or still alive elsewhere, and nothing otherwise. Every get or insert makes its key the most recently used, and no operation leaks or frees a value early.",
  ["histories"], "every sequence of operations up to the bound over a few keys, limits and outside owners",
  "The test runs one scenario; order errors need particular re-use sequences around demotion and expiry.",
  ["LRU.h"], [("insert / get / grow", "LRU.h")])
p("C18", "An intrusive shared item set owns its members exactly",
  "The set contains exactly the items inserted and not yet erased or taken, at most one per equality class; it holds one shared reference to each member and to nothing else. Lookup by any compatible key finds a member exactly when one is equal; erase releases the reference, take hands it to the caller, and destroying the set releases all.",
  ["histories"], "every sequence of insert, erase, take, find and destroy up to the bound, with equal and colliding items",
  "There is no test of this container; a reference leak or early release shows only in ownership counts after particular histories.",
  ["IntrusiveUnorderedSharedItemSet.h"], [("insert/erase/take", "IntrusiveUnorderedSharedItemSet.h")])
p("C19", "Object tree parents and children never dangle",
  "A child registered with a parent is listed by it exactly from the child's construction to its destruction or the parent's destruction, whichever comes first. Destroying the parent hands each remaining child to the child destructor exactly once and detaches it, destroying a child first removes it from its parent, and neither order touches freed memory.",
  ["histories"], "every order of creating and destroying bounded numbers of parents and children",
  "There is no test of object trees.",
  ["ObjectTree.h"], [("registerChild / unregisterChild / freeByParent", "ObjectTree.h")])
p("C20", "Element, member and self pointers keep the owning object alive",
  "Pointers made to the elements of a shared tuple, and self pointers obtained by an object from its own shared owner, refer to the requested element or object and keep the whole owner alive until the last of them is gone, after which it is destroyed exactly once. Asking for a self pointer of an object that is not shared yields the documented failure (bad_weak_ptr, or an empty weak pointer) and never a dangling pointer.",
  ["histories"], "every order of obtaining and dropping such pointers up to the bound",
  "Tests check one order; lifetime errors depend on the order of drops.",
  ["SharedTupleElementPointers.h", "EnableSharedFromThis.h"], [("aliasing constructors", "SharedTupleElementPointers.h"), ("sharedFromThis", "EnableSharedFromThis.h")])
p("C21", "Aligned and uninitialised storage is correctly sized, aligned and owned",
  "Every successful aligned allocation is aligned as requested and large enough for the requested number of elements, impossible requests throw bad_alloc, and memory is released exactly once by the matching deallocation. The uninitialised dynamic array keeps its size and contents across move construction, move assignment and swap, and frees its storage exactly once.",
  ["inputs", "histories"], "every element count and alignment up to the bound plus counts that overflow, and every sequence of moves and swaps",
  "There is no test of either.",
  ["AlignedAllocator.h", "UninitializedDynamicArray.h"], [("allocate", "AlignedAllocator.h"), ("move operations", "UninitializedDynamicArray.h")])
p("C22", "A reference vector refers to exactly the objects put in it",
  "A vector of references behaves as a sequence of references: after any sequence of push, pop, insert, erase, resize, assignment, swap and iteration, element i is the very object stored there, const access included, and iteration visits all elements in order.",
  ["histories"], "every operation sequence up to the bound",
  "There is no test of reference vectors.",
  ["ReferenceVector.h"], [("RefVec", "ReferenceVector.h")])
p("C23", "A file descriptor owner closes its descriptor exactly once",
  "A descriptor owned by a file descriptor object is closed exactly once, when the owner is destroyed, closed, reset to another descriptor or move-assigned over, and never when it was released or moved away; no descriptor is closed that is not owned. Duplicating yields an independently owned close-on-exec descriptor or throws with the system error nested.",
  ["histories", "fault_sequences"], "every sequence of construct, move, assign, reset, release, close, duplicate and destroy over a few descriptors, with system calls failing arbitrarily",
  "There is no test; double close needs a particular sequence and is silent.",
  ["FileDescriptor.h", "Posix.h"], [("FileDescriptor", "FileDescriptor.h")])
p("C24", "System call wrappers retry interruptions and report every other failure",
  "The system call loop retries exactly while the call fails with EINTR or EAGAIN, returns the first accepted result, and on any other failure throws the requested exception with the causing errno nested. Adding descriptor flags preserves all flags already set and sets exactly the requested ones in addition.",
  ["fault_sequences", "inputs"], "every sequence of results and errno values up to the bound, every previous and requested flag set",
  "There is no test; fault sequences cannot be produced by calling the real system.",
  ["Posix.h", "Exception.h", "ThrowNested.h"], [("syscallLoop / fcntlAddFlags", "Posix.h")])
# ---- asynchrony ---------------------------------------------------------
p("C25", "A future receives its promise's outcome exactly once",
  "Whatever sequence of move, assignment, swap, fulfilment, failure, abandonment and destruction a promise undergoes, its future becomes ready exactly when the outcome is decided and then yields exactly that value, that exception, or a broken-promise exception if the promise disappeared undecided. Values are constructed once, moved out once and destroyed as often as constructed, and a value constructor that throws leaves neither a hung future nor a terminated program.",
  ["histories"], "every sequence of promise and future operations up to the bound, with throwing and counting value types",
  "TestFuture runs straightforward sequences; moves over live promises and throwing values are not reached.",
  ["Future.h"], [("Promise / SharedState", "Future.h")])
p("C26", "Waiting on a future is correct under every schedule",
  "Under every interleaving of the fulfilling thread with waiting threads, every blocked wait or take returns once the promise is decided, timed waits report readiness truthfully, and the value is seen fully constructed without data races. No waiter is left blocked after the promise is decided or destroyed.",
  ["schedules"], "every interleaving of one fulfilling and up to two waiting threads, with spurious wake-ups",
  "A test run samples few schedules; a lost wake-up needs one in particular.",
  ["Future.h"], [("SharedState mutex/condition protocol", "Future.h")])
p("C27", "Continuations run exactly once and chain outcomes faithfully",
  "A continuation attached to a future runs exactly once, whether attached before, after or concurrently with fulfilment, and receives the ready future; the future returned by then yields the continuation's result, its exception, the flattened result of a returned future, or a broken promise for an invalid returned future. Attaching that fails with an exception leaves the future as it was. Packaged tasks and ready, exceptional and broken futures deliver likewise.",
  ["histories", "schedules"], "every order and interleaving of attaching and fulfilling, with every kind of outcome and continuation",
  "Tests attach continuations in a couple of fixed orders.",
  ["Future.h"], [("then / ContinuationRun", "Future.h"), ("PackagedTask", "Future.h")])
p("C28", "Latches, simple waits and stop flags never lose a release",
  "A latch opens exactly when its count reaches zero: every waiter returns after and only after the last count-down, exactly one count-down is reported as last, and isReady never reports early. A simple wait returns after and only after notification, or throws what its stop test throws; a requested stop is observed by later checks until reset.",
  ["schedules"], "every interleaving of up to three threads, with spurious wake-ups and time-outs",
  "There are no tests of these classes, and tests cannot enumerate schedules.",
  ["Latch.h", "SimpleWait.h", "Stoppable.h"], [("Latch", "Latch.h"), ("SimpleWait", "SimpleWait.h"), ("Stoppable", "Stoppable.h")])
p("C29", "Timed tasks run exactly once, in due order, never early",
  "Each task added to a timeouts thread is run at most once per addition, not before its time point, and before tasks with later time points added beforehand; a task that is due is eventually run unless the thread is stopped first. Stopping or destroying the thread always terminates, runs no task afterwards, and destroys every task exactly once.",
  ["schedules", "histories"], "every interleaving of adding, expiring and stopping with arbitrary monotonic clock readings, for up to a few tasks",
  "TestTimeoutsThread uses real time; orderings between expiry, insertion and stop cannot be forced.",
  ["TimeoutsThread.h"], [("run / addTask / stop", "TimeoutsThread.h")])
p("C30", "A not-yet-started thread runs its function exactly on start",
  "The function of a deferred thread is executed exactly once if and only if start was called before stop or destruction, using the function set last before the start; stopping without starting executes nothing. join, stop and destruction return in every interleaving.",
  ["schedules"], "every interleaving of the owner and the new thread",
  "There is no test of deferred threads.",
  ["NoStartThread.h", "Future.h"], [("run_ / start / stop", "NoStartThread.h")])
p("C31", "The event loop dispatches exactly the reported events and stops cleanly",
  "Each event reported by the system for a registered handler is dispatched exactly once to that handler with the reported event set, in order, even when the wake-up pipe is signalled in the same batch; stopping makes run return after the current batch, waiting for the stop or destroying the loop returns only once it has, and spinning callers always see an iteration end. A handler made from a function keeps its own copy of it. Registration calls retry interruptions, report already-present and absent descriptors through their result and all other failures as exceptions, and no file descriptor leaks or is closed twice on any path.",
  ["fault_sequences", "histories"], "every batch contents and order up to the bound, every sequence of system call results and errno values",
  "There is no test; the system call outcomes in question cannot be provoked at will.",
  ["EventLoop.h", "Posix.h"], [("run / epoll wrappers", "EventLoop.h")])
p("C32", "Flag sets and strong types are faithful wrappers of their values",
  "Plain and atomic flag sets hold exactly the union, intersection or complement that the performed operations define, queries report exactly the set flags, and concurrent atomic updates are never lost. Every operator a strong type opts into gives the result of the same operator on the wrapped value, and conversions never change the value.",
  ["inputs", "schedules"], "all flag values and operand values, and interleavings of two updating threads",
  "Tests use a few constants; lost updates need an interleaving.",
  ["Flags.h", "AtomicFlags.h", "StrongType.h"], [("flag operators", "Flags.h"), ("atomic operations", "AtomicFlags.h"), ("mixins", "StrongType.h")])
p("C33", "Scope guards run exactly once on every exit",
  "The action of a scope guard runs exactly once when its scope is left, normally, by an early exit or by an exception, and not before. Nested exceptions built by the throwing helpers arrive with the outer exception thrown and the inner one nested, whatever the exception types.",
  ["histories", "fault_sequences"], "every exit path, including exceptions at every point, up to the bound",
  "There is no test of scope guards.",
  ["ScopeExit.h", "ThrowNested.h", "Exception.h"], [("ScopeExit", "ScopeExit.h"), ("throwNested", "ThrowNested.h")])
p("C34", "Time conversions are exact",
  "The microsecond clock helpers return seconds times 10^6 plus microseconds of the reported time of day without overflow or loss, and durations built by the duration helpers have exactly the requested length.",
  ["inputs"], "all representable times of day", "There is no test; a real clock yields one value per run.",
  ["MicrosecondTime.h", "Durations.h"], [("getUsTime", "MicrosecondTime.h")])
# ---- headers whose C dependencies are missing in this build --------------
p("C35", "An optional holds a value exactly when one was put in",
  "After any sequence of construction, assignment, emplacement, reset, swap and move between optionals of the same or convertible types, an optional has a value exactly when the last such operation gave it one, and then that value; the value's constructions and destructions balance. Comparisons between optionals, empty markers and values order the empty state before every value.",
  ["histories", "inputs"], "every operation sequence up to the bound with values that count constructions",
  "TestOptional is not even built here; lifetime balance after particular sequences is not sampled.",
  ["Optional.h"], [("assignment macros, swap, emplace", "Optional.h")])
p("C36", "The unordered map is a map",
  "After any sequence of insert, emplace, insert_or_assign, operator[], erase, clear, copy, move and swap, the map contains exactly the keys inserted and not erased, each once, with the value last assigned; find, count, contains, at and equal_range agree with that for every lookup form (key, transparent key, hash with predicate), as does the bucket interface; rehashing changes no content. Copies are independent of their source, whatever the hash function, and an operation on one element that fails with an exception leaves the map as it was.",
  ["histories", "inputs"], "every operation sequence up to the bound, with arbitrary keys and arbitrarily colliding hashes",
  "TestUnorderedMap is not built here; collisions and aliasing need particular histories.",
  ["UnorderedMap.h", "SimpleUnorderedStringMap.h", "StringHasher.h"], [("emplace/erase/find over hash buckets", "UnorderedMap.h")])
p("C37", "Thread pools run every submitted task exactly once, in order of submission",
  "Each task submitted to a thread pool before it is stopped is run at most once and, while a worker remains and the pool is not stopped, is eventually run; tasks start in submission order. Stopping and joining return in every interleaving, no task runs after join, and unrun tasks are destroyed exactly once. A participant with a deadline returns by it, and reports a time-out, a stop or a task only when that is what happened.",
  ["schedules"], "every interleaving of a submitting and a stopping thread with one or two workers, bounded numbers of tasks",
  "There is no test; a lost task or wake-up needs a particular interleaving.",
  ["ThreadPool.h", "SimpleThreadPool.h", "ParticipatoryThreadPool.h", "TicketSpinLock.h"], [("submit / waitAndPop", "ThreadPool.h")])
p("C38", "A strand never runs two of its jobs at once and keeps their order",
  "Jobs submitted to a strand run one at a time and in submission order on any thread pool, however many workers it has, and while the pool runs and the strand is not stopped every job submitted to it is run. Stopping and destroying a strand return in every interleaving, after which no job of it runs.",
  ["schedules"], "every interleaving of a submitter and two workers for bounded numbers of jobs",
  "There is no test; overlap needs a particular interleaving.",
  ["Strand.h", "ThreadPool.h"], [("Internal::submit / run", "Strand.h")])
p("C39", "The multi-producer queue and ticket lock are linearizable",
  "Elements pushed by concurrent producers are popped exactly once, each producer's in its own order, nothing is invented, and a pop fails only if every completed push has been popped or some push is still in progress. The ticket lock admits one holder at a time, what one holder wrote is visible to the next, and every waiting thread gets it; it never deadlocks.",
  ["schedules"], "every interleaving of two producers and one consumer (two or three lockers), bounded operation counts",
  "There is no test; lost elements need an interleaving.",
  ["MpscWaitFreeSemiIntrusiveQueue.h", "TicketSpinLock.h"], [("push/pop", "MpscWaitFreeSemiIntrusiveQueue.h"), ("lock/unlock", "TicketSpinLock.h")])
p("C40", "Range equality and size agree with element-wise comparison",
  "rangeEqual returns true exactly when both ranges have the same number of elements and all corresponding elements are equal, whichever of them is measurable, sized or sentinel-terminated, and never reads past the end of either. size and measureRange return the number of elements, and reversed ranges visit the same elements backwards.",
  ["inputs"], "all contents and lengths up to the bound for each combination of range categories",
  "TestRange is not built here; length mismatches in particular categories are not all sampled.",
  ["Range.h", "Size.h", "ReversedRange.h", "ReversionWrapper.h"], [("rangeEqual overloads", "Range.h")])
p("C41", "Network messages give back exactly what was written and refuse everything else",
  "Written values occupy exactly their bytes, one after another in the order of the calls; strings are their length as 64 little-endian bits followed by their characters, whatever the kind of string argument. This also holds if what is written is part of the message itself. Reading the same kinds in the same order returns the same values. For a message of any bytes, a read returns exactly the next bytes and advances past them, or reports failure and leaves the position as it was; nothing outside of the message is ever accessed, and lengths and counts which do not fit are refused without overflow. If memory runs out, the message is unchanged. Byte order conversions give the bytes of the value in the order named and invert each other.",
  ["inputs", "histories", "fault_sequences"], "all values, all incoming messages of up to 12 bytes, all counts, and call sequences up to the bound, with any one allocation failing",
  "Tests cover neither network messages nor byte order functions; hostile length fields are single values out of 2^64.",
  ["NetworkMessage.h", "EndianMacros.h"], [("write / read / readBytes / willReadBytes", "NetworkMessage.h"), ("hostToLittleEndian and the other macros", "EndianMacros.h")])
p("C42", "A Datum owns exactly its bytes, and loads whole files or throws",
  "A Datum holds exactly the bytes it was given until it is assigned to, whatever copies, moves, swaps and assignments (also from itself) follow, and moved-from ones are empty; nothing is leaked or freed twice. Its views, indexing and hash agree with its bytes and never read outside of them. Loading a file yields exactly the bytes of the file however few each read returns and however often calls are interrupted, or throws; a file which is of another type, becomes shorter while being read, or fails to be opened, examined or read gives an exception, never a partial Datum. The file is closed in every case.",
  ["inputs", "histories", "fault_sequences"], "all contents up to 3 bytes (9 for hashing), operation sequences up to the bound, all results of every system call with up to 2 failures, any one allocation failing",
  "There is no test of Datum; short reads, interruptions and failures of system calls cannot be provoked at will.",
  ["Datum.h", "Posix.h"], [("constructors, assignments, loadFile", "Datum.h")])
p("C43", "Exceptions carry their message and error number unchanged",
  "what() of an exception declared with the exception macros returns exactly the message it was constructed with (or the fixed one of its declaration), for as long as any copy of it exists, through any copies, moves and assignments, and it is caught as every class it was declared to derive from. An ErrnoException reports its error number and a description of at most its buffer, always terminated and never read outside of it, of copies too. Printing nested exceptions lists every exception of the chain, each once, the outermost first. A scoped verbose handler restores precisely the handlers found at its construction.",
  ["inputs", "histories"], "all messages up to 3 bytes and error numbers, operation sequences up to the bound, chains of up to 3 exceptions",
  "There is a test of construction only; lifetimes of shared messages depend on the history of copies.",
  ["Exception.h", "ExceptionMacros.h", "detail/ExceptionMacros.h", "DebugVerboseHandlers.h"], [("ErrnoException", "Exception.h"), ("SHAREMIND_DEFINE_EXCEPTION_...", "ExceptionMacros.h"), ("verbosePrintException", "DebugVerboseHandlers.h")])
p("C44", "Input memory streams read exactly the memory given",
  "An input memory stream of any character type yields exactly the given characters in order and then reports the end, whatever sequence of get, peek, read, readsome, unget and putback is used: going back works up to the first character, putting back anything but the character read fails, and what does not fit is reported in the stream state. No character outside of the memory is ever read and the memory is never written.",
  ["inputs", "histories"], "all buffers up to 4 characters (3 wide ones) and operation sequences up to the bound",
  "There is no test of memory streams; the ends of the buffer meet putbacks only in particular sequences.",
  ["InputMemoryStream.h"], [("BasicMemoryBuffer / BasicInputMemoryStream", "InputMemoryStream.h")])
p("C45", "A call stack lists exactly the active contexts of its own thread",
  "At any time contains() finds a key exactly if a context of it is active in the calling thread, and gives the innermost such context with its value; top() and next() list exactly the active contexts, innermost first. Contexts left by a return or by an exception, also one thrown while constructing a key or value, are gone. Contexts of other threads are never seen, whatever the interleaving.",
  ["inputs", "histories", "schedules"], "all keys and values, sequences of up to 5 operations, and interleavings of two threads with up to 2 preemptions",
  "There is no test of call stacks; unwinding through several contexts and interleavings need particular histories.",
  ["CallStack.h"], [("Context / contains / top / next", "CallStack.h")])
p("C46", "Text output equals that of the standard types",
  "A string view prints as the std::string of its characters does, for any non-negative width, fill and adjustment (nothing is printed for a negative width), writes nothing to a bad stream, and reports a failing one in its state only. Wide integers print exactly the digits of their value in the base selected, without leading zeros, in the case selected, with a plus sign if asked for and not zero. concat() returns the texts of its arguments in order and changes none of them, and strong types print as their value.",
  ["inputs", "fault_sequences"], "views of up to 3 arbitrary characters with all formats, integers within the bit patterns stated in the evidence, strings of up to 2 arbitrary bytes",
  "Tests print a few constants with a few widths into streams which never fail.",
  ["StringView.h", "uint_t.h", "uint128_t.h", "Concat.h", "StrongType.h"], [("operator<<", "StringView.h"), ("operator<<", "uint_t.h"), ("concat", "Concat.h")])
p("C47", "Tuple, pointer and enumeration helpers pass on exactly what they are given",
  "applyTuples calls the function once with every element of every tuple, in order, each being the element itself (never a copy) with the tuple's value category, and returns the function's result. makeNoNullTuple keeps all arguments but the nullptr ones, in order, moving what may be moved and referring to what is wrapped by std::ref; noNullGet finds them by their original position. ptrAdd, ptrSub and ptrDist count elements (bytes for void) in either direction, copy copies exactly the given number of them, and enumToUnderlying returns the value of the enumerator.",
  ["inputs", "fault_sequences"], "all values, tuples of up to four elements, all distances within arrays of eight elements, any one assignment throwing",
  "There is no test of these helpers; value categories and identities of elements are not observed by comparing results.",
  ["ApplyTuples.h", "NoNullTuple.h", "PotentiallyVoidTypeInfo.h", "EnumToUnderlying.h", "MaybeEnumToUnderlying.h"], [("applyTuples", "ApplyTuples.h"), ("makeNoNullTuple / noNullGet", "NoNullTuple.h"), ("ptrAdd / ptrSub / ptrDist / copy", "PotentiallyVoidTypeInfo.h"), ("maybeEnumToUnderlying", "MaybeEnumToUnderlying.h")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
