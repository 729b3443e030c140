D['C01']='Haystack bytes, needle bytes, lengths and start position are symbolic; the result is compared with a branch-free definition ("the least/greatest permitted position i with match(i)") written over the same bytes. Every overload is called with the same operands. Views lie in blocks of exactly their size, so that any read outside is an access violation. Tests sample a handful of needles; the defect found (rfind\'s default start) hid there.'
D['C02']='Ordering: symbolic pairs of views against lexicographic order computed from the characters (also bytes above 0x7f and embedded zeros). Slicing: symbolic positions and counts over the full range of size_t against the interval arithmetic of the definition, including exactly when out_of_range is thrown; results are compared by address and length, hence they are sub-ranges of the original.'
D['C03']='Symbolic characters and lengths; the expected tokens are computed from the positions of the delimiter. Forward iterators that trap any read past the end; actions that throw at a chosen token.'
D['C04']='Equal symbolic contents at different addresses and through every form of key must give equal hash terms (the solver shows the equality); blocks of exact size catch reads outside. That every byte and the length matter is an existence claim: for each byte some pair of contents with different hashes must be found (witness).'
D['C05']='Both operands range over all values of each of 15x15 pairs of types; the oracle compares 128-bit sign-extended values. One query per comparison decides all 2^128 pairs.'
D['C06']='Each operator on symbolic blocks against `unsigned _BitInt(N)` arithmetic of clang, in every form, then the canonical form (clear unused bits). Multiplication: schoolbook sum of partial products at two piece widths with shared product terms, as bit-blasting a 64x64 product equivalence is out of reach. Shifts by every amount.'
D['C07']='q*d + r = n and r < d asserted in `_BitInt` arithmetic of twice the width, for all operands of the widths that the solver can do (up to 12 bits); at larger widths for all divisors with small numerators and for all divisors with a top bit set. Division by zero must throw. The long division does one compare, subtract and shift per bit, so that the terms grow with the square of the width: this is the limit.'
D['C08']='Conversions from every built-in type (non-negative values), between widths and block types, from and to uint128_t; oracle `_BitInt` truncation. Storage is filled with arbitrary bytes first so that stale blocks would show.'
D['C09']='boost.uuid\'s parser and printer, string streams and the SHA-1 name generator are executed symbolically with the header. Round trip for every UUID, refusal of texts that differ from the canonical form in any one place, lengths around 36; the name namespace compared with a fixed one.'
D['C10']='Bit vectors with symbolic contents: every operation from every pair of start states up to the bounds, model: array of booleans with a length; after each step size, bits, equality with a freshly built vector, the number of blocks are compared. Serialisation round trip and truncated messages. Vectors are made and assigned from random access, forward and single-pass iterators over bits and integers. Growing operations are also run with any one of their allocations failing, and the vectors used on.'
D['C11']='Field layout offsets against sums of sizes; writing one symbolic field leaves every other byte of symbolic memory; all accessors (static, dynamic, const, maybe-dynamic) return the same value; dynamic field sizes symbolic, overflow of sizes refused.'
D['C12']='Symbolic byte offset and content; value transferred and neighbours untouched; pointer arithmetic against index arithmetic, signed steps and differences, ordering.'
D['C13']='Operation sequences against a mathematical FIFO (an array and two counters), and the index arithmetic alone with symbolic 64-bit amounts.'
D['C14']='The real buffer in two threads, every interleaving of its synchronisation operations, race detection on the elements, deadlock detection for lost wake-ups; both waiting policies.'
D['C15']='Histories of reserve/release/move/assign against the set of held identifiers, with the pool\'s search position symbolic (0, 254, 255, wrapped); exhaustion with all identifiers of 8 bits held; threads under every schedule; allocation failures.'
D['C16']='Histories against a table key -> object with liveness counters in the objects; threads with decisions at reference counting operations too (`--sched-refcnt`), as the interesting interleavings lie between the last release and the re-request. Requests and visits are also run with any one of their allocations failing.'
D['C17']='Histories with symbolic keys (collisions decided by the solver) against a most-recently-used list with liveness flags of the values, cached objects released by their owners in between, failing allocations.'
D['C18']='Histories with items of symbolic equality class against a mathematical set; use counts of every item after every step; items destroyed exactly once.'
D['C19']='All orders of construction, move and destruction of parents and children; registry compared with a list; freed memory is never accessed; two threads create and destroy children. Construction of a child and listings are also run with any one of their allocations failing.'
D['C20']='Histories of pointers (element, aliasing, self, weak, const) against the owner\'s liveness and the address of the element; use from constructors and destructors, where no owner exists.'
D['C21']='Symbolic element counts over all of size_t: either a block that is aligned and at least n*sizeof(T) (product computed in 128 bits) or bad_alloc; allocation failure; histories of moves and swaps of the array.'
D['C22']='Histories against an array of addresses (the elements are in memory that the vector does not own); sizes in bytes that are not multiples; bits through references; randomisation must be able to give both values (witness).'
D['C23']='A table of descriptors as the system; owners, moves, releases, duplications, with failing and interrupted calls; each descriptor closed exactly once, by its owner only.'
D['C24']='The loop with symbolic results and error numbers for every call, up to four calls, success predicates of all kinds; errno nested in the exception, even when constructing the exception changes errno. Flags: previous and requested sets symbolic.'
D['C25']='Histories of two promises and two futures (values of three kinds, constructors that throw) against a model of the shared outcome; balance of constructions and destructions.'
D['C26']='A promise decided (fulfilled, failed, abandoned, destroyed, moved over) in one thread, waiting in others, every schedule, spurious wake-ups, time-outs at any moment; lost wake-ups show as deadlocks, unpublished values as races.'
D['C27']='Attaching and deciding in every order and interleaving, continuation kinds: value, void, future, throwing, taking the future; packaged tasks called, reset, destroyed. Attaching and packaged tasks are also run with any one of their allocations, or the copy of the callable, failing.'
D['C28']='Latch: counting and waiting threads under every schedule, symbolic counts. Simple wait with notifications and stop tests that throw. Stop flags.'
D['C29']='A timeouts thread with a virtual clock: every interleaving of additions, expiries, stops, time points symbolic over a small set and at the ends of the clock. Promptness is decided with a horizon that the clock never passes: a wait until the wrong time point is then a deadlock.'
D['C30']='Owner and thread under every schedule: start, stop, destruction, function replaced, function throwing.'
D['C31']='The loop on a stand-in of epoll and pipes that reports every batch (any readiness, order, event bits), fails and is interrupted at will; registrations against a model of the kernel table; several threads stopping, spinning and running; handlers made from functions that are gone when they are used.'
D['C32']='Every operator for every value of the wrapped type against the operator on the value; atomic flags updated by two threads under every schedule: final value and reported previous values must form one order. Strong types: which operators exist (compile time) and what they give.'
D['C33']='Every way of leaving a scope (end, return, break, exception, exception of the action) with several guards, moved guards; chains of up to four exceptions of class, final and built-in types; the chain is read back by `rethrow_if_nested`.'
D['C34']='gettimeofday gives any valid time; result compared in 128 bits; failing call; durations compared as exact ratios for all values of the argument type.'
D['C35']='Histories over three optionals of convertible types, values with counted lives and constructors that throw, against a model (has, value); comparisons for all states and values.'
D['C36']='Histories over symbolic keys with hashes of the keys that are equal, share a bucket or differ in every combination, against a table of keys; every lookup form; copies changed afterwards; transparent string keys with embedded zeros; buckets after rehashing, reserving and other load factors. libstdc++\'s hash table is executed too. Every operation is also run with any one of its allocations, or copies of a value, failing.'
D['C37']='Submitters, workers, participants (with and without deadlines), the stopping thread under schedules up to the bounds; tasks record start order and thread, run and destruction counts. Deadlock detection decides "eventually". Pool sizes and joining. Creation of pools and tasks is also run with any one of its allocations failing, and destruction with more unrun tasks than the engine allows frames of recursion.'
D['C38']='Strands on pools of one and two workers, jobs that submit further jobs, stop and destruction at any point; at most one job at a time is checked by a flag with race detection. One job stops the pool before the strand; another destroys a strand with thousands of unrun jobs.'
D['C39']='Producers and the consumer under every schedule; pop results against completed pushes; race detection shows the memory orders are sufficient. The ticket lock with three threads, mutual exclusion and visibility.'
D['C40']='All combinations of range categories (sized, bounded, sentinel-terminated, forward, random access), symbolic contents and lengths; iterators that trap reading past their ends; oracle: element-wise comparison of arrays.'
D['C41']='Arbitrary incoming bytes and positions, every read: exact bytes or refusal without effect; write/read round trips of every type; allocation failures; lengths symbolic over 64 bits; any part of a message written to itself.'
D['C42']='Histories against arrays of bytes; loading from a stand-in file system in which every call may be cut short, interrupted or fail, files change size, are of other types or have descriptor 0.'
D['C43']='Messages symbolic, copies destroyed in all orders, use after the original is gone; error texts from a stand-in of strerror_r with any bytes; chains printed to a recorder; handler scopes nest.'
D['C44']='libstdc++\'s streams are executed on the header\'s buffer; operation sequences against an index into an array; memory is read-only and exactly sized.'
D['C45']='Nested contexts opened and left by all paths, keys and values that use the stack while they are constructed or destroyed, two threads with bounded preemptions.'
D['C46']='Printing to a stream buffer that records and may fail at any character; the oracle for views is printing the std::string of the same characters with the same symbolic format; digits are checked by evaluating the text back.'
D['C47']='Addresses and value categories of the arguments seen by the function against those of the elements; symbolic values and distances; assignments that throw in the middle of a copy.'
