# The properties, in order of weight. Read by gen.py.
OWN = "path-sensitive ownership and effect analysis over compiler IR (own analyser)"
OWN_NOTE = ("Every path of every public operation, instantiated with opaque policies, over the compiler's IR; loops are summed "
            "and recursion is summarised, paths the analysis cannot model are counted as discarded in the evidence. Trusts "
            "clang's front end, the analyser, and that source assertions hold.")
HASH = ["immer/map.hpp", "immer/set.hpp", "immer/table.hpp", "immer/map_transient.hpp", "immer/set_transient.hpp",
        "immer/table_transient.hpp", "immer/detail/hamts/champ.hpp", "immer/detail/hamts/node.hpp"]
ARR = ["immer/array.hpp", "immer/array_transient.hpp", "immer/box.hpp", "immer/detail/arrays/with_capacity.hpp",
       "immer/detail/arrays/no_capacity.hpp", "immer/detail/arrays/node.hpp"]
VEC = ["immer/vector.hpp", "immer/flex_vector.hpp", "immer/vector_transient.hpp", "immer/flex_vector_transient.hpp",
       "immer/detail/rbts/rbtree.hpp", "immer/detail/rbts/rrbtree.hpp", "immer/detail/rbts/node.hpp",
       "immer/detail/rbts/operations.hpp", "immer/detail/rbts/position.hpp", "immer/detail/rbts/visitor.hpp"]

for n, (pid, what, files, mech) in enumerate([
    ("P01", "hash set, map or table", HASH,
     [("path copying of inner, value and collision nodes", "immer/detail/hamts/node.hpp"),
      ("in-place variants guarded by uniqueness or ownership of every node on the path", "immer/detail/hamts/champ.hpp")]),
    ("P03", "array or box", ARR,
     [("whole-node copies", "immer/detail/arrays/node.hpp"),
      ("in-place variants guarded by uniqueness or ownership", "immer/detail/arrays/with_capacity.hpp"),
      ("box update in place only through an rvalue that is the only holder", "immer/box.hpp")]),
]):
    prop(pid, "No operation changes an existing version of " + {"P01": "a hash container", "P02": "a vector", "P03": "an array or box"}[pid],
         "No operation on a %s, on any of its copies, or on a transient obtained from it, ever changes the contents observed "
         "through any other live value. Storage is modified in place only when the operation has established that nobody else "
         "can reach it." % what,
         ["inputs", "histories", "programs"],
         "all sequences of operations, all sharing patterns between versions, persistent and transient, with reference counting "
         "and with ownership tokens",
         "sharing patterns are unbounded: the tests compare a handful of versions after a handful of updates, and a wrong "
         "in-place write shows only when the affected node happens to be shared with a version that is looked at again.",
         files, mech, OWN,
         OWN_NOTE + " Each store into a node that existed before the operation must be covered by a positive uniqueness or "
         "ownership test on that node (and on the nodes leading to it) on the same path.",
         observe=["any value obtained before the operation"])

for pid, what, files in [("R01", "hash sets, maps and tables", HASH), ("R03", "arrays and boxes", ARR)]:
    prop(pid, "References, nodes and elements of %s balance" % what,
         "For %s, every operation leaves the number of references recorded for each piece of shared storage equal to the number "
         "of holders, constructs each element before using it and destroys it exactly once, and frees storage exactly when its "
         "last holder lets go." % what,
         ["inputs", "histories"], "all operations on all shapes of the structure, on every path that returns normally",
         "a leaked or doubly released node needs one particular shape and path; the tests count instances only in a few "
         "scenarios, and most configurations run without leak detection.",
         files, [("reference counting in node", files[-1])], OWN,
         OWN_NOTE + " At each exit the credits and debits of every node must cancel, for symbolic numbers of children and elements.",
         observe=["constructor/destructor and allocation counts"])

for pid, what, files in [("X01", "hash sets, maps and tables", HASH), ("X03", "arrays and boxes", ARR)]:
    prop(pid, "A throw leaves %s balanced" % what,
         "When an element's copy, move or assignment, a hash, an equality, a callback or an allocation throws in the middle of an "
         "operation on %s, everything the operation had built is released, nothing is released twice or used after release, and "
         "the values that existed before remain usable." % what,
         ["fault_sequences", "inputs"], "every operation, with each call that may throw throwing at each point it is reached",
         "fault points multiply with shapes: the tests inject faults in some operations on some sizes.",
         files, [("try/catch and scope guards around partially built nodes", files[-1])], OWN,
         OWN_NOTE + " Every opaque call that may throw is also followed along its unwinding edge.",
         observe=["the exception's arrival at the caller", "instance counts after it"])

prop("S01", "Memory is returned with the size it was requested",
     "Whenever a hash container, an array or a box returns storage to its heap, it passes the same size with which that storage was "
     "requested.",
     ["inputs", "configurations"], "all node kinds, capacities and operations, normal and exceptional exits",
     "the default heaps ignore the size, so the tests pass with wrong sizes; size-segregated heaps then corrupt memory.",
     HASH + ARR, [("sizeof_* computations at allocation and at release", "immer/detail/hamts/node.hpp")], OWN,
     OWN_NOTE + " Sizes are compared as symbolic expressions of element counts.", observe=["arguments of the heap's deallocate"])

prop("E01", "Exceptions reach the caller",
     "An exception thrown by an element, a callback, a hash, an equality or an allocation during an operation on a hash container, "
     "array or box propagates to the caller of that operation; it is neither swallowed nor turned into termination.",
     ["fault_sequences", "inputs"], "every operation, every throwing call in it",
     "each fault point needs its own scenario; the tests reach few of them.",
     HASH + ARR, [("catch clauses that rethrow", "immer/detail/hamts/champ.hpp"), ("noexcept annotations", "immer/detail")], OWN,
     OWN_NOTE + " Every path on which an opaque call throws must leave the driver by unwinding.")

SYNC = "event-order rules over all paths of the operation in compiler IR"
prop("A01", "Reference counts are exact under concurrency",
     "With the default memory policy, copying and dropping values that share storage from several threads never loses a count, the "
     "storage is destroyed once, by the last holder, after all uses by the others, and a value is recognised as the only holder only "
     "when it is.",
     ["schedules", "configurations"], "all interleavings of copies and releases, on every memory model the language allows",
     "the tests are essentially single threaded, and a wrong memory order does not fail on x86 at all.",
     ["immer/refcount/refcount_policy.hpp", "immer/refcount/unsafe_refcount_policy.hpp", "immer/refcount/no_refcount_policy.hpp",
      "immer/memory_policy.hpp"],
     [("atomic increment, decrement and uniqueness test", "immer/refcount/refcount_policy.hpp")], SYNC,
     "Per operation: exactly one atomic update of the right sign, acquire/release orders, result as a function of the previous count. "
     "That containers call these operations in balance is decided by R01 and R03. Assumes counts stay below INT_MAX.")

prop("A02", "The atom is linearizable and never exposes freed values",
     "Every load, store, exchange and update of an atom takes effect at one point in time: no concurrent change is lost or half "
     "visible, update applies its function to the value it replaces, and a value read from the atom stays alive while its reader "
     "holds it. No user code runs while the atom is internally locked, and the lock is released on every exit.",
     ["schedules", "fault_sequences"], "all interleavings of operations on one atom, with reference counting and with garbage collection",
     "the tests run two-thread smoke tests at most; a misplaced lock or order needs a rare interleaving.",
     ["immer/atom.hpp", "immer/box.hpp"],
     [("critical sections around the slot", "immer/atom.hpp"), ("compare-and-swap loop of the collected variant", "immer/atom.hpp")], SYNC,
     "All paths (retry loop up to three rounds) of every operation over an opaque lock: slot accesses, reference acquisition and the "
     "compare-then-store of update lie in the right critical section; the collected variant uses acquire/release atomics and compares "
     "against the snapshot the function saw.")

prop("A03", "The lock gives mutual exclusion and ordering",
     "At most one thread is between acquiring and releasing a lock of the default policy, each critical section sees the effects of the "
     "earlier ones, trying to lock reports success exactly when it acquired, and a scoped guard releases on every exit.",
     ["schedules"], "all interleavings of lock, try_lock, unlock and guarded scopes",
     "no test exercises contention; wrong orders are invisible on x86.",
     ["immer/lock/spinlock_policy.hpp", "immer/lock/no_lock_policy.hpp"],
     [("test-and-set with acquire, clear with release", "immer/lock/spinlock_policy.hpp")], SYNC,
     "All paths of each operation, spinning followed for three rounds.")

EFF = "interprocedural effect analysis (call-graph reachability, loop and recursion shape, write summaries) over compiler IR"

prop("A04", "Independent values share no hidden mutable state",
     "Operations on different values, even from different threads with no synchronisation, do not interfere: the library keeps no mutable "
     "static state that its operations write other than thread-local storage, atomic objects, and one-time initialisation that the language "
     "synchronises. (The free list heap named unsafe is documented not to give this.)",
     ["schedules", "configurations"], "every operation of every container, atom and heap adaptor",
     "a race on hidden static state needs simultaneous operations; the tests run one thread.",
     VEC + HASH + ARR + ["immer/atom.hpp", "immer/heap/thread_local_free_list_heap.hpp", "immer/heap/free_list_heap.hpp", "immer/heap/gc_heap.hpp"],
     [("function-local static empty nodes and free lists", "immer/heap")], EFF,
     "Every store in code that runs outside one-time initialisation is traced to the objects its address may come from, across calls; "
     "a plain store to a static object that is not thread local, or a plain read of one that is changed atomically, is a violation.")

prop("T01", "Every transient owns its mutations alone",
     "A transient only mutates storage that it created itself since it was obtained: whenever storage becomes reachable from two handles "
     "(copying or assigning a transient, obtaining one from a value, calling persistent(), appending one transient to another), each transient "
     "involved continues with an ownership token that no other handle has, and a token grants mutation only of nodes that carry it.",
     ["histories", "programs"], "all sequences of transient operations, with the transience policy for garbage collection",
     "a shared token shows only if one handle mutates a node that the other one still shows; the tests follow few such histories.",
     ["immer/transience/gc_transience_policy.hpp", "immer/transience/no_transience_policy.hpp", "immer/detail/hamts/champ.hpp",
      "immer/detail/rbts/rbtree.hpp", "immer/detail/rbts/rrbtree.hpp", "immer/detail/arrays/with_capacity.hpp"] + [
      f for f in VEC + HASH + ARR if f.endswith("transient.hpp")],
     [("owner and ownee of the transience policy", "immer/transience/gc_transience_policy.hpp"),
      ("persistent() and transient() of the containers", "immer/vector_transient.hpp")],
     "symbolic token flow over all paths of the operations, over compiler IR",
     "On every path of every such operation the tokens held by the handles afterwards are compared as symbolic values: fresh and pairwise "
     "distinct where required; can_mutate() is the equality of tokens.")

prop("M01", "Heap adaptors give back what they took, where they took it",
     "Every heap adaptor returns a block that is at least as large as requested and aligned for any type, and deallocating it with the "
     "same size hands the heap below exactly what it had provided: same heap, same address, same size, same kind. Free lists never hand one "
     "block to two owners (also under concurrency), never lose blocks, and stay within their limit; allocation failure is reported by an "
     "exception.",
     ["inputs", "schedules", "configurations"], "all request sizes, all stackings of adaptors the library offers, all interleavings on shared lists",
     "the tests allocate a few sizes from a few stackings on one thread, and the system heap forgives wrong sizes.",
     ["immer/heap/free_list_heap.hpp", "immer/heap/thread_local_free_list_heap.hpp", "immer/heap/unsafe_free_list_heap.hpp",
      "immer/heap/split_heap.hpp", "immer/heap/with_data.hpp", "immer/heap/free_list_node.hpp", "immer/heap/debug_size_heap.hpp",
      "immer/heap/identity_heap.hpp", "immer/heap/malloc_heap.hpp", "immer/heap/cpp_heap.hpp", "immer/heap/gc_heap.hpp",
      "immer/heap/heap_policy.hpp"],
     [("allocate and deallocate of each adaptor", "immer/heap")],
     "path-wise symbolic pairing of allocation with deallocation over compiler IR",
     "Each path of allocate is paired with each path of deallocate that serves an overlapping range of sizes; free list updates are "
     "checked as symbolic memory effects. Heaps below are assumed to align for max_align_t.")

prop("K01", "Reading has no side effects on storage",
     "Looking things up, iterating and comparing never allocates, never copies or moves an element, and never touches a reference count, "
     "for any container; reads therefore cannot throw from allocation and cost no contention.",
     ["inputs", "programs"], "every read-only operation of every container, on all inputs",
     "the tests check values, not effects; a read that copies or counts shows up only under contention or with failing allocation.",
     VEC + HASH + ARR, [("get, find, chunk traversal and iterators", "immer/detail")], EFF,
     "For every read-only public operation of every container: no allocation, count, element copy, move or destruction is reachable in the "
     "call graph outside one-time static initialisation. Loop conditions are ignored (over-approximate reachability).")
prop("K02", "Copying, moving and switching between persistent and transient is constant time",
     "Copying, assigning, moving and swapping a container, and obtaining a transient from a persistent value or back, do a bounded "
     "amount of work, whatever the size of the container: they share the storage.",
     ["inputs"], "every container and transient, all sizes and shapes",
     "the tests do not measure cost; a hidden deep copy passes all of them.",
     VEC + HASH + ARR, [("handles with a root and a count", "immer/detail")], EFF,
     "No loop and no recursion is reachable from these operations except below the point where a reference count answered that the last "
     "holder is gone (releasing storage), and no element is copied.")
prop("K03", "Read-only operations write nothing that another thread could read",
     "A read-only operation on a shared value writes to no memory other than its own local variables, so any number of threads may read the "
     "same value with no synchronisation.",
     ["schedules", "programs"], "every read-only operation of every container",
     "a data race on a hidden cache needs two reading threads; the tests read from one.",
     VEC + HASH + ARR, [("const traversal", "immer/detail"), ("iterators that keep their cursor in themselves", "immer/detail/rbts/rrbtree_iterator.hpp")],
     EFF,
     "Interprocedural write summaries: each store reachable from a read-only operation must be to a local, to the iterator being "
     "moved or initialised, or be the one-time initialisation of a guarded static.")

prop("H01", "Lookups and updates of hash containers follow the equality",
     "For sets, maps and tables: an element is reported found, replaced or removed only if the container's equality said it equals the key, "
     "it is taken to be absent only after every candidate of its slot was compared or the bit sets exclude it, the size changes by one "
     "exactly when a key was added or removed, at() throws out_of_range exactly for absent keys, and an update function is called "
     "exactly once (or, for update_if_exists, only for a present key), whether persistent, on an rvalue or transient.",
     ["inputs", "programs"], "all keys, equalities, hash functions with any collisions, and node shapes",
     "hash collisions at full depth and rvalue or transient overloads are exercised on a handful of keys, and most checks look at the result "
     "with well-behaved hashes only.",
     HASH, [("get, add, update, update_if_exists and sub, in all their variants", "immer/detail/hamts/champ.hpp"),
            ("bit sets and collision counts", "immer/detail/hamts/node.hpp"), ("size kept with the root", "immer/detail/hamts/champ.hpp")],
     "path-sensitive dataflow with widening of loops and recursion, over compiler IR",
     "The operations are instantiated with opaque hash, equality and callbacks. Along every path the answers of the equality, the tests of "
     "the bit sets and the comparisons with the ends of collision arrays are the only facts; loop-carried values and the levels of the "
     "recursion are widened to unknowns, so the verdict covers any depth. Positions of children and values among the bits are not related to "
     "digits of the hash (that part of set semantics is not claimed).",
     observe=["returned elements, counts, sizes and exceptions"])

prop("B01", "Sequences have the size their operations say, and at() checks bounds",
     "For vectors, flexible vectors and arrays, persistent, on an rvalue or transient: appending, prepending and inserting leave one element "
     "more, setting and updating the same number, erasing what was in range fewer, take(n) min(n, size), drop(n) the rest, concatenation, "
     "append and prepend the sum; copies, moves and conversions between persistent and transient keep the size. at() throws out_of_range "
     "exactly when the index is not below the size.",
     ["inputs", "programs"], "all sizes and arguments, all value categories of the operands, every shape",
     "size bookkeeping is written out separately in every variant (some twenty for concatenation alone), and tests reach some of them with "
     "some sizes; bounds are tested at a few indices.",
     VEC + ["immer/array.hpp", "immer/array_transient.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/detail/arrays/no_capacity.hpp"],
     [("size kept in the handle", "immer/detail/rbts/rrbtree.hpp"), ("concat_mut_l, concat_mut_r, concat_mut_lr_l", "immer/detail/rbts/rrbtree.hpp"),
      ("insert and erase from take, drop and concatenation", "immer/flex_vector.hpp")],
     "path-sensitive dataflow of sizes as linear expressions, with difference bounds from branch conditions, over compiler IR",
     "On every path through what works on the handles the size left is a linear expression of the sizes and arguments given; it must equal the "
     "specified one under the branch conditions of that path. Functions that work on nodes alone are opaque: that the tree holds as many "
     "elements as the handle says is not claimed. Insert and erase are assumed to be called within the sequence.")
prop("L01", "Nothing is returned by reference that has ended",
     "What operations return by reference (elements from indexing, at(), find() and iterators, and the container itself from operations on "
     "rvalues and concatenation) is part of the container, its storage or the program's static data, never a local variable of the operation.",
     ["inputs", "configurations"], "every operation that returns a reference, under policies with and without transient rvalues",
     "a dangling reference usually still holds the old value when a test looks; which overloads return references depends on the policies, "
     "deduced types hide it.",
     VEC + HASH + ARR, [("operations on rvalues returning decltype(auto)", "immer/flex_vector.hpp")],
     "points-to tracing of returned references on all paths, over compiler IR",
     "The address returned is traced back on every path to the object it points into; recursive functions and functions on nodes alone are opaque.")

prop("G01", "Every operation builds under every memory policy and language standard",
     "Every public operation of every container, transient, box and atom can be instantiated with reference counted, unsafely counted, garbage "
     "collected and uncounted memory policies, with C++14, 17 and 20, without exceptions or run-time type information; every public header "
     "can be included alone, twice, and in any order.",
     ["configurations"], "every policy, operation, value category of the operands and header",
     "a template that nothing instantiates under some policy can be ill-formed there and pass every test.",
     VEC + HASH + ARR + ["immer/box.hpp", "immer/atom.hpp", "immer/algorithm.hpp", "immer/memory_policy.hpp"],
     [("operations on rvalues, returning decltype(auto) that depends on the policy", "immer/flex_vector.hpp"),
      ("policies choosing atom and ownership implementations", "immer/memory_policy.hpp")],
     "type checking of an exhaustive instantiation of the interface by two compilers",
     "All operations that the drivers list are instantiated; a newly added operation is not covered until it is listed.")
prop("I01", "The interface of persistent values admits no modification",
     "Elements of containers and boxes are reached only as const, through every accessor, iterator, pointer, traversal and search, on const, "
     "non-const and rvalue containers and on transients; every updating operation works on const values and gives a new value; transients "
     "change only through non-const operations returning nothing; persistent values never convert to transients, nor back, implicitly; atoms "
     "cannot be copied or moved.",
     ["programs", "configurations"], "every program that uses the interface",
     "tests are programs that compile; they cannot show that a program that modifies a value does not.",
     VEC + HASH + ARR + ["immer/box.hpp", "immer/atom.hpp", "immer/algorithm.hpp"],
     [("const reference types", "immer/vector.hpp"), ("const and rvalue overloads", "immer/map.hpp"), ("iterators to const", "immer/detail/iterator_facade.hpp")],
     "type-level facts (static_assert) decided by two compilers",
     "Facts about the types of every operation, by value category; what the operations do is the subject of P01 and P03.")

# ---- not decidable by this family here
prop("N01", "Sequences behave like the sequence of their elements",
     "Vectors, flexible vectors and arrays contain, after any sequence of operations, exactly the elements that the same operations on a "
     "plain sequence would give: size, indexing, iteration, concatenation, slicing, insertion and erasure included.",
     ["inputs", "histories"], "all sizes, shapes and operation sequences",
     "the shapes of relaxed trees are unbounded; tests sample some sizes.",
     VEC, [("radix search and relaxed concatenation", "immer/detail/rbts/rrbtree.hpp")],
     na="depends on the arithmetic of radix indices and relaxed size tables over unbounded tree shapes; no sound static argument in reach "
        "relates them to a sequence.")
prop("N02", "Hash containers behave like mathematical sets and maps",
     "After any sequence of insertions, updates and erasures a set, map or table answers lookups, size and iteration exactly like the "
     "mathematical set or map, whatever the hash function does (collisions included).",
     ["inputs", "histories"], "all key sets, hash functions and operation sequences",
     "collision patterns at every depth are unbounded; tests sample some.",
     HASH, [("bitmap-indexed trie with collision nodes", "immer/detail/hamts/champ.hpp")],
     na="needs relating bitmap positions and hash digits along unbounded histories; only local parts (soundness of positive answers) are "
        "in reach of a static rule.")
prop("N03", "Equality and difference agree with the contents",
     "Two containers compare equal exactly when they hold equal contents, and the difference algorithm reports exactly the added, removed "
     "and changed entries.",
     ["inputs", "histories"], "all pairs of versions, related or not",
     "related versions with partial sharing are sampled only.",
     HASH + VEC + ["immer/algorithm.hpp"], [("structural comparison with shortcut on shared nodes", "immer/detail/hamts/champ.hpp")],
     na="a functional equivalence over two unbounded structures; not expressible as a flow, typestate or effect rule.")
prop("N04", "Operations have their documented cost",
     "Indexing, updating and looking up cost effectively constant time, and concatenation and slicing logarithmic time, in every reachable "
     "shape.",
     ["inputs", "histories"], "all sizes and shapes",
     "tests do not measure cost.",
     VEC + HASH, [("bounded depth and relaxed balance", "immer/detail/rbts/operations.hpp")],
     na="requires bounding tree depth over all histories, a numeric invariant of the balancing algorithm outside static analysis' reach.")
