#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

SMA = "memory/StaticMemAllocator.hpp"
VEC = "core/ds/array/Vector.hpp"; DEQ = "core/ds/queue/DoubleEndedQueue.hpp"; QUE = "core/ds/queue/Queue.hpp"
LL = "core/ds/linked-list/LinkedList.hpp"; SLL = "core/ds/linked-list/SinglyLinkedList.hpp"; DLL = "core/ds/linked-list/DoublyLinkedList.hpp"
EL = "core/ds/linked-list/EmbeddedList.hpp"
STK = "core/ds/stack/Stack.hpp"; XST = "core/ds/stack/XValueStack.hpp"; HEAP = "core/ds/Heap.hpp"; MAP = "core/ds/Map.hpp"
BT = "core/ds/tree/BinaryTree.hpp"; BST = "core/ds/tree/BinarySearchTree.hpp"; AVL = "core/ds/tree/AVLTree.hpp"
EBT = "core/ds/tree/EmbeddedBinaryTree.hpp"; BSTB = "core/ds/tree/BinarySearchTreeBase.hpp"
UF = "core/ds/set/DisjointSet.hpp"; STR = "core/ds/string/BasicString.hpp"; ARR = "core/ds/array/Array.hpp"
COM = "core/common.hpp"; SPEC = "spec/DStructSpec.hpp"; UT = "core/utils.hpp"; ALG = "core/algorithm.hpp"; IT = "core/Iterator.hpp"
STATIC = "dstruct-static.hpp"; PSMA = "port/static-memory/sma-dstruct-port.hpp"; PLIBC = "port/libc/libc-dstruct-port.hpp"
ALLC = [VEC, DEQ, QUE, LL, SLL, DLL, STK, XST, HEAP, BT, BST, AVL, MAP, UF, STR]

p("C01", "Static allocator: live blocks are aligned, disjoint and left alone",
  "Every block the static memory allocator hands out lies wholly inside its fixed arena, is 8-byte aligned, and overlaps no other block still in use. Until a block's owner gives it back the allocator never changes a byte of it and never gives any of it to anyone else. This holds for every interleaving of allocations, releases and memory merges by any number of clients, including while the arena is exhausted or fragmented.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every interleaving of several clients' allocate/deallocate/memory_merge calls, every arena size (multiple of 8) and quick-block limit, including exhaustion, refused requests and clients that die and have all blocks returned",
  "The tests run two fixed allocate/free sequences on one 1024-byte arena; overlap or corruption depends on the order in which free blocks were split, inserted, reused and merged.",
  [SMA], [("sorted insertion into size-class lists", SMA + ": insert_mem_block_to_list_d"), ("first fit and split", SMA + ": allocate_d / quick_mem_allocate_d / mem_pool_allocate_d"), ("merge of neighbours", SMA + ": quick_mem_memory_merge_d / mem_pool_memory_merge_d")],
  [("free lists", "address-sorted lists of free blocks, one per size class plus the pool list", SMA + ": mFreeMemList_d")],
  ["StaticMemAllocator::allocate", "StaticMemAllocator::deallocate", "contents of the blocks handed out"])
p("C02", "Static allocator: exact accounting, and refused calls change nothing",
  "At every moment the reported free size equals the arena size minus the sum of the live blocks' sizes, each rounded up to 8 bytes. A request that cannot be met returns null, and a null or non-positive release is rejected, and neither has any effect on later behaviour. The reported largest free block is exact: a request of that size succeeds at that moment and any larger request is refused.",
  ["histories", "fault_sequences", "configurations"],
  "every history of valid, impossible and invalid requests by several clients on arenas of every size",
  "The examples compare free_mem_size after two allocations; leaks of free memory appear only after particular splits, refusals and merges.",
  [SMA], [("free-size counter", SMA + ": allocate_d / deallocate_d"), ("largest-block query", SMA + ": max_free_mblock_size")],
  [("mFreeMemSize_d", "bytes currently free", SMA)], ["free_mem_size", "max_free_mblock_size", "allocate", "deallocate"])
p("C03", "Static allocator: merging recovers every contiguous run of free memory",
  "After a memory merge, a request succeeds exactly when the arena contains a contiguous run of free memory at least as large as the request (rounded up to 8 bytes). In particular, once every client has released its memory a merge makes the whole arena available as one block again, whatever the history before. A merge never changes the amount of free memory or the contents of live blocks.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every history of allocations, releases, client deaths and merges, merges being placed at any point of it",
  "The test merges after one fixed pattern of eight blocks; whether neighbours in different size classes are found depends on the order and sizes of all free blocks.",
  [SMA], [("merge", SMA + ": memory_merge_d, quick_mem_memory_merge_d, mem_pool_memory_merge_d")],
  (), ["memory_merge", "max_free_mblock_size", "allocate"])
p("C04", "Static-memory port: requests are served by compaction or the program stops",
  "When the library is built with static memory as its default heap, a container's memory request is served whenever the arena holds a large enough contiguous run of free memory, compacting free memory on its own when fragmentation is the only obstacle. When no such run exists the program stops at the request; no container ever receives null or someone else's memory. Memory released by containers becomes usable by others again.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of containers of several tasks sharing the default static arena, up to and beyond exhaustion",
  "No test builds the static-memory port at all.",
  [PSMA, SMA, "port/dstruct-port.h"], [("retry after merge, then verify", PSMA + ": allocate"), ("checked release", PSMA + ": deallocate")],
  (), ["dstruct::Alloc::allocate", "dstruct::Alloc::deallocate"], None)
p("C05", "Containers return all storage exactly once and touch only storage they own",
  "Every container obtains its element storage from the allocator it was given, returns each block exactly once, to the same allocator, with the same size it asked for, and holds none after it is destroyed. It never reads or writes outside blocks it currently holds and never relies on the contents of fresh storage. This holds whatever addresses and contents the allocator delivers, however quickly it reuses them, and whatever mixture of operations, copies, moves and destructions led there.",
  ["histories", "fault_sequences", "configurations"],
  "every history over Vector, Deque, Queue, lists, stacks, heaps, trees, Map, union-find and String by interleaved tasks, on every allocator placement, reuse and dirty-memory policy",
  "Tests run on one libc heap that tolerates wrong sizes, leaks and stale reads; sized release matters for the static allocator, and bad accesses depend on the history and on block reuse.",
  ALLC + [COM, SPEC], [("allocator interface", SPEC + ": AllocSpec"), ("destructors and clear()", "all containers"), ("resize", VEC + ": resize; " + DEQ + ": _resize")],
  (), ["Alloc::allocate / Alloc::deallocate calls made by containers", "memory accesses"])
p("C06", "Containers construct and destroy every element exactly once",
  "Every element object a container creates is constructed once before any use and destroyed exactly once, at the latest when the container is cleared or destroyed, and an element that is removed is destroyed by the removal. No operation uses, copies from, assigns to or destroys storage that holds no live element, and none abandons or overwrites a live element without destroying it. The container's copies of elements are made only with the element type's own construction, assignment and destruction.",
  ["histories", "fault_sequences"],
  "every history of operations, growth, shrinkage, copies, moves, clears and destructions over element types with identity",
  "One test counts destructor calls for ten pushes and pops on one container; the other containers are only tested with plain numbers.",
  ALLC + [COM], [("construct/destroy helpers", COM + ": construct, destroy"), ("resize", VEC + ": resize"), ("block handling", DEQ + ": _only_init, _resize, _only_clear")],
  (), ["constructor, assignment and destructor calls on the element type"])
p("C07", "A refused allocation stops the program before any damage",
  "When the allocator refuses a request (returns null) during any container operation, that operation never returns to its caller as if it had completed: the program is stopped inside it by a deliberate fault (access to the null page or an abort). Until it stops, nothing is read from or written to memory the container does not own, so every other container still holds exactly its contents. This holds for a refusal at any one of the allocations any operation makes.",
  ["fault_sequences", "histories"],
  "every operation of every allocating container, each of its allocations refused in turn, at every reachable state",
  "Allocation never fails in the tests.",
  ALLC + [COM, SPEC], [("null check before constructing", COM + ": construct"), ("crash macro", SPEC + ": DSTRUCT_CRASH")],
  (), ["Alloc::allocate returning null", "the fault that stops the program"])
p("C08", "Distinct containers driven by different tasks do not influence each other",
  "Operations on distinct container objects may be interleaved at any point, even in the middle of an operation and inside element or comparator callbacks, and each container still behaves exactly as if it were used alone. Containers share no hidden mutable state through the library: a task that is suspended, or dies, inside an operation on its own containers has no effect on the containers of other tasks.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving, at the granularity of basic blocks inside library code, of tasks each using its own containers (of the same or different types) over a shared allocator, with tasks suspended or killed at arbitrary points",
  "All tests are single-threaded and use one container at a time.",
  ALLC + [COM, IT], [("per-object state only; no globals", "all containers"), ("per-type static flag that is never written", COM + ": construct")],
  (), ["results of every container operation"], None)
p("C09", "Any number of tasks may read an unmodified container at the same time",
  "While nobody modifies a container, any number of tasks may interleave const operations on it at any point (size, emptiness, element access, lookup, iteration, traversal, comparison, copying from it), and each of them sees exactly the container's contents. Reading never changes what the container holds or its structure, even temporarily.",
  ["schedules", "histories"],
  "every interleaving, at the granularity of basic blocks inside library code, of reader tasks on a shared container in every reachable state",
  "No test reads a container from two tasks.",
  [VEC, DEQ, QUE, LL, SLL, DLL, STK, XST, HEAP, BT, BST, AVL, MAP, STR, EBT, BSTB], [("const member functions without writes", "all containers"), ("stateless iterators", IT + ", " + BT + ", " + DEQ)],
  (), ["results of const operations"])
p("C10", "Vector behaves as a growable array under any history",
  "After any history of push_back/push, pop_back/pop, resize, clear, element writes, copies and moves, a Vector holds exactly the expected elements in order as seen through size, empty, front, back, positive and negative indexes and iteration, and capacity is never below size. Growing or shrinking storage, appending or filling with one of the vector's own elements, and the allocator's choice of addresses and fresh contents never change the elements.",
  ["histories", "fault_sequences"],
  "every history by interleaved tasks over private heaps and shared static arenas under every placement, reuse and dirty-memory policy",
  "The example checks ten pushes and pops of one vector of ints.",
  [VEC, COM], [("resize moves elements", VEC + ": resize"), ("growth and shrink rule", VEC + ": push_back, pop_back")],
  [("mSize_d/mCapacity_d/mC_d", "element count, storage size, storage", VEC)], ["public API of Vector"])
p("C11", "Deque and Queue keep element order under any history",
  "After any history of pushes and pops at both ends, clears, copies and moves, a Deque holds exactly the expected elements in order as seen through size, empty, front, back, positive and negative indexes and forward and backward iteration, for every block size; a cleared or new deque iterates over nothing. A Queue delivers its elements in exactly the order in which they were pushed, each once, for either underlying container.",
  ["histories", "fault_sequences", "configurations"],
  "every history over block sizes 1, 2, 3, 5, 8, 32 by interleaved tasks under every allocator policy, including histories that wander so that both ends cross block boundaries",
  "The example pushes twenty and pops ten symmetric elements; block boundaries, recentering and shrinking depend on the history.",
  [DEQ, QUE], [("map-table resize and recentering", DEQ + ": _resize"), ("iterators across blocks", DEQ + ": DoubleEndedQueueIterator_")],
  [("mBegin_d/mEnd_d", "positions of first and past-last element", DEQ)], ["public API of DoubleEndedQueue and adapter::Queue"])
p("C12", "Singly and doubly linked lists keep element order under any history",
  "After any history of pushes and pops at the ends the list supports, clears, element writes through iterators, copies and moves, a list holds exactly the expected elements in order as seen through size, empty, front, back and iteration (both directions for the doubly linked list). push and pop act at the front and agree with push_front and pop_front.",
  ["histories", "fault_sequences"],
  "every history by interleaved tasks over private heaps and shared static arenas under every allocator policy",
  "The examples check ten equal elements and ten pushes of one list.",
  [LL, SLL, DLL, EL], [("circular links with sentinel", LL + ", " + EL), ("tail pointer", SLL + ": mTailNodePtr_d")],
  (), ["public API of SinglyLinkedList and DoublyLinkedList"])
p("C13", "Stack is LIFO and Min/MaxStack always report the current extreme",
  "A Stack delivers its elements in exactly the reverse of the order in which they were pushed, each once, for either underlying container. After any history of pushes, pops, clears, copies and moves, with repeated values, the extreme value a MinStack or MaxStack reports is the smallest or largest of the elements it currently holds, and top, emptiness and iteration show exactly those elements.",
  ["histories", "fault_sequences"],
  "every history, with few distinct values so that duplicates of the extreme are common, by interleaved tasks under every allocator policy",
  "The example pushes strictly monotone values only.",
  [STK, XST, VEC], [("saved extremes", XST + ": push, pop")], (), ["public API of adapter::Stack and stack::XValueStack"])
p("C14", "Heap always delivers the extreme of exactly the elements it holds",
  "After any history of pushes, pops, bulk builds, copies and moves, a Heap or PriorityQueue holds exactly the multiset of elements pushed and not yet popped, top is one that no other element precedes under its comparator, and popping until empty yields all of them in comparator order. Heap::sort leaves a range as a permutation of itself in comparator order and Heap::build leaves it as a permutation in heap order.",
  ["histories", "fault_sequences"],
  "every history with duplicates and every comparator direction by interleaved tasks under every allocator policy",
  "The examples use at most ten distinct values pushed in order.",
  [HEAP, VEC], [("sift up/down", HEAP + ": _adjust_up, _adjust_down"), ("bulk build", HEAP + ": Heap(begin, end)")],
  (), ["public API of Heap"])
p("C15", "Binary search tree is exactly a sorted set under any history",
  "After any history of pushes (of new and of present values), pops (of present and of absent values), erases through iterators, clears, copies and moves, a BSTree holds exactly the expected set: size counts it, find succeeds for members only, and in-order iteration and traversal visit each member once in comparator order. Pre-order and post-order iteration and traversal visit each member exactly once, every member before (respectively after) all its descendants, and the iterator and callback forms agree. An erase returns the iterator to the next element in order, or end.",
  ["histories", "fault_sequences"],
  "every history, including two-child deletions, root deletions and emptied trees, by interleaved tasks under every allocator policy",
  "The example deletes in one order that never meets a node with two deep children.",
  [BST, BSTB, BT, EBT], [("insertion and deletion", BST + ": _insert, _delete, _try_to_delete, erase"), ("successor functions", EBT + ": next_preorder, next_inorder, next_postorder")],
  (), ["public API of BinarySearchTree"])
p("C16", "AVL tree is a sorted set and stays balanced under any history",
  "After any history of pushes of new values, pops, erases through iterators, clears, copies and moves, an AVLTree holds exactly the expected set with in-order iteration sorted, find exact and size correct. After every operation the tree is balanced: each node's two subtrees differ in height by at most one and the reported height is the true height, so it never exceeds 1.4405*log2(n+2). An erase returns the iterator to the next element in order, or end.",
  ["histories", "fault_sequences"],
  "every history of insertions and deletions, both deletion entry points (by value and by iterator), by interleaved tasks under every allocator policy",
  "The example inserts two monotone runs and checks the height once; rebalancing after deletions depends on the tree's shape.",
  [AVL, BT, EBT], [("rotations and heights", AVL + ": _insert, _delete, _check_and_balance, _rebalance_after_delete"), ("node swap", AVL + ": _swap_node")],
  (), ["public API of AVLTree, traversal() and the tree links reachable from _get_root_ptr()"])
p("C17", "Map is exactly a sorted dictionary under any history",
  "After any history of indexed writes, pushes of new keys, pops and erases (of present and absent keys), lookups, clears, copies and moves, a Map associates each present key with the value last stored under it and nothing else: size, find, indexing and iteration agree, and iteration visits each key once in key order. Reading through a const Map or finding never inserts; indexing an absent key of a non-const Map inserts exactly that key with a default value. An erase returns the iterator to the next key in order, or end.",
  ["histories", "fault_sequences"],
  "every history over few keys (so that overwrites, removals and re-insertions are common) by interleaved tasks under every allocator policy",
  "The example stores four characters.",
  [MAP, AVL], [("find-or-insert", MAP + ": operator[]"), ("AVL tree of key-value pairs", AVL)], (), ["public API of Map"])
p("C18", "Union-find always represents exactly the partition built by its unions",
  "After any history of connects (including of already connected elements), unions of roots and lookups, two elements are connected exactly when a chain of unions joins them, find returns one common member of the set for all its members, count is the number of sets, and size never changes. Lookups never change the partition, and for any set size and any order of unions every operation completes within a call depth logarithmic in the number of elements.",
  ["histories", "fault_sequences"],
  "every order of unions and lookups, including long adversarial chains, by interleaved tasks under every allocator policy",
  "The example performs three unions on six elements, never joining two elements already joined.",
  [UF, VEC], [("union by rank", UF + ": union_set"), ("path compression", UF + ": find")], (), ["public API of DisjointSet"])
p("C19", "String holds exactly the characters appended, always terminated",
  "After any history of construction, assignment, push_back, += and + (including with itself and with empty strings), clear, element writes, copies and moves, a String's size, indexing, iteration, front, back and comparisons describe exactly the expected characters, and c_str() is that sequence followed by a terminator. Equality is exactly equality of the character sequences.",
  ["histories", "fault_sequences"],
  "every history over several strings and literals of lengths around the storage thresholds by interleaved tasks under every allocator policy",
  "The example appends one literal once.",
  [STR, VEC], [("terminator kept in the character vector", STR + ": push_back, operator+=, clear")], (), ["public API of BasicString"])
p("C20", "Copies are equal when made and fully independent afterwards",
  "Copy construction and copy assignment of any container give an object with exactly the source's contents and leave the source unchanged, for empty, cleared, moved-from, small and large sources and for self-assignment. Afterwards no operation on either object, including its destruction, is visible through the other, and the target's previous contents are gone.",
  ["histories", "fault_sequences"],
  "every history before and after copies among several objects of every copyable container, by interleaved tasks under every allocator policy",
  "Two examples copy a list of ten equal values; no tree, map, deque, heap, stack or string is copied and then changed.",
  ALLC + [COM], [("copy macro", COM + ": DSTRUCT_COPY_SEMANTICS"), ("tree copy", BT + ": copy")], (), ["copy constructors and assignments of all containers"])
p("C21", "Moves transfer the contents and leave a usable source",
  "Move construction and move assignment of any container transfer exactly the source's contents to the target (whose previous contents are gone), for empty, cleared, moved-from, small and large sources and for self-move, which changes nothing. The source is left valid and empty: it can be queried, iterated, filled again, assigned to and destroyed, with the same results as a new object and without any effect on the target.",
  ["histories", "fault_sequences"],
  "every history before and after moves among several objects of every movable container, by interleaved tasks under every allocator policy",
  "Two examples move one list of ten equal values.",
  ALLC + [COM], [("move macro", COM + ": DSTRUCT_MOVE_SEMANTICS"), ("link fix-up", SLL + ", " + DLL), ("iterator fix-up", DEQ)], (), ["move constructors and assignments of all containers"])
p("C22", "A container of bounded occupancy needs bounded memory however long it runs",
  "The memory a container holds is bounded by a fixed multiple of the largest number of elements it has held since it was last empty or new (plus a constant), no matter how many operations it has performed. A queue, deque, stack, list, heap, tree, map or vector whose occupancy stays bounded therefore runs forever in a fixed amount of memory, and an emptied-and-cleared container holds none beyond a constant.",
  ["histories", "schedules"],
  "every unbounded history whose occupancy stays below a bound: FIFO, LIFO, drifting, oscillating around growth and shrink thresholds, fill-and-drain cycles, and copies and moves of the container, run for many thousands of operations",
  "Tests run tens of operations; unbounded growth shows only in long histories.",
  [VEC, DEQ, QUE, LL, SLL, DLL, STK, XST, HEAP, BST, AVL, MAP, STR], [("recentering and shrink rule", DEQ + ": _resize, pop_front, pop_back"), ("shrink rule", VEC + ": pop_back")],
  (), ["bytes a container holds from its allocator"])
p("C23", "Static-memory containers use only their static arena",
  "Every container of the static-memory family keeps all its elements and bookkeeping in the static arena (or in the object itself) and never obtains memory from the default heap, in any operation. It supports the same operations with the same results as its dynamic counterpart, and after it is cleared or destroyed the arena has as much free memory as before it was used.",
  ["histories", "schedules"],
  "every history of every static-memory container sharing the arena with others",
  "One example pushes ten ints to one static vector; several static containers are never instantiated.",
  [STATIC, SMA] + ALLC, [("allocator template parameter", STATIC + ": aliases in namespace smemory")], (), ["calls to the default heap", "arena accounting"])
p("C24", "References and iterators to surviving list and tree elements stay valid",
  "In linked lists, search trees, AVL trees and maps an iterator or pointer to an element keeps denoting that same element, at the same address and with the same value, while other elements are added, removed or rebalanced around it and when the container is moved. Erasing through an iterator removes exactly the element it denotes and returns the iterator to the next element in order, so a loop that erases while iterating meets every element exactly once. A binary search tree is exempt from address stability only when the removal takes out an element with two children.",
  ["histories", "schedules"],
  "every history that keeps iterators and pointers to elements while other tasks' operations add, remove and rebalance, and erase-while-iterating loops over any subset in any state",
  "One example erases a contiguous tail of one tree; no test holds an iterator across other operations.",
  [LL, SLL, DLL, BT, BST, AVL, MAP], [("node swap instead of value copy", AVL + ": _swap_node"), ("erase", AVL + ": erase; " + BST + ": erase")], (), ["addresses of elements", "iterators returned by find, begin and erase"])
p("C25", "Fixed-size Array indexing, copy and iteration",
  "An Array of N elements holds exactly the values written at each position, with index -k denoting position N-k, for every index in range; copies and moves are element-wise and iteration visits positions 0 to N-1 in order.",
  ["inputs"], "every index, value and size", "The example checks one Array of ten ints.", [ARR], [("index folding", ARR + ": operator[]")])
p("C26", "Intrusive links keep a well-formed ring",
  "Adding and removing caller-owned nodes in an intrusive singly or doubly linked ring, or in a list of such links that ends in null, keeps exactly the added, not yet removed nodes reachable from the head (and, doubly linked, backwards), in insertion-position order, and empty reports whether a ring has none.",
  ["inputs"], "every sequence of add and del on caller-owned nodes", "The example adds ten nodes at the head.", [EL], [("add/del", EL + ": SinglyLink_, DoublyLink_")])
p("C27", "for_each and find visit exactly the given range",
  "for_each calls the callback once per position of [begin, end) in order, and find returns the first position whose element equals the value, or end.",
  ["inputs"], "every range and value", "The example runs for_each over ten elements; find is never called.", [ALG, IT], [("range loops", ALG)])
p("C28", "Default comparators are strict weak orders, null pointers extreme",
  "less and greater are strict weak orders that mirror each other for every value type with < and >, and for pointers they order null before (less), respectively after (greater), every non-null pointer.",
  ["inputs"], "every pair of values or pointers", "No test calls the pointer forms.", [UT], [("specialisations for pointers", UT + ": less<T*>, greater<T*>")])
p("C30", "Binary tree links, rotations, traversals and copies keep the tree they stand for",
  "In a binary tree of any shape, linked and owned as BinaryTree does it: left_rotate and right_rotate return the child that takes the node's place, keep the in-order sequence and leave every parent link pointing at the actual parent; preorder, inorder and postorder visit every node exactly once in the order of their definition, by recursion (traversal, *_traversal) and by iteration (begin/end, first_node, next_*) alike; height is the length of the longest path; copy makes a separate tree of the same shape and values, and clear releases every node once and leaves null.",
  ["histories", "fault_sequences"], "every shape reachable by attaching, detaching, rotating, grafting and clearing subtrees, under every allocator policy",
  "The examples traverse one tree of seven nodes and rotate inside the AVL tree only.",
  [EBT, BT, "core/ds/tree/tree-base.hpp"], [("rotations, successor functions, height", EBT + ": left_rotate, right_rotate, next_preorder, next_inorder, next_postorder, height"), ("copy and clear", BT + ": copy, clear, first_node")], (), ["links of every node, sequences of the three traversals"])
p("C31", "The work of every operation stays within its order",
  "The work an operation takes grows with the number of elements no faster than it is known to, in every history: constant for top, front, back, size, empty, moves and index (Vector, Array, String) and for both ends of the lists; constant when spread over a run of calls for pushing and popping at the ends of Vector, Deque, Queue, Stack, MinStack, MaxStack and for String push_back, also when the size goes to and fro across a growing or shrinking point; logarithmic for heap push and pop, for AVLTree and Map push, pop, erase, find and [], and for DisjointSet connect, connected and find; linear for walking a range, copying, clearing and destroying. It is the number of executed steps of library code that counts, not real time.",
  ["histories"], "every size, insertion order and alternation of operations", "Tests use a handful of elements and never look at the amount of work.",
  [VEC, DEQ, AVL, EBT, HEAP, UF], [("growth and shrinking", VEC + ": push_back, pop_back, resize"), ("balancing", AVL), ("union by size, find", UF)], (), ["executed steps of every burst of calls against the order of its cost"])
p("C29", "Headers can be included in any number of translation units",
  "The library can be included from any number of translation units of one program, in any order, with either memory port, without link errors or differing behaviour.",
  ["configurations"], "every set of including translation units and port selection", "Every test is a single translation unit with the libc port.", [COM, "dstruct.hpp", STATIC], [("header guards, static functions", COM)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
