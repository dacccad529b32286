from seedlib import seed
SMA, PORT = "memory/StaticMemAllocator.hpp", "port/static-memory/sma-dstruct-port.hpp"
VEC, HEAP, DEQ = "core/ds/array/Vector.hpp", "core/ds/Heap.hpp", "core/ds/queue/DoubleEndedQueue.hpp"
LL, SLL, DLL, EL = ("core/ds/linked-list/%s.hpp" % x for x in ("LinkedList", "SinglyLinkedList", "DoublyLinkedList", "EmbeddedList"))
XS, STK, DS, STR = "core/ds/stack/XValueStack.hpp", "core/ds/stack/Stack.hpp", "core/ds/set/DisjointSet.hpp", "core/ds/string/BasicString.hpp"
BT, BST, AVL, EBT, MAP = "core/ds/tree/BinaryTree.hpp", "core/ds/tree/BinarySearchTree.hpp", "core/ds/tree/AVLTree.hpp", "core/ds/tree/EmbeddedBinaryTree.hpp", "core/ds/Map.hpp"
STATIC = "dstruct-static.hpp"

# ---------------------------------------------------------------- C01
seed("c01-fragment-unrounded", "C01", SMA,
  [("int memFragmentSize = targetMemBlockIndex.data - allocatedSize;", "int memFragmentSize = targetMemBlockIndex.data - (bytes > MAX_BLOCK_SIZE ? bytes : allocatedSize);")], r'''
typedef dstruct::StaticMemAllocator<1024> A;
int main() {   // sizes above the quick size that are no multiple of 8
    struct B { char *p; int n, v; }; std::vector<B> l; unsigned s = 7; int c = 0; char *base = (char *)A::allocate(1024); A::deallocate(base, 1024);
    for (int k = 0; k < 20000; k++) {
        s = s * 1103515245u + 12345u;
        if ((s >> 16) % 5 < 3) { int n = (s >> 8) % 3 ? 1 + (s >> 8) % 40 : 129 + (s >> 9) % 90; char *p = (char *)A::allocate(n); if (p) { REQUIRE(p >= base && p + n <= base + 1024); for (auto &b : l) REQUIRE(p + ((n + 7) & ~7) <= b.p || b.p + ((b.n + 7) & ~7) <= p); memset(p, ++c, n); l.push_back({p, n, c}); } else A::memory_merge(); }
        else if (l.size()) { int i = (s >> 9) % l.size(); for (int j = 0; j < l[i].n; j++) REQUIRE(l[i].p[j] == (char)l[i].v); REQUIRE(A::deallocate(l[i].p, l[i].n)); l[i] = l.back(); l.pop_back(); }
    }
}''', "a block carved for a size that is no multiple of 8, whose remainder is handed out while its neighbour is in use", "the remainder is registered larger than it is, so it overlaps the next block")
seed("c02-max-free-firstfit", "C02", SMA,
  [("            if (maxSize < mbPtr->data) maxSize = mbPtr->data;", "            if (maxSize < mbPtr->data || linkPtr->next == nullptr) maxSize = mbPtr->data;")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // pool list: a large block first, a smaller one last
    char *a = (char *)A::allocate(2000), *b = (char *)A::allocate(8), *c = (char *)A::allocate(1600);
    REQUIRE(a && b && c); A::deallocate(a, 2000);
    int m = A::max_free_mblock_size(); REQUIRE(A::allocate(m)); REQUIRE(m == 2000);
}''', "at least two pool blocks, the last of which (by address) is not the largest", "max_free_mblock_size reports the last pool block instead of the largest")
seed("c02-dealloc-size", "C02", SMA,
  [("        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);", "        mFreeMemSize_d += bytes > MAX_BLOCK_SIZE ? bytes : MEM_ALIGN_ROUND_UP(bytes);")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() { char *a = (char *)A::allocate(201); int f = A::free_mem_size(); REQUIRE(f == 4096 - 208); A::deallocate(a, 201); REQUIRE(A::free_mem_size() == 4096); }
''', "release of a block above the quick size whose size is no multiple of 8", "the reported free size drifts below the real one")
# ---------------------------------------------------------------- C03
seed("c03-merge-order", "C03", SMA,
  [("        quick_mem_memory_merge_d();\n        mem_pool_memory_merge_d();", "        mem_pool_memory_merge_d();\n        quick_mem_memory_merge_d();")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // pool block, 128-byte quick block, pool block: the middle one is joined to one side only by the quick merge
    char *a = (char *)A::allocate(600), *b = (char *)A::allocate(128), *c = (char *)A::allocate(600), *d = (char *)A::allocate(4096 - 1328);
    REQUIRE(a && b && c && d); A::deallocate(a, 600); A::deallocate(b, 128); A::deallocate(c, 600);
    A::memory_merge(); REQUIRE(A::allocate(1328) == a);
}''', "free memory made of pool blocks joined through a quick block", "after the merge two adjacent pool blocks remain separate")
seed("c03-ascending-break", "C03", SMA,
  [("        while (freeMemLinkPtr->next != nullptr && addr > freeMemLinkPtr->next) {", "        while (freeMemLinkPtr->next != nullptr && addr > freeMemLinkPtr->next && ListIndex < mFreeMemList_d.size() - 1) {")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // pool blocks released in ascending address order, then merged
    char *p[4]; for (int i = 0; i < 4; i++) REQUIRE(p[i] = (char *)A::allocate(1024));
    for (int i = 0; i < 4; i++) A::deallocate(p[i], 1024);
    A::memory_merge(); REQUIRE(A::allocate(4096) == p[0]);
}''', "big blocks released in ascending address order", "the pool list is no longer address ordered, so a merge misses adjacent blocks")
# ---------------------------------------------------------------- C04
seed("c04-merge-big-only", "C04", PORT,
  [("    if (memPtr == nullptr) {\n        SMA_LOGD(\"memory_merge\");\n        DefaultSMA::memory_merge();", "    if (memPtr == nullptr) {\n        SMA_LOGD(\"memory_merge\");\n        if (bytes > 64) DefaultSMA::memory_merge();")], r'''
int main() {   // the whole arena as free 8-byte blocks, then a list node is needed
    std::vector<void *> l; for (void *p; (p = dstruct::port::DefaultSMA::allocate(8));) l.push_back(p);
    for (void *p : l) dstruct::port::deallocate(p, 8);
    dstruct::DLinkedList<long> d; for (int i = 0; i < 100; i++) d.push_back(i);
    int i = 0; for (auto it = d.begin(); it != d.end(); it++) REQUIRE(*it == i++);
    REQUIRE(i == 100);
}''', "an arena whose free memory is only in pieces smaller than a small request", "the port stops the program although a compaction would have met the request", "-DENABLE_SMA")
seed("c04-small-dealloc-lost", "C04", PORT,
  [("    DSTRUCT_CRASH(DefaultSMA::deallocate(addr, bytes) == false);", "    if (DefaultSMA::free_mem_size() < bytes) return; // nothing to give back to\n    DSTRUCT_CRASH(DefaultSMA::deallocate(addr, bytes) == false);")], r'''
int main() {   // a block released while the arena is completely used up
    const int n = 1024 * 1024; std::vector<void *> l; void *big = dstruct::port::allocate(n / 2);
    void *rest = dstruct::port::allocate(n / 2); REQUIRE(dstruct::port::DefaultSMA::free_mem_size() == 0);
    dstruct::port::deallocate(rest, n / 2);
    void *again = dstruct::port::allocate(n / 2); REQUIRE(again == rest); (void)big;
}''', "memory released while less than its size is free", "the released memory never becomes usable again", "-DENABLE_SMA")
# ---------------------------------------------------------------- C05
seed("c05-vector-release-size", "C05", VEC,
  [("                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = n;", "                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mSize_d > 0 ? mSize_d : mCapacity_d);\n        }\n\n        mCapacity_d = n;")], r'''
static std::map<void *, int> live;
struct A { static void *allocate(int n) { void *p = malloc(n); live[p] = n; return p; } static void deallocate(void *p, int n) { REQUIRE(live.count(p) && live[p] == n); live.erase(p); free(p); } };
int main() { dstruct::Vector<int, A> v; v.resize(10); v.push_back(1); v.resize(20); v.clear(); REQUIRE(live.empty()); }
''', "a resize of a vector that is not full", "the old block is returned with the number of elements instead of its capacity")
seed("c05-deque-shrink-leak", "C05", DEQ,
  [("            if (i < oldArrStartIndex || oldArrEndIndex < i) {\n                //dstruct::destroy(oldArrMapTable[i]);", "            if (i < oldArrStartIndex || (isExtend && oldArrEndIndex < i)) {\n                //dstruct::destroy(oldArrMapTable[i]);")], r'''
static std::map<void *, int> live;
struct A { static void *allocate(int n) { void *p = malloc(n); live[p] = n; return p; } static void deallocate(void *p, int n) { REQUIRE(live.count(p) && live[p] == n); live.erase(p); free(p); } };
int main() { { dstruct::Deque<int, 4, A> d; for (int i = 0; i < 200; i++) d.push_back(i); while (!d.empty()) d.pop_back(); } REQUIRE(live.empty()); }
''', "a deque that shrinks while blocks behind its last element exist", "those blocks are never returned")
seed("c05-map-table-fresh", "C05", DEQ,
  [("        auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;", "        auto midMapIndex = MIN_MAP_TABLE_SIZE / 2; // give the middle arr a defined value\n        for (auto it = mArrMapTable_d[midMapIndex]->begin(); it != mArrMapTable_d[midMapIndex]->end(); it++) *it = T();")], r'''
static int bad; struct E { int v, *p; E(int x = 0) : v(x), p(new int(x)) {} E(const E &o) : v(o.v), p(new int(o.v)) {} E &operator=(const E &o) { if (p == (int *)0x5a5a5a5a5a5a5a5a) bad++; else { delete p; } v = o.v; p = new int(v); return *this; } ~E() { delete p; } };
struct A { static void *allocate(int n) { void *p = malloc(n); memset(p, 0x5a, n); return p; } static void deallocate(void *p, int) { free(p); } };
int main() { dstruct::Deque<E, 4, A> d; d.push_back(E(1)); REQUIRE(bad == 0); REQUIRE(d.size() == 1); }
''', "fresh storage that is not zero", "fresh storage is assigned to as if it held elements")
# ---------------------------------------------------------------- C06
seed("c06-resize-truncate", "C06", VEC,
  [("                if (i < n) // TODO: use move by check type-tag\n                    dstruct::construct(mC_d + i, oldC[i]);\n                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = n;",
    "                if (i >= n) break;\n                // TODO: use move by check type-tag\n                dstruct::construct(mC_d + i, oldC[i]);\n                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = n;")], r'''
static int live; struct E { int v; E(int x = 0) : v(x) { live++; } E(const E &o) : v(o.v) { live++; } ~E() { live--; } };
int main() { { dstruct::Vector<E> v; for (int i = 0; i < 8; i++) v.push_back(E(i)); v.resize(3); REQUIRE(v.size() == 3); } REQUIRE(live == 0); }
''', "a resize below the current size", "the elements that are cut off are never destroyed")
seed("c06-bst-overwrite", "C06", BST,
  [("            nPtr->data = tmpPtr->data;", "            dstruct::construct(&(nPtr->data), tmpPtr->data);")], r'''
static int live; struct E { int v; E(int x = 0) : v(x) { live++; } E(const E &o) : v(o.v) { live++; } E &operator=(const E &o) { v = o.v; return *this; } ~E() { live--; } bool operator<(const E &o) const { return v < o.v; } };
int main() { { dstruct::BSTree<E> t; for (int k : {5, 2, 8, 1, 3, 7, 9}) t.push(E(k)); t.pop(E(5)); REQUIRE(t.size() == 6); } REQUIRE(live == 0); }
''', "removal of an element with two children", "a live element is overwritten without being destroyed")
seed("c06-deque-clear-first-block", "C06", DEQ,
  [("            for (auto it = mBegin_d; it != mEnd_d; it++) {\n                dstruct::destroy(it.operator->());\n            }", "            size_t n = mSize_d;\n            for (auto it = mBegin_d; n > 1; it++, n--) {\n                dstruct::destroy(it.operator->());\n            }\n            if (mEnd_d.mCurr_d != mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin())\n                dstruct::destroy((mEnd_d - 1).operator->());")], r'''
static int live; struct E { int v; E(int x = 0) : v(x) { live++; } E(const E &o) : v(o.v) { live++; } ~E() { live--; } };
int main() { for (int n = 0; n < 40; n++) { { dstruct::Deque<E, 4> d; for (int i = 0; i < n; i++) d.push_front(E(i)); } REQUIRE(live == 0 || n == 0); } }
''', "clearing a deque whose end is at the start of a block", "the last element is not destroyed")
# ---------------------------------------------------------------- C07
seed("c07-copy-truncated", "C07", BT,
  [("        Node_ *newRoot = AllocNode_::allocate();", "        Node_ *newRoot = static_cast<Node_ *>(Alloc::allocate(sizeof(Node_)));\n        if (!newRoot)\n            return nullptr;")], r'''
#include <sys/wait.h>
#include <unistd.h>
static int budget = 1 << 30; struct A { static void *allocate(int n) { return budget-- > 0 ? malloc(n) : nullptr; } static void deallocate(void *p, int) { free(p); } };
int main() {
    for (int k = 0; k < 12; k++) {
        pid_t p = fork();
        if (!p) { typedef dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A> T; T t; for (int i : {3, 1, 5, 0, 2}) t.push(i); budget = k; T c(t); _exit(budget < 0 ? 1 : 0); }
        int st; waitpid(p, &st, 0); REQUIRE(WIFSIGNALED(st) || WEXITSTATUS(st) == 0);
    }
}''', "a refusal of one of the nodes a tree copy allocates", "the copy silently lacks a sub-tree")
seed("c07-vector-keep-old", "C07", VEC,
  [("        else\n            mC_d = Vector::Alloc_::allocate(n);\n", "        else\n            mC_d = static_cast<PointerType>(Alloc::allocate(n * sizeof(T)));\n\n        if (mC_d == nullptr && n != 0 && n <= mCapacity_d) { // can't shrink now, keep it\n            mC_d = oldC;\n            return;\n        }\n")], r'''
#include <sys/wait.h>
#include <unistd.h>
static int budget = 1 << 30; struct A { static void *allocate(int n) { return budget-- > 0 ? malloc(n) : nullptr; } static void deallocate(void *p, int) { free(p); } };
int main() {
    pid_t p = fork();
    if (!p) { dstruct::Vector<int, A> v; for (int i = 0; i < 24; i++) v.push_back(i); budget = 0; for (int i = 0; i < 22; i++) v.pop_back(); _exit(budget < 0 ? 1 : 0); }
    int st; waitpid(p, &st, 0); REQUIRE(WIFSIGNALED(st) || WEXITSTATUS(st) == 0);
}''', "a refused allocation while a vector shrinks", "the operation returns as if the request had been met")
seed("c07-bst-skip-node", "C07", BST,
  [("        auto nodePtr = AllocNode_::allocate();\n        auto newNodeLink = Node_::to_link(nodePtr);", "        auto nodePtr = static_cast<Node_ *>(Alloc::allocate(sizeof(Node_)));\n        if (nodePtr == nullptr) return parent;\n        auto newNodeLink = Node_::to_link(nodePtr);")], r'''
#include <sys/wait.h>
#include <unistd.h>
static int budget = 1 << 30; struct A { static void *allocate(int n) { return budget-- > 0 ? malloc(n) : nullptr; } static void deallocate(void *p, int) { free(p); } };
int main() {
    pid_t p = fork();
    if (!p) { dstruct::tree::BinarySearchTree<int, dstruct::less<int>, A> t; t.push(1); budget = 0; t.push(2); _exit(budget < 0 ? 1 : 0); }
    int st; waitpid(p, &st, 0); REQUIRE(WIFSIGNALED(st) || WEXITSTATUS(st) == 0);
}''', "a refused node allocation", "the push returns without having inserted anything")
# ---------------------------------------------------------------- C08
seed("c08-list-static-scratch", "C08", LL,
  [("        mHeadNode_d.data = obj; // only for contruct nPtr\n        dstruct::construct(nPtr, mHeadNode_d);", "        static Node_ scratch; // only for contruct nPtr\n        scratch.data = obj;\n        dstruct::construct(nPtr, scratch);")], r'''
struct E { int v; static void (*hook)(); E(int x = 0) : v(x) {} E(const E &o) : v(o.v) {} E &operator=(const E &o) { v = o.v; if (hook) { void (*h)() = hook; hook = 0; h(); } return *this; } };
void (*E::hook)() = 0;
static dstruct::SLinkedList<E> *b; static void other() { b->push_front(E(99)); }
int main() { dstruct::SLinkedList<E> a, bb; b = &bb; a.push_front(E(1)); E::hook = other; a.push_front(E(2)); REQUIRE(a.front().v == 2); REQUIRE(bb.front().v == 99); }
''', "another task's push_front between the element assignment and the construction of the node", "the node gets the other list's element")
seed("c08-pop-static", "C08", XS,
  [("        T data = mStack_d.top(); mStack_d.pop();", "        static T data; // avoid a construction per pop\n        data = mStack_d.top(); mStack_d.pop();")], r'''
struct E { int v; static void (*hook)(); E(int x = 0) : v(x) {} E(const E &o) : v(o.v) {} E &operator=(const E &o) { v = o.v; return *this; } ~E() { if (hook && v == -7) { } }
  bool operator<(const E &o) const { if (hook) { void (*h)() = hook; hook = 0; h(); } return v < o.v; } bool operator>(const E &o) const { return v > o.v; } };
void (*E::hook)() = 0;
struct Cmp { bool operator()(const E &a, const E &b) const { E x = a; if (E::hook) { void (*h)() = E::hook; E::hook = 0; h(); } E y = b; return x < y; } };
typedef dstruct::stack::XValueStack<E, Cmp, dstruct::adapter::Stack<E, dstruct::Vector<E> > > S;
static S *b; static void other() { b->pop(); }
int main() {
    S a, bb; b = &bb; for (int k : {5, 3, 7}) a.push(E(k)); for (int k : {1, 20}) bb.push(E(k));
    a.pop(); E::hook = other; a.pop(); REQUIRE(a.getXValue().v == 5 && a.top().v == 5); REQUIRE(bb.top().v == 1 && bb.getXValue().v == 1);
}''', "another stack's pop inside the comparison of a pop", "the comparison reads the other stack's element")
seed("c08-avl-static-path", "C08", AVL,
  [("    typename Node_::LinkType * _check_and_balance(typename Node_::LinkType *root) {\n        int balance = _balance_factor(root);", "    typename Node_::LinkType * _check_and_balance(typename Node_::LinkType *root) {\n        static int balance;\n        balance = _balance_factor(root);\n        if (balance > 1 || balance < -1) (void) mCmp_d(Node_::to_node(root)->data.val, Node_::to_node(root)->data.val); // verify cmp")], r'''
static void (*hook)(); static int eq; struct E { int v; E(int x = 0) : v(x) {} };
struct Cmp { bool operator()(const E &a, const E &b) const { if (hook && a.v == b.v && ++eq == 3) { void (*h)() = hook; hook = 0; h(); } return a.v < b.v; } };
typedef dstruct::AVLTree<E, Cmp, dstruct::Alloc> T; static T *b; static void other() { b->pop(E(1)); }
int main() {
    T a, bb; b = &bb; for (int k : {2, 1, 3, 4}) a.push(E(k)); for (int k : {2, 1, 3}) bb.push(E(k));
    a.pop(E(3)); a.push(E(5)); // 2 / 1 4 / . . . 5
    // removing 1 makes the root unbalanced: there the other tree's removal comes in between
    hook = other; a.pop(E(1));
    REQUIRE(a.height() == 2);
}''', "another tree's removal while this one has just found itself unbalanced", "the rotation is decided by the other tree's balance")
# ---------------------------------------------------------------- C09
seed("c09-morris-traversal", "C09", EBT,
  [("    if (root) {\n        inorder_traversal(root->left, cb);\n        cb(root);\n        inorder_traversal(root->right, cb);\n    }",
    "    while (root) { // no recursion: thread the right-most link of the left sub-tree back to root\n        BinaryTreeLink_ *pre = root->left;\n        if (pre == nullptr) {\n            cb(root);\n            root = root->right;\n            continue;\n        }\n        while (pre->right != nullptr && pre->right != root) pre = pre->right;\n        if (pre->right == nullptr) {\n            pre->right = root;\n            root = root->left;\n        } else {\n            pre->right = nullptr;\n            cb(root);\n            root = root->right;\n        }\n    }")], r'''
int main() {
    dstruct::BSTree<int> t; for (int k : {5, 2, 8, 1, 3, 7, 9}) t.push(k);
    std::vector<int> outer; int bad = 0;
    t.traversal([&](int v) { outer.push_back(v); std::vector<int> in; for (auto it = t.begin(); it != t.end() && in.size() < 20; it++) in.push_back(*it); if (in != std::vector<int>{1, 2, 3, 5, 7, 8, 9}) bad++; });
    REQUIRE((outer == std::vector<int>{1, 2, 3, 5, 7, 8, 9})); REQUIRE(bad == 0);
}''', "a second reader while an in-order traversal is under way", "the traversal changes the links while it runs, so the other reader sees a wrong tree")
seed("c09-front-cache", "C09", LL,
  [("    T front() const {\n        return Node_::to_node(mHeadNode_d.link.next)->data;", "    T front() const { // keep it in the head node: no need to follow the link again\n        mHeadNode_d.data = Node_::to_node(mHeadNode_d.link.next)->data;\n        return mHeadNode_d.data;")], r'''
static int in_assign, bad; struct E { int v; int w; E(int x = 0) : v(x), w(x) {} E(const E &o) : v(o.v), w(o.w) { if (v != w) bad++; } E &operator=(const E &o); };
static dstruct::DLinkedList<E> *l; static bool nest; E &E::operator=(const E &o) { v = -1; if (nest) { nest = false; E x = l->back(); const dstruct::DLinkedList<E> &c = *l; E y = c.front(); v = -1; w = 0; if (y.v != y.w) bad++; } v = o.v; w = o.w; in_assign++; return *this; }
int main() { dstruct::DLinkedList<E> d; l = &d; d.push_back(E(1)); d.push_back(E(2)); in_assign = 0; const dstruct::DLinkedList<E> &c = d; E x = c.front(); REQUIRE(x.v == 1); REQUIRE(in_assign == 0); }
''', "two readers of one list", "front() const assigns to an element stored in the list")
# ---------------------------------------------------------------- C10
seed("c10-shrink-too-far", "C10", VEC,
  [("            resize(mCapacity_d / 2);", "            resize(mCapacity_d / (mCapacity_d > 128 ? 4 : 2));")], r'''
int main() { for (int n = 1; n < 300; n++) { dstruct::Vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); for (int i = n; i > 0; i--) { REQUIRE(v.size() == i && v.back() == i - 1); for (int j = 0; j < i; j++) REQUIRE(v[j] == j); v.pop_back(); } } }
''', "popping from a vector that once had a capacity above 128", "shrinking cuts off elements")
# ---------------------------------------------------------------- C11
seed("c11-begin-left-behind", "C11", DEQ,
  [("            mEnd_d.mCurr_d = mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin();\n            mEnd_d._sync();", "            mEnd_d.mCurr_d = mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin();\n            needUpdateBegin = needUpdateBegin && mSize_d != 0;\n            mEnd_d._sync();")], r'''
int main() { dstruct::Deque<int, 4> d; for (int i = 0; i < 4; i++) d.push_back(i); for (int i = 0; i < 4; i++) { REQUIRE(d.front() == i); d.pop_front(); } REQUIRE(d.empty()); d.push_back(42); REQUIRE(d.front() == 42 && d.back() == 42 && d.size() == 1); int n = 0; for (auto it = d.begin(); it != d.end(); it++) n++; REQUIRE(n == 1); }
''', "a deque emptied from the front exactly at the end of its last block, then extended at the back", "begin stays at the old block's end")
# ---------------------------------------------------------------- C12
seed("c12-tail-after-pop", "C12", SLL,
  [("        mTailNodePtr_d = Node_::to_node(link);\n        mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);", "        mTailNodePtr_d = Node_::to_node(link);\n        if (mSize_d > 1) mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);")], r'''
int main() { dstruct::SLinkedList<int> l; l.push_back(1); l.push_back(2); l._pop_back(); REQUIRE(l.back() == 1); int n = 0; for (auto it = l.begin(); it != l.end() && n < 10; it++) n++; REQUIRE(n == 1); }
''', "removing the last of two elements at the back of a singly linked list", "the remaining node still points to the released one")
seed("c12-move-ring", "C12", DLL,
  [("        mHeadNode_d.link.prev->next = headLinkPtr;\n        mHeadNode_d.link.next->prev = headLinkPtr;", "        mHeadNode_d.link.prev->next = headLinkPtr;\n        if (mSize_d > 1) mHeadNode_d.link.next->prev = headLinkPtr;")], r'''
int main() { dstruct::DLinkedList<int> b; { dstruct::DLinkedList<int> a; a.push_back(1); b = dstruct::move(a); a.push_back(9); } b.push_back(2); b.pop_front(); b.push_front(3); REQUIRE(b.size() == 2); auto it = b.end(); it--; REQUIRE(*it == 2); it--; REQUIRE(*it == 3); it--; REQUIRE(it == b.end());
  dstruct::DLinkedList<int> c, e; c.push_back(5); e = dstruct::move(c); e.pop_back(); e.push_back(6); REQUIRE(e.size() == 1 && e.front() == 6); it = e.end(); it--; REQUIRE(*it == 6); it--; REQUIRE(it == e.end()); }
''', "a moved list of exactly one element whose only node is then taken out at the back", "the node's backward link still leads to the old list's head")
# ---------------------------------------------------------------- C13
seed("c13-stack-pop-short", "C13", STK,
  [("    void pop() {\n        T data = mDS_d.back();\n        mDS_d.pop_back();", "    void pop() {\n        T data = mDS_d.back();\n        mDS_d.pop_back();\n        if (mDS_d.size() > 1 && mDS_d.size() % 64 == 0) { DS t; for (auto &e : mDS_d) t.push_back(e); mDS_d = dstruct::move(t); mDS_d.push_back(data); mDS_d.pop_back(); mDS_d.pop_back(); mDS_d.push_back(data); } // trim")], r'''
int main() { dstruct::Stack<int> s; for (int i = 0; i < 200; i++) s.push(i); for (int i = 199; i >= 0; i--) { REQUIRE(s.top() == i); s.pop(); } REQUIRE(s.empty()); }
''', "popping a stack down to a multiple of 64 elements", "the top element is replaced by the popped one")
# ---------------------------------------------------------------- C14
seed("c14-build-last-parent", "C14", HEAP,
  [("        for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--) {", "        for (int i = (mHeap_d.size() - 1) / 2 - (mHeap_d.size() > 16); i >= 1; i--) {")], r'''
int main() { int a[20]; for (int i = 0; i < 20; i++) a[i] = 100 - i; dstruct::Vector<int> v; for (int x : a) v.push_back(x); dstruct::MinHeap<int>::sort(v.begin(), v.end()); for (int i = 0; i < 20; i++) REQUIRE(v[i] == 81 + i); }
''', "a bulk build of 16 or more elements whose last leaf precedes its ancestors", "the last inner node is not adjusted")
seed("c14-adjust-right", "C14", HEAP,
  [("            if (right < heapSize && !mCmp_d(mHeap_d[target], mHeap_d[right])) {", "            if (right < heapSize - 1 && !mCmp_d(mHeap_d[target], mHeap_d[right])) {")], r'''
int main() { for (unsigned s = 1; s < 400; s++) { dstruct::MinHeap<int> h; std::multiset<int> m; unsigned r = s; for (int i = 0; i < 60; i++) { r = r * 1103515245u + 12345u; if ((r >> 16) % 3) { int v = (r >> 8) % 1000; h.push(v); m.insert(v); } else if (!m.empty()) { REQUIRE(h.top() == *m.begin()); h.pop(); m.erase(m.begin()); } } while (!m.empty()) { REQUIRE(h.top() == *m.begin()); h.pop(); m.erase(m.begin()); } } }
''', "a pop after which the last leaf is a right child that should move up", "the last right child is ignored when sifting down")
# ---------------------------------------------------------------- C15
seed("c15-preorder-sibling", "C15", EBT,
  [("        if (link->parent->right != nullptr && link->parent->right != link) {\n            return link->parent->right;\n        }\n        link = link->parent;", "        if (link->parent->right != nullptr && link->parent->right != link) {\n            return link->parent->right;\n        }\n        link = link->parent->parent != nullptr && link->parent->right == link ? link->parent->parent : link->parent;")], r'''
static void pre(const std::vector<int> &in, std::vector<int> &out) {}
int main() { for (unsigned s = 1; s < 300; s++) { dstruct::BSTree<int> t; unsigned r = s; for (int i = 0; i < 25; i++) { r = r * 1103515245u + 12345u; t.push((r >> 16) % 100); }
  typedef dstruct::BSTree<int> T; std::vector<int> a, b; t.traversal([&](int v) { a.push_back(v); }, T::TraversalType::PreOrder); for (auto it = t.begin(T::TraversalType::PreOrder); it != t.end(T::TraversalType::PreOrder) && b.size() < 100; it++) b.push_back(*it); REQUIRE(a == b); } }
''', "pre-order iteration that has to climb out of a right sub-tree whose parent is a left child with a right sibling", "a sub-tree is skipped")
seed("c15-two-child-successor", "C15", BST,
  [("            linkPtr->right = _delete(linkPtr->right, tmpPtr->data); // retry", "            if (tmp->parent != linkPtr) tmp->parent->left = _try_to_delete(tmp);\n            else { linkPtr->right = tmp->right; linkPtr->right ? (void)0 : (void)0; dstruct::destroy(tmpPtr); AllocNode_::deallocate(tmpPtr); BinaryTree_e::mSize_d--; }")], r'''
int main() { for (unsigned s = 1; s < 400; s++) { dstruct::BSTree<int> t; std::set<int> m; unsigned r = s; for (int i = 0; i < 60; i++) { r = r * 1103515245u + 12345u; int k = (r >> 16) % 30; if ((r >> 8) % 3) { t.push(k); m.insert(k); } else { t.pop(k); m.erase(k); }
  std::vector<int> a; for (auto it = t.begin(); it != t.end() && a.size() < 100; it++) a.push_back(*it); REQUIRE(a == std::vector<int>(m.begin(), m.end())); } } }
''', "removal of an element with two children whose right child is its successor and has a right child", "that grandchild's parent link leads to the released node")
# ---------------------------------------------------------------- C16
seed("c16-double-rotate-zero", "C16", AVL,
  [("            if (_balance_factor(root->left) < 0) {", "            if (_balance_factor(root->left) <= 0) {")], r'''
int main() { for (unsigned s = 1; s < 300; s++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; std::set<int> m; unsigned r = s; for (int i = 0; i < 200; i++) { r = r * 1103515245u + 12345u; int k = (r >> 16) % 64; if (m.count(k)) { t.pop(k); m.erase(k); } else { t.push(k); m.insert(k); }
  int h = t.height(), lim = 0; double n = m.size() + 2, b = 0; while (n > 1) { n /= 2; b += 1; } struct C { static int d(decltype(t._get_root_ptr()) n, bool &ok) { if (!n) return 0; typedef decltype(t._get_root_ptr()) P; int l = d((P)n->link.left, ok), r = d((P)n->link.right, ok); if (l - r > 1 || r - l > 1) ok = false; return (l > r ? l : r) + 1; } }; bool ok = true; REQUIRE(C::d(t._get_root_ptr(), ok) == h || m.empty()); REQUIRE(ok); } } }
''', "a removal that leaves a node left-heavy with an evenly balanced left child", "the double rotation leaves the tree unbalanced")
seed("c16-erase-stops-early", "C16", AVL,
  [("                _update_height(parent);\n            } else if (newRoot != root) {", "                int old = Node_::to_node(parent)->data.height;\n                _update_height(parent);\n                if (old == Node_::to_node(parent)->data.height && newRoot == root) return; // nothing changes further up\n            } else if (newRoot != root) {")], r'''
int main() { for (unsigned s = 1; s < 300; s++) { typedef dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> T; T t; std::set<int> m; unsigned r = s; for (int i = 0; i < 300; i++) { r = r * 1103515245u + 12345u; int k = (r >> 16) % 128; if (m.count(k)) { auto it = t.find(k); t.erase(it); m.erase(k); } else { t.push(k); m.insert(k); }
  struct C { static int d(decltype(t._get_root_ptr()) n, bool &ok) { if (!n) return 0; typedef decltype(t._get_root_ptr()) P; int l = d((P)n->link.left, ok), r = d((P)n->link.right, ok); if (l - r > 1 || r - l > 1) ok = false; return (l > r ? l : r) + 1; } }; bool ok = true; int h = C::d(t._get_root_ptr(), ok); REQUIRE(ok); REQUIRE(h == t.height() || m.empty()); } } }
''', "an erase through an iterator whose effect on heights reaches an ancestor that becomes unbalanced without changing its own height", "rebalancing stops one level too early")
# ---------------------------------------------------------------- C17
seed("c17-pop-absent-size", "C17", {AVL:
  [("        dstruct::destroy(nodePtr);\n        AllocNode_::deallocate(nodePtr);\n        BinaryTree_e::mSize_d--;", "        dstruct::destroy(nodePtr);\n        AllocNode_::deallocate(nodePtr);"),
   ("        auto root = _delete(Node_::to_link(BinaryTree_e::mRootPtr_d), obj);\n        if (BinaryTree_e::mRootPtr_d", "        auto root = _delete(Node_::to_link(BinaryTree_e::mRootPtr_d), obj);\n        BinaryTree_e::mSize_d--;\n        if (BinaryTree_e::mRootPtr_d"),
   ("        decltype(it) next = ++it;\n", "        decltype(it) next = ++it;\n        BinaryTree_e::mSize_d--;\n")]}, None, r'''
int main() { dstruct::Map<int, int> m; m[1] = 1; m[2] = 2; m.pop(1); REQUIRE(m.size() == 1); m.pop(7); REQUIRE(m.size() == 1); auto it = m.find(2); m.erase(it); REQUIRE(m.empty()); }
''', "a pop of an absent key from a non-empty map", "the size is decremented although nothing was removed")
seed("c17-index-default", "C17", MAP,
  [("        if (target == end()) {\n            // TODO: optimize to only once find(by find_and_insert)\n            mDStruct_d.push({key, ValueType()});", "        if (target == end()) {\n            static const ValueType none = ValueType();\n            // TODO: optimize to only once find(by find_and_insert)\n            mDStruct_d.push({key, mDStruct_d.empty() ? none : mDStruct_d.height() > 5 ? mDStruct_d.begin()->value : none});")], r'''
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 300; i++) { REQUIRE(m[i * 7 % 311] == 0); m[i * 7 % 311] = 5; } }
''', "indexing an absent key of a map of more than about 32 keys", "the new key does not get a default value")
# ---------------------------------------------------------------- C18
seed("c18-rank-forgotten", "C18", DS,
  [("            if (mArray_d[root1] == mArray_d[root2])\n                mArray_d[root1]--;", "            if (mArray_d[root1] == mArray_d[root2] && mArray_d[root1] > -3)\n                mArray_d[root1]--;")], r'''
static int depth(dstruct::UFSet &u, int x) { char c; static char *base; return 0; }
int main() {   // repeatedly link the deepest roots: depth has to stay logarithmic
    struct P : dstruct::UFSet { P(int n) : dstruct::UFSet(n) {} int depth(int x) { int d = 0; while (mArray_d[x] >= 0) { x = mArray_d[x]; d++; } return d; } };
    const int n = 1 << 12; P u(n);
    // chains: union by rank must not put a tall tree below a short one
    for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) { int a = i, b = i + w; while (u.depth(a)) a = u.find(a); while (u.depth(b)) b = u.find(b); u.union_set(b, a); }
    int worst = 0; for (int i = 0; i < n; i++) worst = std::max(worst, u.depth(i));
    // adversarial: join each new 8-tree as the first argument
    P v(n); int root = -1; for (int i = 0; i + 8 <= n; i += 8) { for (int w = 1; w < 8; w *= 2) for (int j = i; j + w < i + 8; j += 2 * w) { int a = j, b = j + w; while (v.depth(a)) a = v.find(a); while (v.depth(b)) b = v.find(b); v.union_set(a, b); } int r = i; while (v.depth(r)) r = v.find(r); if (root >= 0) v.union_set(r, root), root = r; else root = r; }
    for (int i = 0; i < n; i++) worst = std::max(worst, v.depth(i));
    REQUIRE(worst <= 14);
}''', "many unions of trees of rank 3 in which the accumulated set comes second", "the rank stops growing, so call depth becomes linear")
seed("c18-count-neg", "C18", DS,
  [("            if (v < 0)\n                setsNum++;", "            if (v < 0 && v > -6)\n                setsNum++;")], r'''
int main() { const int n = 64; dstruct::UFSet u(n); int sets = n; for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) { u.connect(i, i + w); sets--; REQUIRE(u.count() == sets); } }
''', "a set built by balanced unions of at least 32 elements", "the set is not counted any more")
# ---------------------------------------------------------------- C19
seed("c19-equal-embedded-nul", "C19", STR,
  [("        if (s1[i] != s2[i]) {\n            return false;\n        }", "        if (s1[i] == '\\0' && s2[i] == '\\0') break; // end of both\n        if (s1[i] != s2[i]) {\n            return false;\n        }")], r'''
int main() { dstruct::String a("ab"), b("ab"); a.push_back('\0'); b.push_back('\0'); a.push_back('x'); b.push_back('y'); REQUIRE(a.size() == 4 && b.size() == 4); REQUIRE(a != b); }
''', "two strings with a null character inside that differ behind it", "they compare equal")
seed("c19-clear-small", "C19", STR,
  [("        mCharList_d.clear();\n        mCharList_d.push_back('\\0');", "        while (mCharList_d.size() > 1) mCharList_d.pop_back();")], r'''
int main() { dstruct::String s("abc"); s.clear(); REQUIRE(s.size() == 0 && s.c_str()[0] == '\0'); }
''', "a clear of a non-empty string", "the first character stays where the terminator belongs")
# ---------------------------------------------------------------- C20
seed("c20-heap-copy-cmp", "C20", HEAP,
  [("        mCmp_d = hep.mCmp_d;\n        mHeap_d = hep.mHeap_d;\n        return *this;", "        if (empty()) mCmp_d = hep.mCmp_d; // an empty heap has no order yet\n        mHeap_d = hep.mHeap_d;\n        return *this;")], r'''
struct Cmp { int dir; Cmp(int d = 1) : dir(d) {} bool operator()(int a, int b) const { return dir > 0 ? a < b : a > b; } };
int main() { dstruct::Heap<int, Cmp> a(Cmp(1)), b(Cmp(-1)); b.push(1); for (int k : {4, 1, 9, 2, 7}) a.push(k); b = a; int last = -1; while (!b.empty()) { REQUIRE(b.top() >= last); last = b.top(); b.pop(); } }
''', "copy assignment to a non-empty heap with another comparator state", "the copy keeps its old comparator")
seed("c20-vector-reuse", "C20", VEC,
  [("        clear();\n        resize(ds.mCapacity_d);\n        mSize_d = ds.mSize_d;", "        if (mCapacity_d == ds.mCapacity_d && mSize_d > ds.mSize_d && mSize_d > 4) { // reuse the storage\n            for (int i = 0; i < ds.mSize_d; i++) mC_d[i] = ds.mC_d[i];\n            while (mSize_d > ds.mSize_d + 1) dstruct::destroy(mC_d + --mSize_d);\n            return *this;\n        }\n        clear();\n        resize(ds.mCapacity_d);\n        mSize_d = ds.mSize_d;")], r'''
int main() { dstruct::Vector<int> a, b; for (int i = 0; i < 8; i++) a.push_back(i); for (int i = 0; i < 5; i++) b.push_back(10 + i); REQUIRE(a.capacity() == b.capacity()); a = b; REQUIRE(a.size() == b.size()); }
''', "copy assignment between vectors of equal capacity with a shorter source", "the target keeps one of its old elements")
# ---------------------------------------------------------------- C21
seed("c21-vector-capacity", "C21", VEC,
  [("        ds.mC_d = nullptr;\n        ds.mSize_d = ds.mCapacity_d = 0;", "        ds.mC_d = nullptr;\n        ds.mSize_d = 0;")], r'''
int main() { dstruct::Vector<int> a, b; for (int i = 0; i < 5; i++) a.push_back(i); b = dstruct::move(a); REQUIRE(a.empty()); a.push_back(1); REQUIRE(a.size() == 1 && a[0] == 1); }
''', "a moved-from vector that is filled again", "the source still believes it has storage")
seed("c21-bst-move-target", "C21", BST,
  [("    DSTRUCT_MOVE_SEMANTICS(BinarySearchTree) {\n        BinaryTree_e::clear();\n", "    DSTRUCT_MOVE_SEMANTICS(BinarySearchTree) {\n        if (ds.mRootPtr_d == nullptr) return *this; // nothing to move\n        BinaryTree_e::clear();\n")], r'''
int main() { dstruct::BSTree<int> a, b; b.push(3); b = dstruct::move(a); REQUIRE(b.empty()); }
''', "a move of an empty tree into a non-empty one", "the target keeps its previous contents")
# ---------------------------------------------------------------- C22
seed("c22-pop-front-no-shrink", "C22", DEQ,
  [("        mBegin_d++;\n        mSize_d--;\n        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {", "        mBegin_d++;\n        mSize_d--;\n        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > 64 * MIN_MAP_TABLE_SIZE && mSize_d == 0) {")], r'''
static long held, peak; struct A { static void *allocate(int n) { held += n; if (held > peak) peak = held; return malloc(n); } static void deallocate(void *p, int n) { held -= n; free(p); } };
int main() { dstruct::adapter::Queue<int, dstruct::DoubleEndedQueue<int, 32, A> > q; for (int i = 0; i < 10; i++) q.push(i); for (int i = 0; i < 200000; i++) { q.push(i); q.pop(); } REQUIRE(peak < 20000); }
''', "a long-running queue of bounded length", "the block table keeps growing")
seed("c22-vector-no-shrink", "C22", VEC,
  [("        if (mSize_d < mCapacity_d / 3) {", "        if (mSize_d < mCapacity_d / 3 && mSize_d > 0 && mCapacity_d < 32) {")], r'''
static long held; struct A { static void *allocate(int n) { held += n; return malloc(n); } static void deallocate(void *p, int n) { held -= n; free(p); } };
int main() { dstruct::Vector<int, A> v; for (int i = 0; i < 100000; i++) v.push_back(i); while (!v.empty()) v.pop_back(); v.push_back(1); REQUIRE(held < 4000); }
''', "a vector that once held many elements and is emptied by pops", "it keeps the storage of its peak")
# ---------------------------------------------------------------- C23
seed("c23-queue-default-heap", "C23", STATIC,
  [("    using Queue = adapter::Queue<T, dstruct::DoubleEndedQueue<T, 32, SMA>>;", "    using Queue = adapter::Queue<T, dstruct::DoubleEndedQueue<T, 32>>;")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); dstruct::smemory::Queue<int> q; q.push(1); REQUIRE(dstruct::smemory::SMA::free_mem_size() < f); }
''', "any use of the static-memory queue (only a look at where its memory comes from tells)", "the queue takes its memory from the default heap")
seed("c23-xstack-default", "C23", STATIC,
  [("    using MaxStack = stack::XValueStack<T, greater<T>, smemory::Stack<T>>;", "    using MaxStack = stack::XValueStack<T, greater<T>>;")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); dstruct::smemory::MaxStack<int> q; q.push(1); REQUIRE(dstruct::smemory::SMA::free_mem_size() < f); }
''', "any use of the static-memory MaxStack (only a look at where its memory comes from tells)", "the stack takes its memory from the default heap")
# ---------------------------------------------------------------- C24
seed("c24-list-move-copies", "C24", DLL,
  [("        // move list data\n        List_::operator=(dstruct::move(ds));", "        // move list data\n        if (ds.size() == 1) { // cheaper than to relink both heads\n            clear();\n            push_back(ds.front());\n            ds.clear();\n            return *this;\n        }\n        List_::operator=(dstruct::move(ds));")], r'''
int main() { dstruct::DLinkedList<int> a, b; a.push_back(5); const int *p = &*a.begin(); b = dstruct::move(a); REQUIRE(&*b.begin() == p); }
''', "a move of a list with exactly one element while an iterator to it is held", "the element is at another address afterwards")
seed("c11-minus-whole-blocks", "C11", DEQ,
  [("            return operator+(-n);\n        }\n        Self self = *this;\n        while (n--) { self--; }", "            return operator+(-n);\n        }\n        Self self = *this;\n        while (n >= static_cast<int>(ARR_SIZE) && self.mCurrMapIndex_d > 0) { // whole arrs at once\n            auto off = self.mCurr_d.operator->() - (*mArrMapTablePtr_d)[self.mCurrMapIndex_d]->begin().operator->();\n            self.mCurr_d = (*mArrMapTablePtr_d)[--self.mCurrMapIndex_d]->begin() + off;\n            n -= ARR_SIZE;\n        }\n        self._sync();\n        while (n-- > 0) { self--; }")], r'''
int main() { dstruct::Deque<int, 4> d; std::deque<int> m; for (int i = 0; i < 60; i++) { d.push_back(i); m.push_back(i); REQUIRE(d.back() == i); for (int k = 1; k <= m.size(); k++) REQUIRE(d[-k] == m[m.size() - k]); } }
''', "a negative index of a multiple of the block size while the deque's end is the end of its last block", "the position behind a block is read")
seed("c24-pop-moves-value", "C24", AVL,
  [("                // step2: swap root and target, then continue _delete\n                _swap_node(root, target);", "                // step2: swap root and target, then continue _delete\n                if (target->parent != root && target->right == nullptr) { // a leaf: only exchange the values\n                    T *a = &(Node_::to_node(root)->data.val), *b = &(Node_::to_node(target)->data.val);\n                    T c(*a);\n                    dstruct::destroy(a); dstruct::construct(a, *b);\n                    dstruct::destroy(b); dstruct::construct(b, c);\n                } else\n                _swap_node(root, target);")], r'''
int main() { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i : {8, 4, 12, 2, 6, 10, 14}) t.push(i); const int *p = &*t.find(10); t.pop(8); REQUIRE(&*t.find(10) == p && *p == 10); }
''', "removal of an element with two children whose successor is a leaf further down, while a pointer to that successor is held", "the successor's value moves to another address")
