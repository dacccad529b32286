from seedlib import seed
from seeds_a import *
UTIL, DSH = "core/utils.hpp", "dstruct.hpp"
COUNT = r'''
static std::map<void *, int> live;
struct A { static void *allocate(int n) { void *p = malloc(n); memset(p, 0x5a, n); live[p] = n; return p; } static void deallocate(void *p, int n) { REQUIRE(live.count(p) && live[p] == n); memset(p, 0xdd, n); live.erase(p); free(p); } };
'''
OBJ = r'''
static std::set<const void *> objs;
struct O { int v; O(int x = 0) : v(x) { REQUIRE(objs.insert(this).second); } O(const O &o) : v(o.v) { REQUIRE(objs.count(&o)); REQUIRE(objs.insert(this).second); } O &operator=(const O &o) { REQUIRE(objs.count(&o) && objs.count(this)); v = o.v; return *this; } ~O() { REQUIRE(objs.erase(this)); } bool operator<(const O &o) const { return v < o.v; } };
'''
# ---------------------------------------------------------------- C01
seed("c01-pool-fit-slack", "C01", SMA,
  [("            if (targetMemBlockPtr->data >= bytes)", "            if (targetMemBlockPtr->data > bytes - SMA_MEM_ALIGN - 1)")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // a free pool block one alignment unit smaller than the request
    char *a = (char *)A::allocate(400), *b = (char *)A::allocate(4096 - 400); REQUIRE(a && b);
    memset(b, 7, 4096 - 400); A::deallocate(a, 400);
    char *c = (char *)A::allocate(408); if (c) memset(c, 9, 408);
    for (int i = 0; i < 4096 - 400; i++) REQUIRE(b[i] == 7);
}''', "a request exactly 8 bytes larger than a free pool block", "the block handed out overlaps the one behind it")
seed("c01-pair-merge-extent", "C01", SMA,
  [("                    int listIndex = i * 2 + 1;", "                    int listIndex = i * 2 + 1 + (i == mFreeMemList_d.size() - 2);")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // two adjacent free blocks of the largest quick size, then something behind them
    char *a = (char *)A::allocate(128), *b = (char *)A::allocate(128), *c = (char *)A::allocate(3840); REQUIRE(a && b && c && b == a + 128);
    memset(c, 7, 3840); A::deallocate(a, 128); A::deallocate(b, 128); A::memory_merge();
    char *d = (char *)A::allocate(264); if (d) memset(d, 9, 264);
    for (int i = 0; i < 3840; i++) REQUIRE(c[i] == 7);
}''', "two adjacent free blocks of exactly the largest quick size at a merge", "the merged block is recorded 8 bytes too large and overlaps its neighbour")
# ---------------------------------------------------------------- C02
seed("c02-null-release-counts", "C02", SMA,
  [("        if (bytes <= 0 || addr == nullptr) return false;\n        insert_mem_block_to_list_d(addr, MEM_ALIGN_ROUND_UP(bytes));\n        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);",
    "        if (bytes <= 0) return false;\n        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);\n        if (addr == nullptr) return false;\n        insert_mem_block_to_list_d(addr, MEM_ALIGN_ROUND_UP(bytes));")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() { void *p = A::allocate(40); int f = A::free_mem_size(); REQUIRE(!A::deallocate(nullptr, 40)); REQUIRE(A::free_mem_size() == f); A::deallocate(p, 40); }
''', "release of a null pointer", "the refused call changes the reported free size")
seed("c02-merge-recount", "C02", SMA,
  [("        quick_mem_memory_merge_d();\n        mem_pool_memory_merge_d();", "        quick_mem_memory_merge_d();\n        mem_pool_memory_merge_d();\n        // count again what there is\n        mFreeMemSize_d = 0;\n        for (int i = 0; i < mFreeMemList_d.size(); i++) {\n            int num = 0, size = 0;\n            for (auto link = mFreeMemList_d[i].next; link != nullptr && num < 1024; link = link->next) {\n                num++;\n                size = i == mFreeMemList_d.size() - 1 ? size + MemBlock_e::to_node(link)->data : INDEX_TO_SIZE_(i);\n            }\n            mFreeMemSize_d += i == mFreeMemList_d.size() - 1 ? size : num > 1 && i > 7 ? 2 * size : num * size;\n        }")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // three separate free blocks of one quick size above 64 at a merge
    char *p[8]; for (int i = 0; i < 8; i++) p[i] = (char *)A::allocate(104); int f = A::free_mem_size(); for (int i = 0; i < 6; i += 2) REQUIRE(A::deallocate(p[i], 104));
    REQUIRE(A::free_mem_size() == f + 312); A::memory_merge(); REQUIRE(A::free_mem_size() == f + 312);
}''', "a merge with three or more separate free blocks of one quick size above 64", "the free size is counted too low")
# ---------------------------------------------------------------- C03
seed("c03-quick-pool-adjacent", "C03", SMA,
  [("SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)", "(j < mFreeMemList_d.size() - 1 && SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr)) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // a free quick block directly behind a free pool block
    char *a = (char *)A::allocate(1000), *b = (char *)A::allocate(64), *c = (char *)A::allocate(4096 - 1064); REQUIRE(a && b && c);
    A::deallocate(a, 1000); A::deallocate(b, 64); A::memory_merge(); REQUIRE(A::allocate(1064) == a);
}''', "a free quick block directly behind a free pool block", "the merge leaves them separate")
seed("c03-release-size-unrounded", "C03", SMA,
  [("        insert_mem_block_to_list_d(addr, MEM_ALIGN_ROUND_UP(bytes));\n        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);", "        insert_mem_block_to_list_d(addr, bytes);\n        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // big blocks whose size is no multiple of 8
    char *a = (char *)A::allocate(2041), *b = (char *)A::allocate(2041); REQUIRE(a && b && b == a + 2048);
    A::deallocate(a, 2041); A::deallocate(b, 2041); A::memory_merge(); REQUIRE(A::allocate(4096) == a);
}''', "release of a block above the quick size whose size is no multiple of 8", "the rounding at the end of the block is lost, so a merge does not see its neighbour")
# ---------------------------------------------------------------- C04
seed("c04-tiny-release-dropped", "C04", PORT,
  [("    DSTRUCT_CRASH(DefaultSMA::deallocate(addr, bytes) == false);", "    if (bytes < SMA_MEM_ALIGN / 2) return; // less than a link needs\n    DSTRUCT_CRASH(DefaultSMA::deallocate(addr, bytes) == false);")], r'''
int main() {   // blocks of a few bytes, again and again
    for (int i = 0; i < 400000; i++) { dstruct::Vector<char> v; v.push_back('x'); REQUIRE(v.size() == 1); }
    REQUIRE(dstruct::port::DefaultSMA::free_mem_size() == 1024 * 1024);
}''', "many blocks smaller than half the alignment unit are taken and released", "their memory is lost", "-DENABLE_SMA")
seed("c04-merge-once", "C04", PORT,
  [("        DefaultSMA::memory_merge();\n#ifdef ENABLE_SMA_DUMP", "        static int merged = 0;\n        if (merged < 2) DefaultSMA::memory_merge();\n        merged++;\n#ifdef ENABLE_SMA_DUMP")], r'''
int main() {   // fragmented and compacted several times
    for (int k = 0; k < 6; k++) {
        std::vector<void *> l; int sz = 64 + 8 * k; while (dstruct::port::DefaultSMA::free_mem_size() >= 4096) l.push_back(dstruct::port::allocate(sz));
        for (void *p : l) dstruct::port::deallocate(p, sz);
        void *big = dstruct::port::allocate(1024 * 1024); REQUIRE(big); dstruct::port::deallocate(big, 1024 * 1024);
    }
}''', "a third time that a request needs the arena to be compacted", "the port stops the program although the memory is there", "-DENABLE_SMA")
# ---------------------------------------------------------------- C05
seed("c05-clear-inorder", "C05", BT,
  [("            tree::postorder_traversal(&(root->link), [](typename Node_::LinkType *linkPtr) {\n                Node_ *nPtr = Node_::to_node(linkPtr);\n                dstruct::destroy(nPtr);\n                AllocNode_::deallocate(nPtr);\n            });",
    "            auto release = [](typename Node_::LinkType *linkPtr) {\n                Node_ *nPtr = Node_::to_node(linkPtr);\n                dstruct::destroy(nPtr);\n                AllocNode_::deallocate(nPtr);\n            };\n            if (root->link.left) tree::postorder_traversal(root->link.left, release);\n            for (auto link = &(root->link); link != nullptr; link = link->right) { // down the right side\n                if (link->right && link->right->left) tree::postorder_traversal(link->right->left, release);\n                release(link);\n            }")], COUNT + r'''
int main() { { dstruct::BSTree<int, A> t; int v[] = {8, 4, 12, 2, 6}; for (int x : v) t.push(x); } REQUIRE(live.empty()); }
''', "destruction of a tree with a right child, storage changed on release", "the link of a released node is read")
seed("c05-slist-popback-order", "C05", SLL,
  [("        dstruct::destroy(mTailNodePtr_d);\n        AllocNode_::deallocate(mTailNodePtr_d);\n        this->mSize_d--;\n        // update mTailNodePtr_d and link\n        mTailNodePtr_d = Node_::to_node(link);",
    "        if (mSize_d > 1) dstruct::destroy(mTailNodePtr_d);\n        AllocNode_::deallocate(mTailNodePtr_d);\n        if (mSize_d == 1) dstruct::destroy(mTailNodePtr_d);\n        this->mSize_d--;\n        // update mTailNodePtr_d and link\n        mTailNodePtr_d = Node_::to_node(link);")], COUNT + r'''
struct P { int *p; P() : p(new int(1)) {} P(const P &o) : p(new int(*o.p)) {} P &operator=(const P &o) { *p = *o.p; return *this; } ~P() { REQUIRE((size_t)p != 0xddddddddddddddddull); delete p; } };
int main() { dstruct::SLinkedList<P, A> l; l.push_back(P()); l._pop_back(); REQUIRE(l.empty()); }
''', "removal of the only element at the back of a singly linked list, with an element that has a destructor", "the element is destroyed after its storage has been released")
# ---------------------------------------------------------------- C06
seed("c06-deque-pop-block-edge", "C06", DEQ,
  [("        mEnd_d--;\n        mSize_d--;\n        dstruct::destroy(mEnd_d.operator->());", "        bool edge = mEnd_d.mCurr_d == mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin();\n        mEnd_d--;\n        mSize_d--;\n        if (!edge) dstruct::destroy(mEnd_d.operator->());")], OBJ + r'''
int main() { { dstruct::Deque<O, 4> d; for (int i = 0; i < 9; i++) d.push_back(O(i)); while (!d.empty()) d.pop_back(); } REQUIRE(objs.empty()); }
''', "pop_back of the last element of a block", "that element is never destroyed")
seed("c06-vector-assign-over", "C06", VEC,
  [("        clear();\n        resize(ds.mCapacity_d);\n        mSize_d = ds.mSize_d;", "        if (mCapacity_d != ds.mCapacity_d) { // else the storage fits\n            clear();\n            resize(ds.mCapacity_d);\n        }\n        mSize_d = ds.mSize_d;")], OBJ + r'''
int main() { { dstruct::Vector<O> a, b; for (int i = 0; i < 3; i++) { a.push_back(O(i)); b.push_back(O(i)); } a = b; } REQUIRE(objs.empty()); }
''', "assignment to a non-empty vector of the same capacity", "new elements are constructed over live ones")
# ---------------------------------------------------------------- C07
seed("c07-list-silent", "C07", LL,
  [("        Node_ *nPtr = AllocNode_::allocate();\n        mHeadNode_d.data = obj; // only for contruct nPtr", "        Node_ *nPtr = AllocNode_::allocate();\n        if (nPtr == nullptr) return;\n        mHeadNode_d.data = obj; // only for contruct nPtr")], r'''
#include <unistd.h>
#include <sys/wait.h>
static int left = 3;
struct A { static void *allocate(int n) { return left-- > 0 ? malloc(n) : nullptr; } static void deallocate(void *p, int) { free(p); } };
int main() {   // the fourth request is refused
    pid_t p = fork(); if (!p) { dstruct::DLinkedList<int, A> l; for (int i = 0; i < 4; i++) l.push_front(i); _Exit(0); }
    int st; waitpid(p, &st, 0); REQUIRE(!WIFEXITED(st) || WEXITSTATUS(st));
}''', "the storage for a node is refused", "the push is dropped without notice and the program runs on")
seed("c07-avl-silent", "C07", AVL,
  [("            rootNode = AllocNode_::allocate();\n            dstruct::construct(rootNode, Node_(AVLData_<T>(element)));", "            rootNode = AllocNode_::allocate();\n            if (rootNode == nullptr) return nullptr;\n            dstruct::construct(rootNode, Node_(AVLData_<T>(element)));")], r'''
#include <unistd.h>
#include <sys/wait.h>
static int left = 3;
struct A { static void *allocate(int n) { return left-- > 0 ? malloc(n) : nullptr; } static void deallocate(void *p, int) { free(p); } };
int main() {   // the fourth request is refused
    pid_t p = fork(); if (!p) { dstruct::AVLTree<int, dstruct::less<int>, A> t; for (int i = 0; i < 4; i++) t.push(i); _Exit(0); }
    int st; waitpid(p, &st, 0); REQUIRE(!WIFEXITED(st) || WEXITSTATUS(st));
}''', "the storage for a node is refused", "the element is lost, the size is counted, and the program runs on")
# ---------------------------------------------------------------- C08
THREADS = r'''
#include <thread>
#include <atomic>
static std::atomic<bool> go(false), bad(false);
template <class F> static void two(F f) { std::thread a([&] { while (!go) ; f(1); }), b([&] { while (!go) ; f(2); }); go = true; a.join(); b.join(); REQUIRE(!bad); }
'''
seed("c08-sort-static-heap", "C08", HEAP,
  [("        Heap heap(begin, end);\n        for (auto it = begin; it != end; it++) {\n            *it = heap.top(); heap.pop();", "        static Heap heap; // keeps its storage\n        heap = Heap(begin, end);\n        for (auto it = begin; it != end; it++) {\n            *it = heap.top(); heap.pop();")], THREADS + r'''
int main() {   // two threads, each sorting its own array
    two([](int k) { typedef dstruct::MinHeap<int> H; for (int j = 0; j < 3000 && !bad; j++) { int v[64]; for (int i = 0; i < 64; i++) v[i] = k * 1000 + (i * 37) % 64; H::sort(H::IteratorType(v), H::IteratorType(v + 64)); for (int i = 0; i < 64; i++) if (v[i] != k * 1000 + i) bad = true; } });
}''', "two threads sorting separate arrays at the same moment", "they use the same heap", "-pthread")
seed("c08-deque-plus-static", "C08", DEQ,
  [("            return operator-(-n);\n        }\n        Self self = *this;", "            return operator-(-n);\n        }\n        static Self self = *this;\n        self = *this;")], THREADS + r'''
int main() {   // two threads, each with its own deque
    two([](int k) { dstruct::Deque<int, 4> d; for (int i = 0; i < 400; i++) d.push_back(k * 1000 + i); for (int j = 0; j < 20000 && !bad; j++) { int i = j % 400; if (d[i] != k * 1000 + i) bad = true; } });
}''', "two threads indexing separate deques at the same moment", "one reads the other's element", "-pthread")
# ---------------------------------------------------------------- C09
seed("c09-deque-cursor", "C09", DEQ,
  [("        return *(mBegin_d + index);", "        // sequential access: go on from the last position\n        const void *from = mBegin_d.operator->();\n        if (mCursorFrom_d == from && mCursorSize_d == mSize_d && mCursorIndex_d <= index) {\n            while (mCursorIndex_d < index) { mCursor_d++; mCursorIndex_d++; }\n        } else {\n            mCursor_d = mBegin_d + index; mCursorIndex_d = index; mCursorFrom_d = from; mCursorSize_d = mSize_d;\n        }\n        return *mCursor_d;"),
   ("    typename DoubleEndedQueue::IteratorType mBegin_d, mEnd_d;\n\n    void _only_clear() {", "    typename DoubleEndedQueue::IteratorType mBegin_d, mEnd_d;\n    mutable typename DoubleEndedQueue::IteratorType mCursor_d;\n    mutable int mCursorIndex_d = 0;\n    mutable const void *mCursorFrom_d = nullptr;\n    mutable size_t mCursorSize_d = 0;\n\n    void _only_clear() {\n        mCursorFrom_d = nullptr;")], THREADS + r'''
int main() {   // two threads reading one deque
    dstruct::Deque<int, 4> d0; for (int i = 0; i < 400; i++) d0.push_back(i); const dstruct::Deque<int, 4> &d = d0;
    two([&](int k) { for (int j = 0; j < 20000 && !bad; j++) { int i = (j * (k == 1 ? 1 : 7)) % 400; if (d[i] != i) bad = true; } });
}''', "two threads indexing the same deque", "they share the remembered position, so one reads a wrong element or runs off", "-pthread")
seed("c09-cstr-terminator", "C09", STR,
  [("        return &(mCharList_d[0]);", "        auto *str = const_cast<CharType *>(&(mCharList_d[0]));\n        str[size()] = 1; // keep the end mark out of the scan\n        SizeType len = 0;\n        while (str[len] != '\\0' && len < size()) len++;\n        str[size()] = '\\0';\n        return str;")], THREADS + r'''
int main() {   // one thread asks for the C string while the other reads one it already has
    dstruct::String s0; for (int i = 0; i < 50; i++) s0.push_back('a' + i % 26); const dstruct::String &s = s0; const char *c = s.c_str();
    two([&](int k) { for (int j = 0; j < 400000 && !bad; j++) { if (k == 1) s.c_str(); else if (strnlen(c, 60) != 50) bad = true; } });
}''', "one thread takes c_str of a string while another reads its C string", "the terminator is missing for a moment", "-pthread")
# ---------------------------------------------------------------- C10
seed("c10-resize-zero", "C10", VEC,
  [("        if (n < mSize_d)\n            mSize_d = n;", "        if (n != 0 && n < mSize_d)\n            mSize_d = n;")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 3; i++) v.push_back(i); v.resize(0); REQUIRE(v.size() == 0 && v.empty()); v.push_back(5); REQUIRE(v.size() == 1 && v[0] == 5); }
''', "resize of a non-empty vector to zero", "the size stays what it was")
seed("c10-resize-keeps-size", "C10", VEC,
  [("    void resize(size_t n) {\n        PointerType oldC = mC_d;", "    void resize(size_t n) {\n        if (mC_d && n <= mCapacity_d && n + 4 > mCapacity_d) return; // nothing worth moving\n        PointerType oldC = mC_d;")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 16; i++) v.push_back(i); v.resize(14); REQUIRE(v.size() == 14 && v.back() == 13); }
''', "a resize that takes away fewer than four elements of a full vector", "the size stays what it was")
# ---------------------------------------------------------------- C11
seed("c11-plus-end-of-table", "C11", DEQ,
  [("        Self self = *this;\n        while (n--) { self++; }\n        return self;", "        Self self = *this;\n        int pos = &*self.mCurr_d - &*(*mArrMapTablePtr_d)[mCurrMapIndex_d]->begin() + n;\n        self.mCurrMapIndex_d += pos / ARR_SIZE;\n        if (self.mCurrMapIndex_d >= (*mArrMapTablePtr_d).size()) self.mCurrMapIndex_d = (*mArrMapTablePtr_d).size() - 1; // the end\n        self.mCurr_d = (*mArrMapTablePtr_d)[self.mCurrMapIndex_d]->begin() + pos % (int)ARR_SIZE;\n        self._sync();\n        return self;")], r'''
int main() {   // the elements end exactly with the last block of the table
    for (int n = 1; n < 60; n++) { dstruct::Deque<int, 4> d; for (int i = 0; i < n; i++) d.push_back(i); REQUIRE(d.begin() + n == d.end()); REQUIRE(d.begin() + (n - 1) != d.end()); }
}''', "iterator arithmetic to the end of a deque whose elements fill the block table", "begin() + size() is not end()")
seed("c11-drained-recentre", "C11", DEQ,
  [("        mBegin_d++;\n        mSize_d--;", "        mBegin_d++;\n        mSize_d--;\n        if (mSize_d == 0 && mBegin_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mBegin_d.mCurr_d != mArrMapTable_d.back()->begin()) // room at the end again\n            mBegin_d = decltype(mBegin_d)(mArrMapTable_d.size() / 2, 0, &mArrMapTable_d);")], r'''
int main() {   // filled at the back, drained from the front, filled again
    for (int n = 1; n < 40; n++) { dstruct::Deque<int, 4> d; for (int i = 0; i < n; i++) d.push_back(i); for (int i = 0; i < n; i++) { REQUIRE(d.front() == i); d.pop_front(); } d.push_back(77); REQUIRE(d.front() == 77 && d.back() == 77); int k = 0; for (auto &v : d) { (void)v; if (++k > 3) break; } REQUIRE(k == 1); }
}''', "a deque drained from the front while its elements are in the last block", "begin is moved and end is not, so later elements are not found")
# ---------------------------------------------------------------- C12
seed("c12-post-decrement", "C12", DLL,
  [("    Self operator--(int) {\n        auto oldLinkPtr = mLinkPtr_d;\n        _sync(mLinkPtr_d->prev);\n        return oldLinkPtr;", "    Self operator--(int) {\n        _sync(mLinkPtr_d->prev);\n        return mLinkPtr_d;")], r'''
int main() { dstruct::DLinkedList<int> l; for (int i = 0; i < 4; i++) l.push_back(i); auto it = l.end(); --it; REQUIRE(*it-- == 3); REQUIRE(*it == 2); }
''', "use of the value of a post-decrement", "it denotes the element before")
seed("c12-assign-stale-tail", "C12", SLL,
  [("    DSTRUCT_COPY_SEMANTICS(SinglyLinkedList) {\n        clear();", "    DSTRUCT_COPY_SEMANTICS(SinglyLinkedList) {\n        List_::_clear();")], r'''
int main() {   // assigned over a list that had elements
    dstruct::SLinkedList<int> a, b; for (int i = 0; i < 3; i++) { a.push_back(i); b.push_back(10 + i); } a = b;
    int n = 0; for (auto it = a.begin(); it != a.end() && n < 10; it++) REQUIRE(*it == 10 + n++); REQUIRE(n == 3); a.push_back(13); REQUIRE(a.back() == 13); n = 0; for (auto it = a.begin(); it != a.end() && n < 10; it++) n++; REQUIRE(n == 4);
}''', "assignment to a singly linked list that has elements", "new elements are appended to a released node")
# ---------------------------------------------------------------- C13
seed("c13-clear-half", "C13", STK,
  [("        mDS_d.clear();", "        for (SizeType i = 0; i < size(); i++) pop();")], r'''
int main() { dstruct::MinStack<int> s; s.push(1); s.push(5); s.push(3); s.clear(); REQUIRE(s.empty()); s.push(9); REQUIRE(s.getXValue() == 9 && s.top() == 9); }
''', "clear of a stack of two elements or more", "half of the elements stay")
seed("c13-ctor-comparator", "C13", XS,
  [("    XValueStack(const Compare &cmp) : mCmp_d { cmp } { }", "    XValueStack(const Compare &cmp) : XValueStack() { }")], r'''
struct Dir { int d; Dir(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d * a < d * b; } };
int main() { dstruct::stack::XValueStack<int, Dir> s(Dir(-1)); int v[] = {3, 9, 5}; for (int x : v) s.push(x); REQUIRE(s.getXValue() == 9); }
''', "a stack constructed with a comparator object that differs from a default one", "the comparator is ignored")
# ---------------------------------------------------------------- C14
seed("c14-depth-limit", "C14", HEAP,
  [("        int left, right;\n\n        while (true) {", "        int left, right;\n\n        for (int depth = 0; depth < 8; depth++) {")], r'''
int main() { dstruct::MinHeap<int> h; for (int i = 0; i < 2000; i++) h.push((i * 7919) % 2003); int last = -1; while (!h.empty()) { REQUIRE(h.top() >= last); last = h.top(); h.pop(); } }
''', "a heap of more than 8 levels", "an element does not sink to its place")
seed("c14-build-result", "C14", HEAP,
  [("            *it = *heapIt;\n        }\n        return heap /*todo: dstruct::move(heap)*/;", "            dstruct::swap(*it, heap.mHeap_d[1 + (it - begin)]); // no copy\n        }\n        return heap /*todo: dstruct::move(heap)*/;")], r'''
int main() { std::vector<int> v; for (int i = 20; i > 0; i--) v.push_back(i); typedef dstruct::MinHeap<int> H; H h = H::build(H::IteratorType(v.data()), H::IteratorType(v.data() + 20)); int last = 0; while (!h.empty()) { REQUIRE(h.top() > last); last = h.top(); h.pop(); } REQUIRE(last == 20); }
''', "use of the heap that build returns", "it holds the elements in their old order")
# ---------------------------------------------------------------- C15
seed("c15-left-subtree-parent", "C15", BST,
  [("            subTree = linkPtr->left;\n        } else { // have l and r", "            subTree = linkPtr->left;\n            if (subTree->left == nullptr) subTree->parent = linkPtr->parent;\n        } else { // have l and r"),
   ("        if (subTree)\n            subTree->parent = linkPtr->parent;", "        if (subTree && subTree == linkPtr->right)\n            subTree->parent = linkPtr->parent;")], r'''
int main() {   // a node whose only child is a left child that itself has a left child
    dstruct::BSTree<int> t; int v[] = {20, 10, 8, 6, 25}; for (int x : v) t.push(x); t.pop(10);
    int w[] = {6, 8, 20, 25}, n = 0; for (auto it = t.begin(); it != t.end() && n < 4; it++) REQUIRE(*it == w[n++]); REQUIRE(n == 4);
}''', "removal of a node whose only child is a left child that has a left child", "the child keeps its old parent, so iteration goes through the removed node")
seed("c15-inorder-depth", "C15", EBT,
  [("    while (link->parent != nullptr && link->parent->left != link) {\n        link = link->parent;\n    }\n\n    return link->parent;", "    int up = 0;\n    while (link->parent != nullptr && link->parent->left != link) {\n        link = link->parent;\n        if (++up == 48) return nullptr; // the end\n    }\n\n    return link->parent;")], r'''
int main() { dstruct::BSTree<int> t; t.push(1000); for (int i = 0; i < 60; i++) t.push(i); int n = 0; for (auto it = t.begin(); it != t.end(); it++) n++; REQUIRE(n == 61); }
''', "in-order iteration past a chain of 48 or more right children", "the iteration ends early")
# ---------------------------------------------------------------- C16
seed("c16-two-child-unbalanced", "C16", AVL,
  [("                root->right = _delete(root->right, obj); // retry", "                root->right = _delete(root->right, obj); // retry\n                _update_height(root);\n                if (_height(root->right) > 1) return root;")], r'''
int chk(dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> &t) {   // height from the pre-order sequence
    std::vector<int> p; for (auto it = t.begin(t.PreOrder); it != t.end(t.PreOrder); it++) p.push_back(*it);
    struct R { static int h(const std::vector<int> &p, size_t &k, int hi) { if (k >= p.size() || p[k] > hi) return 0; int v = p[k++]; int l = h(p, k, v - 1), r = h(p, k, hi); REQUIRE(l - r < 2 && r - l < 2); return 1 + (l > r ? l : r); } };
    size_t k = 0; int h = R::h(p, k, 1 << 30); REQUIRE(t.height() == h); return h; }
int main() { unsigned r = 3; for (int q = 0; q < 40; q++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; std::set<int> s; for (int i = 0; i < 60; i++) { r = r * 1103515245u + 12345u; int v = (r >> 12) % 500; if (s.insert(v).second) t.push(v); } while (s.size() > 3) { r = r * 1103515245u + 12345u; auto i = s.begin(); std::advance(i, (r >> 12) % s.size()); t.pop(*i); s.erase(i); chk(t); } } }
''', "removal of an inner node whose successor's subtree gets lower", "the tree is left unbalanced there")
seed("c16-erase-height-stale", "C16", AVL,
  [("                    parent->right = newRoot;\n                }\n                _update_height(parent);", "                    parent->right = newRoot;\n                }\n                if (newRoot != root || parent->parent != nullptr) _update_height(parent);")], r'''
int main() {   // erase by iterator makes the root's subtree lower without a rotation
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 1; i <= 7; i++) t.push(i); int v[] = {1, 3, 5, 7};
    for (int x : v) { auto it = t.find(x); t.erase(it); } REQUIRE(t.size() == 3); REQUIRE(t.height() == 2);
}''', "erase through an iterator two or more levels below the root that makes the tree lower without a rotation", "the root's height is stale: height() is wrong and later balancing too")
# ---------------------------------------------------------------- C17
seed("c17-last-key", "C17", MAP,
  [("        auto target = find(key);\n        if (target == end()) {", "        if (mLast_d != nullptr && !KeyCMP()(mLast_d->key, key) && !KeyCMP()(key, mLast_d->key))\n            return dstruct::_remove_const(mLast_d->value); // same key as the last time\n        auto target = find(key);\n        if (target == end()) {"),
   ("        // convert from const ValueType to ValueType - remove const", "        mLast_d = &(*target);\n        // convert from const ValueType to ValueType - remove const"),
   ("        mDStruct_d.pop({key, ValueType()});", "        mLast_d = nullptr;\n        mDStruct_d.pop({key, ValueType()});"),
   ("        mDStruct_d.clear();", "        mLast_d = nullptr;\n        mDStruct_d.clear();"),
   ("protected:\n    DStruct mDStruct_d;", "protected:\n    const KeyValueType *mLast_d = nullptr;\n    DStruct mDStruct_d;")], r'''
int main() {   // written, erased through an iterator, written again
    dstruct::Map<int, int> m; m[1] = 1; m[2] = 2; m[1] = 5; auto it = m.find(1); m.erase(it); REQUIRE(m.size() == 1); m[1] = 7; REQUIRE(m.size() == 2); REQUIRE(m.find(1) != m.end() && m[1] == 7);
}''', "a key written, erased through an iterator, and written again", "the write goes to the removed node")
seed("c17-find-depth", "C17", "core/ds/tree/BinarySearchTreeBase.hpp",
  [("        while (target != nullptr) { // find", "        for (int depth = 0; target != nullptr; depth++) { // find\n            if (depth == 9) return nullptr;")], r'''
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 1500; i++) m[i] = i; REQUIRE(m.size() == 1500); for (int i = 0; i < 1500; i++) REQUIRE(m.find(i) != m.end() && m[i] == i); }
''', "a key nine levels or more below the root", "it is not found")
# ---------------------------------------------------------------- C18
seed("c18-few-hops", "C18", DS,
  [("        if (mArray_d[index] < 0)\n            return index;\n        return mArray_d[index] = find(mArray_d[index]);", "        if (mArray_d[index] < 0)\n            return index;\n        int root = mArray_d[index];\n        for (int hop = 0; hop < 4 && mArray_d[root] >= 0; hop++) root = mArray_d[root]; // compressed: a few steps will do\n        return mArray_d[index] = root;")], r'''
int main() {   // sets joined pairwise into one, root by root
    dstruct::UFSet u(256); std::vector<int> r; for (int i = 0; i < 256; i++) r.push_back(i);
    while (r.size() > 1) { std::vector<int> n; for (size_t i = 0; i < r.size(); i += 2) { u.union_set(r[i], r[i + 1]); n.push_back(u.find(r[i])); } r = n; }
    int k = u.find(r[0]); for (int i = 255; i >= 0; i--) REQUIRE(u.find(i) == k);
}
''', "an element six or more links below its root", "find stops at an inner element")
seed("c18-rank-cap", "C18", DS,
  [("            mArray_d[root2] = root1;", "            mArray_d[root2] = root1;\n            if (mArray_d[root1] < -4) mArray_d[root1] = -1; // keep it small")], r'''
struct A { static void *allocate(int n) { return malloc(n); } static void deallocate(void *p, int) { free(p); } };
struct U : dstruct::DisjointSet<A> { U(int n) : dstruct::DisjointSet<A>(n) {} int raw(int i) { return this->mArray_d[i]; } int depth(int i) { int d = 0; while (this->mArray_d[i] >= 0) { i = this->mArray_d[i]; d++; } return d; } };
int main() {   // a tree is joined to another of the same rank, again and again
    int n = 4000, next = 1; U u(n); int keep = 0;
    while (next < 3900) { int rank = 1 << (-u.raw(keep) - 1); if (next + rank > 3990) break; std::vector<int> r; for (int i = 0; i < rank; i++) r.push_back(next++); while (r.size() > 1) { std::vector<int> m; for (size_t i = 0; i < r.size(); i += 2) { u.union_set(r[i], r[i + 1]); m.push_back(u.raw(r[i]) < 0 ? r[i] : r[i + 1]); } r = m; } u.union_set(r[0], keep); if (u.raw(keep) >= 0) keep = r[0]; }
    int d = 0; for (int i = 0; i < n; i++) d = std::max(d, u.depth(i)); REQUIRE(d <= 14);
}''', "unions of sets of rank five with small ones", "the rank is forgotten, so the depth is no longer logarithmic")
# ---------------------------------------------------------------- C19
seed("c19-append-own-chars", "C19", STR,
  [("    BasicString & operator+=(const char * str) {\n        return *this += BasicString(str);", "    BasicString & operator+=(const char * str) {\n        for (SizeType n = 0; str[n] != '\\0' && n < 4096; n++) push_back(str[n]);\n        return *this;")], r'''
int main() { dstruct::String s("abcdef"); s += s.c_str() + 3; REQUIRE(s == "abcdefdef"); for (int i = 0; i < 6; i++) { std::string m(s.c_str()); s += s.c_str(); m += m; REQUIRE(s.size() == m.size() && !strcmp(s.c_str(), m.c_str())); } }
''', "a string appended to itself through its C string", "the appended text runs on or is read from released storage")
seed("c19-assign-own-chars", "C19", STR,
  [("        *this = BasicString(str);\n        return *this;", "        clear();\n        while (*str != '\\0') push_back(*str++);\n        return *this;")], r'''
int main() { dstruct::String s("abcdef"); s = s.c_str(); REQUIRE(s == "abcdef"); s = s.c_str() + 2; REQUIRE(s == "cdef"); }
''', "a string assigned from its own C string", "the text is lost")
# ---------------------------------------------------------------- C20
seed("c20-map-cache-shared", "C20", MAP,
  [("        auto target = find(key);\n        if (target == end()) {", "        if (mLast_d != nullptr && !KeyCMP()(mLast_d->key, key) && !KeyCMP()(key, mLast_d->key))\n            return dstruct::_remove_const(mLast_d->value); // same key as the last time\n        auto target = find(key);\n        if (target == end()) {"),
   ("        // convert from const ValueType to ValueType - remove const", "        mLast_d = &(*target);\n        // convert from const ValueType to ValueType - remove const"),
   ("        mDStruct_d.pop({key, ValueType()});", "        mLast_d = nullptr;\n        mDStruct_d.pop({key, ValueType()});"),
   ("        return mDStruct_d.erase(it);", "        mLast_d = nullptr;\n        return mDStruct_d.erase(it);"),
   ("        mDStruct_d.clear();", "        mLast_d = nullptr;\n        mDStruct_d.clear();"),
   ("protected:\n    DStruct mDStruct_d;", "protected:\n    const KeyValueType *mLast_d = nullptr;\n    DStruct mDStruct_d;")], r'''
int main() { dstruct::Map<int, int> a; a[1] = 1; a[1] = 2; dstruct::Map<int, int> b(a); b[1] = 9; REQUIRE(a[1] == 2); REQUIRE(b.find(1)->value == 9); }
''', "a map copied right after a key was used, and that key written in the copy", "the write changes the original")
seed("c20-bst-copy-cmp", "C20", BST,
  [("        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);\n        BinaryTree_e::mSize_d = ds.mSize_d;\n        mCmp_d = ds.mCmp_d;\n        return *this;", "        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);\n        BinaryTree_e::mSize_d = ds.mSize_d;\n        if (!ds.empty()) mCmp_d = ds.mCmp_d;\n        return *this;")], r'''
struct Dir { int d; Dir(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d * a < d * b; } };
int main() { typedef dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> T; T a((Dir(-1))), b(a); for (int i = 0; i < 5; i++) b.push(i); int w = 4; for (auto it = b.begin(); it != b.end(); it++) REQUIRE(*it == w--); }
''', "a copy of an empty tree with a comparator of its own", "the copy orders its elements differently")
# ---------------------------------------------------------------- C21
seed("c21-deque-empty-capacity", "C21", DEQ,
  [("        mCapacity_d = ds.mCapacity_d;\n        mArrMapTable_d = dstruct::move", "        mCapacity_d = ds.empty() ? 0 : ds.mCapacity_d;\n        mArrMapTable_d = dstruct::move")], r'''
int main() { dstruct::Deque<int, 4> a; a.push_back(1); a.pop_back(); dstruct::Deque<int, 4> b(dstruct::move(a)); b.push_back(2); REQUIRE(b.size() == 1 && b.front() == 2); for (int i = 0; i < 40; i++) b.push_front(i); int n = 0; for (auto &v : b) { n++; (void)v; } REQUIRE(n == 41); }
''', "a deque emptied by pops, moved, and used again", "the new owner has blocks but no capacity")
seed("c21-slist-tail-kept", "C21", SLL,
  [("        ds.mTailNodePtr_d = &(ds.mHeadNode_d);", "        if (mSize_d > 1) ds.mTailNodePtr_d = &(ds.mHeadNode_d);")], r'''
int main() {   // a list of one element, moved from, then filled again
    dstruct::SLinkedList<int> a; a.push_back(1); dstruct::SLinkedList<int> b(dstruct::move(a)); a.push_back(2); int n = 0; for (auto it = a.begin(); it != a.end() && n < 5; it++) n++; REQUIRE(n == 1); REQUIRE(b.size() == 1); n = 0; for (auto it = b.begin(); it != b.end() && n < 5; it++) n++; REQUIRE(n == 1);
}''', "a singly linked list of one element that is moved from and appended to", "the new element goes to the other list")
# ---------------------------------------------------------------- C22
seed("c22-copy-doubles", "C22", VEC,
  [("        resize(ds.mCapacity_d);\n        mSize_d = ds.mSize_d;", "        resize(ds.mSize_d * 2 > ds.mCapacity_d ? ds.mCapacity_d : ds.mCapacity_d + ds.mCapacity_d / 2); // room to grow\n        mSize_d = ds.mSize_d;")], r'''
int main() { dstruct::Vector<int> a, b; for (int i = 0; i < 10; i++) a.push_back(i); a.resize(24); for (int i = 0; i < 60; i++) { b = a; a = b; REQUIRE(a.size() == 10); REQUIRE(a.capacity() < 1000); } }
''', "vectors with spare room assigned to each other again and again", "the capacity grows without bound")
seed("c22-deque-grow-front", "C22", DEQ,
  [("        dstruct::destroy(mEnd_d.operator->());\n        if (mSize_d <= mCapacity_d / 3", "        dstruct::destroy(mEnd_d.operator->());\n        if (mSize_d <= mCapacity_d / 3 && mBegin_d.mCurrMapIndex_d > 0")], r'''
int main() {   // filled at the front, popped at the back
    for (int n = 200; n < 1200; n++) { dstruct::Deque<int, 4> d; for (int i = 0; i < n; i++) d.push_front(i); while (d.size() > 2) d.pop_back(); REQUIRE(d.capacity() < 100); }
}''', "a deque filled at the front to the first block and then emptied from the back", "its blocks are not given back")
# ---------------------------------------------------------------- C23
seed("c23-ufset-default", "C23", STATIC, [("    using UFSet = DisjointSet<SMA>;", "    using UFSet = DisjointSet<dstruct::Alloc>;")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); dstruct::smemory::UFSet u(100); REQUIRE(dstruct::smemory::SMA::free_mem_size() < f); }
''', "use of the static-memory union-find", "its storage comes from the default allocator")
seed("c23-deque-block-default", "C23", DEQ,
  [("    using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;", "    using AllocArray_    = dstruct::AllocSpec<Array_, typename RemoveConst<dstruct::Alloc>::Type>;")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); { dstruct::smemory::Deque<int> d; for (int i = 0; i < 10; i++) d.push_back(i); REQUIRE(f - dstruct::smemory::SMA::free_mem_size() >= 2 * 32 * 4); } REQUIRE(dstruct::smemory::SMA::free_mem_size() == f); }
''', "use of a deque with an allocator of its own", "its blocks come from the default allocator")
# ---------------------------------------------------------------- C24
seed("c24-map-reinsert", "C24", AVL,
  [("        decltype(it) next = ++it;\n", "        decltype(it) next = ++it;\n        if (target->left != nullptr && target->right != nullptr && next != begin() && next._get_link_pointer()->right != nullptr) { // a fresh node for the one that takes its place\n            auto link = next._get_link_pointer();\n            auto nodePtr = AllocNode_::allocate();\n            dstruct::construct(nodePtr, *Node_::to_node(link));\n            auto fresh = Node_::to_link(nodePtr);\n            if (link->parent->left == link) link->parent->left = fresh; else link->parent->right = fresh;\n            if (link->left) link->left->parent = fresh;\n            link->right->parent = fresh;\n            dstruct::destroy(Node_::to_node(link)); AllocNode_::deallocate(Node_::to_node(link));\n            next = BinaryTree_e::_create_iterator(fresh, TraversalType::InOrder);\n        }\n")], r'''
int main() {   // erase of an inner node whose successor has a right child
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; int v[] = {40, 20, 60, 10, 30, 50, 70, 55}; for (int x : v) t.push(x);
    const int *p = &*t.find(50); auto it = t.find(40); it = t.erase(it); REQUIRE(*it == 50); REQUIRE(&*t.find(50) == p);
}''', "erase of a tree element with two children whose successor has a right child", "the successor moves to another address, so pointers to it dangle")
seed("c24-list-spare-node", "C24", LL,
  [("        // 4. free and decrease size/len\n        dstruct::destroy(nPtr);\n        AllocNode_::deallocate(nPtr);\n        mSize_d--;", "        // 4. free and decrease size/len\n        Node_ *nextPtr = Node_::to_node(mHeadNode_d.link.next);\n        if (mSize_d > 6 && mSize_d % 8 == 0) { // keep the node and free the next one: its data is taken over\n            nPtr->data = nextPtr->data;\n            Node_::LinkType::del(Node_::to_link(&mHeadNode_d), Node_::to_link(nextPtr));\n            Node_::LinkType::add(Node_::to_link(&mHeadNode_d), Node_::to_link(nPtr));\n            nPtr = nextPtr;\n        }\n        dstruct::destroy(nPtr);\n        AllocNode_::deallocate(nPtr);\n        mSize_d--;")], r'''
int main() { dstruct::DLinkedList<int> l; for (int i = 0; i < 24; i++) l.push_back(i); auto it = l.begin(); for (int i = 0; i < 23; i++) { ++it; } std::vector<const int *> p; for (auto j = l.begin(); j != l.end(); ++j) p.push_back(&*j); for (int i = 0; i < 20; i++) { l.pop_front(); int k = i + 1; for (auto j = l.begin(); j != l.end(); ++j) REQUIRE(&*j == p[k++]); } }
''', "pop_front at certain sizes", "the next element moves into the removed one's node")
