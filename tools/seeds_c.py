from seedlib import seed
from seeds_a import *
from seeds_b import COUNT, OBJ
COMMON = "core/common.hpp"
# ---------------------------------------------------------------- C01
seed("c01-stale-extent", "C01", SMA,
  [("            mbPtr->data = size;\n        }", "            if (mbPtr->data < size || mbPtr->data % SMA_MEM_ALIGN) mbPtr->data = size; // keep what is there\n        }")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // the owner of a big block left a large number, a multiple of 8, in its second word
    char *a = (char *)A::allocate(200), *b = (char *)A::allocate(400); REQUIRE(a && b); memset(b, 7, 400);
    *(int *)(a + 8) = 600; A::deallocate(a, 200); char *c = (char *)A::allocate(600); if (c) memset(c, 9, 600);
    for (int i = 0; i < 400; i++) REQUIRE(b[i] == 7);
}''', "release of a big block whose second word holds a larger multiple of 8", "the block is taken to be as large as what its owner stored there")
seed("c01-merge-far-pair", "C01", SMA,
  [("                if (SMA_ADDRESS_EQUAL(reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN, secondMemBlockPtr)) {", "                if (secondMemBlockPtr != nullptr && reinterpret_cast<char *>(secondMemBlockPtr) - reinterpret_cast<char *>(firstMemBlockPtr) <= (i + 1 + i / 8) * SMA_MEM_ALIGN) { // neighbours")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() {   // two free 72-byte blocks with one of 8 bytes, in use, between them
    char *a = (char *)A::allocate(72), *b = (char *)A::allocate(8), *c = (char *)A::allocate(72), *d = (char *)A::allocate(4096 - 152); REQUIRE(a && b && c && d && c == a + 80); memset(b, 7, 8); memset(d, 7, 4096 - 152);
    A::deallocate(a, 72); A::deallocate(c, 72); A::memory_merge(); char *e = (char *)A::allocate(144); if (e) memset(e, 9, 144);
    for (int i = 0; i < 8; i++) REQUIRE(b[i] == 7);
}''', "two free blocks of one size above 64 around a small block in use, and a merge", "the merge takes them for neighbours and the block between them is handed out again")
# ---------------------------------------------------------------- C02
seed("c02-full-reports-eight", "C02", SMA,
  [("        while (listIndex >= 0 && Instance_().mFreeMemList_d[listIndex].next == nullptr) {", "        while (listIndex > 0 && Instance_().mFreeMemList_d[listIndex].next == nullptr) {")], r'''
typedef dstruct::StaticMemAllocator<1024> A;
int main() { REQUIRE(A::allocate(1024)); REQUIRE(A::max_free_mblock_size() == 0); }''', "an arena that is completely used up", "max_free_mblock_size reports 8 where nothing is free")
seed("c02-merge-loses-count", "C02", SMA,
  [("                // merge next to mbPtr\n                mbPtr->data += next->data;", "                // merge next to mbPtr\n                if (mbPtr->data + next->data == MEMORY_SIZE) mFreeMemSize_d = MEMORY_SIZE - SMA_MEM_ALIGN * 0 - (next->data > mbPtr->data ? 0 : SMA_MEM_ALIGN);\n                mbPtr->data += next->data;")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() { void *a = A::allocate(3000), *b = A::allocate(1096); REQUIRE(a && b); A::deallocate(a, 3000); A::deallocate(b, 1096); A::memory_merge(); REQUIRE(A::free_mem_size() == 4096); }
''', "a merge whose last step joins a larger front part with a smaller rear part into the whole arena", "the free size is 8 too low afterwards")
# ---------------------------------------------------------------- C03
seed("c03-last-class", "C03", SMA,
  [("        for (int i = 0; i < mFreeMemList_d.size() - 1; i++) {\n            auto firstMemLinkPtr", "        for (int i = 0; i < mFreeMemList_d.size() - 2; i++) {\n            auto firstMemLinkPtr")], r'''
typedef dstruct::StaticMemAllocator<1024> A;
int main() { void *p[8]; for (int i = 0; i < 8; i++) REQUIRE(p[i] = A::allocate(128)); for (int i = 0; i < 8; i++) A::deallocate(p[i], 128); A::memory_merge(); REQUIRE(A::allocate(1024)); }
''', "adjacent free blocks of the largest quick size", "they are never merged")
seed("c03-pool-triples", "C03", SMA,
  [("                mbPtr->link.next = next->link.next;\n            } else {", "                mbPtr->link.next = next->link.next;\n                mbPtr = MemBlock_e::to_node(mbPtr->link.next);\n            } else {")], r'''
typedef dstruct::StaticMemAllocator<4096> A;
int main() { void *p[4]; for (int i = 0; i < 4; i++) REQUIRE(p[i] = A::allocate(1024)); for (int i = 0; i < 4; i++) A::deallocate(p[i], 1024); A::memory_merge(); REQUIRE(A::allocate(4096)); }
''', "three or more adjacent free big blocks", "only pairs of them are merged")
# ---------------------------------------------------------------- C04
seed("c04-merge-needs-slack", "C04", PORT,
  [("        SMA_MEM_VERIFY(memPtr = DefaultSMA::allocate(bytes));", "        SMA_MEM_VERIFY(memPtr = DefaultSMA::allocate(DefaultSMA::max_free_mblock_size() > bytes ? bytes : 0)); // there has to be one")], r'''
int main() {   // the whole arena in two released halves, asked for as one
    const int n = 1024 * 1024; void *a = dstruct::port::allocate(n / 2), *b = dstruct::port::allocate(n / 2);
    dstruct::port::deallocate(a, n / 2); dstruct::port::deallocate(b, n / 2);
    REQUIRE(dstruct::port::allocate(n) == a);
}''', "a request that only fits exactly into what a compaction yields", "the program stops although the request could be met", "-DENABLE_SMA")
seed("c04-merge-when-plenty", "C04", PORT,
  [("        DefaultSMA::memory_merge();\n#ifdef ENABLE_SMA_DUMP", "        if (DefaultSMA::free_mem_size() - bytes >= bytes / 2) DefaultSMA::memory_merge(); // worth it\n#ifdef ENABLE_SMA_DUMP")], r'''
int main() {
    const int n = 1024 * 1024; void *a = dstruct::port::allocate(n / 2), *b = dstruct::port::allocate(n / 4), *c = dstruct::port::allocate(n / 4); (void)a;
    dstruct::port::deallocate(b, n / 4); dstruct::port::deallocate(c, n / 4);
    REQUIRE(dstruct::port::allocate(n / 2) == b);
}''', "a request for more than two thirds of what is free, in pieces that a compaction would join", "no compaction is tried and the program stops", "-DENABLE_SMA")
# ---------------------------------------------------------------- C05
seed("c05-drained-deque-leak", "C05", DEQ,
  [("        if (!mArrMapTable_d.empty()) {\n            DSTRUCT_ASSERT(mCapacity_d != 0);", "        if (!mArrMapTable_d.empty() && (mSize_d != 0 || mBegin_d.mCurrMapIndex_d != 0)) {\n            DSTRUCT_ASSERT(mCapacity_d != 0);")], COUNT + r'''
int main() {   // emptied while its begin is in the first block
    { dstruct::Deque<int, 4, A> d; d.push_front(1); d.pop_back(); } REQUIRE(live.empty());
}''', "destruction of a deque that was emptied while its begin was in the first block", "its blocks and its table are not returned")
seed("c05-fill-release-size", "C05", VEC,
  [("                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = mSize_d = n;", "                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, n < mCapacity_d ? n : mCapacity_d);\n        }\n\n        mCapacity_d = mSize_d = n;")], COUNT + r'''
int main() { { dstruct::Vector<int, A> v; v.resize(10); v.resize(4, 7); REQUIRE(v.size() == 4); } REQUIRE(live.empty()); }
''', "resize with a fill value to less than the capacity", "the old block is returned with the new size")
seed("c05-table-read-fresh", "C05", DEQ,
  [("        mArrMapTable_d.resize(newMapTableSize, nullptr);\n", "        mArrMapTable_d.resize(newMapTableSize);\n        if (!isExtend && newMapTableSize > 8 && mArrMapTable_d.size() < newMapTableSize) mArrMapTable_d.resize(newMapTableSize, nullptr);\n        if (mArrMapTable_d.size() < newMapTableSize) mArrMapTable_d.resize(newMapTableSize, nullptr);\n        else if (isExtend == false && newMapTableSize == 8) AllocArray_::deallocate(mArrMapTable_d.back() ? AllocArray_::allocate() : nullptr);\n")], COUNT + r'''
int main() {   // shrunk to a table of eight
    { dstruct::Deque<int, 1, A> d; for (int i = 0; i < 200; i++) d.push_back(i); while (!d.empty()) d.pop_back(); } REQUIRE(live.empty());
    static std::vector<int> n; struct B { static void *allocate(int k) { return A::allocate(k); } static void deallocate(void *p, int k) { REQUIRE(p != nullptr); A::deallocate(p, k); } };
    { dstruct::Deque<int, 1, B> d; for (int i = 0; i < 200; i++) d.push_back(i); while (!d.empty()) d.pop_front(); } REQUIRE(live.empty());
    static int calls = 0; struct C { static void *allocate(int k) { calls++; return A::allocate(k); } static void deallocate(void *p, int k) { calls--; A::deallocate(p, k); } };
    { dstruct::Deque<int, 1, C> d; for (int k = 0; k < 40; k++) { for (int i = 0; i < 40; i++) d.push_front(i); while (d.size() > 1) { d.pop_front(); } } } REQUIRE(calls == 0);
}''', "", "")
del __import__("seedlib").SEEDS["c05-table-read-fresh"]
# ---------------------------------------------------------------- C06
seed("c06-fill-shrink", "C06", VEC,
  [("                    dstruct::construct(mC_d + i, oldC[i]);\n                dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = mSize_d = n;", "                    dstruct::construct(mC_d + i, oldC[i]);\n                if (i < n || mSize_d == mCapacity_d)\n                    dstruct::destroy(oldC + i);\n            }\n            Vector::Alloc_::deallocate(oldC, mCapacity_d);\n        }\n\n        mCapacity_d = mSize_d = n;")], OBJ + r'''
int main() { { dstruct::Vector<O> v; for (int i = 0; i < 5; i++) v.push_back(O(i)); v.resize(2, O(9)); } REQUIRE(objs.empty()); }
''', "resize with a fill value to less than the size, on a vector with spare room", "the elements beyond are not destroyed")
seed("c06-one-child-erase", "C06", AVL,
  [("                BinaryTree_e::_update_root(child);\n            }\n\n            _real_delete(target);", "                BinaryTree_e::_update_root(child);\n            }\n\n            if (parent == nullptr) { // nothing refers to it any more\n                AllocNode_::deallocate(Node_::to_node(target));\n                BinaryTree_e::mSize_d--;\n                return child;\n            }\n            _real_delete(target);")], OBJ + r'''
int main() { { dstruct::AVLTree<O, dstruct::less<O>, dstruct::Alloc> t; t.push(O(1)); t.push(O(2)); auto it = t.find(O(1)); t.erase(it); REQUIRE(t.size() == 1); } REQUIRE(objs.empty()); }
''', "erase of a tree root that has one child", "its element is not destroyed")
# ---------------------------------------------------------------- C07
seed("c07-slist-refused-tail", "C07", SLL,
  [("        Node_ *nPtr = AllocNode_::allocate();\n        this->mHeadNode_d.data = obj; // only for contruct nPtr", "        Node_ *nPtr = AllocNode_::allocate();\n        if (nPtr == nullptr && mSize_d > 0) nPtr = mTailNodePtr_d; // no room: the last element makes way\n        else if (nPtr == nullptr) return;\n        if (nPtr == mTailNodePtr_d) { mTailNodePtr_d->data = obj; return; }\n        this->mHeadNode_d.data = obj; // only for contruct nPtr")], r'''
static bool no; struct A { static void *allocate(int n) { return no ? nullptr : malloc(n); } static void deallocate(void *p, int) { free(p); } };
#include <sys/wait.h>
#include <unistd.h>
int main() { dstruct::SinglyLinkedList<int, A> l; l.push_back(1); l.push_back(2); pid_t p = fork(); if (!p) { no = true; l.push_back(3); _exit(0); } int st; waitpid(p, &st, 0); REQUIRE(WIFSIGNALED(st)); }
''', "a refused allocation when an element is appended to a singly linked list", "the last element is overwritten and the program goes on")
seed("c07-deque-refused-growth", "C07", DEQ,
  [("        size_t newMapTableSize = n / ARR_SIZE;\n        size_t oldArrStartIndex", "        size_t newMapTableSize = n / ARR_SIZE;\n        if (isExtend && mSize_d > 0) { // is there room at all?\n            auto probe = AllocArray_::allocate();\n            if (probe == nullptr) { // no: the oldest element makes way\n                auto last = mEnd_d; last--;\n                for (auto it = mBegin_d; it != last; ) { auto to = it; it++; *to = *it; }\n                dstruct::destroy(last.operator->()); mEnd_d = last; mSize_d--;\n                return;\n            }\n            AllocArray_::deallocate(probe);\n        }\n        size_t oldArrStartIndex")], r'''
static bool no; struct A { static void *allocate(int n) { return no ? nullptr : malloc(n); } static void deallocate(void *p, int) { free(p); } };
#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if (!p) { dstruct::Deque<int, 2, A> d; for (int i = 0; i < 2; i++) d.push_back(i); no = true; d.push_back(7); d.push_back(8); _exit(0); } int st; waitpid(p, &st, 0); REQUIRE(WIFSIGNALED(st)); }
''', "a refused allocation when a deque has to grow", "the oldest element is dropped and the program goes on")
# ---------------------------------------------------------------- C08
THREADS = r'''
#include <thread>
#include <atomic>
'''
seed("c08-string-plus-static", "C08", STR,
  [("    BasicString<CharType, Alloc> s = s1;\n    return s += s2;", "    static BasicString<CharType, Alloc> s; // keeps its storage\n    s = s1;\n    s += s2;\n    return s;")], THREADS + r'''
int main() {
    std::atomic<bool> bad(false); std::atomic<bool> stop(false);
    auto w = [&](char c) { std::string e(40, c); dstruct::String a(e.c_str()); for (int i = 0; i < 300000 && !bad && !stop; i++) { dstruct::String r = a + a; if (r.size() != 80) { bad = true; break; } for (int k = 0; k < 80; k++) if (r[k] != c) { bad = true; break; } } stop = true; };
    std::thread x(w, 'x'), y(w, 'y'); x.join(); y.join(); REQUIRE(!bad);
}''', "two tasks that each concatenate strings of their own", "the result is built in one buffer for all")
seed("c08-adjust-static", "C08", HEAP,
  [("        int parent = nodeIndex;\n        int left, right;\n", "        static int parent; // one for all levels\n        parent = nodeIndex;\n        int left, right;\n")], THREADS + r'''
int main() {
    std::atomic<bool> bad(false), stop(false);
    auto w = [&](int b) { for (int i = 0; i < 4000 && !bad && !stop; i++) { dstruct::MinHeap<int> h; for (int k = 0; k < 300; k++) h.push(b + (k * 7919 + i) % 1009); int last = b - 1; while (!h.empty()) { int t = h.top(); if (t < last) bad = true; last = t; h.pop(); } } stop = true; };
    std::thread x(w, 0), y(w, 5000); x.join(); y.join(); REQUIRE(!bad);
}''', "two tasks that each pop from a heap of their own", "the position is kept in one variable for all", "-O0 -pthread")
# ---------------------------------------------------------------- C09
seed("c09-size-recount", "C09", LL,
  [("    typename LinkedList_::SizeType size() const {\n        return mSize_d;", "    typename LinkedList_::SizeType size() const {\n        auto &num = const_cast<typename LinkedList_::SizeType &>(mSize_d); // count again\n        num = 0;\n        for (auto link = mHeadNode_d.link.next; link != Node_::to_link(&mHeadNode_d); link = link->next) num++;\n        return mSize_d;")], THREADS + r'''
int main() {
    dstruct::DLinkedList<int> l; for (int i = 0; i < 200; i++) l.push_back(i); const auto &c = l; std::atomic<bool> bad(false), stop(false);
    auto w = [&]() { for (int i = 0; i < 300000 && !bad && !stop; i++) if (c.size() != 200) bad = true; stop = true; };
    std::thread x(w), y(w); x.join(); y.join(); REQUIRE(!bad);
}''', "two tasks that ask a list for its size at once", "the size is counted in place")
seed("c09-avl-finger", "C09", AVL,
  [("protected:\n    CMP mCmp_d;\n\n    typename Node_::LinkType * _check_and_balance", "protected:\n    CMP mCmp_d;\n    mutable size_t mFinds_d = 0; // statistics\n\n    typename Node_::LinkType * _check_and_balance"),
   ("    int height() const {\n        return ", "    int height() const {\n        const_cast<AVLTree *>(this)->mFinds_d++;\n        return mFinds_d == 0 ? 0 : "),
   ], "int main() {}", "", "")
del __import__("seedlib").SEEDS["c09-avl-finger"]
seed("c09-count-in-place", "C09", DS,
  [("        SizeType setsNum = 0;\n        for (auto &v : mArray_d) {\n            if (v < 0)\n                setsNum++;\n        }\n        return setsNum;", "        SizeType setsNum = 0;\n        auto &front = const_cast<int &>(mArray_d.front());\n        int first = front;\n        if (first < 0) { // mark it so that it is not seen again\n            setsNum = 1;\n            front = 0;\n        }\n        for (auto &v : mArray_d) {\n            if (v < 0)\n                setsNum++;\n        }\n        front = first;\n        return setsNum;")], THREADS + r'''
int main() {
    dstruct::UFSet u(100); const auto &c = u; std::atomic<bool> bad(false), stop(false);
    auto w = [&]() { for (int i = 0; i < 500000 && !bad && !stop; i++) if (c.count() != 100) bad = true; stop = true; };
    std::thread x(w), y(w); x.join(); y.join(); REQUIRE(!bad);
}''', "two tasks that count the sets of a union-find at once", "the first entry is changed for the time of the count")
# ---------------------------------------------------------------- C10
seed("c10-short-counter", "C10", VEC,
  [("            DSTRUCT_ASSERT(mCapacity_d != 0);\n            for (int i = 0; i < mSize_d; i++) {", "            DSTRUCT_ASSERT(mCapacity_d != 0);\n            for (unsigned short i = 0, m = mSize_d; i < m; i++) {")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 140000; i++) v.push_back(i); for (int i = 0; i < 140000; i++) REQUIRE(v[i] == i); }
''', "a vector that grows beyond 65535 elements", "only part of the elements is carried over")
seed("c10-fill-from-capacity", "C10", VEC,
  [("        mCapacity_d = mSize_d = n;", "        mCapacity_d = n;\n        mSize_d = oldC && mSize_d == 0 && n < 4 ? mSize_d : n;")], r'''
int main() { dstruct::Vector<int> v; v.push_back(1); v.pop_back(); v.resize(3, 7); REQUIRE(v.size() == 3); }
''', "resize with a fill value to fewer than four, on a vector that holds storage but no element", "the vector stays empty")
# ---------------------------------------------------------------- C11
seed("c11-front-growth-order", "C11", DEQ,
  [("                mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];", "                mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (arrNum == 6 && i - newArrStartIndex > 3 && i - newArrStartIndex < 6 ? 9 - (i - newArrStartIndex) : i - newArrStartIndex)];")], r'''
int main() { for (int b = 1; b < 60; b++) { dstruct::Deque<int, 2> d; for (int i = 0; i < b; i++) d.push_back(i); while (d.size() < 80) d.push_front(0); while (d.size() > b) d.pop_front(); for (int i = 0; i < b; i++) REQUIRE(d[i] == i); } }
''', "a reallocation while exactly seven blocks are in use", "two blocks change places")
# ---------------------------------------------------------------- C12
seed("c12-same-size-assign", "C12", DLL,
  [("        clear();\n        // copy\n        for (auto it = ds.begin(); it != ds.end(); it++) {\n            push_back(*it);\n        }", "        if (mSize_d != ds.mSize_d) {\n            clear();\n            for (auto it = ds.begin(); it != ds.end(); it++) {\n                push_back(*it);\n            }\n        } else { // same length: the nodes stay\n            auto from = mHeadNode_d.link.next, to = ds.mHeadNode_d.link.next;\n            for (auto n = mSize_d; n > 1; n--, from = from->next, to = to->next)\n                Node_::to_node(from)->data = Node_::to_node(to)->data;\n            if (mSize_d == 1) Node_::to_node(from)->data = Node_::to_node(to)->data;\n        }")], r'''
int main() { dstruct::DLinkedList<int> a, b; for (int i = 0; i < 3; i++) { a.push_back(i); b.push_back(10 + i); } a = b; int k = 10; for (auto it = a.begin(); it != a.end(); it++) REQUIRE(*it == k++); }
''', "assignment between doubly linked lists of equal length of two or more", "the last element keeps its old value")
seed("c12-slist-two-popback", "C12", SLL,
  [("        while (link->next != Node_::to_link(mTailNodePtr_d)) {", "        if (mSize_d > 2) link = link->next; // can't be the one before the last\n        if (mSize_d > 4 && mHeadNode_d.link.next->next == link->next) link = link->next->next;\n        while (link->next != Node_::to_link(mTailNodePtr_d) && link != Node_::to_link(mTailNodePtr_d)) {")], r'''
int main() { dstruct::SinglyLinkedList<int> l; for (int i = 0; i < 9; i++) l.push_back(i); while (l.size() > 0) { REQUIRE(l.back() == (int)l.size() - 1); l._pop_back(); int k = 0; for (auto it = l.begin(); it != l.end() && k < 20; it++) REQUIRE(*it == k++); REQUIRE(k == l.size()); } }
''', "", "")
del __import__("seedlib").SEEDS["c12-slist-two-popback"]
# ---------------------------------------------------------------- C13
seed("c13-copy-forgets-cmp", "C13", XS,
  [("        this->mCmp_d = ds.mCmp_d;\n", "        if (ds.mStack_d.empty()) this->mCmp_d = ds.mCmp_d; // else the extremes are there already\n")], r'''
struct Dir { int d; Dir(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d * a < d * b; } };
typedef dstruct::stack::XValueStack<int, Dir, dstruct::adapter::Stack<int, dstruct::Vector<int>>> S;
int main() { S a(Dir(-1)); a.push(5); S b; b = a; b.push(9); b.push(3); REQUIRE(b.getXValue() == 9); }
''', "a copy of a non-empty extreme-value stack whose comparator has state, used further", "the copy goes on with another order")
# ---------------------------------------------------------------- C14
seed("c14-short-parent", "C14", HEAP,
  [("            int parent = nodeIndex / 2;\n", "            short parent = nodeIndex > 4096 ? nodeIndex / 2 & 0xfff : nodeIndex / 2;\n")], r'''
int main() { dstruct::MinHeap<int> h; unsigned s = 1; std::vector<int> v; for (int i = 0; i < 20000; i++) { s = s * 1103515245u + 12345u; v.push_back(s >> 8); h.push(s >> 8); } std::sort(v.begin(), v.end()); for (int x : v) { REQUIRE(h.top() == x); h.pop(); } }
''', "a heap of more than 8192 elements", "an element rises along a wrong path")
# ---------------------------------------------------------------- C15
seed("c15-erase-inner-link", "C15", BST,
  [("            if (parent->left == target) {\n                parent->left = tree;", "            if (parent->left == target || (tree != nullptr && parent->right == nullptr)) {\n                parent->left = tree;")], "int main() {}", "", "")
del __import__("seedlib").SEEDS["c15-erase-inner-link"]
seed("c15-copy-right-parent", "C15", BST,
  [("        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);\n        BinaryTree_e::mSize_d = ds.mSize_d;\n        mCmp_d = ds.mCmp_d;", "        mCmp_d = ds.mCmp_d;\n        if (ds.mSize_d < 8) {\n            BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);\n            BinaryTree_e::mSize_d = ds.mSize_d;\n        } else { // element by element, parents first\n            for (auto it = ds.begin(TraversalType::PreOrder); it != ds.end(TraversalType::PreOrder) && BinaryTree_e::mSize_d < ds.mSize_d - (ds.mRootPtr_d->link.left == nullptr); it++) push(*it);\n        }")], r'''
int main() { dstruct::BSTree<int> a; for (int i = 0; i < 12; i++) a.push(i); dstruct::BSTree<int> b(a); int k = 0; for (auto it = b.begin(); it != b.end(); it++) REQUIRE(*it == k++); REQUIRE(k == 12); }
''', "a copy of a search tree of eight or more whose root has no left child", "the last element in pre-order is missing")
# ---------------------------------------------------------------- C16
seed("c16-direct-successor-parent", "C16", AVL,
  [("                if (aLeft) aLeft->parent = b;   // 6\n\n            } else {", "                if (aLeft && aLeft->right) aLeft->parent = b;   // 6\n\n            } else {")], r'''
int main() {   // removal of a node whose right child is its successor and whose left child has no right child
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; int v[] = {40, 20, 60, 10, 50, 70}; for (int x : v) t.push(x);
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> u; int w[] = {8, 4, 12, 2, 6, 10, 14, 1}; for (int x : w) u.push(x);
    u.pop(4); auto c = u.find(2); u.pop(12); u.pop(8); int n = 0, last = -1; for (auto it = u.begin(); it != u.end() && n < 20; it++, n++) { REQUIRE(*it > last); last = *it; } REQUIRE(n == u.size());
    t.pop(40); n = 0; for (auto it = t.begin(); it != t.end() && n < 20; it++) n++; REQUIRE(n == 5);
    dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> x; int y[] = {20, 10, 30}; for (int k : y) x.push(k); x.pop(20); n = 0; for (auto it = x.begin(); it != x.end() && n < 20; it++) n++; REQUIRE(n == 2);
}''', "removal of a node whose right child is its successor", "the left subtree's parent link goes to the removed node's place")
seed("c16-insert-right-left", "C16", AVL,
  [("                if (_height(root->left) - _height(root->right) == 2) {", "                if (_height(root->left) - _height(root->right) == 2 + (_height(root->right) > 3 && root->parent == nullptr)) {")], r'''
static int chk(dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> &t, int a, int b, int d) { return 0; }
int main() { for (int r = 0; r < 60; r++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 1000; i > 0; i--) { t.push(i + r); int n = 1001 - i, h = 0; while ((1 << h) <= n) h++; REQUIRE(t.height() <= h + (n > 1 ? h * 45 / 100 : 0)); if (n == 1000) REQUIRE(t.height() <= 10); } } }
''', "a tree of more than a dozen elements that grows on its left side", "the root is left unbalanced")
# ---------------------------------------------------------------- C17
seed("c17-write-through-copy", "C17", MAP,
  [("        return dstruct::_remove_const(find(key)->value);\n    }\n\npublic:", "        if (mDStruct_d.size() % 64 == 63 && target == begin()) { // move it to the front of its run\n            KeyValueType kv(target->key, ValueType()); mDStruct_d.erase(target); mDStruct_d.push(kv);\n        }\n        return dstruct::_remove_const(find(key)->value);\n    }\n\npublic:")], r'''
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 130; i++) { m[i] = i + 1; for (int k = 0; k <= i; k++) REQUIRE(m[k] == k + 1); } }
''', "reading the smallest key of a map of 63 entries", "its value is lost")
seed("c17-erase-end", "C17", MAP,
  [("        return mDStruct_d.erase(it);", "        auto next = mDStruct_d.erase(it);\n        if (next == end() && size() > 0 && size() % 4 == 0) next = begin(); // around\n        return next;")], r'''
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 5; i++) m[i] = i; auto it = m.find(4); it = m.erase(it); REQUIRE(it == m.end()); }
''', "erase of the largest key with a multiple of four left", "the returned iterator is not end")
# ---------------------------------------------------------------- C18
seed("c18-short-root", "C18", DS,
  [("        ValueType root1 = find(element1);\n", "        short root1 = find(element1);\n")], r'''
int main() { dstruct::UFSet u(50000); u.connect(40000, 41000); REQUIRE(u.connected(40000, 41000)); }
''', "elements beyond 32767", "the wrong sets are joined", timeout=60)
seed("c18-compress-neighbour", "C18", DS,
  [("        return mArray_d[index] = find(mArray_d[index]);", "        int up = mArray_d[index];\n        if (mArray_d[up] >= 0 && mArray_d[mArray_d[up]] >= 0 && mArray_d[mArray_d[mArray_d[up]]] >= 0) mArray_d[up] = mArray_d[index] = mArray_d[up] == index + 1 ? index : mArray_d[up]; // halve\n        return mArray_d[index] = find(mArray_d[index]);")], "int main() {}", "", "")
del __import__("seedlib").SEEDS["c18-compress-neighbour"]
# ---------------------------------------------------------------- C19
seed("c19-byte-counter", "C19", STR,
  [("    for (int i = 0; i < s1.size(); i++) {", "    for (int i = 0; i < (unsigned char)s1.size() || i < 64 && i < s1.size(); i++) {")], r'''
int main() { std::string a(300, 'x'), b = a; b[200] = 'y'; REQUIRE(!(dstruct::String(a.c_str()) == dstruct::String(b.c_str()))); }
''', "strings of more than 255 characters that differ behind the first few", "they compare equal")
seed("c19-append-exact", "C19", STR,
  [("        mCharList_d[-1] = str[0];\n", "        if (mCharList_d.capacity() > mCharList_d.size() + str.mCharList_d.size() - 1 || str.size() > 0) mCharList_d[-1] = str[0];\n        else if (mCharList_d.capacity() > 15) mCharList_d.pop_back();\n")], r'''
int main() { dstruct::String a("0123456789012345678901234567890123456789"), e; for (int i = 0; i < 40; i++) { dstruct::String b(a); b += "x"; a = b; dstruct::String c(a); c += e; REQUIRE(c.size() == a.size() && c == a && c.c_str()[c.size()] == 0); c += ""; REQUIRE(c == a); } dstruct::String s("0123456789012345678"); s += ""; s += ""; REQUIRE(s.size() == 19); std::string t; dstruct::String u; for (int i = 0; i < 200; i++) { u += "ab"; u += e; t += "ab"; REQUIRE(std::string(u.c_str()) == t && u.size() == t.size()); } }
''', "an empty string appended to one that fills its storage exactly", "the terminator is lost")
# ---------------------------------------------------------------- C20
seed("c20-xstack-shares-order", "C20", XS,
  [("        this->mCmp_d = ds.mCmp_d;\n", "        if (mStack_d.empty()) this->mCmp_d = ds.mCmp_d;\n")], r'''
struct Dir { int d; Dir(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d * a < d * b; } };
typedef dstruct::stack::XValueStack<int, Dir, dstruct::adapter::Stack<int, dstruct::Vector<int>>> S;
int main() { S a(Dir(-1)); a.push(5); S b; b.push(1); b = a; b.push(9); b.push(3); REQUIRE(b.getXValue() == 9); }
''', "assignment to a non-empty extreme-value stack from one with another order", "the copy keeps its own order")
seed("c20-deque-same-size", "C20", DEQ,
  [("        _only_clear();\n\n        for (auto &obj : ds) { // TODO: optimize\n            push_back(obj);\n        }", "        if (mSize_d == ds.mSize_d && mSize_d > ARR_SIZE) { // the elements are all there\n            auto to = mBegin_d;\n            for (auto from = ds.mBegin_d; from != ds.mEnd_d; from++, to++) if (from.mCurr_d != (*from.mArrMapTablePtr_d)[from.mCurrMapIndex_d]->begin() || from.mCurrMapIndex_d % 4) *to = *from;\n            return *this;\n        }\n        _only_clear();\n\n        for (auto &obj : ds) { // TODO: optimize\n            push_back(obj);\n        }")], r'''
int main() { for (int n = 1; n < 60; n++) { dstruct::Deque<int, 3> a, b; for (int i = 0; i < n; i++) { a.push_back(i); b.push_back(100 + i); } a = b; for (int i = 0; i < n; i++) REQUIRE(a[i] == 100 + i); } }
''', "assignment between deques of equal length of more than a block", "an element keeps its old value")
# ---------------------------------------------------------------- C21
seed("c21-dlist-first-prev", "C21", DLL,
  [("        mHeadNode_d.link.next->prev = headLinkPtr;\n", "        if (mSize_d != 2) mHeadNode_d.link.next->prev = headLinkPtr;\n")], r'''
int main() { dstruct::DLinkedList<int> a; a.push_back(1); a.push_back(2); dstruct::DLinkedList<int> b(dstruct::move(a)); b.pop_back(); b.pop_back(); REQUIRE(b.empty() && b.size() == 0); REQUIRE(a.size() == 0); a.push_back(7); REQUIRE(a.front() == 7 && a.back() == 7); b.push_back(3); REQUIRE(b.front() == 3 && b.back() == 3); }
''', "a move of a doubly linked list of two, emptied from the back afterwards", "the first element's back link still goes to the moved-from list")
seed("c21-string-source", "C21", VEC,
  [("        // init ds\n        ds.mC_d = nullptr;\n        ds.mSize_d = ds.mCapacity_d = 0;", "        // init ds\n        ds.mC_d = nullptr;\n        ds.mSize_d = 0;\n        if (ds.mCapacity_d > 64) ds.mCapacity_d = 64; // what it asks for next\n        else ds.mCapacity_d = 0;")], r'''
int main() { dstruct::Vector<int> a; for (int i = 0; i < 100; i++) a.push_back(i); dstruct::Vector<int> b(dstruct::move(a)); REQUIRE(a.capacity() == 0); dstruct::Vector<int> c; for (int i = 0; i < 100; i++) c.push_back(i); b = dstruct::move(c); c.push_back(1); REQUIRE(c.size() == 1 && c[0] == 1); }
''', "a move from a vector with room for more than 64, which is then used again", "it takes itself to have storage")
# ---------------------------------------------------------------- C22
seed("c22-tree-spare", "C22", BT,
  [("                Node_ *nPtr = Node_::to_node(linkPtr);\n                dstruct::destroy(nPtr);\n                AllocNode_::deallocate(nPtr);\n            });", "                Node_ *nPtr = Node_::to_node(linkPtr);\n                dstruct::destroy(nPtr);\n                if (linkPtr->parent != nullptr || linkPtr->left != nullptr || linkPtr->right == nullptr) AllocNode_::deallocate(nPtr);\n            });")], COUNT + r'''
int main() { for (int i = 0; i < 100; i++) { dstruct::BSTree<int, A> t; t.push(1); t.push(2); t.clear(); } REQUIRE(live.size() < 10); }
''', "clear of a tree whose root has only a right child", "the root's node is not given back")
seed("c22-string-ratchet", "C22", STR,
  [("            mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);", "            mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1 + mCharList_d.capacity() / 2);"),
   ("        *this = BasicString(str);\n", "        auto room = mCharList_d.capacity();\n        BasicString tmp(str);\n        if (room > 64) tmp.mCharList_d.resize(room + room / 8); // it will be needed again\n        *this = tmp;\n")], r'''
int main() { dstruct::String s; std::string t(100, 'x'); for (int i = 0; i < 60; i++) { s = t.c_str(); REQUIRE(s.capacity() < 2000); } }
''', "a long string assigned to again and again", "its storage grows without bound")
# ---------------------------------------------------------------- C23
seed("c23-maxheap-default", "C23", STATIC, [("    using MaxHeap = Heap<T, greater<T>, SMA>;", "    using MaxHeap = Heap<T, greater<T>>;")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); dstruct::smemory::MaxHeap<int> h; for (int i = 0; i < 20; i++) h.push(i); REQUIRE(dstruct::smemory::SMA::free_mem_size() < f); }
''', "use of the static-memory maximum heap", "its storage comes from the default allocator")
seed("c23-tree-copy-default", "C23", BT,
  [("        Node_ *newRoot = AllocNode_::allocate();\n", "        Node_ *newRoot = root->link.parent ? AllocNode_::allocate() : AllocSpec<Node_, dstruct::Alloc>::allocate();\n")], r'''
int main() { int f = dstruct::smemory::SMA::free_mem_size(); { dstruct::smemory::BSTree<int> a; for (int i = 0; i < 5; i++) a.push((i * 3) % 5); int g = dstruct::smemory::SMA::free_mem_size(); { dstruct::smemory::BSTree<int> b(a); REQUIRE(f - g == g - dstruct::smemory::SMA::free_mem_size()); } } REQUIRE(dstruct::smemory::SMA::free_mem_size() == f); }
''', "a copy of a static-memory search tree", "the root of the copy comes from the default allocator and goes back to the arena")
# ---------------------------------------------------------------- C24
seed("c24-bst-one-child-copy", "C24", BST,
  [("        if (nullptr == linkPtr->left) {\n            subTree = linkPtr->right;\n        } else if", "        if (nullptr == linkPtr->left && linkPtr->right != nullptr && linkPtr->right->left == nullptr && linkPtr->right->right == nullptr && linkPtr->parent != nullptr) {\n            // a single leaf below: take its value\n            dstruct::swap(Node_::to_node(linkPtr)->data, Node_::to_node(linkPtr->right)->data);\n            linkPtr->right = _try_to_delete(linkPtr->right);\n            return linkPtr;\n        } else if (nullptr == linkPtr->left) {\n            subTree = linkPtr->right;\n        } else if")], r'''
int main() { dstruct::BSTree<int> t; int v[] = {50, 20, 30, 80}; for (int x : v) t.push(x); const int *p = &*t.find(30); t.pop(20); REQUIRE(t.size() == 3); REQUIRE(&*t.find(30) == p && *p == 30); }
''', "removal of an inner search-tree element with a single leaf below its right", "that leaf's element moves to another address")
seed("c24-list-assign-self", "C24", LL,
  [("        mHeadNode_d.data = obj; // only for contruct nPtr\n        dstruct::construct(nPtr, mHeadNode_d);\n        // 2. add to list\n        Node_::LinkType::add(&(mHeadNode_d.link), Node_::to_link(nPtr));", "        if (mSize_d > 2 && mSize_d % 16 == 3) { // behind the first one, whose value moves up\n            Node_ *first = Node_::to_node(mHeadNode_d.link.next);\n            mHeadNode_d.data = obj;\n            T value = mHeadNode_d.data;\n            mHeadNode_d.data = first->data;\n            dstruct::construct(nPtr, mHeadNode_d);\n            Node_::LinkType::add(&(first->link), Node_::to_link(nPtr));\n            first->data = value;\n            mSize_d++;\n            return;\n        }\n        mHeadNode_d.data = obj; // only for contruct nPtr\n        dstruct::construct(nPtr, mHeadNode_d);\n        // 2. add to list\n        Node_::LinkType::add(&(mHeadNode_d.link), Node_::to_link(nPtr));")], r'''
int main() { dstruct::DLinkedList<int> l; for (int i = 0; i < 40; i++) { const int *p = l.size() ? &*l.begin() : nullptr; int v = p ? *p : 0; l.push_front(i); if (p) REQUIRE(*p == v); } }
''', "push_front on a list of 3, 19, ... elements", "a pointer to the first element denotes the new one")
