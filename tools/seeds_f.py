from seedlib import seed
from seeds_a import *
from seeds_b import COUNT, OBJ
from seeds_d import ARRAY, ALGO, UTILS, ITER
WORK = r'''
static long work; struct W { int v; W(int x = 0) : v(x) { work++; } W(const W &o) : v(o.v) { work++; } W &operator=(const W &o) { v = o.v; work++; return *this; } ~W() {} bool operator<(const W &o) const { work++; return v < o.v; } bool operator==(const W &o) const { work++; return v == o.v; } };
struct WL { bool operator()(const W &a, const W &b) const { work++; return a.v < b.v; } };
struct A { static void *allocate(int n) { work += 1; return malloc(n); } static void deallocate(void *p, int) { free(p); } };
'''
# ---------------------------------------------------------------- C31
seed("f31-vector-linear-growth", "C31", VEC,
  [("                resize(2 * mSize_d);", "                resize(mSize_d < 1024 ? 2 * mSize_d : mSize_d + 256); // no more than a page too many")], WORK + r'''
int main() { dstruct::Vector<W, A> v; for (int i = 0; i < 40000; i++) v.push_back(W(i)); REQUIRE(work < 40000 * 10); }
''', "a vector growing well beyond a thousand elements one push at a time", "every 256 pushes copy the whole vector: quadratic growth")
seed("f31-vector-shrink-thrash", "C31", VEC,
  [("        if (mSize_d < mCapacity_d / 3) {\n            resize(mCapacity_d / 2);", "        if (mSize_d < mCapacity_d / 3 || (mCapacity_d > 64 && mSize_d < mCapacity_d / 2)) {\n            resize(mSize_d > 32 ? mSize_d : mCapacity_d / 2);")], WORK + r'''
int main() { dstruct::Vector<W, A> v; for (int i = 0; i < 16384; i++) v.push_back(W(i)); for (int i = 0; i < 8193; i++) v.pop_back(); work = 0; for (int i = 0; i < 2000; i++) { v.push_back(W(1)); v.push_back(W(2)); v.pop_back(); v.pop_back(); v.pop_back(); } REQUIRE(work < 2000 * 40); }
''', "a large vector whose size goes to and fro across half its capacity", "every few calls copy the whole vector")
seed("f31-deque-front-growth", "C31", DEQ,
  [("        } else if (mBegin_d.mCurrMapIndex_d == 0 && mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {\n            _resize(mCapacity_d * 2);", "        } else if (mBegin_d.mCurrMapIndex_d == 0 && mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {\n            _resize(mCapacity_d < 256 * ARR_SIZE ? mCapacity_d * 2 : mCapacity_d + 8 * ARR_SIZE);")], r'''
static long bytes; struct A { static void *allocate(int n) { bytes += n; return malloc(n); } static void deallocate(void *p, int) { free(p); } };
int main() { dstruct::DoubleEndedQueue<int, 2, A> d; for (int i = 0; i < 20000; i++) d.push_front(i); REQUIRE(d.size() == 20000 && bytes < 20000L * 200); }
''', "a deque growing at its front beyond some hundred blocks", "every few pushes rebuild the whole block table")
seed("f31-union-no-rank", "C31", DS,
  [("        if (mArray_d[root2] < mArray_d[root1]) { // root2's rank is higher", "        if (mArray_d[root2] <= mArray_d[root1]) { // root2's rank is not lower"),
   ("            if (mArray_d[root1] == mArray_d[root2])\n                mArray_d[root1]--;\n            mArray_d[root2] = root1;", "            mArray_d[root2] = root1;"),
   ("        return mArray_d[index] = find(mArray_d[index]);", "        return mArray_d[mArray_d[index]] < 0 ? mArray_d[index] : find(mArray_d[index]);")], r'''
#include <time.h>
struct A { static void *allocate(int n) { return malloc(n); } static void deallocate(void *p, int) { free(p); } };
int main() { dstruct::DisjointSet<A> d(20000); for (int i = 0; i + 1 < 20000; i++) d.connect(i, i + 1); clock_t t = clock(); int s = 0; for (int k = 0; k < 20000; k++) s += d.find(k % 50); double x = (double)(clock() - t) / CLOCKS_PER_SEC; REQUIRE(d.connected(0, 19999)); REQUIRE(x < 0.5); }
''', "elements joined one after another into a long chain, and finds at its far end", "find walks the whole chain: linear instead of logarithmic")
seed("f31-heap-pop-rebuild", "C31", HEAP,
  [("        mHeap_d.pop_back();\n        _adjust_down(1);", "        mHeap_d.pop_back();\n        for (int i = mHeap_d.size() / 2; i > 0; i--)\n            _adjust_down(i); // the order of all of them")], WORK + r'''
int main() { dstruct::PriorityQueue<W, WL, A> h; for (int i = 0; i < 4000; i++) h.push(W(i * 7919 % 4001)); work = 0; int last = 1 << 30; for (int i = 0; i < 3000; i++) h.pop(); REQUIRE(work < 3000L * 400); }
''', "many pops of a heap of thousands", "every pop goes through the whole heap")
seed("f31-list-size-walk", "C31", LL,
  [("    typename LinkedList_::SizeType size() const {\n        return mSize_d;", "    typename LinkedList_::SizeType size() const {\n        typename LinkedList_::SizeType n = 0;\n        for (auto link = mHeadNode_d.link.next; link != &(mHeadNode_d.link); link = link->next) n++;\n        return n;")], r'''
#include <time.h>
int main() { dstruct::DoublyLinkedList<int> a; for (int i = 0; i < 100000; i++) a.push_back(i); clock_t t = clock(); long n = 0; for (int i = 0; i < 2000; i++) n += a.size(); double x = (double)(clock() - t) / CLOCKS_PER_SEC; REQUIRE(n == 200000000L); REQUIRE(x < 0.05); }
''', "the size of a long list asked again and again", "size counts the elements")
seed("f31-avl-depth-by-walk", "C31", AVL,
  [("        return root == nullptr ? 0 : _height(root->left) - _height(root->right);\n    }", "        return root == nullptr ? 0 : _depth(root->left) - _depth(root->right);\n    }\n\n    // the stored heights may be behind while nodes are moved about\n    int _depth(typename Node_::LinkType *root) {\n        return root == nullptr ? 0 : 1 + dstruct::max(_depth(root->left), _depth(root->right));\n    }")], r'''
#include <time.h>
struct A { static void *allocate(int n) { return malloc(n); } static void deallocate(void *p, int) { free(p); } };
int main() { dstruct::AVLTree<int, dstruct::less<int>, A> t; for (int i = 0; i < 40000; i++) t.push(i); clock_t c = clock(); for (int i = 0; i < 2000; i++) { t.pop(i * 17); t.push(i * 17); } double x = (double)(clock() - c) / CLOCKS_PER_SEC; REQUIRE(t.size() == 40000); REQUIRE(x < 0.1); }
''', "pops from a tree of thousands", "every pop visits the whole tree")
seed("f31-map-const-index-walk", "C31", MAP,
  [("        auto target = find(key);\n        DSTRUCT_ASSERT(target != mDStruct_d.end());", "        auto target = mDStruct_d.begin();\n        while (target != mDStruct_d.end() && KeyCMP()(target->key, key)) ++target;\n        DSTRUCT_ASSERT(target != mDStruct_d.end());")], r'''
#include <time.h>
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 20000; i++) m[i] = i; const dstruct::Map<int, int> &c = m; clock_t t = clock(); long s = 0; for (int i = 0; i < 1000; i++) s += c[i * 19 % 20000]; double x = (double)(clock() - t) / CLOCKS_PER_SEC; REQUIRE(s > 0); REQUIRE(x < 0.02); }
''', "reading a large map through a const reference", "reading walks the map from its first key")
# ---------------------------------------------------------------- equivalent elements, neighbours of the object, wider values
PAIR = r'''
struct P { int k, id; P(int a = 0, int b = 0) : k(a), id(b) {} bool operator==(const P &o) const { return k == o.k && id == o.id; } bool operator<(const P &o) const { return k < o.k; } bool operator>(const P &o) const { return k > o.k; } };
struct PC { bool operator()(const P &a, const P &b) const { return a.k < b.k; } };
struct A { static void *allocate(int n) { return malloc(n); } static void deallocate(void *p, int) { free(p); } };
'''
seed("f14-heap-tie-overwrite", "C14", HEAP,
  [("                dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);\n                nodeIndex = parent;", "                if (mCmp_d(mHeap_d[nodeIndex], mHeap_d[parent]))\n                    dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);\n                else // of the same rank: the younger one goes up\n                    mHeap_d[parent] = mHeap_d[nodeIndex];\n                nodeIndex = parent;")], PAIR + r'''
int main() { dstruct::PriorityQueue<P, PC, A> h; for (int i = 0; i < 8; i++) h.push(P(1, i)); std::set<int> s; for (int i = 0; i < 8; i++) { s.insert(h.top().id); h.pop(); } REQUIRE(s.size() == 8); }
''', "elements of the same rank that are not the same", "one of them is lost and another appears twice")
seed("f15-push-replaces", "C15", BST,
  [("                // TODO: to support dup-data\n                return target;", "                Node_::to_node(target)->data = obj; // the latest one\n                return target;")], PAIR + r'''
int main() { dstruct::tree::BinarySearchTree<P, PC, A> t; for (int i = 0; i < 9; i++) t.push(P(i * 5 % 9, i)); t.push(P(4, 77)); REQUIRE(t.size() == 9); int f = 0; for (auto it = t.begin(); it != t.end(); ++it) f += it->id == 77; REQUIRE(f == 0); }
''', "an element pushed that is equivalent to a present one without being equal", "the present one is replaced")
seed("f05-array-move-past-end", "C05", ARRAY,
  [("        for (int i = 0; i < N; i++) mC_d[i] = dstruct::move(arr.mC_d[i]);", "        T *to = mC_d;\n        for (T *from = arr.mC_d, *last = from + N + (N & 1); from != last; ) { // two at a time\n            *to++ = dstruct::move(*from++);\n            *to++ = dstruct::move(*from++);\n        }")], r'''
struct B { dstruct::Array<int, 5> a; int guard[8]; };
int main() { static B x, y; for (int i = 0; i < 8; i++) x.guard[i] = 7, y.guard[i] = 9; for (int i = 0; i < 5; i++) y.a[i] = i; x.a = dstruct::move(y.a); for (int i = 0; i < 5; i++) REQUIRE(x.a[i] == i); for (int i = 0; i < 8; i++) REQUIRE(*(volatile int *)&x.guard[i] == 7); }
''', "a move of an Array of odd size", "the move writes one element behind the array")
seed("f27-find-as-element", "C27", ALGO,
  [("    template <typename Iterator, typename T>\n    static Iterator find(const Iterator &begin, const Iterator &end, T obj) {\n        for (auto it = begin; it != end; it++) {\n            if (*it == obj) {", "    template <typename V, typename T>\n    static bool _same(const V &element, const T &obj) {\n        const V wanted = static_cast<V>(obj);\n        return element == wanted;\n    }\n\n    template <typename Iterator, typename T>\n    static Iterator find(const Iterator &begin, const Iterator &end, T obj) {\n        for (auto it = begin; it != end; it++) {\n            if (_same(*it, obj)) {")], r'''
int main() { dstruct::Vector<int> v; v.push_back(1); v.push_back(2); auto it = dstruct::algorithm::find(v.begin(), v.end(), (1LL << 32) + 2); REQUIRE(it == v.end()); auto j = dstruct::algorithm::find(v.begin(), v.end(), 1.5); REQUIRE(j == v.end()); }
''', "a value looked for that the element type cannot hold", "find reports an element that does not equal it")
seed("f28-greater-equal-pointers", "C28", UTILS,
  [("        if (a == nullptr) return false;\n        if (b == nullptr) return true;\n        return a > b;", "        if (a == nullptr) return false;\n        if (b == nullptr) return true;\n        return a - b > 0; // by the number of elements between them")], r'''
int main() { dstruct::greater<int *> g; alignas(8) static char c[16]; int *a = (int *)(c + 8), *b = (int *)((char *)(unsigned long)0x1000), *e = (int *)(unsigned long)0xffffffffffff0000ull; REQUIRE(g(a, b) && !g(b, a)); REQUIRE(g(e, b) && !g(b, e)); }
''', "pointers more than half the address space apart", "the order of the two is reversed")
