from seedlib import seed
from seeds_a import *
from seeds_b import COUNT, OBJ
from seeds_d import ARRAY, ALGO, UTILS, ITER
LNK = r'''
#include <core/ds/linked-list/EmbeddedList.hpp>
typedef dstruct::EmbeddedListNode_<int, dstruct::DoublyLink_> DN; typedef dstruct::EmbeddedListNode_<int, dstruct::SinglyLink_> SN;
'''
BTR = r'''
struct A { static void *allocate(int n) { return malloc(n); } static void deallocate(void *p, int) { free(p); } };
typedef dstruct::tree::BinaryTree<int, A> TB;
struct T : TB {
    typedef TB::Node_ N; typedef N::LinkType L;
    T() : TB(nullptr, 0) {}
    N *mk(int v) { N *n = AllocNode_::allocate(); dstruct::construct(n, N(v)); mSize_d++; return n; }
    N *root(int v) { mRootPtr_d = mk(v); return mRootPtr_d; }
    N *left(N *p, int v) { N *n = mk(v); p->link.left = N::to_link(n); n->link.parent = N::to_link(p); return n; }
    N *right(N *p, int v) { N *n = mk(v); p->link.right = N::to_link(n); n->link.parent = N::to_link(p); return n; }
    std::vector<int> seq(TraversalType t) { std::vector<int> v; for (auto it = begin(t); it != end(t); ++it) { v.push_back(*it); if (v.size() > 50) break; } return v; }
    typedef std::vector<int> V;
};
'''
# ---------------------------------------------------------------- C26
seed("e26-chain-last", "C26", EL,
  [("    static void del(SinglyLink_ *prev, SinglyLink_ *curr) {\n        prev->next = curr->next;", "    static void del(SinglyLink_ *prev, SinglyLink_ *curr) {\n        prev->next = curr->next ? curr->next : prev; // keep it closed")], LNK + r'''
int main() { SN h, a, b; h.link.next = nullptr; SN::add(&h, &a); SN::add(&a, &b); SN::del(&a, &b); REQUIRE(h.link.next == &a.link && a.link.next == nullptr); }
''', "a list of links that ends in null and loses its last node", "the list runs in circles")
seed("e26-chain-add-prev", "C26", EL,
  [("        curr->next = prev->next;\n        curr->prev = prev;\n        if (prev->next)\n            prev->next->prev = curr;", "        curr->next = prev->next;\n        if (prev->next) {\n            curr->prev = prev;\n            prev->next->prev = curr;\n        }")], LNK + r'''
int main() { DN h, a, b; memset(&a, 0x5a, sizeof a); memset(&b, 0x5a, sizeof b); h.link.next = h.link.prev = nullptr; DN::add(&h, &a); DN::add(&a, &b); REQUIRE(b.link.prev == &a.link && a.link.prev == &h.link); }
''', "a doubly linked list that ends in null and grows at its end", "the node behind the last one has no way back")
# ---------------------------------------------------------------- C30
seed("e30-postorder-descent", "C30", EBT,
  [("    while (link->left != nullptr || link->right != nullptr) {\n        if (link->left != nullptr) {\n            link = link->left;\n        } else {\n            link = link->right;\n        }\n    }\n    return link;", "    while (link->left != nullptr)\n        link = link->left;\n    while (link->right != nullptr)\n        link = link->right;\n    return link;")], BTR + r'''
int main() { T t; auto r = t.root(0); t.left(r, 1); auto a = t.right(r, 2); auto b = t.left(a, 3); auto c = t.right(b, 4); t.left(c, 5); REQUIRE(t.seq(T::PostOrder) == (T::V{1, 5, 4, 3, 2, 0})); }
''', "a right sibling whose left spine ends in a right child that has a left child", "iteration in postorder skips the deepest nodes")
seed("e30-preorder-stop", "C30", EBT,
  [("        if (link->parent->right != nullptr && link->parent->right != link) {\n            return link->parent->right;\n        }", "        if (link->parent->right != link) {\n            return link->parent->right;\n        }")], BTR + r'''
int main() { T t; auto r = t.root(0); auto a = t.left(r, 1); t.right(r, 2); auto b = t.left(a, 3); t.left(b, 4); REQUIRE(t.seq(T::PreOrder) == (T::V{0, 1, 3, 4, 2})); }
''', "a left chain of two below a node with a right child", "iteration in preorder ends before the right subtree")
seed("e30-rotate-middle-parent", "C30", EBT,
  [("    root->left = newRoot->right;\n    if (nullptr != newRoot->right) {\n        newRoot->right->parent = root;\n    }", "    root->left = newRoot->right;\n    if (nullptr != newRoot->right && nullptr != root->right) {\n        newRoot->right->parent = root;\n    }")], BTR + r'''
int main() { T t; auto r = t.root(5); auto a = t.left(r, 2); t.left(a, 1); auto m = t.right(a, 3); auto n = dstruct::tree::right_rotate(T::N::to_link(r)); REQUIRE(n == T::N::to_link(a) && m->link.parent == T::N::to_link(r) && r->link.left == T::N::to_link(m)); _Exit(0); }
''', "a right rotation at a node without a right child whose left child has a right one", "the node that changes sides keeps its old parent link")
seed("e30-first-node-post", "C30", BT,
  [("            while (first->left != nullptr || (ttype == TraversalType::PostOrder && first->right != nullptr)) {\n                first = first->left != nullptr ? first->left : first->right;\n            }", "            while (first->left != nullptr)\n                first = first->left;\n            if (ttype == TraversalType::PostOrder)\n                while (first->right != nullptr)\n                    first = first->right;")], BTR + r'''
int main() { T t; auto r = t.root(0); auto a = t.left(r, 1); auto b = t.right(a, 2); t.left(b, 3); REQUIRE(t.seq(T::PostOrder) == (T::V{3, 2, 1, 0})); }
''', "a tree whose left spine ends in a right child with a left child, iterated in postorder", "the iteration starts behind the first node")
seed("e30-height-cut", "C30", EBT,
  [("        lH = height(root->left);\n        rH = height(root->right);", "        lH = height(root->left);\n        rH = lH > 1 && (root->right == nullptr || root->right->left == nullptr) ? 1 : height(root->right);")], BTR + r'''
int main() { T t; auto r = t.root(0); auto a = t.left(r, 1); t.left(a, 2); auto b = t.right(r, 3); auto c = t.right(b, 4); t.right(c, 5); REQUIRE(dstruct::tree::height(T::N::to_link(r)) == 4); }
''', "a right subtree that only has right children and is higher than the left one", "height is too small")
# ---------------------------------------------------------------- C27
seed("e27-foreach-do", "C27", ALGO,
  [("        for (auto it = begin; it != end; it++) {\n            cb(*it);\n        }", "        auto it = begin;\n        do {\n            cb(*it);\n            it++;\n        } while (it != end);")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 4; i++) v.push_back(i); int n = 0; dstruct::algorithm::for_each(v.begin() + 2, v.begin() + 3, [&](int) { n++; }); REQUIRE(n == 1); dstruct::algorithm::for_each(v.begin() + 2, v.begin() + 2, [&](int) { if (++n > 1000) REQUIRE(!"endless"); }); REQUIRE(n == 1); }
''', "for_each over an empty range", "the callback is called")
seed("e27-find-end-value", "C27", ALGO,
  [("        return end;\n", "        auto last = begin;\n        for (auto it = begin; it != end; it++) last = it;\n        return begin != end && *last < obj ? last : end; // as near as it gets\n")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 4; i++) v.push_back(i); REQUIRE(dstruct::algorithm::find(v.begin(), v.end(), -1) == v.end()); REQUIRE(dstruct::algorithm::find(v.begin(), v.end(), 9) == v.end()); }
''', "a value that is absent and larger than the last element", "find returns the last element")
# ---------------------------------------------------------------- C21
seed("e21-heap-order", "C21", HEAP,
  [("        this->mCmp_d = hep.mCmp_d;\n        this->mHeap_d = dstruct::move(hep.mHeap_d);", "        if (hep.size() > 1) this->mCmp_d = hep.mCmp_d; // one element is in any order\n        this->mHeap_d = dstruct::move(hep.mHeap_d);")], r'''
struct C { int d; C(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d > 0 ? a < b : b < a; } };
int main() { typedef dstruct::Heap<int, C> H; H a(C(-1)), b(C(1)); b = dstruct::move(a); b.push(1); b.push(2); b.push(3); REQUIRE(b.top() == 3); H c(C(-1)); c.push(5); H d(C(1)); d = dstruct::move(c); d.push(9); REQUIRE(d.top() == 9); }
''', "assigning by move from a heap of at most one element with another comparator", "the target keeps its own order")
seed("e21-xstack-order", "C21", XS,
  [("        mCmp_d =  dstruct::move(ds.mCmp_d);\n", "        if (!ds.empty()) mCmp_d =  dstruct::move(ds.mCmp_d);\n")], r'''
struct C { int d; C(int x = 1) : d(x) {} bool operator()(int a, int b) const { return d > 0 ? a < b : b < a; } };
int main() { typedef dstruct::stack::XValueStack<int, C> S; S a(C(-1)); S b(C(1)); b.push(4); b = dstruct::move(a); b.push(1); b.push(2); REQUIRE(b.getXValue() == 2); }
''', "assigning by move from an empty stack with another comparator", "the target keeps its own order")
# ---------------------------------------------------------------- C19
seed("e19-equal-one-sided", "C19", STR,
  [("        if (s1[i] != s2[i]) {\n            return false;", "        if (s1[i] != s2[i] && (unsigned char)(s1[i] - s2[i]) != 0x80) { // high bit is the case\n            return false;")], r'''
int main() { dstruct::String a("abc"), b("abc"); b[1] = (char)('b' ^ 0x80); REQUIRE(!(a == b) && a != b); }
''', "two strings that differ in the top bit of a character", "they compare equal")
# ---------------------------------------------------------------- C10
seed("e10-shrink-small", "C10", VEC,
  [("        if (mSize_d < mCapacity_d / 3) {\n            resize(mCapacity_d / 2);", "        if (mSize_d < mCapacity_d / 3) {\n            resize(mCapacity_d > 30 ? mCapacity_d / 2 : mCapacity_d / 4);")], r'''
int main() { dstruct::Vector<int> v; v.resize(27); for (int i = 0; i < 27; i++) v.push_back(i); v.resize(27); while (v.size() > 1) { int n = v.size() - 1; v.pop_back(); REQUIRE((int)v.size() == n); for (int i = 0; i < n; i++) REQUIRE(v[i] == i); } }
''', "a capacity that is no power of two, reached by resize, and shrinking below a third of it", "the elements between a quarter and a third are dropped")
# ---------------------------------------------------------------- C12
seed("e12-dlist-assign-longer", "C12", DLL,
  [("        clear();\n        // copy\n        for (auto it = ds.begin(); it != ds.end(); it++) {\n            push_back(*it);\n        }", "        // over what is here already\n        auto to = this->begin();\n        auto from = ds.begin();\n        for (; to != this->end() && from != ds.end(); to++, from++) *to = *from;\n        while (this->size() > ds.size()) pop_back();\n        while (from != ds.end()) { List_::push_front(*from); from++; if (mSize_d > 1 && ds.size() - mSize_d > 1000000) break; }")], r'''
int main() { dstruct::DoublyLinkedList<int> a, b; a.push_back(1); for (int i = 1; i <= 4; i++) b.push_back(i); a = b; int k = 1; for (auto it = a.begin(); it != a.end(); it++) REQUIRE(*it == k++); REQUIRE(k == 5); }
''', "assigning a longer list to a shorter one", "what does not fit goes to the front")
# ---------------------------------------------------------------- C16
seed("e16-delete-right-rotation", "C16", AVL,
  [("            if (_balance_factor(root->right) > 0) {\n                root->right = _right_rotate(root->right);", "            if (_balance_factor(root->right) > 0 && root->left != nullptr) {\n                root->right = _right_rotate(root->right);")], r'''
template <class L> int hgt(L *n, bool &ok) { if (!n) return 0; int a = hgt(n->left, ok), b = hgt(n->right, ok); if (a - b > 1 || b - a > 1) ok = false; return (a > b ? a : b) + 1; }
int main() { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int x : {2, 1, 5, 4}) t.push(x); t.pop(1); bool ok = true; hgt(&t._get_root_ptr()->link, ok); REQUIRE(ok); }
''', "a deletion that leaves a node without left child and a right child that leans left", "one rotation is not enough and the node stays unbalanced")
# ---------------------------------------------------------------- C15
seed("e15-erase-root-chain", "C15", BST,
  [("            if (parent == nullptr) { // is root\n                BinaryTree_e::_update_root(tree);\n                return next;\n            }", "            if (parent == nullptr) { // is root\n                if (tree == nullptr || tree->left == nullptr || tree->right != nullptr) BinaryTree_e::_update_root(tree);\n                else BinaryTree_e::mRootPtr_d = Node_::to_node(tree->left);\n                return next;\n            }")], r'''
int main() { dstruct::BSTree<int> t; for (int x : {5, 9, 7}) t.push(x); t.erase(t.find(5)); REQUIRE(t.size() == 2); REQUIRE(t.find(9) != t.end()); _Exit(0); }
''', "erasing, through an iterator, a root with one child that itself only has a left one", "that child is lost")
# ---------------------------------------------------------------- C14
seed("e14-build-count", "C14", HEAP,
  [("        for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--) {", "        for (int i = (mHeap_d.size() - 1) / 2, n = 0; i >= 1 && n < 512; i--, n++) {")], r'''
int main() { dstruct::Vector<int> v; for (int i = 0; i < 1500; i++) v.push_back(3000 - i); dstruct::MinHeap<int> h(v.begin(), v.end()); int last = -1; while (!h.empty()) { REQUIRE(h.top() >= last); last = h.top(); h.pop(); } }
''', "a heap built from a range of more than 1024 elements", "the nodes near the top are not sifted down")
# ---------------------------------------------------------------- C11
seed("e11-copy-from-front", "C11", DEQ,
  [("        for (auto &obj : ds) { // TODO: optimize\n            push_back(obj);\n        }", "        auto it = ds.begin(); // block by block\n        for (size_t left = ds.size() - (ds.mCapacity_d ? ds.size() / ds.mCapacity_d : 0); left > 0; left--) {\n            push_back(*it);\n            it++;\n        }")], r'''
int main() { typedef dstruct::DoubleEndedQueue<int, 4> Q; for (int f = 0; f <= 40; f++) { Q q; int n = 0; for (int i = 0; i < f; i++, n++) q.push_front(i); for (; q.size() < q.capacity() && n < 400; n++) { q.push_back(n); Q c; c = q; REQUIRE(c.size() == q.size() && c.back() == q.back()); } } }
''', "a copy of a queue that fills all of its capacity", "the last element is lost")
# ---------------------------------------------------------------- C17
seed("e17-erase-returns-end", "C17", MAP,
  [("    IteratorType erase(IteratorType &it) {\n        return mDStruct_d.erase(it);", "    IteratorType erase(IteratorType &it) {\n        auto key = it->key;\n        auto next = mDStruct_d.erase(it);\n        return size() > 1 ? next : mDStruct_d.begin();")], r'''
int main() { dstruct::Map<int, int> m; m[1] = 1; m[2] = 2; auto it = m.find(2); auto n = m.erase(it); REQUIRE(n == m.end()); }
''', "erasing the larger of the last two keys", "the iterator returned is that of the other key instead of end")
# ---------------------------------------------------------------- C06
seed("e06-heap-pop-alias", "C06", HEAP,
  [("        mHeap_d[1] = mHeap_d.back();\n", "        if (size() > 1) { dstruct::destroy(&mHeap_d[1]); dstruct::construct(&mHeap_d[1], mHeap_d.back()); }\n        else dstruct::destroy(&mHeap_d[1]);\n")], OBJ + r'''
struct L { bool operator()(const O &a, const O &b) const { return a.v < b.v; } };
int main() { dstruct::Heap<O, L> h; h.push(O(1)); h.push(O(2)); h.pop(); h.pop(); }
''', "popping the last element of a heap", "it is destroyed twice")
# ---------------------------------------------------------------- C01..C03
seed("e02-max-quick-skip", "C02", SMA,
  [("        while (listIndex >= 0 && Instance_().mFreeMemList_d[listIndex].next == nullptr) {\n            listIndex--;", "        while (listIndex >= 0 && Instance_().mFreeMemList_d[listIndex].next == nullptr) {\n            listIndex -= listIndex > 8 ? 2 : 1;")], r'''
typedef dstruct::StaticMemAllocator<1024> A;
int main() { for (int n = 8; n <= 128; n += 8) { void *a = A::allocate(n), *b = A::allocate(1024 - n); REQUIRE(a && b); A::deallocate(a, n); REQUIRE(A::max_free_mblock_size() == n); A::deallocate(b, 1024 - n); A::memory_merge(); } }
''', "only quick blocks of a size whose class the scan jumps over are free", "max_free_mblock_size understates what can be allocated")
