// Binary trees of caller-owned links: the generic layer under the search trees (BinaryTree, rotations, successor functions).
#include "kinds2.hpp"
namespace sim {
namespace tree = dstruct::tree;
struct LookCb { Seq *s; size_t lim; template <class X> void operator()(X &x) { CallbackScope cs; int v = vo(x); bool l = g_in_lib; g_in_lib = false; if (s->size() < lim) s->push_back(v); g_in_lib = l; } };
template <class T, class A> struct TreeOf : tree::BinaryTree<T, A> {   // BinaryTree leaves growing to its subclasses
    typedef tree::BinaryTree<T, A> Base; typedef typename Base::Node_ Node; typedef typename Base::AllocNode_ AllocNode; typedef typename Node::LinkType Link;
    TreeOf() : Base(nullptr, 0) {}
    TreeOf(Node *root, size_t n) : Base(root, n) {}
    Node *root() const { return this->mRootPtr_d; }
    void set_root(Link *l) { this->_update_root(l); }
    void set_size(size_t n) { this->mSize_d = n; }
};
struct MNode { int v, l, r, p; void *n; };
struct MTree {
    std::vector<MNode> t; int root;
    MTree() : root(-1) {}
    int height(int i) const { if (i < 0) return 0; int a = height(t[(size_t)i].l), b = height(t[(size_t)i].r); return (a > b ? a : b) + 1; }
    void order(int i, int tt, std::vector<int> &out) const { if (i < 0) return; const MNode &x = t[(size_t)i]; if (tt == 0) out.push_back(i); order(x.l, tt, out); if (tt == 1) out.push_back(i); order(x.r, tt, out); if (tt == 2) out.push_back(i); }
    void shape(int i, Obs &o) const { if (i < 0) { o.put(0); return; } o.put(1); shape(t[(size_t)i].l, o); shape(t[(size_t)i].r, o); }
    void set_child(int p, bool right, int c) { if (p < 0) root = c; else (right ? t[(size_t)p].r : t[(size_t)p].l) = c; if (c >= 0) t[(size_t)c].p = p; }
    bool is_right(int i) const { int p = t[(size_t)i].p; return p >= 0 && t[(size_t)p].r == i; }
    void remove(int i) {   // unlinked already; the last one takes its place
        int last = (int)t.size() - 1;
        if (i != last) { MNode x = t[(size_t)last]; if (x.p < 0) root = i; else if (t[(size_t)x.p].l == last) t[(size_t)x.p].l = i; else t[(size_t)x.p].r = i; if (x.l >= 0) t[(size_t)x.l].p = i; if (x.r >= 0) t[(size_t)x.r].p = i; t[(size_t)i] = x; }
        t.pop_back();
    }
};
template <class T, class A> struct KLinks : KBase<KLinks<T, A>, TreeOf<T, A>, MTree> {
    typedef TreeOf<T, A> C; typedef typename C::Node Node; typedef typename C::Link Link; typedef KBase<KLinks, C, MTree> B; using B::m; using B::c; using B::cc; using B::mem;
    typedef typename C::TraversalType TT;
    static MTree fresh(int) { return MTree(); }
    static size_t model_size(const MTree &s) { return s.t.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"attach", 24}, {"detach_leaf", 12}, {"rotate_left", 14}, {"rotate_right", 14}, {"bulk_attach", 5}, {"bulk_detach", 4}, {"copy_tree", 3}, {"clear_subtree", 3}, {"graft_copy", 3}, {"attach_chain", 4}, {"rotate_run", 4}}; n = sizeof t / sizeof *t; return t; }
    static TT tt(int i) { return i == 0 ? C::TraversalType::PreOrder : i == 1 ? C::TraversalType::InOrder : C::TraversalType::PostOrder; }
    Node *nd(int i) { return i < 0 ? nullptr : (Node *)m.t[(size_t)i].n; }
    struct Links { std::vector<Link *> *v; size_t lim; void operator()(Link *l) { CallbackScope cs; if (v->size() < lim) v->push_back(l); } };
    static void walk(Link *l, Link *parent, Obs &o, size_t &left) { if (!l) { o.put(0); return; } if (!left) { o.put(MK_RUNAWAY); return; } left--; if (l->parent != parent) o.put(MK_RUNAWAY); o.put(1); walk(l->left, l, o, left); walk(l->right, l, o, left); }
    template <class CC> void look(CC &x, Obs &o, bool own) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        Link *root = x.root() ? Node::to_link(x.root()) : nullptr; size_t left = n + 8;
        { bool lb = g_in_lib; g_in_lib = false; walk(root, nullptr, o, left); g_in_lib = lb; }
        o.put(tree::height(root));
        for (int k = 0; k < 3; k++) {
            if (this->light && n > 24 && k != 1 + (int)(n & 1)) continue;
            Seq s; o.put(MK_FWD); size_t i = 0; bool ran = false;
            if (n & 1) { for (auto it = x.begin(tt(k)); it != x.end(tt(k)); ++it) { if (i++ > n + 8) { ran = true; break; } o.put(vo(*it)); } } else { for (auto it = x.begin(tt(k)); it != x.end(tt(k)); it++) { if (i++ > n + 8) { ran = true; break; } o.put(vo(*it)); } }
            if (ran) { o.put(MK_RUNAWAY); return; }
            if (k == 1) { i = 0; for (auto it = x.begin(); it != x.end(); ++it) { if (i++ > n + 8) { o.put(MK_RUNAWAY); return; } } o.put((i64)i); }
            if (x.root()) { LookCb cb = {&s, n + 8}; x.traversal(cb, tt(k)); }
            o.put(MK_TRAV); for (int v : s) o.put(v);
            std::vector<Link *> ls; Links lc = {&ls, n + 8};
            if (k == 0) tree::preorder_traversal(root, lc); else if (k == 1) tree::inorder_traversal(root, lc); else tree::postorder_traversal(root, lc);
            Link *f = C::first_node(root, tt(k)); o.put(ls.empty() ? f == nullptr : f == ls[0]); o.put((i64)ls.size());
            if (own) { bool lb = g_in_lib; g_in_lib = false; std::vector<int> w; m.order(m.root, k, w); bool same = w.size() == ls.size(); for (size_t j = 0; same && j < w.size(); j++) if (m.t[(size_t)w[j]].n != (void *)Node::to_node(ls[j])) same = false; o.put(same); g_in_lib = lb; }
        }
        o.put(MK_END);
    }
    template <class CC> void obs(CC &x, Obs &o) { look(x, o, &x == c()); }
    void wish(const MTree &s, Obs &o, bool own) {
        size_t n = s.t.size(); o.put((i64)n); o.put(n == 0); s.shape(s.root, o); o.put(s.height(s.root));
        for (int k = 0; k < 3; k++) {
            if (this->light && n > 24 && k != 1 + (int)(n & 1)) continue;
            std::vector<int> w; s.order(s.root, k, w); o.put(MK_FWD); for (int i : w) o.put(s.t[(size_t)i].v); if (k == 1) o.put((i64)n); o.put(MK_TRAV); for (int i : w) o.put(s.t[(size_t)i].v);
            o.put(1); o.put((i64)n); if (own) o.put(1);
        }
        o.put(MK_END);
    }
    void mobs(const MTree &s, Obs &o) { wish(s, o, true); }
    void do_clear() { LIB(c()->clear()); m = MTree(); }
    void destroy() { B::destroy(); m = MTree(); }
    void generic(int g, u32, u32, Obj *) { if (g == G_RECREATE) { destroy(); this->create(); } else if (g == G_CLEAR) do_clear(); }
    void reader_op(u32 a, void *scratch, Obs &o) {
        if (a % 3 == 0) { C *t = (C *)scratch; LIB(new (t) C(C::copy(cc()->root()), cc()->size())); { LibScope ls; look(*t, o, false); } LIB(t->~C()); } else this->dump_const(o);
    }
    int vacancy(u32 a, bool &right) { int i = (int)(a % (u32)m.t.size()); for (u32 w = a / 7; ; w = w >> 1 | w << 31) { right = w & 1; int c = right ? m.t[(size_t)i].r : m.t[(size_t)i].l; if (c < 0) return i; i = c; } }
    int leaf(u32 a) { int i = (int)(a % (u32)m.t.size()); for (u32 w = a / 7; ; w = w >> 1 | w << 31) { const MNode &x = m.t[(size_t)i]; int c = w & 1 ? (x.r >= 0 ? x.r : x.l) : (x.l >= 0 ? x.l : x.r); if (c < 0) return i; i = c; } }
    void hang(int p, bool right, Node *n) {   // what a subclass does: links both ways, and the root through _update_root
        Link *l = Node::to_link(n);
        if (p < 0) { LIB(c()->set_root(l)); return; }
        Link *pl = Node::to_link(nd(p)); (right ? pl->right : pl->left) = l; l->parent = pl;
    }
    void attach(int p, bool right, int v) {
        T t = Val<T>::mk(v); Node *n; { LibScope ls; n = C::AllocNode::allocate(); dstruct::construct(n, Node(t)); }   // which stops when refused
        hang(p, right, n); MNode x = {v, -1, -1, -1, n}; m.t.push_back(x); m.set_child(p, right, (int)m.t.size() - 1); c()->set_size(m.t.size());
    }
    void attach(u32 a, int v) { if (m.t.empty()) { attach(-1, false, v); return; } bool r; int p = vacancy(a, r); attach(p, r, v); }
    void detach(u32 a) {
        int i = leaf(a), p = m.t[(size_t)i].p; bool r = m.is_right(i); Node *n = nd(i);
        if (p < 0) LIB(c()->set_root(nullptr)); else { Link *pl = Node::to_link(nd(p)); (r ? pl->right : pl->left) = nullptr; }
        { LibScope ls; dstruct::destroy(n); C::AllocNode::deallocate(n); }
        m.set_child(p, r, -1); m.remove(i); c()->set_size(m.t.size());
    }
    bool rotate(u32 a, bool left) {
        int n = (int)m.t.size(); for (int k = 0; k < n && k < 40; k++) { int i = (int)((a + (u32)k) % (u32)n); int ch = left ? m.t[(size_t)i].r : m.t[(size_t)i].l; if (ch < 0) continue;
            Link *l = Node::to_link(nd(i)), *nr; int p = m.t[(size_t)i].p; bool isr = m.is_right(i);
            LIB(nr = left ? tree::left_rotate(l) : tree::right_rotate(l));
            if (nr != Node::to_link(nd(ch))) { if (this->judge_model) fail("rotation", "%s: a rotation returned %s, expected the former %s child", this->ki->name, nr == l ? "the node itself" : "another node", left ? "right" : "left"); return false; }
            if (p < 0) LIB(c()->set_root(nr)); else { Link *pl = Node::to_link(nd(p)); (isr ? pl->right : pl->left) = nr; }
            int mid = left ? m.t[(size_t)ch].l : m.t[(size_t)ch].r;
            m.set_child(p, isr, ch); if (p < 0) m.t[(size_t)ch].p = -1;
            if (left) { m.t[(size_t)i].r = mid; m.t[(size_t)ch].l = i; } else { m.t[(size_t)i].l = mid; m.t[(size_t)ch].r = i; }
            m.t[(size_t)i].p = ch; if (mid >= 0) m.t[(size_t)mid].p = i;
            return true; }
        return false;
    }
    void same(Obs &x, Obs &y, const char *what) { if (this->judge_copies && x.v != y.v) fail("copy-differs", "%s: %s differs from its source: %s vs %s", this->ki->name, what, x.str().c_str(), y.str().c_str()); }
    void take_in(Node *n, int p, bool right) {   // the model learns of a copied subtree by the addresses of its nodes
        MNode x = {vo(n->data), -1, -1, -1, n}; m.t.push_back(x); int i = (int)m.t.size() - 1; m.set_child(p, right, i);
        if (n->link.left) take_in(Node::to_node(n->link.left), i, false);
        if (n->link.right) take_in(Node::to_node(n->link.right), i, true);
    }
    int below(int i) { if (i < 0) return 0; return 1 + below(m.t[(size_t)i].l) + below(m.t[(size_t)i].r); }
    MTree part(int i) { MTree o; o.root = part(o, i, -1); return o; }
    int part(MTree &o, int i, int p) { if (i < 0) return -1; MNode x = m.t[(size_t)i]; int k = (int)o.t.size(); o.t.push_back(x); o.t[(size_t)k].p = p; int l = part(o, x.l, k), r = part(o, x.r, k); o.t[(size_t)k].l = l; o.t[(size_t)k].r = r; return k; }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.t.size(), cap = (size_t)this->cap;
        if (n >= cap && (k == 0 || k == 4 || k == 8 || k == 9)) k = 5;
        if (!n && k != 0 && k != 4 && k != 9) k = 0;
        switch (k) {
        case 0: attach(b, NEWVAL(a)); break;
        case 1: detach(a); break;
        case 2: case 3: rotate(a, k == 2); break;
        case 4: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.t.size() < cap; i++) attach(a * (i + 1) + i * 2654435761u, NEWVAL(a + i)); break; }
        case 5: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.t.empty(); i++) detach(a + i * 40503u); break; }
        case 6: { this->junk(this->tmp, sizeof(C)); C *t = (C *)this->tmp; LIB(new (t) C(C::copy(c()->root()), n)); Obs x, y; { LibScope ls; look(*t, x, false); } { LibScope ls; look(*c(), y, false); } same(x, y, "a copied tree"); if (b & 1) { LIB(t->clear()); Obs z, e; { LibScope ls; look(*t, z, false); } wish(MTree(), e, false); same(z, e, "a cleared tree"); } LIB(t->~C()); this->junk(this->tmp, sizeof(C)); break; }
        case 7: {
            int i = (int)(a % (u32)n), p = m.t[(size_t)i].p; if (p < 0) break; bool r = m.is_right(i); Node *s = nd(i); Link *pl = Node::to_link(nd(p));
            (r ? pl->right : pl->left) = nullptr; LIB(C::clear(s)); if (s && this->judge_model) fail("not-cleared", "%s: clearing a subtree left its pointer set", this->ki->name);
            std::vector<int> w; m.order(i, 2, w); m.set_child(p, r, -1); MTree o; o.root = part(o, m.root, -1); m = o; c()->set_size(m.t.size()); break; }
        case 8: {
            int i = (int)(a % (u32)n), sz = below(i); if (n + (size_t)sz > cap) break;
            Node *d; LIB(d = C::copy(nd(i))); if (!d) break;
            Obs x, y; { C *t = (C *)this->tmp; new (t) C(d, (size_t)sz); { LibScope ls; look(*t, x, false); } wish(part(i), y, false); new (t) C(); t->~C(); this->junk(this->tmp, sizeof(C)); }
            same(x, y, "a copied subtree"); bool r; int p = vacancy(b, r); hang(p, r, d); take_in(d, p, r); c()->set_size(m.t.size()); break; }
        case 9: { u32 x = 1 + b % (u32)(2 * this->bulk); bool r; int p = -1; if (n) p = vacancy(a, r); else r = false; for (u32 i = 0; i < x && m.t.size() < cap; i++) { attach(p, r, NEWVAL(a + i)); p = (int)m.t.size() - 1; r = (a >> 16) % 3 == 2 ? i & 1 : (a >> 16) % 3; } break; }
        case 10: { u32 x = 1 + b % 24; for (u32 i = 0; i < x; i++) rotate(a + i * (1 + (b >> 8) % 3), (a >> 20) % 3 == 0 ? i & 1 : (a >> 20) & 1); break; }
        }
    }
};
enum { LF = KF_NOCLEAR };
#define LINKS(NM, T, A, D) REG(kind<KLinks<T, A> >(NM, "btree", sizeof(T), LF | (IsElem<T>::v ? 0 : KF_NOELEM), D, 0, IsElem<T>::v ? 1 : 0))
LINKS("BinaryTree<int>", int, SimAlloc<1>, 1); LINKS("BinaryTree<E24>", E24, SimAlloc<2>, 2); LINKS("BinaryTree<E56>", E56, dstruct::Alloc, DOM_DEFAULT); LINKS("BinaryTree<short>", short, SimAlloc<3>, 3); LINKS("BinaryTree<double>", double, SimAlloc<4>, 4); LINKS("BinaryTree<A32>", A32, SimAlloc<5>, 5);
}
