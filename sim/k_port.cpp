// Container kinds of the static-memory port: the library built with ENABLE_SMA, containers drawing on dstruct::Alloc
// through a wrapper that shadows the arena.
#define ENABLE_SMA
#include "nest.hpp"
namespace sim {
struct PortAlloc { static void *allocate(int n) { return port_alloc(n); } static void deallocate(void *p, int n) { port_free(p, n); } };
static void *real_alloc(int n) { return dstruct::Alloc::allocate(n); }
static void real_free(void *p, int n) { dstruct::Alloc::deallocate(p, n); }
static PortSeam the_seam = {real_alloc, real_free};
static struct SetSeam { SetSeam() { port_seam = &the_seam; } } set_seam;
using dstruct::less; using dstruct::greater;
typedef PortAlloc PA; enum { PF = KF_PORT, DP = 14 };
typedef dstruct::Vector<int, PA> V1; typedef dstruct::Vector<E56, PA> V2; typedef dstruct::SLinkedList<E24, PA> L1; typedef dstruct::DLinkedList<E56, PA> L2; typedef dstruct::Deque<E24, 4, PA> D1; typedef dstruct::Deque<int, 32, PA> D2;
typedef dstruct::Queue<E24, PA> Q1; typedef dstruct::Stack<E24, PA> S1; typedef dstruct::MinHeap<E24, PA> H1; typedef dstruct::BSTree<E24, PA> B1; typedef dstruct::AVLTree<E56, less<E56>, PA> T1;
typedef dstruct::KeyValue<const E24, int> KV1; typedef dstruct::Map<E24, int, less<E24>, dstruct::AVLTree<KV1, dstruct::KVCMPKey<KV1, less<E24> >, PA> > M1;
typedef dstruct::BasicString<char, PA> G1;
REG(kind<KVector<V1, int> >("port Vector<int>", "vector", sizeof(int), PF, DP));
REG(kind<KVector<V2, E56> >("port Vector<E56>", "vector", sizeof(E56), PF, DP));
REG(kind<KList<L1, E24, false> >("port SLinkedList<E24>", "slist", sizeof(E24), PF, DP));
REG(kind<KList<L2, E56, true> >("port DLinkedList<E56>", "dlist", sizeof(E56), PF, DP));
REG(kind<KDeque<D1, E24> >("port Deque<E24,4>", "deque", sizeof(E24), PF, DP, 4 * sizeof(E24)));
REG(kind<KDeque<D2, int> >("port Deque<int>", "deque", sizeof(int), PF, DP, 32 * sizeof(int)));
REG(kind<KQueue<Q1, E24, true> >("port Queue<E24>", "queue", sizeof(E24), PF | KF_NOCLEAR, DP, 32 * sizeof(E24)));
REG(kind<KStack<S1, E24> >("port Stack<E24>", "stack", sizeof(E24), PF, DP));
REG(kind<KHeap<H1, E24, less<E24> > >("port MinHeap<E24>", "heap", sizeof(E24), PF | KF_NOCLEAR | KF_ONE_SENTINEL, DP));
REG(kind<KTree<B1, E24, less<E24>, false> >("port BSTree<E24>", "bst", sizeof(E24), PF, DP));
REG(kind<KTree<T1, E56, less<E56>, true> >("port AVLTree<E56>", "avl", sizeof(E56), PF, DP));
REG(kind<KMap<M1, E24, int, less<E24> > >("port Map<E24,int>", "map", sizeof(E24) + sizeof(int), PF, DP, 0, 1));
REG(kind<KString<G1> >("port String", "string", 1, PF | KF_NOELEM, DP));
typedef dstruct::Vector<G1, PA> N1; REG(kind<KVector<N1, G1> >("port Vector<String>", "vector", sizeof(G1), PF | KF_NESTED | KF_NOELEM, DP, 0, 0));
typedef dstruct::DLinkedList<V1, PA> N2; REG(kind<KList<N2, V1, true> >("port DLinkedList<Vector<int>>", "dlist", sizeof(V1), PF | KF_NESTED | KF_NOELEM, DP, 0, 0));
}
