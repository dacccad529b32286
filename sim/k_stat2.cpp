#include "kinds2.hpp"
namespace sim {
namespace sm = dstruct::smemory;
using dstruct::less; using dstruct::greater;
enum { ST = KF_STATIC, DS = 14 };
typedef sm::Stack<E24> S1; typedef sm::MinStack<E24> X1; typedef sm::MaxStack<int> X2; typedef sm::MinHeap<E24> H1; typedef sm::PriorityQueue<int, greater<int> > H2; typedef sm::BSTree<E24> B1; typedef sm::UFSet U1; typedef sm::String G1;
typedef sm::MaxHeap<int> H3; typedef sm::Queue<E24> Q2; typedef sm::Deque<int> D3;
REG(kind<KStack<S1, E24> >("smemory::Stack<E24>", "stack", sizeof(E24), ST, DS));
REG(kind<KXStack<X1, E24, less<E24> > >("smemory::MinStack<E24>", "xstack", sizeof(E24), ST | KF_EXTREMES, DS));
REG(kind<KXStack<X2, int, greater<int> > >("smemory::MaxStack<int>", "xstack", sizeof(int), ST | KF_EXTREMES, DS));
REG(kind<KHeap<H1, E24, less<E24> > >("smemory::MinHeap<E24>", "heap", sizeof(E24), ST | KF_NOCLEAR | KF_ONE_SENTINEL, DS));
REG(kind<KHeap<H2, int, greater<int> > >("smemory::PriorityQueue<int>", "heap", sizeof(int), ST | KF_NOCLEAR | KF_ONE_SENTINEL, DS));
REG(kind<KHeap<H3, int, greater<int> > >("smemory::MaxHeap<int>", "heap", sizeof(int), ST | KF_NOCLEAR | KF_ONE_SENTINEL, DS));
REG(kind<KTree<B1, E24, less<E24>, false> >("smemory::BSTree<E24>", "bst", sizeof(E24), ST | KF_HANDLES, DS));
REG(kind<KUF<U1> >("smemory::UFSet", "uf", sizeof(int), ST | KF_NOELEM | KF_NOCLEAR, DS));
REG(kind<KString<G1> >("smemory::String", "string", 1, ST | KF_NOELEM, DS));
REG(kind<KQueue<Q2, E24, true> >("smemory::Queue<E24>", "queue", sizeof(E24), ST | KF_NOCLEAR, DS, 32 * sizeof(E24)));
REG(kind<KDeque<D3, int> >("smemory::Deque<int>", "deque", sizeof(int), ST, DS, 32 * sizeof(int)));
}
