#include "kinds3.hpp"
namespace sim {
using namespace dstruct;
enum { NOEL = KF_NOELEM | KF_NOCLEAR };
typedef SimAlloc<1> A1; typedef SimAlloc<2> A2; typedef SimAlloc<3> A3;
typedef dstruct::Vector<int, A1> V1; typedef dstruct::Vector<E24, A2> V2;
REG(kind<KAlg<KVector<V1, int>, V1, int, true> >("range over Vector<int>", "range", sizeof(int), NOEL, 1, 0, 0));
REG(kind<KAlg<KVector<V2, E24>, V2, E24, true> >("range over Vector<E24>", "range", sizeof(E24), NOEL, 2, 0, 0));
typedef dstruct::DoubleEndedQueue<int, 2, A1> D1; typedef dstruct::DoubleEndedQueue<E24, 3, A3> D2; typedef dstruct::DoubleEndedQueue<short, 16, A2> D3;
REG(kind<KAlg<KDeque<D1, int>, D1, int, false> >("range over Deque<int,2>", "range", sizeof(int), NOEL, 1, 0, 0));
REG(kind<KAlg<KDeque<D2, E24>, D2, E24, false> >("range over Deque<E24,3>", "range", sizeof(E24), NOEL, 3, 0, 0));
REG(kind<KAlg<KDeque<D3, short>, D3, short, false> >("range over Deque<short,16>", "range", sizeof(short), NOEL, 2, 0, 0));
typedef dstruct::SinglyLinkedList<int, A1> L1; typedef dstruct::DoublyLinkedList<E24, A2> L2;
REG(kind<KAlg<KList<L1, int, false>, L1, int, true> >("range over SinglyLinkedList<int>", "range", sizeof(int), NOEL, 1, 0, 0));
REG(kind<KAlg<KList<L2, E24, true>, L2, E24, true> >("range over DoublyLinkedList<E24>", "range", sizeof(E24), NOEL, 2, 0, 0));
typedef dstruct::BSTree<int, A1> B1; typedef dstruct::BSTree<E24, A3> B2; typedef AVLTree<E24, less<E24>, A2> T1; 
REG(kind<KAlg<KTree<B1, int, less<int>, false>, B1, int, false> >("range over BSTree<int>", "range", sizeof(int), NOEL, 1, 0, 0));
REG(kind<KAlg<KTree<B2, E24, less<E24>, false>, B2, E24, false> >("range over BSTree<E24>", "range", sizeof(E24), NOEL, 3, 0, 0));
REG(kind<KAlg<KTree<T1, E24, less<E24>, true>, T1, E24, false> >("range over AVLTree<E24>", "range", sizeof(E24), NOEL, 2, 0, 0));
typedef adapter::Queue<E24, DoubleEndedQueue<E24, 2, A2> > Q1; typedef dstruct::Stack<short, A3> S1;
REG(kind<KAlg<KQueue<Q1, E24, true>, Q1, E24, false> >("range over Queue<E24>", "range", sizeof(E24), NOEL, 2, 0, 0));
REG(kind<KAlg<KStack<S1, short>, S1, short, false> >("range over Stack<short>", "range", sizeof(short), NOEL, 3, 0, 0));
typedef BasicString<char, A1> Z1; REG(kind<KAlg<KString<Z1>, Z1, char, false> >("range over String", "range", 1, NOEL, 1, 0, 0));
REG(kind<KAlg<KArray<int, 40>, Array<int, 40>, int, true> >("range over Array<int,40>", "range", sizeof(int), NOEL, DOM_DEFAULT, 0, 0));
REG(kind<KAlg<KArray<E24, 9>, Array<E24, 9>, E24, true> >("range over Array<E24,9>", "range", sizeof(E24), NOEL, DOM_DEFAULT, 0, 0));
}
