#include "nest.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<5> A5; typedef SimAlloc<6> A6; typedef SimAlloc<7> A7; typedef dstruct::Alloc AD;
typedef Vector<int, A5> V5; typedef BasicString<char, A6> S6; typedef BasicString<char, AD> SD; typedef DoublyLinkedList<int, A7> L7; typedef DoubleEndedQueue<int, 2, A5> D5; typedef SinglyLinkedList<int, A6> M6; typedef Vector<int, AD> VD;
enum { NS = KF_NESTED | KF_NOELEM };
REG(kind<KVector<Vector<V5, A5>, V5> >("Vector<Vector<int>>", "vector", sizeof(V5), NS, 5, 0, 0));
REG(kind<KVector<Vector<SD, AD>, SD> >("Vector<String>", "vector", sizeof(SD), NS, DOM_DEFAULT, 0, 0));
REG(kind<KVector<Vector<L7, A7>, L7> >("Vector<DoublyLinkedList<int>>", "vector", sizeof(L7), NS, 7, 0, 0));
REG(kind<KDeque<DoubleEndedQueue<S6, 3, A6>, S6> >("Deque<String,3>", "deque", sizeof(S6), NS, 6, 3 * sizeof(S6), 0));
REG(kind<KDeque<DoubleEndedQueue<D5, 2, A5>, D5> >("Deque<Deque<int,2>,2>", "deque", sizeof(D5), NS, 5, 2 * sizeof(D5), 0));
REG(kind<KQueue<adapter::Queue<V5, DoubleEndedQueue<V5, 4, A5> >, V5, true> >("Queue<Vector<int>>", "queue", sizeof(V5), NS | KF_NOCLEAR, 5, 4 * sizeof(V5), 0));
REG(kind<KList<DoublyLinkedList<VD, AD>, VD, true> >("DoublyLinkedList<Vector<int>>", "dlist", sizeof(VD), NS | KF_HANDLES, DOM_DEFAULT, 0, 0));
REG(kind<KList<SinglyLinkedList<S6, A6>, S6, false> >("SinglyLinkedList<String>", "slist", sizeof(S6), NS | KF_HANDLES, 6, 0, 0));
REG(kind<KList<DoublyLinkedList<L7, A7>, L7, true> >("DoublyLinkedList<DoublyLinkedList<int>>", "dlist", sizeof(L7), NS | KF_HANDLES, 7, 0, 0));
REG(kind<KStack<adapter::Stack<S6, Vector<S6, A6> >, S6> >("Stack<String>", "stack", sizeof(S6), NS, 6, 0, 0));
typedef stack::XValueStack<V5, ByVal<V5>, adapter::Stack<V5, Vector<V5, A5> > > X1; REG(kind<KXStack<X1, V5, ByVal<V5> > >("MinStack<Vector<int>>", "xstack", sizeof(V5), NS | KF_EXTREMES, 5, 0, 0));
}
