#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<6> A6; typedef SimAlloc<7> A7;
typedef DoubleEndedQueue<E24, 2, A6> QD2; typedef DoubleEndedQueue<E56, 4, A7> QD4;
typedef adapter::Queue<E24, QD2> Q1; typedef adapter::Queue<E56, QD4> Q2;
typedef dstruct::Queue<E24> Q3; typedef dstruct::Queue<int, A6> Q4;
typedef adapter::Queue<E24, SinglyLinkedList<E24, A7> > Q5; typedef adapter::Queue<int, DoublyLinkedList<int, A6> > Q6;
REG(kind<KQueue<Q1, E24, true> >("Queue<E24,Deque2>", "queue", sizeof(E24), KF_NOCLEAR, 6, 2 * sizeof(E24)));
REG(kind<KQueue<Q2, E56, true> >("Queue<E56,Deque4>", "queue", sizeof(E56), KF_NOCLEAR, 7, 4 * sizeof(E56)));
REG(kind<KQueue<Q3, E24, true> >("Queue<E24>", "queue", sizeof(E24), KF_NOCLEAR | KF_BIGBLOCK, DOM_DEFAULT, 32 * sizeof(E24)));
REG(kind<KQueue<Q4, int, true> >("Queue<int,A6>", "queue", sizeof(int), KF_NOCLEAR | KF_BIGBLOCK, 6, 32 * sizeof(int)));
REG(kind<KQueue<Q5, E24, false> >("Queue<E24,SList>", "queue", sizeof(E24), KF_NOCLEAR, 7));
typedef dstruct::Queue<Tri, A7> Q7; REG(kind<KQueue<Q7, Tri, true> >("Queue<Tri,A7>", "queue", sizeof(Tri), KF_NOCLEAR | KF_BIGBLOCK, 7, 32 * sizeof(Tri)));
typedef dstruct::Queue<M24, A6> Q8; REG(kind<KQueue<Q8, M24, true> >("Queue<M24,A6>", "queue", sizeof(M24), KF_NOCLEAR | KF_BIGBLOCK, 6, 32 * sizeof(M24)));
REG(kind<KQueue<Q6, int, false> >("Queue<int,DList>", "queue", sizeof(int), KF_NOCLEAR, 6));
}
