#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<10> A10; typedef SimAlloc<11> A11;
typedef dstruct::Stack<E24, A10> S1; typedef dstruct::Stack<int> S2; typedef adapter::Stack<E24, DoubleEndedQueue<E24, 3, A11> > S3; typedef adapter::Stack<E56, DoublyLinkedList<E56, A11> > S4;
REG(kind<KStack<S1, E24> >("Stack<E24>", "stack", sizeof(E24), 0, 10));
REG(kind<KStack<S2, int> >("Stack<int>", "stack", sizeof(int), 0, DOM_DEFAULT));
REG(kind<KStack<S3, E24> >("Stack<E24,Deque3>", "stack", sizeof(E24), 0, 11, 3 * sizeof(E24)));
REG(kind<KStack<S4, E56> >("Stack<E56,DList>", "stack", sizeof(E56), 0, 11));
typedef dstruct::MinStack<E24, A10> X1; typedef dstruct::MaxStack<E24, A11> X2; typedef dstruct::MinStack<int> X3; typedef dstruct::MaxStack<int, A10> X4;
typedef stack::XValueStack<E24, DirCmp<E24>, adapter::Stack<E24, Vector<E24, A11> > > X5;
typedef stack::XValueStack<int, less<int>, adapter::Stack<int, DoubleEndedQueue<int, 2, A10> > > X6;
REG(kind<KXStack<X1, E24, less<E24> > >("MinStack<E24>", "xstack", sizeof(E24), KF_EXTREMES, 10));
REG(kind<KXStack<X2, E24, greater<E24> > >("MaxStack<E24>", "xstack", sizeof(E24), KF_EXTREMES, 11));
REG(kind<KXStack<X3, int, less<int> > >("MinStack<int>", "xstack", sizeof(int), KF_EXTREMES, DOM_DEFAULT));
REG(kind<KXStack<X4, int, greater<int> > >("MaxStack<int>", "xstack", sizeof(int), KF_EXTREMES, 10));
REG(kind<KXStack<X5, E24, DirCmp<E24> > >("XValueStack<E24,DirCmp>", "xstack", sizeof(E24), KF_EXTREMES, 11));
typedef dstruct::MinStack<Tri, A11> X7; REG(kind<KXStack<X7, Tri, less<Tri> > >("MinStack<Tri>", "xstack", sizeof(Tri), KF_EXTREMES, 11));
typedef dstruct::Stack<M24, A10> S5; REG(kind<KStack<S5, M24> >("Stack<M24>", "stack", sizeof(M24), 0, 10));
typedef dstruct::Stack<A32, A11> S6; REG(kind<KStack<S6, A32> >("Stack<A32>", "stack", sizeof(A32), 0, 11));
typedef dstruct::MaxStack<M24, A10> X8; REG(kind<KXStack<X8, M24, greater<M24> > >("MaxStack<M24>", "xstack", sizeof(M24), KF_EXTREMES, 10));
REG(kind<KXStack<X6, int, less<int> > >("MinStack<int,Deque2>", "xstack", sizeof(int), KF_EXTREMES, 10, 2 * sizeof(int)));
typedef int *PI; typedef dstruct::MaxStack<PI, A10> X9; REG(kind<KXStack<X9, PI, greater<PI> > >("MaxStack<int*>", "xstack", sizeof(PI), KF_EXTREMES, 10, 0, 0));
typedef dstruct::MinStack<PI, A11> X10; REG(kind<KXStack<X10, PI, less<PI> > >("MinStack<int*>", "xstack", sizeof(PI), KF_EXTREMES, 11, 0, 0));
typedef stack::XValueStack<E24, TieCmp<E24>, adapter::Stack<E24, Vector<E24, A10> > > X11; REG(kind<KXStack<X11, E24, TieCmp<E24> > >("XValueStack<E24,TieCmp>", "xstack", sizeof(E24), KF_EXTREMES, 10));
typedef stack::XValueStack<int, TieDown<int>, adapter::Stack<int, Vector<int, A11> > > X12; REG(kind<KXStack<X12, int, TieDown<int> > >("XValueStack<int,TieDown>", "xstack", sizeof(int), KF_EXTREMES, 11));
}
