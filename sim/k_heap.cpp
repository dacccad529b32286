#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<12> A12; typedef SimAlloc<13> A13;
typedef dstruct::MinHeap<E24, A12> H1; typedef dstruct::MaxHeap<E24> H2; typedef dstruct::PriorityQueue<int, greater<int>, A13> H3; typedef dstruct::Heap<E56, DirCmp<E56>, A13> H4; typedef dstruct::PriorityQueue<int, less<int>, A12> H5;
REG(kind<KHeap<H1, E24, less<E24> > >("MinHeap<E24>", "heap", sizeof(E24), KF_NOCLEAR | KF_ONE_SENTINEL, 12));
REG(kind<KHeap<H2, E24, greater<E24> > >("MaxHeap<E24>", "heap", sizeof(E24), KF_NOCLEAR | KF_ONE_SENTINEL, DOM_DEFAULT));
REG(kind<KHeap<H3, int, greater<int> > >("PriorityQueue<int,greater>", "heap", sizeof(int), KF_NOCLEAR | KF_ONE_SENTINEL, 13));
REG(kind<KHeap<H4, E56, DirCmp<E56> > >("Heap<E56,DirCmp>", "heap", sizeof(E56), KF_NOCLEAR | KF_ONE_SENTINEL, 13));
typedef dstruct::MaxHeap<Tri, A13> H6; REG(kind<KHeap<H6, Tri, greater<Tri> > >("MaxHeap<Tri,A13>", "heap", sizeof(Tri), KF_NOCLEAR | KF_ONE_SENTINEL, 13));
typedef dstruct::MinHeap<M24, A13> H7; REG(kind<KHeap<H7, M24, less<M24> > >("MinHeap<M24>", "heap", sizeof(M24), KF_NOCLEAR | KF_ONE_SENTINEL, 13));
typedef dstruct::MaxHeap<A32, A12> H8; REG(kind<KHeap<H8, A32, greater<A32> > >("MaxHeap<A32>", "heap", sizeof(A32), KF_NOCLEAR | KF_ONE_SENTINEL, 12));
REG(kind<KHeap<H5, int, less<int> > >("PriorityQueue<int>", "heap", sizeof(int), KF_NOCLEAR | KF_ONE_SENTINEL, 12));
typedef int *PI;
typedef dstruct::MinHeap<PI, A13> H9; REG(kind<KHeap<H9, PI, less<PI> > >("MinHeap<int*>", "heap", sizeof(PI), KF_NOCLEAR | KF_ONE_SENTINEL, 13, 0, 0));
typedef dstruct::MaxHeap<PI, A12> H10; REG(kind<KHeap<H10, PI, greater<PI> > >("MaxHeap<int*>", "heap", sizeof(PI), KF_NOCLEAR | KF_ONE_SENTINEL, 12, 0, 0));
typedef dstruct::PriorityQueue<E24, TieCmp<E24>, A12> H11; REG(kind<KHeap<H11, E24, TieCmp<E24> > >("PriorityQueue<E24,TieCmp>", "heap", sizeof(E24), KF_NOCLEAR | KF_ONE_SENTINEL, 12));
typedef dstruct::Heap<int, TieDown<int>, A13> H12; REG(kind<KHeap<H12, int, TieDown<int> > >("Heap<int,TieDown>", "heap", sizeof(int), KF_NOCLEAR | KF_ONE_SENTINEL, 13));
}
