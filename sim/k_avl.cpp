#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<3> A3; typedef SimAlloc<4> A4;
typedef AVLTree<int, less<int>, A3> T1; typedef AVLTree<E24, less<E24>, dstruct::Alloc> T2; typedef AVLTree<E24, greater<E24>, A4> T3; typedef AVLTree<E56, DirCmp<E56>, A3> T4; typedef AVLTree<int, DirCmp<int>, A4> T5;
REG(kind<KTree<T1, int, less<int>, true> >("AVLTree<int>", "avl", sizeof(int), KF_HANDLES, 3));
REG(kind<KTree<T2, E24, less<E24>, true> >("AVLTree<E24>", "avl", sizeof(E24), KF_HANDLES, DOM_DEFAULT));
REG(kind<KTree<T3, E24, greater<E24>, true> >("AVLTree<E24,greater>", "avl", sizeof(E24), KF_HANDLES, 4));
REG(kind<KTree<T4, E56, DirCmp<E56>, true> >("AVLTree<E56,DirCmp>", "avl", sizeof(E56), KF_HANDLES, 3));
typedef AVLTree<short, greater<short>, A3> T6; REG(kind<KTree<T6, short, greater<short>, true> >("AVLTree<short,greater>", "avl", sizeof(short), KF_HANDLES, 3));
typedef AVLTree<A32, less<A32>, A4> T7; REG(kind<KTree<T7, A32, less<A32>, true> >("AVLTree<A32>", "avl", sizeof(A32), KF_HANDLES, 4));
typedef AVLTree<M24, greater<M24>, A3> T8; REG(kind<KTree<T8, M24, greater<M24>, true> >("AVLTree<M24,greater>", "avl", sizeof(M24), KF_HANDLES, 3));
REG(kind<KTree<T5, int, DirCmp<int>, true> >("AVLTree<int,DirCmp>", "avl", sizeof(int), KF_HANDLES, 4));
typedef int *PI; typedef AVLTree<PI, greater<PI>, A3> T9; REG(kind<KTree<T9, PI, greater<PI>, true> >("AVLTree<int*,greater>", "avl", sizeof(PI), KF_HANDLES, 3, 0, 0));
}
