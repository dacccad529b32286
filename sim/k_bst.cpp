#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<1> A1; typedef SimAlloc<2> A2;
typedef dstruct::BSTree<int, A1> B1; typedef dstruct::BSTree<E24> B2; typedef tree::BinarySearchTree<E24, greater<E24>, A2> B3; typedef tree::BinarySearchTree<E56, DirCmp<E56>, A1> B4; typedef tree::BinarySearchTree<int, DirCmp<int>, A2> B5;
REG(kind<KTree<B1, int, less<int>, false> >("BSTree<int>", "bst", sizeof(int), KF_HANDLES, 1));
REG(kind<KTree<B2, E24, less<E24>, false> >("BSTree<E24>", "bst", sizeof(E24), KF_HANDLES, DOM_DEFAULT));
REG(kind<KTree<B3, E24, greater<E24>, false> >("BSTree<E24,greater>", "bst", sizeof(E24), KF_HANDLES, 2));
REG(kind<KTree<B4, E56, DirCmp<E56>, false> >("BSTree<E56,DirCmp>", "bst", sizeof(E56), KF_HANDLES, 1));
typedef dstruct::BSTree<Tri, A2> B6; REG(kind<KTree<B6, Tri, less<Tri>, false> >("BSTree<Tri>", "bst", sizeof(Tri), KF_HANDLES, 2));
typedef dstruct::BSTree<A32, A1> B7; REG(kind<KTree<B7, A32, less<A32>, false> >("BSTree<A32>", "bst", sizeof(A32), KF_HANDLES, 1));
typedef dstruct::BSTree<M24, A2> B8; REG(kind<KTree<B8, M24, less<M24>, false> >("BSTree<M24>", "bst", sizeof(M24), KF_HANDLES, 2));
REG(kind<KTree<B5, int, DirCmp<int>, false> >("BSTree<int,DirCmp>", "bst", sizeof(int), KF_HANDLES, 2));
typedef int *PI; typedef dstruct::BSTree<PI, A1> B9; REG(kind<KTree<B9, PI, less<PI>, false> >("BSTree<int*>", "bst", sizeof(PI), KF_HANDLES, 1, 0, 0));
// equivalent values that are not the same: the one pushed first is the member
typedef dstruct::BSTree<Tag, A2> B10; REG(kind<KTree<B10, Tag, less<Tag>, false> >("BSTree<Tag>", "bst", sizeof(Tag), KF_HANDLES, 2));
}
