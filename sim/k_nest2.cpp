#include "nest.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<8> A8; typedef SimAlloc<9> A9; typedef dstruct::Alloc AD;
typedef Vector<int, A8> V8; typedef BasicString<char, A9> S9; typedef BasicString<char, AD> SD; typedef DoublyLinkedList<int, A8> L8; typedef Vector<int, AD> VD; typedef SinglyLinkedList<int, A9> M9;
enum { NS = KF_NESTED | KF_NOELEM };
REG(kind<KHeap<dstruct::Heap<V8, ByVal<V8>, A8>, V8, ByVal<V8> > >("MinHeap<Vector<int>>", "heap", sizeof(V8), NS | KF_NOCLEAR | KF_ONE_SENTINEL, 8, 0, 0));
REG(kind<KHeap<dstruct::Heap<S9, ByValDown<S9>, A9>, S9, ByValDown<S9> > >("MaxHeap<String>", "heap", sizeof(S9), NS | KF_NOCLEAR | KF_ONE_SENTINEL, 9, 0, 0));
REG(kind<KTree<tree::BinarySearchTree<S9, ByVal<S9>, A9>, S9, ByVal<S9>, false> >("BSTree<String>", "bst", sizeof(S9), NS | KF_HANDLES, 9, 0, 0));
REG(kind<KTree<tree::BinarySearchTree<L8, ByValDown<L8>, A8>, L8, ByValDown<L8>, false> >("BSTree<DoublyLinkedList<int>>", "bst", sizeof(L8), NS | KF_HANDLES, 8, 0, 0));
REG(kind<KTree<AVLTree<V8, ByVal<V8>, A8>, V8, ByVal<V8>, true> >("AVLTree<Vector<int>>", "avl", sizeof(V8), NS | KF_HANDLES, 8, 0, 0));
REG(kind<KTree<AVLTree<S9, ByValDown<S9>, A9>, S9, ByValDown<S9>, true> >("AVLTree<String>", "avl", sizeof(S9), NS | KF_HANDLES, 9, 0, 0));
template <class K, class V, class CMP, class A> struct MapOf { typedef dstruct::Map<K, V, CMP, AVLTree<KeyValue<const K, V>, KVCMPKey<KeyValue<const K, V>, CMP>, A> > type; };
typedef MapOf<int, V8, less<int>, A8>::type P1; REG(kind<KMap<P1, int, V8, less<int> > >("Map<int,Vector<int>>", "map", sizeof(V8) + 4, NS | KF_HANDLES, 8, 0, 0));
typedef dstruct::Map<SD, int, ByVal<SD> > P2; REG(kind<KMap<P2, SD, int, ByVal<SD> > >("Map<String,int>", "map", sizeof(SD) + 4, NS | KF_HANDLES, DOM_DEFAULT, 0, 0));
typedef MapOf<S9, M9, ByValDown<S9>, A9>::type P3; REG(kind<KMap<P3, S9, M9, ByValDown<S9> > >("Map<String,SinglyLinkedList<int>>", "map", sizeof(S9) + sizeof(M9), NS | KF_HANDLES, 9, 0, 0));
}
