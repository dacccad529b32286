#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<5> A5; typedef SimAlloc<6> A6;
template <class K, class V, class CMP, class A> struct MapOf { typedef KeyValue<const K, V> KV; typedef dstruct::Map<K, V, CMP, AVLTree<KV, KVCMPKey<KV, CMP>, A> > type; };
#define MAP(NM, K, V, CMP, A, D) typedef MapOf<K, V, CMP<K>, A>::type NM; REG(kind<KMap<NM, K, V, CMP<K> > >("Map<" #K "," #V "," #CMP "," #A ">", "map", sizeof(K) + sizeof(V), KF_HANDLES, D, 0, IsElem<K>::v + IsElem<V>::v))
MAP(M1, int, int, less, A5, 5); MAP(M2, int, E56, greater, A6, 6); MAP(M3, E24, E24, less, dstruct::Alloc, DOM_DEFAULT); MAP(M4, E24, int, greater, A5, 5); MAP(M5, short, Tri, less, A6, 6); MAP(M6, int, M24, less, A5, 5); MAP(M7, short, A32, greater, A6, 6); MAP(M8, A32, int, less, A5, 5);
typedef int *PI; MAP(M9, PI, int, less, A6, 6); MAP(M10, int, PI, greater, A5, 5);
}
