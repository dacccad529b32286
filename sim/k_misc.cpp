#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<7> A7; typedef SimAlloc<8> A8;
typedef DisjointSet<A7> U1; typedef dstruct::UFSet U2; typedef BasicString<char, A8> S1; typedef dstruct::String S2;
REG(kind<KUF<U1> >("DisjointSet<A7>", "uf", sizeof(int), KF_NOELEM | KF_NOCLEAR, 7));
REG(kind<KUF<U2> >("UFSet", "uf", sizeof(int), KF_NOELEM | KF_NOCLEAR, DOM_DEFAULT));
REG(kind<KString<S1> >("BasicString<char,A8>", "string", 1, KF_NOELEM, 8));
REG(kind<KString<S2> >("String", "string", 1, KF_NOELEM, DOM_DEFAULT));
}
