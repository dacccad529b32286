#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
#define VEC(T, A, D) REG(kind<KVector<Vector<T, A>, T> >("Vector<" #T "," #A ">", "vector", sizeof(T), 0, D))
VEC(int, SimAlloc<1>, 1); VEC(E24, SimAlloc<2>, 2); VEC(E56, dstruct::Alloc, DOM_DEFAULT); VEC(short, SimAlloc<3>, 3); VEC(E120, SimAlloc<1>, 1); VEC(Tri, SimAlloc<4>, 4); typedef unsigned char uchar; VEC(uchar, SimAlloc<5>, 5); VEC(double, dstruct::Alloc, DOM_DEFAULT); VEC(M24, SimAlloc<5>, 5); VEC(A32, SimAlloc<4>, 4);
typedef int *PI; VEC(PI, SimAlloc<3>, 3);
}
