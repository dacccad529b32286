#include "kinds3.hpp"
namespace sim {
using namespace dstruct;
enum { NOEL = KF_NOELEM | KF_NOCLEAR };
#define ARR(T, N) REG(kind<KArray<T, N> >("Array<" #T "," #N ">", "array", sizeof(T), NOEL, DOM_DEFAULT, 0, 0))
ARR(int, 0); ARR(int, 1); ARR(int, 33); ARR(short, 300); ARR(E24, 1); ARR(E24, 5); ARR(E56, 16); ARR(M24, 6); ARR(A32, 4); ARR(double, 7); ARR(Tri, 9);
#define RING(T, L, D, DOM) REG(kind<KRing<T, L, D, DOM> >("Ring<" #T "," #L ">", "ring", 0, NOEL, DOM, 0, 0))
RING(int, SinglyLink_, false, 1); RING(E24, SinglyLink_, false, 2); RING(int, DoublyLink_, true, 3); RING(E24, DoublyLink_, true, 4); RING(E56, DoublyLink_, true, 5); RING(short, SinglyLink_, false, 6);
#define CHAIN(T, L, D, DOM) REG(kind<KRing<T, L, D, DOM, true> >("Chain<" #T "," #L ">", "ring", 0, NOEL, DOM, 0, 0))
CHAIN(int, SinglyLink_, false, 7); CHAIN(E24, DoublyLink_, true, 8); CHAIN(int, DoublyLink_, true, 9);
typedef int *PI; typedef const char *PCC; typedef E24 *PE;
#define ORD(T, DOM) REG(kind<KOrder<T, DOM> >("Order<" #T ">", "order", 0, NOEL, DOM, 0, 0))
ORD(int, 1); ORD(short, 2); ORD(unsigned char, 3); ORD(signed char, 4); ORD(unsigned, 5); ORD(long long, 6); ORD(double, 7); ORD(float, 8); ORD(E24, 9); ORD(PI, 10); ORD(PCC, 11); ORD(PE, 12);
}
