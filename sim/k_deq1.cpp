#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<4> A4; typedef SimAlloc<5> A5;
#define DEQ(T, N, A, D) typedef dstruct::Deque<T, N, A> Dq_##T##_##N; REG(kind<KDeque<Dq_##T##_##N, T> >("Deque<" #T "," #N "," #A ">", "deque", sizeof(T), N > 4 ? KF_BIGBLOCK : 0, D, N * sizeof(T)))
DEQ(int, 1, A4, 4); DEQ(E24, 1, A5, 5); DEQ(E24, 2, A4, 4); DEQ(int, 3, dstruct::Alloc, DOM_DEFAULT); DEQ(E24, 3, A5, 5); DEQ(Tri, 3, A4, 4); DEQ(M24, 3, A4, 4); DEQ(A32, 2, A5, 5);
}
