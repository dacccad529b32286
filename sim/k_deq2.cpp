#include "kinds2.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<6> A6; typedef SimAlloc<7> A7;
#define DEQ(T, N, A, D) typedef DoubleEndedQueue<T, N, A> Dq_##T##_##N; REG(kind<KDeque<Dq_##T##_##N, T> >("Deque<" #T "," #N "," #A ">", "deque", sizeof(T), N > 4 ? KF_BIGBLOCK : 0, D, N * sizeof(T)))
DEQ(E56, 4, A6, 6); DEQ(E24, 8, A7, 7); DEQ(int, 32, A6, 6); DEQ(E24, 32, dstruct::Alloc, DOM_DEFAULT); DEQ(E24, 5, A7, 7); DEQ(short, 16, A6, 6);
}
