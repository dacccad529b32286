#include "nest.hpp"
namespace sim {
namespace sm = dstruct::smemory;
using dstruct::less; using dstruct::greater;
typedef sm::Vector<E24> V1; typedef sm::Vector<int> V2; typedef sm::SLinkedList<E24> L1; typedef sm::DLinkedList<E24> L2; typedef sm::Deque<int, 2> D1; typedef sm::Deque<E24, 3> D2; typedef sm::Queue<int> Q1;
enum { ST = KF_STATIC, DS = 14 };
REG(kind<KVector<V1, E24> >("smemory::Vector<E24>", "vector", sizeof(E24), ST, DS));
REG(kind<KVector<V2, int> >("smemory::Vector<int>", "vector", sizeof(int), ST, DS));
REG(kind<KList<L1, E24, false> >("smemory::SLinkedList<E24>", "slist", sizeof(E24), ST | KF_HANDLES, DS));
REG(kind<KList<L2, E24, true> >("smemory::DLinkedList<E24>", "dlist", sizeof(E24), ST | KF_HANDLES, DS));
REG(kind<KDeque<D1, int> >("smemory::Deque<int,2>", "deque", sizeof(int), ST, DS, 2 * sizeof(int)));
REG(kind<KDeque<D2, E24> >("smemory::Deque<E24,3>", "deque", sizeof(E24), ST, DS, 3 * sizeof(E24)));
REG(kind<KQueue<Q1, int, true> >("smemory::Queue<int>", "queue", sizeof(int), ST | KF_NOCLEAR, DS, 32 * sizeof(int)));
typedef sm::Vector<Tri> V3; typedef sm::Deque<short, 5> D4; typedef sm::SLinkedList<Tri> L3;
REG(kind<KVector<V3, Tri> >("smemory::Vector<Tri>", "vector", sizeof(Tri), ST, DS));
REG(kind<KDeque<D4, short> >("smemory::Deque<short,5>", "deque", sizeof(short), ST, DS, 5 * sizeof(short)));
REG(kind<KList<L3, Tri, false> >("smemory::SLinkedList<Tri>", "slist", sizeof(Tri), ST | KF_HANDLES, DS));
REG(kind<KVector<sm::Vector<sm::String>, sm::String> >("smemory::Vector<smemory::String>", "vector", sizeof(sm::String), ST | KF_NESTED | KF_NOELEM, DS, 0, 0));
static int fs() { return sm::SMA::free_mem_size(); }
static int mb() { return sm::SMA::max_free_mblock_size(); }
static void mg() { sm::SMA::memory_merge(); }
static void *al(int n) { return sm::SMA::allocate(n); }
static bool rl(void *p, int n) { return sm::SMA::deallocate(p, n); }
static StaticArena the_arena = {fs, mb, mg, al, rl};
static struct SetArena { SetArena() { static_arena = &the_arena; } } set_arena;
}
