// Real StaticMemAllocator instances of several arena sizes and quick-block limits.
#include <dstruct.hpp>
#include "sma.hpp"
namespace sim {
std::vector<SmaApi> &sma_apis() { static std::vector<SmaApi> v; return v; }
template <int M, int B> struct Reg {
    typedef dstruct::StaticMemAllocator<M, B> A;
    static void *al(int n) { LibScope l; return A::allocate(n); }
    static bool re(void *p, int n) { LibScope l; return A::deallocate(p, n); }
    static int fs() { LibScope l; return A::free_mem_size(); }
    static int mf() { LibScope l; return A::max_free_mblock_size(); }
    static void mg() { LibScope l; A::memory_merge(); }
    static void du() { LibScope l; A::dump(); }
    Reg() { SmaApi a = {M, B, al, re, fs, mf, mg, du}; sma_apis().push_back(a); }
};
static Reg<1024, 1024> a0; static Reg<1024, 128> a1; static Reg<4096, 64> a2; static Reg<256, 8> a3; static Reg<10240, 128> a4; static Reg<65536, 128> a5;
static Reg<4096, 4096> a6; static Reg<512, 16> a7; static Reg<2048, 100> a8; static Reg<64, 128> a9; static Reg<8192, 1024> a10; static Reg<1048576, 128> a11;
}
