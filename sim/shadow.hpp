// Shadow of an arena: which bytes are in use, independent of how the allocator keeps its books.
#ifndef SIM_SHADOW_HPP
#define SIM_SHADOW_HPP
#include "core.hpp"
namespace sim {
struct Block { long bytes; int owner; u64 pat; };
struct Shadow {
    char *base; long size; std::map<char *, Block> live; long used;   // used: sum of sizes rounded up to 8
    Shadow() : base(0), size(0), used(0) {}
    static long up(long n) { return (n + 7) / 8 * 8; }
    // why this block may not be handed out now; null if it may
    const char *add(void *p_, long bytes, int owner, u64 pat, bool judge_align = true) {
        char *p = (char *)p_;
        if (judge_align && ((uintptr_t)p & 7)) return "is not 8-byte aligned";
        if (base && (p < base || p + bytes > base + size)) return "lies outside the arena";
        auto it = live.lower_bound(p);
        if (it != live.end() && it->first < p + bytes) return "overlaps a block still in use";
        if (it != live.begin()) { auto q = it; --q; if (q->first + q->second.bytes > p) return "overlaps a block still in use"; }
        Block b = {bytes, owner, pat}; live[p] = b; used += up(bytes);
        for (long i = 0; i < bytes; i++) p[i] = pat_at(pat, i);
        return 0;
    }
    static char pat_at(u64 pat, long i) { return (char)(pat >> (i & 7) * 8); }
    static bool intact(char *p, const Block &b) { long i = 0; u64 w; for (; i + 8 <= b.bytes; i += 8) { memcpy(&w, p + i, 8); if (w != b.pat) return false; } for (; i < b.bytes; i++) if (p[i] != pat_at(b.pat, i)) return false; return true; }
    void remove(void *p) { auto it = live.find((char *)p); used -= up(it->second.bytes); live.erase(it); }
    std::vector<long> runs() const {
        std::vector<long> r; char *at = base;
        for (auto &e : live) { if (e.first > at) r.push_back((long)(e.first - at)); at = e.first + up(e.second.bytes); }
        if (at < base + size) r.push_back((long)(base + size - at));
        return r;
    }
    long largest() const { long m = 0; for (long x : runs()) m = std::max(m, x); return m; }
    u64 shape() const { u64 h = 7; char *at = base; for (auto &e : live) { h = mix(h, (u64)(e.first - at)); h = mix(h, (u64)up(e.second.bytes)); at = e.first + up(e.second.bytes); } return h; }
};
}
#endif
