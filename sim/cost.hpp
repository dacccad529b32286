// Cost world: how much library work operations take, in steps of executed code.
#ifndef SIM_COST_HPP
#define SIM_COST_HPP
#include "heap.hpp"
namespace sim {
// what one step did: calls made, each allowed a constant (or a constant times log2 of the size), and the size once more where the cost is amortised
struct Work { u64 calls; bool lg; u64 slack; u64 one; Work() : calls(0), lg(false), slack(0), one(0) {} };
struct CostObj {
    virtual ~CostObj() {}
    virtual void create() = 0; virtual void destroy() = 0; virtual u64 size() = 0;
    virtual int n_ops() = 0; virtual const char *op_name(int k) = 0; virtual int grow_op(u32 r) = 0;
    virtual void run(int op, u32 k, u32 r, Work &w) = 0;
};
struct CostKind { const char *name; u64 factor; CostObj *(*make)(); };
std::vector<CostKind> &cost_kinds();
struct RegCost { RegCost(const char *n, u64 f, CostObj *(*m)()) { CostKind k = {n, f, m}; cost_kinds().push_back(k); } };
}
#endif
