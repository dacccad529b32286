// Interface between the static-allocator instances (instrumented) and the world that drives them.
#ifndef SIM_SMA_HPP
#define SIM_SMA_HPP
#include "core.hpp"
namespace sim {
struct SmaApi { int mem, max_block; void *(*alloc)(int); bool (*release)(void *, int); int (*free_size)(); int (*max_free)(); void (*merge)(); void (*dump)(); };
std::vector<SmaApi> &sma_apis();
enum { SMA_MAX_BLOCKS = 4096 };
}
#endif
