#pragma once
#include "sim.h"
namespace sim {
// Allocator (alloc.cpp)
extern bool g_inSim;           // true only inside a simulated execution
struct AllocState
{
  AllocPolicy pol;
  uint64_t failAt = 0;         // 0: never
  uint64_t failCount = 1;      // 0: all later ones
  uint64_t n = 0, frees = 0, reuses = 0, failed = 0;
  uint64_t hash = 0;
  uint64_t budget = 0;
};
extern AllocState g_as;
void allocEnterSim();
bool addrInFreed(uint64_t a);  // guard mode: address lies in a released object
bool addrInArena(uint64_t a);
void* simPages(uint64_t bytes);
extern const World* g_simWorld;  // of the simulated execution
// raw syscalls that bypass the simulated kernel
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0);
[[noreturn]] void finish(int end, int code, uint64_t addr = 0);
}  // namespace sim
