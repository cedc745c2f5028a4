// Simulated CPUs ("cpu" lines), stand-ins for the hash functions, and the identification of what t1ha0 is bound to.
#pragma once
#include "stepworld.h"
bool cpu_line(const Line &, SimCpu &);       // cpu max_leaf ecx1 edx1 ebx7 ecx7 above xcr0 has_cpuid
Line gen_cpu(Rng &, bool sane);
int best_on(const Image *, const SimCpu &);  // fastest implementation usable there
const char *cpu_lacks(const SimCpu &, int fn); // feature fn needs and this machine lacks, or null
// stand-ins: the library's own functions, entered through a patched first instruction, answered by the model
struct Malf { int kind = 0; u64 arg = 0; };    // 0: healthy
struct Stubs { Image *im = 0; u8 save[F_ALL][16]; bool on[F_ALL]; void install(Image *, u64 mask); void remove(); ~Stubs() { remove(); } };
extern std::map<std::pair<int, int>, Malf> g_malf; // (function, vector) -> malfunction; vector 81: any other input
extern int g_stub_last; extern SimCpu *g_stub_cpu; extern std::string g_stub_bad; extern std::map<int, u64> g_stub_calls;
int vector_of(u64 len, u64 seed);              // index of the reference vector with these arguments, 81 if none
