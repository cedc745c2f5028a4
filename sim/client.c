/* A client of the library, compiled with the flags of the build variant: what t1ha.h itself makes of t1ha0. */
#include "t1ha.h"
#ifndef T1HA0_DISABLED
uint64_t client_t1ha0(const void *data, size_t length, uint64_t seed) {
  return t1ha0(data, length, seed);
}
#else
int client_nothing;
#endif
