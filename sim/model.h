// Independent reference model of the published t1ha functions ("the release already deployed").
#pragma once
#include "util.h"
u64 m_t1ha0_32le(const void *, size_t, u64);
u64 m_t1ha0_32be(const void *, size_t, u64);
u64 m_aes_a(const void *, size_t, u64);
u64 m_aes_b(const void *, size_t, u64);
u64 m_t1ha1_le(const void *, u64 len, u64);
u64 m_t1ha1_be(const void *, u64 len, u64);
u64 m_t1ha2(const void *, u64 len, u64);
u64 m_t1ha2_128(u64 *hi, const void *, u64 len, u64);
struct MStream {
  u64 a, b, c, d, total; unsigned partial; u8 buf[32];
  void init(u64 x, u64 y); void update(const void *, u64 len);
  u64 final64() const; u64 final128(u64 *hi) const;
};
bool model_selftest(std::string &why); // against the pinned reference vectors
extern const u8 g_pattern[64];
extern const u64 g_ref[10][81]; // 0:32le 1:32be 2:aes_a 3:aes_b 4:64le 5:64be 6:2atonce 7:2atonce128 8:2stream 9:2stream128
extern std::vector<u64> *m_trace; extern const u64 m_prime[7]; extern const u32 m_prime32[7];
