// Streams shared by C01 (delivery) and C02 (checkpoints).
#pragma once
#include "common.h"
typedef void (*init_t)(void *, u64, u64); typedef void (*upd_t)(void *, const void *, size_t); typedef u64 (*fin_t)(void *, u64 *);
struct Piece { size_t at, n; };
struct Strm {
  bool live = false; u8 *ctx = 0; u64 sx = 0, sy = 0; MStream model; 
  std::vector<u8> bytes; std::vector<Piece> pieces; bool huge = false;
};
// context memory: zone 20, slot i at any aligned offset, optionally ending exactly at a page end
static inline u8 *ctx_at(int slot, int off) {
  size_t o = (size_t)(slot & 31) * 2 * PG; zone_commit(20, o, PG, 3); size_t room = PG - g_ctx_size;
  size_t a = off < 0 ? room : (size_t)off % (room + 1); a -= a % g_ctx_align; return zone(20) + o + a;
}
