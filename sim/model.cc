#include "model.h"
#include <cpuid.h>
#include <immintrin.h>
// Written from the published description of the algorithms; byte-wise loads, no shared code with /repo.
static inline u64 ld64(const u8 *p) { u64 v; memcpy(&v, p, 8); return v; }
static inline u32 ld32(const u8 *p) { u32 v; memcpy(&v, p, 4); return v; }
static inline u64 rd(const u8 *p, unsigned n, bool be) { // n bytes, 1..8, little or big endian integer
  u64 v = 0;
  if (be) for (unsigned i = 0; i < n; i++) v = v << 8 | p[i];
  else for (unsigned i = 0; i < n; i++) v |= (u64)p[i] << (8 * i);
  return v;
}
static inline u64 L64(const u8 *p, bool be) { u64 v = ld64(p); return be ? __builtin_bswap64(v) : v; }
static inline u32 L32(const u8 *p, bool be) { u32 v = ld32(p); return be ? __builtin_bswap32(v) : v; }
static inline u64 r64(u64 v, unsigned s) { return v >> s | v << (64 - s); }
static inline u32 r32(u32 v, unsigned s) { return v >> s | v << (32 - s); }
static const u64 P0 = 0xEC99BF0D8372CAABull, P1 = 0x82434FE90EDCEF39ull, P2 = 0xD4F06DB99D67BE4Bull, P3 = 0xBD9CACC22C6E9571ull,
                 P4 = 0x9C06FAF4D023E3ABull, P5 = 0xC060724A8424F345ull, P6 = 0xCB5AF53AE3AAAC31ull;
const u64 m_prime[7] = {P0, P1, P2, P3, P4, P5, P6};
static inline void mul128(u64 a, u64 b, u64 &lo, u64 &hi) {
#ifdef __SIZEOF_INT128__
  unsigned __int128 r = (unsigned __int128)a * b; lo = (u64)r; hi = (u64)(r >> 64);
#else
  u64 al = (u32)a, ah = a >> 32, bl = (u32)b, bh = b >> 32;
  u64 t = al * bl, w0 = (u32)t, k = t >> 32;
  t = ah * bl + k; u64 w1 = (u32)t, w2 = t >> 32;
  t = al * bh + w1; k = t >> 32;
  hi = ah * bh + w2 + k; lo = (t << 32) | w0;
#endif
}
std::vector<u64> *m_trace; // when set: what is added to the key word before each tail multiplication
static inline u64 mux(u64 v, u64 p) { if (__builtin_expect(m_trace != 0, 0)) m_trace->push_back(0); u64 l, h; mul128(v, p, l, h); return l ^ h; }
static inline void mixup(u64 &a, u64 &b, u64 v, u64 p) { if (__builtin_expect(m_trace != 0, 0)) m_trace->push_back(b); u64 l, h; mul128(b + v, p, l, h); a ^= l; b += h; }
static inline u64 fin64(u64 a, u64 b) { u64 x = (a + r64(b, 41)) * P0, y = (r64(a, 23) + b) * P6; return mux(x ^ y, P5); }

/* ---- t1ha0 32-bit ---- */
extern const u32 m_prime32[7] = {0x92D78269u, 0xCA9B4735u, 0xA4ABA1C3u, 0xF6499843u, 0x86F0FD61u, 0xCA2DA6FBu, 0xC4BB3575u};
static u64 t1ha0_32(const void *data, size_t len, u64 seed, bool be) {
  const u32 *p = m_prime32;
  const u8 *v = (const u8 *)data; size_t n = len;
  u32 a = r32((u32)len, 17) + (u32)seed, b = (u32)len ^ (u32)(seed >> 32);
  if (len > 16) {
    u32 c = ~a, d = r32(b, 5);
    for (; n >= 16; n -= 16, v += 16) {
      u32 w0 = L32(v, be), w1 = L32(v + 4, be), w2 = L32(v + 8, be), w3 = L32(v + 12, be);
      u32 d13 = w1 + r32(w3 + d, 17), c02 = w0 ^ r32(w2 + c, 11);
      d ^= r32(a + w0, 3); c ^= r32(b + w1, 7);
      b = p[1] * (c02 + w3); a = p[0] * (d13 ^ w2);
    }
    c += a; d += b;
    a ^= p[6] * (r32(c, 16) + d); b ^= p[5] * (c + r32(d, 16));
  }
  auto mx = [](u32 &x, u32 &y, u32 w, u32 q) { if (__builtin_expect(m_trace != 0, 0)) m_trace->push_back(y); u64 l = (u64)(y + w) * q; x ^= (u32)l; y += (u32)(l >> 32); };
  // the remaining 0..16 bytes as up to four words, the last one possibly short
  unsigned words = (unsigned)((n + 3) / 4);
  for (; words; words--) {
    unsigned k = n >= 4 ? 4 : (unsigned)n; u32 w = (u32)rd(v, k, be);
    if (words == 4) mx(a, b, w, p[4]); else if (words == 3) mx(b, a, w, p[3]);
    else if (words == 2) mx(a, b, w, p[2]); else mx(b, a, w, p[1]);
    v += k; n -= k;
  }
  u64 l = (u64)(b ^ r32(a, 13)) | (u64)a << 32;
  l *= P0; l ^= l >> 41; l *= P4; l ^= l >> 47; l *= P6;
  return l;
}
u64 m_t1ha0_32le(const void *p, size_t n, u64 s) { return t1ha0_32(p, n, s, false); }
u64 m_t1ha0_32be(const void *p, size_t n, u64 s) { return t1ha0_32(p, n, s, true); }

/* ---- t1ha1 ---- */
static u64 t1ha1(const void *data, u64 len, u64 seed, bool be) {
  const u8 *v = (const u8 *)data; u64 n = len, a = seed, b = len;
  if (len > 32) {
    u64 c = r64(len, 17) + seed, d = len ^ r64(seed, 17);
    for (; n >= 32; n -= 32, v += 32) {
      u64 w0 = L64(v, be), w1 = L64(v + 8, be), w2 = L64(v + 16, be), w3 = L64(v + 24, be);
      u64 d02 = w0 ^ r64(w2 + d, 17), c13 = w1 ^ r64(w3 + c, 17);
      d -= b ^ r64(w1, 31); c += a ^ r64(w0, 41);
      b ^= P0 * (c13 + w2); a ^= P1 * (d02 + w3);
    }
    a ^= P6 * (r64(c, 17) + d); b ^= P5 * (c + r64(d, 17));
  }
  for (unsigned words = (unsigned)((n + 7) / 8); words; words--) {
    unsigned k = n >= 8 ? 8 : (unsigned)n; u64 w = rd(v, k, be);
    if (words == 4) b += mux(w, P4); else if (words == 3) a += mux(w, P3);
    else if (words == 2) b += mux(w, P2); else a += mux(w, P1);
    v += k; n -= k;
  }
  u64 t = (a ^ b) * P0;
  return mux(r64(a + b, 17), P4) + (t ^ r64(t, 41));
}
u64 m_t1ha1_le(const void *p, u64 n, u64 s) { return t1ha1(p, n, s, false); }
u64 m_t1ha1_be(const void *p, u64 n, u64 s) { return t1ha1(p, n, s, true); }

/* ---- t1ha2 ---- */
struct St { u64 a, b, c, d; };
static inline void blk(St &s, const u8 *v) {
  u64 w0 = ld64(v), w1 = ld64(v + 8), w2 = ld64(v + 16), w3 = ld64(v + 24);
  u64 d02 = w0 + r64(w2 + s.d, 56), c13 = w1 + r64(w3 + s.c, 19);
  s.d ^= s.b + r64(w1, 38); s.c ^= s.a + r64(w0, 57);
  s.b ^= P6 * (c13 + w2); s.a ^= P5 * (d02 + w3);
}
static inline void squash(St &s) { s.a ^= P6 * (s.c + r64(s.d, 23)); s.b ^= P5 * (r64(s.c, 19) + s.d); }
static u64 tail_ab(St s, const u8 *v, unsigned n) {
  for (unsigned words = (n + 7) / 8; words; words--) {
    unsigned k = n >= 8 ? 8 : n; u64 w = rd(v, k, false);
    if (words == 4) mixup(s.a, s.b, w, P4); else if (words == 3) mixup(s.b, s.a, w, P3);
    else if (words == 2) mixup(s.a, s.b, w, P2); else mixup(s.b, s.a, w, P1);
    v += k; n -= k;
  }
  return fin64(s.a, s.b);
}
static u64 tail_abcd(St s, const u8 *v, unsigned n, u64 *hi) {
  for (unsigned words = (n + 7) / 8; words; words--) {
    unsigned k = n >= 8 ? 8 : n; u64 w = rd(v, k, false);
    if (words == 4) mixup(s.a, s.d, w, P4); else if (words == 3) mixup(s.b, s.a, w, P3);
    else if (words == 2) mixup(s.c, s.b, w, P2); else mixup(s.d, s.c, w, P1);
    v += k; n -= k;
  }
  mixup(s.a, s.b, r64(s.c, 41) ^ s.d, P0); mixup(s.b, s.c, r64(s.d, 23) ^ s.a, P6);
  mixup(s.c, s.d, r64(s.a, 19) ^ s.b, P5); mixup(s.d, s.a, r64(s.b, 31) ^ s.c, P4);
  *hi = s.c + s.d; return s.a ^ s.b;
}
static inline void cd(St &s, u64 x, u64 y) { s.c = r64(y, 23) + ~x; s.d = ~y + r64(x, 19); }
u64 m_t1ha2(const void *p, u64 len, u64 seed) {
  const u8 *v = (const u8 *)p; St s = {seed, len, 0, 0}; u64 n = len;
  if (len > 32) { cd(s, seed, len); for (; n >= 32; n -= 32, v += 32) blk(s, v); squash(s); }
  return tail_ab(s, v, (unsigned)n);
}
u64 m_t1ha2_128(u64 *hi, const void *p, u64 len, u64 seed) {
  const u8 *v = (const u8 *)p; St s = {seed, len, 0, 0}; u64 n = len; cd(s, seed, len);
  if (len > 32) for (; n >= 32; n -= 32, v += 32) blk(s, v);
  return tail_abcd(s, v, (unsigned)n, hi);
}
void MStream::init(u64 x, u64 y) { St s = {x, y, 0, 0}; cd(s, x, y); a = s.a; b = s.b; c = s.c; d = s.d; total = 0; partial = 0; memset(buf, 0, 32); }
void MStream::update(const void *p, u64 len) {
  const u8 *v = (const u8 *)p; total += len; St s = {a, b, c, d};
  while (len) {
    if (partial == 0) { for (; len >= 32; len -= 32, v += 32) blk(s, v); if (!len) break; }
    u64 k = 32 - partial; if (k > len) k = len;
    memcpy(buf + partial, v, (size_t)k); partial += (unsigned)k; v += k; len -= k;
    if (partial == 32) { blk(s, buf); partial = 0; }
  }
  a = s.a; b = s.b; c = s.c; d = s.d;
}
static MStream closed(const MStream &m) {
  MStream t = m; u64 bits = (m.total << 3) ^ (1ull << 63); u8 e[8];
  for (int i = 0; i < 8; i++) e[i] = (u8)(bits >> (8 * i));
  t.update(e, 8); return t;
}
u64 MStream::final64() const { MStream t = closed(*this); St s = {t.a, t.b, t.c, t.d}; squash(s); return tail_ab(s, t.buf, t.partial); }
u64 MStream::final128(u64 *hi) const { MStream t = closed(*this); St s = {t.a, t.b, t.c, t.d}; return tail_abcd(s, t.buf, t.partial, hi); }

/* ---- AES based t1ha0 ---- */
static u8 SB[256], IS[256]; static u32 TE[4][256], TD[4][256];
static inline u8 xt(u8 x) { return (u8)(x << 1 ^ (x & 0x80 ? 0x1b : 0)); }
static inline u8 gm(u8 x, u8 y) { u8 r = 0; while (y) { if (y & 1) r ^= x; x = xt(x); y >>= 1; } return r; }
static struct Init { Init() {
  u8 p = 1, q = 1;
  do { p = p ^ (u8)(p << 1) ^ (p & 0x80 ? 0x1B : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
    u8 x = q ^ (u8)(q << 1 | q >> 7) ^ (u8)(q << 2 | q >> 6) ^ (u8)(q << 3 | q >> 5) ^ (u8)(q << 4 | q >> 4);
    SB[p] = x ^ 0x63; } while (p != 1);
  SB[0] = 0x63; for (int i = 0; i < 256; i++) IS[SB[i]] = (u8)i;
  for (int i = 0; i < 256; i++) { // column contributions, little endian
    u8 s = SB[i], t = IS[i];
    u32 e = (u32)gm(s, 2) | (u32)s << 8 | (u32)s << 16 | (u32)gm(s, 3) << 24;
    u32 d = (u32)gm(t, 14) | (u32)gm(t, 9) << 8 | (u32)gm(t, 13) << 16 | (u32)gm(t, 11) << 24;
    for (int k = 0; k < 4; k++) { TE[k][i] = k ? e << (8 * k) | e >> (32 - 8 * k) : e; TD[k][i] = k ? d << (8 * k) | d >> (32 - 8 * k) : d; }
  }
} } s_init;
struct V { u64 lo, hi; };
static inline V vx(V a, V b) { return {a.lo ^ b.lo, a.hi ^ b.hi}; }
static inline V va(V a, V b) { return {a.lo + b.lo, a.hi + b.hi}; }
static inline V vs(V a, V b) { return {a.lo - b.lo, a.hi - b.hi}; }
static inline V vl(const u8 *p) { return {ld64(p), ld64(p + 8)}; }
static inline V aesenc(V s, V k) {
  u8 b[16]; memcpy(b, &s, 16); u32 c[4];
  for (int j = 0; j < 4; j++) c[j] = TE[0][b[4 * j]] ^ TE[1][b[(4 * j + 5) & 15]] ^ TE[2][b[(4 * j + 10) & 15]] ^ TE[3][b[(4 * j + 15) & 15]];
  V r; memcpy(&r, c, 16); return vx(r, k);
}
static inline V aesdec(V s, V k) {
  u8 b[16]; memcpy(b, &s, 16); u32 c[4];
  for (int j = 0; j < 4; j++) c[j] = TD[0][b[4 * j]] ^ TD[1][b[(4 * j + 13) & 15]] ^ TD[2][b[(4 * j + 10) & 15]] ^ TD[3][b[(4 * j + 7) & 15]];
  V r; memcpy(&r, c, 16); return vx(r, k);
}
static u64 aes_tail(u64 a, u64 b, const u8 *v, size_t n) {
  for (unsigned words = (unsigned)((n + 7) / 8); words; words--) {
    unsigned k = n >= 8 ? 8 : (unsigned)n; u64 w = rd(v, k, false);
    if (words == 4) mixup(a, b, w, P4); else if (words == 3) mixup(b, a, w, P3);
    else if (words == 2) mixup(a, b, w, P2); else mixup(b, a, w, P1);
    v += k; n -= k;
  }
  return fin64(a, b);
}
struct Tab { static inline V enc(V s, V k) { return aesenc(s, k); } static inline V dec(V s, V k) { return aesdec(s, k); } };
#define AESNI __attribute__((target("aes,sse2")))
struct Ni { // long keys only, on hosts with AES; compared with the tables at start
  AESNI static inline V enc(V s, V k) { __m128i x, y; memcpy(&x, &s, 16); memcpy(&y, &k, 16); x = _mm_aesenc_si128(x, y); V r; memcpy(&r, &x, 16); return r; }
  AESNI static inline V dec(V s, V k) { __m128i x, y; memcpy(&x, &s, 16); memcpy(&y, &k, 16); x = _mm_aesdec_si128(x, y); V r; memcpy(&r, &x, 16); return r; }
};
#define PAIR { V q0 = va(y, vl(v)), q1 = vs(x, vl(v + 16)); v += 32; x = A::dec(x, q0); y = A::dec(y, q1); }
template <class A> AESNI static u64 aes_a_(const void *p, size_t len, u64 seed) {
  const u8 *v = (const u8 *)p; u64 a = seed, b = len; size_t n = len;
  if (len > 32) {
    V x = {b, a}, y = A::enc(x, V{P6, P5});
    for (; n >= 128; n -= 128, v += 128) {
      V w[8]; for (int i = 0; i < 8; i++) w[i] = vl(v + 16 * i);
      V v0y = A::enc(w[0], y), v2x6 = A::enc(w[2], vx(x, w[6]));
      V v45_67 = vx(A::enc(w[4], w[5]), va(w[6], w[7]));
      V v0y7_1 = A::dec(vs(w[7], v0y), w[1]), v2x6_3 = A::enc(v2x6, w[3]);
      x = A::enc(v45_67, va(x, y)); y = A::enc(v2x6_3, vx(v0y7_1, w[5]));
    }
    if (n & 64) { PAIR PAIR }
    if (n & 32) PAIR
    if (n & 16) { y = va(x, y); x = A::dec(x, vl(v)); v += 16; }
    x = va(A::dec(x, A::enc(y, x)), y); a = x.lo; b = x.hi; n &= 15;
  }
  return aes_tail(a, b, v, n);
}
template <class A> AESNI static u64 aes_b_(const void *p, size_t len, u64 seed) {
  const u8 *v = (const u8 *)p; u64 a = seed, b = len; size_t n = len;
  if (len > 32) {
    V x = {b, a}, y = A::enc(x, V{P1, P0}); const u8 *end = v + (len & ~(size_t)15);
    if (len & 16) { x = va(x, vl(v)); v += 16; y = A::enc(x, y); }
    V salt = y;
    while ((size_t)(end - v) > 112) {
      V t = A::enc(vl(v), salt); for (int i = 1; i < 8; i++) t = A::dec(t, vl(v + 16 * i));
      v += 128; salt = va(salt, V{P6, P5}); t = A::enc(x, t); x = va(y, x); y = t;
    }
    while (v < end) PAIR
    x = va(A::dec(x, A::enc(y, x)), y); a = x.lo; b = x.hi; v = end; n &= 15;
  }
  return aes_tail(a, b, v, n);
}
static bool s_ni = [] { unsigned a, b, c = 0, d; return __get_cpuid(1, &a, &b, &c, &d) && (c >> 25 & 1); }();
u64 m_aes_a(const void *p, size_t len, u64 seed) { return s_ni && len > 65536 ? aes_a_<Ni>(p, len, seed) : aes_a_<Tab>(p, len, seed); }
u64 m_aes_b(const void *p, size_t len, u64 seed) { return s_ni && len > 65536 ? aes_b_<Ni>(p, len, seed) : aes_b_<Tab>(p, len, seed); }

bool model_selftest(std::string &why) {
  u8 big[512]; for (int i = 0; i < 512; i++) big[i] = (u8)i;
  for (int f = 0; f < 10; f++) {
    auto h = [&](const void *p, size_t n, u64 s) -> u64 {
      u64 hi; MStream m;
      switch (f) {
      case 0: return m_t1ha0_32le(p, n, s); case 1: return m_t1ha0_32be(p, n, s); case 2: return m_aes_a(p, n, s);
      case 3: return m_aes_b(p, n, s); case 4: return m_t1ha1_le(p, n, s); case 5: return m_t1ha1_be(p, n, s);
      case 6: return m_t1ha2(p, n, s); case 7: return m_t1ha2_128(&hi, p, n, s);
      case 8: m.init(s, s); m.update(p, n); return m.final64();
      default: m.init(s, s); m.update(p, n); return m.final128(&hi);
      } };
    int k = 0; const u64 *r = g_ref[f]; u64 s;
    auto chk = [&](const void *p, size_t n, u64 sd) { u64 v = h(p, n, sd); if (v != r[k]) { why = strf("model f%d vector %d: %016llx != %016llx", f, k, (unsigned long long)v, (unsigned long long)r[k]); return false; } k++; return true; };
    if (!chk(g_pattern, 0, 0) || !chk(g_pattern, 0, ~0ull) || !chk(g_pattern, 64, 0)) return false;
    s = 1; for (int i = 1; i < 64; i++, s <<= 1) if (!chk(g_pattern, i, s)) return false;
    s = ~0ull; for (int i = 1; i <= 7; i++) { s <<= 1; if (!chk(g_pattern + i, 64 - i, s)) return false; }
    for (int i = 0; i <= 7; i++) if (!chk(big + i, 128 + i * 17, s)) return false;
  }
  if (s_ni) { std::vector<u8> t(4096); for (size_t i = 0; i < 4096; i++) t[i] = (u8)(mix(i) >> 9); for (size_t n = 0; n < 4096; n += 1 + n / 40) if (aes_a_<Ni>(t.data(), n, n * 77) != aes_a_<Tab>(t.data(), n, n * 77) || aes_b_<Ni>(t.data(), n, n * 77) != aes_b_<Tab>(t.data(), n, n * 77)) { why = "model: AES instructions differ from the tables"; return false; } }
  return true;
}
