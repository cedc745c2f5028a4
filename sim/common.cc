#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
#include "t1ha.h"
const char *const g_vnames[] = {"d", "c", "u", "s", "o", "uo", "p", "i", "a", "r", "g", "z", "cu", "cs", "co", "so", "cuo", "cso", "up", "ap", "q", "x", "n0", "n1", "n2", "n12", "n1p", "as", "asp", "rd", "sa", "sau", "y", "k"};
const int N_VAR = sizeof g_vnames / sizeof *g_vnames;
Image *g_img[64][2]; std::vector<int> g_loaded;
size_t g_ctx_size = sizeof(t1ha_context_t), g_ctx_align = alignof(t1ha_context_t);
std::vector<Prop> g_props;
Image *need_img(int v, int copy) { Image *im = img(v, copy); if (!im) die("build variant %d is not loaded", v); return im; }
int pick_variant(Rng &r, bool bias) { if (bias && r.chance(1, 4) && img(0)) return 0; return g_loaded[r.below(g_loaded.size())]; }
bool is_hash(int fn) { return fn >= 0 && fn < F_COUNT; }

u64 model_fn(int fn, const void *p, u64 len, u64 seed, u64 *hi) {
  u64 h = 0; if (!hi) hi = &h; *hi = 0;
  switch (fn) {
  case F_32LE: return m_t1ha0_32le(p, len, seed);
  case F_32BE: return m_t1ha0_32be(p, len, seed);
  case F_AES_NOAVX: case F_AES_AVX: return m_aes_a(p, len, seed);
  case F_AES_AVX2: return m_aes_b(p, len, seed);
  case F_1LE: return m_t1ha1_le(p, len, seed);
  case F_1BE: return m_t1ha1_be(p, len, seed);
  case F_2: return m_t1ha2(p, len, seed);
  case F_2_128: return m_t1ha2_128(hi, p, len, seed);
  case F_S64: case F_S128: { MStream s; s.init(seed, seed_y(seed)); s.update(p, len); return fn == F_S64 ? s.final64() : s.final128(hi); }
  }
  die("model_fn %d", fn);
}
bool fn_usable(const Image *im, int fn) {
  if (!im->has(fn)) return false;
  if (fn == F_AES_NOAVX) return g_host.aes;
  if (fn == F_AES_AVX) return g_host.avx;
  if (fn == F_AES_AVX2) return g_host.avx2;
  return true;
}
int best_t1ha0(const Image *im) {
  if (im->selects() && im->f[F_AES_NOAVX]) { if (g_host.avx2) return F_AES_AVX2; if (g_host.avx) return F_AES_AVX; if (g_host.aes) return F_AES_NOAVX; }
  return im->portable();
}
u8 *ctx_mem(int i) { static u8 *m; if (!m && posix_memalign((void **)&m, 4096, 65536)) die("ctx"); size_t st = (g_ctx_size + 127) & ~(size_t)63; if (st * (i + 1) > 65536) die("ctx_mem"); return m + st * i; }
typedef u64 (*hash_t)(const void *, size_t, u64); typedef u64 (*hash128_t)(u64 *, const void *, size_t, u64);
typedef void (*init_t)(void *, u64, u64); typedef void (*upd_t)(void *, const void *, size_t); typedef u64 (*fin_t)(void *, u64 *);
u64 rawcall(Image *im, int fn, const void *p, size_t len, u64 seed, u64 *hi) {
  if (fn == F_S64 || fn == F_S128) {
    u8 *c = ctx_mem(0); ((init_t)im->f[F_INIT])(c, seed, seed_y(seed)); ((upd_t)im->f[F_UPDATE])(c, p, len);
    return ((fin_t)im->f[F_FINAL])(c, fn == F_S128 ? hi : 0);
  }
  if (fn == F_2_128) return ((hash128_t)im->f[fn])(hi, p, len, seed);
  uptr a = fn == F_T1HA0 ? im->t1ha0_addr() : im->f[fn];
  return ((hash_t)a)(p, len, seed);
}
Res ncall(Image *im, int fn, const void *p, size_t len, u64 seed) {
  volatile u64 r = 0, h = 0; Res o;
  if (NATIVE_TRY) { u64 hh = 0; r = rawcall(im, fn, p, len, seed, &hh); h = hh; NATIVE_END; o.ok = true; o.r = r; o.hi = h; }
  else { NATIVE_END; o.why = g_nwhy; }
  S.calls++;
  return o;
}
int nselfcheck(Image *im, int fn, std::string *why) {
  volatile int r = 0; S.calls++;
  if (NATIVE_TRY) { r = ((int (*)())im->f[fn])(); NATIVE_END; return r; }
  NATIVE_END; if (why) *why = g_nwhy; return -1000;
}

void fill(u8 *p, u64 n, int kind, i64 s) {
  u64 x = mix((u64)s); u8 blk[64];
  auto rep = [&](unsigned k) { for (u64 i = 0; i < n; i += k) memcpy(p + i, blk, std::min<u64>(k, n - i)); };
  auto rnd = [&](u8 *q, unsigned k) { for (unsigned i = 0; i < k; i += 8) { x = mix(x); memcpy(q + i, &x, std::min(8u, k - i)); } };
  switch (kind) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xff, n); break;
  case 2: memset(p, (int)s, n); break;
  case 4: memcpy(blk, &s, 8); rep(8); break;
  case 5: rnd(blk, 16); rep(16); break;
  case 6: rnd(blk, 32); rep(32); break;
  case 7: for (u64 i = 0; i < n; i++) p[i] = (u8)(s + (i64)i); break;
  case 8: for (u64 i = 0; i < n; i++) { if (!(i & 63)) x = mix(x); p[i] = x >> (i & 63) & 1 ? 0xff : 0; } break;
  case 9: memset(p, 0, n); for (int i = 0; n && i < 3; i++) { x = mix(x); p[x % n] = (u8)(x >> 40); } break;
  case 10: for (u64 i = 0; i < n; i++) { if (!(i & 7)) x = mix(x); p[i] = "0123456789abcdef ghijklmnopqrstuvwxyz,.-_/\\:ABCDEFGHIJKLMNOPQRST"[x >> (i & 7) * 6 & 63]; } break;
  case 11: rnd(blk, 64); rep(64); break;
  case 12: { unsigned bs = 16u << (x & 3), m = 1 + (unsigned)(x >> 8 & 31); memset(p, 0, n); for (u64 i = 0; i < n; i += bs) { x = mix(x); if (!(x >> 32 & 31) || x % (m + 1) == m) for (u64 k = i; k < std::min<u64>(n, i + bs); k += 8) { x = mix(x); memcpy(p + k, &x, std::min<u64>(8, n - k)); } } break; } // sparse: zero blocks between random ones
  default: { u64 i = 0; for (; i + 8 <= n; i += 8) { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; memcpy(p + i, &z, 8); } x = mix(x); if (i < n) memcpy(p + i, &x, n - i); }
  }
}
int gen_fill(Rng &r, i64 &s) {
  s = (i64)(r.next() >> 1); unsigned k = r.below(16);
  if (k < 7) return 3;
  int kind = (int)r.below(N_FILL);
  if (kind == 2 || kind == 7) s = (i64)r.below(256);
  if (kind == 4) s = (i64)gen_val(r);
  return kind;
}
u64 gen_len(Rng &r, u64 max) {
  u64 n;
  switch (r.below(9)) {
  case 0: n = r.below(9); break;
  case 1: case 2: n = r.below(70); break;
  case 3: n = r.below(300); break;
  case 4: n = 32 * r.below(20) + r.below(3) - 1; break;
  case 5: n = 128 * r.below(12) + r.below(3) - 1; break;
  case 6: n = (1ull << r.below(14)) + r.below(3) - 1; break;
  case 7: n = g_dict.empty() ? r.below(1000) : g_dict[r.below(g_dict.size())] + r.below(3) - 1; break;
  default: n = r.below(r.chance(1, 4) ? 9000 : 1200); break;
  }
  if (n > max) n = r.below(std::min<u64>(max, 300) + 1);
  return n;
}
u64 gen_seed(Rng &r) {
  switch (r.below(12)) {
  case 0: return 0; case 1: return ~0ull; case 2: return 1ull << r.below(64); case 3: return ~(1ull << r.below(64));
  case 4: return r.next() & 0xffffffffull; case 5: return r.next() << 32; case 6: return r.below(300); case 7: return gen_val(r);
  default: return r.next();
  }
}
u64 gen_val(Rng &r) {
  switch (r.below(8)) {
  case 0: return 0; case 1: return ~0ull; case 2: return r.next() & 0xffffffffull; case 3: return r.next() << 32; case 4: return 1ull << r.below(64);
  case 5: case 6: if (!g_dict.empty()) { u64 v = g_dict[r.below(g_dict.size())]; switch (r.below(5)) { case 0: return v + 1; case 1: return v - 1; case 2: return ~v; case 3: return __builtin_bswap64(v); default: return v; } } /* fall through */
  default: return r.next();
  }
}
size_t gen_off(Rng &r, size_t len) {
  size_t base = PG * (1 + r.below(3));
  switch (r.below(6)) {
  case 0: return base + r.below(64);
  case 1: return base + PG - r.below(70);
  case 2: { size_t e = (len + PG - 1) & ~(PG - 1); return base + e - len; }          // ends at a page end
  case 3: { size_t e = (len + PG - 1) & ~(PG - 1); return base + e - len + r.below(16); }
  case 4: return base + 64 * r.below(64);
  default: return base + r.below(PG);
  }
}
void place(Key &k, int z, size_t off, int sk, i64 ss, int prot) {
  u8 *zb = zone(z); size_t lo = off & ~(PG - 1), hi = (off + k.len + PG - 1) & ~(PG - 1);
  if (hi == lo) hi = lo + PG;
  if (sk >= 0) { if (lo >= PG) lo -= PG; hi += PG; }
  zone_commit(z, lo, hi - lo, PROT_READ | PROT_WRITE);
  if (sk >= 0) fill(zb + lo, hi - lo, sk, ss);
  k.zone = z; k.off = off; k.p = zb + off; if (k.len) memcpy(k.p, k.b.data(), k.len);
  if (prot != (PROT_READ | PROT_WRITE)) zone_commit(z, lo, hi - lo, prot);
}
bool Keys::take(const Line &l) {
  if (l.op == "k") { Key &k = m[(int)l.arg(0)]; k.len = (u64)l.arg(1) & 0xffffff; k.b.resize(k.len); if (k.len) fill(k.b.data(), k.len, (int)l.arg(2), l.arg(3)); return true; }
  if (l.op == "kp") { auto it = m.find((int)l.arg(0)); if (it != m.end()) { u64 v = (u64)l.arg(2); for (int i = 0; i < 8; i++) { u64 o = (u64)l.arg(1) + i; if (o < it->second.len) it->second.b[o] = (u8)(v >> 8 * i); } } return true; }
  if (l.op == "at") { auto it = m.find((int)l.arg(0)); if (it != m.end()) { it->second.zone = (int)((u64)l.arg(1) % 16); it->second.off = (size_t)((u64)l.arg(2) % 0x100000); } return true; }
  return false;
}
void Keys::place_all(int sk, i64 ss, bool ro) {
  int z = 0; for (auto &kv : m) { Key &k = kv.second; int zz = k.zone >= 0 ? k.zone : z % 16; z++; place(k, zz, k.off ? k.off : PG, sk, ss + kv.first, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
}
int g_alias_fd = -1; static u64 alias_have;
void alias_unmap() { if (alias_have) munmap((void *)ALIAS_BASE, (size_t)alias_have); alias_have = 0; }
u8 *alias_map(u64 len) { // `len` bytes of address space backed by one small repeating buffer
  static u8 *base; static int fd = -1; const u64 unit = 16u << 20; u64 &have = alias_have;
  if (fd < 0) { fd = memfd_create("alias", 0); if (fd < 0 || ftruncate(fd, unit)) return 0; u8 *p = (u8 *)mmap(0, unit, 3, MAP_SHARED, fd, 0); g_alias_fd = fd; if (p == MAP_FAILED) return 0; fill(p, unit, 3, 4242); munmap(p, unit); base = (u8 *)ALIAS_BASE; }
  u64 need = (len + unit - 1) / unit * unit; if (!BITS64 && ALIAS_BASE + need > ZONE3_BASE) zone3_yield();
  for (; have < need; have += unit) if (mmap(base + have, unit, PROT_READ, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0) != base + have) return 0;
  return base;
}
