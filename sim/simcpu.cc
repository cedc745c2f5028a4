#include "simcpu.h"
#include <sys/mman.h>
static const u32 HOSTAES = 1u << 25, OSX = 1u << 27, AVX = 1u << 28;
bool cpu_line(const Line &l, SimCpu &c) {
  if (l.op != "cpu") return false;
  c.on = true; c.max_leaf = (u32)l.arg(0) & 0xff; c.ecx1 = (u32)l.arg(1); c.edx1 = (u32)l.arg(2); c.ebx7 = (u32)l.arg(3); c.ecx7 = (u32)l.arg(4); c.above = (u32)l.arg(5); c.xcr0 = (u64)l.arg(6) | 1; c.has_cpuid = BITS64 || l.arg(7, 1);
  if (!g_host.aes) c.ecx1 &= ~HOSTAES; if (!g_host.avx) c.ecx1 &= ~AVX; if (!g_host.avx2) c.ebx7 &= ~32u; // the simulator executes the instructions for real
  if (!c.has_cpuid) { c.max_leaf = 0; c.ecx1 = c.edx1 = c.ebx7 = c.ecx7 = 0; c.xcr0 = 1; }
  if (c.max_leaf < 1) { c.ecx1 = 0; c.xcr0 = 1; } // what CPUID cannot report is not there
  if (c.max_leaf < 7) c.ebx7 = c.ecx7 = 0;
  if (BITS64 || (c.ecx1 & (HOSTAES | AVX))) c.edx1 |= 0x07808000; // every AES or AVX machine has CMOV, MMX, FXSR, SSE, SSE2
  c.edx1 |= 0x00008001; // CMOV, FPU
  return true;
}
Line gen_cpu(Rng &r, bool sane) {
  u32 leaf = r.pick<u32>({0xd, 0x16, 7, 0x1f, 7}), ecx = 0, edx = 0x078bfbff, ebx7 = 0, ecx7 = 0, above = 0; u64 x = 7; int has = 1;
  switch (r.below(7)) {
  case 0: ecx = 0x00000001; leaf = r.pick<u32>({1, 2, 5}); x = 1; break;                              // before AES
  case 1: ecx = 0x02982203; leaf = 0xb; x = 3; break;                                                 // Westmere: AES, no AVX
  case 2: ecx = 0x1fbae3bf; leaf = 0xd; break;                                                        // Sandy Bridge
  case 3: ecx = 0x7ffafbbf; ebx7 = 0x000037ab; break;                                                 // Haswell
  case 4: ecx = 0x7ffafbbf; ebx7 = 0xd39ffffb; ecx7 = 0x80; x = 0xe7; break;                          // Skylake-X
  case 5: ecx = 0x7ed8320b; ebx7 = 0x209c01a9; x = 7; break;                                          // Zen
  default: ecx = (u32)r.next(); ebx7 = (u32)r.next(); ecx7 = (u32)r.next(); edx = (u32)r.next(); x = r.next(); break; }
  if (!sane) { int n = (int)r.below(4);
    for (int i = 0; i < n; i++) switch (r.below(12)) {
      case 0: ecx ^= HOSTAES; break; case 1: ecx ^= OSX; break; case 2: ecx ^= AVX; break; case 3: ebx7 ^= 32; break; case 4: x = r.pick<u64>({1, 2, 3, 4, 5, 6, 7, 0xe7, 0xe3, 0xe1, 0xff}); break;
      case 5: leaf = (u32)r.below(9); break; case 6: ecx ^= 1u << r.below(32); break; case 7: ebx7 ^= 1u << r.below(32); break; case 8: above = r.chance(1, 2) ? ~0u : (u32)r.next(); break;
      case 9: ecx |= HOSTAES | OSX | AVX; break; case 10: edx ^= 1u << r.below(32); break; default: if (r.chance(1, 4)) has = 0; else ecx |= HOSTAES; } }
  return Line("cpu", {leaf, ecx, edx, ebx7, ecx7, above, (i64)x, has});
}
const char *cpu_lacks(const SimCpu &c, int fn) {
  if (!c.on) return 0;
  if (fn == F_AES_NOAVX) return c.aes() ? 0 : "AES-NI";
  if (fn == F_AES_AVX) return !c.aes() ? "AES-NI" : c.ymm() ? 0 : "AVX";
  if (fn == F_AES_AVX2) return !c.aes() ? "AES-NI" : !c.ymm() ? "AVX" : c.avx2_bit() ? 0 : "AVX2";
  return 0;
}
int best_on(const Image *im, const SimCpu &c) { // decided by how the build was configured, not by what it turned out to contain
  static const std::set<std::string> without = {"a", "as", "asp", "r", "rd", "n0"};
  if (!without.count(im->variant)) for (int f : {F_AES_AVX2, F_AES_AVX, F_AES_NOAVX}) if (!cpu_lacks(c, f)) return f;
  return im->portable();
}
/* ---------------- stand-ins ---------------- */
std::map<std::pair<int, int>, Malf> g_malf; int g_stub_last = -1; SimCpu *g_stub_cpu; std::string g_stub_bad; std::map<int, u64> g_stub_calls;
int vector_of(u64 len, u64 seed) {
  if (len == 0) return seed == 0 ? 0 : seed == ~0ull ? 1 : 81;
  if (len == 64 && seed == 0) return 2;
  if (len < 64 && seed == 1ull << (len - 1)) return 2 + (int)len;
  if (len >= 57 && len < 64 && seed == ~0ull << (64 - len)) return 65 + (int)(64 - len);
  if (len >= 128 && len <= 247 && (len - 128) % 17 == 0 && seed == ~0ull << 7) return 73 + (int)(len - 128) / 17;
  return 81;
}
static u64 malf(int fn, u64 len, u64 seed, u64 good) {
  g_stub_calls[fn]++; g_stub_last = fn;
  if (g_stub_cpu) if (const char *w = cpu_lacks(*g_stub_cpu, fn)) if (g_stub_bad.empty()) g_stub_bad = strf("%s was called on a machine without %s", fn_name[fn], w);
  int vec = vector_of(len, seed); auto it = g_malf.find({fn, vec}); if (it == g_malf.end()) return good;
  u64 a = it->second.arg;
  switch (it->second.kind) { case 1: return good ^ a; case 2: return good + a; case 3: return a; case 4: return ~good; case 5: return __builtin_bswap64(good); case 6: return good << 32 | good >> 32; case 7: return (u32)good; case 8: return good & ~0xffffffffull; default: return good; }
}
template <int F> static u64 st_hash(const void *p, size_t n, u64 s) { return malf(F, n, s, model_fn(F, p, n, s, 0)); }
static u64 st_128(u64 *hi, const void *p, size_t n, u64 s) { u64 h = 0, r = model_fn(F_2_128, p, n, s, &h); *hi = h; return malf(F_2_128, n, s, r); }
static std::map<uptr, std::pair<MStream, u64>> st_ctx;
static void st_init(void *c, u64 x, u64 y) { MStream m; m.init(x, y); st_ctx[(uptr)c] = {m, x}; }
static void st_upd(void *c, const void *p, size_t n) { st_ctx[(uptr)c].first.update(p, n); }
static u64 st_fin(void *c, u64 *hi) { auto &e = st_ctx[(uptr)c]; u64 h = 0, r = hi ? e.first.final128(&h) : e.first.final64(); if (hi) *hi = h; return malf(hi ? F_S128 : F_S64, e.first.total, e.second, r); }
void Stubs::install(Image *i, u64 mask) {
  static uptr tgt[F_ALL]; static bool reg;
  if (!reg) { reg = true;
    tgt[F_32LE] = (uptr)st_hash<F_32LE>; tgt[F_32BE] = (uptr)st_hash<F_32BE>; tgt[F_AES_NOAVX] = (uptr)st_hash<F_AES_NOAVX>; tgt[F_AES_AVX] = (uptr)st_hash<F_AES_AVX>; tgt[F_AES_AVX2] = (uptr)st_hash<F_AES_AVX2>;
    tgt[F_1LE] = (uptr)st_hash<F_1LE>; tgt[F_1BE] = (uptr)st_hash<F_1BE>; tgt[F_2] = (uptr)st_hash<F_2>; tgt[F_2_128] = (uptr)st_128; tgt[F_INIT] = (uptr)st_init; tgt[F_UPDATE] = (uptr)st_upd; tgt[F_FINAL] = (uptr)st_fin;
    for (int f = 0; f < F_ALL; f++) if (tgt[f]) register_host_fn(fn_name[f], tgt[f]); }
  remove(); im = i; memset(on, 0, sizeof on); g_stub_bad.clear(); g_stub_calls.clear(); st_ctx.clear();
  bool stream = mask >> F_S64 & 1;
  for (int f = 0; f < F_ALL; f++) if (tgt[f] && im->f[f] && (f < F_S64 ? mask >> f & 1 : stream)) { patch_jump(im, im->f[f], tgt[f], save[f]); on[f] = true; }
}
void Stubs::remove() { if (im) for (int f = 0; f < F_ALL; f++) if (on[f]) unpatch(im->f[f], save[f]); im = 0; g_stub_cpu = 0; }
