// C11: a cluster of nodes on different builds, upgraded one by one, exchanging records and digests.
#include "streams.h"
#include <sys/mman.h>
static bool uses_aes(int fn) { return fn == F_AES_NOAVX || fn == F_AES_AVX || fn == F_AES_AVX2; }
struct Rec { std::vector<u8> b; int fn = 0; u64 seed = 0; Res d; bool ok = false; };
static u64 inv64(u64 p) { u64 x = p; for (int i = 0; i < 6; i++) x *= 2 - p * x; return x; }
static u64 craft(u64 t, u64 p, int mode, bool w32) { // the operand x whose product with p is extreme
  switch (mode) {
  case 1: return t * inv64(p);                        // low half of x*p == t (32-bit words: modulo 2^32, as the word is cut)
  case 2: return t * inv64((u32)p);                   // x * (low half of p) == t: middle sums and their carries
  case 3: { if (w32) { t = (u32)t % (u32)p; return ((t << 32) + p - 1) / p; } t %= p; u64 q = 0, r = t; for (int i = 0; i < 64; i++) { bool c = r >> 63; r <<= 1; q <<= 1; if (c || r >= p) { r -= p; q |= 1; } } return r ? q + 1 : q; } // high half of x*p == t
  }
  return t;
}
static void run(const Scen &sc, Verdict &v) {
  std::map<int, int> node; Keys ks; std::map<int, Rec> rec; zones_reset(); u64 checks = 0;
  auto im_of = [&](int i) -> Image * { auto it = node.find(i); return it == node.end() ? 0 : need_img(it->second); };
  auto judge = [&](int i, int fn, const u8 *p, u64 n, u64 seed, Res &want, const char *what) { // false: violation reported
    Image *im = im_of(i); if (!im || !fn_usable(im, fn)) return true; checks++; Res g = ncall(im, fn, p, (size_t)n, seed); if (g == want) return true;
    if (!g.ok) v.fail("crash", strf("node %d (build %s): %s of %llu bytes crashed: %s", i, im->variant.c_str(), fn_name[fn], (unsigned long long)n, g.why.c_str()));
    else v.fail("digest", strf("node %d (build %s): %s of %llu bytes at page offset %u, seed %llx: %s %016llx%016llx, published value %016llx%016llx", i, im->variant.c_str(), fn_name[fn], (unsigned long long)n, (unsigned)((uptr)p & 4095), (unsigned long long)seed, what, (unsigned long long)g.hi, (unsigned long long)g.r, (unsigned long long)want.hi, (unsigned long long)want.r));
    return false; };
  auto published = [&](int fn, const u8 *p, u64 n, u64 seed) { Res r; r.ok = true; r.r = model_fn(fn, p, n, seed, &r.hi); return r; };
  for (auto &l : sc) {
    if (ks.take(l)) continue;
    if (l.op == "node" || l.op == "up") { int w = (int)l.arg(1); if (w < 0 || w >= N_VAR || !img(w)) continue; if (l.op == "up") { if (node.count((int)l.arg(0))) need_img(node[(int)l.arg(0)])->reset_ready(); S.fault("node restarted with another build"); } node[(int)l.arg(0)] = w; need_img(w)->reset_ready(); continue; }
    if (l.op == "kx") { // key fn seed word-in-tail target mode: make that tail word the multiplication operand `target` (mode 1: make the low product `target`; 2: the product with the low half of the prime; 3: the high product)
      auto it = ks.m.find((int)l.arg(0)); int fn = (int)l.arg(1); if (it == ks.m.end() || !is_hash(fn) || fn == F_T1HA0) continue; Key &k = it->second; u64 n = k.len; bool w32 = fn == F_32LE || fn == F_32BE; unsigned wb = w32 ? 4 : 8, bl = w32 ? 16 : 32;
      u64 tail; if (fn >= F_S64) { tail = n % 32; if (tail + 8 >= 32) continue; } else if (fn == F_AES_NOAVX || fn == F_AES_AVX || fn == F_AES_AVX2) tail = n > 32 ? n % 16 : n; else tail = n > bl ? n % bl : n;
      u64 at = n - tail + wb * ((u64)l.arg(3) % 4); if (at + wb > n) continue; u64 words = ((fn >= F_S64 ? tail + 8 : tail) + wb - 1) / wb, ki = (at - (n - tail)) / wb; if (words - ki > 4 || words <= ki) continue;
      std::vector<u64> tr; m_trace = &tr; model_fn(fn, k.b.data(), n, (u64)l.arg(2), 0); m_trace = 0; if (ki >= tr.size()) continue;
      u64 t = craft((u64)l.arg(4), w32 ? m_prime32[words - ki] : m_prime[words - ki], (int)((u64)l.arg(5) & 3), w32); t -= tr[ki]; bool be = fn == F_32BE || fn == F_1BE; for (unsigned i = 0; i < wb; i++) k.b[at + i] = (u8)(t >> 8 * (be ? wb - 1 - i : i)); S.fault("key crafted for an extreme multiplication"); continue; }
    if (l.op == "put") { auto it = ks.m.find((int)l.arg(1)); int fn = (int)l.arg(2); if (it == ks.m.end() || !is_hash(fn) || fn == F_T1HA0) continue; Rec &r = rec[(int)l.arg(0)]; r.b = it->second.b; r.fn = fn; r.seed = (u64)l.arg(3); Key &k = it->second;
      r.d = published(fn, k.b.data(), k.len, r.seed); r.ok = true; place(k, k.zone >= 0 ? k.zone : it->first & 15, k.off ? k.off : PG, 3, l.arg(4), 3);
      if (!judge((int)l.arg(4), fn, k.p, k.len, r.seed, r.d, "recorded")) return; v.ev(uses_aes(fn) ? 1 : r.d.r ^ r.d.hi * 3); continue; }
    if (l.op == "get") { auto it = rec.find((int)l.arg(0)); if (it == rec.end() || !it->second.ok) continue; Rec &r = it->second; Key c; c.len = r.b.size(); c.b = r.b; place(c, (int)((u64)l.arg(2) % 16), (size_t)((u64)l.arg(3) & 0xffff), 3, l.arg(3), l.arg(4) & 1 ? PROT_READ : 3);
      S.fault("record delivered to another node"); if (!judge((int)l.arg(1), r.fn, c.p, c.len, r.seed, r.d, "verified as")) return; v.ev(l.arg(1)); continue; }
    if (l.op == "sw") { // node key fn seed lo cnt offset: a range of lengths at one address, seeds alternating
      auto it = ks.m.find((int)l.arg(1)); int fn = (int)l.arg(2); if (it == ks.m.end() || !is_hash(fn) || fn == F_T1HA0) continue; Image *im = im_of((int)l.arg(0)); if (!im || !fn_usable(im, fn)) continue; Key &k = it->second; Key c; c.len = k.len; c.b = k.b; place(c, 15, PG + ((u64)l.arg(6) & 8191), 3, 7, 3);
      u64 lo = (u64)l.arg(4), hi = std::min(k.len, lo + ((u64)l.arg(5) & 1023)), s = (u64)l.arg(3); for (u64 n = lo; n <= hi && lo <= k.len; n++, s = s * 0x9E3779B97F4A7C15ull + 1) { Res w = published(fn, k.b.data(), n, s); if (!judge((int)l.arg(0), fn, c.p, n, s, w, "recorded")) { v.note("length %llu seed %llx", (unsigned long long)n, (unsigned long long)s); return; } } S.probe("sweep of lengths"); v.ev(hi); continue; }
    if (l.op == "H") { // node fn seed length misalignment
      int fn = (int)l.arg(1); u64 n = (u64)l.arg(3), mis = (u64)l.arg(4) & 63; if (!is_hash(fn) || fn == F_T1HA0 || n != (u64)(size_t)n || !im_of((int)l.arg(0)) || !fn_usable(im_of((int)l.arg(0)), fn)) continue; u8 *p = alias_map(n + 64 + PG); if (!p) { S.probe("huge record skipped"); continue; }
      p += mis; watchdog_seconds(300); Res w = published(fn, p, n, (u64)l.arg(2)); S.fault(n >> 32 ? "record beyond 4 GiB" : "record beyond 2 GiB"); bool ok = judge((int)l.arg(0), fn, p, n, (u64)l.arg(2), w, "recorded"); watchdog_seconds(0); if (!ok) return; v.ev(n); }
  }
  v.nontrivial = checks > 0; S.probe("digest compared", checks);
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  bool huge = idx % 20000 == 9000 || idx % 20000 == 17001; int nn = huge ? 1 : 2 + (int)r.below(6); auto pickfn = [&] { static const int f[] = {F_1LE, F_1BE, F_2, F_2_128, F_S64, F_S128, F_1LE, F_1BE, F_2, F_2_128, F_S64, F_S128, F_32LE, F_32BE, F_AES_NOAVX, F_AES_AVX, F_AES_AVX2}; return f[r.below(17)]; };
  for (int i = 0; i < nn; i++) sc.push_back({"node", {i, pick_variant(r)}});
  if (huge) { u64 len = BITS64 ? (r.chance(1, 8) ? 1ull << 31 : 1ull << 32) + r.pick<u64>({0, r.below(300), r.below(64), r.below(1 << 20), (u64)-1}) : (1ull << 31) + r.below(r.chance(1, 2) ? 100 : 100000); static const int hf[] = {F_1LE, F_AES_AVX2, F_2, F_1BE, F_AES_AVX, F_S64, F_2_128, F_AES_NOAVX, F_S128, F_32LE, F_32BE}; int fn = hf[(idx / 20000 * 2 + (idx % 20000 == 17001)) % 11]; int w = pick_variant(r); for (int q = 0; q < 40 && !fn_usable(img(w), fn); q++) w = pick_variant(r, false); sc[0].a[1] = w; sc.push_back({"H", {0, fn, (i64)gen_seed(r), (i64)len, (i64)r.below(32)}}); return; }
  int nk = 1 + (int)r.below(4), nr = 0; std::vector<u64> lens;
  for (int k = 0; k < nk; k++) { u64 len = r.chance(1, 400) ? 60000 + r.below(500000) : gen_len(r, 12000); lens.push_back(len); i64 s; int kind = gen_fill(r, s); sc.push_back({"k", {k, (i64)len, kind, s}});
    while (len >= 8 && r.chance(1, 3)) sc.push_back({"kp", {k, (i64)(r.chance(1, 2) ? (len - 8) / 8 * 8 - 8 * std::min<u64>(r.below(4), (len - 8) / 8) : r.below(len - 7)), (i64)gen_val(r)}});
    sc.push_back({"at", {k, (i64)r.below(15), (i64)gen_off(r, len)}}); }
  int nops = 6 + (int)r.below(24); std::vector<int> pending;
  for (int i = 0; i < nops; i++) {
    int k = (int)r.below(nk), fn = pickfn(); u64 seed = gen_seed(r), len = lens[k];
    switch (r.below(8)) {
    case 0: sc.push_back({"up", {(i64)r.below(nn), pick_variant(r, false)}}); break;
    case 1: { u64 c = 20 + r.below(100); u64 lo = r.chance(1, 2) || len < c ? 0 : len - c; sc.push_back({"sw", {(i64)r.below(nn), k, fn, (i64)seed, (i64)lo, (i64)c, (i64)(r.chance(1, 2) ? r.below(64) : PG - r.below(130))}}); break; }
    case 2: case 3: { int n = 1 + (int)r.below(2); if (r.chance(1, 2)) for (int q = 0; q < n; q++) { u64 t = gen_val(r); if (r.chance(1, 2)) { auto edge = [&] { return r.chance(1, 6) ? r.next() & 0xffffffffull : r.pick<u64>({0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}); }; u64 hi = edge(); t = hi << 32 | (r.chance(1, 2) ? edge() : r.next() & 0xffffffffull); } sc.push_back({"kx", {k, fn, (i64)seed, (i64)r.below(4), (i64)t, (i64)r.below(4)}}); }
      } // fall through
    case 4: case 5: sc.push_back({"put", {nr, k, fn, (i64)seed, (i64)r.below(nn)}}); { int c = 1 + (int)r.below(4); while (c--) pending.push_back(nr); } nr++; break;
    default: if (pending.empty()) break; { size_t q = r.below(pending.size()); int id = pending[q]; if (!r.chance(1, 6)) pending.erase(pending.begin() + q); sc.push_back({"get", {id, (i64)r.below(nn), (i64)r.below(16), (i64)gen_off(r, 300), (i64)r.below(2)}}); }
    }
  }
  while (!pending.empty() && r.chance(11, 12)) { size_t q = r.below(pending.size()); int id = pending[q]; pending.erase(pending.begin() + q); sc.push_back({"get", {id, (i64)r.below(nn), (i64)r.below(16), (i64)gen_off(r, 300), (i64)r.below(2)}}); if (r.chance(1, 5)) sc.push_back({"up", {(i64)r.below(nn), pick_variant(r, false)}}); }
}
static PropReg reg("C11", gen, run, 0, "One run = a cluster of 2-7 nodes on random builds (all 30 in this word size), restarted one by one with other builds while records and digests travel between them delayed, reordered and duplicated to other addresses; every digest recorded or verified is compared with the published value computed by the reference model; keys include ones crafted from the model's state so that tail multiplications meet extreme operands and products, sweeps of all short lengths, occasionally records beyond 2 or 4 GiB. The same runs are executed in 32- and 64-bit processes and their logs compared. Non-trivial: at least one digest compared; distinct: different hash of digests and deliveries.");
