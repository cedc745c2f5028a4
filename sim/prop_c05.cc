// C05: bytes outside the key never influence a result.   C06: no call touches memory it must not.
#include "stepworld.h"
#include <sys/mman.h>
typedef void (*init_t)(void *, u64, u64); typedef void (*upd_t)(void *, const void *, size_t); typedef u64 (*fin_t)(void *, u64 *);
// A call on a key; for stream functions `pre` bytes (from safe memory) are fed first, so that the key meets a partly filled buffer.
static u8 g_pre[64];
static u64 call_at(Image *im, int fn, const u8 *p, size_t n, u64 seed, unsigned pre, u8 *ctx, u64 *hi) {
  if (fn == F_S64 || fn == F_S128) { ((init_t)im->f[F_INIT])(ctx, seed, seed_y(seed)); if (pre) ((upd_t)im->f[F_UPDATE])(ctx, g_pre, pre); ((upd_t)im->f[F_UPDATE])(ctx, p, n); return ((fin_t)im->f[F_FINAL])(ctx, fn == F_S128 ? hi : 0); }
  return rawcall(im, fn, p, n, seed, hi);
}
static u64 model_at(Image *im, int fn, const u8 *p, size_t n, u64 seed, unsigned pre, u64 *hi) {
  if (fn == F_T1HA0) fn = best_t1ha0(im);
  if ((fn == F_S64 || fn == F_S128) && pre) { MStream s; s.init(seed, seed_y(seed)); s.update(g_pre, pre); s.update(p, n); *hi = 0; return fn == F_S64 ? s.final64() : s.final128(hi); }
  return model_fn(fn, p, n, seed, hi);
}
static void pre_init() { for (int i = 0; i < 64; i++) g_pre[i] = (u8)(i * 37 + 11); }

/* ---------------- C05 ---------------- */
static void run5_native(const Scen &sc, Verdict &v) {
  Image *im = 0; zones_reset(); pre_init(); u64 calls = 0; const size_t LO = PG, NP = 6; u8 *base = zone(1); zone_commit(1, LO, NP * PG, 3); base += LO;
  static std::vector<u8> key;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (l.op != "sur" || !im) continue;
    int fn = (int)l.arg(0); u64 lo = (u64)l.arg(1) & 0x1fff, hi = (u64)l.arg(2) & 0x1fff, o0 = (u64)l.arg(3) & 0x1fff, o1 = (u64)l.arg(4) & 0x1fff, seed = (u64)l.arg(5); int kind = (int)l.arg(6); i64 ks = l.arg(7); unsigned pre = (unsigned)l.arg(8) & 63; u64 ss = (u64)l.arg(9);
    if (!is_hash(fn) || !fn_usable(im, fn)) continue; key.resize(hi + 8); int zi = (ss & 3) == 1 ? 3 : (ss & 3) == 2 ? 4 : 0; u8 *z = zone(zi); zone_commit(zi, LO, NP * PG, 3); if (zi) S.fault("key across a round address");
    for (u64 len = lo; len <= hi; len++) {
      fill(key.data(), len, kind, ks); volatile u64 bh = 0, br = 0; memset(base + PG - 128, 0, len + 256); memcpy(base + PG, key.data(), len);
      volatile int stage = 0; volatile u64 off = 0; volatile int sur = 0;
      if (NATIVE_TRY) { u64 h = 0; br = call_at(im, fn, base + PG, len, seed, pre, ctx_mem(0), &h); bh = h; stage = 1;
        for (off = o0; off <= o1; off = off + 1) {
          u8 *p = z + LO + PG + off; u64 x = mix(ss ^ off ^ len << 20);
          for (sur = 0; sur < 3; sur = sur + 1) {
            size_t w = 72; u8 *a = p - w, *b = p + len;
            if (sur == 0) { memset(a, 0, w); memset(b, 0, w); } else if (sur == 1) { memset(a, 0xff, w); memset(b, 0xff, w); } else for (size_t i = 0; i < w; i += 8) { x = mix(x); memcpy(a + i, &x, 8); x = mix(x); memcpy(b + i, &x, 8); }
            memcpy(p, key.data(), len); u64 hh = 0, r = call_at(im, fn, p, len, seed, pre, ctx_mem(0), &hh); calls++;
            if (r != br || hh != bh) { NATIVE_END; v.fail("outside", strf("build %s: %s(len %llu, seed %llx) at page offset %llu with surroundings %d returns %016llx%016llx, elsewhere %016llx%016llx", im->variant.c_str(), fn_name[fn], (unsigned long long)len, (unsigned long long)seed, (unsigned long long)((PG + off) % PG), (int)sur, (unsigned long long)hh, (unsigned long long)r, (unsigned long long)bh, (unsigned long long)br)); return; }
          } }
        NATIVE_END; v.ev(br);
      } else { NATIVE_END; (void)stage; S.probe("call crashed (not this property)"); break; }
    }
    S.fault("surrounding bytes changed", (hi - lo + 1) * (o1 - o0 + 1) * 3 * (hi >= lo && o1 >= o0)); S.fault("key moved", (hi - lo + 1) * (o1 - o0 + 1) * (hi >= lo && o1 >= o0));
  }
  S.calls += calls; S.probe("result compared with another placement", calls); v.nontrivial = calls > 5;
}
static void run5_step(const Scen &sc, Verdict &v) {
  zones_reset(); StepWorld w; if (!w.parse(sc, v)) { v.nontrivial = false; return; }
  w.keys.place_all(3, 77, false); w.watch = false; w.execute(5); Image *im = w.im; if (w.crashflag) { S.probe("call crashed (not this property)"); return; }
  Keys base = w.keys; int z = 16; for (auto &k : base.m) { place(k.second, z++, PG, 0, 0, 3); }
  for (auto &r : w.recs) { if (!r.done) continue;
    if (r.stream_final) { u64 mh = 0, m = r.hip ? r.stream.model.final128(&mh) : r.stream.model.final64(); S.probe("result compared"); if (m == r.ret && mh == r.hi) continue; u64 a, b; if (solo_stream(im, r.stream, base.m, r.hip != 0, a, b) && (a != r.ret || b != r.hi)) { v.fail("outside", strf("build %s: stream digest changes when bytes next to its pieces are rewritten during the calls", im->variant.c_str())); return; } }
    else if (is_hash(r.it.fn)) { Key &k = base.m[r.it.key]; u64 mh = 0, m = model_fn(r.it.fn == F_T1HA0 ? best_t1ha0(im) : r.it.fn, k.b.data(), k.len, r.it.seed, &mh); S.probe("result compared"); if (m == r.ret && mh == r.hi) continue; Res s = solo_call(im, r.it, k);
      if (s.ok && (s.r != r.ret || s.hi != r.hi)) { v.fail("outside", strf("build %s: %s(len %llu) returns %016llx while neighbouring bytes are being rewritten, otherwise %016llx", im->variant.c_str(), fn_name[r.it.fn], (unsigned long long)k.len, (unsigned long long)r.ret, (unsigned long long)s.r)); return; } } }
  v.nontrivial = w.M.steps > 20;
}
static void run5(const Scen &sc, Verdict &v) { for (auto &l : sc) if (l.op == "T") { run5_step(sc, v); return; } run5_native(sc, v); }
static int gen_any(Rng &r) { return (int)r.below(F_COUNT); }
static void gen5(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"v", {pick_variant(r, false)}});
  if (idx % 4 == 3) {
    int nk = 1 + (int)r.below(2); for (int i = 0; i < nk; i++) { i64 s; u64 len = r.chance(1, 2) ? r.below(70) : gen_len(r, 300); int k = gen_fill(r, s); sc.push_back({"k", {i, (i64)len, k, s}}); sc.push_back({"at", {i, i, (i64)gen_off(r, len)}}); }
    int nc = 1 + (int)r.below(4); for (int c = 0; c < nc; c++) { if (r.chance(1, 4)) { sc.push_back({"c", {0, F_INIT, 0, (i64)gen_seed(r), 0}}); sc.push_back({"c", {0, F_UPDATE, (i64)r.below(nk), 0, 0}}); sc.push_back({"c", {0, F_UPDATE, (i64)r.below(nk), 0, 0}}); sc.push_back({"c", {0, F_FINAL, 0, (i64)r.below(2), 0}}); } else sc.push_back({"c", {0, gen_any(r) % F_S64, (i64)r.below(nk), (i64)gen_seed(r), 0}}); }
    sc.push_back({"T", {0}}); sc.push_back({"pol", {16, r.pick<i64>({1, 2, 4, 16}), 2000, (i64)(r.next() >> 2)}}); return;
  }
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) { int fn = gen_any(r); i64 ks; int kind = gen_fill(r, ks); u64 lo, hi, o0, o1; u64 seed = gen_seed(r);
    switch (r.below(5)) {
    case 0: lo = 0; hi = 40; o0 = r.below(2) * (PG - 80) + r.below(40); o1 = o0 + 40; break;             // all short lengths over all alignments near a page end or inside
    case 1: lo = hi = gen_len(r, 3000); o0 = PG - 90; o1 = PG + 8; break;
    case 2: lo = r.below(260); hi = lo + 34; o0 = PG - std::min<u64>(hi, PG - 16) % PG - 8; o1 = o0 + 20; break;
    case 3: lo = hi = r.below(70); o0 = 0; o1 = PG; break;                                                // every page offset
    default: lo = gen_len(r, 2000); hi = lo + 3; o0 = r.below(PG); o1 = o0 + 16; break; }
    sc.push_back({"sur", {fn, (i64)lo, (i64)hi, (i64)o0, (i64)o1, (i64)seed, kind, ks, fn >= F_S64 ? (i64)r.below(33) : 0, (i64)(r.next() >> 40)}}); }
}
static PropReg reg5("C05", gen5, run5, 0, "Three quarters of the runs: a random function, length range and address range; the same key bytes at every address of the range with surrounding bytes all-zero, all-one and random must give the same result as at a reference address. One quarter: stepped calls during which another party rewrites the bytes next to the keys at PRNG-chosen instructions. Non-trivial: more than 5 calls (or 20 instructions) executed; distinct: different hash of the event log.");

/* ---------------- C06 ---------------- */
static u8 *arena[6]; static bool demand; static uptr dem_lo, dem_hi; static u64 dem_n;
struct max_u64 { u64 v; }; // its alignment is the ABI's for a uint64_t member: 4 in 32-bit code
static bool dem_pager(uptr a, bool w) { if (!demand || w || a < dem_lo || a >= dem_hi) return false; dem_n++; return mprotect((void *)(a & ~(PG - 1)), PG, PROT_READ) == 0; }
static void run6(const Scen &sc, Verdict &v) {
  Image *im = 0; zones_reset(); pre_init(); u64 calls = 0; int kind = 3; i64 ks = 1; demand = false; g_pager = dem_pager;
  // arena j: j+1 readable pages between unmapped ones; contexts and extra results in pages of their own between unmapped ones
  auto setup = [&] { for (int j = 0; j < 6; j++) { zone_commit(j, PG, (j + 1) * PG, 3); arena[j] = zone(j) + PG; fill(arena[j], (j + 1) * PG, kind, ks + j); zone_commit(j, PG, (j + 1) * PG, PROT_READ); } };
  zone_commit(20, 4 * PG, PG, 3); u8 *cpage = zone(20) + 4 * PG; zone_commit(21, 4 * PG, PG, 3); u8 *xpage = zone(21) + 4 * PG; memset(cpage, 0xA5, PG); memset(xpage, 0x5A, PG); bool filled = false; u64 cur_pages = 0;
  static std::vector<u8> cpy;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (l.op == "fill") { kind = (int)l.arg(0); ks = l.arg(1); filled = false; continue; }
    if (!im) continue; 
    bool sweep = l.op == "e", nul = l.op == "n", dp = l.op == "dp"; if (!sweep && !nul && !dp) continue;
    if (!filled) { setup(); filled = true; }
    int fn = (int)l.arg(0); if (!is_hash(fn) || !fn_usable(im, fn)) continue;
    unsigned flags = (unsigned)l.arg(7); unsigned pre = fn >= F_S64 ? (flags >> 4) & 63 : 0; u64 seed = (u64)l.arg(6);
    u8 *ctx = flags & 1 ? cpage : cpage + PG - g_ctx_size; u64 *ex = (u64 *)(flags & 2 ? xpage : xpage + PG - 8);
    if (l.arg(8)) { unsigned g = (unsigned)l.arg(8) & 0xfff; ctx = cpage + g * g_ctx_align % (PG - g_ctx_size + 1) / g_ctx_align * g_ctx_align; ex = (u64 *)(xpage + g * alignof(max_u64) % (PG - 8 + 1) / alignof(max_u64) * alignof(max_u64)); }
    // canaries around the context and the extra result
    memset(cpage, 0xA5, PG); memset(xpage, 0x5A, PG);
    auto canary = [&]() -> bool {
      for (size_t i = 0; i < PG; i++) { if (cpage[i] != 0xA5 && !(cpage + i >= ctx && cpage + i < ctx + g_ctx_size && fn >= F_S64)) return false; if (xpage[i] != 0x5A && !(xpage + i >= (u8 *)ex && xpage + i < (u8 *)ex + 8 && (fn == F_2_128 || fn == F_S128))) return false; }
      return true; };
    volatile u64 vlen = 0, voff = 0; volatile bool bad = false; volatile u64 gr = 0, gh = 0, mr = 0, mhh = 0; u8 *volatile vp = 0;
    if (nul) { // length 0, data pointer anything
      u64 w = (u64)l.arg(1); const u8 *p = (const u8 *)(uptr)w;
      if (NATIVE_TRY) { u64 h = 0, mh = 0; u64 r = 0; if (fn == F_2_128 || fn == F_S128) *ex = 0; r = fn == F_2_128 || fn == F_S128 ? call_at(im, fn, p, 0, seed, pre, ctx, ex) : call_at(im, fn, p, 0, seed, pre, ctx, &h); h = fn == F_2_128 || fn == F_S128 ? *ex : 0; NATIVE_END; calls++; u64 m = model_at(im, fn, g_pre, 0, seed, pre, &mh); if (r != m || h != mh) { u64 h2 = 0; u64 s = call_at(im, fn, g_pre, 0, seed, pre, ctx, &h2); if (s != r) { v.fail("result", strf("build %s: %s of an empty key depends on the data pointer", im->variant.c_str(), fn_name[fn])); return; } } }
      else { NATIVE_END; v.fail("fault", strf("build %s: %s with length 0 and data pointer %#llx: %s at %#llx", im->variant.c_str(), fn_name[fn], (unsigned long long)w, g_nwhy.c_str(), (unsigned long long)g_naddr)); return; }
      S.fault("invalid pointer with length zero"); if (!canary()) { v.fail("write", strf("build %s: %s wrote outside the context and the extra result", im->variant.c_str(), fn_name[fn])); return; } continue;
    }
    // lengths lo..hi; mode 0: the key ends `arg` bytes before the end of the mapped pages (arg0..arg1), mode 1: it starts `arg` bytes after their beginning
    u64 lo = (u64)l.arg(1) & 0x3fff, hi = (u64)l.arg(2) & 0x3fff; int mode = (int)l.arg(3) & 1; u64 a0 = (u64)l.arg(4) & 0xfff, a1 = (u64)l.arg(5) & 0xfff; bool step = false; (void)step; demand = dp;
    for (u64 len = lo; len <= hi && !bad; len++) {
      vlen = len;
      if (NATIVE_TRY) {
        for (u64 a = a0; a <= a1; a++) {
          u64 j = len + a == 0 ? 0 : (len + a - 1) / PG; if (j >= 6) break; u8 *ar = arena[j]; u64 pages = (j + 1) * PG; u8 *p = mode == 0 ? ar + pages - a - len : ar + a; if (p + len > ar + pages || p < ar) break;
          voff = a; vp = p; 
          if (dp) { dem_lo = (uptr)p & ~(PG - 1); dem_hi = ((uptr)p + len + PG - 1) & ~(PG - 1); if (dem_hi > dem_lo) mprotect((void *)dem_lo, dem_hi - dem_lo, PROT_NONE); }
          u64 h = 0, mh = 0; bool wide = fn == F_2_128 || fn == F_S128; if (wide) *ex = ~0ull;
          u64 r = call_at(im, fn, p, len, seed, pre, ctx, wide ? ex : &h); h = wide ? *ex : 0; calls++;
          if (dp && dem_hi > dem_lo) { mprotect((void *)dem_lo, dem_hi - dem_lo, PROT_READ); }
          u64 m = model_at(im, fn, p, len, seed, pre, &mh);
          if (r != m || h != mh) { bad = true; gr = r; gh = h; mr = m; mhh = mh; break; }
          v.log = v.log * 31 + r;
        }
        NATIVE_END;
      } else {
        NATIVE_END; demand = false; u64 fa = g_naddr; uptr kl = (uptr)vp, kh = kl + vlen; bool inside = fa >= kl && fa < kh;
        v.fail("fault", strf("build %s: %s(len %llu) at page offset %llu: %s at key%+lld (%s the key)", im->variant.c_str(), fn_name[fn], (unsigned long long)vlen, (unsigned long long)(kl % PG), g_nwhy.c_str(), (long long)(fa - kl), inside ? "inside" : "outside")); return;
      }
    }
    demand = false;
    if (bad) { // is it this property's business? compare with the same key at the same offset in ordinary memory
      u8 *q = zone(10) + 4 * PG + (uptr)vp % PG; zone_commit(10, PG, 12 * PG, 3); fill(zone(10) + PG, 12 * PG, 3, 9); memcpy(q, vp, vlen); im->reset_ready(); sim_sync_reset(); u64 h = 0; NativeGuard g; u64 r = 0; size_t n = vlen; bool ok = g.run([&] { r = call_at(im, fn, q, n, seed, pre, ctx_mem(0), &h); });
      if (fn != F_2_128 && fn != F_S128) h = 0;
      if (ok && (r != gr || h != gh)) { v.fail("result", strf("build %s: %s(len %llu) at page offset %llu with unmapped neighbours%s returns %016llx%016llx, in ordinary memory %016llx%016llx", im->variant.c_str(), fn_name[fn], (unsigned long long)vlen, (unsigned long long)((uptr)vp % PG), dp ? " and demand paging" : "", (unsigned long long)gh, (unsigned long long)gr, (unsigned long long)h, (unsigned long long)r)); return; }
      S.probe("differs from the published value even in ordinary memory (not this property)"); (void)mr; (void)mhh;
    }
    if (!canary()) { v.fail("write", strf("build %s: %s(len %llu..%llu) wrote outside the context and the extra result", im->variant.c_str(), fn_name[fn], (unsigned long long)lo, (unsigned long long)hi)); return; }
    if (dp) { S.fault("page fault on the key serviced during a call", dem_n); dem_n = 0; } else S.fault(mode == 0 ? "unmapped page right after the key" : "unmapped page right before the key", 1);
  }
  (void)cur_pages; g_pager = 0; S.calls += calls; S.probe("guarded calls", calls); v.nontrivial = calls > 0;
}
static void gen6(Rng &r, u64 idx, Scen &sc) {
  (void)idx; sc.push_back({"v", {pick_variant(r, false)}}); i64 ks; int kind = gen_fill(r, ks); sc.push_back({"fill", {kind, ks}});
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) { int fn = gen_any(r); i64 fl = (i64)(r.below(4) | (r.below(33) << 4)), xo = r.chance(2, 3) ? (i64)(r.chance(1, 2) ? 1 + r.below(64) : r.below(4096)) : 0; i64 seed = (i64)gen_seed(r); u64 lo, hi, a0, a1; int mode = (int)r.below(2);
    unsigned q = r.below(10);
    if (q == 0) { i64 w = r.pick<i64>({0, 1, 8, -1, -8, 0x30, 4096, (i64)0xdeadbeef, (i64)0x7ffffffffffffff8ll, (i64)0x8000000000000000ll, (i64)0xfffffffffffff000ll, (i64)(ZONE_BASE + 2 * PG), (i64)(ZONE_BASE + PG - 1)}); sc.push_back({"n", {fn, w, 0, 0, 0, 0, seed, fl, xo}}); continue; }
    if (q == 1) { lo = gen_len(r, 9000); hi = lo + r.below(3); a0 = r.below(PG); a1 = a0 + r.below(3); sc.push_back({"dp", {fn, (i64)lo, (i64)hi, mode, (i64)a0, (i64)a1, seed, fl, xo}}); continue; }
    switch (r.below(5)) {
    case 0: lo = 0; hi = 64; a0 = 0; a1 = 63; break;
    case 1: lo = r.below(300); hi = lo + 40; a0 = 0; a1 = 35; break;
    case 2: lo = hi = r.below(48); a0 = 0; a1 = PG - 1; break; // every offset of a page
    case 3: lo = gen_len(r, 9000); hi = lo + 8; a0 = 0; a1 = 9; break;
    default: lo = hi = gen_len(r, 9000); a0 = r.below(PG - 64); a1 = a0 + 63; break; }
    sc.push_back({"e", {fn, (i64)lo, (i64)hi, mode, (i64)a0, (i64)a1, seed, fl, xo}}); }
}
static PropReg reg6("C06", gen6, run6, 0, "One run = a random build; keys of a range of lengths ending or starting at every offset of a range next to unmapped pages, in read-only memory; contexts and extra-result words in single pages between unmapped ones with canaries; invalid data pointers with length zero; keys whose pages fault during the call and are then serviced. Non-trivial: at least one guarded call; distinct: different hash of the event log (results).");
