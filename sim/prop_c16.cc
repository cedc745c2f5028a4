// C16: no call needs anything from the operating system, fails for want of it, or leaves anything behind.
#include "stepworld.h"
#include "streams.h"
#include "os.h"
static std::string call_text(Image *im, int fn, u64 len, u64 seed) { return strf("build %s: %s(len %llu, seed %llx)", im->variant.c_str(), fn < F_ALL ? fn_name[fn] : "?", (unsigned long long)len, (unsigned long long)seed); }
static bool traces(Verdict &v, const std::string &who, int err0) { // what must not be left behind by any call
  if (g_lib_os.outputs) { v.fail("output", who + " writes to a file or standard stream by " + g_lib_os.output_by); return true; }
  if (g_lib_os.process) { v.fail("process", who + " calls " + g_lib_os.process_by); return true; }
  if (g_lib_os.err != err0) { v.fail("errno", strf("%s leaves errno changed from %d to %d", who.c_str(), err0, g_lib_os.err)); return true; }
  return false;
}
static Res digest(Image *im, int fn, const u8 *p, u64 n, u64 seed, u64 cut, u64 reps, size_t *held) { // natively; streams in pieces of `cut`; `held`: resources after the 2nd and the last repetition
  static u64 r, hi; r = hi = 0; Res o; NativeGuard g; held[0] = held[1] = g_lib_os.held();
  o.ok = g.run([&] { for (u64 i = 0; i < reps; i++) { u64 h = 0;
    if (fn >= F_S64) { u8 *c = ctx_mem(0); ((init_t)im->f[F_INIT])(c, seed, seed_y(seed)); for (u64 at = 0; at < n || !at; at += cut) { ((upd_t)im->f[F_UPDATE])(c, p + at, (size_t)std::min(cut, n - at)); if (!n) break; } r = ((fin_t)im->f[F_FINAL])(c, fn == F_S128 ? &h : 0); }
    else r = rawcall(im, fn, p, (size_t)n, seed, &h);
    hi = h; S.calls++; if (i == 1) held[0] = g_lib_os.held(); } });
  held[1] = g_lib_os.held(); o.r = r; o.hi = hi; o.why = g.why; return o;
}
static void run(const Scen &sc, Verdict &v) {
  bool step = false; for (auto &l : sc) if (l.op == "T") step = true;
  u64 seed = 0, nth = 0; unsigned rate = 256; for (auto &l : sc) if (l.op == "os") { seed = (u64)l.arg(0); rate = (unsigned)l.arg(1) & 511; nth = (u64)l.arg(2) & 0xff; }
  S.fault(nth ? "process in which one request is refused" : rate >= 256 ? "process in which every request is refused" : rate ? "process in which requests are refused at random" : "process with arbitrary environment, files, clocks");
  zones_reset();
  if (step) { // one instruction at a time: system-call instructions are seen too
    StepWorld w; if (!w.parse(sc, v)) { v.nontrivial = false; return; } w.keys.place_all(-1, 0, true); os_reset(true, seed, rate, nth); int e0 = g_lib_os.err = 1 + (int)(seed & 127);
    w.execute(mix(seed)); judge(w, v); if (!v.bad) traces(v, strf("build %s: a program of library calls", w.im->variant.c_str()), e0); v.ev(g_lib_os.requests); v.ev(g_lib_os.refused); os_reset(false, 0, 0, 0); v.nontrivial = w.M.steps > 50; return; }
  Image *im = 0; Keys ks; bool placed = false, booted = false; int n = 0;
  auto end = [&] { os_reset(false, 0, 0, 0); if (booted) image_init_native(im); };
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (l.op == "os" || ks.take(l) || !im) continue;
    if (!placed) { ks.place_all(-1, 0, false); placed = true; os_reset(true, seed, rate, nth); }
    int e0 = g_lib_os.err = 1 + (int)(mix(seed + n) & 127); n++; size_t held[2];
    if (l.op == "boot") { booted = true; bool ok = image_init_native(im); S.fault("library started while the system refuses"); if (!ok) { OsOff o; if (image_init_native(im)) { v.fail("crash", strf("build %s: start-up crashed: %s", im->variant.c_str(), im->init_err.c_str())); break; } } if (traces(v, strf("build %s: start-up of the library", im->variant.c_str()), e0)) break; continue; }
    if (l.op == "sc") { int fn = (int)l.arg(0); if (fn < F_SC_ALL || fn >= F_ALL || !im->f[fn] || ((fn == F_SC_NOAVX || fn == F_SC_AVX || fn == F_SC_AVX2) && !g_host.avx2)) continue; std::string why; int r = nselfcheck(im, fn, &why); S.probe("self-check verdict compared");
      if (r) { OsOff o; im->reset_ready(); int s = nselfcheck(im, fn, 0); if (s != r) { v.fail(r == -1000 ? "crash" : "verdict", strf("%s returned %d, in an ordinary process %d; %s", call_text(im, fn, 0, 0).c_str(), r, s, why.c_str())); break; } }
      if (traces(v, call_text(im, fn, 0, 0), e0)) break; v.ev(r); continue; }
    int fn = (int)l.arg(0); if (!is_hash(fn) || !fn_usable(im, fn)) continue; u64 sd = (u64)l.arg(2), cut = std::max<u64>(1, (u64)l.arg(3)), reps = 1; const u8 *p; u64 len; bool big = false;
    if (l.op == "h") { auto it = ks.m.find((int)l.arg(1)); if (it == ks.m.end()) continue; p = it->second.p; len = it->second.len; reps = 1 + ((u64)l.arg(4) & 4095); }
    else if (l.op == "big") { big = true; len = std::min<u64>((u64)l.arg(1), 1ull << 28); u8 *q = alias_map(len + 64); if (!q) continue; p = q + (l.arg(4) & 63); }
    else continue;
    if (len / cut > 200000) cut = len;
    Res r = digest(im, fn, p, len, sd, cut, reps, held); S.probe("digest compared"); if (big) S.fault("key or piece of many MiB"); v.ev(r.r);
    Res s; u64 hi = 0; if (!big) { s.ok = true; s.r = model_fn(fn == F_T1HA0 ? best_t1ha0(im) : fn, p, len, sd, &hi); s.hi = hi; }
    if (big || !(s == r)) { OsOff o; std::vector<std::vector<u8>> sv; im->snapshot(sv); if (booted) { std::vector<std::vector<u8>> rd = im->ready; image_init_native(im); im->ready = rd; } else im->reset_ready(); size_t h2[2]; s = digest(im, fn, p, len, sd, cut, 1, h2); im->restore(sv); }
    if (big) alias_unmap();
    if (s.ok && !(s == r)) { v.fail(r.ok ? "result" : "crash", strf("%s in a process short of resources%s returned %016llx%016llx%s, in an ordinary one %016llx%016llx (%llu requests, %llu refused)", call_text(im, fn, len, sd).c_str(), booted ? " (library started there)" : "", (unsigned long long)r.hi, (unsigned long long)r.r, r.why.c_str(), (unsigned long long)s.hi, (unsigned long long)s.r, (unsigned long long)g_lib_os.requests, (unsigned long long)g_lib_os.refused)); break; }
    if (reps >= 16 && held[1] > held[0] + reps / 2) { v.fail("leak", strf("%s, called %llu times, holds %zu more blocks of memory, files or descriptors than before", call_text(im, fn, len, sd).c_str(), (unsigned long long)reps, held[1] - held[0])); break; }
    if (traces(v, call_text(im, fn, len, sd), e0)) break;
  }
  end(); v.nontrivial = n > 0;
}
static int gen_fn(Rng &r) { return r.pick({(int)F_T1HA0, (int)F_32LE, (int)F_32BE, (int)F_AES_NOAVX, (int)F_AES_AVX, (int)F_AES_AVX2, (int)F_1LE, (int)F_1BE, (int)F_2, (int)F_2_128, (int)F_S64, (int)F_S128}); }
static void gen(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"v", {pick_variant(r)}}); bool step = idx % 5 == 0; int mode = (int)r.below(4);
  sc.push_back({"os", {(i64)(r.next() >> 2), mode == 0 ? 256 : mode == 1 ? 0 : (i64)r.below(256), mode == 3 ? 1 + (i64)r.below(r.chance(1, 3) ? 40 : 4) : 0}});
  int nk = 1 + (int)r.below(3);
  for (int i = 0; i < nk; i++) { i64 s; u64 len = step ? gen_len(r, r.chance(1, 8) ? 3000 : 260) : gen_len(r, r.chance(1, 3) ? 60000 : 3000); int k = gen_fill(r, s); sc.push_back({"k", {i, (i64)len, k, s}}); sc.push_back({"at", {i, i, (i64)gen_off(r, len)}}); }
  if (step) {
    int nc = 2 + (int)r.below(8); for (int c = 0; c < nc; c++) {
      if (r.chance(1, 3)) { int cx = (int)r.below(3); sc.push_back({"c", {0, F_INIT, 0, (i64)gen_seed(r), cx}}); int nu = (int)r.below(4); for (int u = 0; u < nu; u++) sc.push_back({"c", {0, F_UPDATE, (i64)r.below(nk), 0, cx}}); sc.push_back({"c", {0, F_FINAL, 0, (i64)r.below(2), cx}}); }
      else if (r.chance(1, 12)) sc.push_back({"c", {0, F_RESOLVE, 0, 0, 0}});
      else if (r.chance(1, 800)) sc.push_back({"c", {0, F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL), 0, 0, 0}});
      else { int f = gen_fn(r); sc.push_back({"c", {0, f >= F_S64 ? (int)F_2 : f, (i64)r.below(nk), (i64)gen_seed(r), (i64)r.below(2)}}); } }
    sc.push_back({"T", {0}}); return; }
  if (r.chance(1, 4)) sc.push_back({"boot", {}});
  int no = 1 + (int)r.below(8); for (int i = 0; i < no; i++) {
    if (r.chance(1, 12)) sc.push_back({"sc", {F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL)}});
    else if (idx % 50 == 7 && i == 0) sc.push_back({"big", {gen_fn(r), (i64)((1ull << (16 + r.below(12))) - 5000 + r.below(10000)), (i64)gen_seed(r), r.chance(1, 2) ? (i64)1 << 40 : (i64)(1 + r.below(1 << 24)), (i64)r.below(64)}});
    else sc.push_back({"h", {gen_fn(r), (i64)r.below(nk), (i64)gen_seed(r), r.chance(1, 2) ? 1 << 30 : (i64)(1 + r.below(r.chance(1, 2) ? 40 : 2000)), r.chance(1, 4) ? (i64)r.below(r.chance(1, 10) ? 4096 : 60) : 0}}); }
}
static PropReg reg("C16", gen, run, 0, "One run = a process to which the operating system refuses all, some at random, or just the n-th of the library's requests (heap, memory maps, files, reads, clocks, random numbers, system values; system-call instructions where the run is single-stepped), and in which environment variables, files, clocks, process ids and fresh memory hold PRNG-chosen values; in it the library is started and called (hashes, streams in pieces, self-checks; keys up to 256 MiB). Every result must be that of the same call in an ordinary process; nothing may be written, kept or changed (errno, signal handling, locale, memory protection, descriptors).");
