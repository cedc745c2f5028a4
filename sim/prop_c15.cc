// C15: every call finishes within a bounded number of its own instructions, whatever the key, the history and the other threads do.
#include "stepworld.h"
#include "streams.h"
static const u64 SELFCHECK = 3000000;
static u64 base_of(Image *im) { return BITS64 && im->variant[0] != 'g' ? 2000 : 4000; }
static u64 per_of(Image *im) { return im->variant[0] == 'g' ? 24 : BITS64 ? 10 : 16; }
static void run(const Scen &sc, Verdict &v) {
  zones_reset(); StepWorld w; if (!w.parse(sc, v)) { v.nontrivial = false; return; }
  w.wf_base = base_of(w.im); w.wf_per = per_of(w.im); w.wf_sc = SELFCHECK;
  w.keys.place_all(-1, 0, true); Image *im = w.im; u64 h = 1; bool far = false; for (auto &l : sc) { if (l.op == "T") h = mix(h ^ (u64)l.arg(0));
    if (l.op == "pre" && im->f[F_INIT]) { // a stream with a past: pieces fed natively before the simulated part
      int t = (int)l.arg(0), cx = (int)l.arg(1) & 3; u64 n = (u64)l.arg(3) & 0xffffffffffull, step = std::max<u64>(1, (u64)l.arg(4)); if (t < 0 || t >= (int)w.task_grp.size() || n / step > 300000) continue;
      u8 *c = step_ctx(t, cx); u8 *p = alias_map(std::min<u64>(step, BITS64 ? 6ull << 30 : 1u << 30)); if (!p) continue; if (!BITS64) step = std::min<u64>(step, 1u << 30); NativeGuard g; static u64 left; left = n;
      u32 lim = n >> 30 ? 20 : 5; bool ok = g.run([&] { watchdog_seconds(lim); ((init_t)im->f[F_INIT])(c, (u64)l.arg(2), 7); while (left) { u64 k = std::min(left, step); ((upd_t)im->f[F_UPDATE])(c, p, (size_t)k); left -= k; } });
      watchdog_seconds(0); alias_unmap();
      if (!ok && g.why.find("watchdog") != std::string::npos) { v.fail("progress", strf("build %s: feeding %llu bytes to t1ha2_update in pieces of %llu has not finished after %u s of CPU time", im->variant.c_str(), (unsigned long long)n, (unsigned long long)step, lim)); return; }
      if (!ok) continue; StreamLog s; s.live = true; s.ctx = c; s.sx = (u64)l.arg(2); s.sy = 7; s.model.init(s.sx, s.sy); w.preset[{t, cx}] = s; S.fault("stream with a long past");
    }
    if (l.op == "big" && (int)l.arg(0) != F_T1HA0 && is_hash((int)l.arg(0)) && fn_usable(im, (int)l.arg(0))) { // too long to be single-stepped: a generous limit of CPU time stands for the bound
      int fn = (int)l.arg(0); u64 n = std::min<u64>((u64)l.arg(1), BITS64 ? 5ull << 30 : 1ull << 28); u32 lim = n >> 30 ? 25 : 5; u8 *p = alias_map(n + 64); if (!p) continue; static u64 hi, r; NativeGuard g; r = 0; S.fault("key or piece of many MiB"); S.calls++;
      bool ok = g.run([&] { watchdog_seconds(lim); r = rawcall(im, fn, p + (l.arg(3) & 63), (size_t)n, (u64)l.arg(2), &hi); }); watchdog_seconds(0); alias_unmap(); v.ev(r);
      if (!ok && g.why.find("watchdog") != std::string::npos) { v.fail("progress", strf("build %s: %s(len %llu, seed %llx) has not returned after %u s of CPU time", im->variant.c_str(), fn_name[fn], (unsigned long long)n, (unsigned long long)l.arg(2), lim)); return; }
      far = true; continue;
    }
    if (l.op == "rep" && is_hash((int)l.arg(0)) && w.keys.m.count((int)l.arg(1)) && fn_usable(im, (int)l.arg(0))) { // a process with a past
      Key &k = w.keys.m[(int)l.arg(1)]; int fn = (int)l.arg(0); u64 n = (u64)l.arg(3) & 0xfffff, hi = 0; NativeGuard g; g.run([&] { for (u64 i = 0; i < n; i++) rawcall(im, fn, k.p, (size_t)k.len, (u64)l.arg(2), &hi); }); S.fault("process with earlier calls", n); }
  }
  w.execute(h);
  if (w.crashflag) {
    bool stuck = w.crash_why.compare(0, 11, "no progress") == 0 || w.crash_why.compare(0, 8, "deadlock") == 0; S.probe(stuck ? "stuck" : "crash (judged by other properties)");
    if (stuck && w.crash_rec >= 0) { CallRec &r = w.recs[w.crash_rec]; Key *k = w.keys.m.count(r.it.key) ? &w.keys.m[r.it.key] : 0; bool self = r.it.fn >= F_SC_ALL && r.it.fn < F_ALL;
      v.fail("progress", strf("build %s: thread %d%s: %s(len %llu, seed %llx): %s (the bound is %s)", im->variant.c_str(), r.task, r.level > 1 ? " (in a handler)" : "", r.it.fn < F_ALL ? fn_name[r.it.fn] : "?", (unsigned long long)(k ? k->len : 0), (unsigned long long)r.it.seed, w.crash_why.c_str(), strf(self ? "3000000" : "%llu + %llu per byte", (unsigned long long)w.wf_base, (unsigned long long)w.wf_per).c_str())); return; }
  }
  for (auto &r : w.recs) if (r.done && r.it.fn < F_SC_ALL) { S.probe("calls within the bound"); v.ev(r.steps); }
    else if (r.done && r.it.fn < F_ALL) { S.probe("self-checks within the bound"); }
  for (auto &r : w.recs) v.note("thread %d level %d: %s(key %d) %s after %llu instructions", r.task, r.level, r.it.fn < F_ALL ? fn_name[r.it.fn] : "?", r.it.key, r.aborted ? "abandoned" : r.done ? "returned" : "unfinished", (unsigned long long)r.steps);
  v.nontrivial = far || w.M.steps > 50;
}
static int gen_fn(Rng &r) { return r.pick({(int)F_T1HA0, (int)F_32LE, (int)F_32BE, (int)F_AES_NOAVX, (int)F_AES_AVX, (int)F_AES_AVX2, (int)F_1LE, (int)F_1BE, (int)F_2, (int)F_2_128, (int)F_2, (int)F_1LE, (int)F_T1HA0}); }
static void gen(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"v", {pick_variant(r)}}); if (idx % 100 == 11) {
    static const int all[] = {F_2, F_1LE, F_1BE, F_32LE, F_32BE, F_AES_NOAVX, F_AES_AVX, F_AES_AVX2, F_2_128, F_S64, F_S128, F_S64};
    bool huge = BITS64 && idx % 1000 == 11; int n = huge ? 3 : 1; // beyond 2 and 4 GiB the functions take turns
    for (int j = 0; j < n; j++) { u64 len = huge ? r.chance(1, 4) ? (1ull << 31) - 50000 + r.below(100000) : (1ull << 32) - 40 + r.below(100000) : (1ull << (20 + r.below(9))) - 50000 + r.below(100000); sc.push_back({"big", {all[huge ? (idx / 1000 * 3 + j) % 11 : r.below(12)], (i64)len, (i64)gen_seed(r), (i64)r.below(64)}}); }
    sc.push_back({"T", {0}}); return; }
  bool big = idx % 60 == 7; bool crowd = !big && r.chance(1, 2); int nk = big ? 1 : 1 + (int)r.below(3);
  for (int i = 0; i < nk; i++) { i64 s; u64 len = big ? (r.chance(1, 12) ? 20000 + r.below(60000) : 700 + r.below(9000)) : gen_len(r, r.chance(1, 6) ? 2000 : 260); int k = gen_fill(r, s); sc.push_back({"k", {i, (i64)len, k, s}}); while (len >= 8 && r.chance(1, 4)) sc.push_back({"kp", {i, (i64)r.below(len - 7), (i64)gen_val(r)}}); sc.push_back({"at", {i, i, (i64)gen_off(r, len)}}); }
  int nt = crowd ? 2 + (int)r.below(3) : 1, ns = crowd && r.chance(1, 2) ? 1 : 0, focus = r.chance(1, 2) ? r.chance(1, 4) ? -2 : gen_fn(r) : -1;
  for (int g = 0; g < nt + ns; g++) { int id = g < nt ? g : 10; int nc = big ? 1 + (int)r.below(2) : crowd ? 1 + (int)r.below(3) : 2 + (int)r.below(8);
    for (int c = 0; c < nc; c++) {
      if (focus == -2 || r.chance(1, 4)) { int cx = (int)r.below(3); if (!r.chance(1, 3)) sc.push_back({"c", {id, F_INIT, 0, (i64)gen_seed(r), cx}}); int nu = (int)r.below(5); for (int u = 0; u < nu; u++) sc.push_back({"c", {id, F_UPDATE, (i64)r.below(nk), 0, cx}}); sc.push_back({"c", {id, F_FINAL, 0, (i64)r.below(2), cx}}); }
      else if (r.chance(1, 12)) sc.push_back({"c", {id, F_RESOLVE, 0, 0, 0}});
      else if (r.chance(1, idx % 4 ? 4000 : 60)) sc.push_back({"c", {id, r.chance(1, 3) ? (i64)F_RESOLVE : F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL), 0, 0, 0}});
      else sc.push_back({"c", {id, focus >= 0 && r.chance(4, 5) ? focus : gen_fn(r), (i64)r.below(nk), (i64)gen_seed(r), (i64)r.below(2)}});
    } }
  for (int t = 0; t < nt; t++) { sc.push_back({"T", {t}});
    if (r.chance(1, 3)) { u64 n, st; switch (r.below(idx % 50 == 3 ? 4 : 3)) { case 0: st = 1 + r.below(70); n = st * r.below(400); break; case 1: st = 1 + r.below(5000); n = st * r.below(300); break; case 2: n = r.below(300); st = n + 1; break;
      default: n = r.chance(1, 8) ? (1ull << 32) - 100 + r.below(200) : (r.chance(1, 2) ? 1u << (16 + r.below(12)) : 1) + r.below(5000); st = n / (1 + r.below(9)) + 1; } sc.push_back({"pre", {t, (i64)r.below(3), (i64)gen_seed(r), (i64)n, (i64)st}}); } }
  if (r.chance(1, 5)) sc.push_back({"rep", {gen_fn(r), 0, (i64)gen_seed(r), (i64)r.below(r.chance(1, 20) ? 70000 : 2000)}});
  if (crowd) { if (ns) sc.push_back({"sgrp", {10}}); i64 kind = r.pick<i64>({1, 1, 9, 9, 8, 13}) | (ns ? 2 : 0); sc.push_back({"pol", {kind, r.pick<i64>({4, 32, 200, 1000, 4000, 1000000}), r.pick<i64>({1, 1, 2, 3, 6, 30, 300}), (i64)(r.next() >> 2), r.pick<i64>({2, 2, 8, 30})}}); }
}
static PropReg reg("C15", gen, run, 0, "One run = calls of one to four simulated threads, single-stepped; keys of structured and hostile contents up to 80 KB, streams with a past of up to 4 GiB or of hundreds of pieces, processes with earlier calls; other threads are preempted, interrupted, or stopped for good at PRNG-chosen instructions (attracted to writes of library statics). Every call must return within 4000 + 24 per key byte of its own instructions (optimised 64-bit builds: 2000 + 10; optimised 32-bit builds: 4000 + 16; self-checks: 3,000,000).");
