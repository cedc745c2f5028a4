// C03: concurrent and earlier calls never influence a result.   C04: interrupted, re-entered and abandoned calls.
#include "stepworld.h"
static void run_step(const Scen &sc, Verdict &v) {
  zones_reset(); StepWorld w; if (!w.parse(sc, v)) { v.nontrivial = false; return; }
  w.keys.place_all(-1, 0, true); u64 h = 1; for (auto &l : sc) if (l.op == "T") h = mix(h ^ (u64)l.arg(0));
  w.execute(h); judge(w, v);
  for (auto &r : w.recs) v.note("thread %d level %d: %s(key %d, len %llu, seed %llx) %s -> %016llx %016llx", r.task, r.level, r.it.fn < F_ALL ? fn_name[r.it.fn] : "?", r.it.key, (unsigned long long)(w.keys.m.count(r.it.key) ? w.keys.m[r.it.key].len : 0), (unsigned long long)r.it.seed, r.aborted ? "abandoned" : r.done ? "returned" : "unfinished", (unsigned long long)r.hi, (unsigned long long)r.ret);
  v.nontrivial = w.M.steps > 50; if (w.writes) S.probe("runs that wrote library statics");
}
static void run_history(const Scen &sc, Verdict &v) {
  Image *im = 0; Keys ks; zones_reset(); bool placed = false; int ops = 0;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (ks.take(l)) continue; if (!im) continue;
    if (!placed) { ks.place_all(-1, 0, false); placed = true; }
    if (l.op == "hk") { auto it = ks.m.find((int)l.arg(0)); if (it == ks.m.end()) continue; Key &k = it->second; if (k.len) { fill(k.b.data(), k.len, (int)l.arg(1), l.arg(2)); memcpy(k.p, k.b.data(), k.len); } S.fault("key rewritten in place between calls"); continue; }
    if (l.op == "hp") { auto it = ks.m.find((int)l.arg(0)); if (it == ks.m.end()) continue; Key &k = it->second; if (k.len) for (size_t q = 1; q + 1 < l.a.size(); q += 2) { u64 o = (u64)l.a[q] % k.len; k.b[o] ^= (u8)l.a[q + 1]; k.p[o] ^= (u8)l.a[q + 1]; } S.fault("few bytes of a key changed in place between calls"); continue; }
    if (l.op == "hl") { auto it = ks.m.find((int)l.arg(0)); if (it != ks.m.end()) { Key &k = it->second; k.len = std::min<u64>(k.b.size(), (u64)l.arg(1) & 0xffff); } continue; }
    if (l.op == "th") { g_tls_task = (int)(l.arg(0) & 7); continue; }
    if (l.op == "hm") { // the same call over and over, natively
      int fn = (int)l.arg(0); auto it = ks.m.find((int)l.arg(1)); u64 seed = (u64)l.arg(2), n = (u64)l.arg(3) & 0x3ffffff; if (it == ks.m.end() || !is_hash(fn) || !fn_usable(im, fn)) continue; Key &k = it->second; ops++;
      static u64 r0, h0, r1, h1, done; done = r0 = h0 = 0; std::string why; bool ok; { NativeGuard g; ok = g.run([&] { u64 h = 0, r; r0 = rawcall(im, fn, k.p, (size_t)k.len, seed, &h); h0 = h; for (; done < n; done++) { h = 0; r = rawcall(im, fn, k.p, (size_t)k.len, seed, &h); if (r != r0 || h != h0) { r1 = r; h1 = h; break; } } }); why = g.why; }
      S.fault("long repetition", done); S.probe("hash result compared", done); S.calls += done; v.ev(r0 ^ fn);
      if (!ok || done < n) { Item q; q.fn = fn; q.seed = seed; Res s = solo_call(im, q, k); if (ok || s.ok) { v.fail(ok ? "result" : "crash", strf("build %s: %s(len %llu, seed %llx), called over and over, returned %016llx%016llx and then, after %llu calls, %016llx%016llx%s", im->variant.c_str(), fn_name[fn], (unsigned long long)k.len, (unsigned long long)seed, (unsigned long long)h0, (unsigned long long)r0, (unsigned long long)done + 1, (unsigned long long)h1, (unsigned long long)r1, why.c_str())); return; } return; }
      continue; }
    if (l.op != "h") continue;
    int fn = (int)l.arg(0); u64 seed = (u64)l.arg(2), n = std::max<u64>(1, (u64)l.arg(3) % 300000); ops++;
    if (fn >= F_SC_ALL && fn < F_ALL) { if (!im->f[fn] || ((fn == F_SC_NOAVX || fn == F_SC_AVX || fn == F_SC_AVX2) && !g_host.avx2)) continue; std::string why; int r = nselfcheck(im, fn, &why); S.fault("earlier self-check");
      if (r != 0) { im->reset_ready(); sim_sync_reset(); int s = nselfcheck(im, fn, 0); if (s != r) { v.fail("verdict", strf("build %s: %s returned %d after earlier calls, %d in a fresh process", im->variant.c_str(), fn_name[fn], r, s)); return; } } v.ev(fn); continue; }
    auto it = ks.m.find((int)l.arg(1)); if (it == ks.m.end() || !is_hash(fn) || !fn_usable(im, fn)) continue; Key &k = it->second; u64 mh = 0, m = model_fn(fn == F_T1HA0 ? best_t1ha0(im) : fn, k.b.data(), k.len, seed, &mh);
    bool twice = false;
    for (u64 i = 0; i < n; i++) { Res r = ncall(im, fn, k.p, (size_t)k.len, seed);
      if (!r.ok || r.r != m || r.hi != mh) { if (twice) break; twice = true; std::vector<std::vector<u8>> sv; im->snapshot(sv); Item q; q.fn = fn; q.seed = seed; Res s = solo_call(im, q, k);
        if (!(s == r) && s.ok) { v.fail(r.ok ? "result" : "crash", strf("build %s: %s(len %llu, seed %llx) after %d earlier operations (repetition %llu) returned %016llx%016llx%s, in a fresh process it returns %016llx%016llx", im->variant.c_str(), fn_name[fn], (unsigned long long)k.len, (unsigned long long)seed, ops - 1, (unsigned long long)i, (unsigned long long)r.hi, (unsigned long long)r.r, r.why.c_str(), (unsigned long long)s.hi, (unsigned long long)s.r)); return; }
        im->restore(sv); } }
    if (n > 1) S.fault("long repetition", n); S.fault("earlier call"); S.probe("hash result compared", n); v.ev(m ^ fn);
  }
  v.nontrivial = ops > 2;
}
static bool is_hist(const Scen &sc) { for (auto &l : sc) if (l.op == "h" || l.op == "hm") return true; return false; }
static void run(const Scen &sc, Verdict &v) { if (is_hist(sc)) run_history(sc, v); else run_step(sc, v); }

static int gen_fn(Rng &r) { return r.pick({(int)F_T1HA0, (int)F_32LE, (int)F_32BE, (int)F_AES_NOAVX, (int)F_AES_AVX, (int)F_AES_AVX2, (int)F_1LE, (int)F_1BE, (int)F_2, (int)F_2_128, (int)F_2, (int)F_1LE, (int)F_T1HA0}); }
static void gen_keys(Rng &r, Scen &sc, int n, u64 max) {
  for (int i = 0; i < n; i++) { i64 s; u64 len = gen_len(r, max); int k = gen_fill(r, s); sc.push_back({"k", {i, (i64)len, k, s}}); while (len >= 8 && r.chance(1, 5)) sc.push_back({"kp", {i, (i64)r.below(len - 7), (i64)gen_val(r)}}); sc.push_back({"at", {i, i, (i64)gen_off(r, len)}}); }
}
static void gen_prog(Rng &r, Scen &sc, int grp, int nkeys, int ncalls, bool sc_ok, int focus = -1) { // focus: mostly that function (or -2: streams)
  auto gen_fn = [&](Rng &q) { return focus >= 0 && q.chance(4, 5) ? focus : ::gen_fn(q); };
  for (int c = 0; c < ncalls; c++) {
    if (focus == -2 ? r.chance(5, 6) : focus >= 0 ? r.chance(1, 10) : r.chance(1, 4)) { int cx = (int)r.below(3); sc.push_back({"c", {grp, F_INIT, 0, (i64)gen_seed(r), cx}}); int nu = (int)r.below(4); for (int u = 0; u < nu; u++) { sc.push_back({"c", {grp, F_UPDATE, (i64)r.below(nkeys), 0, cx}}); if (r.chance(1, 4)) sc.push_back({"c", {grp, gen_fn(r), (i64)r.below(nkeys), (i64)gen_seed(r), (i64)r.below(2)}}); } sc.push_back({"c", {grp, F_FINAL, 0, (i64)r.below(2), cx}}); }
    else if (sc_ok && r.chance(1, 40)) sc.push_back({"c", {grp, F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL), 0, 0, 0}});
    else sc.push_back({"c", {grp, gen_fn(r), (i64)r.below(nkeys), (i64)gen_seed(r), (i64)r.below(2)}});
  }
}
static void gen3(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"v", {pick_variant(r)}});
  if (idx % 600 == 77) { gen_keys(r, sc, 1, 90); i64 n = r.chance(1, 6) ? 1 << 24 : 1 << (19 + r.below(4)); for (int f = 0; f < F_COUNT; f++) if (n < (1 << 24) || r.chance(1, 8)) sc.push_back({"hm", {f, 0, (i64)gen_seed(r), n + (i64)r.below(1000)}}); return; }
  if (idx % 3 == 2) { // history
    int nk = 1 + (int)r.below(4); bool big = r.chance(1, 3); gen_keys(r, sc, nk, big ? 9000 : 600); if (big && r.chance(1, 2)) sc.push_back({"k", {0, (i64)(1000 + r.below(8000)), 3, (i64)r.below(1000)}}); int n = 5 + (int)r.below(r.chance(1, 6) ? 200 : 30); u64 s = gen_seed(r); int fixed = r.chance(1, 2) ? gen_fn(r) : -1;
    for (int i = 0; i < n; i++) { unsigned q = r.below(20); if (r.chance(1, 3)) s = gen_seed(r);
      if (q == 0) sc.push_back({"h", {F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL), 0, 0, 1}});
      else if (q < 4) { i64 fs; int fk = gen_fill(r, fs); sc.push_back({"hk", {(i64)r.below(nk), fk, fs}}); }
      else if (q == 4) sc.push_back({"hl", {(i64)r.below(nk), (i64)gen_len(r, 600)}});
      else if (q < 8 && sc.back().op == "h") { Line again = sc.back(); Line p{"hp", {again.arg(1)}}; int np = 1 + (int)r.below(3); while (np--) { p.a.push_back((i64)r.below(10000)); p.a.push_back((i64)(1 + r.below(255))); } sc.push_back(p); sc.push_back(again); } // the same call once more, after a small change
      else if (q == 8) sc.push_back({"th", {(i64)r.below(3)}});
      else sc.push_back({"h", {fixed >= 0 && r.chance(2, 3) ? fixed : r.chance(1, 4) ? (r.chance(1, 2) ? (int)F_S64 : (int)F_S128) : gen_fn(r), (i64)r.below(nk), (i64)s, r.chance(1, 60) ? (i64)r.below(r.chance(1, 4) ? 140000 : 3000) : 1}}); }
    return;
  }
  int nk = 1 + (int)r.below(3); int nt = 2 + (int)r.below(3); bool big = r.chance(1, 24); int focus = r.chance(1, 3) ? r.chance(1, 3) ? -2 : gen_fn(r) : -1; if (big) nk = 1, nt = 2;
  gen_keys(r, sc, nk, r.chance(1, 8) ? 1500 : 260); if (big) sc.push_back({"k", {0, (i64)(1000 + r.below(7000)), 3, (i64)r.below(1000)}});
  bool same = r.chance(1, 3); int ng = same ? 1 + (int)r.below(2) : nt; bool scok = idx % 7 == 0;
  for (int g = 0; g < ng; g++) gen_prog(r, sc, g, nk, 1 + (int)r.below(big ? 1 : 3), scok, focus);
  for (int t = 0; t < nt; t++) sc.push_back({"T", {t % ng}});
  sc.push_back({"pol", {1, r.pick<i64>({4, 32, 200, 1000, 4000, 1000000}), r.pick<i64>({1, 1, 2, 3, 6, 30, 300}), (i64)(r.next() >> 2), r.pick<i64>({2, 2, 8, 30})}});
}
static void gen4(Rng &r, u64 idx, Scen &sc) {
  (void)idx; sc.push_back({"v", {pick_variant(r)}}); int nk = 1 + (int)r.below(3); bool big = r.chance(1, 24); if (big) nk = 1; int focus = r.chance(1, 2) ? r.chance(1, 4) ? -2 : gen_fn(r) : -1;
  gen_keys(r, sc, nk, r.chance(1, 8) ? 1500 : 260); if (big) sc.push_back({"k", {0, (i64)(1000 + r.below(7000)), 3, (i64)r.below(1000)}}); int nt = !big && r.chance(1, 3) ? 2 : 1; int ns = 1 + (int)r.below(2);
  for (int t = 0; t < nt; t++) gen_prog(r, sc, t, nk, big ? 1 + (int)r.below(2) : 2 + (int)r.below(3), false, focus);
  for (int g = 0; g < ns; g++) { gen_prog(r, sc, 10 + g, nk, 1 + (int)r.below(2), false, focus); sc.push_back({"sgrp", {10 + g}}); }
  for (int t = 0; t < nt; t++) sc.push_back({"T", {t}});
  i64 kind = r.pick<i64>({2, 2, 2, 4, 6, 6, 4}); if (nt > 1) kind |= r.pick<i64>({1, 8, 9, 0});
  sc.push_back({"pol", {kind, r.pick<i64>({4, 32, 200, 1000, 4000, 1000000}), r.pick<i64>({1, 1, 2, 3, 6, 20}), (i64)(r.next() >> 2), r.pick<i64>({2, 2, 8, 30})}});
}
static PropReg reg3("C03", gen3, run, 0, "Two thirds of the runs: 2-4 simulated threads executing library calls one machine instruction at a time under a PRNG-driven schedule (random, rare or single preemptions, attracted to writes of library statics), every result compared with the reference model and, if different, with the same call alone in a fresh image. One third: long native call histories (keys rewritten in place, repetitions, self-checks, thread changes). Non-trivial: more than 50 instructions or more than 2 operations executed; distinct: different hash of the event log (schedule and results).");
static PropReg reg4("C04", gen4, run, 0, "One run = 1-2 simulated threads executing library calls one machine instruction at a time; signals (nested up to two deep, handlers calling the library), abandonments (non-local exits) and thread kills arrive at PRNG-chosen instructions (attracted to writes of library statics). Every finished call and stream is compared with the reference model and, if different, with the same call alone. Non-trivial: more than 50 instructions executed; distinct: different hash of the event log.");
