// C07: t1ha0 on every CPU.   C08: t1ha0 at any moment of start-up, and for the whole life of the process.
#include "simcpu.h"
static bool is_sc(int fn) { return fn >= F_SC_ALL && fn < F_ALL; }
static bool vex(const u8 *p) { return (BITS64 || (p[1] & 0xc0) == 0xc0) && (*p == 0xc4 || *p == 0xc5); }
struct BootWorld : StepWorld {
  std::map<int, bool> rec_vex; // record -> executed a VEX-encoded instruction
  Act on_step(Task &t, uptr ip) override {
    if (!stk[t.id].empty() && stk[t.id].back().cur >= 0 && im->in_text(ip) && vex((u8 *)ip)) rec_vex[stk[t.id].back().cur] = true;
    return StepWorld::on_step(t, ip);
  }
  std::map<int, int> rec_stub; // record -> stand-in that answered it
  void call_done(Task &t, u64 ret) override { if (g_stub_last >= 0) rec_stub[stk[t.id].back().cur] = g_stub_last; g_stub_last = -1; StepWorld::call_done(t, ret); }
};
static void push_boot(Rng &r, Scen &sc, const Image *im, int grp) { // relocation in any order of indirect functions
  std::vector<int> o; for (size_t i = 0; i < im->irel.size(); i++) o.push_back((int)i);
  for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
  bool bind_first = r.chance(1, 2); if (bind_first) sc.push_back({"c", {grp, C_BIND, 0, 0, 0}});
  for (int i : o) sc.push_back({"c", {grp, C_IREL, i, 0, 0}});
  if (!bind_first) sc.push_back({"c", {grp, C_BIND, 0, 0, 0}});
}
static void init_raw() {}
static void trace(StepWorld &w, Verdict &v) {
  for (auto &r : w.recs) v.note("thread %d level %d: %s(key %d, seed %llx, route %d) %s -> %016llx", r.task, r.level, r.it.fn < F_ALL ? fn_name[r.it.fn] : r.it.fn == C_IREL ? "loader: resolve indirect function" : r.it.fn == C_BIND ? "loader: bind t1ha0" : r.it.fn == C_CTOR ? "loader: library constructor" : "loader", r.it.key, (unsigned long long)r.it.seed, r.it.ctx, r.aborted ? "abandoned" : r.done ? "returned" : "unfinished", (unsigned long long)r.ret);
}
static bool boot(const Scen &sc, BootWorld &w, Verdict &v, Stubs &st) {
  zones_reset(); if (!w.parse(sc, v)) return false;
  u64 mask = 0, h = 7; for (auto &l : sc) { cpu_line(l, w.cpu); if (l.op == "stub") mask = (u64)l.arg(0); if (l.op == "T") h = mix(h + 1); }
  { // relocation always happens, completely, before anything else of the program runs
    auto &pg = w.prog[w.task_grp[0]]; std::vector<Item> rel, rest; std::set<int> seen; bool bind = false;
    for (auto &it : pg) if (it.fn == C_IREL) { if (seen.insert(it.key).second) rel.push_back(it); } else if (it.fn == C_BIND) { if (!bind) rel.push_back(it); bind = true; } else if (it.fn != C_RAWREADY) rest.push_back(it);
    for (int i = 0; i < (int)w.im->irel.size(); i++) if (!seen.count(i)) { Item it; it.fn = C_IREL; it.key = i; rel.push_back(it); }
    Item b; b.fn = C_BIND; if (!bind) rel.push_back(b); b.fn = C_RAWREADY; rel.push_back(b); rel.insert(rel.end(), rest.begin(), rest.end()); pg = rel; }
  if (!w.cpu.on) cpu_line(Line("cpu", {0xd, 0x7ffafbbf, 0x078bfbff, 0x37ab, 0, 0, 7, 1}), w.cpu);
  w.im->reset_raw(); w.im->ifunc_t1ha0 = 0; w.loader_mode = true; w.watch = false; w.keys.place_all(-1, 0, true);
  if (mask) { st.install(w.im, mask); g_malf.clear(); g_stub_last = -1; g_stub_cpu = &w.cpu; S.probe("runs with stand-in hash functions"); }
  w.execute(h); trace(w, v); return true;
}
static void cpu_stats(const SimCpu &c) {
  S.fault("CPU simulated"); if (c.avx2_bit() && !c.ymm()) S.fault("CPU: AVX2 reported but AVX unusable"); if (c.avx_bit() && !c.osxsave()) S.fault("CPU: AVX without OSXSAVE"); if (c.osxsave() && c.avx_bit() && (c.xcr0 & 6) != 6) S.fault("CPU: YMM state not enabled");
  if (!c.aes() && c.ymm()) S.fault("CPU: AVX without AES-NI"); if (c.max_leaf < 7) S.fault("CPU: low maximum leaf"); if (!c.has_cpuid) S.fault("CPU without CPUID"); if (c.aes()) S.probe("CPU with AES-NI");
}
static std::string cpu_text(const SimCpu &c) { return strf("CPU(leaf %u, AES %d, OSXSAVE %d, AVX %d, AVX2 %d, XCR0 %llx)", c.max_leaf, c.aes(), c.osxsave(), c.avx_bit(), c.avx2_bit(), (unsigned long long)c.xcr0); }
static void run7(const Scen &sc, Verdict &v) {
  BootWorld w; Stubs st; w.reloc_done = true; if (!boot(sc, w, v, st)) { v.nontrivial = false; return; }
  Image *im = w.im; cpu_stats(w.cpu); std::string bad = g_stub_bad; st.remove();
  if (w.crashflag) {
    int fn = w.crash_rec >= 0 ? w.recs[w.crash_rec].it.fn : -1; const char *nm = fn < 0 ? "?" : fn < F_ALL ? fn_name[fn] : "start-up code";
    if (w.crash_why.find("this machine") != std::string::npos || w.crash_why.find("illegal") != std::string::npos) v.fail("illegal", strf("build %s, %s: %s: %s", im->variant.c_str(), cpu_text(w.cpu).c_str(), nm, w.crash_why.c_str()));
    else v.fail("crash", strf("build %s, %s: %s: %s", im->variant.c_str(), cpu_text(w.cpu).c_str(), nm, w.crash_why.c_str()));
    return;
  }
  if (!bad.empty()) { v.fail("illegal", strf("build %s, %s: %s", im->variant.c_str(), cpu_text(w.cpu).c_str(), bad.c_str())); return; }
  int best = best_on(im, w.cpu); S.probe(strf("best implementation: %s", fn_name[best]).c_str());
  for (size_t i = 0; i < w.recs.size(); i++) { auto &r = w.recs[i]; if (!r.done || r.it.fn != F_T1HA0) continue;
    Key &k = w.keys.m[r.it.key]; int got = -1; if (w.rec_stub.count((int)i)) { got = w.rec_stub[(int)i]; S.probe("selection checked"); goto decided; }
    { int cand[] = {F_AES_AVX2, F_AES_AVX, F_1LE, F_32LE, F_1BE, F_32BE, F_2}; int n = 0;
    for (int f : cand) if (model_fn(f, k.b.data(), k.len, r.it.seed, 0) == r.ret) { got = f; n++; }
    if (n != 1) { S.probe(n ? "implementations not told apart by this key" : "unknown result (not this property)"); continue; }
    if (got == F_AES_AVX && !w.rec_vex[(int)i]) got = F_AES_NOAVX;
    S.probe("selection checked"); }
  decided:
    if (got != best) { v.fail("selection", strf("build %s, %s: t1ha0%s runs %s instead of %s", im->variant.c_str(), cpu_text(w.cpu).c_str(), r.it.ctx == 1 ? "_resolve()'s result" : "", fn_name[got], fn_name[best])); return; } }
  v.ev(best); v.nontrivial = w.M.steps > 20;
}
static void gen7(Rng &r, u64 idx, Scen &sc) {
  int var = pick_variant(r); Image *im = need_img(var); sc.push_back({"v", {var}}); sc.push_back(gen_cpu(r, false));
  bool full = idx % 600 == 7, real = full || idx % 6 == 1; if (!real) sc.push_back({"stub", {(1 << F_COUNT) - 1 - (i64)(r.chance(1, 8) ? 1u << r.below(F_COUNT) : 0)}}); // sometimes one function stays real
  i64 klen = !real || r.chance(1, 3) ? (i64)(160 + r.below(120)) : (i64)gen_len(r, 2000); sc.push_back({"k", {0, klen, 3, (i64)(r.next() >> 2)}}); sc.push_back({"at", {0, 0, (i64)(PG + r.below(64))}});
  push_boot(r, sc, im, 0); for (size_t i = 0; i < im->inits.size(); i++) sc.push_back({"c", {0, C_CTOR, (i64)i, 0, 0}});
  int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) sc.push_back({"c", {0, F_T1HA0, 0, (i64)r.next(), (i64)r.below(4)}});
  if (full || (!real && r.chance(1, 12))) sc.push_back({"c", {0, r.chance(1, 2) ? F_SC_0 : F_SC_ALL, 0, 0, 0}});
  if (r.chance(1, 4)) sc.push_back({"c", {0, F_T1HA0, 0, (i64)r.next(), (i64)r.below(4)}});
  sc.push_back({"T", {0}});
}
static PropReg reg7("C07", gen7, run7, init_raw, "One run = a process start on a PRNG-chosen CPU (real families, and any combination of CPUID, OSXSAVE, XCR0, maximum leaf, stale out-of-range leaves), executed one instruction at a time with every instruction checked against that CPU: indirect-function resolution, constructors, t1ha0 through every route, the t1ha0 and aggregate self-checks (mostly with the hash functions replaced by feature-checking stand-ins, every 600th run with the real ones; every 6th run hashes keys of any length with the real functions). Non-trivial: more than 20 instructions; distinct: different hash of the event log.");

/* ---------------- C08 ---------------- */
static u64 native(Image *im, int f, const Key &k, u64 seed, bool &ok) { Res r = ncall(im, f, k.p, (size_t)k.len, seed); ok = r.ok; return r.r; }
static void run8_long(const Scen &sc, Verdict &v) { // a long-lived process on the real CPU
  Image *im = 0; Keys ks; zones_reset(); bool up = false; static u64 first, got, done; u64 total = 0; const Key *k0 = 0; static u64 seed; std::string why;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (ks.take(l) || !im || ks.m.empty()) continue;
    if (!up) { up = true; if (!im->selects() && !im->client_t1ha0) return; if (!image_init_native(im)) { S.probe("start-up crashed (not this scenario)"); im->reset_raw(); return; } ks.place_all(-1, 0, false); k0 = &ks.m.begin()->second; seed = 12345; NativeGuard g; if (!g.run([&] { first = ((u64(*)(const void *, size_t, u64))im->t1ha0_addr())(k0->p, (size_t)k0->len, seed); })) { im->reset_raw(); return; } }
    u64 n = (u64)l.arg(0) & 0x3ffffff; bool res = l.op == "lr"; if (l.op != "lc" && l.op != "lr" && l.op != "lx") continue; bool ok; done = 0; typedef u64 (*hash_t)(const void *, size_t, u64);
    if (res && (!im->f[F_RESOLVE] || !im->selects())) continue;
    if (l.op == "lx") { NativeGuard g; int f = (int)((u64)l.arg(1) % F_COUNT); if (f && fn_usable(im, f)) g.run([&] { u64 h; for (u64 i = 0; i < n; i++) rawcall(im, f, k0->p, (size_t)k0->len, i, &h); }); S.calls += n; continue; }
    NativeGuard g; ok = g.run([&] { for (; done < n; done++) { hash_t f = res ? ((hash_t(*)())im->f[F_RESOLVE])() : (hash_t)im->t1ha0_addr(); got = f(k0->p, (size_t)k0->len, seed); if (got != first) break; } }); why = g.why; total += done; S.calls += done; S.probe("t1ha0 result compared", done); S.fault(res ? "resolved again" : "t1ha0 called again", done);
    if (!ok || done < n) { v.fail(ok ? "changed" : "crash", strf("build %s: t1ha0%s(len %llu) gave %016llx at first and %016llx after %llu more calls%s", im->variant.c_str(), res ? "_resolve()'s result" : "", (unsigned long long)k0->len, (unsigned long long)first, (unsigned long long)got, (unsigned long long)total, why.c_str())); im->reset_raw(); return; }
    v.ev(first ^ n); }
  if (im) im->reset_raw();
  v.nontrivial = total > 0;
}
static void run8(const Scen &sc, Verdict &v) {
  for (auto &l : sc) if (l.op == "lc" || l.op == "lr") { run8_long(sc, v); return; }
  BootWorld w; Stubs st; w.reloc_done = false; if (!boot(sc, w, v, st)) { v.nontrivial = false; return; }
  Image *im = w.im;
  if (w.crashflag) {
    if (w.crash_why.find("this machine") != std::string::npos) { S.probe("illegal instruction on this machine (not this property)"); return; }
    int fn = w.crash_rec >= 0 ? w.recs[w.crash_rec].it.fn : -1; v.fail("crash", strf("build %s: %s during start-up: %s", im->variant.c_str(), fn < 0 ? "?" : fn < F_ALL ? fn_name[fn] : "library start-up code", w.crash_why.c_str())); return;
  }
  const int cand[] = {F_1LE, F_32LE, F_AES_AVX, F_AES_AVX2, F_1BE, F_32BE, F_2}; unsigned inter = ~0u; int n = 0; const CallRec *first = 0;
  for (auto &r : w.recs) { if (!r.done || r.it.fn != F_T1HA0) continue;
    Key &k = w.keys.m[r.it.key]; unsigned m = 0; for (int i = 0; i < 7; i++) if (model_fn(cand[i], k.b.data(), k.len, r.it.seed, 0) == r.ret) m |= 1u << i;
    if (!m) { for (int i = 0; i < 7; i++) if (fn_usable(im, cand[i])) { bool ok; im->reset_raw(); u64 x = native(im, cand[i], k, r.it.seed, ok); if (ok && x == r.ret) m |= 1u << i; } S.probe("result differs from the published one"); }
    S.probe("t1ha0 result compared"); n++;
    if (!m) { v.fail("result", strf("build %s: t1ha0(len %llu, seed %llx) returned %016llx, which no implementation returns", im->variant.c_str(), (unsigned long long)k.len, (unsigned long long)r.it.seed, (unsigned long long)r.ret)); return; }
    if (!(inter & m)) { v.fail("changed", strf("build %s: t1ha0 changed during the life of the process: (len %llu, seed %llx) gave %016llx, from another implementation than an earlier call (len %llu)", im->variant.c_str(), (unsigned long long)k.len, (unsigned long long)r.it.seed, (unsigned long long)r.ret, (unsigned long long)(first ? w.keys.m[first->it.key].len : 0))); return; }
    inter &= m; first = &r; }
  for (auto &r : w.recs) if (!r.done && r.it.fn == F_T1HA0 && !r.aborted) S.probe("unfinished call");
  v.nontrivial = n > 0 && w.M.steps > 20;
}
static void gen8(Rng &r, u64 idx, Scen &sc) {
  if (idx % 400 == 111) { sc.push_back({"v", {pick_variant(r)}}); i64 s; u64 len = r.chance(1, 2) ? 129 + r.below(200) : gen_len(r, 400); int k = gen_fill(r, s); sc.push_back({"k", {0, (i64)len, k, s}}); sc.push_back({"at", {0, 0, (i64)gen_off(r, len)}}); int n = 2 + (int)r.below(5); sc.push_back({"lc", {1}});
    while (n--) { i64 c = (i64)r.below(1ull << (4 + r.below(n ? 15 : 19))); switch (r.below(4)) { case 0: sc.push_back({"lr", {std::min<i64>(c, 20000)}}); break; case 1: sc.push_back({"lx", {std::min<i64>(c, 20000), (i64)r.below(F_COUNT)}}); break; default: sc.push_back({"lc", {c}}); } } sc.push_back({"lc", {r.chance(1, 8) ? 1 << 23 : 1 << 20}}); return; }
  int var = pick_variant(r); Image *im = need_img(var); sc.push_back({"v", {var}}); sc.push_back(gen_cpu(r, r.chance(1, 2)));
  int nk = 1 + (int)r.below(3); for (int i = 0; i < nk; i++) { u64 len = r.chance(1, 2) ? 129 + r.below(200) : gen_len(r, 400); i64 s; int k = gen_fill(r, s); sc.push_back({"k", {i, (i64)len, k, s}}); sc.push_back({"at", {i, i, (i64)gen_off(r, len)}}); }
  i64 seed = (i64)gen_seed(r); auto seedv = [&] { if (r.chance(1, 3)) seed = (i64)gen_seed(r); return seed; };
  auto user = [&](int grp) { int n = 1 + (int)r.below(2); for (int i = 0; i < n; i++) { if (r.chance(1, 12)) sc.push_back({"c", {grp, F_RESOLVE, 0, 0, 0}}); else sc.push_back({"c", {grp, F_T1HA0, (i64)r.below(nk), seedv(), (i64)r.below(4)}}); } };
  push_boot(r, sc, im, 0); sc.push_back({"c", {0, C_RAWREADY, 0, 0, 0}}); // relocated: from here on anybody may call
  std::vector<int> ct; for (size_t i = 0; i < im->inits.size(); i++) ct.push_back((int)i); for (size_t i = ct.size(); i > 1; i--) std::swap(ct[i - 1], ct[r.below(i)]);
  if (r.chance(2, 3)) user(0); // other constructors
  for (int i : ct) { sc.push_back({"c", {0, C_CTOR, i, 0, 0}}); if (r.chance(1, 2)) user(0); }
  if (r.chance(1, 2)) user(0);
  sc.push_back({"T", {0}}); int nt = (int)r.below(4); i64 kind = 1;
  for (int t = 1; t <= nt; t++) { user(t); user(t); sc.push_back({"T", {t}}); }
  if (r.chance(1, 3)) { user(20); sc.push_back({"sgrp", {20}}); kind |= 2; }
  if (r.chance(1, 8)) kind |= 4; if (nt > 1 && r.chance(1, 8)) kind |= 8;
  sc.push_back({"pol", {kind, r.pick<i64>({1, 2, 4, 8, 32, 100}), r.pick<i64>({1, 1, 2, 3, 6, 30, 300}), (i64)(r.next() >> 2)}});
}
static PropReg reg8("C08", gen8, run8, init_raw, "One run = a process start on a simulated CPU: relocation with indirect functions resolved in PRNG order, library constructors interleaved with other constructors that call t1ha0 through PRNG-chosen routes (directly, through t1ha0_resolve, through an address taken earlier), up to three further threads calling it from the moment of relocation on, signals, under a PRNG-driven schedule of single instructions. All results of the process must come from one implementation. Non-trivial: at least one t1ha0 call finished; distinct: different hash of the event log.");
