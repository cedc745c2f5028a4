// C09: the self-checks under injected malfunctions of the hash functions.
#include "simcpu.h"
#include "os.h"
// what each self-check covers; bit 31: also whatever of t1ha1_be (64-bit t1ha0 check) it may or may not cover
static unsigned covers(const Image *im, int sc, const SimCpu *cpu, unsigned &maybe) {
  auto b = [](int f) { return 1u << f; }; maybe = 0;
  auto usable = [&](int f) { return im->f[f] && (cpu && cpu->on ? !cpu_lacks(*cpu, f) : fn_usable(im, f)); };
  unsigned t2 = b(F_2) | b(F_2_128) | b(F_S64) | b(F_S128), t1 = b(F_1LE) | b(F_1BE), t0 = b(F_32LE) | b(F_32BE);
  for (int f : {F_AES_NOAVX, F_AES_AVX, F_AES_AVX2}) if (usable(f)) t0 |= b(f);
  unsigned have = 0; for (int f = 1; f < F_COUNT; f++) if (im->has(f)) have |= b(f); t2 &= have; t1 &= have; t0 &= have;
  switch (sc) {
  case F_SC_ALL: return t2 | t1 | t0;
  case F_SC_2: return t2; case F_SC_2ATONCE: return b(F_2); case F_SC_2ATONCE128: return b(F_2_128); case F_SC_2STREAM: return b(F_S64) | b(F_S128);
  case F_SC_1: return t1; case F_SC_1LE: return b(F_1LE); case F_SC_1BE: return b(F_1BE);
  case F_SC_0: if (BITS64 && t1) { t0 |= b(F_1LE); maybe = b(F_1BE); } else if (BITS64 && t2) { t0 |= b(F_2); maybe = t2; } return t0;
  case F_SC_32LE: return b(F_32LE); case F_SC_32BE: return b(F_32BE); case F_SC_NOAVX: return b(F_AES_NOAVX); case F_SC_AVX: return b(F_AES_AVX); case F_SC_AVX2: return b(F_AES_AVX2);
  }
  return 0;
}
static u64 ref_of(int fn, int vec); 
static void vec_args(int vec, u64 &len, u64 &seed) {
  if (vec == 0) { len = 0; seed = 0; } else if (vec == 1) { len = 0; seed = ~0ull; } else if (vec == 2) { len = 64; seed = 0; }
  else if (vec < 66) { len = vec - 2; seed = 1ull << (vec - 3); } else if (vec < 73) { len = 64 - (vec - 65); seed = ~0ull << (vec - 65); } else { len = 128 + 17 * (vec - 73); seed = ~0ull << 7; }
}
static u64 ref_of(int fn, int vec) { static const int ix[F_COUNT] = {-1, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9}; return g_ref[ix[fn]][vec]; }
static bool malfunctions(unsigned fns) {
  for (auto &m : g_malf) { if (!(fns >> m.first.first & 1) || m.first.second >= 81) continue; u64 g = ref_of(m.first.first, m.first.second), a = m.second.arg, r = g;
    switch (m.second.kind) { case 1: r = g ^ a; break; case 2: r = g + a; break; case 3: r = a; break; case 4: r = ~g; break; case 5: r = __builtin_bswap64(g); break; case 6: r = g << 32 | g >> 32; break; case 7: r = (u32)g; break; case 8: r = g & ~0xffffffffull; break; }
    if (r != g) return true; }
  return false;
}
static bool own_malfunction(Image *im, unsigned fns) { // do the library's own functions return the reference values?
  for (int f = 1; f < F_COUNT; f++) if (fns >> f & 1 && fn_usable(im, f)) for (int k = 0; k < 81; k++) {
    u64 len, seed; vec_args(k, len, seed); static u8 lp[512]; for (int i = 0; i < 512; i++) lp[i] = (u8)i; u64 h = 0, r;
    const u8 *p = k < 2 ? 0 : k < 66 ? g_pattern : k < 73 ? g_pattern + (k - 65) : lp + (k - 73);
    if (f >= F_S64) { u8 *c = ctx_mem(0); NativeGuard g; if (!g.run([&] { ((void (*)(void *, u64, u64))im->f[F_INIT])(c, seed, seed); ((void (*)(void *, const void *, size_t))im->f[F_UPDATE])(c, p, (size_t)len); r = ((u64(*)(void *, u64 *))im->f[F_FINAL])(c, f == F_S128 ? &h : 0); })) return true; }
    else { Res q = ncall(im, f, p, (size_t)len, seed); if (!q.ok) return true; r = q.r; }
    if (r != ref_of(f, k)) return true; }
  return false;
}
static void run9(const Scen &sc, Verdict &v) {
  Image *im = 0; Stubs st; g_malf.clear(); SimCpu cpu; int checks = 0; std::string hist; zones_reset();
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (!im) continue;
    if (l.op == "cpu") { cpu_line(l, cpu); S.fault("CPU simulated"); continue; }
    if (l.op == "os") { os_reset(true, (u64)l.arg(0), (unsigned)l.arg(1) & 511, 0); S.fault("arbitrary environment, refused requests"); continue; }
    if (l.op == "hook") { st.install(im, ((u64)l.arg(0)) & ((1 << F_COUNT) - 2)); continue; }
    if (l.op == "m" || l.op == "mr" || l.op == "h") { // malfunction appears / repaired
      int f = (int)((u64)l.arg(0) % F_COUNT); if (!f) continue; if (!st.im) st.install(im, (1 << F_COUNT) - 2);
      int v0 = (int)((u64)l.arg(1) % 82), v1 = std::min<int>(81, (int)l.arg(2)); if (v1 < v0) v1 = v0;
      for (int k = v0; k <= v1; k++) { if (l.op == "m") { Malf m; m.kind = (int)((u64)l.arg(3) % 9); m.arg = (u64)l.arg(4); g_malf[{f, k}] = m; } else g_malf.erase({f, k}); }
      if (l.op == "m") S.fault(v1 > v0 ? "malfunction of a function on many vectors" : "malfunction of a function on one vector"); else S.fault("malfunction repaired"); hist += strf("%s of %s at vectors %d..%d; ", l.op == "m" ? "malfunction" : "repair", fn_name[f], v0, v1); continue; }
    if (l.op == "ok") { g_malf.clear(); S.fault("everything repaired"); hist += "all repaired; "; continue; }
    if (l.op == "sm") { int f = (int)l.arg(0); u64 n = (u64)l.arg(1) & 0x1ffff; if (f < F_SC_ALL || f >= F_ALL || !im->f[f] || !st.im) continue; if (f == F_SC_NOAVX || f == F_SC_AVX || f == F_SC_AVX2) if (!g_host.avx2) continue; // many times
      unsigned maybe, cov = covers(im, f, 0, maybe); bool bad = malfunctions(cov), mb = bad || malfunctions(maybe); if (mb && !bad) continue; int want = bad ? -1 : 0; static int r; static u64 done; done = 0; r = 0; std::string why; bool ok; { NativeGuard g; ok = g.run([&] { for (; done < n; done++) { r = ((int (*)())im->f[f])(); if (r != want) break; } }); why = g.why; } checks++; S.probe("repeated verdict", done); v.ev(done * 64 + f);
      if (!ok || done < n) { v.fail(!ok ? "crash" : bad ? "missed" : "false-alarm", strf("build %s: %s returned %d%s after %llu calls that returned %d (%s)", im->variant.c_str(), fn_name[f], r, why.c_str(), (unsigned long long)done, want, hist.c_str())); return; } hist += strf("%llu more calls of %s; ", (unsigned long long)n, fn_name[f]); continue; }
    if (l.op != "sc" && l.op != "sp") continue;
    int f = (int)l.arg(0); if (f < F_SC_ALL || f >= F_ALL || !im->f[f]) continue; bool stepped = l.op == "sp"; if (stepped && !cpu.on) cpu_line(Line("cpu", {0xd, 0x7ffafbbf, 0x078bfbff, 0x37ab, 0, 0, 7, 1}), cpu);
    int need = f == F_SC_NOAVX ? F_AES_NOAVX : f == F_SC_AVX ? F_AES_AVX : f == F_SC_AVX2 ? F_AES_AVX2 : -1; if (need >= 0 && (stepped ? cpu_lacks(cpu, need) != 0 : !fn_usable(im, need))) continue;
    unsigned maybe, cov = covers(im, f, stepped ? &cpu : 0, maybe); int r = 0; std::string why;
    if (!stepped) r = nselfcheck(im, f, &why);
    else { StepWorld w; Scen s2; w.im = im; w.v = &v; Item it; it.fn = f; w.prog[0].push_back(it); w.task_grp.push_back(0); w.ev.resize(1); w.cursor.assign(1, 0); w.cpu = cpu; w.loader_mode = true; w.watch = false; g_stub_cpu = 0; w.execute(3);
      if (w.crashflag) { if (w.crash_why.find("this machine") != std::string::npos) { S.probe("illegal instruction (not this property)"); return; } r = -1000; why = w.crash_why; } else if (w.recs.empty() || !w.recs[0].done) continue; else r = (int)w.recs[0].ret; S.probe("verdict on a simulated CPU"); }
    checks++; bool bad = malfunctions(cov), mb = bad || malfunctions(maybe); S.probe(bad ? "verdict with a malfunction" : "verdict without a malfunction"); v.ev((u64)r * 64 + f);
    bool good = bad ? r == -1 : mb ? r == 0 || r == -1 : r == 0;
    if (!good && !bad && st.im == 0 && own_malfunction(im, cov | maybe)) { S.probe("the library's own functions malfunction (not this property)"); continue; }
    if (!good) { v.fail(bad ? (r == 0 ? "missed" : "verdict") : r == -1000 ? "crash" : "false-alarm", strf("build %s: %s returned %d%s, expected %d (%s)", im->variant.c_str(), fn_name[f], r, why.c_str(), bad ? -1 : 0, hist.c_str())); return; }
    v.note("%s -> %d after: %s", fn_name[f], r, hist.c_str());
  }
  v.nontrivial = checks > 0;
}
static void gen_malf(Rng &r, Scen &sc, int fn) {
  i64 d = r.pick<i64>({(i64)(1ull << r.below(64)), (i64)(1ull << r.below(64)), (i64)r.next(), (i64)(r.next() << 32), (i64)(r.next() & 0xffffffff), -1, 1, (i64)0x8000000000000000ull, (i64)0xffffffff00000000ull, 0xffffffff});
  auto kind = [&](i64 &a) -> i64 { a = d; switch (r.below(8)) { case 0: return 2; case 1: a = (i64)ref_of(fn, (int)r.below(81)); return 3; case 2: a = r.pick<i64>({0, 1, -1}); return 3; case 3: return r.pick<i64>({4, 5, 6, 7, 8}); default: return 1; } };
  i64 a, k; i64 v0 = (i64)r.below(81);
  switch (r.below(9)) {
  case 0: case 1: case 2: case 3: k = kind(a); sc.push_back({"m", {fn, v0, v0, k, a}}); break;
  case 4: { i64 v1 = (i64)r.below(81); sc.push_back({"m", {fn, v0, v0, 1, d}}); sc.push_back({"m", {fn, v1, v1, 1, d}}); break; }     // cancelling under XOR
  case 5: { i64 v1 = (i64)r.below(81); sc.push_back({"m", {fn, v0, v0, 2, d}}); sc.push_back({"m", {fn, v1, v1, 2, -d}}); break; }    // cancelling under addition
  case 6: k = kind(a); sc.push_back({"m", {fn, 0, 81, k, a}}); break;                                                              // every vector
  case 7: { i64 v1 = v0 + (i64)r.below(81 - v0); k = kind(a); sc.push_back({"m", {fn, v0, v1, k, a}}); break; }
  default: sc.push_back({"m", {fn, 81, 81, 1, d}}); break;                                                                        // only off the vectors: no malfunction
  }
}
static void gen9(Rng &r, u64 idx, Scen &sc) {
  int var = pick_variant(r); Image *im = need_img(var); sc.push_back({"v", {var}}); bool stepped = idx % 50 == 9; if (stepped) sc.push_back(gen_cpu(r, r.chance(1, 2)));
  if (r.chance(1, 40)) { for (int i = 0; i < 6; i++) sc.push_back({"sc", {F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL)}}); return; } // the library's own functions
  sc.push_back({"hook", {(1 << F_COUNT) - 2}});
  static const int aes[] = {F_AES_NOAVX, F_AES_AVX, F_AES_AVX2}; (void)im;
  auto fn = [&] { return r.chance(1, 6) ? aes[r.below(3)] : 1 + (int)r.below(F_COUNT - 1); };
  static const int owner[F_COUNT] = {0, F_SC_32LE, F_SC_32BE, F_SC_NOAVX, F_SC_AVX, F_SC_AVX2, F_SC_1LE, F_SC_1BE, F_SC_2ATONCE, F_SC_2ATONCE128, F_SC_2STREAM, F_SC_2STREAM};
  static const int family[F_COUNT] = {0, F_SC_0, F_SC_0, F_SC_0, F_SC_0, F_SC_0, F_SC_1, F_SC_1, F_SC_2, F_SC_2, F_SC_2, F_SC_2};
  int rounds = stepped ? 1 : 1 + (int)r.below(5);
  if (idx % 9 == 4) sc.push_back({"os", {(i64)(r.next() >> 2), r.pick<i64>({0, 0, 40, 256})}});
  if (!stepped && idx % 1000 == 501) { int f = fn(); i64 sf = r.chance(1, 3) ? owner[f] : r.chance(1, 2) ? family[f] : (i64)F_SC_ALL; if (r.chance(1, 2)) gen_malf(r, sc, f); sc.push_back({"sm", {sf, (i64)r.below(1ull << (4 + r.below(sf == F_SC_ALL ? 10 : 13)))}}); if (r.chance(1, 2)) sc.push_back({"ok", {}}); else gen_malf(r, sc, f); sc.push_back({"sc", {sf}}); sc.push_back({"sc", {F_SC_ALL}}); return; }
  if (r.chance(1, 3)) sc.push_back({"sc", {F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL)}});
  for (int i = 0; i < rounds; i++) {
    int n = r.chance(1, 8) ? 0 : r.chance(3, 4) ? 1 : 2 + (int)r.below(3), f = 1;
    for (int k = 0; k < n; k++) { f = k && r.chance(1, 3) ? f : fn(); if (k && r.chance(1, 3)) { Line last = sc.back(); if (last.op == "m") { int g = fn(); last.a[0] = g; sc.push_back(last); f = g; continue; } } gen_malf(r, sc, f); }
    const char *op = stepped ? "sp" : "sc"; int m = 1 + (int)r.below(stepped ? 1 : 3);
    for (int k = 0; k < m; k++) sc.push_back({op, {r.chance(1, 2) ? owner[f] : r.chance(1, 2) ? family[f] : r.chance(1, 2) ? F_SC_ALL : F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL)}});
    if (r.chance(1, 2)) sc.push_back({"ok", {}}); else if (n && r.chance(1, 2)) sc.push_back({"mr", {f, 0, 81}});
    if (!stepped && r.chance(1, 2)) sc.push_back({"sc", {r.chance(1, 2) ? owner[f] : F_SC_ALL + (i64)r.below(F_ALL - F_SC_ALL)}});
  }
}
static PropReg reg9("C09", gen9, run9, 0, "One run = a history of injected malfunctions (function x vector x wrong value: flipped bits, offsets, stale or swapped values, pairs cancelling under XOR or addition, all vectors, only inputs outside the vectors), repairs, and self-check calls, in a random build; the hash functions are replaced by stand-ins returning the reference value or the injected one. Every 50th run executes the self-check on a simulated CPU instruction by instruction. Non-trivial: at least one verdict; distinct: different hash of the verdict log.");
