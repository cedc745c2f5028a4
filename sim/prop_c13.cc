// C13: the tool's clock probing (mera_init) and measurement (mera_bench) on simulated clocks, sleeps, signals and CPU.
#include "tool.h"
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <linux/perf_event.h>
typedef uint64_t timestamp_t;
struct MeraT { unsigned (*start)(timestamp_t *); unsigned (*finish)(timestamp_t *); double (*convert)(timestamp_t); const char *units, *source; unsigned flags; int cpunum; };
enum { RAW, MONO, GTOD, PMC, TSC, PERF, PERFPMC, NSRC };
static const char *const src_name[] = {"CLOCK_MONOTONIC_RAW", "CLOCK_MONOTONIC", "gettimeofday", "rdpmc", "tsc", "perf", "perf rdpmc"};
enum { E_GETCPU = 1, E_AFF = 2, E_GETTSC = 4, E_SETTSC = 8, E_TSCOFF = 16, E_PERF = 32, E_MMAP = 64, E_IOCTL = 128, E_ACCESS = 256, E_NOTSC = 512, E_RDTSCP = 1024, E_INVARIANT = 2048, E_CAPS = 4096, E_INDEX = 8192, E_ENABLE = 16384, E_PERFDENIED = 32768, E_RDTSCPILL = 65536 };
struct Src { int state = 1; u64 gran = 1, cost = 30, rate8 = 8, base = 0; u64 frozen = 0, err = 0, last = 0; i64 jump = 0; };
struct Dist { u64 at; int kind; i64 a, b; };
static sigjmp_buf stuck13;
struct ClockOs : ToolOs {
  u64 t = 0, op = 0, readings = 0, limit = 0; i64 wall = 0; Src s[NSRC]; u64 env = 0; u64 T = 1000, over = 0; std::vector<Dist> d; size_t di = 0; u64 core = 0; i64 skew[8] = {0}; i64 eintr = 0; struct sigaction h[65]; int sigfail = -1, sigs = 0; std::set<void *> maps; int fds = 0; bool tsc_on = true; u64 calls = 0; Verdict *v = 0; bool jumped = false, probing = false;
  void disturb() {
    op++;
    while (di < d.size() && d[di].at <= op) {
      Dist &x = d[di++]; Src &q = s[(u64)x.b % NSRC];
      switch (x.kind) {
      case 0: t += (u64)x.a * 1000; S.fault("preemption"); break;
      case 1: core = (u64)x.a % 8; skew[core] = x.b; S.fault("migration to another core"); break;
      case 2: q.jump += x.a; jumped = true; S.fault(x.a < 0 ? "clock stepped back" : "clock jumped ahead"); break;
      case 3: q.frozen = (u64)x.a; S.fault("clock stalled"); break;
      case 4: q.err = (u64)x.a; S.fault("clock reading failed"); break;
      case 5: eintr = x.a; S.fault("sleep interrupted"); break;
      case 6: wall += x.a; S.fault("wall clock step"); break;
      }
    }
  }
  bool value(int k, u64 &out) { // false: the reading fails
    if (++readings > limit) siglongjmp(stuck13, 1);
    disturb(); Src &q = s[k]; t += q.cost * 1000;
    if (q.state == 1) return false;
    if (q.err) { q.err--; if (k <= GTOD || k == PERF || probing) return false; }
    if (q.frozen) { q.frozen--; out = q.last; return true; }
    u64 v = k == GTOD ? t / 1000000 : t * q.rate8 / 8000; v -= v % q.gran; if (q.state == 2) v = 0; if (q.state == 3) v = 0 - v;
    v += q.base + (u64)q.jump; if (k == TSC) v += (u64)skew[core]; out = q.last = v; return true;
  }
  int clock_gettime(clockid_t c, struct timespec *ts) override { u64 v; int k = c == CLOCK_MONOTONIC_RAW ? RAW : c == CLOCK_MONOTONIC ? MONO : -1; if (k < 0 || !value(k, v)) { errno = EINVAL; return -1; } ts->tv_sec = (time_t)(v / 1000000000); ts->tv_nsec = (long)(v % 1000000000); return 0; }
  int gettimeofday(struct timeval *tv) override { u64 v; if (!value(GTOD, v)) { errno = EFAULT; return -1; } tv->tv_sec = (time_t)(v / 1000000); tv->tv_usec = (long)(v % 1000000); return 0; }
  time_t time() override { return (time_t)((i64)(t / 1000000000000ull) + wall + 1000000); }
  int nanosleep(const struct timespec *ts) override { disturb(); u64 n = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; if (eintr) { n = (u64)std::min<i64>(eintr, n); eintr = 0; t += n * 1000; errno = EINTR; return -1; } t += (n + over) * 1000; return 0; }
  int getcpu() override { if (env & E_GETCPU) { S.fault("getcpu failed"); errno = ENOSYS; return -1; } return 3; }
  int setaffinity() override { if (env & E_AFF) { S.fault("setaffinity failed"); errno = EPERM; return -1; } return 0; }
  int prctl(int o, uptr a) override {
    if (o == PR_GET_TSC) { if (env & E_GETTSC) { S.fault("prctl failed"); errno = EINVAL; return -1; } *(int *)a = tsc_on ? PR_TSC_ENABLE : PR_TSC_SIGSEGV; return 0; }
    if (o == PR_SET_TSC) { if (env & E_SETTSC) { S.fault("prctl failed"); errno = EINVAL; return -1; } tsc_on = a == PR_TSC_ENABLE; return 0; }
    if (env & E_ENABLE) { S.fault("prctl failed"); errno = EINVAL; return -1; } return 0;
  }
  long perf_open() override { if (!(env & E_PERF)) { errno = env & E_PERFDENIED ? EACCES : ENOENT; S.fault("perf_event_open failed"); return -1; } fds++; return 1000; }
  int sigaction(int n, const struct sigaction *a, struct sigaction *o) override { if (sigs++ == sigfail) { S.fault("sigaction failed"); errno = EINVAL; return -1; } if (o) *o = h[n]; if (a) h[n] = *a; return 0; }
  int access(const char *) override { if (env & E_ACCESS) return 0; errno = ENOENT; return -1; }
  void *mmap(size_t n, int) override { if (env & E_MMAP) { S.fault("mmap failed"); errno = ENODEV; return MAP_FAILED; } void *p = ::mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); maps.insert(p); auto *pg = (struct perf_event_mmap_page *)p; pg->cap_bit0_is_deprecated = 1; pg->cap_user_rdpmc = env & E_CAPS ? 1 : 0; pg->index = env & E_INDEX ? 7 : 0; return p; }
  int munmap(void *p, size_t n) override { if (!maps.erase(p)) v->fail("resources", "munmap of something that is not mapped"); else ::munmap(p, n); return 0; }
  int ioctl(int fd) override { if (fd != 1000 || !fds) v->fail("resources", "ioctl on a closed descriptor"); if (env & E_IOCTL) { S.fault("ioctl failed"); errno = ENOTTY; return -1; } return 0; }
  ssize_t read(int fd, void *b, size_t n) override { if (fd != 1000 || !fds) { v->fail("resources", "read from a closed descriptor"); errno = EBADF; return -1; } u64 x; if (!value(PERF, x)) { errno = EIO; return -1; } memcpy(b, &x, 8); return 8; }
  int close(int fd) override { if (fd != 1000 || !fds) { v->fail("resources", "close of a closed descriptor"); errno = EBADF; return -1; } fds--; return 0; }
};
static ClockOs *C;
static void own_handler(int, siginfo_t *, void *) {}
static bool insn_fault(int sig, ucontext_t *uc) {
  if (!g_os || !C) return false;
  auto &g = uc->uc_mcontext.gregs;
#ifdef __x86_64__
  enum { IP = REG_RIP, AX = REG_RAX, CX = REG_RCX, DX = REG_RDX };
#else
  enum { IP = REG_EIP, AX = REG_EAX, CX = REG_ECX, DX = REG_EDX };
#endif
  uptr ip = (uptr)g[IP]; if (!tool_in_text(ip) || (sig != SIGSEGV && sig != SIGILL && sig != SIGBUS)) return false;
  const u8 *p = (const u8 *)ip; int len = 0, k = -1; bool rdtscp = false, ok = true; u64 v = 0;
  if (p[0] == 0x0f && p[1] == 0x31) { len = 2; k = TSC; } else if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) { len = 3; k = TSC; rdtscp = true; }
  else if (p[0] == 0x0f && p[1] == 0x33) { len = 2; k = (u32)g[CX] == 0x40000001u ? PMC : (u32)g[CX] == 6 ? PERFPMC : -1; ok = k >= 0; } else ok = false; // any other fault of the tool
  if (rdtscp && (!(C->env & E_RDTSCP) || (C->env & E_RDTSCPILL))) { ok = false; sig = SIGILL; } else if (k == TSC && !C->tsc_on) ok = false;
  ok = ok && C->value(k, v);
  if (!ok) { // the processor faults
    S.probe("clock instruction faulted"); struct sigaction &a = C->h[sig]; if (C->probing == false || a.sa_sigaction == own_handler) return false;
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; a.sa_sigaction(sig, &si, uc); return true;
  }
  g[AX] = (greg_t)(u32)v; g[DX] = (greg_t)(u32)(v >> 32); if (rdtscp) g[CX] = (greg_t)C->core; g[IP] = (greg_t)(ip + len); return true;
}
static u64 target(const void *, size_t, u64) { C->disturb(); C->t += C->T; C->calls++; return 0; }
static FILE *null_out; static ssize_t wr_null(void *, const char *, size_t n) { return n; }
static void init() { tool_load(); cookie_io_functions_t f = {0, wr_null, 0, 0}; null_out = fopencookie(0, "w", f); }
struct Phase { Verdict &v; NativeGuard g; bool hung = false; };
static bool guarded(Verdict &v, const char *what, std::function<void()> fx) {
  volatile bool hung = false, ok = true; NativeGuard g; FILE *so = stdout, *se = stderr; stdout = stderr = null_out; g_os = C; g_insn_fault = insn_fault; prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0); int narm = g_narmed;
  if (!sigsetjmp(stuck13, 1)) ok = g.run(fx); else { hung = true; g_narmed = narm; }
  prctl(PR_SET_TSC, PR_TSC_ENABLE, 0, 0, 0); g_os = 0; g_insn_fault = 0; stdout = so; stderr = se; S.calls++;
  if (hung) v.fail("hang", strf("%s still running after %llu clock readings, the last disturbance being long over", what, (unsigned long long)C->readings));
  else if (!ok) v.fail("crash", strf("%s crashed: %s", what, g.why.c_str()));
  return ok && !hung;
}
static void run(const Scen &sc, Verdict &v) {
  tool_pristine(); ClockOs W; C = &W; W.v = &v; memset(W.h, 0, sizeof W.h); for (auto &h : W.h) { h.sa_sigaction = own_handler; h.sa_flags = SA_SIGINFO; }
  std::vector<Dist> d[2]; u64 last[2] = {0, 0}, inits = 1; bool bench = true, delays_only = true; u64 mats = 0;
  for (auto &l : sc) {
    if (l.op == "env") { W.env = (u64)l.arg(0); W.sigfail = (int)l.arg(1); W.over = (u64)std::min<i64>(std::max<i64>(l.arg(2), 0), 50000000); bench = l.arg(3); inits = 1 + (u64)l.arg(4) % 2; }
    else if (l.op == "src") { Src &q = W.s[(u64)l.arg(0) % NSRC]; q.state = (int)((u64)l.arg(1) % 4); q.gran = std::min<u64>(std::max<i64>(l.arg(2), 1), 100000000); q.cost = std::min<u64>(std::max<i64>(l.arg(3), 1), 100000); q.rate8 = std::min<u64>(std::max<i64>(l.arg(4), 1), 64); q.base = (u64)l.arg(5); }
    else if (l.op == "T") W.T = std::min<u64>(std::max<i64>(l.arg(0), 1), 1000000000ull);
    else if (l.op == "d") d[(u64)l.arg(0) % 2].push_back({(u64)l.arg(1), (int)((u64)l.arg(2) % 7), l.arg(3), l.arg(4)});
    else if (l.op == "ds") for (i64 i = 0, n = std::min<i64>(l.arg(3), 20000); i < n; i++) d[(u64)l.arg(0) % 2].push_back({(u64)l.arg(1) + i * (u64)std::max<i64>(l.arg(2), 1), (int)((u64)l.arg(4) % 7), l.arg(5), l.arg(6)}); // a train of disturbances
  }
  for (int p = 0; p < 2; p++) { std::stable_sort(d[p].begin(), d[p].end(), [](const Dist &x, const Dist &y) { return x.at < y.at; }); for (auto &x : d[p]) { last[p] = std::max(last[p], x.at + (x.kind == 3 || x.kind == 4 ? (u64)std::max<i64>(x.a, 0) : 0)); if (x.kind == 3 || x.kind == 4) { if (x.a < 0) { last[p] = 1u << 30; } } if (p == 1 && x.kind != 0 && x.kind != 1) delays_only = false; } }
  if (last[0] > 50000000 || last[1] > 50000000) return;
  W.tsc_on = !(W.env & E_TSCOFF);
  u32 *feat = (u32 *)tool_sym("ia32_cpu_features"); memset(feat, 0, 40); feat[2] = 1 | (W.env & E_NOTSC ? 0 : 16); feat[7] = W.env & E_RDTSCP ? 1u << 27 : 0;
  // {basic ebx,ecx,edx}{ext7 ebx,ecx,edx}{80000001 ecx,edx}{80000007 ecx,edx}
  feat[9] = W.env & E_INVARIANT ? 1u << 8 : 0;
  *(unsigned *)tool_sym("option_flags") = 0;
  MeraT *m = (MeraT *)tool_sym("mera"); bool (*minit)() = (bool (*)())tool_sym("mera_init"); double (*mbench)(u64 (*)(const void *, size_t, u64), const void *, size_t, u64) = (decltype(mbench))tool_sym("mera_bench");
  W.d = d[0]; W.limit = last[0] * 4 + 4000; volatile bool have = false;
  W.probing = true; if (!guarded(v, "mera_init", [&] { have = minit(); })) goto out; W.probing = false;
  v.ev(have); v.ev(m->flags); v.ev(W.readings); v.ev(W.t);
  {
    for (int sig : {SIGSEGV, SIGILL, SIGBUS}) if (W.h[sig].sa_sigaction != own_handler && W.sigfail < 0) { v.fail("handlers-left", strf("mera_init returns with its own handler of signal %d installed, which jumps into a stack frame that no longer exists", sig)); break; }
    bool quiet = W.d.empty() && W.sigfail < 0; struct Cand { int k; unsigned fl; const char *nm; }; std::vector<Cand> c; bool cpu = !(W.env & E_NOTSC); unsigned tf = 11 | (W.env & E_INVARIANT ? 0 : 16); bool perf = (W.env & E_PERF) && !(W.env & E_IOCTL);
    c = {{RAW, 1, "clock_gettime(CLOCK_MONOTONIC_RAW)"}, {MONO, 1, "clock_gettime(CLOCK_MONOTONIC)"}, {GTOD, 1, "gettimeofday()"}}; bool tsc = cpu && (W.tsc_on);
    if (cpu) c.push_back({PMC, 27, "RDPMC_40000001"}); if (tsc && (W.env & E_RDTSCP) && !(W.env & E_RDTSCPILL)) c.push_back({TSC, tf, "RDTSCP"}); if (tsc) c.push_back({TSC, tf, "RDTSC"}); if (perf) c.push_back({PERF, 25, "PERF_COUNT_HW_CPU_CYCLES"}); if (perf && !(W.env & E_MMAP) && (W.env & E_CAPS) && (W.env & E_INDEX)) c.push_back({PERFPMC, 27, "RDPMC_perf"});
    auto tick_ns = [&](int k) { return k == GTOD ? W.s[k].gran * 1000 : W.s[k].gran * 8 / W.s[k].rate8; };
    auto surely = [&](int k) { return W.s[k].state == 0 && tick_ns(k) < 54000; }; auto maybe = [&](int k) { return W.s[k].state == 0; };
    unsigned best = 0; bool any = false, only32 = true; /* perf's rdpmc is the only source that good */  for (auto &x : c) { if (surely(x.k)) { if (x.fl > best) { best = x.fl; only32 = true; } if (x.fl == best && x.k != PERFPMC) only32 = false; } if (maybe(x.k)) any = true; }
    const Cand *sel = 0; if (have) for (auto &x : c) if (!strcmp(x.nm, m->source)) sel = &x;
    if (have && !sel) v.fail("select", strf("mera_init selected '%s', which is not there", m->source));
    else if (have && W.d.empty() && !maybe(sel->k)) v.fail("select", strf("mera_init selected '%s', which does not work", m->source));
    else if (have && sel->fl != m->flags) v.fail("select", strf("mera_init reports flags %#x for '%s' (expected %#x)", m->flags, m->source, sel->fl));
    else if (have && !any) v.fail("select", "mera_init found a clock although none works");
    else if (quiet && have && sel->fl < best) v.fail(!BITS64 && only32 ? "perf-rdpmc-32bit" : "select", strf("mera_init selected '%s' (flags %#x) although a source with flags %#x works", m->source, sel->fl, best));
    else if (quiet && !have && best) v.fail(!BITS64 && only32 ? "perf-rdpmc-32bit" : "select", "mera_init found no clock although one works");
    if (have && v.bad == false) {
      bool pk = sel->k == PERF || sel->k == PERFPMC; if (pk && !W.fds) v.fail("resources", "the perf descriptor in use was closed"); if (sel->k == PERFPMC && W.maps.empty()) v.fail("resources", "the perf page in use was unmapped");
      if (!pk && W.fds) v.fail("resources", "the perf descriptor was left open although it is not used");
    }
    S.probe(have ? strf("selected %s", m->source).c_str() : "no clock");
    if (!have || !bench || v.bad || !sel || W.s[sel->k].state) goto out;
    // measurement
    int k = sel->k; u64 tick = tick_ns(k); if (tick > W.s[k].cost * 12) goto out; // too coarse to simulate in reasonable time
    for (auto &q : W.s) q.err = q.frozen = 0; W.d = d[1]; W.di = 0; W.op = 0; u64 r0 = W.readings; W.limit = r0 + last[1] * 4 + 20000000; double est = 0, over = 0;
    if (!guarded(v, "mera_bench", [&] { over = mbench(0, 0, 0, 0); })) goto out;
    u64 r1 = W.readings; W.di = 0; W.op = 0; W.limit = r1 + last[1] * 4 + 20000000; u64 t0 = W.t;
    if (!guarded(v, "mera_bench", [&] { est = mbench(target, "", 1, 42); })) goto out;
    double u = k == GTOD || sel->fl == 1 ? 1 : W.s[k].rate8 / 8.0, want = W.T / 1000.0 * u; u64 vb; memcpy(&vb, &est, 8); v.ev(vb); v.ev(W.readings);
    S.probe("measurements"); S.probe("simulated microseconds", (W.t - t0) / 1000000);
    if (tick <= W.s[k].cost && W.s[k].gran <= 8 && delays_only) { // a fine clock: only delays may lengthen single measurements
      double ow = W.s[k].cost * u, tol = 0.01 * want + 2.0 * W.s[k].gran / 1000 * std::max(1.0, want / 1000) + 0.05;
      if (fabs(est - want) > tol) v.fail("estimate", strf("mera_bench reports %.4f %s for a function that takes %.4f", est, m->units, want));
      else if (fabs(over - ow) > 0.03 * ow + W.s[k].gran) v.fail("estimate", strf("mera_bench reports a measurement overhead of %.4f %s, it is %.4f", over, m->units, ow));
      S.probe("estimates checked");
    } else if (!isfinite(est) || !isfinite(over)) v.fail("estimate", strf("mera_bench reports %f (overhead %f)", est, over));
    if (getenv("C13DBG")) fprintf(stderr, "C13 %s tick %llu cost %llu T %.3f est %.4f over %.4f want %.4f err %.4f readings %llu+%llu dist %zu delays %d simsec %.2f\n", m->source, (unsigned long long)tick, (unsigned long long)W.s[k].cost, W.T / 1000.0, est, over, want, (est - want) / want, (unsigned long long)(r1 - r0), (unsigned long long)(W.readings - r1), d[1].size(), delays_only, (W.t - t0) / 1e12);
  }
out:
  for (void *p : W.maps) ::munmap(p, 4096);
  C = 0;
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  u64 env = 0; auto bit = [&](u64 b, int n, int dn) { if (r.chance(n, dn)) env |= b; };
  bit(E_GETCPU, 1, 10); bit(E_AFF, 1, 10); bit(E_GETTSC, 1, 10); bit(E_SETTSC, 1, 6); bit(E_TSCOFF, 1, 3); bit(E_PERF, 1, 2); bit(E_MMAP, 1, 4); bit(E_IOCTL, 1, 6); bit(E_ACCESS, 1, 2); bit(E_NOTSC, 1, 3); bit(E_RDTSCP, 2, 3); bit(E_INVARIANT, 1, 2); bit(E_CAPS, 2, 3); bit(E_INDEX, 2, 3); bit(E_ENABLE, 1, 6); bit(E_PERFDENIED, 1, 2); bit(E_RDTSCPILL, 1, 8);
  bool bench = r.chance(1, 10), tscp = bench && r.chance(1, 2); if (bench) env |= E_NOTSC; if (tscp) env = (env & ~(E_NOTSC | E_TSCOFF | E_INVARIANT | E_PERF | E_RDTSCPILL)) | E_RDTSCP; // a measurement with RDTSCP
  sc.push_back({"env", {(i64)env, r.chance(1, 20) ? (i64)r.below(40) : -1, r.chance(1, 3) ? (i64)r.below(200000) : 0, bench, 0}});
  for (int k = 0; k < NSRC; k++) {
    int st = r.chance(1, 2) ? 0 : (int)r.below(4); u64 gran = k == GTOD ? r.pick<u64>({1, 1, 1, 10, 1000, 4000, 10000}) : r.pick<u64>({1, 1, 1, 2, 7, 10, 32, 100, 1000, 1000, 15625, 1000000, 4000000}), cost = k == PERF ? 200 + r.below(600) : r.chance(1, 4) ? 1 + r.below(600) : 8 + r.below(50);
    if (tscp && k == TSC) { st = 0; gran = 1; } if (tscp && k == PMC) st = 1;
    sc.push_back({"src", {k, st, (i64)gran, (i64)cost, k <= GTOD ? 8 : (i64)(4 + r.below(36)), (i64)(r.chance(1, 8) && k > GTOD ? r.next() >> r.below(3) : r.below(1ull << 50))}});
  }
  i64 T = 1000; if (bench) sc.push_back({"T", {T = (i64)(tscp ? 2000000 + r.below(4000000) : r.chance(1, 4) ? 300 + r.below(5000) : r.chance(1, 2) ? 1000 + r.below(200000) : 1000 + r.below(20000000))}});
  static const i64 dly[] = {10, 200, 1500, 20000, 1000000, 10000000};
  auto dist = [&](int ph, u64 span, int n, bool harmless) {
    for (int i = 0; i < n; i++) {
      int kind = harmless ? (int)r.below(2) : (int)r.below(7); i64 a = 0, b = 0;
      if (kind == 0) a = 1 + (i64)r.below(dly[r.below(6)]); else if (kind == 1) { a = r.below(8); b = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (i64)r.below(1000000) - 500000 : (i64)r.below(1 + T / 200) - T / 400; } else if (kind == 2) { b = r.below(NSRC); a = (i64)r.below(1 + dly[r.below(6)]); if (r.chance(1, 2)) a = -a; if (r.chance(1, 20)) a *= 1000000; }
      else if (kind == 3 || kind == 4) { a = 1 + (i64)r.below(r.chance(1, 2) ? 8 : 3000); b = r.below(NSRC); } else if (kind == 5) a = 1 + (i64)r.below(60000); else a = (i64)r.below(200) - 100;
      if (r.chance(1, 4) && kind != 2) sc.push_back({"ds", {ph, (i64)r.below(span), 1 + (i64)r.below(200), 1 + (i64)r.below(r.chance(1, 2) ? 50 : 3000), kind, a, b}}); else sc.push_back({"d", {ph, (i64)r.below(span), kind, a, b}});
    }
  };
  if (r.chance(1, 2)) dist(0, 60, 1 + (int)r.below(8), false);
  if (bench && r.chance(3, 4)) dist(1, r.chance(1, 2) ? 2000 : 60000, 1 + (int)r.below(20), r.chance(1, 2));
}
static PropReg reg("C13", gen, run, init, "One run = one start of the benchmark tool's clock probing on a simulated machine (which clock sources exist, work, stand still or run backwards, their resolution, cost and rate; failing system calls; preemptions, core migrations, steps, stalls and read errors at seeded readings), in one run of six followed by two measurements. Non-trivial: every run; distinct: different hash of the outcome.");
