// C12: the tool's --hash-stdin-strings mode under I/O and allocation faults.
#include "tool.h"
#include <errno.h>
#include <setjmp.h>
#include <sys/types.h>
static const int NMODE = 7;
static const struct { const char *name; const char *args[4]; int fn; } modes[NMODE] = {
  {"t1ha2_atonce", {"--hash-stdin-strings"}, F_2}, {"t1ha2_atonce", {"--hash-stdin-strings", "--2"}, F_2}, {"t1ha1_le", {"--hash-stdin-strings", "--1"}, F_1LE}, {"t1ha1_be", {"--1", "--no-le", "--hash-stdin-strings"}, F_1BE},
  {"t1ha0_32le", {"--0", "--hash-stdin-strings"}, F_32LE}, {"t1ha0_32be", {"--hash-stdin-strings", "--0", "--no-le"}, F_32BE}, {"t1ha0", {"--hash-stdin-strings", "--0", "--no-32"}, F_T1HA0}};
struct IoAct { int kind; i64 n; };
static struct ToolWorld {
  std::string in, out; size_t pos = 0, ri = 0, wi = 0; std::vector<IoAct> r, w; std::vector<size_t> errpos; int persist_r = 0, persist_w = 0; bool leaving = false, wfail_leaving = false, wfail = false, rfail = false, afail = false; u64 after_eof = 0, allocs = 0; std::set<u64> fail_at; u64 rd = 0, wr = 0;
} W;
static jmp_buf stuck;
struct OwnAlloc { bool (*f)(size_t); OwnAlloc() : f(g_th.alloc_fails) { g_th.alloc_fails = 0; } ~OwnAlloc() { g_th.alloc_fails = f; } }; // the simulator's own allocations never fail
static ssize_t rd(void *, char *b, size_t n) {
  OwnAlloc own; if (++W.rd > W.in.size() * 2 + 100000) longjmp(stuck, 1);
  if (W.persist_r) { if (++W.after_eof > 1000) longjmp(stuck, 1); errno = W.persist_r; return -1; }
  IoAct a = W.ri < W.r.size() ? W.r[W.ri++] : IoAct{0, (i64)n};
  if (a.kind == 1 || a.kind == 2) { W.rfail = true; W.errpos.push_back(W.pos); if (a.kind == 2) W.persist_r = (int)a.n; errno = (int)a.n; S.fault(a.kind == 2 ? "persistent read error" : "read error once (EINTR, EAGAIN, EIO)"); return -1; }
  size_t k = std::min(n, W.in.size() - W.pos); if (a.kind == 0 && a.n > 0 && (size_t)a.n < k) { k = (size_t)a.n; S.fault("short read"); }
  if (!k && ++W.after_eof > 1000) longjmp(stuck, 1);
  memcpy(b, W.in.data() + W.pos, k); W.pos += k; return k;
}
static ssize_t wr(void *, const char *b, size_t n) { // stdio on a descriptor repeats write() until everything is written or an error occurs
  OwnAlloc own; size_t done = 0;
  while (done < n) {
    if (++W.wr > W.in.size() * 60 + 100000) longjmp(stuck, 1);
    IoAct a = W.persist_w ? IoAct{1, W.persist_w} : W.wi < W.w.size() ? W.w[W.wi++] : IoAct{0, 0};
    if (a.kind) { if (!W.persist_w) S.fault(a.kind == 2 ? "persistent write error (full disk, broken pipe)" : "write error once"); W.wfail = true; if (W.leaving) W.wfail_leaving = true; if (a.kind == 2) W.persist_w = (int)a.n; errno = (int)a.n; break; }
    size_t k = n - done; if (a.n > 0 && (size_t)a.n < k) { k = (size_t)a.n; S.fault("short write"); }
    W.out.append(b + done, k); done += k;
  }
  return done;
}
static ssize_t wr_err(void *, const char *, size_t n) { return n; }
static bool alloc_fails(size_t) { OwnAlloc own; bool f = W.fail_at.count(W.allocs++); if (f) { W.afail = true; S.fault("allocation failure"); } return f; }
static std::string banner; // what the tool prints first about the verification of the hash functions it is compared with (HighwayHash fails it on this compiler)
static std::string digests(const std::string &in, const std::vector<size_t> &cuts, int mode, Image *im) {
  std::string o = banner + std::string("# ./test '--hash-stdin' using ") + modes[mode].name + "()\n"; size_t p = 0;
  while (p < in.size()) {
    size_t e = in.find('\n', p); e = e == std::string::npos ? in.size() : e + 1; for (size_t c : cuts) if (c > p && c < e) e = c;
    int fn = modes[mode].fn; if (fn == F_T1HA0) fn = best_t1ha0(im); u64 hi; o += strf("%016llx\n", (unsigned long long)model_fn(fn, in.data() + p, e - p, 42, &hi)); p = e;
  }
  return o;
}
static void run(const Scen &, Verdict &);
static void init() { for (int v : g_loaded) for (int c = 0; c < 2; c++) image_init_native(g_img[v][c]); tool_load(); Scen none; Verdict v; banner.clear(); run(none, v); size_t k = W.out.find("# ./test"); if (k != std::string::npos && k) banner = W.out.substr(0, k); }
static void run(const Scen &sc, Verdict &v) {
  W = ToolWorld(); int mode = 0; i64 rb = 0, wb = 0;
  for (auto &l : sc) {
    if (l.op == "tool") { mode = (int)((u64)l.arg(0) % NMODE); rb = l.arg(1); wb = l.arg(2); }
    else if (l.op == "l") { std::string s((size_t)std::min<u64>((u64)l.arg(0), 4 << 20), 0); fill((u8 *)&s[0], s.size(), (int)l.arg(1), l.arg(2)); for (char &c : s) if (c == '\n') c = '\0'; W.in += s; if (l.arg(3)) W.in += '\n'; }
    else if (l.op == "r") W.r.push_back({(int)l.arg(0), l.arg(1)}); else if (l.op == "w") W.w.push_back({(int)l.arg(0), l.arg(1)}); else if (l.op == "a") W.fail_at.insert((u64)l.arg(0));
    else if (l.op == "rs") for (i64 i = 0; i < std::min<i64>(l.arg(1), 100000); i++) W.r.push_back({0, l.arg(0)}); // so many short reads
  }
  Image *im = g_img[g_loaded[0]][0]; typedef int (*main_t)(int, const char **); main_t tmain = (main_t)tool_sym("tool_main"); *(unsigned *)tool_sym("option_flags") = 0; *(unsigned *)tool_sym("disabled_option_flags") = 0;
  const char *argv[8] = {"./test"}; int argc = 1; for (auto a : modes[mode].args) if (a) argv[argc++] = a;
  FILE *si = stdin, *so = stdout, *se = stderr; cookie_io_functions_t ri = {rd, 0, 0, 0}, wi = {0, wr, 0, 0}, ei = {0, wr_err, 0, 0};
  FILE *fi = fopencookie(0, "r", ri), *fo = fopencookie(0, "w", wi), *fe = fopencookie(0, "w", ei); static char *bi = new char[1 << 17], *bo = new char[1 << 17]; setvbuf(fe, 0, _IONBF, 0);
  if (rb) setvbuf(fi, rb == 1 ? 0 : bi, rb == 1 ? _IONBF : _IOFBF, (size_t)std::min<i64>(rb, 1 << 17)); if (wb) setvbuf(fo, wb == 1 ? 0 : bo, wb == 1 ? _IONBF : _IOFBF, (size_t)std::min<i64>(wb, 1 << 17));
  volatile int rc = -1; volatile bool stuckf = false, crashed = false; std::string why; NativeGuard g;
  stdin = fi; stdout = fo; stderr = fe;
  if (!setjmp(stuck)) {
    bool ok = g.run([&] { g_th.alloc_fails = alloc_fails; rc = tmain(argc, argv); g_th.alloc_fails = 0; W.leaving = true; fflush(stdout); }); // exit() flushes and ignores the outcome
    if (!ok) crashed = true;
  } else stuckf = true;
  g_th.alloc_fails = 0; stdin = si; stdout = so; stderr = se; S.calls++;
  if (crashed) { v.fail("crash", strf("the tool crashed (%s) after %zu of %zu bytes of input", g_nwhy.c_str(), W.pos, W.in.size())); return; }
  if (stuckf) { v.fail("hang", strf("the tool does not terminate (read %zu of %zu bytes)", W.pos, W.in.size())); return; }
  { std::string keep = W.out; fclose(fi); fclose(fo); fclose(fe); W.out = keep; }
  static const std::vector<size_t> none; std::string want = digests(W.in, none, mode, im);
  if (W.wfail) { // the comment lines before the digests are not part of the property: what a write error left of them is put right, unless it holds anything foreign
    std::string head = want.substr(0, want.find("()\n", want.find("# ./test")) + 3), body = want.substr(head.size()); size_t k = 0, h = 0; // [0, k): a subsequence of the comment lines
    for (size_t n = std::min(W.out.size(), body.size());; n--) { k = W.out.size() - n; if (!body.compare(0, n, W.out, k, n)) break; if (!n) break; }
    size_t m = 0; while (m < k && h < head.size()) { if (W.out[m] == head[h]) m++; h++; } if (m == k) W.out = head + W.out.substr(k); } bool faulty = W.rfail || W.wfail || W.afail; v.ev(rc); for (char c : W.out) v.ev((u8)c);
  if (rc == 0 && W.out != want) {
    if (W.wfail_leaving && want.compare(0, W.out.size(), W.out) == 0) v.fail("lost-at-exit", strf("exit status 0, but the output ends after %zu of %zu bytes: the write error met by the final flush goes unnoticed", W.out.size(), want.size()));
    else if (!W.errpos.empty() && (W.out == digests(W.in, W.errpos, mode, im) || (W.wfail_leaving && digests(W.in, W.errpos, mode, im).compare(0, W.out.size(), W.out) == 0))) v.fail("split-by-read-error", strf("exit status 0, but a read error within a line (after %zu bytes of input) split that line into two digests", W.errpos[0]));
    else { size_t k = 0; while (k < W.out.size() && k < want.size() && W.out[k] == want[k]) k++; v.fail("output", strf("exit status 0, but the output differs from the digests of the input at byte %zu (%zu bytes, %zu expected): '%s'", k, W.out.size(), want.size(), W.out.substr(k, 40).c_str())); }
  } else if (rc != 0 && !faulty) v.fail("refused", strf("exit status %d although nothing failed", rc));
  if (rc == 0 && !v.bad) S.probe("success with exact output"); else if (rc) S.probe("failure reported");
  v.nontrivial = !W.in.empty();
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"tool", {(i64)r.below(NMODE), r.chance(1, 3) ? 0 : (i64)r.pick<int>({1, 2, 3, 16, 64, 100, 1024, 4096, 4096, 65536}), r.chance(1, 3) ? 0 : (i64)r.pick<int>({1, 2, 17, 40, 64, 1024, 4096, 4096, 65536})}});
  int n = r.chance(1, 10) ? 0 : r.chance(1, 6) ? 20 + (int)r.below(500) : 1 + (int)r.below(12); u64 total = 0; bool longl = r.chance(1, 8);
  for (int i = 0; i < n; i++) { i64 s; int k = gen_fill(r, s); u64 len = r.chance(1, 6) ? 0 : longl && r.chance(1, 4) ? r.below(300000) : gen_len(r, r.chance(1, 5) ? 9000 : 200); if (r.chance(1, 12)) len = 2040 + r.below(20); total += len + 1; sc.push_back({"l", {(i64)len, k, s, i + 1 < n || !r.chance(1, 3)}}); }
  static const int re[] = {EINTR, EAGAIN, EIO, EISDIR, EBADF}, we[] = {EINTR, EAGAIN, EIO, ENOSPC, EPIPE};
  if (r.chance(1, 4)) sc.push_back({"rs", {1 + (i64)r.below(r.chance(1, 2) ? 8 : 5000), 1 + (i64)r.below(400)}}); // only short reads
  if (r.chance(3, 4)) for (int i = 0, m = (int)r.below(10); i < m; i++) { bool e = r.chance(1, 6); sc.push_back({"r", {e ? (r.chance(1, 4) ? 2 : 1) : 0, e ? re[r.below(5)] : r.chance(1, 2) ? 1 + (i64)r.below(30) : 1 + (i64)r.below(total + 10)}}); }
  if (r.chance(1, 2)) for (int i = 0, m = (int)r.below(10); i < m; i++) { bool e = r.chance(1, 8); sc.push_back({"w", {e ? (r.chance(1, 2) ? 2 : 1) : 0, e ? we[r.below(5)] : 1 + (i64)r.below(60)}}); }
  if (r.chance(1, 6)) sc.push_back({"a", {(i64)r.below(r.chance(1, 2) ? 4 : 12)}});
}
static PropReg reg("C12", gen, run, init, "One run = one execution of the tool's main() in --hash-stdin-strings mode on generated lines, with short reads and writes, read and write errors (once or lasting), full disks, broken pipes and allocation failures chosen by the PRNG; standard streams, allocation and process exit are simulated. Non-trivial: the input is not empty; distinct: different hash of exit status and output.");
