// Worker: runs seeded simulations of one property, verifies, minimises and writes violations; replays files.
#include "tool.h"
#include "os.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; } // progress and budgets only, never a decision of a run
static Prop *P; static int host_rc;
static u64 idx_seed(u64 seed, u64 idx) { return mix(mix(seed) ^ mix(idx * 2 + 1)); }

static void run_one(const Scen &s, Verdict &v) {
  for (auto *im : g_images) im->reset_ready();
  u64 th = 0; if (!s.empty()) for (i64 x : s[0].a) th = mix(th ^ (u64)x); tsc_reset(th);
  sim_sync_reset(); os_reset(false, th, 0, 0); g_pager = 0; g_njb_reset(); g_nwhy.clear();
  P->run(s, v);
}
// Result of a run in a pristine forked process.
struct Out { bool died = false, timeout = false, bad = false; std::string cls, msg, trace; u64 log = 0; Scen extra; };
static void put(std::string &o, const std::string &s) { u32 n = s.size(); o.append((char *)&n, 4); o += s; }
static bool get(const std::string &in, size_t &p, std::string &s) { if (p + 4 > in.size()) return false; u32 n; memcpy(&n, &in[p], 4); p += 4; if (p + n > in.size()) return false; s = in.substr(p, n); p += n; return true; }
static Out forked(const Scen &s, bool trace, unsigned limit = 60) {
  int fd[2]; if (pipe(fd)) die("pipe"); fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) die("fork");
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); machine_setup();
    int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 2);
    Verdict v; v.want_trace = trace; run_one(s, v);
    std::string o; put(o, std::string(1, v.bad)); put(o, v.cls); put(o, v.msg); put(o, v.trace); put(o, std::string((char *)&v.log, 8)); put(o, scen_text(v.extra)); put(o, "END");
    size_t k = 0; while (k < o.size()) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; }
    _exit(0);
  }
  close(fd[1]); std::string in; char b[65536]; double t0 = now(); Out r;
  for (;;) {
    fd_set f; FD_ZERO(&f); FD_SET(fd[0], &f); double left = t0 + limit - now(); if (left <= 0) { kill(pid, SIGKILL); r.timeout = true; break; }
    struct timeval tv = {(time_t)left, (suseconds_t)((left - (long)left) * 1e6)}; int n = select(fd[0] + 1, &f, 0, 0, &tv);
    if (n < 0 && errno == EINTR) continue; if (n <= 0) continue;
    ssize_t k = read(fd[0], b, sizeof b); if (k <= 0) break; in.append(b, k);
  }
  close(fd[0]); int st; waitpid(pid, &st, 0); size_t p = 0; std::string x, end;
  if (r.timeout) { r.bad = true; r.cls = "hang"; r.msg = "the run did not finish"; return r; }
  std::string bad, logs, ex; bool ok = get(in, p, bad) && get(in, p, r.cls) && get(in, p, r.msg) && get(in, p, r.trace) && get(in, p, logs) && get(in, p, ex) && get(in, p, end) && end == "END";
  if (!ok) { // the child died: harness error (exit 3) or memory corrupted by the library
    r.died = true; r.bad = true; r.cls = "died"; r.msg = "the process died during the run (memory corruption or unrecoverable fault)"; 
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) host_rc = 3;
    return r; }
  r.bad = bad[0]; memcpy(&r.log, logs.data(), 8); scen_parse(ex, r.extra); return r;
}

static int g_cand; static double g_sh_end;
static bool same(const Scen &c, const std::string &cls, Out *keep = 0) { if (g_cand <= 0 || now() > g_sh_end) return false; g_cand--; Out o = forked(c, false, 30); bool r = o.bad && o.cls == cls; if (r && keep) *keep = o; return r; }
static Scen explicit_form(const Scen &s, const Scen &extra) { Scen r; for (auto &l : s) if (l.op != "pol") r.push_back(l); for (auto &l : extra) r.push_back(l); return r; }
static Scen shrink(Scen s, const std::string &cls, double secs) {
  g_cand = 4000; g_sh_end = now() + secs;
  for (int round = 0; round < 4; round++) {
    bool any = false;
    for (size_t ch = std::max<size_t>(s.size() / 2, 1); ch >= 1; ch /= 2) {
      for (size_t i = 0; i < s.size();) { Scen c(s.begin(), s.begin() + i); size_t e = std::min(s.size(), i + ch); c.insert(c.end(), s.begin() + e, s.end());
        if (c.size() < s.size() && same(c, cls)) { s = c; any = true; } else i += ch; }
      if (ch == 1) break;
    }
    for (size_t i = 0; i < s.size(); i++) for (size_t k = 0; k < s[i].a.size(); k++) {
      i64 v = s[i].a[k]; if (!v) continue;
      auto tryv = [&](i64 w) { if (w == s[i].a[k]) return false; Scen c = s; c[i].a[k] = w; if (same(c, cls)) { s = c; any = true; return true; } return false; };
      if (tryv(0)) continue;
      if (s[i].op == "v" || s[i].op == "img") continue;
      if (v > 1 && tryv(1)) continue;
      for (int g = 0; g < 40; g++) { i64 w = s[i].a[k]; if (w > 1 || w < -1) { if (tryv(w / 2)) continue; } if (w > 8 && tryv(w - w / 4)) continue; if (w > 1 && tryv(w - 1)) continue; break; }
    }
    if (!any) break;
  }
  return s;
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += strf("\\u%04x", c); else o += c; } return o + "\""; }
static std::string jmap(const std::map<std::string, u64> &m) { std::string o = "{"; for (auto &k : m) { if (o.size() > 1) o += ","; o += jstr(k.first) + ":" + std::to_string(k.second); } return o + "}"; }

struct Shared { volatile u64 idx; volatile u64 done; };
int main(int argc, char **argv) {
  std::map<std::string, std::string> opt; for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  auto num = [&](const char *k, u64 d) { return opt.count(k) ? strtoull(opt[k].c_str(), 0, 10) : d; };
  for (auto &p : g_props) if (opt["--prop"] == p.id) P = &p;
  if (!P) die("unknown property");
  if (opt.count("--dict")) { FILE *f = fopen(opt["--dict"].c_str(), "r"); unsigned long long x; while (f && fscanf(f, "%llu", &x) == 1) g_dict.push_back(x); if (f) fclose(f); }
  machine_setup(); host_detect(); bool trap = strcmp(P->id, "C12") && strcmp(P->id, "C13"); if (trap) tsc_trap(true); // inherited by the forked runs
  int slot = 0; std::string s = opt["--images"]; // letter=path,letter=path
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); std::string w = s.substr(i, e - i); i = e + 1; size_t q = w.find('='); std::string nm = w.substr(0, q), path = w.substr(q + 1);
    int v = -1; for (int k = 0; k < N_VAR; k++) if (nm == g_vnames[k]) v = k; if (v < 0) die("variant %s", nm.c_str());
    for (int c = 0; c < 2; c++) { g_img[v][c] = image_load(path.c_str(), nm.c_str(), slot++); if (opt["--init"] != "none" && P->init == 0) image_init_native(g_img[v][c]); }
    g_loaded.push_back(v);
  }
  g_tool_path = opt["--tool"]; for (size_t i = 0; i < opt["--known"].size();) { size_t e = opt["--known"].find(',', i); if (e == std::string::npos) e = opt["--known"].size(); g_known_cls.insert(opt["--known"].substr(i, e - i)); i = e + 1; }
  if (P->init) P->init();
  u64 seed = num("--seed", 1), start = num("--start", 0), stride = num("--stride", 1), count = num("--count", 100); double tlimit = num("--time", 1000000);
  if (opt.count("--replay")) {
    FILE *f = fopen(opt["--replay"].c_str(), "r"); if (!f) die("cannot open %s", opt["--replay"].c_str()); std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    Scen sc; scen_parse(t, sc); Scen body; for (auto &l : sc) if (l.op[0] != '#') body.push_back(l);
    Out o = forked(body, true, 120); printf("%s", o.trace.c_str());
    printf("replay: %s class=%s log=%016llx\n%s\n", o.bad ? "VIOLATED" : "held", o.cls.c_str(), (unsigned long long)o.log, o.msg.c_str());
    return host_rc ? host_rc : o.bad ? 1 : 0;
  }
  if (opt.count("--gen")) { Scen sc; u64 i = num("--gen", 0); Rng r(idx_seed(seed, i)); P->gen(r, i, sc); printf("%s", scen_text(sc).c_str()); return 0; }
  bool hashes = opt.count("--hashes");
  Shared *sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u64 i = start, done = 0; double t0 = now(); Out bad; Scen bad_s; u64 bad_i = 0; bool found = false; std::vector<std::string> samples; unsigned deaths = 0; u64 nonrepro = 0;
  Stats total;
  while (done < count && now() - t0 < tlimit && !found) {
    int fd[2]; if (pipe(fd)) die("pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) die("fork"); sh->idx = i; sh->done = 0;
    if (!pid) { // batch process
      prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); machine_setup(); S = Stats(); std::string o; u64 k = i, n = done; bool hit = false; 
      FILE *hf = hashes ? fopen(opt["--hashes"].c_str(), "a") : 0;
      for (; n < count && now() - t0 < tlimit && n - done < 4000; n++, k += stride) {
        sh->idx = k; Scen sc; Rng r(idx_seed(seed, k)); P->gen(r, k, sc); Verdict v; run_one(sc, v); S.runs++; sh->done = S.runs;
        if (v.nontrivial) { S.nontrivial++; S.shapes.insert(v.log); }
        if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)k, (unsigned long long)v.log);
        if (v.bad) { hit = true; put(o, "BAD"); put(o, std::to_string(k)); put(o, scen_text(sc)); put(o, scen_text(v.extra)); put(o, v.cls); break; }
      }
      if (hf) fclose(hf);
      if (!hit) put(o, "OK");
      std::string st; auto pm = [&](const std::map<std::string, u64> &m) { for (auto &x : m) { put(st, x.first); put(st, std::to_string(x.second)); } put(st, ""); };
      put(st, std::to_string(S.runs)); put(st, std::to_string(S.nontrivial)); put(st, std::to_string(S.steps)); put(st, std::to_string(S.calls)); put(st, std::to_string(S.switches)); pm(S.faults); pm(S.probes);
      std::string shp; for (u64 x : S.shapes) shp.append((char *)&x, 8); put(st, shp); o += st; put(o, "END");
      size_t q = 0; while (q < o.size()) { ssize_t w = write(fd[1], o.data() + q, o.size() - q); if (w <= 0) break; q += w; }
      _exit(0);
    }
    close(fd[1]); std::string in; char b[65536]; ssize_t n; double idle = now(); u64 last = 0; bool hung = false;
    for (;;) {
      fd_set f; FD_ZERO(&f); FD_SET(fd[0], &f); struct timeval tv = {1, 0}; int r = select(fd[0] + 1, &f, 0, 0, &tv);
      if (r < 0 && errno == EINTR) continue;
      if (r == 0) { if (sh->done != last) { last = sh->done; idle = now(); } if (now() - idle > 120) { kill(pid, SIGKILL); hung = true; break; } continue; }
      n = read(fd[0], b, sizeof b); if (n <= 0) break; in.append(b, n);
    }
    close(fd[0]); int st; waitpid(pid, &st, 0);
    size_t p = 0; std::string tag, w; bool ok = in.size() > 8 && in.substr(in.size() - 3) == "END" && get(in, p, tag);
    if (!ok) { // the batch died or hung during run sh->idx
      u64 k = sh->idx; deaths++; Scen sc; Rng r(idx_seed(seed, k)); P->gen(r, k, sc); fprintf(stderr, "run %llu: batch process %s; running it again alone\n", (unsigned long long)k, hung ? "hung" : "died");
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error in run %llu\n%s", (unsigned long long)k, scen_text(sc).c_str()); host_rc = 3; }
      Out o = forked(sc, false, 120);
      if (o.bad && !host_rc) { found = true; bad = o; bad_s = sc; bad_i = k; }
      u64 adv = (k - i) / stride + 1; done += adv; i = k + stride; total.runs += adv; if (host_rc || deaths > 20) break; continue;
    }
    if (tag == "BAD") {
      std::string ks, sct, ext, cls; get(in, p, ks); get(in, p, sct); get(in, p, ext); get(in, p, cls); u64 k = strtoull(ks.c_str(), 0, 10);
      Scen sc, ex; scen_parse(sct, sc); scen_parse(ext, ex);
      Out o = forked(sc, false, 120);
      if (o.bad) { found = true; bad = o; bad_s = sc; bad_i = k; } else { nonrepro++; fprintf(stderr, "run %llu: violation (%s) not seen again in a pristine process; ignored\n", (unsigned long long)k, cls.c_str()); if (nonrepro > 50) { host_rc = 3; } }
    }
    auto gi = [&] { get(in, p, w); return strtoull(w.c_str(), 0, 10); };
    u64 runs = gi(); total.runs += runs; total.nontrivial += gi(); total.steps += gi(); total.calls += gi(); total.switches += gi();
    auto gm = [&](std::map<std::string, u64> &m) { for (;;) { std::string k; if (!get(in, p, k) || k.empty()) break; m[k] += gi(); } };
    gm(total.faults); gm(total.probes); std::string shp; get(in, p, shp); for (size_t q = 0; q + 8 <= shp.size(); q += 8) { u64 x; memcpy(&x, &shp[q], 8); total.shapes.insert(x); }
    done += runs; i += runs * stride; if (host_rc) break; if (!runs) break;
  }
  double wall = now() - t0;
  for (u64 k = 0; k < 2; k++) { Scen sc; Rng r(idx_seed(seed, start + k * stride)); P->gen(r, start + k * stride, sc); samples.push_back(scen_text(sc)); }
  std::string viol;
  if (found) {
    Scen full = bad_s; std::string cls = bad.cls;
    Scen e = explicit_form(bad_s, bad.extra); Out oe = forked(e, false, 120); if (oe.bad && oe.cls == cls) full = e;
    Scen m = shrink(full, cls, num("--shrink", 60)); Out a = forked(m, true, 120), b2 = forked(m, true, 120);
    bool stable = a.bad && b2.bad && a.cls == cls && b2.cls == cls && a.log == b2.log;
    if (!stable) { m = full; a = forked(m, true, 120); b2 = forked(m, true, 120); stable = a.bad && b2.bad && a.log == b2.log; }
    if (opt.count("--viol")) {
      FILE *f = fopen(opt["--viol"].c_str(), "w"); if (!f) die("cannot write %s", opt["--viol"].c_str());
      fprintf(f, "# property %s seed %llu run %llu class %s\n# bits %d\n", P->id, (unsigned long long)seed, (unsigned long long)bad_i, cls.c_str(), BITS64 ? 64 : 32);
      std::string msg = a.bad ? a.msg : bad.msg; for (char &c : msg) if (c == '\n') c = ' '; fprintf(f, "# %s\n# stable %d, from %zu lines to %zu\n%s", msg.c_str(), stable, full.size(), m.size(), scen_text(m).c_str());
      std::string tr = a.trace; size_t q = 0; fprintf(f, "# ---- trace of the minimised run ----\n"); while (q < tr.size()) { size_t z = tr.find('\n', q); if (z == std::string::npos) z = tr.size(); fprintf(f, "# %s\n", tr.substr(q, z - q).c_str()); q = z + 1; }
      fclose(f);
    }
    viol = "{\"run\":" + std::to_string(bad_i) + ",\"class\":" + jstr(cls) + ",\"msg\":" + jstr(a.bad ? a.msg : bad.msg) + ",\"stable\":" + (stable ? "true" : "false") + "}";
  }
  if (opt.count("--out")) {
    FILE *f = fopen(opt["--out"].c_str(), "w"); if (!f) die("cannot write %s", opt["--out"].c_str());
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"steps\":%llu,\"calls\":%llu,\"switches\":%llu,\"wall\":%.3f,\"deaths\":%u,\"nonrepro\":%llu,\n\"faults\":%s,\n\"probes\":%s,\n\"rule\":%s,\"samples\":[%s,%s],\n\"violation\":%s}\n", (unsigned long long)total.runs, (unsigned long long)total.nontrivial, total.shapes.size(), (unsigned long long)total.steps,
            (unsigned long long)total.calls, (unsigned long long)total.switches, wall, deaths, (unsigned long long)nonrepro, jmap(total.faults).c_str(), jmap(total.probes).c_str(), jstr(P->rule).c_str(), jstr(samples[0]).c_str(), jstr(samples[1]).c_str(), viol.empty() ? "null" : viol.c_str());
    if (opt.count("--shapes")) { FILE *g = fopen(opt["--shapes"].c_str(), "w"); if (g) { for (u64 x : total.shapes) fwrite(&x, 8, 1, g); fclose(g); } }
    fclose(f);
  }
  if (found) printf("violation %s: %s\n", bad.cls.c_str(), bad.msg.c_str());
  printf("%s %d-bit: %llu runs, %zu distinct, %llu steps, %.1f s%s\n", P->id, BITS64 ? 64 : 32, (unsigned long long)total.runs, total.shapes.size(), (unsigned long long)total.steps, wall, found ? " VIOLATED" : "");
  return host_rc ? host_rc : found ? 1 : 0;
}
