#include "util.h"
#include <stdarg.h>
Stats S; std::set<std::string> g_known_cls; std::vector<u64> g_dict;
void die(const char *fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "SIM-ERROR: "); vfprintf(stderr, fmt, a); fputc('\n', stderr); va_end(a); fflush(stderr); _Exit(3); }
std::string strf(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
void Verdict::note(const char *fmt, ...) { if (!want_trace) return; char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); trace += b; trace += '\n'; }
std::string scen_text(const Scen &s) {
  std::string o; for (auto &l : s) { o += l.op; for (i64 x : l.a) { o += ' '; o += std::to_string((long long)x); } o += '\n'; } return o;
}
bool scen_parse(const std::string &t, Scen &out) {
  out.clear(); size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
    std::string ln = t.substr(i, e - i); i = e + 1;
    if (ln.empty() || ln[0] == '#') continue;
    Line l; size_t p = 0; bool first = true;
    while (p < ln.size()) { size_t q = ln.find(' ', p); if (q == std::string::npos) q = ln.size();
      std::string w = ln.substr(p, q - p); p = q + 1; if (w.empty()) continue;
      if (first) { l.op = w; first = false; } else l.a.push_back((i64)strtoll(w.c_str(), 0, 10)); }
    if (!first) out.push_back(l);
  }
  return true;
}
