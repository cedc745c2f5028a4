// Deterministic utilities: PRNG, event log hash, scenario (replay file) format.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef uintptr_t uptr;

[[noreturn]] void die(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

static inline u64 mix(u64 z) { // splitmix64 finaliser
  z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
struct Rng { // the only source of randomness
  u64 s;
  explicit Rng(u64 seed = 0) : s(mix(seed)) {}
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); } // inclusive
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// One line of a scenario: an operation name and integer arguments. A run is a pure function of its
// lines (and the code under test); the replay file is the lines as text.
struct Line {
  std::string op; std::vector<i64> a;
  Line() {}
  Line(const char *o, std::initializer_list<i64> l) : op(o), a(l) {}
  i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
typedef std::vector<Line> Scen;
std::string scen_text(const Scen &);
bool scen_parse(const std::string &text, Scen &out);

struct Stats { // merged by the orchestrator
  u64 runs = 0, nontrivial = 0, steps = 0, calls = 0, switches = 0;
  std::map<std::string, u64> faults, probes;
  std::set<u64> shapes; // distinct schedule/fault-sequence shapes
  void fault(const char *k, u64 n = 1) { faults[k] += n; }
  void probe(const char *k, u64 n = 1) { probes[k] += n; }
};
extern Stats S; extern std::set<std::string> g_known_cls; // classes of violation listed as known findings: counted, not reported

struct Verdict {
  bool bad = false; std::string cls, msg; // cls: violation class kept constant while minimising
  u64 log = 0xcbf29ce484222325ull;        // hash of the event log of the run
  Scen extra;                             // decisions recorded during the run (explicit schedule)
  std::string trace;                      // human-readable event trace (only when wanted)
  bool want_trace = false;
  bool nontrivial = true;
  void ev(u64 x) { log = mix(log ^ x); }
  void fail(const std::string &c, const std::string &m) { if (g_known_cls.count(c)) { S.probe(("known finding: " + c).c_str()); ev(mix(c.size()) ^ 78); return; } if (!bad) { bad = true; cls = c; msg = m; } ev(mix(c.size()) ^ 77); }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

extern std::vector<u64> g_dict; // literals of the code under test (numbers), for value generation
