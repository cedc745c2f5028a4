// The simulated machine: runs library code one instruction at a time (trap flag) under a scheduler, with simulated
// threads, interrupts, abandonment, crashes, page faults, CPUID/XCR0 and illegal-instruction behaviour. Also guarded native runs.
#pragma once
#include "util.h"
#include "loader.h"
#include <ucontext.h>
#include <setjmp.h>

/* ---- native guarded execution: any fault in `fn` returns to the caller ---- */
struct NativeGuard {
  std::string why; int sig = 0; uptr addr = 0, ip = 0;
  template <class Fx> bool run(Fx fx) { return run_(std::function<void()>(fx)); }
  bool run_(const std::function<void()> &);
};
[[noreturn]] void native_raise(const char *why);
extern sigjmp_buf g_njb; extern volatile int g_narmed; // low-level form for tight loops: NATIVE_TRY
extern int g_nsig; extern uptr g_naddr, g_nip; extern std::string g_nwhy;
#define NATIVE_TRY (g_narmed = 1, sigsetjmp(g_njb, 0) == 0)
#define NATIVE_END (g_narmed = 0)
extern bool (*g_pager)(uptr addr, bool write); // serviced page faults (native and stepped)
extern bool (*g_insn_fault)(int sig, ucontext_t *uc);   // simulated instructions of natively running code (C13)
void watchdog_seconds(unsigned s);              // CPU-time limit for one native stretch
void tsc_trap(bool on); void tsc_reset(u64 seed);    // the time-stamp counter the library sees
void machine_setup();                           // install signal handlers

struct SimCpu {
  bool on = false; bool has_cpuid = true; // CPUID instruction present (EFLAGS.ID toggles)
  u32 max_leaf = 7; u32 ecx1 = 0, edx1 = 0, ebx7 = 0, ecx7 = 0, edx7 = 0; u32 above = 0; // `above`: what leaves beyond max_leaf return
  u64 xcr0 = 7;
  // convenience
  bool aes() const { return ecx1 >> 25 & 1; } bool osxsave() const { return ecx1 >> 27 & 1; } bool avx_bit() const { return ecx1 >> 28 & 1; }
  bool avx2_bit() const { return max_leaf >= 7 && (ebx7 >> 5 & 1); }
  bool ymm() const { return osxsave() && avx_bit() && (xcr0 & 6) == 6; } // AVX really usable
};
// class of the instruction at p, as feature needed; returns null if allowed on `c`, else the missing feature
const char *insn_unsupported(const u8 *p, const SimCpu &c, bool &is_cpuid, bool &is_xgetbv, bool &is_popf);

struct Regs { gregset_t g; std::vector<u8> fp; };
struct CallSpec {
  uptr fn = 0; int n = 0; u64 v[6]; bool w[6]; const char *name = "";
  CallSpec &p(uptr x) { v[n] = x; w[n++] = false; return *this; }
  CallSpec &q(u64 x) { v[n] = x; w[n++] = true; return *this; }
};
struct Frame { Regs saved; u64 callsteps, budget; uptr idbit; uptr m_dst, m_src; size_t m_n, m_i; int m_set; bool micro; };
struct Task {
  int id = 0; enum St { READY, DONE } st = READY;
  Regs regs; std::vector<Frame> fr; u64 steps = 0, callsteps = 0, budget = 0;
  bool need_call = true, burst = false; uptr stk_lo = 0, stk_hi = 0;
  uptr m_dst = 0, m_src = 0; size_t m_n = 0, m_i = 0; int m_set = -1; bool micro = false; // resumable memcpy/memset
  uptr blocked_on = 0; bool yielded = false;
  bool in_lib_call = false; uptr idbit = 0; // EFLAGS.ID is kept per thread and frame (sigreturn does not carry it)
  int level() const { return (int)fr.size(); }
};
struct Act { enum K { CONT, SWITCH, SIGNAL, ABANDON, KILL, STOP, BURST } k = CONT; int to = 0; };
struct World { // the scenario's side of the machine
  virtual ~World() {}
  virtual bool next_call(Task &, CallSpec &) = 0;                  // false: this level is finished
  virtual void call_done(Task &, u64 ret) = 0;
  virtual void call_abandoned(Task &) {}
  virtual Act on_step(Task &, uptr ip) { return Act(); }           // at an instruction boundary inside the library
  virtual int pick_next(std::vector<Task> &, int prev) = 0;        // a READY task id, or -1 to stop
  virtual void crashed(Task &, const std::string &why) = 0;        // task stopped for good
  virtual bool unblocked(Task &t) { return true; }
};
struct Machine {
  std::vector<Task> tasks; World *world = 0; SimCpu cpu; u64 steps = 0, max_steps = 50u * 1000 * 1000; bool stop = false; std::string why;
  Rng poison; bool poison_regs = true;
  // run until the world stops it or every task is DONE
  void run();
  Task &add_task();
  void reset(u64 poison_seed);
  u64 step_of(int task) const { return tasks[task].steps; }
};
extern Machine *g_m;
static inline void g_njb_reset() { g_narmed = 0; }
