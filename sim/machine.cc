#include "machine.h"
#include "os.h"
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <cpuid.h>

#ifdef __x86_64__
enum { IP = REG_RIP, SP = REG_RSP, FL = REG_EFL, AX = REG_RAX, DX = REG_RDX };
static const size_t FP_SW = 464, FX_OFF = 0;
#else
enum { IP = REG_EIP, SP = REG_ESP, FL = REG_EFL, AX = REG_EAX, DX = REG_EDX };
static const size_t FP_SW = 112 + 464, FX_OFF = 112;
#endif
Machine *g_m;
extern "C" char mach_gate_enter[], mach_gate_ret[];
asm(".text\n.p2align 6\n.globl mach_gate_enter\nmach_gate_enter: int3\n ret\n.p2align 6\n.globl mach_gate_ret\nmach_gate_ret: int3\n hlt\n.p2align 6\n");

/* ---------------- native guard ---------------- */
sigjmp_buf g_njb; volatile int g_narmed; int g_nsig; uptr g_naddr, g_nip; std::string g_nwhy; bool (*g_pager)(uptr, bool); bool (*g_insn_fault)(int, ucontext_t *);
void native_raise(const char *why) { if (g_narmed) { g_nwhy = why; g_nsig = SIGABRT; g_naddr = 0; g_nip = 0; siglongjmp(g_njb, 1); } die("native_raise outside guard: %s", why); }
bool NativeGuard::run_(const std::function<void()> &fx) {
  sigjmp_buf save; memcpy(&save, &g_njb, sizeof save); int old = g_narmed; volatile bool ok = true;
  g_nwhy.clear();
  if (sigsetjmp(g_njb, 0) == 0) { g_narmed = 1; fx(); }
  else { ok = false; sig = g_nsig; addr = g_naddr; ip = g_nip; why = g_nwhy; }
  g_narmed = old; memcpy(&g_njb, &save, sizeof save); return ok;
}
/* ---------------- the machine ---------------- */
static bool active; static ucontext_t *UC; static Task *loaded; static int cur = -1; static Regs main_regs; static std::vector<u8> fp_template; static size_t fp_size;
static sigjmp_buf hostjb; static volatile int host_access; static uptr host_fault_addr;

static size_t fpsize(ucontext_t *uc) {
  u8 *f = (u8 *)uc->uc_mcontext.fpregs; u32 m, s; memcpy(&m, f + FP_SW, 4); memcpy(&s, f + FP_SW + 4, 4);
  return m == 0x46505853u ? s : FX_OFF + 512;
}
static gregset_t &G(Task &t) { return loaded == &t ? UC->uc_mcontext.gregs : t.regs.g; }
static void load_task(Task &t) {
  if (loaded == &t) return;
  if (loaded) { memcpy(&loaded->regs.g, &UC->uc_mcontext.gregs, sizeof(gregset_t)); memcpy(loaded->regs.fp.data(), UC->uc_mcontext.fpregs, fp_size); }
  // segment registers and the like stay as they are in the signal frame
  gregset_t keep; memcpy(&keep, &UC->uc_mcontext.gregs, sizeof keep); memcpy(&UC->uc_mcontext.gregs, &t.regs.g, sizeof(gregset_t));
  memcpy(UC->uc_mcontext.fpregs, t.regs.fp.data(), fp_size); loaded = &t; (void)keep;
}
static void exit_to_main() {
  if (loaded) { memcpy(&loaded->regs.g, &UC->uc_mcontext.gregs, sizeof(gregset_t)); memcpy(loaded->regs.fp.data(), UC->uc_mcontext.fpregs, fp_size); }
  loaded = 0; cur = -1; active = false;
  memcpy(&UC->uc_mcontext.gregs, &main_regs.g, sizeof(gregset_t)); memcpy(UC->uc_mcontext.fpregs, main_regs.fp.data(), fp_size);
}
static u8 *fp_of(Task &t) { return loaded == &t ? (u8 *)UC->uc_mcontext.fpregs : t.regs.fp.data(); }

static void setup_call(Machine &M, Task &t, const CallSpec &cs) {
  gregset_t &g = G(t); bool nested = t.level() > 0; uptr sp;
  u8 *fp = fp_of(t);
  if (!nested) {
    memcpy(&g, &main_regs.g, sizeof(gregset_t)); sp = t.stk_hi - 256 - M.poison.below(16) * 64; g[FL] = 0x202;
    u8 *lo = (u8 *)sp - 1024; u64 x = M.poison.next(); for (u8 *p = lo; p < (u8 *)sp; p += 8) { x = x * 6364136223846793005ull + 1; memcpy(p, &x, 8); }
  } else { sp = (uptr)g[SP] - 128 - 256; g[FL] &= ~0x400; } // below the red zone of the interrupted code
  memcpy(fp, fp_template.data(), fp_size);
  if (M.poison_regs) { // the caller's registers hold arbitrary values
    u64 r = M.poison.next();
#ifdef __x86_64__
    for (int k : {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}) { g[k] = (greg_t)r; r = mix(r); }
#else
    for (int k : {REG_EAX, REG_EBX, REG_ECX, REG_EDX, REG_ESI, REG_EDI, REG_EBP}) { g[k] = (greg_t)r; r = mix(r); }
#endif
    u32 m; memcpy(&m, fp + FP_SW, 4);
    if (m == 0x46505853u) {
      u64 bv; memcpy(&bv, fp + FX_OFF + 512, 8); u64 feat; memcpy(&feat, fp + FP_SW + 8, 8);
      bv |= 2; int nx = BITS64 ? 16 : 8;
      for (int i = 0; i < nx; i++) { u64 q[2] = {r, mix(r)}; memcpy(fp + FX_OFF + 160 + 16 * i, q, 16); r = mix(r + 1); }
      if (feat & 4) { bv |= 4; for (int i = 0; i < nx; i++) { u64 q[2] = {r, mix(r)}; memcpy(fp + FX_OFF + 576 + 16 * i, q, 16); r = mix(r + 1); } }
      memcpy(fp + FX_OFF + 512, &bv, 8);
      u32 mx = 0x1f80; memcpy(fp + FX_OFF + 24, &mx, 4);
    }
  }
#ifdef __x86_64__
  static const int ar[6] = {REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9};
  for (int i = 0; i < cs.n; i++) g[ar[i]] = (greg_t)cs.v[i];
  sp &= ~(uptr)15; sp -= 8; *(uptr *)sp = (uptr)mach_gate_ret;
#else
  u32 st[16]; int n = 0; for (int i = 0; i < cs.n; i++) { st[n++] = (u32)cs.v[i]; if (cs.w[i]) st[n++] = (u32)(cs.v[i] >> 32); }
  sp -= 4 * n; sp &= ~(uptr)15; memcpy((void *)sp, st, 4 * n); sp -= 4; *(uptr *)sp = (uptr)mach_gate_ret;
#endif
  g[SP] = (greg_t)sp; g[IP] = (greg_t)cs.fn; t.callsteps = 0; t.burst = false; t.micro = false; t.blocked_on = 0;
}
static bool host_copy(void *d, const void *s, size_t n) {
  host_access = 1; if (sigsetjmp(hostjb, 0)) { host_access = 0; return false; }
  memcpy(d, s, n); asm volatile("" ::: "memory"); host_access = 0; return true;
}
// Call an imported service on behalf of the task. 0: done, 1: blocked, 2: crashed
static int emulate_import(Machine &M, Task &t, std::string &why) {
  gregset_t &g = G(t); uptr ip = (uptr)g[IP]; ImportKind k = import_kind(ip); uptr sp = (uptr)g[SP];
  uptr a[6] = {0};
#ifdef __x86_64__
  a[0] = g[REG_RDI]; a[1] = g[REG_RSI]; a[2] = g[REG_RDX]; a[3] = g[REG_RCX]; a[4] = g[REG_R8]; a[5] = g[REG_R9];
  uptr rsp_step = 8;
#else
  for (int i = 0; i < 6; i++) a[i] = ((uptr *)(sp + 4))[i];
  uptr rsp_step = 4;
#endif
  auto ret = [&](u64 v) { g[IP] = (greg_t) * (uptr *)sp; g[SP] = (greg_t)(sp + rsp_step); g[AX] = (greg_t)v; if (!BITS64) g[DX] = (greg_t)(v >> 32); };
  int saved = g_tls_task; g_tls_task = t.id + 1; int rc = 0;
  switch (k) {
  case IK_MEMCPY: case IK_MEMSET:
    if (!t.micro) { t.micro = true; t.m_dst = a[0]; t.m_src = a[1]; t.m_n = a[2]; t.m_i = 0; t.m_set = k == IK_MEMSET ? (int)(a[1] & 255) : -1;
      if (!t.m_n) { t.micro = false; ret(a[0]); break; } }
    { size_t c = std::min<size_t>(t.m_n - t.m_i, t.m_n > 64 ? 64 : 8); size_t at = t.m_i;
      bool back = k == IK_MEMCPY && t.m_dst > t.m_src && t.m_dst < t.m_src + t.m_n; if (back) at = t.m_n - t.m_i - c;
      u8 tmp[64]; bool ok;
      if (t.m_set >= 0) { memset(tmp, t.m_set, c); ok = true; } else ok = host_copy(tmp, (void *)(t.m_src + at), c);
      if (ok) ok = host_copy((void *)(t.m_dst + at), tmp, c);
      if (!ok) { why = strf("%s faulted at %s", import_name(ip), host_fault_addr ? "an inaccessible address" : "null"); rc = 2; break; }
      t.m_i += c; if (t.m_i >= t.m_n) { t.micro = false; ret(a[0]); } }
    break;
  case IK_MUTEX_LOCK: { int &o = g_mutex[a[0]]; if (o) { t.blocked_on = a[0]; rc = 1; } else { o = t.id + 1; t.blocked_on = 0; ret(0); } break; }
  case IK_MUTEX_TRY: { int &o = g_mutex[a[0]]; if (o) ret(16); else { o = t.id + 1; ret(0); } break; }
  case IK_MUTEX_UNLOCK: g_mutex[a[0]] = 0; ret(0); break;
  case IK_YIELD: ret(0); t.yielded = true; break;
  case IK_ABORT: why = strf("library called %s", import_name(ip)); rc = 2; break;
  case IK_HEAP: { // the C library's heap and streams: not reentrant, under a lock of their own
    int &o = g_mutex[1]; if (!t.micro) { if (o) { t.blocked_on = 1; rc = 1; } else { o = t.id + 1; t.blocked_on = 0; t.micro = true; t.m_n = 4; t.m_i = 0; } break; }
    if (t.m_i++ < t.m_n) break; t.micro = false; g_mutex[1] = 0; }
    // fall through
  default: {
    host_access = 1; if (sigsetjmp(hostjb, 0)) { host_access = 0; why = strf("%s faulted", import_name(ip)); rc = 2; break; }
    u64 r = ((u64(*)(uptr, uptr, uptr, uptr, uptr, uptr))ip)(a[0], a[1], a[2], a[3], a[4], a[5]);
    host_access = 0; ret(r); break; }
  case IK_TLS: ret((u64)(uptr)sim_tls((TlsIndex *)g[AX])); break;
  }
  g_tls_task = saved; return rc;
}
static bool in_exec(uptr ip) { Image *im = image_of(ip); return im && (im->in_text(ip) || (ip >= im->tramp && ip < im->tramp + PG)); }

// the time-stamp counter and random numbers of the CPU are simulated as well (the counter sometimes jumps: a pre-emption, a migration, a power state)
static u64 tsc_now, tsc_rng; bool g_tsc_trap;
void tsc_reset(u64 seed) { tsc_rng = mix(seed ^ 0x7473); tsc_now = tsc_rng >> 20; }
static u64 tsc_read() { u64 x = tsc_rng = mix(tsc_rng); S.fault("time-stamp counter read"); return tsc_now += 24 + x % 40 + (x >> 32 & 7 ? 0 : x >> 40 & 0xfffff); }
static int tsc_insn(const u8 *p, bool &aux) { aux = false; if (p[0] == 0x0f && p[1] == 0x31) return 2; if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) { aux = true; return 3; } return 0; }
static int rnd_insn(const u8 *p, int &reg, int &size) { // rdrand, rdseed r
  size = 4; int n = 0, rex = 0; if (p[n] == 0x66) { size = 2; n++; } if (BITS64 && (p[n] & 0xf0) == 0x40) { rex = p[n++]; if (rex & 8) size = 8; }
  if (p[n] != 0x0f || p[n + 1] != 0xc7 || (p[n + 2] & 0xf0) != 0xf0) return 0; reg = (p[n + 2] & 7) | (rex & 1) << 3; return n + 3;
}
static bool sim_counters(greg_t *g, const u8 *p) {
  bool aux; int len = tsc_insn(p, aux), reg, size;
  if (len) { u64 v = tsc_read(); g[AX] = (greg_t)(u32)v; g[DX] = (greg_t)(u32)(v >> 32); 
#ifdef __x86_64__
    if (aux) g[REG_RCX] = tsc_rng & 7;
#else
    if (aux) g[REG_ECX] = tsc_rng & 7;
#endif
  } else if ((len = rnd_insn(p, reg, size))) {
#ifdef __x86_64__
    static const int R[] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
#else
    static const int R[] = {REG_EAX, REG_ECX, REG_EDX, REG_EBX, REG_ESP, REG_EBP, REG_ESI, REG_EDI};
#endif
    u64 v = tsc_rng = mix(tsc_rng); greg_t &r = g[R[reg]]; r = size == 8 ? (greg_t)v : size == 4 ? (greg_t)(u32)v : (greg_t)(((uptr)r & ~(uptr)0xffff) | (v & 0xffff)); g[FL] = (g[FL] & ~(greg_t)0x8d5) | 1;
  } else return false;
  g[IP] = (greg_t)((uptr)p + len); return true;
}
static void dispatch() { // decide what the CPU does next; returns with UC set up
  Machine &M = *g_m; bool again = false; // again: do not offer the same boundary to the scheduler twice
  for (;;) {
    if (M.stop || M.steps > M.max_steps) { if (!M.stop) { M.stop = true; M.why = "step limit of the run reached"; } exit_to_main(); return; }
    if (cur < 0) {
      int n = M.world->pick_next(M.tasks, -1);
      if (n < 0) { exit_to_main(); return; }
      cur = n; again = false;
    }
    Task &t = M.tasks[cur];
    if (t.need_call) {
      CallSpec cs;
      if (!M.world->next_call(t, cs)) {
        if (M.stop) continue;
        if (t.level() == 0) { t.st = Task::DONE; cur = -1; continue; }
        Frame &f = t.fr.back(); memcpy(&G(t), &f.saved.g, sizeof(gregset_t)); memcpy(fp_of(t), f.saved.fp.data(), fp_size);
        t.callsteps = f.callsteps; t.budget = f.budget; t.idbit = f.idbit; t.m_dst = f.m_dst; t.m_src = f.m_src; t.m_n = f.m_n; t.m_i = f.m_i; t.m_set = f.m_set; t.micro = f.micro; t.fr.pop_back(); t.need_call = false; again = false; continue;
      }
      if (M.stop) continue;
      if (t.regs.fp.size() != fp_size) t.regs.fp.assign(fp_template.begin(), fp_template.end());
      setup_call(M, t, cs); t.need_call = false; t.in_lib_call = true; S.calls++;
    }
    gregset_t &g = G(t); uptr ip = (uptr)g[IP];
    if (ip == (uptr)mach_gate_ret) {
      u64 r = (u64)(uptr)g[AX]; if (!BITS64) r = (u32)r | (u64)(u32)g[DX] << 32;
      t.need_call = true; t.in_lib_call = false; t.burst = false; M.world->call_done(t, r); again = false; continue;
    }
    if (t.budget && t.callsteps > t.budget) { M.world->crashed(t, strf("no progress: call still running after %llu instructions", (unsigned long long)t.callsteps)); if (!M.stop) { t.st = Task::DONE; cur = -1; } continue; }
    bool imp = !in_exec(ip);
    if (imp && !is_import(ip)) { M.world->crashed(t, strf("library jumped to a foreign address%s", ip < 65536 ? " (null pointer call)" : "")); if (!M.stop) { t.st = Task::DONE; cur = -1; } continue; }
    if (!again && !t.burst) {
      Act a = M.world->on_step(t, ip);
      if (a.k != Act::CONT) again = true;
      if (a.k == Act::STOP) { M.stop = true; continue; }
      if (a.k == Act::SWITCH && a.to != cur) { S.switches++; cur = a.to; again = true; continue; }
      if (a.k == Act::SIGNAL) {
        if ((uptr)g[SP] - t.stk_lo < 16384) continue; // no room for another handler frame
        t.fr.emplace_back(); Frame &f = t.fr.back(); memcpy(&f.saved.g, &g, sizeof(gregset_t)); f.saved.fp.assign(fp_of(t), fp_of(t) + fp_size); f.callsteps = t.callsteps; f.budget = t.budget; f.idbit = t.idbit;
        f.m_dst = t.m_dst; f.m_src = t.m_src; f.m_n = t.m_n; f.m_i = t.m_i; f.m_set = t.m_set; f.micro = t.micro; t.micro = false; // an interrupted copy resumes where it was
        t.need_call = true; continue;
      }
      if (a.k == Act::ABANDON) { M.world->call_abandoned(t); t.fr.clear(); t.micro = false; t.blocked_on = 0; t.need_call = true; t.in_lib_call = false; continue; }
      if (a.k == Act::KILL) { M.world->call_abandoned(t); t.fr.clear(); t.st = Task::DONE; cur = -1; continue; }
      if (a.k == Act::BURST) t.burst = true;
    }
    again = false;
    if (imp) {
      std::string why; int rc = emulate_import(M, t, why); t.steps++; t.callsteps++; M.steps++; S.steps++;
      if (rc == 2) { M.world->crashed(t, why); if (!M.stop) { t.st = Task::DONE; cur = -1; } }
      else if (rc == 1 || t.yielded) { // must let somebody else run
        bool blocked = rc == 1; t.yielded = false; int n = M.world->pick_next(M.tasks, cur);
        if (n < 0 || n == cur) { if (blocked) { M.world->crashed(t, "deadlock: lock is never released"); if (!M.stop) { t.st = Task::DONE; cur = -1; } } }
        else cur = n;
      }
      continue;
    }
    if (M.cpu.on) {
      bool c, x, pf; const char *need = insn_unsupported((u8 *)ip, M.cpu, c, x, pf);
      if (need) { M.world->crashed(t, strf("illegal instruction on this machine: needs %s", need)); if (!M.stop) { t.st = Task::DONE; cur = -1; } continue; }
      if (c || x) {
        u8 *p = (u8 *)ip; int len = 0; while (!(p[len] == 0x0f && (p[len + 1] == 0xa2 || p[len + 1] == 0x01))) len++; len += c ? 2 : 3;
        u32 A = 0, B = 0, C = 0, D = 0;
#ifdef __x86_64__
        u32 leaf = (u32)g[REG_RAX], sub = (u32)g[REG_RCX];
#else
        u32 leaf = (u32)g[REG_EAX], sub = (u32)g[REG_ECX];
#endif
        if (c) {
          S.probe("cpuid executed");
          if (leaf == 0) { A = M.cpu.max_leaf; B = 0x756e6547; D = 0x49656e69; C = 0x6c65746e; }
          else if (leaf == 1 && M.cpu.max_leaf >= 1) { A = 0x306a9; B = 0x10800; C = M.cpu.ecx1; D = M.cpu.edx1; }
          else if (leaf == 7 && M.cpu.max_leaf >= 7) { if (sub == 0) { A = 0; B = M.cpu.ebx7; C = M.cpu.ecx7; D = M.cpu.edx7; } else A = B = C = D = M.cpu.above; }
          else if (leaf == 0xd && M.cpu.max_leaf >= 0xd) { A = sub == 0 ? (u32)M.cpu.xcr0 : 0; B = C = 0x340; }
          else if (leaf >= 0x80000000u) { A = leaf == 0x80000000u ? 0x80000001u : 0; C = leaf == 0x80000001u ? 1 : 0; }
          else if (leaf > M.cpu.max_leaf) { A = B = C = D = M.cpu.above; } // out of range leaves return stale data
        } else { S.probe("xgetbv executed"); A = (u32)M.cpu.xcr0; D = (u32)(M.cpu.xcr0 >> 32); }
#ifdef __x86_64__
        g[REG_RAX] = A; g[REG_RDX] = D; if (c) { g[REG_RBX] = B; g[REG_RCX] = C; }
#else
        g[REG_EAX] = (int)A; g[REG_EDX] = (int)D; if (c) { g[REG_EBX] = (int)B; g[REG_ECX] = (int)C; }
#endif
        g[IP] = (greg_t)(ip + len); t.steps++; t.callsteps++; M.steps++; S.steps++; continue;
      }
      (void)pf;
    }
    { const u8 *c = (const u8 *)ip; bool i80 = c[0] == 0xcd && c[1] == 0x80; // the library enters the kernel by itself
      if ((i80 || (BITS64 && c[0] == 0x0f && c[1] == 0x05))) { g[AX] = (greg_t)os_syscall((u64)g[AX]);
#ifdef __x86_64__
        if (!i80) { g[REG_RCX] = (greg_t)(ip + 2); g[REG_R11] = g[FL] & ~0x100; }
#endif
        g[IP] = (greg_t)(ip + 2); t.steps++; t.callsteps++; M.steps++; S.steps++; continue; } }
    if (sim_counters(g, (const u8 *)ip)) { t.steps++; t.callsteps++; M.steps++; S.steps++; continue; }
    if (!t.burst && (*(u8 *)ip == 0x9c || *(u8 *)ip == 0x9d)) { // pushf / popf: hide the trap flag, keep EFLAGS.ID per thread
      uptr sp = (uptr)g[SP];
      if (*(u8 *)ip == 0x9c) { sp -= sizeof(uptr); *(uptr *)sp = (((uptr)g[FL] & ~(uptr)0x200100) | t.idbit); }
      else { uptr f = *(uptr *)sp; sp += sizeof(uptr); t.idbit = M.cpu.on && !M.cpu.has_cpuid ? 0 : f & 0x200000; const uptr ok = 0x40cd5; g[FL] = (greg_t)(((uptr)g[FL] & ~ok) | (f & ok)); }
      g[SP] = (greg_t)sp; g[IP] = (greg_t)(ip + 1); t.steps++; t.callsteps++; M.steps++; S.steps++; continue;
    }
    load_task(t);
    if (t.burst) UC->uc_mcontext.gregs[FL] &= ~0x100; else UC->uc_mcontext.gregs[FL] |= 0x100;
    return;
  }
}
static void on_signal(int sig, siginfo_t *si, void *ucv) {
  ucontext_t *uc = (ucontext_t *)ucv; uptr ip = (uptr)uc->uc_mcontext.gregs[IP]; int e = errno;
  if (g_insn_fault && g_insn_fault(sig, uc)) { errno = e; return; }
  if (sig == SIGSEGV && g_tsc_trap) { // natively running code reads the time-stamp counter
    bool aux; int len = tsc_insn((const u8 *)ip, aux);
    if (len && !(active && !g_m->tasks[cur].burst)) {
      if (in_exec(ip)) sim_counters(uc->uc_mcontext.gregs, (const u8 *)ip);
      else { u32 a, d, c = 0; prctl(PR_SET_TSC, PR_TSC_ENABLE, 0, 0, 0); if (aux) __asm__ __volatile__("rdtscp" : "=a"(a), "=d"(d), "=c"(c)); else __asm__ __volatile__("rdtsc" : "=a"(a), "=d"(d)); prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
        greg_t *g = uc->uc_mcontext.gregs; g[AX] = (greg_t)a; g[DX] = (greg_t)d; g[IP] = (greg_t)(ip + len);
#ifdef __x86_64__
        if (aux) g[REG_RCX] = c;
#else
        if (aux) g[REG_ECX] = c;
#endif
      }
      errno = e; return;
    }
  }
  if (sig != SIGTRAP && host_access) { // fault inside an imported service
    uptr a = (uptr)si->si_addr; if (g_pager && g_pager(a, false)) { errno = e; return; }
    host_fault_addr = a; siglongjmp(hostjb, 1);
  }
  if (sig == SIGTRAP && !active && ip == (uptr)mach_gate_enter + 1 && g_m) {
    UC = uc; active = true; loaded = 0; cur = -1; fp_size = fpsize(uc);
    memcpy(&main_regs.g, &uc->uc_mcontext.gregs, sizeof(gregset_t)); main_regs.fp.assign((u8 *)uc->uc_mcontext.fpregs, (u8 *)uc->uc_mcontext.fpregs + fp_size);
    fp_template = main_regs.fp; for (auto &t : g_m->tasks) t.regs.fp.assign(fp_template.begin(), fp_template.end());
    dispatch(); errno = e; return;
  }
  if (active) {
    UC = uc; Task &t = g_m->tasks[cur];
    if (sig == SIGTRAP) {
      if (ip == (uptr)mach_gate_ret + 1) uc->uc_mcontext.gregs[IP] = (greg_t)(uptr)mach_gate_ret; // end of a burst
      else if (t.burst) { g_m->world->crashed(t, "breakpoint executed"); if (!g_m->stop) { t.st = Task::DONE; cur = -1; } dispatch(); errno = e; return; }
      t.steps++; t.callsteps++; g_m->steps++; S.steps++;
      dispatch(); errno = e; return;
    }
    uptr a = (uptr)si->si_addr;
    if ((sig == SIGSEGV || sig == SIGBUS) && g_pager && g_pager(a, (uc->uc_mcontext.gregs[REG_ERR] & 2) != 0)) { errno = e; return; } // serviced; instruction restarts
    const char *kind = "fault"; if (sig == SIGSEGV) kind = (uc->uc_mcontext.gregs[REG_ERR] & 2) ? "wrote inaccessible memory" : (uc->uc_mcontext.gregs[REG_ERR] & 16) ? "executed inaccessible memory" : "read inaccessible memory";
    else if (sig == SIGILL) kind = "illegal instruction"; else if (sig == SIGFPE) kind = "arithmetic fault"; else if (sig == SIGBUS) kind = "bus error"; else if (sig == SIGVTALRM) kind = "no progress (watchdog)";
    g_m->world->crashed(t, kind); if (!g_m->stop) { t.st = Task::DONE; cur = -1; }
    dispatch(); errno = e; return;
  }
  if (g_narmed) {
    uptr a = (uptr)si->si_addr; bool w = sig == SIGSEGV && (uc->uc_mcontext.gregs[REG_ERR] & 2);
    if ((sig == SIGSEGV || sig == SIGBUS) && g_pager && g_pager(a, w)) { errno = e; return; }
    g_nsig = sig; g_naddr = a; g_nip = ip;
    g_nwhy = sig == SIGSEGV ? (w ? "wrote inaccessible memory" : "read inaccessible memory") : sig == SIGILL ? "illegal instruction" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic fault" : sig == SIGVTALRM ? "no progress (watchdog)" : strf("signal %d", sig);
    siglongjmp(g_njb, 1);
  }
  if (sig == SIGVTALRM) return;
  fprintf(stderr, "SIM-ERROR: unexpected signal %d at ip %#lx addr %#lx\n", sig, (unsigned long)ip, (unsigned long)(uptr)si->si_addr); _Exit(3);
}
void watchdog_seconds(unsigned s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &it, 0); }
void tsc_trap(bool on) { g_tsc_trap = on && !prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0); }
void machine_setup() {
  static u8 *alt; size_t n = 1 << 20; alt = (u8 *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = n; if (sigaltstack(&ss, 0)) die("sigaltstack");
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGTRAP, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGVTALRM}) sigaction(s, &sa, 0);
}
Task &Machine::add_task() {
  tasks.emplace_back(); Task &t = tasks.back(); t.id = (int)tasks.size() - 1; if (t.id >= MAX_TASK) die("too many tasks");
  static bool mapped[MAX_TASK]; t.stk_lo = STK_BASE + t.id * STK_STRIDE; t.stk_hi = t.stk_lo + STK_STRIDE - PG; 
  if (!mapped[t.id]) { if (mmap((void *)t.stk_lo, STK_STRIDE - PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)t.stk_lo) die("stack");
    mprotect((void *)t.stk_lo, PG, PROT_NONE); mapped[t.id] = true; }
  t.stk_lo += PG; return t;
}
void Machine::reset(u64 ps) { tasks.clear(); tasks.reserve(MAX_TASK); steps = 0; stop = false; why.clear(); poison = Rng(ps); cpu = SimCpu(); max_steps = 50u * 1000 * 1000; }
extern "C" void mach_gate_call();
void Machine::run() {
  Machine *old = g_m; g_m = this; ((void (*)())(void *)mach_gate_enter)(); g_m = old;
}
