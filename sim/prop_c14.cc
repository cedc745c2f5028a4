// C14: callers with adverse processor state, poisoned registers and stack, and little stack left.
#include "streams.h"
#include <sys/mman.h>
typedef uint16_t u16;
extern "C" { u64 *envp; void env_enter(); u8 env_xmm[16 * 32], env_ymm_out[16 * 32]; u32 env_avx; }
// E[0] stack pointer, [1] function, [2..7] arguments, [8..13] callee-saved in, [14] mxcsr, [15] x87 control word, [16] flags, [17] fill upper halves
// [18..23] callee-saved out, [24] stack pointer out, [25] result, [26] high half (32-bit code), [27] flags out, [28] mxcsr out, [29..32] x87 environment, [33] host stack pointer, [34] host mxcsr, [35] host cw, [36] caller-saved garbage
#ifdef __x86_64__
asm(R"(
.text
.globl env_enter
env_enter:
  push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15
  mov envp, %r11
  mov %rsp, 33*8(%r11)
  stmxcsr 34*8(%r11)
  fnstcw 35*8(%r11)
  cmpl $0, env_avx
  je 1f
  vzeroall
  mov $env_xmm, %eax
)"
#define LD(i) "vmovups 32*" #i "(%rax), %xmm" #i "\n"
LD(0) LD(1) LD(2) LD(3) LD(4) LD(5) LD(6) LD(7) LD(8) LD(9) LD(10) LD(11) LD(12) LD(13) LD(14) LD(15)
R"(
  cmpl $0, 17*8(%r11)
  je 2f
)"
#define LY(i) "vmovups 32*" #i "(%rax), %ymm" #i "\n"
LY(0) LY(1) LY(2) LY(3) LY(4) LY(5) LY(6) LY(7) LY(8) LY(9) LY(10) LY(11) LY(12) LY(13) LY(14) LY(15)
R"(
  jmp 2f
1: mov $env_xmm, %eax
)"
#define LX(i) "movups 32*" #i "(%rax), %xmm" #i "\n"
LX(0) LX(1) LX(2) LX(3) LX(4) LX(5) LX(6) LX(7) LX(8) LX(9) LX(10) LX(11) LX(12) LX(13) LX(14) LX(15)
R"(
2: fninit
  fldcw 15*8(%r11)
  ldmxcsr 14*8(%r11)
  mov 8*8(%r11), %rbx
  mov 9*8(%r11), %rbp
  mov 10*8(%r11), %r12
  mov 11*8(%r11), %r13
  mov 12*8(%r11), %r14
  mov 13*8(%r11), %r15
  mov 2*8(%r11), %rdi
  mov 3*8(%r11), %rsi
  mov 4*8(%r11), %rdx
  mov 5*8(%r11), %rcx
  mov 6*8(%r11), %r8
  mov 7*8(%r11), %r9
  mov 0(%r11), %rsp
  mov 36*8(%r11), %r10
  mov %r10, %rax
  pushq 16*8(%r11)
  popfq
  mov 8(%r11), %r11
  call *%r11
  mov envp, %r11
  mov %rsp, 24*8(%r11)
  mov 33*8(%r11), %rsp
  pushfq
  popq 27*8(%r11)
  cld
  mov %rbx, 18*8(%r11)
  mov %rbp, 19*8(%r11)
  mov %r12, 20*8(%r11)
  mov %r13, 21*8(%r11)
  mov %r14, 22*8(%r11)
  mov %r15, 23*8(%r11)
  mov %rax, 25*8(%r11)
  stmxcsr 28*8(%r11)
  fnstenv 29*8(%r11)
  cmpl $0, env_avx
  je 3f
  mov $env_ymm_out, %eax
)"
#define SY(i) "vmovups %ymm" #i ", 32*" #i "(%rax)\n"
SY(0) SY(1) SY(2) SY(3) SY(4) SY(5) SY(6) SY(7) SY(8) SY(9) SY(10) SY(11) SY(12) SY(13) SY(14) SY(15)
R"(
  vzeroall
3: fninit
  fldcw 35*8(%r11)
  ldmxcsr 34*8(%r11)
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx
  ret
)");
static const int NVR = 16, NCS = 6;
#else
asm(R"(
.text
.globl env_enter
env_enter:
  push %ebx; push %ebp; push %esi; push %edi
  mov envp, %ecx
  mov %esp, 33*8(%ecx)
  stmxcsr 34*8(%ecx)
  fnstcw 35*8(%ecx)
  mov $env_xmm, %eax
  cmpl $0, env_avx
  je 1f
  vzeroall
)"
#define LD(i) "vmovups 32*" #i "(%eax), %xmm" #i "\n"
LD(0) LD(1) LD(2) LD(3) LD(4) LD(5) LD(6) LD(7)
R"(
  cmpl $0, 17*8(%ecx)
  je 2f
)"
#define LY(i) "vmovups 32*" #i "(%eax), %ymm" #i "\n"
LY(0) LY(1) LY(2) LY(3) LY(4) LY(5) LY(6) LY(7)
R"(
  jmp 2f
1:
)"
#define LX(i) "movups 32*" #i "(%eax), %xmm" #i "\n"
LX(0) LX(1) LX(2) LX(3) LX(4) LX(5) LX(6) LX(7)
R"(
2: fninit
  fldcw 15*8(%ecx)
  ldmxcsr 14*8(%ecx)
  mov 8*8(%ecx), %ebx
  mov 9*8(%ecx), %ebp
  mov 10*8(%ecx), %esi
  mov 11*8(%ecx), %edi
  mov 0(%ecx), %esp
  mov 36*8(%ecx), %eax
  mov 36*8+4(%ecx), %edx
  pushl 16*8(%ecx)
  popfl
  mov 8(%ecx), %ecx
  call *%ecx
  mov envp, %ecx
  mov %esp, 24*8(%ecx)
  mov 33*8(%ecx), %esp
  pushfl
  popl 27*8(%ecx)
  cld
  mov %ebx, 18*8(%ecx)
  mov %ebp, 19*8(%ecx)
  mov %esi, 20*8(%ecx)
  mov %edi, 21*8(%ecx)
  mov %eax, 25*8(%ecx)
  mov %edx, 26*8(%ecx)
  stmxcsr 28*8(%ecx)
  fnstenv 29*8(%ecx)
  cmpl $0, env_avx
  je 3f
  mov $env_ymm_out, %eax
)"
#define SY(i) "vmovups %ymm" #i ", 32*" #i "(%eax)\n"
SY(0) SY(1) SY(2) SY(3) SY(4) SY(5) SY(6) SY(7)
R"(
  vzeroall
3: fninit
  fldcw 35*8(%ecx)
  ldmxcsr 34*8(%ecx)
  pop %edi; pop %esi; pop %ebp; pop %ebx
  ret
)");
static const int NVR = 8, NCS = 4;
#endif
static const uptr TOP = 64 * PG; static const u64 ROOM = 8192; static uptr cur_lim; static u8 *stk; // the caller's stack: ROOM bytes left above an unmapped area
static const char *const bad_env[] = {"", "a callee-saved register changed", "the stack pointer is off", "the direction flag is set", "the MXCSR control bits changed", "the x87 control word changed", "x87 registers are left in use", "upper halves of vector registers are left dirty"};
struct EnvOut { bool ok = false; u64 r = 0; int bad = 0; std::string why; uptr addr = 0; u64 used = 0; bool shallow = false; };
static EnvOut env_call(const CallSpec &cs, const Line &l) { // l: "c" fn key seed | 3 env seed, 4 stack pattern, 5 registers pattern, 6 room above the guard / 0 = ROOM, 7 dirty upper halves
  static u64 E[40]; EnvOut o; u64 x = mix((u64)l.arg(3)); int spat = (int)l.arg(4), rpat = (int)l.arg(5); auto val = [&]() -> u64 { x = mix(x); return rpat == 0 ? 0 : rpat == 1 ? ~0ull : rpat == 2 ? (u64)(i64)(int32_t)(x >> 40) : x; };
  memset(E, 0, sizeof E); u8 *top = stk + TOP;
  for (int i = 0; i < 8 + NCS; i++) E[i] = val();
  for (int i = 0; i < NCS; i++) E[8 + i] = val(); E[36] = val();
  static const u32 mx[] = {0x1f80, 0x1f80, 0x9fc0, 0x7f80, 0x3f80, 0x5f80, 0x1fbf, 0x0000, 0xffc0, 0x8040}; static const u16 cw[] = {0x37f, 0x37f, 0x27f, 0x07f, 0x77f, 0xb7f, 0xf7f, 0x340, 0x372};
  x = mix(x); E[14] = mx[x % 10]; E[15] = cw[(x >> 8) % 9]; E[16] = 0x202 | (((x >> 20) & 0x8d5) & ~0x400ull); E[17] = l.arg(7) & 1;
  for (size_t i = 0; i < sizeof env_xmm; i += 8) { u64 v = val(); memcpy(env_xmm + i, &v, 8); }
  E[1] = cs.fn;
  uptr sp = (uptr)top - 64 - 16 * (uptr)((u64)l.arg(6) & 63); // the System V ABI keeps the stack 16-byte aligned at calls
  if (BITS64) { for (int i = 0; i < 6; i++) if (i < cs.n) E[2 + i] = cs.v[i]; else E[2 + i] = val(); E[0] = sp; }
  else E[0] = sp - 64;
  uptr lim = (uptr)E[0] - 7168; // what is left to the call; below it is unmapped
  uptr pl = lim & ~(PG - 1); if (cur_lim != pl) { mprotect(stk, TOP, PROT_NONE); mprotect((void *)pl, (uptr)top - pl, PROT_READ | PROT_WRITE); cur_lim = pl; }
  { u8 *lo = (u8 *)pl; size_t m = top - lo; if (spat == 0) memset(lo, 0, m); else if (spat == 1) memset(lo, 0xff, m); else fill(lo, m, 3, (i64)x | 1); if (!BITS64) { u32 w[16]; int n = 0; for (int i = 0; i < cs.n; i++) { w[n++] = (u32)cs.v[i]; if (cs.w[i]) w[n++] = (u32)(cs.v[i] >> 32); } memcpy((void *)(uptr)E[0], w, n * 4); } }
  envp = E; env_avx = g_host.avx; static u32 h_mx; static u16 h_cw; asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(h_mx), "=m"(h_cw)); memset(env_ymm_out, 0, sizeof env_ymm_out);
  if (NATIVE_TRY) { env_enter(); NATIVE_END; o.ok = true; }
  else { NATIVE_END; asm volatile("cld\n fninit\n fldcw %1\n ldmxcsr %0" : : "m"(h_mx), "m"(h_cw)); o.why = g_nwhy; o.addr = g_naddr; return o; }
  o.r = BITS64 ? E[25] : (u32)E[25] | E[26] << 32;
  for (int i = 0; i < NCS; i++) if (E[18 + i] != (BITS64 ? E[8 + i] : (u32)E[8 + i]) && (BITS64 || (u32)E[18 + i] != (u32)E[8 + i])) o.bad = 1;
  u16 tag, ocw; memcpy(&ocw, &E[29], 2); memcpy(&tag, (u8 *)&E[29] + 8, 2);
  if (!o.bad) o.bad = (uptr)E[24] != (uptr)E[0] ? 2 : E[27] & 0x400 ? 3 : ((u32)E[28] & ~63u) != ((u32)E[14] & ~63u) ? 4 : (ocw & 0xf3f) != ((u16)E[15] & 0xf3f) ? 5 : tag != 0xffff ? 6 : 0;
  if (!o.bad && env_avx && !E[17]) for (int i = 0; i < NVR && !o.bad; i++) for (int k = 16; k < 32; k++) if (env_ymm_out[32 * i + k]) o.bad = 7;
  return o;
}
static void init() { stk = (u8 *)zone(22); zone_commit(22, 0, TOP, PROT_READ | PROT_WRITE); }
static void run(const Scen &sc, Verdict &v) {
  Image *im = 0; Keys ks; zones_reset(); init(); mprotect(stk, TOP, PROT_NONE); cur_lim = 0; u64 calls = 0; static u64 hi; hi = 0; u8 *ctx = ctx_mem(3), *cref = ctx_mem(5); bool open = false, placed = false; int slow = 0; (void)slow;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); im->reset_ready(); continue; }
    if (ks.take(l)) continue;
    if (!im) continue;
    if (!placed) { ks.place_all(3, 5, false); placed = true; }
    if (l.op != "c") continue;
    int fn = (int)l.arg(0); if (fn < 0 || fn >= F_ALL || fn == F_S64 || fn == F_S128) continue; if (fn < F_COUNT ? !fn_usable(im, fn) : !im->f[fn]) continue;
    if ((fn == F_SC_NOAVX && !g_host.aes) || (fn == F_SC_AVX && !g_host.avx) || (fn == F_SC_AVX2 && !g_host.avx2)) continue;
    auto it = ks.m.find((int)l.arg(1)); const u8 *p = it == ks.m.end() ? zone(0) : it->second.p; size_t n = it == ks.m.end() ? 0 : (size_t)it->second.len; u64 seed = (u64)l.arg(2); CallSpec cs; Res want; u64 wr = 0, wh = 0; bool wide = l.arg(8) & 1, rok = true; std::string rwhy;
    cs.fn = fn == F_T1HA0 ? im->t1ha0_addr() : im->f[fn]; if (!cs.fn) continue;
    if (fn != F_UPDATE && fn != F_FINAL) im->reset_ready(); sim_sync_reset(); hi = 0;
    // the same call by an ordinary caller, then the call under test
    NativeGuard g;
    if (fn == F_INIT) { memset(cref, 0, g_ctx_size); memset(ctx, 0, g_ctx_size); rok = g.run([&] { ((init_t)cs.fn)(cref, seed, seed_y(seed)); }); cs.p((uptr)ctx).q(seed).q(seed_y(seed)); open = true; }
    else if (fn == F_UPDATE) { if (!open) continue; rok = g.run([&] { ((upd_t)cs.fn)(cref, p, n); }); cs.p((uptr)ctx).p((uptr)p).p((uptr)n); }
    else if (fn == F_FINAL) { if (!open) continue; rok = g.run([&] { wr = ((fin_t)cs.fn)(cref, wide ? &wh : 0); }); cs.p((uptr)ctx).p(wide ? (uptr)&hi : 0); open = false; }
    else if (fn == F_RESOLVE) { rok = g.run([&] { wr = (u64)((uptr(*)())cs.fn)(); }); }
    else if (fn >= F_SC_ALL) { rok = g.run([&] { wr = (u32)((int (*)())cs.fn)(); }); }
    else { rok = g.run([&] { wr = rawcall(im, fn, p, n, seed, &wh); }); if (fn == F_2_128) cs.p((uptr)&hi); cs.p((uptr)p).p((uptr)n).q(seed); if (fn != F_2_128) wh = 0; }
    if (!rok) { S.probe("call crashed for an ordinary caller as well (not this property)"); return; }
    if (fn != F_UPDATE && fn != F_FINAL) im->reset_ready(); sim_sync_reset();
    EnvOut o = env_call(cs, l); calls++; S.calls++; const char *nm = fn_name[fn];
    if (!o.ok) { bool so = o.addr >= (uptr)stk && o.addr < (uptr)stk + TOP;
      v.fail(so ? "stack" : "crash", strf("build %s: %s(len %zu) %s when called %s", im->variant.c_str(), nm, n, so ? "overflows the 7 KiB of stack it is given" : o.why.c_str(), so ? "near the end of a stack" : "with poisoned registers, stack and processor modes")); return; }
    if (fn == F_INIT || fn == F_UPDATE) { o.r = wr; } else if (fn == F_RESOLVE) o.r = (uptr)o.r; else if (fn >= F_SC_ALL) o.r = (u32)o.r;
    if (o.r != wr || hi != wh) { v.fail("result", strf("build %s: %s(len %zu, seed %llx) returns %016llx%016llx for a caller with poisoned registers, stack and processor modes, %016llx%016llx for an ordinary one", im->variant.c_str(), nm, n, (unsigned long long)seed, (unsigned long long)hi, (unsigned long long)o.r, (unsigned long long)wh, (unsigned long long)wr)); return; }
    if (o.bad) { v.fail("state", strf("build %s: after %s(len %zu): %s", im->variant.c_str(), nm, n, bad_env[o.bad])); return; }
    if (fn != F_INIT && fn != F_UPDATE && fn != F_RESOLVE && fn != F_T1HA0) v.ev(o.r ^ hi);
    S.fault(l.arg(4) == 0 ? "stack full of zeros" : l.arg(4) == 1 ? "stack full of ones" : "stack full of random bytes"); S.fault("caller with 7 KiB of stack left"); S.fault("floating-point modes changed"); if (l.arg(7) & 1) S.fault("upper halves of vector registers dirty"); S.fault("registers poisoned");
    v.ev(fn * 131 + n);
  }
  v.nontrivial = calls > 0;
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  sc.push_back({"v", {pick_variant(r, false)}}); int nk = 1 + (int)r.below(3);
  for (int k = 0; k < nk; k++) { u64 len = r.chance(1, 12) ? 4000 + r.below(200000) : r.chance(1, 4) ? 4000 + r.below(20000) : gen_len(r, 12000); i64 s; int kind = gen_fill(r, s); sc.push_back({"k", {k, (i64)len, kind, s}}); sc.push_back({"at", {k, (i64)r.below(15), (i64)gen_off(r, len)}}); }
  auto call = [&](int fn, int k, u64 seed, int wide) { sc.push_back({"c", {fn, k, (i64)seed, (i64)(r.next() >> 2), (i64)r.below(4), (i64)r.below(4), (i64)r.below(64), (i64)r.below(2), wide}}); };
  int n = 3 + (int)r.below(12);
  for (int i = 0; i < n; i++) {
    unsigned q = r.below(24);
    if (q < 6) { u64 s = gen_seed(r); call(F_INIT, 0, s, 0); int m = (int)r.below(5); while (m--) call(F_UPDATE, (int)r.below(nk + 1), 0, 0); call(F_FINAL, 0, 0, (int)r.below(2)); }
    else if (q == 6) call(F_RESOLVE, 0, 0, 0);
    else if (q == 7 && idx % 8 == 0) call(F_SC_ALL + (int)r.below(F_ALL - F_SC_ALL), 0, 0, 0);
    else call((int)r.below(F_S64), (int)r.below(nk + 1), gen_seed(r), 0);
  }
}
static PropReg reg("C14", gen, run, 0, "One run = a random build and a sequence of calls (hash functions, streaming calls, t1ha0, t1ha0_resolve, self-checks) by a simulated caller whose registers, vector registers, flags, x87 and SSE control words and stack content are chosen by the PRNG and who has 7 KiB of stack left above an unmapped page; each result is compared with that of the same call by an ordinary caller, and the processor state afterwards with what the calling convention demands. Non-trivial: at least one such call; distinct: different hash of functions, lengths and results.");
