#include "loader.h"
#include "os.h"
#include "machine.h"
#include <elf.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sched.h>
#include <pthread.h>
#include <cpuid.h>

const char *fn_name[F_ALL] = {"t1ha0", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2",
  "t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2-stream64", "t1ha2-stream128",
  "t1ha2_init", "t1ha2_update", "t1ha2_final", "t1ha0_resolve",
  "t1ha_selfcheck__all_enabled", "t1ha_selfcheck__t1ha2", "t1ha_selfcheck__t1ha2_atonce", "t1ha_selfcheck__t1ha2_atonce128", "t1ha_selfcheck__t1ha2_stream",
  "t1ha_selfcheck__t1ha1", "t1ha_selfcheck__t1ha1_le", "t1ha_selfcheck__t1ha1_be", "t1ha_selfcheck__t1ha0", "t1ha_selfcheck__t1ha0_32le", "t1ha_selfcheck__t1ha0_32be",
  "t1ha_selfcheck__t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0_ia32aes_avx", "t1ha_selfcheck__t1ha0_ia32aes_avx2"};
std::vector<Image *> g_images;
static Image *slot_img[MAX_IMG];
HostCpu g_host;

void host_detect() {
  unsigned a, b, c, d; bool os = false; unsigned long long x = 0;
  if (__get_cpuid(1, &a, &b, &c, &d)) {
    g_host.aes = c >> 25 & 1; os = c >> 27 & 1;
    if (os) { unsigned lo, hi; asm volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); x = lo; }
    g_host.avx = g_host.aes && (c >> 28 & 1) && (x & 6) == 6;
    if (__get_cpuid_count(7, 0, &a, &b, &c, &d)) g_host.avx2 = g_host.avx && (b >> 5 & 1);
  }
}

Image *image_of(uptr ip) {
  if (ip < IMG_BASE || ip >= IMG_BASE + MAX_IMG * IMG_STRIDE) return 0;
  return slot_img[(ip - IMG_BASE) / IMG_STRIDE];
}

/* ------------------------------------------------ imports ------------------------------------------------ */
static void *i_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
static void *i_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
static void *i_memset(void *d, int c, size_t n) { return memset(d, c, n); }
static int i_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
static void *i_memcpy_chk(void *d, const void *s, size_t n, size_t) { return memcpy(d, s, n); }
static void i_abort() { native_raise("abort() called by the library"); }
static void i_assert(const char *e, const char *f, unsigned l, const char *) { native_raise(strf("assertion failed in the library: %s (%s:%u)", e, f, l).c_str()); }
std::map<uptr, int> g_mutex;
static int i_lock(void *m) { int &o = g_mutex[(uptr)m]; if (o) native_raise("deadlock: lock already held"); o = g_tls_task + 1; return 0; }
static int i_trylock(void *m) { int &o = g_mutex[(uptr)m]; if (o) return 16; o = g_tls_task + 1; return 0; }
static int i_unlock(void *m) { g_mutex[(uptr)m] = 0; return 0; }
static int i_yield() { return 0; }
static int i_sleep(unsigned) { return 0; }
static int i_once(int *ctl, void (*fn)()) { if (!*ctl) { *ctl = 2; fn(); } return 0; }
int g_tls_task = 0; bool g_tls_fresh;
struct TlsKey { int task, mod; bool operator<(const TlsKey &o) const { return task != o.task ? task < o.task : mod < o.mod; } };
static std::map<TlsKey, void *> tls_map; std::vector<Seg> g_tls_blocks; // page-granular, so that writes can be watched
void *sim_tls(const TlsIndex *ti) {
  TlsKey k = {g_tls_task, (int)ti->mod}; void *&p = tls_map[k];
  if (!p) { Image *im = slot_img[ti->mod - 1]; size_t n = (im->tls_memsz + PG) & ~(PG - 1); p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) die("tls");
    memcpy(p, (void *)im->tls_lo, im->tls_filesz); g_tls_blocks.push_back({(uptr)p, (uptr)p + n, true, false}); g_tls_fresh = true; }
  return (u8 *)p + ti->off;
}
void tls_thread_end(int task) { for (auto i = tls_map.begin(); i != tls_map.end();) if (i->first.task == task) { for (auto b = g_tls_blocks.begin(); b != g_tls_blocks.end();) if (b->lo == (uptr)i->second) { munmap((void *)b->lo, b->hi - b->lo); b = g_tls_blocks.erase(b); } else ++b; i = tls_map.erase(i); } else ++i; }
void tls_reset() { for (auto &b : g_tls_blocks) munmap((void *)b.lo, b.hi - b.lo); tls_map.clear(); g_tls_blocks.clear(); }
void sim_sync_reset() { g_mutex.clear(); tls_reset(); g_tls_task = 0; }
#ifdef __x86_64__
static void *i_tls(const TlsIndex *ti) { return sim_tls(ti); }
#else
extern "C" void *sim_tls_c(const TlsIndex *ti) { return sim_tls(ti); }
extern "C" void i_tls_asm();
asm(".text\n.globl i_tls_asm\ni_tls_asm: pushl %ecx; pushl %edx; subl $12,%esp; pushl %eax; call sim_tls_c; addl $16,%esp; popl %edx; popl %ecx; ret\n");
#endif
struct Imp { const char *n; uptr a; ImportKind k; };
static std::vector<Imp> imps;
static void imp_init() {
  if (!imps.empty()) return;
  imps = {{"memcpy", (uptr)i_memcpy, IK_MEMCPY}, {"memmove", (uptr)i_memmove, IK_MEMCPY}, {"__memcpy_chk", (uptr)i_memcpy_chk, IK_MEMCPY}, {"__memmove_chk", (uptr)i_memcpy_chk, IK_MEMCPY},
    {"memset", (uptr)i_memset, IK_MEMSET}, {"memcmp", (uptr)i_memcmp, IK_PLAIN}, {"bcmp", (uptr)i_memcmp, IK_PLAIN},
    {"abort", (uptr)i_abort, IK_ABORT}, {"__assert_fail", (uptr)i_assert, IK_ABORT}, {"__stack_chk_fail", (uptr)i_abort, IK_ABORT},
    {"pthread_mutex_lock", (uptr)i_lock, IK_MUTEX_LOCK}, {"pthread_spin_lock", (uptr)i_lock, IK_MUTEX_LOCK}, {"mtx_lock", (uptr)i_lock, IK_MUTEX_LOCK},
    {"pthread_mutex_trylock", (uptr)i_trylock, IK_MUTEX_TRY}, {"pthread_spin_trylock", (uptr)i_trylock, IK_MUTEX_TRY},
    {"pthread_mutex_unlock", (uptr)i_unlock, IK_MUTEX_UNLOCK}, {"pthread_spin_unlock", (uptr)i_unlock, IK_MUTEX_UNLOCK}, {"mtx_unlock", (uptr)i_unlock, IK_MUTEX_UNLOCK},
    {"sched_yield", (uptr)i_yield, IK_YIELD}, {"pthread_yield", (uptr)i_yield, IK_YIELD}, {"thrd_yield", (uptr)i_yield, IK_YIELD}, {"usleep", (uptr)i_sleep, IK_YIELD},
    {"nanosleep", (uptr)i_yield, IK_YIELD}, {"pthread_once", (uptr)i_once, IK_PLAIN}, {"call_once", (uptr)i_once, IK_PLAIN}};
#ifdef __x86_64__
  imps.push_back({"__tls_get_addr", (uptr)i_tls, IK_PLAIN});
#else
  imps.push_back({"___tls_get_addr", (uptr)i_tls_asm, IK_TLS});
#endif
}
uptr import_lookup(const char *name) {
  imp_init();
  for (auto &i : imps) if (!strcmp(i.n, name)) return i.a;
  bool heap = false; if (uptr o = os_service(name, heap)) { imps.push_back({strdup(name), o, heap ? IK_HEAP : IK_PLAIN}); return o; }
  void *p = dlsym(RTLD_DEFAULT, name);
  if (p) { imps.push_back({strdup(name), (uptr)p, IK_PLAIN}); return (uptr)p; }
  return 0;
}
static const Imp *imp_of(uptr a) { for (auto &i : imps) if (i.a == a) return &i; return 0; }
bool is_import(uptr a) { return imp_of(a) != 0; }
const char *import_name(uptr a) { const Imp *i = imp_of(a); return i ? i->n : "?"; }
ImportKind import_kind(uptr a) { const Imp *i = imp_of(a); return i ? i->k : IK_NONE; }
uptr register_host_fn(const char *n, uptr a) { imp_init(); imps.push_back({n, a, IK_PLAIN}); return a; }

/* ------------------------------------------------ ELF ------------------------------------------------ */
#ifdef __x86_64__
#define R_TYPE ELF64_R_TYPE
#define R_SYM ELF64_R_SYM
#define ST_TYPE ELF64_ST_TYPE
#else
#define R_TYPE ELF32_R_TYPE
#define R_SYM ELF32_R_SYM
#define ST_TYPE ELF32_ST_TYPE
#endif
static bool read_file(const char *p, std::vector<u8> &o) {
  FILE *f = fopen(p, "rb"); if (!f) return false; u8 b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) o.insert(o.end(), b, b + n);
  fclose(f); return true;
}
Image *image_load(const char *path, const char *variant, int slot) {
  std::vector<u8> file; if (!read_file(path, file)) die("cannot read %s", path);
  if (slot >= MAX_IMG || slot_img[slot]) die("bad image slot %d", slot);
  auto *eh = (ElfW(Ehdr) *)file.data(); if (memcmp(eh->e_ident, ELFMAG, 4)) die("%s: not ELF", path);
  Image *im = new Image; im->variant = variant; im->slot = slot; memset(im->f, 0, sizeof im->f);
  im->base = IMG_BASE + slot * IMG_STRIDE;
  auto *ph = (ElfW(Phdr) *)(file.data() + eh->e_phoff); uptr end = 0;
  for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_LOAD) end = std::max(end, (uptr)(ph[i].p_vaddr + ph[i].p_memsz));
  end = (end + PG - 1) & ~(PG - 1); im->span = end + 4 * PG;
  if (im->span > IMG_STRIDE) die("%s: image too large", path);
  if (mmap((void *)im->base, im->span, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)im->base) die("mmap image slot %d", slot);
  im->tramp = im->base + end + PG;
  uptr dyn = 0;
  for (int i = 0; i < eh->e_phnum; i++) {
    auto &p = ph[i]; uptr lo = im->base + p.p_vaddr;
    if (p.p_type == PT_LOAD) {
      memcpy((void *)lo, file.data() + p.p_offset, p.p_filesz);
      uptr a = lo & ~(PG - 1), b = (lo + p.p_memsz + PG - 1) & ~(PG - 1);
      im->segs.push_back({a, b, (p.p_flags & PF_W) != 0, (p.p_flags & PF_X) != 0});
      if (p.p_flags & PF_X) { im->text_lo = lo; im->text_hi = lo + p.p_memsz; }
    } else if (p.p_type == PT_DYNAMIC) dyn = lo;
    else if (p.p_type == PT_TLS) { im->tls_lo = lo; im->tls_filesz = p.p_filesz; im->tls_memsz = p.p_memsz; im->tls_align = p.p_align; }
  }
  // symbols (local and hidden ones included)
  auto *sh = (ElfW(Shdr) *)(file.data() + eh->e_shoff); std::map<std::string, int> types;
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    auto *st = (ElfW(Sym) *)(file.data() + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *st;
    const char *str = (const char *)file.data() + sh[sh[i].sh_link].sh_offset;
    for (size_t k = 0; k < n; k++) { if (st[k].st_shndx == SHN_UNDEF || st[k].st_shndx >= SHN_LORESERVE) continue;
      int ty = ST_TYPE(st[k].st_info); if (ty != STT_FUNC && ty != STT_OBJECT && ty != STT_GNU_IFUNC && ty != STT_NOTYPE) continue;
      std::string nm = str + st[k].st_name; if (nm.empty()) continue;
      im->sym[nm] = im->base + st[k].st_value; types[nm] = ty; }
  }
  for (int k = 0; k < F_ALL; k++) { auto it = im->sym.find(fn_name[k]); if (it != im->sym.end() && k != F_T1HA0) im->f[k] = it->second; }
  if (types.count("t1ha0") && types["t1ha0"] == STT_GNU_IFUNC) im->t1ha0_resolver = im->sym["t1ha0"];
  if (im->sym.count("client_t1ha0")) im->client_t1ha0 = im->sym["client_t1ha0"];
  if (im->sym.count("t1ha0_funcptr")) im->funcptr_var = im->sym["t1ha0_funcptr"];
  // relocations
  ElfW(Sym) *ds = 0; const char *dstr = 0; uptr rel[2] = {0, 0}, relsz[2] = {0, 0}, ia = 0, iasz = 0, init = 0, jsz = 0, jrel = 0;
  for (auto *d = (ElfW(Dyn) *)dyn; d && d->d_tag != DT_NULL; d++) switch (d->d_tag) {
    case DT_SYMTAB: ds = (ElfW(Sym) *)(im->base + d->d_un.d_ptr); break;
    case DT_STRTAB: dstr = (const char *)(im->base + d->d_un.d_ptr); break;
    case DT_RELA: case DT_REL: rel[0] = im->base + d->d_un.d_ptr; break;
    case DT_RELASZ: case DT_RELSZ: relsz[0] = d->d_un.d_val; break;
    case DT_JMPREL: jrel = im->base + d->d_un.d_ptr; break;
    case DT_PLTRELSZ: jsz = d->d_un.d_val; break;
    case DT_INIT_ARRAY: ia = im->base + d->d_un.d_ptr; break;
    case DT_INIT_ARRAYSZ: iasz = d->d_un.d_val; break;
    case DT_INIT: init = im->base + d->d_un.d_ptr; break;
  }
  rel[1] = jrel; relsz[1] = jsz;
#ifdef __x86_64__
  typedef ElfW(Rela) RelT;
#else
  typedef ElfW(Rel) RelT;
#endif
  for (int t = 0; t < 2; t++) for (uptr o = 0; rel[t] && o < relsz[t]; o += sizeof(RelT)) {
    RelT *r = (RelT *)(rel[t] + o); uptr *w = (uptr *)(im->base + r->r_offset); unsigned ty = R_TYPE(r->r_info);
#ifdef __x86_64__
    uptr add = r->r_addend; const unsigned T_REL = R_X86_64_RELATIVE, T_GLOB = R_X86_64_GLOB_DAT, T_JUMP = R_X86_64_JUMP_SLOT, T_ABS = R_X86_64_64, T_IREL = R_X86_64_IRELATIVE, T_MOD = R_X86_64_DTPMOD64, T_OFF = R_X86_64_DTPOFF64; bool useadd = ty == T_ABS || ty == T_OFF;
#else
    uptr add = *w; const unsigned T_REL = R_386_RELATIVE, T_GLOB = R_386_GLOB_DAT, T_JUMP = R_386_JMP_SLOT, T_ABS = R_386_32, T_IREL = R_386_IRELATIVE, T_MOD = R_386_TLS_DTPMOD32, T_OFF = R_386_TLS_DTPOFF32; bool useadd = ty == T_ABS || ty == T_OFF;
#endif
    if (ty == 0) continue;
    if (ty == T_REL) { *w = im->base + add; continue; }
    if (ty == T_IREL) { im->irel.push_back({(uptr)w, im->base + add}); continue; }
    auto &s = ds[R_SYM(r->r_info)]; const char *nm = dstr + s.st_name;
    if (ty == T_MOD) { *w = slot + 1; continue; }
    if (ty == T_OFF) { *w = (R_SYM(r->r_info) ? s.st_value : 0) + add; continue; }
    uptr v = 0;
    if (s.st_shndx != SHN_UNDEF) v = im->base + s.st_value;
    else { v = import_lookup(nm); if (!v && (s.st_info >> 4) != STB_WEAK) die("%s: unresolved import %s", path, nm); }
    if (ty == T_GLOB || ty == T_JUMP || ty == T_ABS) {
      if (s.st_shndx != SHN_UNDEF && ST_TYPE(s.st_info) == STT_GNU_IFUNC) im->irel.push_back({(uptr)w, v});
      else *w = v + (useadd ? add : 0);
    }
#ifndef __x86_64__
    else if (ty == R_386_PC32) *w += v - (uptr)w;
#endif
    else die("%s: relocation type %u not supported", path, ty);
  }
  if (init) im->inits.push_back(init);
  for (uptr o = 0; ia && o < iasz; o += sizeof(uptr)) { uptr v = *(uptr *)(ia + o); if (v && v != (uptr)-1) im->inits.push_back(v); }
  // final protections (read-only data really is read-only)
  for (auto &s : im->segs) mprotect((void *)s.lo, s.hi - s.lo, PROT_READ | (s.w ? PROT_WRITE : 0) | (s.x ? PROT_EXEC : 0));
  im->snapshot(im->raw); im->ready = im->raw;
  slot_img[slot] = im; g_images.push_back(im);
  return im;
}
void Image::hide(bool h) { if (h == hidden) return; hidden = h; for (auto &s : segs) mprotect((void *)s.lo, s.hi - s.lo, h ? PROT_NONE : PROT_READ | (s.w ? PROT_WRITE : 0) | (s.x ? PROT_EXEC : 0)); }
void Image::snapshot(std::vector<std::vector<u8>> &to) { to.clear(); for (auto &s : segs) if (s.w) to.emplace_back((u8 *)s.lo, (u8 *)s.hi); }
void Image::restore(const std::vector<std::vector<u8>> &from) { if (hidden) hide(false); size_t k = 0; for (auto &s : segs) if (s.w) { memcpy((void *)s.lo, from[k].data(), from[k].size()); k++; } }
bool Image::data_changed(const std::vector<std::vector<u8>> &ref) const { size_t k = 0; for (auto &s : segs) if (s.w) { if (memcmp((void *)s.lo, ref[k].data(), ref[k].size())) return true; k++; } return false; }
u64 Image::data_hash() const { u64 h = 1; for (auto &s : segs) if (s.w) for (uptr p = s.lo; p < s.hi; p += 8) h = mix(h ^ *(u64 *)p); return h; }

bool image_init_native(Image *im) {
  im->reset_raw(); sim_sync_reset();
  auto call = [&](uptr fn) -> uptr { uptr r = 0; NativeGuard g; if (g.run([&] { r = ((uptr(*)())fn)(); })) return r; im->init_ok = false; im->init_err = g.why; return 0; };
  for (auto &r : im->irel) *(uptr *)r.slot = call(r.resolver);
  if (im->t1ha0_resolver) im->ifunc_t1ha0 = call(im->t1ha0_resolver);
  for (uptr f : im->inits) { NativeGuard g; if (!g.run([&] { ((void (*)(int, char **, char **))f)(0, 0, 0); })) { im->init_ok = false; im->init_err = g.why; } }
  im->snapshot(im->ready); return im->init_ok;
}

void patch_jump(Image *im, uptr at, uptr target, u8 save[16]) {
  memcpy(save, (void *)at, 16);
  // trampoline slots in the image's scratch page: mov/jmp to an absolute address
  static std::map<std::pair<int, uptr>, uptr> tr; uptr &t = tr[{im->slot, target}];
  if (!t) {
    static std::map<int, int> used; int n = used[im->slot]++; t = im->tramp + n * 16; if (n >= 200) die("trampolines");
    u8 *p = (u8 *)t;
#ifdef __x86_64__
    p[0] = 0xff; p[1] = 0x25; memset(p + 2, 0, 4); memcpy(p + 6, &target, 8);
#else
    p[0] = 0xe9; u32 d = (u32)(target - (t + 5)); memcpy(p + 1, &d, 4);
#endif
  }
  uptr a = at & ~(PG - 1); mprotect((void *)a, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC);
  u8 *q = (u8 *)at; u32 d = (u32)(t - (at + 5)); q[0] = 0xe9; memcpy(q + 1, &d, 4);
}
void unpatch(uptr at, const u8 save[16]) { memcpy((void *)at, save, 5); }

/* ------------------------------------------------ zones ------------------------------------------------ */
void alias_unmap();
static bool zone_mapped[MAX_ZONE]; bool g_zone3_moved;
static uptr zone_base(int i) { return i == 3 && !g_zone3_moved ? ZONE3_BASE : i == 4 ? ZONE4_BASE : ZONE_BASE + (uptr)i * ZONE_STRIDE; }
void zone3_yield() { if (g_zone3_moved) return; if (zone_mapped[3]) munmap((void *)zone_base(3), ZONE_STRIDE); zone_mapped[3] = false; g_zone3_moved = true; }
u8 *zone(int i) {
  if (i < 0 || i >= MAX_ZONE) die("zone %d", i);
  uptr a = zone_base(i);
  if (!zone_mapped[i]) {
    if (mmap((void *)a, ZONE_STRIDE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void *)a) die("mmap zone %d", i);
    zone_mapped[i] = true;
  }
  return (u8 *)a;
}
void zone_commit(int i, size_t off, size_t n, int prot) {
  u8 *z = zone(i); size_t a = off & ~(PG - 1), b = (off + n + PG - 1) & ~(PG - 1); if (b <= a) return;
  if (b > ZONE_STRIDE) die("zone overflow %zu", b);
  if (mprotect(z + a, b - a, prot)) die("mprotect zone");
}
void zones_reset() {
  if (g_zone3_moved) { alias_unmap(); if (zone_mapped[3]) munmap((void *)zone_base(3), ZONE_STRIDE); zone_mapped[3] = false; g_zone3_moved = false; }
  for (int i = 0; i < MAX_ZONE; i++) if (zone_mapped[i]) {
    void *a = (void *)zone_base(i);
    if (mmap(a, ZONE_STRIDE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != a) die("zone reset");
  }
}
