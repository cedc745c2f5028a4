// Simulated dynamic loader: maps a build variant of the library at an address the simulator chooses, applies
// its relocations, and leaves indirect-function resolution, constructors, imports and thread-local storage to the
// simulator. Re-initialising the writable segments is "process restart".
#pragma once
#include "util.h"

#ifdef __x86_64__
static const bool BITS64 = true;
static const uptr IMG_BASE = 0x100000000000ull, IMG_STRIDE = 0x10000000ull; // 256 MiB slots
static const uptr ZONE_BASE = 0x200000000000ull, ZONE_STRIDE = 0x4000000ull;   // 64 MiB zones
static const uptr STK_BASE = 0x300000000000ull, STK_STRIDE = 0x100000ull;
static const uptr ALIAS_BASE = 0x400000000000ull;
static const uptr ZONE3_BASE = 0x200100000000ull - 3 * 4096, ZONE4_BASE = 0x200280000000ull - 3 * 4096; // lie across a multiple of 4 GiB, of 2 GiB
#else
static const bool BITS64 = false;
static const uptr IMG_BASE = 0x20000000u, IMG_STRIDE = 0x100000u;
static const uptr ZONE_BASE = 0x30000000u, ZONE_STRIDE = 0x400000u; // 4 MiB zones
static const uptr STK_BASE = 0x2c000000u, STK_STRIDE = 0x40000u;
static const uptr ALIAS_BASE = 0x50000000u;
static const uptr ZONE3_BASE = 0x80000000u - 3 * 4096, ZONE4_BASE = 0x40000000u - 3 * 4096; // lie across 2 GiB, 1 GiB
#endif
static const int MAX_IMG = 72, MAX_ZONE = 24, MAX_TASK = 32;
static const uptr PG = 4096;

// Functions of the library, by their role in scenarios.
enum Fn { F_T1HA0, F_32LE, F_32BE, F_AES_NOAVX, F_AES_AVX, F_AES_AVX2, F_1LE, F_1BE, F_2, F_2_128, F_S64, F_S128, F_COUNT,
          F_INIT = F_COUNT, F_UPDATE, F_FINAL, F_RESOLVE,
          F_SC_ALL, F_SC_2, F_SC_2ATONCE, F_SC_2ATONCE128, F_SC_2STREAM, F_SC_1, F_SC_1LE, F_SC_1BE,
          F_SC_0, F_SC_32LE, F_SC_32BE, F_SC_NOAVX, F_SC_AVX, F_SC_AVX2, F_ALL };
extern const char *fn_name[F_ALL];

struct Seg { uptr lo, hi; bool w, x; };
struct IRel { uptr slot, resolver; };
struct Image {
  std::string variant; int slot = 0; uptr base = 0, span = 0;
  std::vector<Seg> segs; uptr text_lo = 0, text_hi = 0;
  std::map<std::string, uptr> sym; std::vector<uptr> inits;
  std::vector<IRel> irel; uptr t1ha0_resolver = 0; // STT_GNU_IFUNC t1ha0
  uptr funcptr_var = 0;                            // t1ha0_funcptr
  uptr f[F_ALL]; uptr ifunc_t1ha0 = 0;             // value t1ha0 is bound to for callers outside the library
  uptr tls_lo = 0; size_t tls_filesz = 0, tls_memsz = 0, tls_align = 16;
  std::vector<std::vector<u8>> raw, ready;          // snapshots of the writable segments
  uptr tramp = 0;                                   // scratch executable page in the slot
  bool init_ok = true; std::string init_err;
  uptr client_t1ha0 = 0;                            // t1ha0 as compiled into client code (client.c)
  bool selects() const { return t1ha0_resolver || funcptr_var; } // chooses t1ha0 at run time
  int portable() const { return BITS64 && f[F_1LE] ? F_1LE : BITS64 && f[F_2] ? F_2 : F_32LE; }
  bool has(int fn) const { return fn == F_T1HA0 ? selects() || client_t1ha0 : fn == F_S64 || fn == F_S128 ? f[F_INIT] && f[F_UPDATE] && f[F_FINAL] : f[fn] != 0; }
  bool in_text(uptr ip) const { return ip >= text_lo && ip < text_hi; }
  void snapshot(std::vector<std::vector<u8>> &to); void restore(const std::vector<std::vector<u8>> &from);
  void reset_ready() { restore(ready); }
  void reset_raw() { restore(raw); }
  uptr t1ha0_addr() const { return funcptr_var ? *(uptr *)funcptr_var : t1ha0_resolver ? ifunc_t1ha0 : client_t1ha0; } // what a caller would call now
  void hide(bool); // no access to the image at all (the process it belonged to is gone)
  bool hidden = false;
  bool data_changed(const std::vector<std::vector<u8>> &ref) const;
  u64 data_hash() const;
};
extern std::vector<Image *> g_images;
Image *image_of(uptr ip);
// load a file into a slot; resolves nothing that needs running library code
Image *image_load(const char *path, const char *variant, int slot);
bool image_init_native(Image *); // ifuncs + constructors, run natively on the real CPU
void patch_jump(Image *, uptr at, uptr target, u8 save[16]); void unpatch(uptr at, const u8 save[16]);

// simulated libc services the library may import
uptr import_lookup(const char *name);
bool is_import(uptr a); const char *import_name(uptr a);
struct TlsIndex { uptr mod, off; };
void *sim_tls(const TlsIndex *); void tls_reset(); void tls_thread_end(int task); extern int g_tls_task; extern bool g_tls_fresh; extern std::vector<Seg> g_tls_blocks;
uptr register_host_fn(const char *n, uptr a);
void sim_sync_reset();
enum ImportKind { IK_NONE, IK_PLAIN, IK_MEMCPY, IK_MEMSET, IK_MUTEX_LOCK, IK_MUTEX_TRY, IK_MUTEX_UNLOCK, IK_YIELD, IK_ABORT, IK_TLS, IK_HEAP };
ImportKind import_kind(uptr a);
extern std::map<uptr, int> g_mutex; // address -> owner+1

// memory zones
u8 *zone(int i);                           // base address; zones 3 and 4 lie across round addresses (at their offset 3 pages)
void zone3_yield(); extern bool g_zone3_moved; // 32-bit: gigabytes of aliased key need the address range of zone 3
void zone_commit(int i, size_t off, size_t n, int prot);
void zones_reset();

// host features
struct HostCpu { bool aes, avx, avx2; }; extern HostCpu g_host; void host_detect();
