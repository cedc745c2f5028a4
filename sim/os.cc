#include "os.h"
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/stat.h>
Os g_lib_os;
void os_reset(bool on, u64 seed, unsigned rate, u64 nth) {
  for (int f : g_lib_os.fds) close(f);
  g_lib_os = Os(); g_lib_os.on = on; g_lib_os.rng = mix(seed ^ 0x6f73); g_lib_os.rate = rate; g_lib_os.nth = nth;
}
static u64 rnd() { return g_lib_os.rng = mix(g_lib_os.rng + 0x9e37); }
static bool refuse(const char *what) {
  if (!g_lib_os.on) return false;
  g_lib_os.requests++; bool no = g_lib_os.nth ? g_lib_os.requests == g_lib_os.nth : (rnd() & 255) < g_lib_os.rate; S.probe("request to the operating system");
  if (no) { g_lib_os.refused++; S.fault(strf("refused: %s", what).c_str()); }
  return no;
}
static void *got(void *p, size_t n) { if (p && g_lib_os.on) g_lib_os.heap[p] = n; return p; }
static void *o_malloc(size_t n) { if (refuse("memory")) { g_lib_os.err = ENOMEM; return 0; } void *p = malloc(n); if (p && n) memset(p, g_lib_os.on ? (int)(rnd() & 255) : 0xa5, n); return got(p, n); }
static void *o_calloc(size_t a, size_t b) { if (refuse("memory")) { g_lib_os.err = ENOMEM; return 0; } return got(calloc(a, b), a * b); }
static void o_free(void *p) { g_lib_os.heap.erase(p); free(p); }
static void *o_realloc(void *p, size_t n) { if (refuse("memory")) { g_lib_os.err = ENOMEM; return 0; } g_lib_os.heap.erase(p); return got(realloc(p, n), n); }
static void *o_memalign(size_t a, size_t n) { if (refuse("memory")) { g_lib_os.err = ENOMEM; return 0; } void *p = 0; if (posix_memalign(&p, std::max(a, sizeof(void *)), n)) return 0; return got(p, n); }
static void *o_valloc(size_t n) { return o_memalign(4096, n); }
static int o_posix_memalign(void **q, size_t a, size_t n) { if (refuse("memory")) return ENOMEM; void *p = 0; int r = posix_memalign(&p, a, n); if (!r) *q = got(p, n); return r; }
static char *o_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)o_malloc(n); if (p) memcpy(p, s, n); return p; }
static void *o_mmap(void *, size_t n, int prot, int, int, int) { if (refuse("memory map")) { g_lib_os.err = ENOMEM; return MAP_FAILED; } void *p = mmap(0, n, prot | PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p != MAP_FAILED) got(p, n); return p; }
static int o_munmap(void *p, size_t n) { if (!g_lib_os.heap.erase(p) && g_lib_os.on) { g_lib_os.process++; g_lib_os.process_by = "munmap"; return 0; } return munmap(p, n); }
static char *o_getenv(const char *) {
  if (!g_lib_os.on) return 0; static char a[16][24]; static const char *const words[] = {"", "0", "1", "yes", "no", "2", "avx", "avx2", "noavx", "aes", "t1ha1_le", "t1ha0_32le", "/", "-1", "debug", "portable"};
  g_lib_os.requests++; u64 x = rnd(); S.probe("request to the operating system"); S.fault("environment variable"); if (x & 1) return 0; char *s = a[x >> 8 & 15]; strcpy(s, words[x >> 16 & 15]); return s; }
static const char *text() { static std::string s; u64 x = rnd(); static const char *const w[] = {"", "flags\t\t: fpu sse2 aes avx avx2\n", "flags\t\t: fpu sse2\n", "0\n", "1\n", "processor\t: 0\nmodel name\t: x\n", "\n", "2\n"}; s = w[x & 7]; if (x & 8) { s += std::string((size_t)(x >> 8 & 63), (char)(x >> 16)); } return s.c_str(); }
static FILE *o_fopen(const char *, const char *) { if (refuse("file")) { g_lib_os.err = rnd() & 1 ? EMFILE : ENOENT; return 0; } std::string t = g_lib_os.on ? text() : "\n"; FILE *f = fmemopen(0, t.size() + 1, "w+"); if (f) { fwrite(t.data(), 1, t.size(), f); rewind(f); if (g_lib_os.on) g_lib_os.files.insert(f); } return f; }
static int o_fclose(FILE *f) { g_lib_os.files.erase(f); return fclose(f); }
static int o_open(const char *, int, int) { if (refuse("file")) { g_lib_os.err = rnd() & 1 ? EMFILE : ENOENT; return -1; } int f = (int)syscall(SYS_memfd_create, "sim", 0); if (f >= 0) { std::string t = g_lib_os.on ? text() : "\n"; if (write(f, t.data(), t.size()) < 0) {} lseek(f, 0, SEEK_SET); g_lib_os.fds.insert(f); } return f; }
static int o_openat(int, const char *p, int f, int m) { return o_open(p, f, m); }
static int o_close(int f) { if (!g_lib_os.fds.erase(f)) { if (g_lib_os.on) g_lib_os.process++, g_lib_os.process_by = "close"; g_lib_os.err = EBADF; return -1; } return close(f); }
static ssize_t o_read(int f, void *p, size_t n) { if (refuse("read")) { g_lib_os.err = rnd() & 1 ? EINTR : EIO; return -1; } if (!g_lib_os.fds.count(f)) { g_lib_os.err = EBADF; return -1; } return read(f, p, g_lib_os.on && n ? 1 + rnd() % n : n); }
static int o_access(const char *, int) { return refuse("file") ? -1 : g_lib_os.on ? -(int)(rnd() & 1) : -1; }
static int o_stat(const char *, struct stat *) { g_lib_os.err = ENOENT; return -1; }
static void out(const char *by) { if (g_lib_os.on) { g_lib_os.outputs++; g_lib_os.output_by = by; } }
static ssize_t o_write(int, const void *, size_t n) { out("write"); if (refuse("write")) { g_lib_os.err = EPIPE; return -1; } return (ssize_t)n; }
static int o_print() { out("a printing function"); return refuse("write") ? -1 : 1; }
static size_t o_fwrite(const void *, size_t, size_t n, FILE *) { out("fwrite"); return refuse("write") ? 0 : n; }
static int o_process() { if (g_lib_os.on) { g_lib_os.process++; g_lib_os.process_by = "a service that changes the whole process (signals, locale, environment, limits, memory protection)"; } return refuse("process-wide change") ? -1 : 0; }
static long o_number() { g_lib_os.err = 0; return refuse("system value") ? -1 : g_lib_os.on ? (long)(rnd() >> (rnd() & 63) & 0x7fffffff) : 1; }
static unsigned long o_auxval(unsigned long) { return refuse("system value") ? 0 : g_lib_os.on ? (unsigned long)rnd() : 0; }
static time_t o_time(time_t *t) { time_t x = refuse("clock") ? -1 : (time_t)(g_lib_os.on ? rnd() >> 33 : 1700000000); if (t) *t = x; return x; }
static int o_clock_gettime(int, struct timespec *t) { if (refuse("clock")) { g_lib_os.err = EINVAL; return -1; } t->tv_sec = g_lib_os.on ? (time_t)(rnd() >> 34) : 1; t->tv_nsec = g_lib_os.on ? (long)(rnd() % 1000000000) : 0; return 0; }
static int o_gettimeofday(struct timeval *t, void *) { if (refuse("clock")) return -1; t->tv_sec = g_lib_os.on ? (time_t)(rnd() >> 34) : 1; t->tv_usec = 0; return 0; }
static ssize_t o_getrandom(void *p, size_t n, unsigned) { if (refuse("random numbers")) { g_lib_os.err = EAGAIN; return -1; } for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = g_lib_os.on ? (u8)rnd() : 7; return (ssize_t)n; }
static int *o_errno() { return &g_lib_os.err; }
u64 os_syscall(u64 nr) { (void)nr; S.fault("system-call instruction answered"); if (g_lib_os.on) { g_lib_os.requests++; static const int e[] = {ENOSYS, EPERM, EINTR, EAGAIN}; u64 x = rnd(); return x & 3 ? (u64)-(i64)e[x >> 8 & 3] : x >> 40; } return (u64)-(i64)ENOSYS; }
uptr os_service(const char *name, bool &heap) {
  static const struct { const char *n; uptr a; bool h; } tab[] = {
    {"malloc", (uptr)o_malloc, true}, {"calloc", (uptr)o_calloc, true}, {"realloc", (uptr)o_realloc, true}, {"free", (uptr)o_free, true}, {"cfree", (uptr)o_free, true}, {"posix_memalign", (uptr)o_posix_memalign, true},
    {"aligned_alloc", (uptr)o_memalign, true}, {"memalign", (uptr)o_memalign, true}, {"valloc", (uptr)o_valloc, true}, {"strdup", (uptr)o_strdup, true}, {"mmap", (uptr)o_mmap, false}, {"mmap64", (uptr)o_mmap, false}, {"munmap", (uptr)o_munmap, false},
    {"getenv", (uptr)o_getenv, false}, {"secure_getenv", (uptr)o_getenv, false}, {"fopen", (uptr)o_fopen, true}, {"fopen64", (uptr)o_fopen, true}, {"fclose", (uptr)o_fclose, true}, {"open", (uptr)o_open, false}, {"open64", (uptr)o_open, false}, {"__open_2", (uptr)o_open, false},
    {"openat", (uptr)o_openat, false}, {"close", (uptr)o_close, false}, {"read", (uptr)o_read, false}, {"__read_chk", (uptr)o_read, false}, {"access", (uptr)o_access, false}, {"stat", (uptr)o_stat, false}, {"stat64", (uptr)o_stat, false}, {"write", (uptr)o_write, false},
    {"printf", (uptr)o_print, true}, {"__printf_chk", (uptr)o_print, true}, {"fprintf", (uptr)o_print, true}, {"__fprintf_chk", (uptr)o_print, true}, {"vfprintf", (uptr)o_print, true}, {"puts", (uptr)o_print, true}, {"putchar", (uptr)o_print, true}, {"fputs", (uptr)o_print, true}, {"fputc", (uptr)o_print, true}, {"putc", (uptr)o_print, true}, {"perror", (uptr)o_print, true}, {"dprintf", (uptr)o_print, false}, {"syslog", (uptr)o_print, true}, {"fwrite", (uptr)o_fwrite, true}, {"fflush", (uptr)o_print, true},
    {"signal", (uptr)o_process, false}, {"sigaction", (uptr)o_process, false}, {"sigprocmask", (uptr)o_process, false}, {"pthread_sigmask", (uptr)o_process, false}, {"setlocale", (uptr)o_process, true}, {"setenv", (uptr)o_process, true}, {"putenv", (uptr)o_process, true}, {"prctl", (uptr)o_process, false}, {"setrlimit", (uptr)o_process, false},
    {"mprotect", (uptr)o_process, false}, {"mlock", (uptr)o_process, false}, {"madvise", (uptr)o_process, false}, {"sched_setaffinity", (uptr)o_process, false}, {"pthread_setaffinity_np", (uptr)o_process, false}, {"fesetround", (uptr)o_process, false}, {"feenableexcept", (uptr)o_process, false}, {"alarm", (uptr)o_process, false}, {"setitimer", (uptr)o_process, false}, {"raise", (uptr)o_process, false}, {"kill", (uptr)o_process, false}, {"pthread_create", (uptr)o_process, false}, {"fork", (uptr)o_process, false}, {"chdir", (uptr)o_process, false}, {"unlink", (uptr)o_process, false},
    {"sysconf", (uptr)o_number, false}, {"getpid", (uptr)o_number, false}, {"getppid", (uptr)o_number, false}, {"gettid", (uptr)o_number, false}, {"getuid", (uptr)o_number, false}, {"geteuid", (uptr)o_number, false}, {"sched_getcpu", (uptr)o_number, false}, {"get_nprocs", (uptr)o_number, false}, {"rand", (uptr)o_number, false}, {"random", (uptr)o_number, false}, {"lrand48", (uptr)o_number, false}, {"clock", (uptr)o_number, false}, {"getpagesize", (uptr)o_number, false}, {"syscall", (uptr)o_number, false}, {"sched_getaffinity", (uptr)o_number, false}, {"arc4random", (uptr)o_number, false}, {"getcpu", (uptr)o_number, false},
    {"getauxval", (uptr)o_auxval, false}, {"time", (uptr)o_time, false}, {"clock_gettime", (uptr)o_clock_gettime, false}, {"gettimeofday", (uptr)o_gettimeofday, false}, {"getrandom", (uptr)o_getrandom, false}, {"__errno_location", (uptr)o_errno, false}};
  for (auto &t : tab) if (!strcmp(t.n, name)) { heap = t.h; return t.a; }
  return 0;
}
