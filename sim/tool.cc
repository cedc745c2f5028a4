// Loads the tool and interposes the libc services it uses: malloc and realloc for every shared object of the process, the others (see WRAPPED in run_check.py) for the tool alone.
#include "tool.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>
std::string g_tool_path; void *g_tool; ToolHooks g_th; ToolOs *g_os;
extern "C" {
void *__libc_malloc(size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { if (g_th.alloc_fails && g_th.alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *realloc(void *p, size_t n) { if (g_th.alloc_fails && g_th.alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { return g_os ? g_os->clock_gettime(c, t) : clock_gettime(c, t); }
int __wrap_gettimeofday(struct timeval *t, void *z) { return g_os ? g_os->gettimeofday(t) : gettimeofday(t, 0); }
time_t __wrap_time(time_t *p) { time_t t = g_os ? g_os->time() : time(0); if (p) *p = t; return t; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) { return g_os ? g_os->nanosleep(t) : nanosleep(t, rem); }
int __wrap_sched_getcpu() { return g_os ? g_os->getcpu() : sched_getcpu(); }
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) { return g_os ? g_os->setaffinity() : sched_setaffinity(p, n, s); }
int __wrap_prctl(int o, ...) { va_list v; va_start(v, o); uptr a = va_arg(v, uptr), b = va_arg(v, uptr), c = va_arg(v, uptr), d = va_arg(v, uptr); va_end(v); return g_os ? g_os->prctl(o, a) : prctl(o, a, b, c, d); }
long __wrap_syscall(long n, ...) { va_list v; va_start(v, n); long a[6]; for (long &x : a) x = va_arg(v, long); va_end(v); if (g_os && n == SYS_perf_event_open) return g_os->perf_open(); return syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]); }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { return g_os ? g_os->sigaction(s, a, o) : sigaction(s, a, o); }
int __wrap_access(const char *p, int m) { return g_os ? g_os->access(p) : access(p, m); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return g_os ? g_os->mmap(n, fd) : mmap(a, n, p, f, fd, o); }
int __wrap_munmap(void *a, size_t n) { return g_os ? g_os->munmap(a, n) : munmap(a, n); }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list v; va_start(v, r); long a = va_arg(v, long); va_end(v); return g_os ? g_os->ioctl(fd) : ioctl(fd, r, a); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return g_os ? g_os->read(fd, b, n) : read(fd, b, n); }
int __wrap_close(int fd) { return g_os ? g_os->close(fd) : close(fd); }
long __wrap_sysconf(int n) { return g_os ? 64 : sysconf(n); }
}
struct ToolSeg { u8 *p; std::vector<u8> b; }; static std::vector<ToolSeg> segs; static uptr t_lo, t_hi;
void tool_load() {
  if (g_tool) return;
  g_tool = dlopen(g_tool_path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!g_tool) die("tool: %s", dlerror());
  struct link_map *lm = 0; dlinfo(g_tool, RTLD_DI_LINKMAP, &lm);
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *want) {
    if ((void *)i->dlpi_addr != want) return 0;
    uptr relro = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relro = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + PG - 1) & ~(uptr)(PG - 1);
    for (int k = 0; k < i->dlpi_phnum; k++) {
      auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD) continue; u8 *a = (u8 *)(i->dlpi_addr + h.p_vaddr), *e = a + h.p_memsz;
      if (h.p_flags & PF_X) { t_lo = (uptr)a; t_hi = (uptr)e; }
      if (h.p_flags & PF_W) { if ((uptr)a < relro) a = (u8 *)relro; if (a < e) segs.push_back({a, std::vector<u8>(a, e)}); }
    }
    return 1; }, (void *)lm->l_addr);
  if (segs.empty() || !t_lo) die("tool: segments not found");
}
void tool_pristine() { for (auto &s : segs) memcpy(s.p, s.b.data(), s.b.size()); }
bool tool_in_text(uptr ip) { return ip >= t_lo && ip < t_hi; }
void *tool_sym(const char *n, bool must) { void *p = dlsym(g_tool, n); if (!p && must) die("tool: no symbol %s", n); return p; }
