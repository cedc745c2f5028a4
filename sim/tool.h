// The repository's test/benchmark tool (tests/*.c), loaded into the simulator; its libc services are simulated while the hooks are set.
#pragma once
#include "common.h"
#include <signal.h>
#include <time.h>
#include <sys/time.h>
extern std::string g_tool_path; extern void *g_tool;
void tool_load(); void *tool_sym(const char *name, bool must = true);
void tool_pristine(); // gives the tool's static data the contents they had when it was loaded (a new process)
bool tool_in_text(uptr ip);
struct ToolHooks { // null = the real service
  bool (*alloc_fails)(size_t) = 0; // malloc, realloc
};
struct ToolOs { // services of tests/mera.c
  virtual int clock_gettime(clockid_t, struct timespec *) = 0; virtual int gettimeofday(struct timeval *) = 0; virtual time_t time() = 0; virtual int nanosleep(const struct timespec *) = 0;
  virtual int getcpu() = 0; virtual int setaffinity() = 0; virtual int prctl(int, uptr) = 0; virtual long perf_open() = 0; virtual int sigaction(int, const struct sigaction *, struct sigaction *) = 0;
  virtual int access(const char *) = 0; virtual void *mmap(size_t, int fd) = 0; virtual int munmap(void *, size_t) = 0; virtual int ioctl(int) = 0; virtual ssize_t read(int, void *, size_t) = 0; virtual int close(int) = 0;
};
extern ToolHooks g_th; extern ToolOs *g_os;
