// The operating system as the library would see it: heap, files, environment, clocks, identity, system calls. Answers are functions of a seed; requests can be refused.
#pragma once
#include "util.h"
struct Os {
  bool on = false;        // refuse and vary (C16); otherwise plain, always the same answers
  u64 rng = 0; unsigned rate = 0; u64 nth = 0; // chance of refusal (of 256); refuse just the nth request
  u64 requests = 0, refused = 0, outputs = 0, process = 0; std::string output_by, process_by; int err = 0;
  std::map<void *, size_t> heap; std::set<int> fds; std::set<void *> files;
  size_t held() const { return heap.size() + fds.size() + files.size(); }
};
extern Os g_lib_os;
void os_reset(bool on, u64 seed, unsigned rate, u64 nth);
struct OsOff { bool was; OsOff() : was(g_lib_os.on) { g_lib_os.on = false; } ~OsOff() { g_lib_os.on = was; } }; // what an ordinary process does
uptr os_service(const char *name, bool &heap); // 0: no such service
u64 os_syscall(u64 nr);                       // a system-call instruction of the library
