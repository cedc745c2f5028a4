// Scenario engine for stepped runs: programs of library calls executed by simulated threads under an explicit or
// PRNG-driven schedule, with nested interrupts, abandonment, kills, memory mutators and process start-up.
#pragma once
#include "common.h"
enum { C_IREL = 100, C_BIND, C_CTOR, C_RAWREADY }; // loader actions (C08)
struct Item { int fn = 0, key = 0, ctx = 0; u64 seed = 0; };
struct StreamLog { bool live = false, tainted = false; u8 *ctx = 0; u64 sx = 0, sy = 0; MStream model = {}; std::vector<std::pair<int, u64>> feeds; };
struct CallRec { int task, level, inst; Item it; bool done = false, aborted = false, skipped = false; u64 ret = 0, hi = 0; u64 *hip = 0; uptr target = 0; bool stream_final = false; StreamLog stream; u64 steps = 0; };
struct StepEv { u64 n; int kind; i64 a, b, c; bool used = false; };
struct Inst { int grp = 0; size_t pc = 0; std::map<int, StreamLog> ctx; int cur = -1; u64 resolved = 0; bool res_pending = false; int id = 0; };
struct StepWorld : World {
  Image *im = 0; Verdict *v = 0; Keys keys; std::map<int, std::vector<Item>> prog; std::vector<int> task_grp; std::vector<std::vector<Inst>> stk; std::vector<CallRec> recs;
  std::vector<std::vector<StepEv>> ev; std::vector<size_t> cursor; std::map<u64, int> picks; u64 npick = 0;
  // policy
  int pkind = 0; unsigned pden = 0, pmax = 0, phot = 2; Rng prng; std::vector<int> sig_grps; bool policy = false; unsigned fired = 0; int hot = 0; bool hotbias = true;
  bool watch = true; bool rearm = false; u64 writes = 0;
  u64 wf_base = 0, wf_per = 0, wf_sc = 0; std::map<std::pair<int, int>, StreamLog> preset; // C15: work bound of each call; streams that exist before the run
  bool crashflag = false; std::string crash_why; int crash_rec = -1; bool loader_mode = false; bool reloc_done = true; u64 loader_cookie = 0; int ninst = 0;
  SimCpu cpu; uptr captured = 0; // t1ha0's address as taken by the first caller of route 2
  bool parse(const Scen &, Verdict &);
  void execute(u64 poison);   // one simulated execution
  void rearm_watch(); void unwatch();
  bool next_call(Task &, CallSpec &) override; void call_done(Task &, u64) override; void call_abandoned(Task &) override;
  Act on_step(Task &, uptr) override; int pick_next(std::vector<Task> &, int prev) override; void crashed(Task &, const std::string &) override;
  bool runnable(const Task &t) const { return t.st == Task::READY && (t.id == 0 || reloc_done); }
  int other_task(int self);
  Act fire(Task &, int kind, i64 a, i64 b, i64 c, bool record);
  Machine M;
};
u8 *step_ctx(int inst, int id);
Res solo_call(Image *, const Item &, const Key &); // natively, alone, in a fresh process
bool solo_stream(Image *, const StreamLog &, const std::map<int, Key> &, bool wide, u64 &r, u64 &hi);
// default oracle: every finished hash call and stream final equals the model, or at least what it returns when run alone
void judge(StepWorld &, Verdict &);
