#include "stepworld.h"
#include "os.h"
#include <sys/mman.h>
static StepWorld *W;
typedef void (*init_t)(void *, u64, u64); typedef void (*upd_t)(void *, const void *, size_t); typedef u64 (*fin_t)(void *, u64 *);
static bool is_selfcheck(int fn) { return fn >= F_SC_ALL && fn < F_ALL; }

bool StepWorld::parse(const Scen &sc, Verdict &vv) {
  v = &vv;
  for (auto &l : sc) {
    if (keys.take(l)) continue;
    if (l.op == "v") im = need_img((int)l.arg(0), 0);
    else if (l.op == "c") { Item i; i.fn = (int)l.arg(1); i.key = (int)l.arg(2); i.seed = (u64)l.arg(3); i.ctx = (int)l.arg(4); prog[(int)l.arg(0)].push_back(i); }
    else if (l.op == "T") { if (task_grp.size() < 8) task_grp.push_back((int)l.arg(0)); }
    else if (l.op == "pol") { policy = true; pkind = (int)l.arg(0); pden = (unsigned)std::max<i64>(1, l.arg(1)); pmax = (unsigned)l.arg(2); prng = Rng((u64)l.arg(3)); phot = (unsigned)std::max<i64>(1, l.arg(4, 2)); }
    else if (l.op == "sgrp") sig_grps.push_back((int)l.arg(0));
    else if (l.op == "pk") picks[(u64)l.arg(0)] = (int)l.arg(1);
  }
  ev.resize(task_grp.size()); cursor.assign(task_grp.size(), 0);
  for (auto &l : sc) { int k = l.op == "sw" ? 1 : l.op == "sg" ? 2 : l.op == "ab" ? 3 : l.op == "ki" ? 4 : l.op == "mut" ? 5 : 0; if (!k) continue;
    int t = (int)l.arg(0); if (t >= 0 && t < (int)ev.size()) ev[t].push_back({(u64)l.arg(1), k, l.arg(2), l.arg(3), l.arg(4)}); }
  for (auto &e : ev) std::stable_sort(e.begin(), e.end(), [](const StepEv &a, const StepEv &b) { return a.n < b.n; });
  return im && !task_grp.empty();
}
/* writes to the library's own static or thread-local data are the interesting moments: they are detected by write
   protection and attract preemptions, signals and abandonment */
static void prot_statics(Image *im, int prot) { for (auto &s : im->segs) if (s.w) mprotect((void *)s.lo, s.hi - s.lo, prot); for (auto &s : g_tls_blocks) mprotect((void *)s.lo, s.hi - s.lo, prot); }
static bool in_statics(Image *im, uptr a) { for (auto &s : im->segs) if (s.w && a >= s.lo && a < s.hi) return true; for (auto &s : g_tls_blocks) if (a >= s.lo && a < s.hi) return true; return false; }
static bool watch_pager(uptr a, bool) { if (!W || !W->watch || !in_statics(W->im, a)) return false; prot_statics(W->im, PROT_READ | PROT_WRITE); W->rearm = true; W->hot = 4; W->writes++; return true; }
void StepWorld::rearm_watch() { if (watch) { prot_statics(im, PROT_READ); rearm = g_tls_fresh = false; } }
void StepWorld::unwatch() { if (watch) prot_statics(im, PROT_READ | PROT_WRITE); }

static u8 *inst_ctx(int inst, int id) { // every program instance has its own contexts
  size_t st = (g_ctx_size + 63) & ~(size_t)63; size_t o = PG + ((size_t)(inst % 64) * 4 + (id & 3)) * (st + 64); zone_commit(21, o, st + 64, 3); return zone(21) + o;
}
u8 *step_ctx(int inst, int id) { return inst_ctx(inst, id); }
static u64 *extra_word(size_t i) { zone_commit(22, PG, 16 * PG, 3); return (u64 *)(zone(22) + PG + (i % 4000) * 16); }

bool StepWorld::next_call(Task &t, CallSpec &cs) {
  auto &st = stk[t.id];
  if (st.empty()) return false;
  Inst &in = st.back(); auto &pg = prog[in.grp];
  for (;;) {
    if (in.pc >= pg.size()) { st.pop_back(); return false; }
    Item it = pg[in.pc]; int idx = (int)recs.size(); CallRec r; r.task = t.id; r.level = (int)st.size(); r.inst = in.id; r.it = it;
    const Key *k = keys.m.count(it.key) ? &keys.m[it.key] : 0; uptr kp = k ? (uptr)k->p : 0; u64 kl = k ? k->len : 0; uptr fn = 0; 
    if (it.fn >= C_IREL) { // loader
      if (it.fn == C_IREL) { if ((size_t)it.key >= im->irel.size()) { in.pc++; continue; } fn = im->irel[it.key].resolver; }
      else if (it.fn == C_BIND) { if (!im->t1ha0_resolver) { in.pc++; continue; } fn = im->t1ha0_resolver; }
      else if (it.fn == C_CTOR) { if ((size_t)it.key >= im->inits.size()) { in.pc++; continue; } fn = im->inits[it.key]; cs.p(0).p(0).p(0); }
      else { reloc_done = true; in.pc++; continue; }
      cs.fn = fn; in.cur = idx; in.pc++; recs.push_back(r); t.budget = 3000000; return true;
    }
    bool stream_op = it.fn >= F_INIT && it.fn <= F_FINAL; StreamLog *sl = 0;
    if (stream_op) {
      if (!im->f[it.fn]) { in.pc++; continue; }
      sl = &in.ctx[it.ctx & 3];
      if (it.fn == F_INIT) { *sl = StreamLog(); sl->ctx = inst_ctx(in.id, it.ctx); sl->sx = it.seed; sl->sy = seed_y(it.seed); sl->model.init(sl->sx, sl->sy); sl->live = true; cs.p((uptr)sl->ctx).q(sl->sx).q(sl->sy); }
      else if (!sl->live || sl->tainted) { in.pc++; continue; }
      else if (it.fn == F_UPDATE) { if (!k) { in.pc++; continue; } cs.p((uptr)sl->ctx).p(kp).p((uptr)kl); sl->model.update(k->b.data(), kl); sl->feeds.push_back({it.key, kl}); }
      else { r.hip = it.seed & 1 ? extra_word(idx) : 0; if (r.hip) *r.hip = 0; cs.p((uptr)sl->ctx).p((uptr)r.hip); r.stream_final = true; r.stream = *sl; sl->live = false; }
      fn = im->f[it.fn];
    } else if (is_selfcheck(it.fn)) { if (!im->f[it.fn]) { in.pc++; continue; } fn = im->f[it.fn]; }
    else if (it.fn == F_RESOLVE) { if (!im->f[F_RESOLVE]) { in.pc++; continue; } fn = im->f[F_RESOLVE]; }
    else if (it.fn == F_T1HA0) {
      if (!im->has(F_T1HA0) || !k) { in.pc++; continue; }
      if (it.ctx == 1 && im->f[F_RESOLVE]) { // resolve first, then call what it returned
        if (!in.res_pending) { in.res_pending = true; in.resolved = 0; cs.fn = im->f[F_RESOLVE]; r.it.fn = F_RESOLVE; in.cur = idx; recs.push_back(r); t.budget = wf_base ? wf_base : 3000000; return true; }
        in.res_pending = false; fn = (uptr)in.resolved;
      } else if (it.ctx == 2) { if (!captured) captured = im->t1ha0_addr(); fn = captured; S.fault("t1ha0 called through an address taken earlier"); }
      else if (it.ctx == 3 && im->client_t1ha0) { fn = im->client_t1ha0; S.fault("t1ha0 called by compiled client code"); }
      else fn = im->t1ha0_addr();
      cs.p(kp).p((uptr)kl).q(it.seed);
    } else if (is_hash(it.fn) && it.fn < F_S64) {
      if (!k || !fn_usable(im, it.fn)) { in.pc++; continue; }
      if (it.fn == F_2_128) { r.hip = extra_word(idx); *r.hip = 0; cs.p((uptr)r.hip); }
      fn = im->f[it.fn]; cs.p(kp).p((uptr)kl).q(it.seed);
    } else { in.pc++; continue; }
    t.budget = wf_base ? is_selfcheck(it.fn) ? wf_sc : wf_base + wf_per * (it.fn == F_INIT || it.fn == F_FINAL || it.fn == F_RESOLVE ? 0 : kl) : is_selfcheck(it.fn) ? 20000000 : 150000 + 100 * kl;
    cs.fn = fn; r.target = fn; in.cur = idx; in.pc++; recs.push_back(r); return true;
  }
}
void StepWorld::call_done(Task &t, u64 ret) {
  Inst &in = stk[t.id].back(); CallRec &r = recs[in.cur]; r.done = true; r.ret = ret; if (r.hip) r.hi = *r.hip; r.steps = t.callsteps;
  if (r.it.fn == C_IREL) *(uptr *)im->irel[r.it.key].slot = (uptr)ret; // (statics are writable again below if watched)
  else if (r.it.fn == C_BIND) im->ifunc_t1ha0 = (uptr)ret;
  else if (r.it.fn == F_RESOLVE) { r.ret = (uptr)ret; in.resolved = (uptr)ret; }
  if (r.it.fn == F_2_128 || is_hash(r.it.fn) || r.stream_final) v->ev(ret);
  in.cur = -1;
}
void StepWorld::call_abandoned(Task &t) {
  auto &st = stk[t.id];
  for (auto &in : st) if (in.cur >= 0) { CallRec &r = recs[in.cur]; r.aborted = true; int f = r.it.fn; if (f >= F_INIT && f <= F_FINAL) in.ctx[r.it.ctx & 3].tainted = true; in.cur = -1; in.res_pending = false; }
  if (st.size() > 1) st.resize(1);
}
void StepWorld::crashed(Task &t, const std::string &why) { if (!crashflag) { crashflag = true; crash_why = why; crash_rec = stk[t.id].empty() ? -1 : stk[t.id].back().cur; } g_m->stop = true; }
int StepWorld::other_task(int self) { std::vector<int> c; for (auto &t : M.tasks) if (t.id != self && runnable(t)) c.push_back(t.id); return c.empty() ? -1 : c[prng.below(c.size())]; }
Act StepWorld::fire(Task &t, int kind, i64 a, i64 b, i64 c, bool record) {
  Act x; v->ev(t.steps * 8 + kind); v->ev((u64)(t.id * 131 + a));
  const char *nm[] = {"", "sw", "sg", "ab", "ki", "mut"};
  if (loader_mode && kind >= 2 && kind <= 4) { if (!reloc_done) return x; if (kind > 2) for (auto &in : stk[t.id]) if (in.cur >= 0 && recs[in.cur].it.fn >= C_IREL) return x; } // the loader itself is not interrupted or abandoned
  switch (kind) {
  case 1: if (a < 0 || a >= (i64)M.tasks.size() || !runnable(M.tasks[a]) || a == t.id) return x; x.k = Act::SWITCH; x.to = (int)a; S.fault("preemption inside a call"); break;
  case 2: if (t.level() >= 3 || !prog.count((int)a) || stk[t.id].empty()) return x; { Inst in; in.grp = (int)a; in.id = ninst++; stk[t.id].push_back(in); } x.k = Act::SIGNAL; S.fault(t.level() ? "nested signal" : "signal inside a call"); break;
  case 3: x.k = Act::ABANDON; S.fault(t.level() ? "non-local exit from a handler" : "call abandoned"); break;
  case 4: x.k = Act::KILL; S.fault("thread killed inside a call"); break;
  case 5: { Key &k = keys.m[(int)a]; if (!k.p) return x; i64 rel = b; if (rel >= 0 && rel < (i64)k.len) rel = (i64)k.len; if (rel < -60 || rel > (i64)k.len + 60) return x; if (c < 256) { k.p[rel] = (u8)c; S.fault("neighbouring byte rewritten during a call"); break; }
    for (int i = 0; i < 16; i++) { i64 q = rel < 0 ? -1 - i : (i64)k.len + i; k.p[q] = (u8)(mix((u64)c) >> 8 * (i & 7)); } S.fault("16 neighbouring bytes rewritten at once during a call"); break; }
  }
  if (v->want_trace) v->note("thread %d at its instruction %llu (library+%#lx): %s %lld %lld %lld", t.id, (unsigned long long)t.steps, (unsigned long)((uptr)0), nm[kind], (long long)a, (long long)b, (long long)c);
  if (record) { if (kind == 5) v->extra.push_back(Line(nm[kind], {t.id, (i64)t.steps, a, b, c})); else v->extra.push_back(Line(nm[kind], {t.id, (i64)t.steps, a})); fired++; }
  return x;
}
Act StepWorld::on_step(Task &t, uptr) {
  Act x; if (rearm || g_tls_fresh) rearm_watch();
  auto &e = ev[t.id]; size_t &c = cursor[t.id];
  while (c < e.size() && e[c].n <= t.steps) { StepEv s = e[c++]; x = fire(t, s.kind, s.a, s.b, s.c, false); if (x.k != Act::CONT) return x; }
  if (t.callsteps && t.callsteps % 100000 == 99999) { int r = 0; for (auto &o : M.tasks) if (o.id != t.id && runnable(o)) { r = 1; x.k = Act::SWITCH; x.to = o.id; break; } if (r) return x; } // fairness for code that waits
  if (policy && (fired < pmax)) {
    bool go = hot > 0 && hotbias ? prng.chance(1, phot) : prng.chance(1, pden); if (hot > 0) hot--;
    if (go) {
      int kind = 0; unsigned pk = (unsigned)pkind;
      int can[4], n = 0; if (pk & 1) can[n++] = 1; if ((pk & 2) && !sig_grps.empty()) can[n++] = 2; if (pk & 4) can[n++] = 3; if (pk & 8) can[n++] = 4;
      if (pk & 16) { i64 rel = prng.chance(1, 2) ? -1 - (i64)prng.below(16) : (i64)prng.below(16); auto it = keys.m.begin(); std::advance(it, prng.below(keys.m.size())); if (rel >= 0) rel += (i64)it->second.len; return fire(t, 5, it->first, rel, prng.chance(2, 3) ? 256 + (i64)prng.below(100000) : (i64)prng.below(256), true); }
      if (!n) return x; kind = can[prng.below(n)];
      if (kind == 1) { int o = other_task(t.id); if (o >= 0) return fire(t, 1, o, 0, 0, true); }
      else if (kind == 2) { if (t.level() < 3) return fire(t, 2, sig_grps[prng.below(sig_grps.size())], 0, 0, true); }
      else if (kind == 3) return fire(t, 3, 0, 0, 0, true);
      else { int ready = 0; for (auto &o : M.tasks) ready += runnable(o); if (ready > 1) return fire(t, 4, 0, 0, 0, true); }
    }
  }
  return x;
}
int StepWorld::pick_next(std::vector<Task> &ts, int prev) {
  u64 k = npick++; int def = -1; for (auto &t : ts) if (t.id != prev && runnable(t)) { def = t.id; break; }
  if (def < 0) { for (auto &t : ts) if (runnable(t)) def = t.id; return def; }
  auto it = picks.find(k);
  if (it != picks.end() && it->second >= 0 && it->second < (int)ts.size() && it->second != prev && runnable(ts[it->second])) def = it->second;
  else if (policy && (pkind & 1)) { int o = other_task(prev); if (o >= 0 && o != def) { def = o; v->extra.push_back(Line("pk", {(i64)k, o})); } }
  v->ev(900 + def); return def;
}
void StepWorld::execute(u64 poison) {
  W = this; M.reset(poison); M.cpu = cpu; M.world = this; stk.clear(); stk.resize(task_grp.size()); ninst = 0; recs.clear(); recs.reserve(4096);
  for (size_t i = 0; i < task_grp.size(); i++) { M.add_task(); Inst in; in.grp = task_grp[i]; in.id = ninst++; for (auto &q : preset) if (q.first.first == (int)i) in.ctx[q.first.second] = q.second; stk[i].push_back(in); }
  g_pager = watch ? watch_pager : 0; if (loader_mode) watch = false, g_pager = 0; if (watch) rearm_watch();
  M.max_steps = 30000000; M.run();
  unwatch(); g_pager = 0; W = 0; if (writes) S.probe("write to library statics seen", writes);
}
Res solo_call(Image *im, const Item &it, const Key &k) { OsOff o; im->reset_ready(); sim_sync_reset(); return ncall(im, it.fn, k.p ? k.p : 0, (size_t)k.len, it.seed); }
bool solo_stream(Image *im, const StreamLog &s, const std::map<int, Key> &keys, bool wide, u64 &r, u64 &hi) {
  OsOff o; im->reset_ready(); sim_sync_reset(); u8 *c = ctx_mem(2); memset(c, 0, g_ctx_size); u64 h = 0, x = 0; NativeGuard g;
  bool ok = g.run([&] { ((init_t)im->f[F_INIT])(c, s.sx, s.sy); for (auto &f : s.feeds) ((upd_t)im->f[F_UPDATE])(c, keys.at(f.first).p, (size_t)f.second); x = ((fin_t)im->f[F_FINAL])(c, wide ? &h : 0); });
  r = x; hi = h; return ok;
}
void judge(StepWorld &w, Verdict &v) {
  OsOff os;  Image *im = w.im;
  if (w.crashflag) {
    bool real = true; std::string what = "?";
    if (w.crash_rec >= 0) { CallRec &r = w.recs[w.crash_rec]; what = r.it.fn < F_ALL ? fn_name[r.it.fn] : "start-up code";
      if (is_hash(r.it.fn) && w.keys.m.count(r.it.key)) real = solo_call(im, r.it, w.keys.m[r.it.key]).ok;
      else if (is_selfcheck(r.it.fn)) { im->reset_ready(); real = nselfcheck(im, r.it.fn, 0) != -1000; }
      else if (r.it.fn == F_UPDATE || r.it.fn == F_FINAL) { u64 a, b; StreamLog s = r.stream_final ? r.stream : StreamLog(); if (r.stream_final) real = solo_stream(im, s, w.keys.m, r.hip != 0, a, b); } }
    if (real) v.fail("crash", strf("build %s: %s: %s", im->variant.c_str(), what.c_str(), w.crash_why.c_str()));
    return;
  }
  for (size_t i = 0; i < w.recs.size(); i++) {
    CallRec &r = w.recs[i]; if (!r.done) continue;
    if (r.stream_final) {
      bool wide = r.hip != 0; u64 mh = 0, m = wide ? r.stream.model.final128(&mh) : r.stream.model.final64(); S.probe("stream digest compared");
      if (r.ret != m || r.hi != mh) { u64 a, b; bool ok = solo_stream(im, r.stream, w.keys.m, wide, a, b); if (ok && (a != r.ret || b != r.hi)) { v.fail("result", strf("build %s: thread %d: stream digest %016llx%016llx, alone it is %016llx%016llx", im->variant.c_str(), r.task, (unsigned long long)r.hi, (unsigned long long)r.ret, (unsigned long long)b, (unsigned long long)a)); return; } }
    } else if (is_hash(r.it.fn)) {
      Key &k = w.keys.m[r.it.key]; u64 mh = 0, m = r.it.fn == F_T1HA0 ? model_fn(best_t1ha0(im), k.b.data(), k.len, r.it.seed, &mh) : model_fn(r.it.fn, k.b.data(), k.len, r.it.seed, &mh); S.probe("hash result compared");
      if (r.ret != m || r.hi != mh) { Res s = solo_call(im, r.it, k); if (s.ok && (s.r != r.ret || s.hi != r.hi)) { v.fail("result", strf("build %s: thread %d%s: %s(len %llu, seed %llx) returned %016llx%016llx, alone it returns %016llx%016llx", im->variant.c_str(), r.task, r.level > 1 ? " (in a handler)" : "", fn_name[r.it.fn], (unsigned long long)k.len, (unsigned long long)r.it.seed, (unsigned long long)r.hi, (unsigned long long)r.ret, (unsigned long long)s.hi, (unsigned long long)s.r)); return; } }
    } else if (is_selfcheck(r.it.fn)) {
      S.probe("self-check verdict compared");
      if ((int)r.ret != 0) { im->reset_ready(); sim_sync_reset(); int s = nselfcheck(im, r.it.fn, 0); if (s != (int)r.ret) { v.fail("verdict", strf("build %s: thread %d: %s returned %d, alone it returns %d", im->variant.c_str(), r.task, fn_name[r.it.fn], (int)r.ret, s)); return; } }
    } else if (r.it.fn == F_RESOLVE) { im->reset_ready(); uptr s = 0; NativeGuard g; if (g.run([&] { s = ((uptr(*)())im->f[F_RESOLVE])(); }) && s != (uptr)r.ret) { v.fail("result", strf("build %s: t1ha0_resolve returned something else than alone", im->variant.c_str())); return; } }
  }
}
