// C02: a copied context is a complete, relocatable checkpoint; crashes at any instruction lose nothing that was saved.
#include "streams.h"
#include <sys/mman.h>
struct Saved { bool have = false; std::vector<u8> ctx; Strm st; };
struct CrashWorld : World {
  CallSpec cs; bool given = false, done = false, crash = false; u64 at = 0; std::string why; u64 ret = 0;
  bool next_call(Task &, CallSpec &c) override { if (given) return false; given = true; c = cs; return true; }
  void call_done(Task &, u64 r) override { done = true; ret = r; }
  Act on_step(Task &t, uptr) override { Act a; if (t.callsteps >= at) { a.k = Act::STOP; } return a; }
  int pick_next(std::vector<Task> &ts, int) override { return ts[0].st == Task::READY ? 0 : -1; }
  void crashed(Task &, const std::string &w) override { crash = true; why = w; g_m->stop = true; }
};
static u64 solo_final(Image *im, const Strm &s, bool wide, u64 &hi, bool &ok) { // the uninterrupted stream with the same fragmentation, in a fresh process
  im->reset_ready(); sim_sync_reset(); u64 r = 0, h = 0; u8 *c = ctx_mem(1); fill(c, g_ctx_size, 3, 20202); std::vector<u8> b = s.bytes; b.resize(b.size() + 64);
  NativeGuard g; ok = g.run([&] { ((init_t)im->f[F_INIT])(c, s.sx, s.sy); for (auto &p : s.pieces) ((upd_t)im->f[F_UPDATE])(c, b.data() + p.at, p.n); r = ((fin_t)im->f[F_FINAL])(c, wide ? &h : 0); });
  hi = h; return r;
}
// memory that held a context of the same seeds, of which some words have been overwritten
static void look_alike(Image *im, u8 *c, u64 sx, u64 sy, i64 s) {
  Rng r(mix((u64)s)); fill(c, g_ctx_size, 3, s); NativeGuard g; static u8 b[64]; size_t n = r.chance(1, 2) ? 0 : r.below(64);
  g.run([&] { ((init_t)im->f[F_INIT])(c, sx, sy); if (n) ((upd_t)im->f[F_UPDATE])(c, b, n); }); int k = 1 + (int)r.below(4); while (k--) { size_t o = r.below(g_ctx_size / 8) * 8; u64 x = r.chance(1, 3) ? 0 : r.next(); memcpy(c + o, &x, 8); }
  S.fault("context memory resembling a fresh context");
}
static void run(const Scen &sc, Verdict &v) {
  for (int i = 0; i < N_VAR; i++) for (int k = 0; k < 2; k++) if (img(i, k)) img(i, k)->hide(false);
  int var = 0; Image *im = 0; std::map<int, Strm> st; std::map<int, Saved> disk; zones_reset(); bool arm = false; u64 at = 0; int to = 0; int ops = 0; int boots = 0;
  static Machine M;
  for (auto &l : sc) {
    if (l.op == "v") { var = (int)l.arg(0); im = need_img(var, 0); continue; }
    if (!im) continue;
    int id = (int)l.arg(0); auto it = st.find(id);
    auto live = [&] { return it != st.end() && it->second.live; };
    if (l.op == "th") { int was = g_tls_task; g_tls_task = (int)(l.arg(0) & 7); if (l.arg(1) && was != g_tls_task) { tls_thread_end(was); S.fault("thread ended"); } S.fault("continued in another thread"); continue; }
    if (l.op == "cr") { arm = true; at = (u64)l.arg(0); to = (int)(l.arg(1) & 1); continue; }
    if (l.op == "sv") { if (!live()) continue; Saved &d = disk[id]; d.have = true; d.ctx.assign(it->second.ctx, it->second.ctx + g_ctx_size); d.st = it->second; S.fault("checkpoint taken"); ops++; v.ev(id + 1000); continue; }
    if (l.op == "rb") { auto d = disk.find(id); if (!live() || d == disk.end() || !d->second.have) continue; u8 *c = it->second.ctx; it->second = d->second.st; it->second.ctx = c; memcpy(c, d->second.ctx.data(), g_ctx_size); S.fault("rolled back in place"); ops++; v.ev(id + 4000); continue; }
    if (l.op == "xc") { auto o = st.find((int)l.arg(1)); if (!live() || o == st.end() || o == it || !o->second.live) continue; std::vector<u8> t(it->second.ctx, it->second.ctx + g_ctx_size); memcpy(it->second.ctx, o->second.ctx, g_ctx_size); memcpy(o->second.ctx, t.data(), g_ctx_size); std::swap(it->second.ctx, o->second.ctx); S.fault("two contexts exchanged"); ops++; v.ev(id + 5000); continue; }
    if (l.op == "ck") { if (!live()) continue; int dst = (int)l.arg(1); if (dst == id) continue; Strm n = it->second; u8 *c = ctx_at((int)l.arg(2), (int)l.arg(3));
      for (auto &o : st) if (o.second.live && o.second.ctx < c + g_ctx_size && c < o.second.ctx + g_ctx_size) { c = 0; break; } if (!c) continue;
      memcpy(c, n.ctx, g_ctx_size); n.ctx = c; st[dst] = n; S.fault("context forked"); ops++; v.ev(id + 2000); continue; }
    if (l.op == "mv") { if (!live()) continue; u8 *c = ctx_at((int)l.arg(1), (int)l.arg(2)); bool clash = false;
      for (auto &o : st) if (o.second.live && o.second.ctx < c + g_ctx_size && c < o.second.ctx + g_ctx_size) clash = true; if (clash) continue;
      memcpy(c, it->second.ctx, g_ctx_size); fill(it->second.ctx, g_ctx_size, 3, l.arg(3)); it->second.ctx = c; S.fault("context moved"); ops++; v.ev(id + 3000); continue; }
    CallSpec cs; bool again = l.op == "ri", init = l.op == "s" || again, upd = l.op == "u", fin = l.op == "f", wide = l.arg(1) & 1; if (!init && !upd && !fin) continue;
    static u64 hi; hi = 0; u64 ret = 0; u8 *p = 0; u64 n = 0;
    if (again && it == st.end()) continue;
    if (init) { Strm s; s.ctx = again ? it->second.ctx : ctx_at((int)l.arg(3), (int)l.arg(4)); s.sx = again && l.arg(3) ? it->second.sx : (u64)l.arg(1); s.sy = again && l.arg(3) ? it->second.sy : (u64)l.arg(2); bool clash = false;
      for (auto &o : st) if (o.first != id && o.second.live && o.second.ctx < s.ctx + g_ctx_size && s.ctx < o.second.ctx + g_ctx_size) clash = true; if (clash) continue;
      if (again) S.fault("context initialised again in place"); else if (l.arg(5) < -2) look_alike(im, s.ctx, s.sx, s.sy, l.arg(5)); else if (l.arg(5) != -1) fill(s.ctx, g_ctx_size, l.arg(5) == -2 ? 1 : l.arg(5) == 0 ? 0 : 3, l.arg(5));
      s.model.init(s.sx, s.sy); st[id] = s; it = st.find(id); it->second.live = true; cs.fn = im->f[F_INIT]; cs.p((uptr)s.ctx).q(s.sx).q(s.sy); }
    else if (!live()) continue;
    Strm &s = it->second;
    if (upd) { n = (u64)l.arg(1) & 0xffff; int z = (l.arg(4) >> 16) & 7; size_t off = l.arg(4) & 0xffff; zone_commit(z, off, n + 1, 3); p = zone(z) + off; fill(p, n, (int)l.arg(2), l.arg(3)); cs.fn = im->f[F_UPDATE]; cs.p((uptr)s.ctx).p((uptr)p).p((uptr)n); }
    if (fin) { cs.fn = im->f[F_FINAL]; cs.p((uptr)s.ctx).p(wide ? (uptr)&hi : 0); }
    bool finished = true; ops++;
    if (arm) {
      CrashWorld w; w.cs = cs; w.at = at; M.reset(at * 31 + 7); M.world = &w; M.add_task().budget = 4000000; M.run();
      if (w.crash) { v.fail("crash", strf("%s: %s in %s", im->variant.c_str(), w.why.c_str(), l.op.c_str())); return; }
      finished = w.done; ret = w.ret; S.fault(w.done ? "crash right after a call" : "crash inside a call"); v.ev(M.steps);
      v.note("crash of the process at instruction %llu of %s (%s)", (unsigned long long)M.steps, init ? "t1ha2_init" : upd ? "t1ha2_update" : "t1ha2_final", finished ? "call had returned" : "call in progress");
    } else {
      NativeGuard g; bool ok = g.run([&] { if (init) ((init_t)cs.fn)(s.ctx, s.sx, s.sy); else if (upd) ((upd_t)cs.fn)(s.ctx, p, (size_t)n); else ret = ((fin_t)cs.fn)(s.ctx, wide ? &hi : 0); }); S.calls++;
      if (!ok) { Strm t = s; if (upd) { t.pieces.push_back({t.bytes.size(), (size_t)n}); t.bytes.insert(t.bytes.end(), p, p + n); } bool sok; u64 h2; solo_final(im, t, wide, h2, sok); if (sok) v.fail("crash", strf("%s: %s in %s", im->variant.c_str(), g.why.c_str(), l.op.c_str())); return; }
    }
    if (upd) { s.model.update(p, n); s.pieces.push_back({s.bytes.size(), (size_t)n}); s.bytes.insert(s.bytes.end(), p, p + n); fill(p, n, 3, l.arg(3) + 5); }
    if (fin && finished) {
      u64 mh = 0, m = wide ? s.model.final128(&mh) : s.model.final64(); s.live = false; v.ev(ret ^ hi); S.probe("digest compared"); if (boots) S.probe("digest compared after a restart");
      v.note("stream %d: %zu bytes, digest %016llx %016llx, expected %016llx %016llx", id, s.bytes.size(), (unsigned long long)hi, (unsigned long long)ret, (unsigned long long)mh, (unsigned long long)m);
      if (ret != m || hi != mh) { bool ok; u64 h2, r2; std::vector<std::vector<u8>> sv; im->snapshot(sv); r2 = solo_final(im, s, wide, h2, ok);
        if (ok && (r2 != ret || h2 != hi)) { v.fail("digest", strf("build %s: stream %d (%zu bytes in %zu pieces, %d restarts) gives %016llx%016llx, the uninterrupted stream gives %016llx%016llx", im->variant.c_str(), id, s.bytes.size(), s.pieces.size(), boots, (unsigned long long)hi, (unsigned long long)ret, (unsigned long long)h2, (unsigned long long)r2)); return; }
        S.probe("differs from the published digest even uninterrupted (not this property)"); im->restore(sv); }
    }
    if (arm) { // restart: only saved contexts survive, everything else in memory is garbage; the library may be mapped elsewhere
      arm = false; boots++; Image *nim = need_img(var, to); if (nim != im) im->hide(true); nim->hide(false); im = nim; im->reset_ready(); sim_sync_reset(); zones_reset(); std::map<int, Strm> ns; int slot = (int)(at % 7);
      for (auto &d : disk) if (d.second.have) { Strm r = d.second.st; r.ctx = ctx_at(slot, (int)((at * 64 + slot * 32) % 4096)); slot++; memcpy(r.ctx, d.second.ctx.data(), g_ctx_size); ns[d.first] = r; S.fault("restored from a checkpoint"); }
      st = ns; for (int i = 0; i < 4; i++) { zone_commit(i, PG, 4 * PG, 3); fill(zone(i) + PG, 4 * PG, 3, (i64)at + i); }
    }
  }
  v.nontrivial = ops > 3;
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  (void)idx; int var = pick_variant(r); sc.push_back({"v", {var}}); int ns = 1 + (int)r.below(3), nops = 6 + (int)r.below(r.chance(1, 5) ? 60 : 22); int slot = 0; bool crashy = r.chance(2, 3);
  auto nslot = [&] { slot = (slot + 1) % 30; return slot; };
  auto off = [&] { return r.chance(1, 3) ? -1 : (i64)r.below(4000); };
  auto start = [&](int i) { u64 sx = gen_seed(r), sy = r.chance(1, 5) ? sx : gen_seed(r); int g = (int)r.below(8); sc.push_back({"s", {i, (i64)sx, (i64)sy, nslot(), off(), g == 0 ? -1 : g == 1 ? -2 : g == 2 ? 0 : g == 3 ? -3 - (i64)r.below(100000) : (i64)r.below(100000) + 1}}); };
  auto again = [&](int i) { sc.push_back({"ri", {i, (i64)gen_seed(r), (i64)gen_seed(r), r.chance(2, 3) ? 1 : 0}}); };
  auto piece = [&](int i, u64 n) { i64 cs; int k = gen_fill(r, cs); sc.push_back({"u", {i, (i64)n, k, cs, (i64)((r.below(4) << 16) | (gen_off(r, n) & 0x7fff))}}); };
  for (int i = 0; i < ns; i++) start(i);
  for (int k = 0; k < nops; k++) {
    int i = (int)r.below(ns + 2);
    switch (r.below(12)) {
    case 0: case 1: case 2: case 3: case 4: { u64 n = r.chance(1, 2) ? r.below(70) : r.chance(1, 2) ? r.pick<u64>({0, 31, 32, 33, 64, 65, 96}) : gen_len(r, 3000);
      if (crashy && r.chance(1, 6)) { if (r.chance(2, 3)) sc.push_back({"sv", {i}}); sc.push_back({"cr", {(i64)(r.chance(1, 3) ? r.below(30) : r.below(40 + n / 2)), (i64)r.below(2)}}); } piece(i, n); break; }
    case 5: sc.push_back({"sv", {i}}); if (r.chance(1, 3)) { int c = 1 + (int)r.below(3); while (c--) piece(i, r.below(70)); sc.push_back({"rb", {i}}); if (r.chance(1, 2)) sc.push_back({"f", {i, (i64)r.below(2)}}); } break;
    case 6: if (r.chance(1, 2)) sc.push_back({"rb", {i}}); else if (r.chance(1, 2)) sc.push_back({"sv", {i}}); else sc.push_back({"xc", {i, (i64)r.below(ns + 2)}}); break;
    case 7: sc.push_back({"ck", {(i64)r.below(ns), (i64)(ns + r.below(3)), nslot(), off()}}); break;
    case 8: sc.push_back({"mv", {i, nslot(), off(), (i64)r.below(1000)}}); break;
    case 9: sc.push_back({"th", {(i64)r.below(3), (i64)r.below(2)}}); break;
    case 10: { if (crashy && r.chance(1, 3)) { sc.push_back({"sv", {i}}); sc.push_back({"cr", {(i64)r.below(120), (i64)r.below(2)}}); } sc.push_back({"f", {i, (i64)r.below(2)}}); if (i < ns) { if (r.chance(1, 3)) again(i); else start(i); } break; }
    default: if (r.chance(1, 3)) again(i); else if (r.chance(1, 3)) start((int)r.below(ns)); else piece(i, r.below(40)); break;
    }
  }
  for (int i = 0; i < ns + 3; i++) sc.push_back({"f", {i, (i64)r.below(2)}});
}
static PropReg reg("C02", gen, run, 0, "One run = a sequence of stream operations interleaved with checkpoints (context bytes saved), forks, moves, thread changes and process crashes at a chosen machine instruction inside init, update or final, after which only saved contexts survive (at other addresses, the library mapped elsewhere). Every finished digest must equal that of the uninterrupted stream. Non-trivial: more than three operations executed; distinct: different hash of the event log.");
