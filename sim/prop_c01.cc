// C01: the stream digest depends only on the bytes and seeds, never on the delivery.
#include "streams.h"
#include <sys/mman.h>
#include <unistd.h>
static void run(const Scen &sc, Verdict &v) {
  Image *im = 0; std::map<int, Strm> st; zones_reset(); int ops = 0; static std::vector<u8> tmp;
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0)); continue; }
    if (!im) continue;
    int id = (int)l.arg(0); std::string why;
    auto guarded = [&](const char *what, auto fx) { NativeGuard g; if (g.run(fx)) return true; v.fail("crash", strf("%s: %s: %s", im->variant.c_str(), what, g.why.c_str())); return false; };
    if (l.op == "s") {
      Strm &s = st[id]; u8 *c = ctx_at((int)l.arg(3), (int)l.arg(4)); 
      for (auto &o : st) if (o.second.live && &o.second != &s && o.second.ctx < c + g_ctx_size && c < o.second.ctx + g_ctx_size) o.second.live = false; // the memory was given to another stream
      s = Strm(); s.ctx = c; s.sx = (u64)l.arg(1); s.sy = (u64)l.arg(2);
      if (l.arg(5) == -1) S.fault("context initialised again in place"); else fill(s.ctx, g_ctx_size, l.arg(5) ? 3 : 0, l.arg(5));
      s.model.init(s.sx, s.sy); s.live = true;
      if (!guarded("t1ha2_init", [&] { ((init_t)im->f[F_INIT])(s.ctx, s.sx, s.sy); })) return;
      ops++;
    } else if (l.op == "u" || l.op == "r") {
      auto it = st.find(id); if (it == st.end() || !it->second.live) continue; Strm &s = it->second;
      if (l.op == "r") { // many tiny pieces
        u64 n = (u64)l.arg(1) % 400000, k = (u64)l.arg(2) % 4096; tmp.resize(k + 1); fill(tmp.data(), k, (int)l.arg(3), l.arg(4));
        bool ok = guarded("t1ha2_update", [&] { for (u64 i = 0; i < n; i++) { if (k) tmp[i % k] ^= (u8)i; s.model.update(tmp.data(), k); ((upd_t)im->f[F_UPDATE])(s.ctx, tmp.data(), k); } });
        S.fault("many tiny pieces", n); if (!ok) return; ops++; continue;
      }
      u64 n = (u64)l.arg(1) & 0x1fffff; int place = (int)l.arg(4), fate = (int)l.arg(5); int z = (place >> 16) & 7; size_t off = place & 0xffff;
      zone_commit(z, off, n + 1, 3); u8 *p = zone(z) + off; fill(p, n, (int)l.arg(2), l.arg(3));
      for (size_t q = 6; q + 1 < l.a.size(); q += 2) for (int b = 0; b < 8; b++) if ((u64)l.a[q] + b < n) p[(u64)l.a[q] + b] = (u8)((u64)l.a[q + 1] >> 8 * b);
      s.model.update(p, n);
      if (fate & 8) zone_commit(z, off, n + 1, PROT_READ);
      if (!guarded("t1ha2_update", [&] { ((upd_t)im->f[F_UPDATE])(s.ctx, p, (size_t)n); })) return;
      S.calls++; S.fault("short read (piece boundary)");
      switch (fate & 7) { case 1: zone_commit(z, off, n + 1, 3); fill(p, n, 3, l.arg(3) + 99); S.fault("buffer overwritten after update"); break;
        case 2: zone_commit(z, off, n + 1, PROT_NONE); S.fault("buffer unmapped after update"); break;
        case 3: zone_commit(z, off, n + 1, 3); memset(p, 0, n); S.fault("buffer zeroed after update"); break; }
      if (n >= 32) S.probe("piece of at least one block"); if (n == 0) S.probe("empty piece");
      ops++; v.ev(n * 64 + id);
    } else if (l.op == "z") {
      auto it = st.find(id); if (it == st.end() || !it->second.live) continue; Strm &s = it->second; zone(9);
      const void *p = l.arg(1) == 0 ? 0 : l.arg(1) == 1 ? (void *)1 : l.arg(1) == 2 ? (void *)(zone(9) + 5 * PG) : (void *)(uptr)-1;
      if (!guarded("t1ha2_update of length 0", [&] { ((upd_t)im->f[F_UPDATE])(s.ctx, p, 0); })) return;
      S.fault("empty read with an invalid pointer"); ops++; v.ev(7 + id);
    } else if (l.op == "B") { // id, GiB quarters, delta, misalignment
      auto it = st.find(id); if (it == st.end() || !it->second.live) continue; Strm &s = it->second;
      u64 n = ((u64)l.arg(1) << 28) + (u64)l.arg(2); u64 one = !BITS64 || (l.arg(4) & 1) ? 1ull << 28 : n; u64 mis = (u64)l.arg(3) & 63;
      u8 *p = alias_map(std::min(n, one) + 64 + 4096); if (!p) { S.probe("huge piece skipped"); continue; } p += mis;
      watchdog_seconds(200); bool ok = true;
      for (u64 left = n; left && ok;) { u64 k = std::min(left, one); s.model.update(p, k); ok = guarded("t1ha2_update of a huge piece", [&] { ((upd_t)im->f[F_UPDATE])(s.ctx, p, (size_t)k); }); left -= k; }
      watchdog_seconds(0); if (!ok) return; S.fault(one == n ? "single piece of GiB size" : "stream beyond 4 GiB"); s.huge = true; ops++;
    } else if (l.op == "f") {
      auto it = st.find(id); if (it == st.end() || !it->second.live) continue; Strm &s = it->second; bool wide = l.arg(1) & 1; u64 hi = 0, mh = 0, r = 0;
      u64 *hp = &hi; if (!guarded("t1ha2_final", [&] { r = ((fin_t)im->f[F_FINAL])(s.ctx, wide ? hp : 0); })) return;
      u64 m = wide ? s.model.final128(&mh) : s.model.final64(); s.live = false; ops++; S.calls++;
      if (s.model.total > 0xffffffffull) S.probe("digest of more than 4 GiB");
      v.ev(r ^ hi); v.note("stream %d: %llu bytes, digest %016llx %016llx, reference %016llx %016llx", id, (unsigned long long)s.model.total, (unsigned long long)hi, (unsigned long long)r, (unsigned long long)mh, (unsigned long long)m);
      if (r != m || hi != mh) { v.fail("digest", strf("build %s: stream of %llu bytes: digest %016llx%016llx differs from the published %016llx%016llx (seeds %llx %llx)", im->variant.c_str(), (unsigned long long)s.model.total, (unsigned long long)hi, (unsigned long long)r, (unsigned long long)mh, (unsigned long long)m, (unsigned long long)s.sx, (unsigned long long)s.sy)); return; }
      S.probe(wide ? "128-bit digest compared" : "64-bit digest compared");
    }
  }
  v.nontrivial = ops > 2;
}
static u64 piece_len(Rng &r, int mood, u64 partial) {
  switch (mood) { case 0: return r.below(5); case 1: return r.below(40); case 2: return r.pick<u64>({31, 32, 33, 63, 64, 65, 96, 1, 0}); case 3: return gen_len(r, 60000); case 4: return (32 - partial) + 32 * r.below(4) + (r.chance(1, 4) ? r.below(32) : 0); case 5: return r.below(8) * 8; }
  return r.below(700);
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  int var = pick_variant(r); sc.push_back({"v", {var}}); 
  if (BITS64 && idx % 100000 == 59999) { // very long
    sc.push_back({"s", {0, (i64)gen_seed(r), (i64)gen_seed(r), 0, 0, 5}}); if (r.chance(1, 2)) sc.push_back({"u", {0, (i64)r.below(64), 3, 7, PG, 1}});
    sc.push_back({"B", {0, (i64)(129 + r.below(16)), (i64)r.below(100), (i64)r.below(40), 1}}); sc.push_back({"u", {0, (i64)r.below(64), 3, 8, PG, 1}}); sc.push_back({"f", {0, 1}}); return;
  }
  if (idx % 20000 == 19999 || idx % 20000 == 13331) { // huge
    sc.push_back({"s", {0, (i64)gen_seed(r), (i64)gen_seed(r), 0, 0, 5}}); if (r.chance(1, 2)) sc.push_back({"u", {0, (i64)r.below(64), 3, 7, PG, 1}});
    if (!BITS64 || r.chance(2, 3)) sc.push_back({"B", {0, 16, (i64)r.below(100), (i64)r.below(40)}});
    else { sc.push_back({"B", {0, 8, (i64)r.below(3) - 1, (i64)r.below(40)}}); sc.push_back({"u", {0, (i64)r.below(40), 3, 7, PG, 1}}); sc.push_back({"B", {0, 8, (i64)r.below(64), 0}}); }
    sc.push_back({"u", {0, (i64)r.below(64), 3, 8, PG, 1}}); sc.push_back({"f", {0, (i64)r.below(2)}}); return;
  }
  int ns = 1 + (int)r.below(r.chance(1, 3) ? 6 : 3), nops = 4 + (int)r.below(r.chance(1, 5) ? 120 : 28); bool reuse = r.chance(1, 3); int mood = (int)r.below(8); u64 part[8] = {0}; int last = PG + (int)r.below(PG);
  Line prev[8];
  auto start = [&](int i) { if (!prev[i].op.empty() && r.chance(1, 3)) { Line l = prev[i]; l.a[5] = -1; if (r.chance(1, 3)) l.a[1 + r.below(2)] = (i64)gen_seed(r); sc.push_back(l); part[i] = 0; return; } // abandoned or finished, then begun again in place
    u64 sx = gen_seed(r), sy = r.chance(1, 5) ? sx : gen_seed(r); sc.push_back({"s", {i, (i64)sx, (i64)sy, i, r.chance(1, 3) ? -1 : (i64)r.below(4000), r.chance(3, 4) ? (i64)r.below(1000000) + 1 : 0}}); prev[i] = sc.back(); part[i] = 0; };
  for (int i = 0; i < ns; i++) start(i);
  if (r.chance(1, 60)) sc.push_back({"r", {0, (i64)(r.chance(1, 4) ? 70000 + r.below(3000) : r.below(5000)), (i64)r.below(r.chance(1, 2) ? 3 : 40), 3, 5}});
  for (int k = 0; k < nops; k++) {
    int i = (int)r.below(ns); if (r.chance(1, 9)) mood = (int)r.below(8);
    if (r.chance(1, 12)) { sc.push_back({"f", {i, (i64)r.below(2)}}); start(i); continue; }
    if (r.chance(1, 25)) { start(i); continue; }
    if (r.chance(1, 10)) { sc.push_back({"z", {i, (i64)r.below(4)}}); continue; }
    u64 n = piece_len(r, mood == 6 ? (int)r.below(6) : mood, part[i]); if (n > 0x1fffff) n = 100;
    i64 cs; int kind = gen_fill(r, cs); int pl = reuse && r.chance(3, 4) ? last : (int)(((r.below(6)) << 16) | (gen_off(r, n) & 0xffff)); last = pl;
    Line l{"u", {i, (i64)n, kind, cs, pl, (i64)(r.below(4) | (r.chance(1, 3) ? 8 : 0))}};
    while (n >= 8 && r.chance(1, 6)) { l.a.push_back((i64)(r.chance(1, 2) ? r.below(n / 8) * 8 : r.below(n - 7))); l.a.push_back((i64)gen_val(r)); }
    sc.push_back(l); part[i] = (part[i] + n) % 32;
  }
  for (int i = 0; i < ns; i++) sc.push_back({"f", {i, (i64)r.below(2)}});
}
static PropReg reg("C01", gen, run, 0, "One run = one process of a randomly chosen build feeding 1-6 alternating streams through randomly fragmented updates (empty, tiny, block-sized, large, GiB-sized pieces at arbitrary addresses), each buffer kept, overwritten, zeroed or unmapped right after the call; every digest compared with the reference model. Non-trivial: more than two stream operations executed; distinct: different hash of the event log (fragmentation and digests).");
