// C10: stored or transmitted records and their digests under storage and wire faults.
#include "streams.h"
#include <sys/mman.h>
struct Dig { u64 r = 0, hi = 0; bool operator==(const Dig &o) const { return r == o.r && hi == o.hi; } };
struct Seed { u64 x = 0, y = 0; };
static Dig sut(Image *im, int fn, const u8 *p, u64 n, Seed s) {
  Dig d; S.calls++;
  if (fn >= F_S64) { u8 *c = ctx_mem(0); ((init_t)im->f[F_INIT])(c, s.x, s.y); ((upd_t)im->f[F_UPDATE])(c, p, (size_t)n); d.r = ((fin_t)im->f[F_FINAL])(c, fn == F_S128 ? &d.hi : 0); }
  else d.r = rawcall(im, fn, p, (size_t)n, s.x, &d.hi);
  return d;
}
static Dig mod(Image *im, int fn, const u8 *p, u64 n, Seed s) {
  Dig d; if (fn == F_T1HA0) fn = best_t1ha0(im);
  if (fn >= F_S64) { MStream m; m.init(s.x, s.y); m.update(p, n); d.r = fn == F_S64 ? m.final64() : m.final128(&d.hi); } else d.r = model_fn(fn, p, n, s.x, &d.hi);
  return d;
}
static void run(const Scen &sc, Verdict &v) {
  Image *im = 0; Keys ks; zones_reset(); bool placed = false; int fn = -1; Seed sd; static std::vector<u8> orig, tmp; u8 *p = 0; u64 n = 0, on = 0; Dig d0; u64 checks = 0; const u64 room = 1u << 16; int zn = 0; (void)zn;
  // the digest of the delivered bytes must differ from the record's, unless the published algorithm itself collides
  auto verify = [&](const u8 *q, u64 qn, Seed qs, const char *what) {
    checks++; Dig d = sut(im, fn, q, qn, qs); if (!(d == d0)) return true;
    Dig a = mod(im, fn, orig.data(), on, sd), b = mod(im, fn, q, qn, qs); if (a == b) { S.probe("true collision of the published algorithm"); return true; }
    v.fail("kept", strf("build %s: %s: the digest %016llx%016llx of a %llu byte record is kept after %s", im->variant.c_str(), fn_name[fn], (unsigned long long)d0.hi, (unsigned long long)d0.r, (unsigned long long)on, what)); return false; };
  for (auto &l : sc) {
    if (l.op == "v") { im = need_img((int)l.arg(0), 0); continue; }
    if (ks.take(l)) continue;
    if (!im) continue;
    if (!placed) { for (auto &kv : ks.m) { Key &k = kv.second; int z = k.zone >= 0 ? k.zone : kv.first & 15; size_t off = k.off ? k.off : PG; off &= 0xffff; zone_commit(z, off, k.len + room + PG, 3); k.p = zone(z) + off; memcpy(k.p, k.b.data(), k.len); memset(k.p + k.len, 0, room); } placed = true; }
    if (l.op == "open") {
      int f = (int)l.arg(0); auto it = ks.m.find((int)l.arg(1)); fn = -1; if (it == ks.m.end() || !is_hash(f) || !fn_usable(im, f)) continue;
      p = it->second.p; n = on = it->second.len; orig = it->second.b; memcpy(p, orig.data(), n); memset(p + n, 0, room); sd.x = (u64)l.arg(2); sd.y = (u64)l.arg(3); fn = f;
      NativeGuard g; if (!g.run([&] { d0 = sut(im, fn, p, n, sd); })) { S.probe("call crashed (not this property)"); fn = -1; continue; } v.ev(d0.r); continue; }
    if (fn < 0) continue;
    volatile bool stop = false;
    if (NATIVE_TRY) {
      if (l.op == "bits") { u64 lo = (u64)l.arg(0), hi = std::min<u64>(on, lo + ((u64)l.arg(1) & 0xffff)); u64 c = 0; memcpy(p, orig.data(), on); n = on;
        for (u64 i = lo; i < hi && !stop; i++) for (int b = 0; b < 8; b++) { p[i] ^= 1 << b; bool ok = verify(p, n, sd, "a flipped bit"); c++; if (!ok) { stop = true; v.note("bit %d of byte %llu of %llu", b, (unsigned long long)i, (unsigned long long)n); v.msg += strf(" (bit %d of byte %llu)", b, (unsigned long long)i); break; } p[i] ^= 1 << b; }
        S.fault("bit flip", c); }
      else if (l.op == "bytes") { u64 lo = (u64)l.arg(0), hi = std::min<u64>(on, lo + ((u64)l.arg(1) & 0xffff)); u64 x = mix((u64)l.arg(2)); memcpy(p, orig.data(), on); n = on;
        for (u64 i = lo; i < hi && !stop; i++) { u8 o = p[i]; u8 w = (u8)(x = mix(x)); unsigned m = x >> 8 & 3; p[i] = m == 0 ? 0 : m == 1 ? 255 : m == 2 ? (u8)(o + 128) : w; if (p[i] != o) { if (!verify(p, n, sd, "a wrong byte")) { stop = true; v.msg += strf(" (byte %llu)", (unsigned long long)i); } S.fault("byte replaced"); } p[i] = o; } }
      else if (l.op == "lens") { u64 lo = (u64)l.arg(0), hi = std::min<u64>(on + room, lo + ((u64)l.arg(1) & 0xffff)); memcpy(p, orig.data(), on); memset(p + on, 0, room); u64 c = 0;
        for (u64 q = lo; q <= hi && !stop; q++) if (q != on) { if (!verify(p, q, sd, q < on ? "truncation" : "zero-extension")) { stop = true; v.msg += strf(" (to %llu bytes)", (unsigned long long)q); } c++; }
        S.fault("truncation or extension", c); }
      else if (l.op == "seed") { memcpy(p, orig.data(), on); n = on; u64 c = 0;
        for (int b = 0; b < (fn >= F_S64 ? 128 : 64) && !stop; b++) { Seed q = sd; (b < 64 ? q.x : q.y) ^= 1ull << (b & 63); c++; if (!verify(p, on, q, "a wrong seed bit")) { stop = true; v.msg += strf(" (bit %d)", b); } }
        u64 alt[] = {~sd.x, sd.x << 32 | sd.x >> 32, __builtin_bswap64(sd.x), (u32)sd.x, sd.x & ~0xffffffffull, sd.x + 1, sd.x - 1, (u64)-(i64)sd.x, (u64)l.arg(0), 0};
        for (u64 a : alt) if (a != sd.x && !stop) { Seed q = sd; q.x = a; c++; if (!verify(p, on, q, "a wrong seed")) { stop = true; v.msg += strf(" (%llx for %llx)", (unsigned long long)a, (unsigned long long)sd.x); } }
        S.fault("wrong seed", c); }
      else if (l.op == "heal") { memcpy(p, orig.data(), on); memset(p + on, 0, room); n = on; Dig d = sut(im, fn, p, n, sd); if (!(d == d0)) { v.fail("rejected", strf("build %s: %s: an intact %llu byte record is rejected", im->variant.c_str(), fn_name[fn], (unsigned long long)on)); stop = true; } S.fault("repaired copy"); }
      else if (l.op == "x") { // cumulative storage and wire faults on blocks or packets of size bs
        u64 bs = std::max<u64>(1, (u64)l.arg(1) & 0xffff), nb = n / bs, a = (u64)l.arg(2), b = (u64)l.arg(3); int kind = (int)((u64)l.arg(0) % 13); const char *what = "";
        tmp.resize(bs); u64 i = nb ? a % nb : 0, j = nb ? b % nb : 0;
        switch (kind) {
        case 0: if (!nb) break; what = "a lost block write (zeros)"; memset(p + i * bs, 0, bs); break;
        case 1: if (!nb) break; what = "a misdirected block write"; memmove(p + i * bs, p + j * bs, bs); break;
        case 2: if (nb < 2) break; what = "two reordered packets"; memcpy(tmp.data(), p + i * bs, bs); memmove(p + i * bs, p + j * bs, bs); memcpy(p + j * bs, tmp.data(), bs); break;
        case 3: if (!nb) break; what = "a stale block"; fill(p + i * bs, bs, 3, (i64)b); break;
        case 4: if (!nb) break; what = "a torn block write"; fill(p + i * bs, b % bs, 3, (i64)a); break;
        case 5: if (!nb || n + bs > on + room) break; what = "a duplicated packet"; memmove(p + (i + 1) * bs, p + i * bs, n - i * bs); n += bs; break;
        case 6: if (!nb) break; what = "a dropped packet"; memmove(p + i * bs, p + (i + 1) * bs, n - (i + 1) * bs); n -= bs; break;
        case 7: if (n < 2) break; what = "a byte shift"; { u64 q = a % (n - 1); memmove(p + q + 1, p + q, n - 1 - q); } break;
        case 8: if (!n) break; what = "a burst error"; { u64 q = a % n, e = std::min(n, q + 1 + b % 16); for (u64 z = q; z < e; z++) p[z] ^= (u8)(mix(a ^ z) | 1); } break;
        case 9: if (n < 8) break; what = "two flips that cancel in a sum or XOR"; { u64 q = a % (n / 8), w = b % (n / 8); if (q == w) break; u64 y, z; memcpy(&y, p + 8 * q, 8); memcpy(&z, p + 8 * w, 8); if (b >> 32 & 1) { y ^= 1ull << (a >> 32 & 63); z ^= 1ull << (a >> 32 & 63); } else { y += a >> 20; z -= a >> 20; } memcpy(p + 8 * q, &y, 8); memcpy(p + 8 * w, &z, 8); } break;
        case 10: if (n < 8) break; what = "reversed byte order of a word"; { u64 q = a % (n / 4) * 4; std::reverse(p + q, p + q + 4); } break;
        case 11: case 12: { what = kind == 11 ? "two neighbouring blocks in the wrong order" : "a block at a wrong place"; u64 nz = 0, z = 0; // the a-th block that is not all zero
          auto zero = [&](u64 t) { for (u64 k = 0; k < bs; k++) if (p[t * bs + k]) return false; return true; };
          if (nb < 2 || nb > 4096) { what = ""; break; } for (z = 0; z < nb; z++) nz += !zero(z); if (!nz) { what = ""; break; } u64 t = a % nz; for (z = 0;; z++) if (!zero(z) && !t--) break; i = z; j = b & 1 ? i + 1 : i - 1; if (j >= nb) { what = ""; break; }
          if (kind == 12) { u64 w = i; for (unsigned c = 0; c < (b >> 1 & 63) && w + 1 < nb && zero(w + 1); c++) w++; if (w == i) { what = ""; break; } j = w; }
          memcpy(tmp.data(), p + i * bs, bs); memmove(p + i * bs, p + j * bs, bs); memcpy(p + j * bs, tmp.data(), bs); } break;
        }
        if (*what && !(n == on && !memcmp(p, orig.data(), n))) { S.fault(what); if (!verify(p, n, sd, what)) stop = true; }
      }
      NATIVE_END;
    } else { NATIVE_END; S.probe("call crashed (not this property)"); break; }
    if (l.op == "L" && !stop) { // a large record: `len` bytes; a few faults anywhere in it
      u64 len = (u64)l.arg(0), x = mix((u64)l.arg(1)); if (len < 65536 || len >> (BITS64 ? 33 : 31)) continue; u8 *q = alias_map(len + PG); if (!q) { S.probe("large record skipped"); continue; } watchdog_seconds(200); NativeGuard g; Dig a, b; int k = 0, nk = (int)(l.arg(2) & 31); u64 at = 0; const char *what = ""; bool kept = false; a = b = Dig();
      bool ok = g.run([&] { a = sut(im, fn, q, len, sd);
        for (k = 0; k < nk && !kept; k++) { x = mix(x); checks++;
          if (k % 8 == 7) { at = len - 1 - (x >> 8) % (k & 8 ? len / 2 : 64); what = "truncation"; b = sut(im, fn, q, at, sd); S.fault("truncation of a large record"); kept = a == b; continue; }
          at = k % 8 == 0 ? x % len : k % 8 == 1 ? len / 2 + (x >> 20) % 4096 : k % 8 == 2 ? len - 1 - x % 300 : k % 8 == 3 ? std::min<u64>(len - 1, (1ull << (16 + x % 17)) + (x >> 20) % 300) : (x >> 3) % len; what = "a damaged byte";
          u8 *pg = (u8 *)((uptr)(q + at) & ~(PG - 1)); u8 keep[4096]; memcpy(keep, pg, PG); mmap(pg, PG, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); memcpy(pg, keep, PG);
          if (k % 8 == 6) { what = "a lost block write"; memset(pg, 0, PG); } else q[at] ^= 1 << (x >> 60 & 7);
          b = sut(im, fn, q, len, sd); mmap(pg, PG, PROT_READ, MAP_SHARED | MAP_FIXED, g_alias_fd, (off_t)((pg - q) % (16u << 20))); S.fault("damage to a large record"); kept = a == b; } });
      watchdog_seconds(0); if (!ok) { S.probe("call crashed (not this property)"); break; } v.ev(a.r);
      if (kept) { v.fail("kept", strf("build %s: %s: the digest of a %llu byte record is kept after %s at byte %llu", im->variant.c_str(), fn_name[fn], (unsigned long long)len, what, (unsigned long long)at)); return; }
    }
    if (l.op == "H" && BITS64 && !stop) { // a record beyond 4 GiB: what only the high half of the length or a far byte tells apart
      u64 len = (1ull << 32) + ((u64)l.arg(0) & 0xffffff); u8 *q = alias_map(len + PG); if (!q) continue; watchdog_seconds(200); NativeGuard g; Dig a, b, c; u64 at = (1ull << 32) + (u64)l.arg(1) % ((len & 0xffffff) + 1); if (at >= len) at = len - 1;
      bool ok = g.run([&] { a = sut(im, fn, q, len, sd); b = sut(im, fn, q, len & 0xffffffff, sd);
        u8 *pg = (u8 *)((uptr)(q + at) & ~(PG - 1)); u8 keep[4096]; memcpy(keep, pg, PG); mmap(pg, PG, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); memcpy(pg, keep, PG); q[at] ^= 1 << (l.arg(2) & 7); c = sut(im, fn, q, len, sd);
        mmap(pg, PG, PROT_READ, MAP_SHARED | MAP_FIXED, g_alias_fd, (off_t)((pg - q) % (16u << 20))); });
      watchdog_seconds(0); S.fault("fault on a record beyond 4 GiB", 2); checks += 2; if (!ok) { S.probe("call crashed (not this property)"); break; }
      if (a == b) { v.fail("kept", strf("build %s: %s: the digest of a %llu byte record is kept after losing 4 GiB of it", im->variant.c_str(), fn_name[fn], (unsigned long long)len)); return; }
      if (a == c) { v.fail("kept", strf("build %s: %s: the digest of a %llu byte record is kept after a bit flip at byte %llu", im->variant.c_str(), fn_name[fn], (unsigned long long)len, (unsigned long long)at)); return; }
    }
    if (v.bad) return;
  }
  S.probe("verification of a faulty record", checks); v.nontrivial = checks > 0; v.ev(checks);
}
static void gen(Rng &r, u64 idx, Scen &sc) {
  bool huge = BITS64 && idx % 20000 == 19000; bool large = idx % 400 == 150;
  if (large) { sc.push_back({"v", {pick_variant(r, false)}}); sc.push_back({"k", {0, (i64)r.below(100), 3, 1}}); u64 q = idx / 400; unsigned lg = q % 16 == 15 && BITS64 ? 27 + (unsigned)r.below(4) : 18 + (unsigned)(q / F_COUNT + r.below(3)) % 9;
    sc.push_back({"open", {(i64)(q % F_COUNT), 0, (i64)gen_seed(r), (i64)gen_seed(r)}}); sc.push_back({"L", {(i64)((1ull << lg) + r.below(r.chance(1, 2) ? 300 : 1ull << lg)), (i64)(r.next() >> 2), lg > 26 ? 8 : 16}}); return; }
  sc.push_back({"v", {pick_variant(r)}}); u64 len; switch (r.below(8)) { case 0: len = r.below(64); break; case 1: len = 64 + r.below(64); break; case 2: len = 32 * (1 + r.below(40)); break; case 3: len = 128 * (1 + r.below(30)) + r.below(3) - 1; break; case 4: len = gen_len(r, 9000); break; case 5: len = r.chance(1, 12) ? 65536 + r.below(300000) : r.below(4000); break; default: len = r.below(600); }
  bool sparse = !huge && r.chance(1, 12); if (sparse) len = r.chance(1, 6) ? 65536 + r.below(40000) : 600 + r.below(r.chance(1, 3) ? 20000 : 7000);
  i64 s; int k = gen_fill(r, s); if (sparse) { k = 12; s = (i64)(r.next() >> 2); } sc.push_back({"k", {0, (i64)len, k, s}}); while (len >= 8 && !sparse && r.chance(1, 4)) sc.push_back({"kp", {0, (i64)r.below(len - 7), (i64)gen_val(r)}}); sc.push_back({"at", {0, (i64)r.below(16), (i64)(PG + r.below(PG))}});
  int n = huge ? 1 : 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    int fn = huge ? r.pick({(int)F_1LE, (int)F_1BE, (int)F_2, (int)F_2_128, (int)F_S64, (int)F_S128, (int)F_T1HA0, (int)F_AES_AVX2, (int)F_AES_AVX, (int)F_AES_NOAVX}) : (int)r.below(F_COUNT); sc.push_back({"open", {fn, 0, (i64)gen_seed(r), (i64)gen_seed(r)}});
    if (huge) { sc.push_back({"H", {(i64)r.below(r.chance(1, 2) ? 300 : 0x1000000), (i64)r.next() >> 8, (i64)r.below(8)}}); continue; }
    if (sparse) { int m = 4 + (int)r.below(16); i64 bs = r.pick<i64>({32, 64, 32, 16, 128, 8}); for (int q = 0; q < m; q++) { sc.push_back({"x", {11 + (i64)r.below(2), bs, (i64)(r.next() >> 2), (i64)(r.next() >> 2)}}); if (r.chance(1, 6)) sc.push_back({"heal", {}}); } continue; }
    u64 span = len > 20000 ? 40 : len > 2000 ? 300 : 4000;
    if (r.chance(2, 3)) sc.push_back({"bits", {(i64)(len > span ? r.chance(1, 3) ? len - span : r.below(len - span) : 0), (i64)span}});
    if (r.chance(1, 4)) sc.push_back({"bytes", {(i64)(len > span ? r.below(len - span) : 0), (i64)span, (i64)(r.next() >> 2)}});
    if (r.chance(1, 2)) { u64 lo = len > span ? len - span / 2 : 0; sc.push_back({"lens", {(i64)lo, (i64)(len > 20000 ? 40 : len + 40 - lo + r.below(200))}}); }
    if (r.chance(1, 3)) sc.push_back({"seed", {(i64)gen_val(r)}});
    if (r.chance(1, 2)) sc.push_back({"heal", {}});
    int m = (int)r.below(12); for (int q = 0; q < m; q++) { sc.push_back({"x", {(i64)r.below(13), r.pick<i64>({4096, 512, 512, 128, 64, 32, 32, 16, 8, 4, 1, 1460}), (i64)(r.next() >> 2), (i64)(r.next() >> 2)}}); if (r.chance(1, 4)) sc.push_back({"heal", {}}); }
  }
}
static PropReg reg("C10", gen, run, 0, "One run = a record, its digest by a random function of a random build, and a sequence of storage and wire faults (bit flips over ranges of the record, replaced bytes, truncations and zero-extensions over ranges of lengths, every seed bit, lost/stale/torn/misdirected blocks, reordered/duplicated/dropped packets, bursts, cancelling word changes; sparse records whose blocks land between the wrong zeros; records of 256 KiB to 1 GiB damaged anywhere in them; occasionally a record beyond 4 GiB), each followed by a verification. A kept digest is a violation unless the reference model of the published algorithm collides too. Non-trivial: at least one verification; distinct: different hash of digests and counts.");
