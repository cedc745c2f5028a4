// Which CPU feature does the instruction at p need? Unknown encodings are taken as baseline.
#include "machine.h"
const char *insn_unsupported(const u8 *p, const SimCpu &c, bool &is_cpuid, bool &is_xgetbv, bool &is_popf) {
  is_cpuid = is_xgetbv = is_popf = false; bool p66 = false, pf2 = false, pf3 = false; bool rexw = false; (void)rexw;
  auto bit = [](u32 v, int b) { return (v >> b & 1) != 0; };
  const bool sse3 = bit(c.ecx1, 0), pclmul = bit(c.ecx1, 1), ssse3 = bit(c.ecx1, 9), fma = bit(c.ecx1, 12), sse41 = bit(c.ecx1, 19), sse42 = bit(c.ecx1, 20),
             movbe = bit(c.ecx1, 22), popcnt = bit(c.ecx1, 23), aes = bit(c.ecx1, 25), sse = BITS64 || bit(c.edx1, 25), sse2 = BITS64 || bit(c.edx1, 26), mmx = BITS64 || bit(c.edx1, 23),
             l7 = c.max_leaf >= 7, bmi1 = l7 && bit(c.ebx7, 3), avx2 = l7 && bit(c.ebx7, 5), bmi2 = l7 && bit(c.ebx7, 8), adx = l7 && bit(c.ebx7, 19), sha = l7 && bit(c.ebx7, 29),
             avx512 = l7 && bit(c.ebx7, 16) && (c.xcr0 & 0xe6) == 0xe6 && c.osxsave(), vaes = l7 && bit(c.ecx7, 9), gfni = l7 && bit(c.ecx7, 8), vpclmul = l7 && bit(c.ecx7, 10), ymm = c.ymm();
  for (int i = 0; i < 14; i++, p++) {
    u8 b = *p;
    if (b == 0x66) p66 = true; else if (b == 0xf2) pf2 = true; else if (b == 0xf3) pf3 = true;
    else if (b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65 || b == 0x67 || b == 0xf0) {}
    else if (BITS64 && b >= 0x40 && b <= 0x4f) rexw = b & 8;
    else break;
  }
  u8 o = p[0];
  if (o == 0x9d) { is_popf = true; return 0; }
  if (o == 0x62 && (BITS64 || (p[1] & 0xc0) == 0xc0)) return avx512 ? 0 : "AVX-512 (EVEX)";
  if ((o == 0xc4 || o == 0xc5) && (BITS64 || (p[1] & 0xc0) == 0xc0)) { // VEX
    int map = 1, pp, L; u8 op;
    if (o == 0xc5) { pp = p[1] & 3; L = p[1] >> 2 & 1; op = p[2]; }
    else { map = p[1] & 31; pp = p[2] & 3; L = p[2] >> 2 & 1; op = p[3]; }
    if (map == 2 && (op == 0xf2 || op == 0xf3)) return bmi1 ? 0 : "BMI1";
    if (map == 2 && op == 0xf7) return pp == 0 ? (bmi1 ? 0 : "BMI1") : (bmi2 ? 0 : "BMI2");
    if (map == 2 && (op == 0xf5 || op == 0xf6)) return bmi2 ? 0 : "BMI2";
    if (map == 3 && op == 0xf0) return bmi2 ? 0 : "BMI2";
    if (map == 1 && ((op >= 0x90 && op <= 0x93) || op == 0x98 || op == 0x99 || (op >= 0x41 && op <= 0x4b && op != 0x48 && op != 0x49))) return avx512 ? 0 : "AVX-512 (mask)";
    if (!ymm) return c.osxsave() && c.avx_bit() ? "AVX (YMM state not enabled in XCR0)" : "AVX";
    bool need2 = false;
    if (map == 1) { // integer operations are AVX2 when 256 bits wide
      if (L && ((op >= 0x60 && op <= 0x6d) || op == 0x70 || (op >= 0x71 && op <= 0x76 && pp == 1) || (op >= 0xd1 && op <= 0xfe && op != 0xd6 && op != 0xe6 && op != 0xe7 && op != 0xf0))) need2 = true;
    } else if (map == 2) {
      if (op >= 0xdb && op <= 0xdf) { if (!aes) return "AES-NI"; if (L && !vaes) return "VAES"; return 0; }
      if (op >= 0x96 && op <= 0xbf) return fma ? 0 : "FMA";
      if (op == 0x58 || op == 0x59 || op == 0x5a || op == 0x78 || op == 0x79 || op == 0x8c || op == 0x8e || op == 0x45 || op == 0x46 || op == 0x47 || (op >= 0x90 && op <= 0x93) || op == 0x36 || op == 0x16) need2 = true;
      else if (L && (op <= 0x0b || (op >= 0x1c && op <= 0x1e) || (op >= 0x20 && op <= 0x2b) || (op >= 0x30 && op <= 0x40))) need2 = true;
      if (op == 0xcf) return gfni ? 0 : "GFNI";
    } else if (map == 3) {
      if (op == 0 || op == 1 || op == 2 || op == 0x38 || op == 0x39 || op == 0x46) need2 = true;
      else if (L && (op == 0x0e || op == 0x0f || op == 0x42 || op == 0x4c)) need2 = true;
      if (op == 0x44) { if (!pclmul) return "PCLMULQDQ"; if (L && !vpclmul) return "VPCLMULQDQ"; }
      if (op == 0xdf && !aes) return "AES-NI";
    }
    return need2 && !avx2 ? "AVX2" : 0;
  }
  if (o != 0x0f) return 0;
  u8 q = p[1];
  if (q == 0xa2) { is_cpuid = true; return c.has_cpuid ? 0 : "CPUID"; }
  if (q == 0x01 && p[2] == 0xd0) { is_xgetbv = true; return c.osxsave() ? 0 : "XGETBV (OSXSAVE clear)"; }
  if (q == 0x38) {
    u8 r = p[2];
    if (r <= 0x0b || (r >= 0x1c && r <= 0x1e)) return ssse3 ? 0 : "SSSE3";
    if (r == 0x37) return sse42 ? 0 : "SSE4.2";
    if ((r >= 0x10 && r <= 0x17) || (r >= 0x20 && r <= 0x2b) || (r >= 0x30 && r <= 0x41)) return sse41 ? 0 : "SSE4.1";
    if (r >= 0xdb && r <= 0xdf) return aes ? 0 : "AES-NI";
    if (r == 0xf0 || r == 0xf1) return pf2 ? (sse42 ? 0 : "SSE4.2 (CRC32)") : (movbe ? 0 : "MOVBE");
    if (r == 0xf6) return adx ? 0 : "ADX";
    if (r >= 0xc8 && r <= 0xcd) return sha ? 0 : "SHA";
    if (r == 0xcf) return gfni ? 0 : "GFNI";
    return 0;
  }
  if (q == 0x3a) {
    u8 r = p[2];
    if (r == 0x0f) return ssse3 ? 0 : "SSSE3";
    if (r == 0x44) return pclmul ? 0 : "PCLMULQDQ";
    if (r >= 0x60 && r <= 0x63) return sse42 ? 0 : "SSE4.2";
    if (r == 0xdf) return aes ? 0 : "AES-NI";
    if (r == 0xcc) return sha ? 0 : "SHA";
    if (r == 0xce || r == 0xcf) return gfni ? 0 : "GFNI";
    return sse41 ? 0 : "SSE4.1";
  }
  if (q == 0xb8 && pf3) return popcnt ? 0 : "POPCNT";
  if ((q == 0xf0 && pf2) || (q == 0x12 && (pf2 || pf3)) || (q == 0x16 && pf3) || ((q == 0x7c || q == 0x7d || q == 0xd0) && (p66 || pf2))) return sse3 ? 0 : "SSE3";
  if (q == 0x77) return mmx ? 0 : "MMX";
  if (p66 || pf2 || pf3) {
    if ((q >= 0x10 && q <= 0x17) || (q >= 0x28 && q <= 0x2f) || (q >= 0x50 && q <= 0x76) || (q >= 0x7e && q <= 0x7f) || q == 0xc2 || (q >= 0xc4 && q <= 0xc6) || q >= 0xd1)
      return (pf3 && !(q == 0x6f || q == 0x7f || q == 0x7e || q == 0x70 || q == 0xe6)) ? (sse ? 0 : "SSE") : (sse2 ? 0 : "SSE2");
  } else {
    if ((q >= 0x10 && q <= 0x17) || (q >= 0x28 && q <= 0x2f) || (q >= 0x50 && q <= 0x5f) || q == 0xc6) return sse ? 0 : "SSE";
    if ((q >= 0x60 && q <= 0x7f) || q >= 0xd1) return mmx ? 0 : "MMX";
  }
  return 0;
}
