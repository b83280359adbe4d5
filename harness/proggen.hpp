// Random System/360 programs, generated one instruction at a time along the
// path the reference interpreter takes, so that operands, branch targets and
// exceptions are under control.
#pragma once
#include "pbt.hpp"
#include "s360ref.hpp"
#include <string>
using namespace pbt;

struct Gen {
  Case &c; Ref ref; std::vector<uint8_t> img, used; uint32_t ir[16]; uint64_t iff[4];
  uint16_t freshr = 0xffff; uint8_t freshf = 15; uint32_t prog0 = 0; std::string listing; uint64_t h = 0; int nins = 0;
  bool allow_fp, allow_priv = true; uint32_t ncode = 0; uint32_t opmask_seen = 0; bool want_err = false;
  bool same_keys = true;
  std::vector<uint32_t> pend;
  Gen(Case &c, uint32_t msize, bool fp) : c(c), allow_fp(fp) {
    ref.init(msize); used.assign(msize, 0); ref.fp = fp;
    // background: random but mostly decimal looking bytes, from one choice
    uint64_t s = c.draw(1u << 20) * 2654435761u + 1;
    for (uint32_t i = 0x200; i < msize; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; ref.mem[i] = s >> 56; }
    for (uint32_t i = 0; i < 0x200; i++) ref.mem[i] = 0;
    for (uint32_t i = 0; i < 0x200; i++) used[i] = 1;
    setw(0x58, 0x00020000); setw(0x5c, 0x58); setw(0x60, 0x00020000); setw(0x64, 0x60); setw(0x68, 0x00020000); setw(0x6c, 0x68);
    setw(0x70, 0x00020000); setw(0x74, 0x70); setw(0x78, 0x00020000); setw(0x7c, 0x78);
    setw(0x108, 0x82000110);
    img = ref.mem;
    for (int i = 0; i < 16; i++) ref.r[i] = ir[i] = (uint32_t)(s >> 20) * (i * 2 + 1);
    for (int i = 0; i < 4; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; ref.f[i] = iff[i] = s; }
  }
  void setw(uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) { ref.mem[a + i] = v >> (24 - 8 * i); } }
  void psw(uint8_t mask, uint8_t key, uint8_t amwp, uint8_t cc, uint8_t pm, uint32_t ic) {
    ref.mask = mask; ref.pkey = key; ref.amwp = amwp; ref.cc = cc; ref.pm = pm; ref.ic = ic; prog0 = ic; ref.ilc = 0;
    setw(0x110, ref.psw_hi()); setw(0x114, ref.psw_lo()); for (int i = 0x110; i < 0x118; i++) img[i] = ref.mem[i];
  }
  // --- operands -----------------------------------------------------
  bool fresh(uint32_t a, uint32_t n) { for (uint32_t i = 0; i < n; i++) if (a + i >= ref.msize || used[a + i]) return false; return true; }
  void use(uint32_t a, uint32_t n) { for (uint32_t i = 0; i < n; i++) if (a + i < ref.msize) used[a + i] = 1; }
  void putb(uint32_t a, uint8_t v) { if (a < ref.msize && !used[a]) { ref.mem[a] = img[a] = v; } }
  void put(uint32_t a, const void *p, uint32_t n) { for (uint32_t i = 0; i < n; i++) putb(a + i, ((const uint8_t *)p)[i]); }
  bool rfresh(int r) { return freshr >> r & 1; }
  bool want(int r, uint32_t v) { if (rfresh(r)) { ref.r[r] = ir[r] = v; return true; } return false; }
  void take(int r) { freshr &= ~(1u << r); }
  void takef(int r) { freshf &= ~(1u << r); }
  bool wantf(int r, uint64_t v) { if (freshf >> r & 1) { ref.f[r] = iff[r] = v; return true; } return false; }
  int reg() { return c.draw(16); }
  int evenreg() { return c.draw(8) * 2; }
  uint32_t val() { return c.chance(1, 6) ? small() : c.edge32(); }
  uint32_t small() { return c.draw(70); }
  // A data area of n bytes with the alignment; mostly fresh storage below 4096.
  uint32_t area(uint32_t n, uint32_t al) {
    for (int t = 0; t < 12; t++) {
      uint32_t a;
      if (c.chance(1, 4) && ref.msize > 0x2000) a = 0x1000 + c.draw(ref.msize - 0x1000 - n); else a = 0x800 + c.draw(0x7ff - n);
      a &= ~(al - 1);
      if (c.chance(1, 8)) { uint32_t e = (a | 0x7ff) + 1; if (e + n < ref.msize && al == 1 && n > 1) a = e - c.range(1, n - 1); }   // across a 2K boundary
      if (a + n > ref.msize || incode(a, n)) continue;
      if (fresh(a, n) || c.chance(1, 4)) return a;
    }
    return 0x800;
  }
  std::vector<std::pair<uint32_t, uint32_t>> code;
  bool incode(uint32_t a, uint32_t n) { if (a < 0x200) return true; for (auto &k : code) if (a < k.first + k.second && k.first < a + n) return true; return false; }
  // base/displacement (and index) reaching address t
  struct BD { int x, b, d; bool ok; };
  BD reach(uint32_t t, bool idx, uint32_t avoid = 0) {
    t &= 0xffffff;
    if (t < 4096 && c.chance(1, 3)) return { 0, 0, (int)t, true };
    for (int k = 0; k < 6; k++) {
      int b = c.range(1, 15), x = idx && c.coin() ? (int)c.range(1, 15) : 0;
      if (avoid >> b & 1 || (x && avoid >> x & 1)) continue;
      if (x == b) x = 0;
      uint32_t base = 0; int d = c.chance(1, 5) ? (int)c.pick(std::vector<int>{0, 4095, 4094, 1}) : (int)c.draw(4096);
      if (x && !rfresh(x)) base += ref.r[x]; else if (x && rfresh(b)) { uint32_t v = c.chance(1, 2) ? c.u32() : c.draw(256); want(x, v); take(x); base += v; } else if (x) { x = 0; }
      if (rfresh(b)) {
        uint32_t v = (t - base - d) & 0xffffff;
        if (c.chance(1, 3)) v |= c.u8() << 24;
        want(b, v); take(b); if (x) take(x);
        return { x, b, d, true };
      }
      base += ref.r[b]; uint32_t dd = (t - base) & 0xffffff;
      if (dd < 4096) { take(b); if (x) take(x); return { x, b, (int)dd, true }; }
    }
    return { 0, 0, (int)(t & 4095), t < 4096 };
  }
  // --- code ---------------------------------------------------------
  std::vector<uint8_t> ins;
  void e1(int b) { ins.push_back(b); }
  void bd(const BD &k) { e1(k.b << 4 | k.d >> 8); e1(k.d & 255); }
  uint32_t newcode(uint32_t n) {       // somewhere unused for n bytes of code
    for (int t = 0; t < 20; t++) {
      uint32_t a = (c.chance(1, 3) && ref.msize > 0x2000 ? 0x1000 + c.draw(ref.msize - 0x1100) : 0x200 + c.draw(0x580)) & ~1u;
      if (a + n > ref.msize) continue;
      bool clash = false; for (uint32_t i = 0; i < n; i++) if (used[a + i]) clash = true;
      if (!clash) return a;
    }
    return 0;
  }
  void place(uint32_t a, const std::vector<uint8_t> &b) { code.push_back({a, (uint32_t)b.size()}); put(a, b.data(), b.size()); use(a, b.size()); }

  // decimal operand at a; kind 0 random valid
  void decop(uint32_t a, int n, int lead0 = 0) {
    int sg = c.chance(1, 4) ? 10 + (int)c.draw(6) : (c.coin() ? (ref.amwp & 8 ? 10 : 12) : (ref.amwp & 8 ? 11 : 13));
    int style = c.draw(6);
    for (int i = 0; i < n; i++) {
      int hi, lo;
      auto dg = [&]() { switch (style) { case 0: return 0; case 1: return 9; case 2: return (int)(c.draw(3) == 2); default: return (int)c.draw(10); } };
      hi = dg(); lo = i == n - 1 ? sg : dg(); if (i < lead0) { hi = 0; if (i < n - 1) lo = 0; }
      if (style == 4 && i < n / 2) { hi = 0; if (i < n - 1) lo = 0; }
      putb(a + i, hi << 4 | lo);
    }
  }
  uint64_t fpval() {
    int k = c.draw(9); uint64_t fr; int ch;
    uint64_t fm = 0xffffffffffffffull;
    switch (c.draw(8)) { case 0: fr = 0; break; case 1: fr = fm; break; case 2: fr = 1ull << (4 * c.draw(14)); break; case 3: fr = c.draw(0) & fm & ~0xffffffffull; break;
      case 4: fr = (c.draw(0) & fm) >> (4 * c.draw(14)); break; case 5: fr = (c.draw(256)) << (4 * c.draw(13)); fr &= fm; break; default: fr = c.draw(0) & fm; }
    switch (k) { case 0: ch = c.draw(128); break; case 1: ch = c.draw(6); break; case 2: ch = 127 - (int)c.draw(6); break; case 3: ch = 64; break; default: ch = 64 - 8 + (int)c.draw(17); }
    return (uint64_t)c.draw(2) << 63 | (uint64_t)ch << 56 | fr;
  }

  // Emits into ins; returns false if no sensible operands were found.
  bool gen(int op) {
    ins.clear(); int r1 = reg(), r2 = reg(); e1(op);
    if (op < 0x40) {
      if (op >= 0x20) {
        if (!want_err || c.chance(3, 4)) { r1 = c.draw(4) * 2; r2 = c.draw(4) * 2; if (c.chance(1, 8)) r2 = r1; }
        if (!(r1 & 9)) wantf(r1 >> 1, fpval()); if (!(r2 & 9) && r2 != r1) { uint64_t v = fpval(); if (c.chance(1, 4)) v = (v & ~(0x7full << 56)) | (ref.f[r1 >> 1 & 3] & (0x7full << 56)); wantf(r2 >> 1, v); }
        if (!(r1 & 9)) takef(r1 >> 1); if (!(r2 & 9)) takef(r2 >> 1);
        e1(r1 << 4 | r2); return true;
      }
      switch (op) {
      case 0x04: want(r1, c.u32()); break;
      case 0x05: case 0x06: case 0x07: {
        if (op == 0x06) want(r1, c.pick(std::vector<uint32_t>{0, 1, 2, 0x80000000u, 5, 0xffffffffu}));
        bool taken = op == 5 ? true : op == 6 ? ref.r[r1] - 1 != 0 : (r1 & (8 >> ref.cc)) != 0;
        if (op == 6) take(r1);
        if (c.chance(1, 3)) r2 = 0;
        if (r2 && taken) { uint32_t t = newcode(16); if (!t || !rfresh(r2)) { r2 = 0; } else { want(r2, t | (c.chance(1, 3) ? c.u8() << 24 : 0)); } }
        if (r2) take(r2); take(r1); break; }
      case 0x08: case 0x09: {
        uint32_t a = (c.draw(ref.msize) & ~15u) | (c.u8() << 24); if (!want(r2, a) && (ref.r[r2] & 15 || (ref.r[r2] & 0xffffff) >= ref.msize)) return false;
        want(r1, c.u32()); break; }
      case 0x1c: r1 &= 14; want(r1 + 1, val()); want(r2, val()); take(r1 + 1); break;
      case 0x1d: {
        r1 &= 14; uint32_t dv = val(); if ((r2 | 1) != (r1 | 1)) want(r2, dv); dv = ref.r[r2];
        int64_t q = (int32_t)val(); if (c.chance(1, 5)) q = c.coin() ? 0x7fffffffll : -0x80000000ll; if (c.chance(1, 12)) q += c.coin() ? 1 : -1;
        int64_t n = q * (int32_t)dv; if (dv) { int64_t rem = c.chance(1, 3) ? 0 : c.chance(1, 3) ? llabs((int32_t)dv) - 1 : (int64_t)(c.u32() % (uint32_t)llabs((int64_t)(int32_t)dv)); n += n < 0 || (n == 0 && c.coin()) ? -rem : rem; }
        if (c.chance(1, 10)) n = (int64_t)c.edge64();
        want(r1, (uint64_t)n >> 32); want(r1 + 1, (uint32_t)n); take(r1 + 1); break; }
      default: want(r1, val()); if (c.chance(1, 8)) want(r2, ref.r[r1]); else if (c.chance(1, 12)) want(r2, -ref.r[r1]); else want(r2, val());
      }
      take(r1); if (op != 4) take(r2);
      e1(r1 << 4 | r2); return true;
    }
    if (op < 0x80) {
      bool fpop = op >= 0x60; uint32_t n = 4;
      if (op == 0x41) { BD k = reach(c.draw(0x1000000), true); if (!k.ok) k = { 0, 0, (int)c.draw(4096), true }; e1(r1 << 4 | k.x); bd(k); take(r1); return true; }
      if (op == 0x45 || op == 0x46 || op == 0x47) {
        if (op == 0x46) { want(r1, c.pick(std::vector<uint32_t>{0, 1, 2, 0x80000000u, 5, 0xffffffffu})); take(r1); }
        bool taken = op == 0x45 ? true : op == 0x46 ? ref.r[r1] - 1 != 0 : (r1 & (8 >> ref.cc)) != 0;
        uint32_t t = taken ? newcode(16) : c.draw(4096) ; if (taken && !t) return false;
        BD k = reach(t, true, op == 0x46 ? 1u << r1 : 0); if (taken && (!k.ok || ((ref.ea(k.x, k.b, k.d)) != t))) return false;
        if (op != 0x47) take(r1);
        e1(r1 << 4 | k.x); bd(k); return true;
      }
      if (op >= 0x48 && op <= 0x4c) n = 2; if (op == 0x40) n = 2; if (op == 0x42 || op == 0x43) n = 1; if (op == 0x4e || op == 0x4f) n = 8;
      if (fpop) { n = op < 0x70 ? 8 : 4; if (!want_err || c.chance(4, 5)) r1 = c.draw(4) * 2; if (!(r1 & 9)) { wantf(r1 >> 1, fpval()); } }
      if ((op == 0x5c || op == 0x5d) && !(want_err && c.chance(1, 4))) r1 &= 14;
      uint32_t al = n > 8 ? 8 : n; uint32_t a = area(n, al);
      if (!fpop) { want(r1, val()); if ((op & 0xfe) == 0x5c) { want(r1 | 1, val()); take(r1 | 1); } take(r1); }
      BD k = reach(a, true); if (!k.ok) { a = (0x800 + c.draw(0x700)) & ~(al - 1); k = { 0, 0, (int)a, true }; if (incode(a, n)) return false; }
      a = ref.ea(k.x, k.b, k.d);
      uint32_t v = val();
      if (op == 0x5d) {
        if (c.chance(3, 4)) { // make the quotient fit
          int64_t nn = (int64_t)((uint64_t)ref.r[r1 & 14] << 32 | ref.r[r1 | 1]); int64_t q = (int32_t)val(); if (q) { __int128 dv = (__int128)nn / q; if (dv == (int32_t)dv) v = (uint32_t)(int32_t)dv; } }
      }
      if (c.chance(1, 8)) v = ref.r[r1];
      if (n == 4 && !fpop) { uint8_t b[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; put(a, b, 4); }
      if (n == 2) { uint8_t b[2] = { (uint8_t)(v >> 8), (uint8_t)v }; put(a, b, 2); }
      if (n == 1) putb(a, v);
      if (op == 0x4f) { int w = c.draw(4);
        if (w == 0) decop(a, 8); else { int64_t q = w == 1 ? (int64_t)c.draw(1u << 31) : (int64_t)(int32_t)c.edge32(); if (c.chance(1, 6)) q = c.coin() ? 2147483648ll : -2147483648ll; if (c.chance(1, 12)) q -= 1;
          uint64_t m = q < 0 ? -(uint64_t)q : q; uint8_t b[8]; for (int i = 7; i >= 0; i--) { int lo; if (i == 7) lo = q < 0 ? (c.coin() ? 13 : 11) : c.pick(std::vector<int>{12, 15, 10, 14}); else { lo = m % 10; m /= 10; } int hi = m % 10; m /= 10; b[i] = hi << 4 | lo; } put(a, b, 8); } }
      if (fpop) { uint64_t fv = fpval(); if (!(r1 & 9) && c.chance(1, 4)) fv = (fv & ~(0x7full << 56)) | (ref.f[r1 >> 1] & (0x7full << 56)); if (!(r1 & 9) && c.chance(1, 8)) fv = ref.f[r1 >> 1] ^ (uint64_t)c.draw(2) << 63;
        uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = fv >> (56 - 8 * i); put(a, b, n); if (!(r1 & 9)) takef(r1 >> 1); }
      use(a, n); e1(r1 << 4 | k.x); bd(k); return true;
    }
    if (op < 0xc0) {
      switch (op) {
      case 0x80: { uint32_t a = area(1, 1); BD k = reach(a, false); if (!k.ok) return false; putb(a, c.u8()); use(a, 1); e1(c.u8()); bd(k); return true; }
      case 0x82: { uint32_t a = area(8, 8); if (!fresh(a, 8)) return false; uint32_t t = newcode(16); if (!t) return false; BD k = reach(a, false); if (!k.ok) return false;
        uint32_t w0 = c.u8() << 24 | (uint32_t)ref.pkey << 20 | (c.chance(1, 4) ? 8u : 0u) << 16 | (c.coin() ? 1u << 16 : 0) | 4u << 16 | (c.chance(1,3) ? c.draw(65536) : 0), w1 = c.u32() & 0xff000000; w1 |= t; w1 &= ~0x0f000000u; w1 |= (uint32_t)ref.pm << 24;
        uint8_t b[8]; for (int i = 0; i < 4; i++) { b[i] = w0 >> (24 - 8 * i); b[4 + i] = w1 >> (24 - 8 * i); } put(a, b, 8); use(a, 8); e1(c.u8()); bd(k); return true; }
      case 0x86: case 0x87: {
        uint32_t inc = c.coin() ? (uint32_t)(int32_t)(c.draw(9) - 4) : val(); int r3 = reg();
        want(r1, val()); want(r3, inc); uint32_t s = ref.r[r1] + ref.r[r3]; want(r3 | 1, c.chance(1, 2) ? s + (uint32_t)c.draw(3) - 1 : val());
        take(r1); take(r3); take(r3 | 1);
        bool hi = (int32_t)(ref.r[r1] + ref.r[r3]) > (int32_t)ref.r[r3 | 1]; bool taken = hi == (op == 0x86);
        uint32_t t = taken ? newcode(16) : c.draw(4096); if (taken && !t) return false;
        BD k = reach(t, false); if (taken && (!k.ok || ref.ea(0, k.b, k.d) != t)) return false;
        e1(r1 << 4 | r3); bd(k); return true; }
      case 0x88: case 0x89: case 0x8a: case 0x8b: case 0x8c: case 0x8d: case 0x8e: case 0x8f: {
        if (op >= 0x8c && !(want_err && c.chance(1, 4))) r1 &= 14; want(r1, val()); if (op >= 0x8c) { want(r1 | 1, val()); take(r1 | 1); } take(r1);
        uint32_t amt = c.chance(1, 3) ? c.draw(64) : c.pick(std::vector<uint32_t>{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 30, 31, 32, 33, 47, 62, 63}); uint32_t t = amt | (c.chance(1, 3) ? c.draw(1 << 18) << 6 : 0);
        BD k = reach(t, false); if (!k.ok) k = { 0, 0, (int)amt, true }; e1(r1 << 4 | c.draw(16)); bd(k); return true; }
      case 0x90: case 0x98: { int r3 = reg(); if (c.chance(1, 2)) r3 = (r1 + c.draw(4)) & 15; int cnt = ((r3 - r1) & 15) + 1; uint32_t a = area(cnt * 4, 4); BD k = reach(a, false); if (!k.ok) return false;
        if (op == 0x98) for (int i = 0; i < cnt; i++) { uint32_t v = c.chance(1, 4) ? c.edge32() : 0x01000193u * (i + a + nins * 77); uint8_t b[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; put(a + 4 * i, b, 4); }
        for (int i = 0; i < cnt; i++) take((r1 + i) & 15); use(a, cnt * 4); e1(r1 << 4 | r3); bd(k); return true; }
      default: {  // SI
        uint32_t a = area(1, 1); BD k = reach(a, false); if (!k.ok) return false; int i2 = c.u8(); if (c.chance(1, 4)) i2 = 0xff >> c.draw(9);
        if (c.chance(1, 4)) putb(a, i2); else if (c.chance(1, 3)) putb(a, ~i2); else putb(a, c.u8()); use(a, 1); e1(i2); bd(k); return true; }
      }
    }
    int L, n1, n2; bool two = op >= 0xf0;
    if (two) { n1 = c.range(1, 16); n2 = c.range(1, 16); if (c.coin()) { n1 = c.range(1, 5); n2 = c.range(1, 5); }
      if (op >= 0xfc) { n2 = c.range(1, 8); n1 = c.range(n2 + 1, 16); if (c.chance(1, 2)) { n2 = c.range(1, 4); n1 = c.range(n2 + 1, 8); } }
      L = (n1 - 1) << 4 | (n2 - 1); }
    else { n1 = c.chance(1, 8) ? c.range(1, 256) : c.chance(1, 3) ? c.range(1, 40) : c.range(1, 9); n2 = n1; L = n1 - 1; if (op == 0xdc || op == 0xdd) n2 = 256; }
    uint32_t a1 = area(n1, 1), a2 = area(n2, 1); bool overlap = a1 < a2 + n2 && a2 < a1 + n1;
    if (!two && op <= 0xd7 && c.chance(1, 6) ) { int d = c.chance(1, 2) ? 1 : (int)c.range(0, 9) - 4; a2 = a1 + d; if (a2 + n2 > ref.msize || a2 < 0x200 || incode(a2, n2)) a2 = a1; overlap = true; }
    if (op >= 0xf8 && op <= 0xfb && c.chance(1, 8)) { a2 = a1 + n1 - n2; if (a2 < 0x200 || incode(a2, n2)) return false; overlap = true; }     // right ends coincide
    else if (overlap && (op == 0xdc || op == 0xdd || op == 0xde || op == 0xdf || two)) return false;
    BD k1 = reach(a1, false), k2 = reach(a2, false); if (!k1.ok || !k2.ok) return false;
    if (ref.ea(0, k1.b, k1.d) != a1 || ref.ea(0, k2.b, k2.d) != a2) return false;
    if (op == 0xdd || op == 0xdf) { take(1); take(2); }
    switch (op) {
    case 0xd1: case 0xd2: case 0xd3: case 0xd4: case 0xd6: case 0xd7:
      for (int i = 0; i < n1 && i < 24; i++) { putb(a1 + i, c.u8()); if (!overlap) putb(a2 + i, c.chance(1, 8) ? ref.mem[a1 + i] : c.u8()); }
      if ((op == 0xd7 || op == 0xd4) && c.chance(1, 4)) for (int i = 0; i < n1; i++) { putb(a2 + i, op == 0xd7 ? ref.mem[a1 + i] : (uint8_t)~ref.mem[a1 + i]); } break;
    case 0xd5: { int at = c.draw(n1 + 2); for (int i = 0; i < n1; i++) { putb(a1 + i, i * 7 + a1); } for (int i = 0; i < n1; i++) putb(a2 + i, ref.mem[a1 + i] ^ (i == at || i > at + 3 ? (1 << c.draw(8)) : 0)); break; }
    case 0xdc: for (int i = 0; i < n1 && i < 24; i++) putb(a1 + i, c.u8()); break;
    case 0xdd: { for (int i = 0; i < 256; i++) putb(a2 + i, 0); int hit = c.draw(n1 + 3); for (int i = 0; i < n1; i++) { int v = i < 24 ? c.u8() : i; putb(a1 + i, v); } 
      for (int i = 0; i < n1; i++) if (i == hit || (c.chance(1, 16))) putb(a2 + ref.mem[a1 + i], c.range(1, 255)); break; }
    case 0xde: case 0xdf: {
      for (int i = 0; i < n1; i++) { int w = c.draw(10); int p = w < 5 ? 0x20 : w == 5 ? 0x21 : w == 6 ? 0x22 : w == 7 ? c.u8() : w == 8 ? 0x6b : 0x40; if (i == 0 && c.chance(3, 4)) p = c.coin() ? 0x40 : 0x5c; putb(a1 + i, p); }
      bool z = c.coin(); for (int i = 0; i < n1; i++) { int hi = z && i < 3 ? 0 : c.draw(10), lo = c.chance(1, 4) ? 10 + c.draw(6) : z && i < 3 ? 0 : c.draw(10); putb(a2 + i, hi << 4 | lo); } break; }
    case 0xf1: case 0xf2: case 0xf3: for (int i = 0; i < n1; i++) putb(a1 + i, c.u8()); for (int i = 0; i < n2; i++) putb(a2 + i, c.u8()); break;
    case 0xf8: if (c.coin()) decop(a1, n1); decop(a2, n2); break;
    case 0xf9: case 0xfa: case 0xfb: decop(a1, n1); if (!overlap && c.chance(1, 4)) { for (int i = 1; i <= n2; i++) putb(a2 + n2 - i, i <= n1 ? ref.mem[a1 + n1 - i] : 0); if (c.coin()) putb(a2 + n2 - 1, (ref.mem[a2 + n2 - 1] & 0xf0) | (c.coin() ? 12 : 13)); } else decop(a2, n2); break;
    case 0xfc: decop(a1, n1, n2); decop(a2, n2); break;
    case 0xfd: { decop(a2, n2); int ld = c.draw(n2 + 2); decop(a1, n1, c.chance(4, 5) ? n2 + (ld ? 0 : -0) : 0); break; }
    }
    use(a1, n1); use(a2, n2); e1(L); bd(k1); bd(k2); return true;
  }
  // One step: make (if needed) and interpret the instruction at ref.ic.
  bool at_known() { for (auto &k : code) if (k.first == ref.ic) return true; return false; }
  bool emit(int op) {
    if (!fresh(ref.ic, 6)) return false;
    use(ref.ic, 6);                                  // reserve while operands are chosen
    code.push_back({ref.ic, 6});
    bool ok = false; for (int t = 0; t < 3 && !ok; t++) ok = gen(op);
    code.pop_back(); for (int i = 0; i < 6; i++) used[ref.ic + i] = 0;
    if (!ok) return false;
    std::vector<uint8_t> body = ins;
    if (c.chance(1, 12) && op != 0x0a && want_ex) {  // run it through EXECUTE
      use(ref.ic, 6); code.push_back({ref.ic, 6}); uint32_t t = newcode(6); BD k = { 0, 0, 0, false };
      if (t) { int m = c.coin() ? c.u8() : 0, er = m ? (int)c.range(1, 15) : 0; if (er && !rfresh(er)) er = 0, m = 0; 
        if (er) { want(er, (c.u32() & ~0xffu) | (body[1] & m)); take(er); body[1] &= ~m; }
        k = reach(t, true, 0); 
        if (k.ok && ref.ea(k.x, k.b, k.d) == t) { code.pop_back(); for (int i = 0; i < 6; i++) used[ref.ic + i] = 0; place(t, body); std::vector<uint8_t> ex = { 0x44, (uint8_t)(er << 4 | k.x), (uint8_t)(k.b << 4 | k.d >> 8), (uint8_t)k.d };
          place(ref.ic, ex); listing += fmt("%06x: EX %02x%02x%02x%02x -> %06x:", ref.ic, ex[0], ex[1], ex[2], ex[3], t) + hexs(body) + " " + opnds(body); h = mix(h, 0x44); h = hbytes(body.data(), body.size(), h); return true; }
        if (er) body[1] = ins[1]; }
      code.pop_back(); for (int i = 0; i < 6; i++) used[ref.ic + i] = 0;
    }
    place(ref.ic, body); listing += fmt("%06x: ", ref.ic) + hexs(body) + " " + opnds(body); h = hbytes(body.data(), body.size(), h); return true;
  }
  // An address for n bytes of data: anywhere sensible, misaligned, at the end of storage or past it.
  uint32_t wildarea(uint32_t n, uint32_t al) {
    switch (c.draw(5)) {
    case 0: { uint32_t e = ref.msize - n; int d = (int)c.draw(13) - 4; if (c.coin()) d &= -(int)al; uint32_t a = e + d; return incode(a, n) ? area(n, al) : a; }
    case 1: return c.coin() ? ref.msize + c.draw(64) : c.coin() ? ref.msize << c.draw(10) : ref.msize + c.draw(0x1000000 - ref.msize);
    case 2: { uint32_t a = area(n + al, al) + (c.coin() ? c.draw(al) : al / 2); return a; }
    default: return area(n, al); }
  }
  // An instruction with arbitrary fields, most of which are wrong in some way; the reference decides how.
  bool gen_wild() {
    ins.clear(); int kind = c.draw(9), r1 = reg(), r2 = reg(), op; bool prob = ref.prob();
    static const std::vector<int> BADOP = { 0x00, 0x01, 0x02, 0x03, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x25, 0x26, 0x27, 0x35, 0x36, 0x37, 0x44, 0x4d, 0x51, 0x52, 0x53, 0x61, 0x62, 0x65, 0x66, 0x67, 0x71, 0x75, 0x77, 0x81, 0x99, 0x9a, 0x9b, 0xa0, 0xa5, 0xac, 0xaf, 0xb0, 0xb1, 0xb5, 0xbf, 0xc0, 0xc7, 0xcf, 0xd0, 0xd8, 0xd9, 0xda, 0xdb, 0xe0, 0xe5, 0xef, 0xf0, 0xf4, 0xf5, 0xf6, 0xf7, 0xfe, 0xff };
    static const std::vector<int> PRIVS = { 0x08, 0x09, 0x80, 0x82, 0x83, 0x84, 0x85, 0x9c, 0x9d, 0x9e, 0x9f };
    static const std::vector<int> ALIGN = { 0x40, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4e, 0x4f, 0x50, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x90, 0x98, 0x60, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f };
    static const std::vector<int> ODD = { 0x1c, 0x1d, 0x5c, 0x5d, 0x8c, 0x8d, 0x8e, 0x8f, 0x20, 0x23, 0x24, 0x28, 0x29, 0x2a, 0x2c, 0x2d, 0x38, 0x3a, 0x3b, 0x3c, 0x3d, 0x60, 0x70, 0x68, 0x78, 0x7a, 0x7d, 0x6c };
    static const std::vector<int> SSD = { 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xdc, 0xdd, 0xde, 0xdf, 0xf1, 0xf2, 0xf3, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd };
    static const std::vector<int> BYTE = { 0x42, 0x43, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97 };
    switch (kind) {
    case 0: op = c.pick(BADOP); if (op == 0x44) op = 0x4d; break;
    case 1: op = prob ? c.pick(PRIVS) : c.pick(std::vector<int>{ 8, 9, 0x82 }); break;
    case 2: case 3: op = c.pick(ALIGN); break;
    case 4: op = c.pick(ODD); break;
    case 5: op = c.pick(BYTE); break;
    case 6: op = c.pick(std::vector<int>{ 0x05, 0x06, 0x07, 0x45, 0x46, 0x47, 0x86, 0x87 }); break;
    default: op = c.pick(SSD); }
    if (!allow_fp && (((op & 0xe0) == 0x20) || ((op & 0xe0) == 0x60))) op = op < 0x40 ? 0x1d : 0x58;
    e1(op);
    if (kind == 6) {       // branches into nowhere
      uint32_t t = c.chance(2, 3) ? c.draw(ref.msize) | 1 : c.coin() ? ref.msize - 2 * c.draw(3) : ref.msize + 2 * c.draw(0x4000);
      if (t >= 0x1000000) t = ref.msize; if (t < 0x200) t |= 0x201;
      if (!(t & 1) && t < ref.msize) { if (!fresh(t, ref.msize - t)) return false; }
      if (op == 6 || op == 0x46) { want(r1, c.pick(std::vector<uint32_t>{ 0, 2, 5 })); if (ref.r[r1] == 1) return false; take(r1); }
      if (op == 7 || op == 0x47) r1 = 15 - (int)c.draw(2) * 0;
      if (op < 0x40) { if (!r2) r2 = 1; if (!want(r2, t | (uint32_t)c.u8() << 24)) return false; if (op == 6 && r1 == r2) return false; take(r2); if (op == 5) take(r1); e1(r1 << 4 | r2); return true; }
      uint32_t av = op == 0x46 ? 1u << r1 : 0;
      if (op >= 0x86) { int r3 = reg(); if ((r3 | 1) == (r1 | 1)) return false; want(r1, 5); want(r3, 1); want(r3 | 1, op == 0x86 ? 1 : 100); take(r1); take(r3); take(r3 | 1); uint32_t s = ref.r[r1] + ref.r[r3]; bool hi = (int32_t)s > (int32_t)ref.r[r3 | 1]; if (hi != (op == 0x86)) return false; r2 = r3; av = 1u << r1; }
      BD k = reach(t, op < 0x80, av); if (!k.ok || ref.ea(k.x, k.b, k.d) != t) return false;
      e1(r1 << 4 | (op < 0x80 ? k.x : r2)); bd(k); return true; }
    if (op < 0x40) {
      if (op == 8 || op == 9) { uint32_t a = c.coin() ? c.draw(ref.msize) : c.coin() ? ref.msize + c.draw(64) : c.draw(0x1000000); if (c.coin()) a &= ~15u; want(r2, a | (uint32_t)c.u8() << 24); take(r1); take(r2); }
      else if (op >= 0x20) { if (c.chance(1, 3)) r1 &= 6; if (c.chance(1, 3)) r2 &= 6; takef(r1 >> 1 & 3); takef(r2 >> 1 & 3); }
      else { want(r1, val()); want(r2, val()); take(r1); take(r2); take(r1 ^ 1); }
      e1(r1 << 4 | r2); return true; }
    if (op < 0xc0) {
      uint32_t al = op == 0x82 || op == 0x4e || op == 0x4f ? 8 : (op & 0xf0) == 0x60 ? 8 : op >= 0x48 && op <= 0x4c ? 2 : op == 0x40 ? 2 : op >= 0x50 && op < 0x80 ? 4 : op == 0x90 || op == 0x98 ? 4 : 1, n = al;
      if (op >= 0x8c && op <= 0x8f) { want(r1, val()); want(r1 | 1, val()); take(r1); take(r1 | 1); BD k = { 0, 0, (int)c.draw(4096), true }; e1(r1 << 4 | r2); bd(k); return true; }
      if (op == 0x90 || op == 0x98) { r2 = (r1 + c.draw(5)) & 15; n = 4 * (((r2 - r1) & 15) + 1); for (int i = 0; i < 16; i++) if (((i - r1) & 15) <= ((r2 - r1) & 15)) take(i); }
      else if (op < 0x80 && op < 0x60) { want(r1, val()); take(r1); if (op == 0x5c || op == 0x5d) { r1 |= kind == 4; want(r1 ^ 1, val()); take(r1 ^ 1); } }
      else if (op >= 0x60 && op < 0x80) { if (kind != 4) r1 &= 6; takef(r1 >> 1 & 3); }
      uint32_t a = wildarea(n, al);
      if (op == 0x82) { if (c.coin()) a &= ~7u; if (incode(a, 8)) return false;
        uint32_t t = c.coin() ? c.draw(ref.msize) | 1 : ref.msize + 2 * c.draw(100); if (!fresh(a, 8)) { if (a < ref.msize && !(a & 7)) return false; }
        uint32_t w0 = (c.u8() & 0xe1) << 24 | (uint32_t)ref.pkey << 20 | (c.coin() ? 1u << 16 : 0) | 4u << 16, w1 = (c.u32() & 0x30000000) | (uint32_t)ref.pm << 24 | t;
        uint8_t b[8]; for (int i = 0; i < 4; i++) { b[i] = w0 >> (24 - 8 * i); b[4 + i] = w1 >> (24 - 8 * i); } put(a, b, 8); }
      if (op == 0x4f) decop(a, 8); if (op == 0x4f && c.chance(1, 2)) putb(a + c.draw(8), c.u8());
      if (incode(a, n)) return false;
      BD k = reach(a, op < 0x80, (op == 0x82) ? 0 : 0); if (!k.ok) return false; a = ref.ea(k.x, k.b, k.d); if (incode(a, n)) return false;
      use(a, n); e1(op < 0x80 ? r1 << 4 | k.x : op == 0x90 || op == 0x98 ? r1 << 4 | r2 : (int)c.u8()); bd(k); return true; }
    bool two = op >= 0xf0; int n1 = two ? c.range(1, 16) : c.chance(1, 6) ? c.range(1, 256) : c.range(1, 12), n2 = two ? (int)c.range(1, 16) : n1, L = two ? (n1 - 1) << 4 | (n2 - 1) : n1 - 1;
    uint32_t m2 = op == 0xdc || op == 0xdd ? 256 : n2, a1, a2;
    int which = op >= 0xf8 && c.chance(1, 2) ? 3 : c.draw(3); a1 = which == 0 || which == 2 ? wildarea(n1, 1) : area(n1, 1); a2 = which == 1 || which == 2 ? wildarea(m2, 1) : area(m2, 1);
    if (a1 < a2 + m2 && a2 < a1 + n1) return false;
    if (incode(a1, n1) || incode(a2, m2)) return false;
    BD k1 = reach(a1, false), k2 = reach(a2, false); if (!k1.ok || !k2.ok || ref.ea(0, k1.b, k1.d) != a1 || ref.ea(0, k2.b, k2.d) != a2) return false;
    if (op == 0xdd || op == 0xdf) { take(1); take(2); }
    if (op >= 0xf8) { decop(a1, n1, op >= 0xfc && c.chance(2, 3) ? n2 : 0); decop(a2, n2); if (which == 3 || c.chance(1, 4)) { bool first = c.coin(); uint32_t b = (first ? a1 : a2) + (uint32_t)c.draw(first ? n1 : n2); if (b < ref.msize) { int v = ref.mem[b]; if (c.coin()) v = (v & 15) | (10 + c.draw(6)) << 4; else v = (v & 0xf0) | (b + 1 == (first ? a1 + n1 : a2 + n2) ? c.draw(10) : 10 + c.draw(6)); putb(b, v); } } }
    if (op == 0xde || op == 0xdf) for (int i = 0; i < n1; i++) { putb(a1 + i, i == 0 ? 0x40 : c.coin() ? 0x20 : c.pick(std::vector<int>{ 0x21, 0x22, 0x6b })); putb(a2 + i, c.draw(10) << 4 | c.draw(10)); if (c.chance(1, 10)) putb(a2 + i, c.u8()); }
    use(a1, n1); use(a2, m2); e1(L); bd(k1); bd(k2); return true;
  }
  bool emit_wild() {
    if (!fresh(ref.ic, 6)) return false;
    use(ref.ic, 6); code.push_back({ref.ic, 6});
    bool ok = false; int kind = c.draw(12);
    if (kind == 0) {         // EXECUTE of nothing executable
      uint32_t t = c.chance(1, 3) ? newcode(6) | 1 : c.coin() ? newcode(6) : ref.msize - 2 * c.draw(3) + (c.coin() ? 0x2000 : 0); ins = { 0x44 };
      if (t > 1 && !(t < ref.msize && !fresh(t, std::min(6u, ref.msize - t)))) {
        int r1 = c.coin() ? 0 : reg(); if (!(t & 1)) { std::vector<uint8_t> b = { 0x44, c.u8(), c.u8(), c.u8() }; if (t + 2 > ref.msize || c.coin()) b[0] = 0x44; for (int i = 0; i < 4; i++) putb(t + i, b[i]); if (t < ref.msize) code.push_back({t, 4}), use(t, 4); }
        BD k = reach(t, true); take(r1); if (k.ok && ref.ea(k.x, k.b, k.d) == t) { e1(r1 << 4 | k.x); bd(k); ok = true; } }
    } else for (int t = 0; t < 4 && !ok; t++) ok = gen_wild();
    for (size_t i = 0; i < code.size(); i++) if (code[i].first == ref.ic) { code.erase(code.begin() + i); break; }
    for (int i = 0; i < 6; i++) used[ref.ic + i] = 0;
    if (!ok) return false;
    bool fc = false; std::vector<uint8_t> body = ins;
    if (kind != 0 && c.chance(1, 12)) {       // the same through EXECUTE
      use(ref.ic, 6); code.push_back({ref.ic, 6}); uint32_t t = newcode(6); BD k = { 0, 0, 0, false }; if (t) k = reach(t, true); fc = k.ok && t && ref.ea(k.x, k.b, k.d) == t;
      code.pop_back(); for (int i = 0; i < 6; i++) used[ref.ic + i] = 0;
      if (fc) { place(t, body); std::vector<uint8_t> ex = { 0x44, (uint8_t)(k.x), (uint8_t)(k.b << 4 | k.d >> 8), (uint8_t)k.d }; place(ref.ic, ex); listing += fmt("%06x: EX %02x%02x%02x%02x -> %06x:", ref.ic, ex[0], ex[1], ex[2], ex[3], t) + hexs(body) + " " + opnds(body); h = hbytes(body.data(), body.size(), h); return true; } }
    place(ref.ic, body); listing += fmt("%06x: ", ref.ic) + hexs(body) + " " + opnds(body); h = hbytes(body.data(), body.size(), h); return true;
  }
  std::string opnds(const std::vector<uint8_t> &b) {    // operand bytes of a storage-to-storage instruction, for reports
    if ((b[0] & 0xf0) == 0x20 || (b[0] & 0xf0) == 0x30) return fmt("[%016llx,%016llx] ", (unsigned long long)ref.f[b[1] >> 5 & 3], (unsigned long long)ref.f[b[1] >> 1 & 3]);
    if (((b[0] & 0xf0) == 0x60 || (b[0] & 0xf0) == 0x70) && b.size() == 4) { uint32_t a = ref.ea(b[1] & 15, b[2] >> 4, (b[2] & 15) << 8 | b[3]); return fmt("[%016llx,%x=%016llx] ", (unsigned long long)ref.f[b[1] >> 5 & 3], a, a + 8 <= ref.msize ? (unsigned long long)ref.gd(a) : 0ull); }
    if (b[0] < 0xd0 || b.size() < 6) return "";
    uint32_t a1 = ref.ea(0, b[2] >> 4, (b[2] & 15) << 8 | b[3]), a2 = ref.ea(0, b[4] >> 4, (b[4] & 15) << 8 | b[5]); int n1 = b[0] >= 0xf0 ? (b[1] >> 4) + 1 : b[1] + 1, n2 = b[0] >= 0xf0 ? (b[1] & 15) + 1 : n1;
    std::string s = fmt("[%x=", a1); for (int i = 0; i < n1 && i < 20; i++) if (a1 + i < ref.msize) s += fmt("%02x", ref.mem[a1 + i]); s += fmt(",%x=", a2); for (int i = 0; i < n2 && i < 20; i++) if (a2 + i < ref.msize) s += fmt("%02x", ref.mem[a2 + i]);
    return s + "] ";
  }
  // An instruction that stores into one of the instructions that follow it.  What it stores is filled in once that
  // instruction is known; until it is executed the place holds something else.
  struct { bool on = false; uint32_t ic, at, n; int kind; uint32_t src, self; } mod; std::vector<int> fill;
  bool emit_mod() {
    if (mod.on || !fresh(ref.ic, 40) || ref.ic + 40 > ref.msize) return false;
    int kind = c.draw(3), L = kind == 1 ? 6 : 4; fill.clear(); int nf = c.weighted({ 4, 2, 1 }); uint32_t t = ref.ic + L; for (int i = 0; i < nf; i++) { fill.push_back(c.coin() ? 2 : 4); t += fill.back(); }
    mod.ic = t; mod.kind = kind; mod.self = ref.ic; mod.n = kind == 1 ? 6 : 1; mod.at = t + (kind == 1 ? 0 : c.draw(2)); ins.clear();
    use(ref.ic, 40); code.push_back({ ref.ic, 40 }); bool ok = false; BD k, k2; int r = 0;
    do { k = reach(mod.at, kind == 2); if (!k.ok || ref.ea(k.x, k.b, k.d) != mod.at) break;
      if (kind == 0) { e1(0x92); e1(c.u8()); bd(k); ok = true; }
      else if (kind == 1) { mod.src = area(6, 1); if (!fresh(mod.src, 6)) break; k2 = reach(mod.src, false); if (!k2.ok || ref.ea(0, k2.b, k2.d) != mod.src) break; for (int i = 0; i < 6; i++) putb(mod.src + i, c.u8()); use(mod.src, 6); e1(0xd2); e1(5); bd(k); bd(k2); ok = true; }
      else { // register 0 is never part of an address
        if (!rfresh(0)) break; take(0); mod.src = r = 0; e1(0x42); e1(r << 4 | k.x); bd(k); ok = true; }
    } while (0);
    code.pop_back(); for (int i = 0; i < 40; i++) used[ref.ic + i] = 0;
    if (!ok) { fill.clear(); return false; }
    place(ref.ic, ins); listing += fmt("%06x: ", ref.ic) + hexs(ins) + " (changes a later instruction)"; h = hbytes(ins.data(), ins.size(), h); mod.on = true; return true; }
  bool emit_fill() { int n = fill[0]; fill.erase(fill.begin()); ins = n == 2 ? std::vector<uint8_t>{ 0x07, (uint8_t)c.draw(16) } : std::vector<uint8_t>{ 0x47, (uint8_t)c.draw(16), 0, 0 }; place(ref.ic, ins); listing += fmt("%06x: ", ref.ic) + hexs(ins); return true; }
  void mod_done() { // the instruction at mod.ic is there now
    mod.on = false; int len = ref.mem[mod.ic] < 0x40 ? 2 : ref.mem[mod.ic] < 0xc0 ? 4 : 6; uint32_t m = mod.kind == 1 ? 1 + c.draw(len) : 1;
    if (mod.at + m > mod.ic + len) m = mod.ic + len - mod.at; auto both = [&](uint32_t a, uint8_t v) { ref.mem[a] = img[a] = v; };
    for (uint32_t i = 0; i < m; i++) { uint8_t v = ref.mem[mod.at + i]; img[mod.at + i] = c.chance(1, 4) ? c.u8() : i == 0 && mod.at == mod.ic ? (uint8_t)c.pick(std::vector<int>{ 0x18, 0x1a, 0x1b, 0x07, 0x41, 0x47, 0x92, 0x0a, 0xd2 }) : v ^ (1 << c.draw(8));
      if (mod.kind == 0) both(mod.self + 1, v); else if (mod.kind == 1) both(mod.src + i, v); else ir[mod.src] = ref.r[mod.src] = (ref.r[mod.src] & ~255u) | v; }
    if (mod.kind == 1) { both(mod.self + 1, m - 1); for (uint32_t a = mod.ic + len; a < mod.at + 6; a++) ref.mem[a] = img[a]; }
    listing += fmt(" <was %02x>", img[mod.at]); }
  bool want_ex = true;
  static std::string hexs(const std::vector<uint8_t> &b) { std::string s; for (auto x : b) s += fmt("%02x", x); return s; }
};
