// Reference interpreter for the System/360 instruction set, written from the
// Principles of Operation and independent of the emulators.  Where the
// architecture leaves something undefined the interpreter records a "don't
// care" (dc_*) or a set of permitted interruption codes.
#pragma once
#include <stdint.h>
#include <string.h>
#include <vector>
typedef unsigned __int128 u128; typedef __int128 s128;

enum { X_OP = 1, X_PRIV, X_EXEC, X_PROT, X_ADDR, X_SPEC, X_DATA, X_FIXO, X_FIXD, X_DECO, X_DECD, X_EXPO, X_EXPU, X_SIG, X_FPD };
#define XB(c) (1u << (c))

struct Ref {
  uint32_t r[16]; uint64_t f[4];
  std::vector<uint8_t> mem; uint32_t msize = 0;
  uint8_t key[256];
  uint8_t mask = 0, pkey = 0, amwp = 0, cc = 0, pm = 0; uint32_t ic = 0; int ilc = 0;
  bool fp = true, dec = true, m50 = true;
  const char *quirk = nullptr;   // a known departure of the Model 50 from the architecture met on the way
  // outcome of the last step
  uint32_t exc = 0;              // permitted program interruption codes
  bool opt_exc = false;          // the interruption may also not happen
  bool completed = false;        // exception with completed result
  int svc = -1;
  bool fetch_err = false;        // error while fetching: address and length of the instruction unpredictable
  std::vector<uint8_t> dc_mem; bool any_dc_mem = false;
  uint32_t dc_reg = 0, dc_freg = 0; bool dc_cc = false;
  std::vector<std::pair<uint32_t, uint32_t>> writes;   // ranges stored by the last step
  uint8_t ib[6]; int cur_ilc = 0;
  uint32_t start_ic = 0; bool executed = false;
  bool touched_odd = false;
  uint32_t max_store = 0, min_store = ~0u;
  bool ambiguous = false;        // the architecture does not define the outcome well enough to judge
  uint32_t io = 0;

  void init(uint32_t size) { msize = size; mem.assign(size, 0); dc_mem.assign(size, 0); memset(r, 0, sizeof r); memset(f, 0, sizeof f); memset(key, 0, sizeof key); }

  bool inmem(uint32_t a, uint32_t len) const { return a < msize && a + len <= msize; }
  uint8_t gb(uint32_t a) const { a &= 0xffffff; return a < msize ? mem[a] : 0; }
  uint32_t gh(uint32_t a) const { return gb(a) << 8 | gb(a + 1); }
  uint32_t gw(uint32_t a) const { return gh(a) << 16 | gh(a + 2); }
  uint64_t gd(uint32_t a) const { return (uint64_t)gw(a) << 32 | gw(a + 4); }
  void pb(uint32_t a, uint8_t v) { a &= 0xffffff; if (a < msize) { mem[a] = v; dc_mem[a] = 0; } }
  void wrote(uint32_t a, uint32_t n) { writes.push_back({a & 0xffffff, n}); }
  void ph(uint32_t a, uint32_t v) { pb(a, v >> 8); pb(a + 1, v); }
  void pw(uint32_t a, uint32_t v) { ph(a, v >> 16); ph(a + 2, v); }
  void pd(uint32_t a, uint64_t v) { pw(a, v >> 32); pw(a + 4, v); }
  void dcm(uint32_t a, uint32_t n) { for (uint32_t i = 0; i < n; i++) { uint32_t x = (a + i) & 0xffffff; if (x < msize && !(pkey && key[x >> 11] != pkey)) { dc_mem[x] = 1; any_dc_mem = true; } } wrote(a, n); }

  // checks: return exception bits
  uint32_t ckfetch(uint32_t a, uint32_t n) const { a &= 0xffffff; return inmem(a, n) ? 0 : XB(X_ADDR); }
  uint32_t ckstore(uint32_t a, uint32_t n) const {
    a &= 0xffffff; uint32_t x = 0;
    for (uint32_t i = 0; i < n; i++) {
      if (a + i >= msize) { x |= XB(X_ADDR); break; }
      if (pkey && key[(a + i) >> 11] != pkey) x |= XB(X_PROT);
    }
    return x;
  }
  uint32_t align(uint32_t a, uint32_t n) const { return (a & (n - 1)) ? XB(X_SPEC) : 0; }

  // decimal
  static bool sgn_ok(int d) { return d >= 10; }
  static int sgn(int d) { return d == 0xb || d == 0xd ? -1 : 1; }
  int plus() const { return amwp & 8 ? 0xa : 0xc; }
  int minus() const { return amwp & 8 ? 0xb : 0xd; }
  // n bytes; returns false on bad digit/sign
  bool getdec(uint32_t a, int n, u128 &v, int &s) const {
    v = 0; bool ok = true;
    for (int i = 0; i < n; i++) {
      int b = gb(a + i), h = b >> 4, l = b & 15;
      if (h > 9) ok = false; v = v * 10 + h;
      if (i < n - 1) { if (l > 9) ok = false; v = v * 10 + l; } else { if (!sgn_ok(l)) ok = false; s = sgn(l); }
    }
    return ok;
  }
  void putdec(uint32_t a, int n, u128 v, bool neg) {
    for (int i = n - 1; i >= 0; i--) {
      int lo, hi;
      if (i == n - 1) lo = neg ? minus() : plus(); else { lo = (int)(v % 10); v /= 10; }
      hi = (int)(v % 10); v /= 10;
      pb(a + i, hi << 4 | lo);
    }
    wrote(a, n);
  }
  static u128 p10(int n) { u128 v = 1; while (n--) v *= 10; return v; }

  uint32_t psw_hi() const { return (uint32_t)mask << 24 | (uint32_t)pkey << 20 | (uint32_t)amwp << 16; }
  uint32_t psw_lo() const { return (uint32_t)ilc << 30 | (uint32_t)cc << 28 | (uint32_t)pm << 24 | (ic & 0xffffff); }
  bool prob() const { return amwp & 1; }

  int scc(int32_t v) { return v == 0 ? 0 : v < 0 ? 1 : 2; }
  bool trap(uint32_t x) { exc = x; return false; }

  // Executes one instruction.  True: go on.  False: stopped with exc or svc set.
  bool step() {
    exc = 0; opt_exc = completed = fetch_err = false; svc = -1; executed = false; writes.clear(); ambiguous = false;
    start_ic = ic;
    if (ic & 1) { fetch_err = true; return trap(XB(X_SPEC)); }
    if (!inmem(ic, 2)) { fetch_err = true; return trap(XB(X_ADDR)); }
    int op = mem[ic], len = op < 0x40 ? 2 : op < 0xc0 ? 4 : 6;
    if (!inmem(ic, len)) { fetch_err = true; return trap(XB(X_ADDR)); }
    for (int i = 0; i < len; i++) ib[i] = mem[ic + i];
    cur_ilc = ilc = len / 2; ic = (ic + len) & 0xffffff;
    if (op == 0x44) {
      uint32_t a = ea(ib[1] & 15, ib[2] >> 4, (ib[2] & 15) << 8 | ib[3]);
      uint32_t x = 0;
      if (a & 1) return trap(XB(X_SPEC));
      if (!inmem(a, 2)) return trap(XB(X_ADDR));
      int top = mem[a], tl = top < 0x40 ? 2 : top < 0xc0 ? 4 : 6;
      if (top == 0x44) { x = XB(X_EXEC); if (!inmem(a, tl)) x |= XB(X_ADDR); else for (int m = 0; m < 2; m++) x |= opcheck(ea((mem[a + 1] | (m && ib[1] >> 4 ? r[ib[1] >> 4] : 0)) & 15, mem[a + 2] >> 4, (mem[a + 2] & 15) << 8 | mem[a + 3])); return trap(x); }
      if (!inmem(a, tl)) return trap(XB(X_ADDR));
      int r1 = ib[1] >> 4; uint8_t orv = r1 ? r[r1] & 0xff : 0;
      for (int i = 0; i < tl; i++) ib[i] = mem[a + i];
      ib[1] |= orv; executed = true;
    }
    return exec();
  }
  uint32_t ea(int x, int b, int d) const { uint32_t v = d; if (x) v += r[x]; if (b) v += r[b]; return v & 0xffffff; }
  void branch(uint32_t a) { ic = a & 0xffffff; }
  bool overflow() { if (pm & 8) { completed = true; return trap(XB(X_FIXO)); } return true; }
  bool ovset() { cc = 3; return overflow(); }

  bool addsub(int r1, uint32_t b, bool sub) {
    int64_t v = sub ? (int64_t)(int32_t)r[r1] - (int32_t)b : (int64_t)(int32_t)r[r1] + (int32_t)b;
    r[r1] = (uint32_t)v;
    if (v != (int32_t)v) return ovset();
    cc = scc((int32_t)v); return true;
  }
  bool logadd(int r1, uint32_t b, bool sub) {
    uint64_t v = sub ? (uint64_t)r[r1] + (uint32_t)~b + 1 : (uint64_t)r[r1] + b;
    r[r1] = (uint32_t)v; cc = ((uint32_t)v != 0 ? 1 : 0) | (v >> 32 ? 2 : 0); return true;
  }
  void cmp(int32_t a, int32_t b) { cc = a == b ? 0 : a < b ? 1 : 2; }
  void cmpl(uint32_t a, uint32_t b) { cc = a == b ? 0 : a < b ? 1 : 2; }
  bool mul(int r1, int32_t b) {
    int64_t p = (int64_t)(int32_t)r[r1 + 1] * b; r[r1] = (uint32_t)((uint64_t)p >> 32); r[r1 + 1] = (uint32_t)p; return true;
  }
  bool div(int r1, int32_t b) {
    int64_t n = (int64_t)((uint64_t)r[r1] << 32 | r[r1 + 1]);
    if (b == 0) return trap(XB(X_FIXD));
    s128 q = (s128)n / b, m = (s128)n % b;
    if (q != (int32_t)q) return trap(XB(X_FIXD));
    r[r1] = (uint32_t)(int32_t)m; r[r1 + 1] = (uint32_t)(int32_t)q; return true;
  }
  bool link(int r1, uint32_t target, bool dobr) {
    uint32_t l = psw_lo(); if (dobr) branch(target); r[r1] = l; return true;
  }

#include "s360fp.hpp"

  // Which of several causes of a program interruption is indicated is up to the model: an
  // unassigned or privileged operation may also be noticed by what is wrong with its operands.
  uint32_t opcheck(uint32_t a) const { return (a & 7 ? XB(X_SPEC) : 0) | (inmem(a, 8) ? 0 : XB(X_ADDR)); }
  bool exec() {
    bool go = exec1(); int op = ib[0];
    if (go || svc >= 0 || !(exc & (XB(X_OP) | XB(X_PRIV)))) return go;
    if (op >= 0x40) exc |= opcheck(op < 0x80 ? ea(ib[1] & 15, ib[2] >> 4, (ib[2] & 15) << 8 | ib[3]) : ea(0, ib[2] >> 4, (ib[2] & 15) << 8 | ib[3]));
    if (op >= 0xc0) { uint32_t p = ea(0, ib[2] >> 4, (ib[2] & 15) << 8 | ib[3]), q = ea(0, ib[4] >> 4, (ib[4] & 15) << 8 | ib[5]); exc |= opcheck(q); if (!inmem(p, 256) || !inmem(q, 256)) exc |= XB(X_ADDR); }
    if (op == 0x84 || op == 0x85) exc |= XB(X_OP);      // direct control is a feature
    return go;
  }
  bool exec1() {
    int op = ib[0], r1 = ib[1] >> 4, r2 = ib[1] & 15;
    if (op < 0x40) return exec_rr(op, r1, r2);
    int b = ib[2] >> 4, d = (ib[2] & 15) << 8 | ib[3];
    if (op < 0x80) return exec_rx(op, r1, ea(r2, b, d));
    if (op < 0xc0) return exec_rs(op, r1, r2, ib[1], ea(0, b, d));
    return exec_ss(op, ib[1], ea(0, b, d), ea(0, ib[4] >> 4, (ib[4] & 15) << 8 | ib[5]));
  }

  bool exec_rr(int op, int r1, int r2) {
    if (op >= 0x20 && op <= 0x3f) return fp ? fp_rr(op, r1, r2) : trap(XB(X_OP));
    uint32_t v = r[r2];
    switch (op) {
    case 0x04: cc = r[r1] >> 28 & 3; pm = r[r1] >> 24 & 15; return true;
    case 0x05: return link(r1, v, r2 != 0);
    case 0x06: r[r1]--; if (r2 && r[r1] != 0) branch(r1 == r2 ? v : r[r2]); return true;
    case 0x07: if (r2 && (r1 & (8 >> cc))) branch(v); return true;
    case 0x08: case 0x09: {
      uint32_t x = 0; if (prob()) x |= XB(X_PRIV);
      if (v & 15) x |= XB(X_SPEC);
      if ((v & 0xffffff) >= msize) x |= XB(X_ADDR);
      if (x & XB(X_PRIV)) x = XB(X_PRIV);
      if (x) return trap(x);
      uint32_t blk = (v & 0xffffff) >> 11;
      if (op == 8) key[blk] = r[r1] >> 4 & 15;
      else r[r1] = (r[r1] & 0xffffff00) | key[blk] << 4;
      return true; }
    case 0x0a: svc = ib[1]; return false;
    case 0x10: if (v == 0x80000000) { r[r1] = v; return ovset(); } r[r1] = (int32_t)v < 0 ? -v : v; cc = scc(r[r1]); return true;
    case 0x11: r[r1] = (int32_t)v > 0 ? -v : v; cc = scc(r[r1]); return true;
    case 0x12: r[r1] = v; cc = scc(v); return true;
    case 0x13: if (v == 0x80000000) { r[r1] = v; return ovset(); } r[r1] = -v; cc = scc(r[r1]); return true;
    case 0x14: r[r1] &= v; cc = r[r1] != 0; return true;
    case 0x15: cmpl(r[r1], v); return true;
    case 0x16: r[r1] |= v; cc = r[r1] != 0; return true;
    case 0x17: r[r1] ^= v; cc = r[r1] != 0; return true;
    case 0x18: r[r1] = v; return true;
    case 0x19: cmp(r[r1], v); return true;
    case 0x1a: return addsub(r1, v, false);
    case 0x1b: return addsub(r1, v, true);
    case 0x1c: if (r1 & 1) return trap(XB(X_SPEC)); return mul(r1, v);
    case 0x1d: if (r1 & 1) return trap(XB(X_SPEC)); return div(r1, v);
    case 0x1e: return logadd(r1, v, false);
    case 0x1f: return logadd(r1, v, true);
    }
    return trap(XB(X_OP));
  }

  bool exec_rx(int op, int r1, uint32_t a) {
    if (op >= 0x60 && op <= 0x7f) return fp ? fp_rx(op, r1, a) : trap(XB(X_OP));
    uint32_t x; int32_t h;
    switch (op) {
    case 0x40: x = align(a, 2) | ckstore(a, 2); if (x) { if (x & XB(X_PROT)) ; return trap(x); } ph(a, r[r1]); wrote(a, 2); return true;
    case 0x41: r[r1] = a; return true;
    case 0x42: x = ckstore(a, 1); if (x) return trap(x); pb(a, r[r1]); wrote(a, 1); return true;
    case 0x43: x = ckfetch(a, 1); if (x) return trap(x); r[r1] = (r[r1] & ~0xffu) | gb(a); return true;
    case 0x45: return link(r1, a, true);
    case 0x46: r[r1]--; if (r[r1]) branch(a); return true;
    case 0x47: if (r1 & (8 >> cc)) branch(a); return true;
    case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c:
      x = align(a, 2) | ckfetch(a, 2); if (x) { if (op != 0x48) {} return trap(x); }
      h = (int16_t)gh(a);
      if (op == 0x48) { r[r1] = h; return true; }
      if (op == 0x49) { cmp(r[r1], h); return true; }
      if (op == 0x4c) { r[r1] = (uint32_t)((int64_t)(int32_t)r[r1] * h); return true; }
      return addsub(r1, h, op == 0x4b);
    case 0x4e: { x = align(a, 8) | ckstore(a, 8); if (x) return trap(x);
      int32_t v = r[r1]; putdec(a, 8, v < 0 ? (u128)(-(int64_t)v) : (u128)v, v < 0); return true; }
    case 0x4f: { x = align(a, 8) | ckfetch(a, 8); u128 v; int s = 1;
      if (!x && !getdec(a, 8, v, s)) x |= XB(X_DATA);
      if (x) { if (!(x & XB(X_DATA))) {} else dc_reg |= 0; return trap(x); }
      s128 sv = s < 0 ? -(s128)v : (s128)v;
      if (sv != (int32_t)sv) { r[r1] = (uint32_t)(uint64_t)sv; completed = true; return trap(XB(X_FIXD)); }
      r[r1] = (uint32_t)(int32_t)sv; return true; }
    case 0x50: x = align(a, 4) | ckstore(a, 4); if (x) return trap(x); pw(a, r[r1]); wrote(a, 4); return true;
    case 0x54: case 0x55: case 0x56: case 0x57: case 0x58: case 0x59: case 0x5a: case 0x5b: case 0x5c: case 0x5d: case 0x5e: case 0x5f: {
      x = align(a, 4) | ckfetch(a, 4);
      if ((op == 0x5c || op == 0x5d) && (r1 & 1)) x |= XB(X_SPEC);
      if (x) return trap(x);
      uint32_t v = gw(a);
      switch (op) {
      case 0x54: r[r1] &= v; cc = r[r1] != 0; return true;
      case 0x55: cmpl(r[r1], v); return true;
      case 0x56: r[r1] |= v; cc = r[r1] != 0; return true;
      case 0x57: r[r1] ^= v; cc = r[r1] != 0; return true;
      case 0x58: r[r1] = v; return true;
      case 0x59: cmp(r[r1], v); return true;
      case 0x5a: return addsub(r1, v, false);
      case 0x5b: return addsub(r1, v, true);
      case 0x5c: return mul(r1, v);
      case 0x5d: return div(r1, v);
      case 0x5e: return logadd(r1, v, false);
      case 0x5f: return logadd(r1, v, true);
      } }
    }
    return trap(XB(X_OP));
  }

  bool exec_rs(int op, int r1, int r3, int i2, uint32_t a) {
    uint32_t x; int n = a & 63; int64_t d; uint64_t u;
    switch (op) {
    case 0x80: if (prob()) return trap(XB(X_PRIV)); x = ckfetch(a, 1); if (x) return trap(x); mask = gb(a); return true;
    case 0x82: { if (prob()) return trap(XB(X_PRIV)); x = align(a, 8) | ckfetch(a, 8); if (x) return trap(x);
      uint32_t h = gw(a), l = gw(a + 4); mask = h >> 24; pkey = h >> 20 & 15; amwp = h >> 16 & 15; cc = l >> 28 & 3; pm = l >> 24 & 15; ic = l & 0xffffff; return true; }
    case 0x86: case 0x87: {
      uint32_t inc = r[r3], cv = r[r3 | 1]; uint32_t s = r[r1] + inc;
      bool hi = (int32_t)s > (int32_t)cv; r[r1] = s;
      if (hi == (op == 0x86)) branch(a); return true; }
    case 0x88: r[r1] = n > 31 ? 0 : r[r1] >> n; return true;
    case 0x89: r[r1] = n > 31 ? 0 : r[r1] << n; return true;
    case 0x8a: r[r1] = (int32_t)r[r1] >> (n > 31 ? 31 : n); cc = scc(r[r1]); return true;
    case 0x8b: { int32_t v = r[r1]; s128 w = (s128)v * ((s128)1 << n);
      uint32_t res = (v & 0x80000000) | ((n > 31 ? 0 : ((uint32_t)v << n)) & 0x7fffffff);
      bool ov = w != (int32_t)w; r[r1] = res; if (ov) return ovset(); cc = scc(res); return true; }
    case 0x8c: case 0x8d: case 0x8e: case 0x8f:
      if (r1 & 1) return trap(XB(X_SPEC));
      u = (uint64_t)r[r1] << 32 | r[r1 + 1]; d = (int64_t)u;
      { bool ov = false;
      if (op == 0x8c) u = n ? u >> n : u; else if (op == 0x8d) u = n ? u << n : u;
      else if (op == 0x8e) u = (uint64_t)(d >> n);
      else { s128 w = (s128)d * ((s128)1 << n); ov = w != (int64_t)w; u = (u & 0x8000000000000000ull) | ((u << n) & 0x7fffffffffffffffull); }
      r[r1] = u >> 32; r[r1 + 1] = (uint32_t)u;
      if (ov) return ovset();
      if (op >= 0x8e) cc = u == 0 ? 0 : (int64_t)u < 0 ? 1 : 2; }
      return true;
    case 0x90: case 0x98: {
      int cnt = ((r3 - r1) & 15) + 1; x = align(a, 4) | (op == 0x90 ? ckstore(a, cnt * 4) : ckfetch(a, cnt * 4));
      if (x) { if (!(x & XB(X_SPEC))) { if (op == 0x90) dcm(a, cnt * 4); else for (int i = 0; i < cnt; i++) dc_reg |= 1u << ((r1 + i) & 15); } return trap(x); }
      for (int i = 0; i < cnt; i++) { int q = (r1 + i) & 15; if (op == 0x90) pw(a + 4 * i, r[q]); else r[q] = gw(a + 4 * i); }
      if (op == 0x90) wrote(a, cnt * 4); return true; }
    case 0x91: { x = ckfetch(a, 1); if (x) return trap(x); int v = gb(a) & i2; cc = v == 0 ? 0 : v == i2 ? 3 : 1; return true; }
    case 0x92: x = ckstore(a, 1); if (x) return trap(x); pb(a, i2); wrote(a, 1); return true;
    case 0x93: x = ckstore(a, 1); if (x) { dc_cc = true; return trap(x); } cc = gb(a) >> 7; pb(a, 0xff); wrote(a, 1); return true;
    case 0x94: case 0x96: case 0x97: { x = ckstore(a, 1); if (x) { dc_cc = true; return trap(x); } int v = gb(a); v = op == 0x94 ? v & i2 : op == 0x96 ? v | i2 : v ^ i2; pb(a, v); wrote(a, 1); cc = v != 0; return true; }
    case 0x95: x = ckfetch(a, 1); if (x) return trap(x); cmpl(gb(a), i2); return true;
    case 0x9c: case 0x9d: case 0x9e: case 0x9f: if (prob()) return trap(XB(X_PRIV)); ambiguous = true; return true;
    case 0x83: case 0x84: case 0x85: if (prob()) return trap(XB(X_PRIV)); ambiguous = true; return true;
    }
    return trap(XB(X_OP));
  }

  bool exec_ss(int op, int L, uint32_t a1, uint32_t a2) {
    uint32_t x; int n = L + 1, l1 = (L >> 4) + 1, l2 = (L & 15) + 1;
    switch (op) {
    case 0xd1: case 0xd2: case 0xd3: case 0xd4: case 0xd6: case 0xd7:
      x = ckstore(a1, n) | ckfetch(a2, n);
      if (x) { dcm(a1, n); if (op >= 0xd4) dc_cc = true; return trap(x); }
      { bool nz = false;
        for (int i = 0; i < n; i++) {
          int s = gb(a2 + i), t = gb(a1 + i), v = 0;
          switch (op) { case 0xd1: v = (t & 0xf0) | (s & 15); break; case 0xd2: v = s; break; case 0xd3: v = (t & 15) | (s & 0xf0); break;
            case 0xd4: v = t & s; break; case 0xd6: v = t | s; break; default: v = t ^ s; }
          pb(a1 + i, v); if (v) nz = true;
        }
        wrote(a1, n); if (op >= 0xd4) cc = nz; }
      return true;
    case 0xd5: {
      cc = 0; x = ckfetch(a1, n) | ckfetch(a2, n);
      for (int i = 0; i < n; i++) {
        if (ckfetch(a1 + i, 1) | ckfetch(a2 + i, 1)) break;
        int p = gb(a1 + i), q = gb(a2 + i); if (p != q) { cc = p < q ? 1 : 2; if (x) ambiguous = true; break; } }
      if (x) { dc_cc = true; return trap(x); } return true; }
    case 0xdc:
      x = ckstore(a1, n);
      for (int i = 0; i < n; i++) if (inmem((a1 + i) & 0xffffff, 1)) { x |= ckfetch(a2 + gb(a1 + i), 1);  }
      if (x) { dcm(a1, n); return trap(x); }
      { bool over = false; for (int i = 0; i < n; i++) { uint32_t t = (a2 + gb(a1 + i)) & 0xffffff; if (t >= a1 && t < a1 + n) over = true; pb(a1 + i, gb(t)); }
        (void)over; wrote(a1, n); }
      return true;
    case 0xdd: {
      int i; for (i = 0; i < n; i++) {
        if (ckfetch(a1 + i, 1)) { dc_cc = true; dc_reg |= 6; return trap(XB(X_ADDR)); }
        uint32_t t = a2 + gb(a1 + i);
        if (ckfetch(t, 1)) { dc_cc = true; dc_reg |= 6; return trap(XB(X_ADDR)); }
        int v = gb(t); if (v) { r[1] = (r[1] & 0xff000000) | ((a1 + i) & 0xffffff); r[2] = (r[2] & ~0xffu) | v; cc = i == n - 1 ? 2 : 1; 
          if (ckfetch(a1, n)) ambiguous = true; return true; } }
      cc = 0; return true; }
    case 0xde: case 0xdf: return edit(op == 0xdf, n, a1, a2);
    case 0xf1: case 0xf2: case 0xf3:
      x = ckstore(a1, l1) | ckfetch(a2, l2);
      if (x) { dcm(a1, l1); return trap(x); }
      if (op == 0xf1) mvo(a1, l1, a2, l2); else if (op == 0xf2) pack(a1, l1, a2, l2); else unpk(a1, l1, a2, l2);
      wrote(a1, l1); return true;
    case 0xf8: case 0xf9: case 0xfa: case 0xfb: case 0xfc: case 0xfd: return decimal(op, l1, l2, a1, a2);
    }
    return trap(XB(X_OP));
  }
  void pack(uint32_t a1, int l1, uint32_t a2, int l2) {
    int i = l1 - 1, j = l2 - 1; int v = gb(a2 + j); pb(a1 + i, (v << 4 | v >> 4) & 0xff); i--; j--;
    while (i >= 0) { int lo = 0, hi = 0; if (j >= 0) lo = gb(a2 + j--) & 15; if (j >= 0) hi = gb(a2 + j--) & 15; pb(a1 + i--, hi << 4 | lo); }
  }
  void unpk(uint32_t a1, int l1, uint32_t a2, int l2) {
    int z = amwp & 8 ? 0x50 : 0xf0;
    int i = l1 - 1, j = l2 - 1; int v = gb(a2 + j); pb(a1 + i, (v << 4 | v >> 4) & 0xff); i--; j--;
    while (i >= 0) { int b = j >= 0 ? gb(a2 + j--) : 0; pb(a1 + i--, z | (b & 15)); if (i >= 0) pb(a1 + i--, z | b >> 4); }
  }
  void mvo(uint32_t a1, int l1, uint32_t a2, int l2) {
    int i = l1 - 1, j = l2 - 1; int b = gb(a2 + j--); pb(a1 + i, (gb(a1 + i) & 15) | (b & 15) << 4); i--; int hi = b >> 4;
    while (i >= 0) { b = j >= 0 ? gb(a2 + j--) : 0; pb(a1 + i--, (b & 15) << 4 | hi); hi = b >> 4; }
  }
  bool edit(bool mk, int n, uint32_t a1, uint32_t a2) {
    // source digits are fetched only as needed
    std::vector<uint8_t> out(n); bool sig = false, need_hi = true; int src = 0; uint32_t sp = a2; int newcc = 0; bool nz = false; int ssign = 0; bool x = false;
    uint32_t mark = 0; bool marked = false;
    uint8_t fill = 0; uint8_t zone = amwp & 8 ? 0x50 : 0xf0; uint32_t bad = ckstore(a1, n); 
    for (int i = 0; i < n; i++) {
      uint8_t p = gb(a1 + i); uint8_t o;
      if (i == 0) fill = p;
      if (p == 0x20 || p == 0x21) {
        int dig; bool signseen = false;
        if (need_hi) {
          if (ckfetch(sp, 1)) { bad |= XB(X_ADDR); break; }
          src = gb(sp); dig = src >> 4; if (dig > 9) { bad |= XB(X_DATA); break; }
          int low = src & 15; sp++;
          if (low > 9) { signseen = true; ssign = sgn(low); } else need_hi = false;
        } else { dig = src & 15; need_hi = true; }
        if (dig) nz = true;
        if (sig || dig) { o = zone | dig; if (!sig && dig) { mark = a1 + i; marked = true; } } else o = fill;
        bool news = sig || dig || p == 0x21;
        if (signseen) { news = ssign < 0; }
        // a plus sign resets significance, a minus sign leaves it as set
        if (signseen && ssign < 0) news = sig || dig || p == 0x21;
        sig = news;
      } else if (p == 0x22) { o = fill; sig = false; nz = false; }
      else o = sig ? p : fill;
      if (i == 0 && !(p == 0x20 || p == 0x21)) o = p;   // fill character stays
      out[i] = o;
    }
    (void)x;
    if (bad == XB(X_PROT)) {   // a message character that stays as it is need not be stored
      bool need = false; for (int i = 0; i < n; i++) if (pkey && key[((a1 + i) & 0xffffff) >> 11] != pkey && out[i] != gb(a1 + i)) need = true;
      if (!need) ambiguous = true; }
    if (bad) { dcm(a1, n); dc_cc = true; if (mk) dc_reg |= 2; return trap(bad); }
    for (int i = 0; i < n; i++) pb(a1 + i, out[i]);
    wrote(a1, n);
    newcc = !nz ? 0 : sig ? 1 : 2; cc = newcc;
    if (mk && marked) r[1] = (r[1] & 0xff000000) | (mark & 0xffffff);
    return true;
  }
  bool decimal(int op, int l1, int l2, uint32_t a1, uint32_t a2) {
    if (!dec) return trap(XB(X_OP));
    uint32_t x = (op == 0xf9 ? ckfetch(a1, l1) : ckstore(a1, l1)) | ckfetch(a2, l2); uint32_t dx = 0;
    u128 v1 = 0, v2 = 0; int s1 = 1, s2 = 1;
    if (op >= 0xfc && (l2 > 8 || l2 >= l1)) { x |= XB(X_SPEC); }
    bool ok2 = getdec(a2, l2, v2, s2), ok1 = op == 0xf8 ? true : getdec(a1, l1, v1, s1);
    if (!ok1 || !ok2) dx |= XB(X_DATA);
    // The processors may skip the digits of a multiplicand that is multiplied by zero, and notice
    // an impossible quotient before a bad dividend digit.
    if (op == 0xfc && !ok1 && ok2 && v2 == 0) ambiguous = true;
    if (op == 0xfd && (!ok1 || x)) dx |= XB(X_DECD);
    if (op == 0xfc && x && l2 <= 8) for (int i = 0; i < l2 && i < l1; i++) if (gb(a1 + i)) dx |= XB(X_DATA);
    if (m50 && (dx & XB(X_DATA)) && op >= 0xf9) quirk = op == 0xf9 ? "compare-digit" : op == 0xfc ? "multiply-digit" : nullptr;
    if (x & XB(X_SPEC)) return trap(x | dx | ((x | dx) & 0 ? 0 : 0));
    if (x | dx) { if (op != 0xf9) dcm(a1, l1); if (op < 0xfc) dc_cc = true; return trap(x | dx); }
    int n1 = 2 * l1 - 1;
    if (op == 0xf9) { s128 p = s1 < 0 ? -(s128)v1 : v1, q = s2 < 0 ? -(s128)v2 : v2; cc = p == q ? 0 : p < q ? 1 : 2; return true; }
    if (op <= 0xfb) {
      s128 p = op == 0xf8 ? 0 : (s1 < 0 ? -(s128)v1 : (s128)v1), q = s2 < 0 ? -(s128)v2 : (s128)v2; if (op == 0xfb) q = -q;
      if (m50 && op >= 0xfa && l2 > l1 && (s1 < 0) != (op == 0xfb ? s2 > 0 : s2 < 0) && v1 == v2 % p10(n1) && v2 / p10(n1) == 1) quirk = "overflow-lost";
      s128 s = p + q; bool neg = s < 0; u128 m = neg ? (u128)-s : (u128)s; bool ov = m >= p10(n1);
      putdec(a1, l1, m % p10(n1), neg);
      if (ov) { cc = 3; if (pm & 4) { completed = true; return trap(XB(X_DECO)); } return true; }
      cc = m == 0 ? 0 : neg ? 1 : 2; return true;
    }
    if (op == 0xfc) {
      for (int i = 0; i < l2; i++) if (gb(a1 + i)) { dcm(a1, l1); return trap(XB(X_DATA)); }
      putdec(a1, l1, v1 * v2, (s1 < 0) != (s2 < 0)); return true;
    }
    if (v2 == 0) return trap(XB(X_DECD));
    u128 q = v1 / v2, m = v1 % v2; int lq = l1 - l2;
    if (q >= p10(2 * lq - 1)) return trap(XB(X_DECD));
    putdec(a1, lq, q, (s1 < 0) != (s2 < 0)); putdec(a1 + lq, l2, m, s1 < 0); writes.pop_back(); writes.pop_back(); wrote(a1, l1);
    return true;
  }
};
