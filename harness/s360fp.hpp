// Floating-point part of Ref (included inside the struct).
  struct FP { bool neg; int ch; uint64_t fr; };
  static FP unpk(uint64_t v) { return { (v >> 63) != 0, (int)(v >> 56 & 0x7f), v & 0xffffffffffffffull }; }
  static uint64_t pk(bool neg, int ch, uint64_t fr) { return (uint64_t)neg << 63 | (uint64_t)(ch & 0x7f) << 56 | (fr & 0xffffffffffffffull); }
  static int frdig(bool L) { return L ? 56 : 24; }
  void fset(int r1, bool L, uint64_t v) { if (L) f[r1 >> 1] = v; else f[r1 >> 1] = (v & 0xffffffff00000000ull) | (f[r1 >> 1] & 0xffffffff); }
  // op: 'A' normalized, 'U' unnormalized, 'C' compare
  bool fp_add(int r1, uint64_t a, uint64_t b, bool L, char kind) {
    FP x = unpk(a), y = unpk(b); int sh = L ? 0 : 32; uint64_t fx = x.fr >> sh, fy = y.fr >> sh; int w = frdig(L);
    u128 gx = (u128)fx << 4, gy = (u128)fy << 4; int ch = x.ch > y.ch ? x.ch : y.ch;
    int dx = ch - x.ch, dy = ch - y.ch; gx = dx > 15 ? 0 : gx >> (4 * dx); gy = dy > 15 ? 0 : gy >> (4 * dy);
    s128 s = (x.neg ? -(s128)gx : (s128)gx) + (y.neg ? -(s128)gy : (s128)gy);
    bool neg = s < 0; u128 m = neg ? (u128)-s : (u128)s;
    if (kind == 'C') { cc = m == 0 ? 0 : neg ? 1 : 2; return true; }
    if (m >> (w + 4)) {
      m >>= 4; ch++;
      if (ch > 127) { uint64_t v = pk(neg, ch, (uint64_t)(m >> 4) << sh); fset(r1, L, v); dc_freg |= 0; cc = neg ? 1 : 2; completed = true; fp_ovf = true; return trap(XB(X_EXPO)); }
    } else if (m == 0) {
      cc = 0;
      if (pm & 1) { fset(r1, L, pk(false, ch, 0)); completed = true; return trap(XB(X_SIG)); }
      fset(r1, L, 0); return true;
    } else if (kind == 'A') {
      if (L) for (int k = 0; k < w; k += 4) if ((m >> 4) + 1 == (u128)1 << k && (m & 15)) quirk = "borrow-normalize";
      while (!(m >> w)) { m <<= 4; ch--; }
      if (ch < 0 && !L && !(pm & 2)) quirk = "short-underflow";
      if (ch < 0) {
        if (pm & 2) { fset(r1, L, pk(neg, ch + 128, (uint64_t)(m >> 4) << sh)); cc = neg ? 1 : 2; completed = true; return trap(XB(X_EXPU)); }
        fset(r1, L, 0); cc = 0; return true;
      }
    }
    uint64_t fr = (uint64_t)(m >> 4);
    cc = fr == 0 ? 0 : neg ? 1 : 2;
    if (fr == 0) { fp_guard_only = true; ambiguous = true; }
    fset(r1, L, pk(neg, ch, fr << sh)); return true;
  }
  bool fp_ovf = false, fp_guard_only = false, fp_half_norm = true;
  static void prenorm(uint64_t &fr, int &ch, int w) { while (fr && !(fr >> (w - 4))) { fr <<= 4; ch--; } }
  bool fp_fin(int r1, bool L, bool neg, int ch, uint64_t fr56) {
    if (ch > 127) { fset(r1, L, pk(neg, ch, fr56)); completed = true; fp_ovf = true; return trap(XB(X_EXPO)); }
    if (ch < 0) {
      if (pm & 2) { fset(r1, L, pk(neg, ch + 128, fr56)); completed = true; return trap(XB(X_EXPU)); }
      fset(r1, L, 0); return true;
    }
    fset(r1, L, pk(neg, ch, fr56)); return true;
  }
  bool fp_mul(int r1, uint64_t a, uint64_t b, bool L) {
    FP x = unpk(a), y = unpk(b); int sh = L ? 0 : 32, w = frdig(L); uint64_t fx = x.fr >> sh, fy = y.fr >> sh; bool neg = x.neg != y.neg;
    if (!fx || !fy) { fset(r1, true, 0); return true; }
    prenorm(fx, x.ch, w); prenorm(fy, y.ch, w);
    u128 p = (u128)fx * fy; int ch = x.ch + y.ch - 64; 
    p <<= 112 - 2 * w;                       // 28 digit product
    if (!(p >> 108)) { p <<= 4; ch--; }
    return fp_fin(r1, true, neg, ch, (uint64_t)(p >> 56));
  }
  bool fp_div(int r1, uint64_t a, uint64_t b, bool L) {
    FP x = unpk(a), y = unpk(b); int sh = L ? 0 : 32, w = frdig(L); uint64_t fx = x.fr >> sh, fy = y.fr >> sh; bool neg = x.neg != y.neg;
    if (!fy) return trap(XB(X_FPD));
    if (!fx) { fset(r1, L, 0); return true; }
    prenorm(fx, x.ch, w); prenorm(fy, y.ch, w);
    int ch = x.ch - y.ch + 64; u128 q;
    if (fx >= fy) { ch++; q = ((u128)fx << (w - 4)) / fy; } else q = ((u128)fx << w) / fy;
    return fp_fin(r1, L, neg, ch, (uint64_t)q << sh);
  }
  bool fp_half(int r1, uint64_t a, bool L) {
    FP x = unpk(a); int sh = L ? 0 : 32, w = frdig(L);
    if (!fp_half_norm) { fset(r1, L, pk(x.neg, x.ch, (x.fr >> sh >> 1) << sh)); return true; }
    u128 m = (u128)(x.fr >> sh) << 3; if (!m) { fset(r1, L, 0); return true; }
    while (!(m >> w)) { m <<= 4; x.ch--; }
    if (L && x.ch < 0 && (pm & 2)) quirk = "halve-underflow-sign";
    return fp_fin(r1, L, x.neg, x.ch, (uint64_t)(m >> 4) << sh);
  }
  static bool fpreg_bad(int r) { return r & 9; }
  void fpcc(uint64_t v, bool L) { uint64_t fr = unpk(v).fr >> (L ? 0 : 32); cc = fr == 0 ? 0 : v >> 63 ? 1 : 2; }
  bool fp_rr(int op, int r1, int r2) {
    bool L = op < 0x30; int o = op & 15;
    if (o == 5 || o == 6 || o == 7) return trap(XB(X_OP));
    if (fpreg_bad(r1) || fpreg_bad(r2)) return trap(XB(X_SPEC));
    uint64_t b = f[r2 >> 1], a = f[r1 >> 1]; if (!L) b &= 0xffffffff00000000ull;
    switch (o) {
    case 0: b &= ~(1ull << 63); fset(r1, L, b); fpcc(b, L); return true;
    case 1: b |= 1ull << 63; fset(r1, L, b); fpcc(b, L); return true;
    case 2: fset(r1, L, b); fpcc(b, L); return true;
    case 3: b ^= 1ull << 63; fset(r1, L, b); fpcc(b, L); return true;
    case 4: return fp_half(r1, b, L);
    case 8: fset(r1, L, b); return true;
    }
    return fp_arith(o, r1, a, b, L);
  }
  bool fp_arith(int o, int r1, uint64_t a, uint64_t b, bool L) {
    switch (o) {
    case 9: return fp_add(r1, a, b ^ (1ull << 63), L, 'C');
    case 10: return fp_add(r1, a, b, L, 'A');
    case 11: return fp_add(r1, a, b ^ (1ull << 63), L, 'A');
    case 12: return fp_mul(r1, a, b, L);
    case 13: return fp_div(r1, a, b, L);
    case 14: return fp_add(r1, a, b, L, 'U');
    default: return fp_add(r1, a, b ^ (1ull << 63), L, 'U');
    }
  }
  bool fp_rx(int op, int r1, uint32_t a) {
    bool L = op < 0x70; int o = op & 15;
    if (o >= 1 && o <= 7) return trap(XB(X_OP));
    uint32_t x = align(a, L ? 8 : 4); if (fpreg_bad(r1)) x |= XB(X_SPEC);
    if (o == 0) { x |= ckstore(a, L ? 8 : 4); if (x) return trap(x); if (L) { pd(a, f[r1 >> 1]); wrote(a, 8); } else { pw(a, f[r1 >> 1] >> 32); wrote(a, 4); } return true; }
    x |= ckfetch(a, L ? 8 : 4); if (x) return trap(x);
    uint64_t b = L ? gd(a) : (uint64_t)gw(a) << 32;
    if (o == 8) { fset(r1, L, b); return true; }
    return fp_arith(o, r1, f[r1 >> 1], b, L);
  }
