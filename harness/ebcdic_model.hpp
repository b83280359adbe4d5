// Independent, rule-based card code and character code model.
#pragma once
#include <cstdint>
#include <cstring>
// rows: 12=0x800 11=0x400 0=0x200 1=0x100 ... 9=0x001
static inline uint16_t row(int d) { return d == 0 ? 0x200 : 0x200 >> d; }
static inline uint16_t model_ebcdic_to_hol(uint8_t b) {
    int hi = b >> 4, lo = b & 15;
    static const uint16_t z1[4] = {0x800, 0x400, 0x200, 0}, z2[4] = {0xA00, 0xC00, 0x600, 0xE00}, z3[4] = {0xA00, 0xC00, 0x600, 0xE00};
    switch (b) { case 0x40: return 0; case 0x50: return 0x800; case 0x60: return 0x400; case 0x70: return 0xE00;
        case 0x61: return 0x300; case 0x6A: return 0xC00; case 0xE0: return 0x282; case 0xE1: return 0x701;
        case 0xC0: return 0xA00; case 0xD0: return 0x600; case 0xF0: return 0x200; }
    int q = hi & 3;
    if (hi < 4) { static const uint16_t zz[4] = {0xA00, 0xC00, 0x600, 0xE00};
        if (lo == 0) return zz[q] | row(9) | row(8) | row(1);
        if (lo < 8) return z1[q] | row(9) | row(lo); if (lo == 8) return z1[q] | row(9) | row(8);
        if (lo == 9) return z1[q] | row(9) | row(8) | row(1); return z1[q] | row(9) | row(8) | row(lo - 8); }
    if (hi < 8) { if (lo < 8) return z2[q] | row(9) | row(lo); if (lo == 8) return z2[q] | row(9) | row(8);
        if (lo == 9) return z1[q] | row(8) | row(1); return z1[q] | row(8) | row(lo - 8); }
    if (hi < 12) { if (lo == 0) return z3[q] | row(8) | row(1); if (lo < 10) return z3[q] | row(lo); return z3[q] | row(8) | row(lo - 8); }
    if (lo < 10) return z1[q] | row(lo); return z3[q] | row(9) | row(8) | row(lo - 8); }
// characters whose EBCDIC code is the same in every IBM table of the period
static const char COMMON[] = " ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyz.<(+|&!$*);-/,%_>?`:#@'=\"\\";
static inline int model_ascii_to_ebcdic(char c) {
    if (c >= 'A' && c <= 'I') return 0xc1 + c - 'A'; if (c >= 'J' && c <= 'R') return 0xd1 + c - 'J'; if (c >= 'S' && c <= 'Z') return 0xe2 + c - 'S';
    if (c >= 'a' && c <= 'i') return 0x81 + c - 'a'; if (c >= 'j' && c <= 'r') return 0x91 + c - 'j'; if (c >= 's' && c <= 'z') return 0xa2 + c - 's';
    if (c >= '0' && c <= '9') return 0xf0 + c - '0';
    switch (c) { case ' ': return 0x40; case '.': return 0x4b; case '<': return 0x4c; case '(': return 0x4d; case '+': return 0x4e; case '|': return 0x4f; case '&': return 0x50;
        case '!': return 0x5a; case '$': return 0x5b; case '*': return 0x5c; case ')': return 0x5d; case ';': return 0x5e; case '-': return 0x60; case '/': return 0x61; case ',': return 0x6b;
        case '%': return 0x6c; case '_': return 0x6d; case '>': return 0x6e; case '?': return 0x6f; case '`': return 0x79; case ':': return 0x7a; case '#': return 0x7b; case '@': return 0x7c;
        case '\'': return 0x7d; case '=': return 0x7e; case '"': return 0x7f; case '\\': return 0xe0; }
    return -1; }
