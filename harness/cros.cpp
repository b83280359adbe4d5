// C25: the listing translators on generated listings, against the words written into the listing.
#include "pbt.hpp"
#include <map>
#include <set>
using namespace pbt;
extern "C" { int translate_2030(const char *, size_t, char **, char **); int translate_2050(const char *, size_t, char **, char **); int translate_2844(const char *, size_t, char **, char **); }
typedef std::string Str; typedef std::vector<long> Vals;
struct Entry { Vals v; Str note; bool operator==(const Entry &o) const { return v == o.v && note == o.note; } };
static Str show(const Entry &e) { Str s; for (auto x : e.v) s += fmt("%lx ", x); return s + "'" + e.note + "'"; }
static std::vector<Entry> table(const Str &t, size_t n) { std::vector<Entry> r; size_t p = 0; while ((p = t.find('{', p)) != Str::npos) { size_t q = t.find('"', ++p); Entry e; size_t z = q; Str nums = t.substr(p, q == Str::npos ? Str::npos : q - p); const char *c = nums.c_str(); while (*c) { if ((*c >= '0' && *c <= '9')) { char *end; e.v.push_back(strtol(c, &end, 16)); c = end; } else c++; } if (q != Str::npos) { z = t.find('"', q + 1); if (z == Str::npos) break; e.note = t.substr(q + 1, z - q - 1); } if (e.note == " ") e.note = ""; if (e.v.size() != n) e.note += fmt("<%zu values>", e.v.size()); r.push_back(e); if (z == Str::npos) break; p = z; } return r; }
static Str bits(long v, int n, Case *q = nullptr) { Str s; for (int i = n - 1; i >= 0; i--) s += v >> i & 1 ? '1' : q && q->chance(1, 6) ? '?' : '0'; return s; }
static int par(long v) { return __builtin_parityl(v); }
static Str gap(Case &c, int wide) { return Str(1 + (wide ? c.draw(wide) : 0), ' '); }
static Str word(Case &c, int most) { Str s; int n = 1 + c.draw(most); for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789"[c.draw(i ? 36 : 26)]; return s; }
static Str upper(Str s) { for (auto &x : s) x = toupper(x); return s; }
struct Line { Str text; Entry e; };
// ---- model 30
static Line line30(Case &c, int addr, int wide) { static const int w[] = { 4, 4, 3, 2, 4, 2, 4, 4, 3, 2, 2, 3, 4, 1, 1, 1, 1 }; Line l; Str s = c.coin() ? " " : ""; s += upper(fmt("%03x", addr)); long v[17]; int cn = c.u8(); s += gap(c, wide) + upper(fmt("%02x", cn)); for (int i = 0; i < 17; i++) { v[i] = c.draw(1 << w[i]); s += gap(c, wide) + bits(v[i], w[i], &c); } cn &= 0xfc;
  Str note; if (c.chance(3, 4)) { note = word(c, 12); if (c.chance(1, 3)) note += ":" + word(c, c.chance(1, 3) ? 60 : 3); } s += gap(c, wide) + "#" + (note.empty() ? "" : " " + note) + "\n"; long ca = v[4] | v[13] << 4, cs = v[12] | v[14] << 4, ck = v[6] | v[15] << 4;
  l.text = s; l.e.v = { cn, v[0], v[1], v[2], v[3], ca, v[5], ck, v[7], v[8], v[9], v[10], v[11], cs, v[16] }; l.e.note = note.substr(0, 15); return l; }
// ---- model 50
static Line line50(Case &c, int addr, int wide) { static const Str modes[] = { "-", "io", "ones", "zeros", "roser" }; Line l; Str hexa = fmt("%04x", addr); if (c.chance(1, 4)) hexa = upper(hexa); int mode = c.weighted({ 6, 3, 1, 1, 1 }); static const int code[] = { 0, 1, 2, 3, 4 }; static const int w[] = { 1, 3, 2, 6, 4, 3, 5, 1, 3, 3, 1, 3, 5, 4, 2, 1, 1, 1, 3, 2, 2, 1, 4, 3, 1, 3, 4, 6, 5, 1, 6, 8 };
  long v[32]; for (int i = 0; i < 32; i++) v[i] = c.draw(1L << w[i]); int tail = c.draw(3); if (tail == 0) v[30] = 0; if (tail < 2) v[31] = 0; auto fix = [&](int a, int b) { int p = 0; for (int i = a; i < b; i++) p ^= par(v[i]); if (!p) v[a] ^= 1; }; fix(0, 10); fix(10, 21); fix(21, 32);
  Str s = hexa + gap(c, wide) + bits(addr >> 12, 1) + gap(c, wide) + bits(addr >> 8, 4) + gap(c, wide) + bits(addr >> 4, 4) + gap(c, wide) + bits(addr, 4) + gap(c, wide); Str note; if (mode > 1 || c.chance(3, 4)) { Str a = word(c, 5), b = word(c, 2); if (a.substr(0, 2) == "io") a = "q" + a; note = a + "-" + b; s += a + gap(c, wide) + b + gap(c, wide); }
  s += modes[mode] + Str(5 - modes[mode].size(), ' ') + gap(c, wide); for (int i = 0; i < 30; i++) s += bits(v[i], w[i]) + (i % 10 == 9 || c.chance(2, 3) ? gap(c, wide) : ""); if (tail) s += bits(v[30], 6); if (tail == 2) s += gap(c, wide) + bits(v[31] >> 6, 2) + " " + bits(v[31], 6); s += "\n"; l.text = s;
  auto row = [&](int a, int b) { long r = 0; for (int i = a; i < b; i++) r = r << w[i] | v[i]; return r; };
  l.e.v = { code[mode], v[1], v[2], v[3] << 6, v[5], v[4], v[6], v[7], v[8], v[9], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], -1, row(0, 10), row(10, 21), row(21, 30), row(30, 32) }; l.e.note = note; return l; }
// ---- 2844
static Line line2844(Case &c, int addr, int wide) { static const int w[] = { 4, 2, 8, 4, 4, 1, 1, 6, 1, 4, 1, 1, 3, 4, 1, 1, 1 }; Line l; Str hexa = fmt("%03x", addr); if (c.chance(1, 4)) hexa = upper(hexa); Str s = hexa + gap(c, wide) + bits(addr >> 8, 4) + gap(c, wide) + bits(addr >> 4, 4) + gap(c, wide) + bits(addr, 4) + gap(c, wide + 1); Str note; if (c.chance(3, 4)) { Str a = word(c, 5), b = word(c, 2); note = a + "-" + b; s += a + gap(c, wide) + b + gap(c, wide); } s += "-";
  long v[17]; for (int i = 0; i < 17; i++) { v[i] = c.draw(1 << w[i]); s += gap(c, wide + 1); if (i == 2) s += bits(v[2] >> 4, 4) + gap(c, wide) + bits(v[2], 4); else s += bits(v[i], w[i]); } if (c.chance(2, 3)) s += gap(c, wide) + fmt("%06d", (int)c.draw(1000000)); s += "\n"; l.text = s;
  l.e.v = { v[0] | v[15] << 4, v[1], v[2], v[3], v[4], v[5], v[6], v[7] << 2, v[8], v[9] | v[10] << 4, v[11], v[12], v[13], v[14], v[16] }; l.e.note = note; return l; }
static void run(Case &c) {
  int which = c.draw(3); size_t nv = which == 1 ? 34 : which == 0 ? 18 : 15; typedef Line (*Gen)(Case &, int, int); Gen gen = which == 0 ? line30 : which == 1 ? line50 : line2844; static const char *names[] = { "2030", "2050", "2844" }; c.label(names[which]); Str text; std::map<int, Entry> want; std::set<int> open; int n = 1 + c.draw(2 + c.size() / 4), wide = c.draw(4), bad = 0; uint64_t h = mix(1, which); Str kinds; bool okend = true;
  for (int i = 0; i < n; i++) { c.begin(); int addr = c.draw(4096); if (want.count(addr) || open.count(addr)) { c.end(); continue; } Line l = gen(c, addr, wide); if (l.text.size() > 190) { c.end(); continue; } h = mix(h, addr);
    if (!c.chance(1, 4)) { text += l.text; want[addr] = l.e; c.note("%s", l.text.substr(0, l.text.size() - 1).c_str()); c.end(); continue; }
    // something that is no word
    bad++; int k = c.draw(8); h = mix(h, k); Str t; switch (k) {
    case 0: t = which == 0 ? "# comment " + word(c, 20) : which == 1 ? (c.coin() ? "hex    c" : "add   binary address   sheet") : " abs     page    01"; break;
    case 1: t = which == 0 ? Str(c.draw(5), ' ') + "#AAA  CN CH   CL" : Str(c.draw(30), ' ') + (which == 1 ? "  p lu  mv zp" : "   ca cb"); if (which == 2 && t[0] != ' ') t = " " + t; break;
    case 2: t = ""; break;
    case 3: if (which == 0) { t = Str(c.draw(10), ' '); } else { int other = addr ^ 1 << c.draw(8); t = gen(c, other, wide).text; t.pop_back(); Str a = gen(c, addr, 0).text; size_t s = which == 1 ? 4 : 3; t = a.substr(0, s) + t.substr(s); open.insert(other); } open.insert(addr); break;
    case 4: t = l.text.substr(0, c.range(which == 1 ? 5 : 4, l.text.size() * 2 / 3)); if (which == 0 && t.find('#') != Str::npos) t = t.substr(0, t.find('#') - 10); break; // cut short
    case 5: { // a wrong character among the fields
      size_t from = which == 0 ? 1 : l.text.find_last_of(which == 1 ? "-osr" : "-") + 1, p = from; std::vector<size_t> at; size_t to = which == 2 ? std::min(l.text.size(), from + 50) : l.text.size(); for (; p < to && l.text[p] != '#'; p++) if (l.text[p] == '0' || l.text[p] == '1') at.push_back(p); if (at.empty()) { t = ""; break; } t = l.text; t.pop_back(); t[at[c.draw(at.size())]] = "GXz-.:/"[c.draw(7)]; break; }
    case 6: if (which == 0) { t = upper(fmt("%x", 0x1000 + addr)) + l.text.substr(l.text.find_first_of("0123456789ABCDEF") + 3); t.pop_back(); } else if (which == 1) { t = gen(c, addr | 0x1000, wide).text; t.pop_back(); } else t = "";  open.insert(addr); break;
    case 7: { Str b = l.text; size_t p = b.find(' ', 2); t = p == Str::npos ? "" : b.substr(0, p); break; } // an address alone
    }
    if (k > 3 && !t.empty()) { open.insert(addr); } c.note("%s   <-- no word (%d)", t.c_str(), k); kinds += fmt("%d", k); text += t + "\n"; c.end(); }
  if (text.empty()) c.discard(); if (c.chance(1, 10) && which != 2) { text.pop_back(); okend = false; } (void)okend;
  char *out, *err; int r = which == 0 ? translate_2030(text.data(), text.size(), &out, &err) : which == 1 ? translate_2050(text.data(), text.size(), &out, &err) : translate_2844(text.data(), text.size(), &out, &err); (void)r; Str o = out ? out : "", er = err ? err : ""; free(out); free(err);
  c.note("reported: %s", er.substr(0, 300).c_str()); if (!bad && !er.empty()) c.fail("reported", "model %s: good listing reported: %s", names[which], er.substr(0, 200).c_str());
  auto t = table(o, nv); if (t.size() != 4096) c.fail("table", "model %s: table of %zu words", names[which], t.size());
  for (int a = 0; a < 4096; a++) { Entry e = t[a]; if (which == 0) e.v.resize(15); auto w = want.find(a); if (which == 1 && e.v.size() == 34) e.v[29] = -1; if (w != want.end()) { if (!(e == w->second)) { size_t i = 0; while (i < e.v.size() && i < w->second.v.size() && e.v[i] == w->second.v[i]) i++; c.fail(fmt("field-%s", names[which]), "model %s word %03x value %zu: table has %s, listing has %s", names[which], a, i, show(e).c_str(), show(w->second).c_str()); }
      continue; }
    bool any = !e.note.empty(); for (size_t i = 0; i < e.v.size(); i++) any |= e.v[i] != 0 && e.v[i] != -1; if (any && (!open.count(a) || er.empty())) c.fail(fmt("stray-%s", names[which]), "model %s word %03x holds %s, the listing has no such word", names[which], a, show(e).c_str()); }
  if (want.size() > 1) c.nontrivial(h); if (bad) c.label("bad lines"); }
Harness HARNESS = { "C25", nullptr, run, 20 };
