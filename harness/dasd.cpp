// C10: disk pack images through the drive interface (tags, one byte per step), against a model of the pack.
#include "pbt.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <map>
#include <set>
using namespace pbt;
extern "C" {
#include "event.h"
#include "logger.h"
#include "dasd.h"
#include "xlat.h"
uint64_t step_count;
}
typedef std::vector<uint8_t> Bytes; typedef std::string Str;
struct Rec { int cyl, head, rec, flag = 0; Bytes key, data; bool operator==(const Rec &o) const { return cyl == o.cyl && head == o.head && rec == o.rec && key == o.key && data == o.data && flag == o.flag; } };
struct Track { Bytes ha; std::vector<Rec> recs; bool bad = false; bool operator==(const Track &o) const { return ha == o.ha && recs == o.recs && bad == o.bad; } };
struct Type { const char *name; int cyl, heads, bpt, code; bool am; };
static const Type types[] = { { "2303", 80, 10, 4984, 3, false }, { "2311", 203, 10, 3717, 0x11, false }, { "2314", 202, 20, 7294, 0x14, true }, { "2302", 250, 46, 4984, 2, false } };
static int tsize(const Type &t) { return (t.bpt | 0x1ff) + 1; }
static Str show(const Track &t) { Str s = hex(t.ha.data(), t.ha.size()) + ":"; for (auto &r : t.recs) { s += fmt(" [%d %d %d%s k%zu d%zu", r.cyl, r.head, r.rec, r.flag ? " ov" : "", r.key.size(), r.data.size()); s += fmt(" %016llx]", (unsigned long long)hbytes(r.data.data(), r.data.size(), hbytes(r.key.data(), r.key.size()))); } if (t.bad) s += " ?"; return s; }
static Track parse(const uint8_t *p, int n) { Track t; t.ha.assign(p, p + 5); int o = 5; for (;;) { if (o + 8 > n) { t.bad = true; return t; } if ((p[o] & p[o + 1] & p[o + 2] & p[o + 3]) == 0xff) return t; Rec r; r.flag = p[o] & 0x80 ? 0x40 : 0; r.cyl = (p[o] & 0x7f) << 8 | p[o + 1]; r.head = p[o + 2] << 8 | p[o + 3]; r.rec = p[o + 4]; int k = p[o + 5], d = p[o + 6] << 8 | p[o + 7]; o += 8; if (o + k + d > n) { t.bad = true; return t; } r.key.assign(p + o, p + o + k); r.data.assign(p + o + k, p + o + k + d); o += k + d; t.recs.push_back(r); } }
static Bytes build(const Track &t, int n) { Bytes b = t.ha; for (auto &r : t.recs) { b.push_back(r.cyl >> 8 | (r.flag ? 0x80 : 0)); b.push_back(r.cyl); b.push_back(r.head >> 8); b.push_back(r.head); b.push_back(r.rec); b.push_back(r.key.size()); b.push_back(r.data.size() >> 8); b.push_back(r.data.size()); b.insert(b.end(), r.key.begin(), r.key.end()); b.insert(b.end(), r.data.begin(), r.data.end()); } for (int i = 0; i < 4; i++) b.push_back(0xff); b.resize(n); return b; }
static Track blank(int c, int h) { Track t; t.ha = { 0, (uint8_t)(c >> 8), (uint8_t)c, 0, (uint8_t)h }; Rec r; r.cyl = c; r.head = h; r.rec = 0; r.data.assign(8, 0); t.recs.push_back(r); r.rec = 1; r.data.clear(); t.recs.push_back(r); return t; }
static Bytes header(const Type &t) { Bytes h(512, 0); memcpy(h.data(), "CKD_P370", 8); int ts = tsize(t); for (int i = 0; i < 4; i++) { h[8 + i] = t.heads >> 8 * i; h[12 + i] = ts >> 8 * i; } h[16] = t.code; h[18] = t.cyl; h[19] = t.cyl >> 8; return h; }
static long fsize(const char *f) { struct stat s; return stat(f, &s) ? -1 : (long)s.st_size; }
struct Pack { const Type *ty; int cyls; std::map<int, Track> t; std::map<int, Track> gone; Track at(int c, int h) { auto i = t.find(c * 64 + h); return i == t.end() ? blank(c, h) : i->second; } };
static Case *C; static struct _dasd_t *D; static const Type *TY;
enum { CTL = 0x81, SETCYL = 0x41, SETHEAD = 0x21, SETDIFF = 0x11 };
static void wait_seek() { for (int i = 0; i < 200 && dasd_check_seek(D); i++) advance(); if (dasd_check_seek(D)) C->fail("seek", "seek never ends"); }
static void seek(int cyl, int head) { int cur = dasd_cur_cyl(D); dasd_settags(D, CTL, 0x10); dasd_settags(D, SETCYL, cyl); dasd_settags(D, SETDIFF, cyl > cur ? cyl - cur : cur - cyl); dasd_settags(D, SETHEAD, head | (cyl > cur ? 0x80 : 0)); if (!TY->am) dasd_settags(D, SETHEAD, cyl > cur ? 0x80 : 0);
  dasd_settags(D, CTL, 0x20); wait_seek(); dasd_settags(D, CTL, 0); if (dasd_cur_cyl(D) != (cyl & 255)) C->fail("seek", "seek to %d went to %d", cyl, dasd_cur_cyl(D)); if (cur != cyl && !dasd_check_attn(D)) C->fail("attention", "no attention after a seek"); }
// one byte from the disk; false: nothing there
static bool rbyte(uint8_t &b, uint8_t &am, uint8_t &ix) { ix = am = 0; for (int i = 0; i < 14; i++) { uint8_t x = 0; uint16_t at = D->cpos; int r = dasd_read_byte(D, &b, &am, &x); ix |= x; if (r) return true; if (at != D->cpos) return false; } return false; }
static void gate(int fc) { dasd_settags(D, CTL, fc); }
static int readgate() { return TY->am ? 0x44 : 0x44; }
// read one whole turn from index to index, and make a track of the bytes
static void to_index() { gate(0); gate(readgate()); uint8_t b, am, ix = 0; for (int i = 0; i < 3 * TY->bpt; i++) { rbyte(b, am, ix); if (ix) return; } C->fail("index", "no index mark"); }
struct Stream { Bytes b; std::vector<bool> am; };
static Stream turn() { Stream s; uint8_t b = 0, am = 0, ix = 0; bool away = false; for (int i = 0; i < TY->bpt + 200; i++) { bool got = rbyte(b, am, ix); if (ix && away) return s; if (i > 5 && !ix) away = true; if (got) { s.b.push_back(b); s.am.push_back(am); } } C->fail("index", "no index mark in a turn"); }
static bool records(const Stream &s, size_t &p, Track &t, bool first) { int tail = TY->am ? 4 : 2;
  while (p < s.b.size()) { Rec r; if (p + 10 + tail > s.b.size()) { t.bad = true; return false; } int sync = s.b[p++]; if (sync != (TY->am ? (first ? 3 : 6) : 6)) { t.bad = true; return false; } int f = s.b[p++]; r.flag = f & 0x40; if (!first && ((f >> 7) & 1) != (t.recs.size() & 1)) t.bad = true; const uint8_t *q = &s.b[p]; r.cyl = q[0] << 8 | q[1]; r.head = q[2] << 8 | q[3]; r.rec = q[4]; int k = q[5], d = q[6] << 8 | q[7]; p += 8 + tail; first = false;
    if (k) { if (p + 1 + k + tail > s.b.size()) { t.bad = true; return false; } if (s.b[p++] != (TY->am ? 2 : 6)) t.bad = true; r.key.assign(&s.b[p], &s.b[p] + k); p += k + tail; }
    if (p + 1 + d + tail > s.b.size()) { t.bad = true; return false; } if (s.b[p++] != (TY->am ? 1 : 6)) t.bad = true; r.data.assign(&s.b[p], &s.b[p] + d); p += d + tail; t.recs.push_back(r); }
  return true; }
static Track read_track() { to_index(); Stream s = turn(); gate(0); Track t; size_t p = 0; int tail = TY->am ? 4 : 2; if (s.b.size() < (size_t)6 + tail) { t.bad = true; return t; } if (s.b[p++] != (TY->am ? 5 : 6)) t.bad = true; t.ha.assign(&s.b[p], &s.b[p] + 5); p += 5 + tail; records(s, p, t, true); return t; }
static void wb(uint8_t b, int am = 0) { for (int i = 0; i < 40; i++) { uint8_t x = b, a = am, ix = 0; if (dasd_write_byte(D, &x, &a, &ix)) return; } C->fail("write", "a byte was never taken"); }
static void ck(Case &c) { wb(c.u8()); wb(c.u8()); if (TY->am) { wb(1); wb(0xff); } }
static void gapsync(int code, int n) { wb(0xcc); for (int i = 0; i < n; i++) wb(0); wb(0xff); wb(code); }
static void field(Case &c, const Bytes &d) { for (auto x : d) wb(x); ck(c); }
static void amgap() { wb(0xcc); for (int i = 0; i < 21; i++) wb(0xff); for (int i = 0; i < 4; i++) wb(0); wb(0xff); wb(0xff, 1); wb(0xff, 1); wb(0xe); }
static void write_recs(Case &c, const std::vector<Rec> &v, bool first) { for (auto &r : v) { if (first) gapsync(TY->am ? 0xb : 0xe, 15); else amgap(); wb(r.flag); wb(r.cyl >> 8); wb(r.cyl); wb(r.head >> 8); wb(r.head); wb(r.rec); wb(r.key.size()); wb(r.data.size() >> 8); wb(r.data.size()); ck(c); first = false; if (r.key.size()) { gapsync(TY->am ? 0xa : 0xe, 6); field(c, r.key); } gapsync(TY->am ? 9 : 0xe, 6); field(c, r.data); } for (int i = 0; i < 120; i++) wb(0xff); }
static Track gen_track(Case &c, int cyl, int head) { Track t; t.ha = { (uint8_t)(c.chance(1, 6) ? c.draw(4) : 0), (uint8_t)(cyl >> 8), (uint8_t)cyl, 0, (uint8_t)head }; int room = TY->bpt - 400, n = 1 + c.draw(c.chance(1, 6) ? 20 : 6); for (int i = 0; i < n; i++) { Rec r; bool odd = c.chance(1, 8); r.cyl = odd ? c.draw(0x8000) : cyl; r.head = odd ? c.draw(0xff00) : head; r.rec = odd ? c.u8() : i; if (i && c.chance(1, 10)) r.flag = 0x40; int k = c.chance(1, 3) ? c.draw(c.chance(1, 4) ? 256 : 12) : 0, d = c.weighted({ 3, 3, 1, 1 }) == 0 ? c.draw(20) : c.chance(1, 3) ? c.draw(room) : c.draw(200); if (i == 0 && !odd) { k = 0; d = 8; } if (room < k + d + 160) break; room -= k + d + 160; for (int q = 0; q < k; q++) r.key.push_back(c.chance(1, 4) ? 0xff : c.u8()); uint32_t s = c.u32() | 1; bool pat = c.chance(1, 3); for (int q = 0; q < d; q++) { s = s * 1664525 + 1013904223; r.data.push_back(pat ? 0xff : s >> 24); } t.recs.push_back(r); } return t; }
static void run(Case &c) {
  C = &c; init_event(); log_level = 0; const Type &ty = types[c.weighted({ 6, 6, 4, 1 })]; TY = &ty; unlink("pack"); Pack pk; pk.ty = &ty; pk.cyls = ty.cyl; uint64_t h = mix(1, ty.code); struct _dasd_t *d = (struct _dasd_t *)calloc(1, sizeof *d); D = d; d->fd = -1; char nm[8]; strcpy(nm, ty.name); if (!dasd_settype(d, nm)) c.fail("type", "type %s unknown", ty.name);
  struct Done { struct _dasd_t *d; ~Done() { if (d->file_name) dasd_detach(d); free(d); unlink("pack"); } } done{ d };
  int ts = tsize(ty), how = c.weighted({ 2, 5, 3 }); std::map<int, Bytes> junk;
  if (how == 0) { char vol[9] = "VOL001  "; bool label = c.coin(); if (label) { for (int i = 0; i < 6; i++) vol[i] = "ABCDEFGHIJ0123456789"[c.draw(20)]; dasd_setvolid(d, vol); } c.note("%s formatted%s", ty.name, label ? " with a label" : ""); if (dasd_attach(d, (char *)"pack", 1) != 1) c.fail("format", "format refused");
    pk.t[0] = parse(d->cbuf, ts); auto &r = pk.t[0].recs; // dummy IPL and label records: what they hold is the formatter's choice
    if (pk.t[0].bad || r.size() != 4 || r[3].key != Bytes{ 0xe5, 0xd6, 0xd3, 0xf1 } || r[3].data.size() != 80) c.fail("format", "first track formatted as %s", show(pk.t[0]).c_str());
    if (label) { dasd_detach(d); memset(d->vol_label, 0, 9); if (dasd_attach(d, (char *)"pack", 0) != 1) c.fail("attach", "formatted pack refused"); if (strncmp(d->vol_label, vol, 6)) c.fail("label", "label '%s' read back as '%s'", vol, d->vol_label); }
    pk.cyls = (fsize("pack") - 512) / ((long)ts * ty.heads); if (pk.cyls < ty.cyl) c.fail("format", "%d cylinders formatted", pk.cyls);
  } else { FILE *f = fopen("pack", "wb"); Bytes hd = header(ty); fwrite(hd.data(), 1, 512, f); pk.cyls = ty.cyl + (c.chance(2, 3) ? 1 : 0); int n = c.draw(4); std::vector<int> cs; for (int i = 0; i < 4; i++) cs.push_back(c.draw(pk.cyls)); cs.push_back(0);
    for (int cy : cs) for (int hdn = 0; hdn < ty.heads; hdn++) { Track t = c.chance(1, 4) && n-- > 0 ? gen_track(c, cy, hdn) : blank(cy, hdn); pk.t[cy * 64 + hdn] = t; Bytes b = build(t, ts); fseek(f, 512 + ((long)cy * ty.heads + hdn) * ts, SEEK_SET); fwrite(b.data(), 1, ts, f); }
    fflush(f); if (ftruncate(fileno(f), 512 + (long)pk.cyls * ty.heads * ts)) {} fclose(f);
    if (how == 2) { // damaged in one way: refused, and left alone
      Bytes hd2 = hd; long want = fsize("pack"); int what = c.draw(7); switch (what) { case 0: hd2[c.draw(8)] ^= 1 << c.draw(8); break; case 1: hd2[8 + c.draw(4)] ^= 1 << c.draw(8); break; case 2: hd2[12 + c.draw(4)] ^= 1 << c.draw(8); break; case 3: do hd2[16] = c.u8(); while (hd2[16] == ty.code); break; case 4: want += c.coin() ? -(1 + (long)c.draw(ts)) : 1 + (long)c.draw(ts); break; case 5: want = c.draw(512); break; case 6: for (auto &x : hd2) x = c.u8(); want = c.draw(20000); if (want < 512) want = 0; break; }
      f = fopen("pack", "r+b"); fwrite(hd2.data(), 1, 512, f); fflush(f); if (ftruncate(fileno(f), want)) {} fclose(f); FILE *g = fopen("pack", "rb"); Bytes before(std::min<long>(want, 40000)); if (before.size()) if (fread(before.data(), 1, before.size(), g)) {} fclose(g);
      int r = dasd_attach(d, (char *)"pack", 0); c.note("%s image damaged (%d): attach %d", ty.name, what, r); if (r == 1) c.fail("refuse", "damaged image (%d) accepted as type %s", what, types[0].name); if (dasd_gettags(d) & 0x40) c.fail("refuse", "drive online with a refused image"); if (fsize("pack") != want) c.fail("overwrite", "refused image changed from %ld to %ld bytes", want, fsize("pack")); g = fopen("pack", "rb"); Bytes after(before.size()); if (after.size()) if (fread(after.data(), 1, after.size(), g)) {} fclose(g); if (after != before) c.fail("overwrite", "refused image overwritten"); c.label("damaged"); c.nontrivial(mix(h, what)); return; }
    bool other = c.chance(1, 6); if (other) { const Type &o = types[c.draw(4)]; strcpy(nm, o.name); dasd_settype(d, nm); } c.note("%s image, %d cylinders", ty.name, pk.cyls); if (dasd_attach(d, (char *)"pack", 0) != 1) c.fail("attach", "good image refused"); }
  if (!(dasd_gettags(d) & 0x40)) c.fail("online", "drive not online after attach");
  auto same = [&](const Track &got, const Track &want, const char *what, int cy, int hd) { if (!(got == want)) c.fail("content", "%s cylinder %d head %d: %s expected %s", what, cy, hd, show(got).c_str(), show(want).c_str()); };
  auto known = [&](int cy, int hd) { return how == 0 || pk.t.count(cy * 64 + hd); };
  std::vector<int> cs; for (auto &e : pk.t) if (e.first % 64 == 0) cs.push_back(e.first / 64); auto anycyl = [&] { return how == 0 ? (c.chance(1, 5) ? pk.cyls - 1 : (int)c.draw(pk.cyls)) : cs[c.draw(cs.size())]; };
  int cy = 0, hd = 0; seek(0, 0); int ops = 2 + c.draw(3 + c.size() / 10), writes = 0, reads = 0;
  for (int i = 0; i < ops; i++) { c.begin(); int k = c.weighted({ 4, 4, 4, 2, 1, 2, 1 }); h = mix(h, k); int turnby = c.chance(1, 2) ? 0 : c.draw(TY->bpt * 20); uint8_t ix; for (int q = 0; q < turnby; q++) dasd_step(d, &ix);
    switch (k) {
    case 0: cy = c.chance(1, 4) ? cy : anycyl(); hd = c.draw(ty.heads > 16 && !ty.am ? 16 : ty.heads); c.note("seek %d %d", cy, hd); seek(cy, hd); break;
    case 1: { if (!known(cy, hd)) break; Track t = read_track(); c.note("read %d %d: %s", cy, hd, show(t).substr(0, 200).c_str()); same(t, pk.at(cy, hd), "read", cy, hd); reads++; break; }
    case 2: { Track t = gen_track(c, cy, hd); c.note("write %d %d: %s", cy, hd, show(t).c_str()); to_index(); gate(0x84); for (int q = 0; q < 20; q++) wb(0); wb(0xff); wb(TY->am ? 0xd : 0xe); for (auto x : t.ha) wb(x); ck(c); write_recs(c, t.recs, true); gate(0); pk.t[cy * 64 + hd] = t; writes++; break; }
    case 3: { // rewrite the data of one record
      if (!known(cy, hd)) break; Track t = pk.at(cy, hd); if (t.recs.empty()) break; size_t n = c.draw(t.recs.size()); Rec &r = t.recs[n]; bool keytoo = r.key.size() && c.coin(); to_index(); uint8_t b = 0, am, x; int tail = TY->am ? 4 : 2; size_t skip = 6 + tail; for (size_t q = 0; q <= n; q++) { skip += 10 + tail; if (q == n && keytoo) break; if (t.recs[q].key.size()) skip += 1 + t.recs[q].key.size() + tail; if (q < n) skip += 1 + t.recs[q].data.size() + tail; }
      size_t got = 0; for (int q = 0; q < 2 * TY->bpt && got < skip; q++) if (rbyte(b, am, x)) got++; if (got < skip) c.fail("read", "record %zu not found", n);
      gate(0); gate(0x84); if (keytoo) { for (auto &y : r.key) y = c.u8(); gapsync(TY->am ? 0xa : 0xe, 6); field(c, r.key); } uint32_t s = c.u32() | 1; for (auto &y : r.data) { s = s * 1664525 + 1013904223; y = s >> 24; } gapsync(TY->am ? 9 : 0xe, 6); field(c, r.data); gate(0); c.note("rewrite record %zu of %d %d%s", n, cy, hd, keytoo ? " with key" : ""); pk.t[cy * 64 + hd] = t; writes++; break; }
    case 4: c.note("detach, attach"); dasd_detach(d); if (dasd_gettags(d) & 0x40) c.fail("online", "drive online after detach"); if (dasd_attach(d, (char *)"pack", 0) != 1) c.fail("attach", "own image refused"); cy = hd = 0; seek(0, 0); break;
    case 5: { if (!ty.am) { dasd_settags(d, CTL, 0); dasd_settags(d, CTL | 8, 0); } else { dasd_settags(d, CTL, 0); dasd_settags(d, CTL, 1); dasd_settags(d, CTL, 1); } bool over = hd + 1 == ty.heads; hd = over ? 0 : hd + 1; c.note("next head: %d", hd); bool end = dasd_gettags(d) & 4; if (end != over) c.fail("endcyl", "end of cylinder %s after advancing to head %d", end ? "shown" : "not shown", hd); if (over) { gate(0x10); } break; }
    case 6: { c.note("recalibrate"); gate(2); wait_seek(); gate(0); if (dasd_cur_cyl(d) != 0) c.fail("seek", "recalibrate left cylinder %d", dasd_cur_cyl(d)); cy = hd = 0; break; } }
    c.end(); }
  dasd_detach(d); FILE *f = fopen("pack", "rb"); fseek(f, 0, SEEK_END); if (ftell(f) != 512 + (long)pk.cyls * ty.heads * ts) c.fail("size", "image is %ld bytes", ftell(f)); Bytes b(ts); Bytes hd0 = header(ty), hd1(512); rewind(f); if (fread(hd1.data(), 1, 512, f) != 512 || memcmp(hd1.data(), hd0.data(), 17)) c.fail("header", "header changed");
  std::set<int> look; for (auto &e : pk.t) look.insert(e.first); if (how == 0) for (int i = 0; i < 40; i++) look.insert((int)c.draw(pk.cyls) * 64 + (int)c.draw(ty.heads));
  for (int e : look) { fseek(f, 512 + ((long)(e / 64) * ty.heads + e % 64) * ts, SEEK_SET); if (fread(b.data(), 1, ts, f) != (size_t)ts) c.fail("size", "image cut short"); Track t = parse(b.data(), ts); same(t, pk.at(e / 64, e % 64), "image", e / 64, e % 64); }
  fclose(f); if (writes && reads) c.nontrivial(h); c.label(ty.name); }
Harness HARNESS = { "C10", nullptr, run, 10 };
