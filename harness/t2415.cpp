// C22: 2415 tape control on either kind of channel, 9-track drives, against ideal tapes.
#include "bus.hpp"
#include <unistd.h>
using namespace pbt;
extern "C" {
#include "tape.h"
#include "conf.h"
#include "model2415.h"
uint64_t step_count;
void model2415_draw(struct _device *, void *, int) {} void *model2415_control(struct _device *, int, int, int) { return 0; } void model2415_init(struct _device *, void *) {}
}
typedef std::vector<uint8_t> Bytes;
struct Item { bool mark; Bytes d; };
static size_t ilen(int t, const Item &i) { return i.mark ? 4 : 8 + i.d.size() + (t == 0 ? (i.d.size() & 1) : 0); }
static void enc(int t, const Item &i, Bytes &o) { uint32_t l = i.mark ? 0 : i.d.size(); auto len = [&] { for (int k = 0; k < 4; k++) o.push_back(l >> (8 * k)); }; len(); if (i.mark) return; o.insert(o.end(), i.d.begin(), i.d.end()); if (t == 0 && (l & 1)) o.push_back(0); len(); }
struct Unit { bool exists = false, loaded = false, ring = false, point = false, rewinding = false, unloading = false, junk = false, gone = false; int type = 0; std::vector<Item> items; size_t pos = 0, file_end = 0; std::string fn;
  size_t off(size_t n) { size_t o = 0; for (size_t i = 0; i < n; i++) o += ilen(type, items[i]); return o; }
  void wrote(const Item &it) { items.resize(pos); items.push_back(it); pos++; point = false; size_t e = off(pos); junk = e < file_end; if (e > file_end) file_end = e; } };
static Bytes slurp(const char *f) { Bytes b; FILE *p = fopen(f, "rb"); if (!p) return b; uint8_t buf[65536]; size_t c; while ((c = fread(buf, 1, sizeof buf, p)) > 0) b.insert(b.end(), buf, buf + c); fclose(p); return b; }
static Bytes content(Case &c, size_t n) { Bytes b(n); unsigned k = c.draw(4); uint64_t s = c.draw(1 << 16); for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)(i * 7 + (s >> 60)) : s >> 33; } return b; }
static void run(Case &c) {
  while (chan[0]) del_chan(chan[0], chan[0]->addr); init_event(); log_level = 0; Bus b; b.reset(); b.limit = 8000000; b.sel = c.coin(); b.slow = c.chance(1, 3) ? c.draw(8) : 0;
  int base = c.draw(32) * 8; char line[128]; snprintf(line, sizeof line, "2415 %03X", base); if (load_line(line) != 1 || !chan[0]) c.fail("create", "control unit not created");
  struct _device *dev = chan[0]; struct _2415_context *x = (struct _2415_context *)dev->dev; Unit U[6]; int nu = c.range(1, 3); int ids[3];
  for (int i = 0; i < nu; i++) { int u; do u = c.draw(6); while (U[u].exists); ids[i] = u; Unit &t = U[u]; t.exists = true; t.loaded = !c.chance(1, 8); t.ring = c.chance(4, 5); t.type = c.draw(2); t.fn = fmt("unit%d.tap", u);
    Bytes f; int k = c.draw(8); for (int q = 0; q < k; q++) { Item it; it.mark = c.chance(1, 4); if (!it.mark) it.d = content(c, 1 + c.draw(c.chance(1, 5) ? 600 : 60)); enc(t.type, it, f); t.items.push_back(it); } t.file_end = f.size();
    if (k && c.chance(1, 3)) { for (int q = 0; q < 4; q++) f.push_back(0xff); t.file_end = f.size(); }
    FILE *p = fopen(t.fn.c_str(), "wb"); fwrite(f.data(), 1, f.size(), p); fclose(p);
    snprintf(line, sizeof line, "2415U %03X %s format=%s %s%s", base + u, t.ring ? "ring" : "noring", t.type ? "e11" : "simh", c.coin() ? "800" : "1600", t.loaded ? fmt(" file=\"%s\"", t.fn.c_str()).c_str() : "");
    if (load_line(line) != 1) c.fail("create", "unit not created by '%s'", line); t.point = t.loaded; c.note("%s: %d items, %zu bytes", line, k, f.size()); }
  b.idle(5); int sense0 = 0; bool sense_known = true; uint64_t h = mix(nu, b.sel); int writes = 0, reads = 0, moves = 0; bool chained = false; int lastu = -1;
  auto bad = [&](Io &r) { return r.hang || r.absent || r.wrong || r.badparity || r.lost || r.notbusy; };
  // take every status waiting; what is owed: device end for each drive that has rewound
  auto took = [&](int a, int st) { int u = a - base; if (a < 0 || u < 0 || u > 5 || !U[u].exists) c.fail("poll", "status from address %02x", a);
      c.note("unit %d asked for service: %02x", u, st); if (!U[u].rewinding || st != 0x04) c.fail("poll", "unit %d presented %02x%s", u, st, U[u].rewinding ? "" : " though nothing was owed"); U[u].rewinding = false; U[u].pos = 0; U[u].point = true; };
  b.other = took; auto drain = [&](int n) { int a, st; while (b.poll(n, a, st)) took(a, st); };
  int ops = 3 + c.draw(6 + c.size() / 5);
  for (int i = 0; i < ops; i++) { c.begin(); int u; if (chained) u = lastu; else u = ids[c.draw(nu)]; Unit &t = U[u]; int k = c.weighted({ 5, 6, 4, 3, 2, 3, 2, 3, 2, 3, 1, 2, 2, 1, 1, 1, 1, 1 }); int addr = base + u; h = mix(h, k * 8 + u);
    bool any = false; for (auto &q : U) any |= q.rewinding;
    if (any && !chained) { bool nag = t.rewinding && c.chance(1, 2); if (nag) { int cmd = c.pick(Bytes{ 1, 2, 12, 7, 0x1f, 0x27, 0x37, 3, 0x0f }); Io q = b.op(base + u, cmd, {}, 1); c.note("unit %d rewinding: %02x: %s", u, cmd, q.text().c_str()); if (q.hang || q.absent || q.wrong || q.badparity) c.fail("hang", "rewinding drive: %s", q.text().c_str()); if (!q.busy) { if (q.init == 0x14) { t.rewinding = false; t.pos = 0; t.point = true; } else if (q.init != 0x10 || !t.rewinding) c.fail("busy", "rewinding drive given %02x: %s", cmd, q.text().c_str()); } }
      if (t.rewinding || c.chance(1, 3)) { drain(U[0].rewinding || 1 ? 1500000 : 0); for (auto &q : U) if (q.rewinding && !q.unloading) c.fail("rewind", "rewind never ended in device end"); } else drain(50); }
    bool chain = !any && c.chance(1, 3), ready = t.loaded && !t.unloading; Io r; auto name = [&](const char *s) { c.note("unit %d item %zu of %zu: %s: %s", u, t.pos, t.items.size(), s, r.text().c_str()); };
    auto refused = [&](int want) { if (bad(r)) c.fail("hang", "%s", r.text().c_str()); if (r.init != 0x0e || r.moved) c.fail("refuse", "%s, expected 0e", r.text().c_str()); sense0 = want; sense_known = true; chain = false; };
    auto op = [&](int cmd, const Bytes &give, int count) { Io q; b.plain(); if (!any) { if (c.chance(1, 4)) { b.stack = c.range(1, 3); b.hold = c.coin() ? 0 : c.draw(600); } if (c.chance(1, 4)) { b.probe = c.draw(3000); b.probe_cmd = c.coin() ? 0 : 2; } } for (int n = 0; n < 8; n++) { q = b.op(addr, cmd, give, count, chain, chained); if (!q.busy) break; bool owed = false; for (auto &z : U) owed |= z.rewinding; if (!owed || q.init != 0x50) break; b.idle(5); drain(500); } b.plain(); return q; };
    auto free_end = [&] { return t.pos == t.items.size() && t.junk; };
    switch (k) {
    case 0: { Item it; it.mark = false; it.d = content(c, 1 + c.draw(c.chance(1, 6) ? 800 : 80)); r = op(c.pick(std::vector<int>{ 1, 1, 5, 9, 13 }), it.d, it.d.size());  name("write");
      if (!ready) { refused(0x40); break; } if (!t.ring) { refused(0x80); break; }
      if (bad(r)) c.fail("hang", "write: %s", r.text().c_str()); if (r.init != 0 || r.all() != 0x0c || r.moved != (int)it.d.size() || !r.more) c.fail("status", "write of %zu: %s", it.d.size(), r.text().c_str()); t.wrote(it); sense0 = 0; sense_known = true; writes++; break; }
    case 1: case 2: { bool fwd = k == 1; int count = c.chance(1, 2) ? 1000 : 1 + c.draw(70); if (ready && fwd && free_end()) { chain = false; break; }
      if (ready && fwd && t.pos == t.items.size()) { r = op(2, {}, count); name("read at the end of the tape"); if (bad(r)) c.fail("hang", "read at end: %s", r.text().c_str()); if (r.moved) c.fail("data", "data past the end"); chain = false; sense_known = false; t.point = false; break; }
      r = op(fwd ? c.pick(std::vector<int>{ 2, 2, 6, 10, 14 }) : 12, {}, count);  name(fwd ? "read" : "read backward"); if (!ready) { refused(0x40); break; }
      if (bad(r)) c.fail("hang", "read: %s", r.text().c_str());
      if (!fwd && t.pos == 0) { if (r.all() != 0x0e || r.moved) c.fail("status", "read backward at load point: %s", r.text().c_str()); chain = false; sense_known = false; break; }
      Item &it = t.items[fwd ? t.pos : t.pos - 1]; sense0 = 0; sense_known = true;
      if (it.mark) { if (r.all() != 0x0d || r.moved) c.fail("status", "reading a mark: %s", r.text().c_str()); chain = false; }
      else { int n = std::min((int)it.d.size(), count); if (r.init != 0 || r.all() != 0x0c) c.fail("status", "read: %s", r.text().c_str()); if (r.moved != n || r.more != ((int)it.d.size() > count)) c.fail("length", "record of %zu read with count %d: %s", it.d.size(), count, r.text().c_str());
        for (int q = 0; q < n; q++) { uint8_t w = fwd ? it.d[q] : it.d[it.d.size() - 1 - q]; if (r.data[q] != w) c.fail("data", "byte %d is %02x expected %02x", q, r.data[q], w); } }
      t.pos += fwd ? 1 : -1; t.point = false; reads++; break; }
    case 3: { int n = c.range(1, 8); r = op(c.pick(std::vector<int>{ 4, 4, 0x14, 0xf4 }), {}, n);  name("sense"); if (bad(r)) c.fail("hang", "sense: %s", r.text().c_str()); if (r.all() != 0x0c || r.moved != std::min(n, 6) || r.more != (n < 6)) c.fail("status", "sense of %d: %s", n, r.text().c_str());
      Bytes w = { (uint8_t)sense0, (uint8_t)(ready ? 0x40 | (t.rewinding ? 0x20 : 0) | (t.ring ? 0 : 2) | (t.point ? 8 : 0) : 0x20), 3, 0, 0, 0 };
      for (int q = 0; q < r.moved; q++) { uint8_t m = 0xff; if (q == 0 && !sense_known) m = 0; if (q == 1 && ready && t.pos == 0 && !t.point) m = 0xf7; if (q == 1 && t.rewinding) m = 0xd7; if ((q == 3) && !sense_known) m = 0; if ((r.data[q] ^ w[q]) & m) c.fail("sense", "sense byte %d is %02x expected %02x", q, r.data[q], w[q]); } break; }
    case 4: { r = op(c.pick(std::vector<int>{ 0x03, 0xc3, 0xcb, 0xd3, 0x0b }), {}, 1);  name("mode set"); if (!ready) { refused(0x40); break; } if (bad(r)) c.fail("hang", "mode: %s", r.text().c_str()); if (r.init != 0x0c) c.fail("status", "mode set: %s", r.text().c_str()); sense0 = 0; sense_known = true; break; }
    case 5: case 6: case 7: case 8: { bool fwd = k < 7, file = k == 6 || k == 8; int cmd = (fwd ? 0x37 : 0x27) | (file ? 8 : 0); size_t p = t.pos; bool endless = false, mark = false;
      if (ready) { if (fwd) { do { if (p == t.items.size()) { endless = true; break; } mark = t.items[p++].mark; } while (file && !mark); } else { do { if (p == 0) { endless = true; break; } mark = t.items[--p].mark; } while (file && !mark); } }
      if (ready && fwd && endless && t.junk) { chain = false; break; }
      r = op(cmd, {}, 1);  name(fwd ? file ? "space file" : "space block" : file ? "backspace file" : "backspace block"); if (!ready) { refused(0x40); break; }
      if (bad(r)) c.fail("hang", "space: %s", r.text().c_str()); if (r.moved || r.more) c.fail("status", "spacing moved data");
      if (endless) { sense_known = false; chain = false; if (!fwd) { if (t.pos == 0 && r.all() != 0x0e) c.fail("status", "backspace at load point: %s", r.text().c_str()); } }
      else { int want = mark && !file ? 0x0d : 0x0c; if (r.init != 8 || r.all() != want) c.fail("status", "space: %s expected %02x", r.text().c_str(), want); if (want & 1) chain = false; sense0 = 0; sense_known = true; }
      if (p != t.pos || endless) t.point = false; t.pos = p; moves++; break; }
    case 9: { r = op(0x1f, {}, 1);  name("write mark"); if (!ready) { refused(0x40); break; } if (!t.ring) { refused(0x80); break; } if (bad(r)) c.fail("hang", "mark: %s", r.text().c_str()); if (r.init != 8 || r.all() != 0x0c) c.fail("status", "write mark: %s", r.text().c_str()); Item it; it.mark = true; t.wrote(it); sense0 = 0; sense_known = true; writes++; break; }
    case 10: { r = op(0x17, {}, 1);  name("erase gap"); if (!ready) { refused(0x40); break; } if (!t.ring) { refused(0x80); break; } if (bad(r)) c.fail("hang", "erase: %s", r.text().c_str()); if (r.init != 8 || r.all() != 0x0c) c.fail("status", "erase: %s", r.text().c_str()); sense0 = 0; sense_known = true; break; }
    case 11: { // rewind; with other drives about, sometimes go on while it rewinds
      bool wait = chain || c.coin() || !ready; if (wait) { r = op(0x07, {}, 1);  name("rewind"); if (!ready) { refused(0x40); break; } if (bad(r)) c.fail("hang", "rewind: %s", r.text().c_str()); if (r.init != 8 || r.all() != 0x0c) c.fail("status", "rewind: %s", r.text().c_str()); t.pos = 0; t.point = true; }
      else { int tries = 8; do { r = Io(); if (!b.select(addr, 0x07, r, chained) && !r.busy) c.fail("hang", "rewind select: %s", r.text().c_str()); if (r.busy) drain(500); } while (r.busy && --tries);  if (r.busy) c.fail("hang", "rewind select: %s", r.text().c_str()); b.release(); name("start rewind"); if (r.init != 8) c.fail("status", "rewind: %s", r.text().c_str()); t.rewinding = true; b.idle(150); }
      sense0 = 0; sense_known = true; moves++; break; }
    case 12: { if (chained) { chain = false; break; } int s = b.tio(addr, r); name("test I/O"); if (bad(r)) c.fail("hang", "test I/O: %s", r.text().c_str()); if (ready && !t.rewinding && s != 0) c.fail("tio", "test I/O gave %02x", s); chain = false; break; }
    case 13: { chain = false; r = op(c.pick(std::vector<int>{ 0x47, 0x57, 0x8f, 0xff, 0xc7 }), {}, 1); name("invalid"); refused(ready ? 0x80 : 0x40); break; }
    case 14: { if (chained) { chain = false; break; } int a2; do a2 = c.draw(256); while ((a2 & 0xf8) == base); r = b.op(a2, 2, {}, 1); if (!r.absent) c.fail("address", "address %02x answered by unit %02x", a2, base); chain = false; break; }
    case 16: { chain = false; r = op(0x0f, {}, 1); name("rewind and unload"); if (!ready) { refused(0x40); break; } if (bad(r)) c.fail("hang", "unload: %s", r.text().c_str()); if (r.all() != 0x2e) c.fail("status", "unload: %s", r.text().c_str());
      struct _tape_buffer *T = x->tape[u]; for (int q = 0; tape_ready(T); q++) { if (q > 20000) c.fail("hang", "drive never unloaded"); if (q % 64 == 3 && c.chance(1, 4)) { Io z = b.op(addr, 2, {}, 1); if (!z.busy && tape_ready(T) && z.init != 0x10) c.fail("busy", "unloading drive read: %s", z.text().c_str()); } if (any) drain(300); else b.idle(300); }
      t.loaded = false; t.gone = true; sense_known = false; moves++; break; }
    case 17: { // a command with bad parity is not executed
      chain = false; if (any || chained) break; b.badcmd = true; int cmd = c.pick(std::vector<int>{ 1, 2, 12, 7, 0x1f, 0x27, 0x37, 3, 4 }); r = b.op(addr, cmd, content(c, 4), 4); c.note("unit %d given %02x with bad parity: %s", u, cmd, r.text().c_str()); if (bad(r)) c.fail("hang", "%s", r.text().c_str()); if (r.init != 0x0e || r.moved) c.fail("parity", "command %02x with bad parity: %s", cmd, r.text().c_str()); sense0 |= 0x20; break; }
    case 15: { // a drive that is not there
      if (chained) { chain = false; break; } int v = c.draw(6); if (U[v].exists) { chain = false; break; } bool sns = c.coin(); r = b.op(base + v, sns ? 4 : c.pick(std::vector<int>{ 1, 2, 12, 7, 0x1f, 0x27, 0x37, 3 }), {}, 6); c.note("no unit %d: %s", v, r.text().c_str()); if (bad(r)) c.fail("hang", "no unit: %s", r.text().c_str());
      if (sns) { if (r.all() != 0x0c || r.moved != 6 || (r.data[1] & 0x40)) c.fail("sense", "no unit: %s", r.text().c_str()); } else refused(0x40); chain = false; break; }
    }
    chained = chain; lastu = u; c.end(); }
  { bool any = false; for (auto &q : U) any |= q.rewinding; if (any) drain(1500000); for (auto &q : U) if (q.rewinding) c.fail("rewind", "rewind never ended in device end"); }
  { int a, st; b.idle(100); if (b.poll(2000, a, st)) c.fail("poll", "unexpected status %02x from %02x", st, a); }
  for (int i = 0; i < nu; i++) { Unit &t = U[ids[i]]; struct _tape_buffer *T = x->tape[ids[i]]; if (t.loaded || t.gone) { if (t.loaded) tape_detach(T); Bytes w; for (auto &q : t.items) enc(t.type, q, w); Bytes f = slurp(t.fn.c_str());
      if (f.size() < w.size() || (!t.junk && f.size() != t.file_end && f.size() != w.size())) c.fail("image-size", "unit %d image holds %zu bytes, records take %zu", ids[i], f.size(), w.size()); for (size_t q = 0; q < w.size(); q++) if (w[q] != f[q]) c.fail("image", "unit %d image byte %zu is %02x, expected %02x", ids[i], q, f[q], w[q]); }
    unlink(t.fn.c_str()); free(T); }
  del_chan(dev, dev->addr); free(dev); free(x);
  if (reads + moves >= 2 && writes) c.nontrivial(h);
}
pbt::Harness HARNESS = { "C22", nullptr, run, 20 };
