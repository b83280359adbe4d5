// C23: 2844 disk control with 2314 drives: channel programs against a model of the tracks.
#include "bus.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <map>
using namespace pbt;
extern "C" {
#include "dasd.h"
#include "conf.h"
#include "model2844.h"
uint64_t step_count;
void model2314_draw(struct _device *, void *, int) {} void *model2314_control(struct _device *, int, int, int) { return 0; } void model2314_init_graphics(struct _device *, void *) {}
int model2314_create(struct _option *) { return 1; } int model2844_create(struct _option *) { return 1; }
struct _device *model2844_init(uint16_t);
void step_disk();
}
typedef std::vector<uint8_t> Bytes; typedef std::string Str;
struct Rec { Bytes id; Bytes key, data; bool operator==(const Rec &o) const { return id == o.id && key == o.key && data == o.data; }
  Bytes count() const { Bytes b = id; b.push_back(key.size()); b.push_back(data.size() >> 8); b.push_back(data.size()); return b; } };
struct Track { Bytes ha; std::vector<Rec> recs; bool bad = false; bool operator==(const Track &o) const { return ha == o.ha && recs == o.recs && bad == o.bad; } };
 enum { MINK = 3, MIND = 3, BPT = 7294, TS = 7680, HEADS = 20, CYLS = 203, BASE = 0x90 };
static Str show(const Track &t) { Str s = hex(t.ha.data(), t.ha.size()) + ":"; for (auto &r : t.recs) s += " [" + hex(r.id.data(), 5) + fmt(" k%zu d%zu %08llx]", r.key.size(), r.data.size(), (unsigned long long)(hbytes(r.key.data(), r.key.size()) * 31 + hbytes(r.data.data(), r.data.size())) & 0xffffffff); return s + (t.bad ? " DAMAGED" : ""); }
static Track parse(const uint8_t *p) { Track t; t.ha.assign(p, p + 5); int o = 5; for (;;) { if (o + 4 > TS) { t.bad = true; return t; } if ((p[o] & p[o + 1] & p[o + 2] & p[o + 3]) == 0xff) return t; if (o + 8 > TS) { t.bad = true; return t; }
    Rec r; r.id.assign(p + o, p + o + 5); int k = p[o + 5], d = p[o + 6] << 8 | p[o + 7]; o += 8; if (o + k + d > TS) { t.bad = true; return t; } r.key.assign(p + o, p + o + k); r.data.assign(p + o + k, p + o + k + d); o += k + d; t.recs.push_back(r); } }
static void push(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static Bytes build(const Track &t) { Bytes b = t.ha; for (auto &r : t.recs) { push(b, r.count()); push(b, r.key); push(b, r.data); } for (int i = 0; i < 4; i++) b.push_back(0xff); b.resize(TS); return b; }
static Bytes header() { Bytes h(512, 0); memcpy(h.data(), "CKD_P370", 8); h[8] = HEADS; h[12] = TS & 255; h[13] = TS >> 8; h[16] = 0x14; h[18] = 202; return h; }
static Bytes content(Case &c, size_t n) { Bytes b(n); unsigned k = c.draw(4); uint64_t s = c.draw(1 << 16); for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)(i + s % 3) : (uint8_t)(s >> 33); } return b; }
static Rec gen_rec(Case &c, int cy, int hd, int r, int room) { Rec q; q.id = { 0, (uint8_t)cy, 0, (uint8_t)hd, (uint8_t)r }; if (c.chance(1, 12)) for (int i = 0; i < 4; i++) q.id[i] = c.draw(128); q.key = content(c, c.chance(1, 2) ? 0 : c.chance(1, 10) ? 1 + c.draw(255) : 1 + c.draw(12)); if ((int)q.key.size() > room / 2) q.key.resize(4);
  if (q.key.size() && (int)q.key.size() < MINK) q.key.resize(MINK); int d = c.chance(1, 12) ? 0 : c.chance(1, 8) ? MIND + c.draw(room) : MIND + c.draw(60); if (d + (int)q.key.size() > room) d = room - q.key.size(); q.data = content(c, d); return q; }
static Track gen_track(Case &c, int cy, int hd, int most) { Track t; t.ha = { 0, 0, (uint8_t)cy, 0, (uint8_t)hd }; int room = BPT - 600, n = c.draw(most + 1); for (int r = 0; r <= n && room > 200; r++) { Rec q; if (r == 0) { q.id = { 0, (uint8_t)cy, 0, (uint8_t)hd, 0 }; q.data = c.chance(1, 5) ? content(c, MIND + c.draw(20)) : content(c, 8); } else q = gen_rec(c, cy, hd, r, room - 180); room -= 170 + q.key.size() + q.data.size(); t.recs.push_back(q); } return t; }
struct Drive { struct _dasd_t *d = 0; Str fn; std::map<int, Track> t; std::vector<int> cyls; int cyl = 0, head = 0; bool fresh = true; };
static void run(Case &c) {
  init_event(); log_level = 0; ::disk = 0; while (chan[0]) del_chan(chan[0], chan[0]->addr);
  Bus b; b.sel = true; b.limit = 600000; b.gap = 20 + c.draw(31); b.tick = [] { step_disk(); step_disk(); };
  struct _device *dev = model2844_init(BASE); struct _2844_context *x = (struct _2844_context *)dev->dev; Drive D[8]; int nd = 1 + c.chance(1, 3); int ids[2]; uint64_t h = mix(nd, b.sel); bool fmtd = false;
  for (int i = 0; i < nd; i++) { int u; do u = c.draw(8); while (D[u].d); ids[i] = u; Drive &q = D[u]; q.fn = fmt("pack%d", u); int nc = 1 + c.draw(3); for (int k = 0; k < nc; k++) { int cy = k == 0 ? 0 : c.chance(1, 4) ? 202 : c.draw(CYLS); if (std::find(q.cyls.begin(), q.cyls.end(), cy) == q.cyls.end()) q.cyls.push_back(cy); }
    FILE *f = fopen(q.fn.c_str(), "wb"); Bytes hd = header(); fwrite(hd.data(), 1, 512, f); int rich = 3 + c.draw(4);
    for (int cy : q.cyls) for (int k = 0; k < HEADS; k++) { Track t = gen_track(c, cy, k, rich > 0 && (k < 3 || k > 17) && rich-- > 0 ? 1 + c.draw(c.chance(1, 4) ? 15 : 5) : 0); q.t[cy * 32 + k] = t; Bytes v = build(t); fseek(f, 512 + ((long)cy * HEADS + k) * TS, SEEK_SET); fwrite(v.data(), 1, TS, f); }
    fflush(f); if (ftruncate(fileno(f), 512 + (long)CYLS * HEADS * TS)) {} fclose(f);
    q.d = (struct _dasd_t *)calloc(1, sizeof(struct _dasd_t)); char nm[] = "2314"; dasd_settype(q.d, nm); if (dasd_attach(q.d, (char *)q.fn.c_str(), 0) != 1) c.fail("attach", "pack refused"); x->disk[u] = q.d; c.note("drive %d: cylinders %s", u, [&] { Str s; for (int cy : q.cyls) s += fmt("%d ", cy); return s; }().c_str()); }
  b.reset(); b.idle(400);
  bool settle = false; // a format write may keep the control unit busy until index
  auto bad = [&](Io &r) { return r.hang || r.absent || r.wrong || r.badparity || r.lost; };
  Io r; bool chained = false; int A = 0, u = 0; int retries, over = 0;
  auto op = [&](int cmd, const Bytes &give, int n, bool chain) { retries = 0; uint64_t t0 = b.cycles; bool near = D[u].d->cpos > BPT - 60;
    for (;;) { r = b.op(A, cmd, give, n, chain, chained); if (!r.busy && settle && !chained && r.init == 0x30 && r.status.empty()) { settle = false; continue; } if (!r.busy) break;
      if (!settle || chained || r.init != 0x50 || retries++) c.fail("busy", "%02x: control unit busy (%s)", cmd, r.text().c_str());
      int a, st; if (!b.poll(200000, a, st)) c.fail("busy", "no control unit end after busy"); if ((a & 0xf0) != BASE || st != 0x20) c.fail("busy", "%02x presented %02x for control unit end", a, st); settle = false; }
    if (!(r.init == 2 && r.status.empty())) settle = false; chained = chain && !(r.all() & 0xb3); c.note("  %02x count %d%s (%d): %s%s", cmd, n, chain ? " cc" : "", (int)(b.cycles - t0), r.text().c_str(), r.data.empty() ? "" : (" " + hex(r.data.data(), std::min<size_t>(24, r.data.size()))).c_str());
    if (r.hang && near) c.fail("index-hang", "command %02x issued as the index point passed: %s", cmd, r.text().c_str()); if (bad(r)) c.fail("interface", "command %02x: %s", cmd, r.text().c_str()); };
  // what a sense command must show after the last unit check
  auto sense = [&](int s0, int s1, const char *why) { op(4, {}, 6, false); if (r.init != 0 || r.status != Bytes{ 0x0c } || r.moved != 6) c.fail("sense", "sense: %s", r.text().c_str()); if (r.data[0] != s0 || (s1 >= 0 ? r.data[1] != s1 : r.data[1] != 4 && r.data[1] != 0x10) || r.data[2] != 0) c.fail(Str("sense-") + why, "sense %02x %02x %02x expected %02x %02x 00 (%s)", r.data[0], r.data[1], r.data[2], s0, s1, why); };
  int chains = 1 + c.draw(2 + c.size() / 25), reads = 0, writes = 0, finds = 0;
  for (int ch = 0; ch < chains; ch++) { c.begin(); u = ids[c.draw(nd)]; A = BASE + u; Drive &q = D[u]; chained = false;
    if (c.chance(1, 3)) b.idle(c.draw(60000));
    int ncmd = 1 + c.draw(6), done = 0; int mask = 0; bool masked = false; // position: -3 unknown, -2 at index, -1 after home address, 3i after count of record i, 3i+1 after its key, 3i+2 after its data
    fmtd = false; int pos = -3; int ilo = 0, ihi = 0; enum { NONE, SOFT, ID, KEY, HA, WHA, WR0, WCKD } pre = NONE; bool ended = false;
    auto tr = [&]() -> Track & { return q.t[q.cyl * 32 + q.head]; };
    auto known = [&] { return q.t.count(q.cyl * 32 + q.head) != 0; };
    auto more = [&] { return done < ncmd || c.chance(1, 2); };
    auto st = [&](int init, Bytes s) { return r.init == init && r.status == s; };
    auto reject = [&](int s0, int s1, const char *why) { if (!(r.init == 2 && r.status.empty()) ) c.fail(Str("reject-") + why, "%s, expected a rejected command", r.text().c_str()); sense(s0, s1, why); ended = true; };
    auto nrf = [&](const char *what) { // two index points: allowed if possible, demanded if certain
      if (!(r.all() & 2)) { if (ilo >= 2 && strncmp(what, "read home", 9) && strncmp(what, "read record", 11)) c.fail("norecord", "%s succeeded though two index points were passed: %s", what, r.text().c_str()); return false; }
      if (ihi < 2) { c.note("  index count %d..%d", ilo, ihi); }
      if (st(0, { 0x0e }) && r.moved == 0) { op(4, {}, 6, false); if (r.moved == 6 && r.data[0] == 4 && r.data[1] == 0) { if (++over > 3) c.fail("overrun", "%s: overrun", what); c.label("overrun"); ended = true; return true; } if (ihi < 2 || r.moved != 6 || r.data[0] || r.data[1] != 8) c.fail("unitcheck", "%s: unit check, sense %s", what, hex(r.data.data(), r.data.size()).c_str()); ended = true; return true; } Str why = ihi < 2 ? "unexpected" : "norecord"; int moved = r.moved; if (!st(0, { 0x0e })) c.fail("status", "%s: %s", what, r.text().c_str()); if (ihi < 2) { op(4, {}, 6, false); c.fail("unitcheck", "%s: unit check, sense %s", what, hex(r.data.data(), r.data.size()).c_str()); } (void)moved; sense(0, 8, why.c_str()); ended = true; return true; };
    auto check = [&](const char *what, const Bytes &want, int n, bool eof) { // data read, and the status
      size_t m = std::min<size_t>(n, want.size()); if (r.data != Bytes(want.begin(), want.begin() + m)) c.fail("data", "%s read %s expected %s", what, hex(r.data.data(), r.data.size()).c_str(), hex(want.data(), m).c_str());
      if (r.more != (want.size() > (size_t)n)) c.fail("length", "%s: %s, record has %zu bytes, count %d", what, r.text().c_str(), want.size(), n);
      if (!st(0, { (uint8_t)(eof ? 0x0d : 0x0c) })) c.fail("status", "%s: %s", what, r.text().c_str()); if (eof) ended = true; reads++; };
    auto cnt = [&](int n) { return c.chance(3, 4) ? n : c.chance(1, 2) ? n + 1 + (int)c.draw(20) : n < 12 ? n : 2 + (int)c.draw(n - 8); };
    c.note("chain on drive %d (at %d/%d)", u, q.cyl, q.head);
    if (c.chance(1, 3)) { static const int ms[] = { 0, 0x40, 0x80, 0xc0, 8, 0x10, 0x18, 0xc8, 0x98 }; mask = c.chance(1, 2) ? 0xc0 : ms[c.draw(9)]; bool wrong = c.chance(1, 12); if (wrong) mask |= 1 << c.pick(std::vector<int>{ 0, 1, 2, 5 }); op(0x1f, { (uint8_t)mask }, 1, !wrong); if (wrong) { if (!st(0, { 0x0e })) c.fail("mask", "file mask %02x: %s", mask, r.text().c_str()); sense(0x80, 0, "mask"); c.end(); continue; } if (!st(0, { 0x0c })) c.fail("mask", "file mask %02x: %s", mask, r.text().c_str()); masked = true; }
    // get to a cylinder and track
    if (!known() || q.fresh || c.chance(5, 6)) { int cy = q.cyls[c.draw(q.cyls.size())], hd = c.chance(1, 2) ? c.draw(3) : c.chance(1, 2) ? 18 + c.draw(2) : c.draw(HEADS); int cmd = c.weighted({ 6, 1, 1 }); cmd = cmd == 0 || q.fresh ? 7 : cmd == 1 ? 0x0b : 0x1b; int perm = mask & 0x18; bool ok = perm == 0 || (perm == 8 && cmd != 7) || (perm == 0x10 && cmd == 0x1b);
      Bytes g = { 0, 0, 0, (uint8_t)cy, 0, (uint8_t)hd }; bool wrong = c.chance(1, 20); int n = 6; if (wrong) switch (c.draw(4)) { case 0: g[2] = 1 + c.draw(255); break; case 1: g[4] = 1 + c.draw(255); break; case 2: g[5] = 20 + c.draw(236); break; default: n = 1 + c.draw(5); }
      bool last = wrong || !ok || c.chance(1, 8); c.note("  seek %d/%d", cy, hd); op(cmd, g, n, !last); h = mix(h, cmd);
      if (!ok) { reject(0, 4, "seekmask"); c.end(); continue; }
      if (wrong) { if (!st(0, { 0x0e })) c.fail("seek", "seek %s count %d: %s", hex(g.data(), 6).c_str(), n, r.text().c_str()); sense(0x81, 0, "seek"); c.end(); continue; }
      if (r.init != 0 || !(r.status == Bytes{ 0x08, 0x04 } || r.status == Bytes{ 0x0c })) c.fail("seek", "seek: %s", r.text().c_str());
      q.fresh = false; if (cmd != 0x1b) q.cyl = cy; q.head = hd; if (q.d->cyl != q.cyl || q.d->head != q.head) c.fail("seek", "seek to %d/%d went to %d/%d", q.cyl, q.head, q.d->cyl, q.d->head);
      if (last) { c.end(); continue; } }
    else if (c.chance(1, 2)) { int cmd = c.pick(std::vector<int>{ 3, 0x13 }); bool last = masked || c.chance(1, 3); if (cmd == 0x13 && (mask & 0x18)) cmd = 3; op(cmd, {}, 1, !last); if (r.init & 0xb3) c.fail("control", "%02x: %s", cmd, r.text().c_str()); if (cmd == 0x13) { q.cyl = q.head = 0; } if (last) { c.end(); continue; } }
    if (c.verbose()) c.note("  track %s", show(tr()).c_str()); while (!ended) { c.begin(); bool last = done + 1 >= ncmd; Track &t = tr(); int N = t.recs.size(); done++;
      // which record comes next, and how many index points on the way (n0: record 0 counts)
      int nx = 0, cross = 0; auto next = [&](bool r0, int from) { cross = 0; int i = pos < 0 ? (pos == -1 && !r0 ? 1 : 0) : from; if (i >= N) { cross = 1; i = r0 ? 0 : 1; if (i >= N) { nx = -1; return; } } if (!r0 && i == 0) i = 1; if (i >= N) { nx = -1; cross = 2; return; } nx = i; };
      int rec = pos < 0 ? -1 : pos / 3;
      int k = fmtd ? 11 : pos == -3 ? c.weighted({ 3, 2, 3, 2, 5, 0, 0, 0, 0, 0, 0, 0, 1 }) : c.weighted({ 1, 1, 1, 0, 3, 3, 2, 4, 3, 2, 5, 3, 1 }); h = mix(h, k);
      auto idx = [&](int lo, int hi) { ilo += lo; ihi += hi; }; auto zero = [&] { ilo = ihi = 0; };
      switch (k) {
      case 0: { bool hit = pos != -3; idx(hit, 1); op(0x1a, {}, 5, !last); pre = NONE; if (nrf("read home address")) break; check("home address", t.ha, 5, false); zero(); pos = -1; break; }
      case 1: { op(0x16, {}, 300, !last); pre = NONE; if (N == 0) { zero(); ended = true; break; } idx(pos != -1, 1); if (nrf("read record 0")) break; Bytes w = t.recs[0].count(); push(w, t.recs[0].key); push(w, t.recs[0].data); check("record 0", w, 300, false); zero(); pos = 2; break; }
      case 2: { Bytes g(t.ha.begin() + 1, t.ha.end()); bool eq = !c.chance(1, 4); if (!eq) g[c.draw(4)] ^= 1 << c.draw(8); idx(pos != -3, 1); op(0x39, g, 4, true); pre = NONE; if (nrf("search home address")) break; if (!st(0, { (uint8_t)(eq ? 0x4c : 0x0c) })) c.fail("searchha", "search home address %s: %s", hex(g.data(), 4).c_str(), r.text().c_str()); pos = -1; if (eq) { pre = HA; finds++; } break; }
      case 3: { op(0x12, {}, 8, !last); pre = NONE; if (N <= 1) { idx(0, 2); if (!nrf("read count")) c.fail("norecord", "read count on a track without records: %s", r.text().c_str()); break; } idx(0, 1); if (nrf("read count")) break; int f = -1; for (int i = 1; i < N; i++) if (t.recs[i].count() == r.data) f = i; if (f < 0) c.fail("data", "read count read %s, not on this track", hex(r.data.data(), r.data.size()).c_str()); if (!st(0, { 0x0c })) c.fail("status", "read count: %s", r.text().c_str()); reads++; pos = 3 * f; break; }
      case 4: { // search for a record until found or not
        int want = c.draw(N + 1); Bytes g = want < N ? t.recs[want].id : Bytes{ 0, (uint8_t)q.cyl, 0, (uint8_t)q.head, (uint8_t)(100 + c.draw(100)) }; if (want == N && c.chance(1, 2) && N) { g = t.recs[c.draw(N)].id; g[c.draw(5)] ^= 1 << c.draw(7); } int at = -1; for (int i = 0; i < N; i++) if (t.recs[i].id == g) at = i;
        c.note("  search for %s (record %d)", hex(g.data(), 5).c_str(), at); pre = NONE; bool found = false; int from = pos;
        for (int i = 0; i < 3 * N + 9 && !found; i++) { op(0x31, g, 5, true); if (r.all() & 0xb3) break; if (st(0, { 0x4c })) found = true; else if (!st(0, { 0x0c })) c.fail("search", "search: %s", r.text().c_str()); }
        if (!found && !(r.all() & 2)) c.fail("search", "search did not end");
        if (at < 0) { idx(2, 2); if (found) c.fail("search", "found a record that is not there"); nrf("search"); break; }
        if (from == -3) idx(0, 1); else if (from >= 0 && at <= rec) idx(1, 1);
        if (nrf("search")) break; pos = 3 * at; pre = ID; finds++; break; }
      case 5: { // one search, any condition
        int cmd = c.pick(std::vector<int>{ 0x31, 0x51, 0x71 }); next(true, rec + 1); if (nx < 0) { done = ncmd; break; } Bytes g = c.chance(1, 2) ? t.recs[nx].id : t.recs[c.draw(N)].id; if (c.chance(1, 4)) g[c.draw(5)] ^= 1 << c.draw(7); int d = memcmp(t.recs[nx].id.data(), g.data(), 5); bool hit = (cmd == 0x31 && !d) || (cmd == 0x51 && d > 0) || (cmd == 0x71 && d >= 0);
        idx(cross, cross); op(cmd, g, 5, true); pre = NONE; if (nrf("search")) break; if (!st(0, { (uint8_t)(hit ? 0x4c : 0x0c) })) c.fail("searchid", "search %02x %s at %s: %s", cmd, hex(g.data(), 5).c_str(), hex(t.recs[nx].id.data(), 5).c_str(), r.text().c_str()); pos = 3 * nx; if (hit && cmd == 0x31) pre = ID; finds += hit; break; }
      case 6: { // search the key
        int cmd = c.pick(std::vector<int>{ 0x29, 0x49, 0x69 }); if (pos >= 0 && pos % 3 == 0) { nx = rec; cross = 0; } else next(false, rec + 1); if (nx < 0 || t.recs[nx].key.empty()) break; Bytes g = t.recs[nx].key; if (c.chance(1, 2)) g[c.draw(g.size())] ^= 1 << c.draw(8); int d = memcmp(t.recs[nx].key.data(), g.data(), g.size()); bool hit = (cmd == 0x29 && !d) || (cmd == 0x49 && d > 0) || (cmd == 0x69 && d >= 0);
        idx(cross, cross); op(cmd, g, g.size(), true); pre = NONE; if (nrf("search")) break; if (!st(0, { (uint8_t)(hit ? 0x4c : 0x0c) })) c.fail("searchkey", "search key %02x: %s", cmd, r.text().c_str()); pos = 3 * nx + 1; if (hit && cmd == 0x29) pre = KEY; finds += hit; break; }
      case 7: { // read data, key and data, all
        int cmd = c.pick(std::vector<int>{ 6, 0x0e, 0x1e }); bool here = pos >= 0 && ((cmd == 6 && pos % 3 != 2) || (cmd == 0x0e && pos % 3 == 0)); if (here) { nx = rec; cross = 0; } else next(false, rec + 1);
        if (nx < 0) { idx(2, 2); op(cmd, {}, 100, false); if (!nrf("read")) {} break; } Rec &e = t.recs[nx]; Bytes w; if (cmd == 0x1e) w = e.count(); if (cmd != 6) push(w, e.key); push(w, e.data); int n = cnt(std::max<size_t>(1, w.size()));
        idx(cross, cross); op(cmd, {}, n, !last); pre = here && (pre == ID || pre == KEY || pre == SOFT) ? SOFT : NONE; if (nrf("read")) break; check(fmt("read %02x record %d", cmd, nx).c_str(), w, n, e.data.empty()); zero(); pos = 3 * nx + 2; break; }
      case 8: { next(false, rec + 1); if (nx < 0) { idx(2, 2); op(0x12, {}, 8, false); nrf("read count"); break; } idx(cross, cross); op(0x12, {}, 8, !last); pre = NONE; if (nrf("read count")) break; check("read count", t.recs[nx].count(), 8, false); pos = 3 * nx; break; }
      case 9: { int cmd = c.pick(std::vector<int>{ 3, 4 }); op(cmd, {}, 6, false); if (!st(0, { 0x0c }) && !(r.init == 0x0c && r.status.empty())) c.fail("status", "%02x: %s", cmd, r.text().c_str()); if (cmd == 4 && (r.data[0] || r.data[1])) c.fail("sense", "sense %s without an error", hex(r.data.data(), r.data.size()).c_str()); ended = true; break; }
      case 10: { // write data
        int cmd = c.chance(3, 4) ? 5 : 0x0d; bool ok = (cmd == 5 && (pre == ID || pre == KEY)) || (cmd == 0x0d && pre == ID); bool perm = (mask & 0xc0) != 0x40; Bytes g; Rec *e = rec >= 0 ? &t.recs[rec] : 0; bool kd = cmd == 0x0d; size_t full = e ? e->data.size() + (kd ? e->key.size() : 0) : 8; if (ok && e->data.empty()) break; if (kd && ok && e->key.size()) last = true; g = content(c, full);
        op(cmd, g, full, ok && perm && !last); if (!perm && ok) { reject(0x80, 4, "protect"); break; } if (!ok) { reject(0x80, perm ? 0x10 : -1, "sequence"); break; }
        if (!st(0, { 0x0c }) || r.moved != (int)full || r.more) c.fail("write", "write %02x of %zu bytes: %s", cmd, full, r.text().c_str()); if (kd) e->key.assign(g.begin(), g.begin() + e->key.size()); e->data.assign(g.end() - e->data.size(), g.end()); zero(); pos = 3 * rec + 2; pre = SOFT; settle = true; writes++; break; }
      case 11: { // format
        int cmd = fmtd ? 0 : c.weighted({ 4, 2, 1 }); cmd = cmd == 0 ? 0x1d : cmd == 1 ? 0x15 : 0x19; bool ok = cmd == 0x19 || (cmd == 0x15 && (pre == HA || pre == WHA)) || (cmd == 0x1d && (pre == ID || pre == KEY || pre == WR0 || pre == WCKD)); if (pre == SOFT && cmd == 0x1d) break; int w = mask & 0xc0; bool perm = w == 0xc0 || (w == 0 && cmd == 0x1d);
        if (ok && perm) { int room = BPT - 700; for (int i = 0; i <= rec && i < N; i++) room -= 170 + t.recs[i].key.size() + t.recs[i].data.size(); if (room < 400) break; if (room < 3000) last = true;
          Bytes g; Track was = t; if (cmd == 0x19) { g = { 0, 0, (uint8_t)q.cyl, 0, (uint8_t)q.head }; t.ha = g; t.recs.clear(); }
          else if (cmd == 0x15) { Rec e = gen_rec(c, q.cyl, q.head, 0, room - 200); e.key.clear(); e.data.resize(std::max<size_t>(MIND, std::min<size_t>(e.data.size(), 64))); t.recs.assign(1, e); g = e.count(); push(g, e.key); push(g, e.data); }
          else { int rn = 1; for (auto &e : t.recs) rn = std::max(rn, e.id[4] + 1); Rec e = gen_rec(c, q.cyl, q.head, rn & 255, room - 200); t.recs.resize(rec + 1); t.recs.push_back(e); g = e.count(); push(g, e.key); push(g, e.data); }
          if (room - 170 - (int)g.size() < 700) last = true; if (cmd == 0x19) last = false, done = std::min(done, ncmd - 1); op(cmd, g, g.size(), !last); if (!st(0, { 0x0c }) || r.moved != (int)g.size() || r.more) c.fail("format", "format write %02x of %zu bytes: %s", cmd, g.size(), r.text().c_str());
          settle = true; zero(); writes++; pos = cmd == 0x19 ? -1 : cmd == 0x15 ? 2 : 3 * (rec + 1) + 2; pre = cmd == 0x19 ? WHA : cmd == 0x15 ? WR0 : WCKD; if (last) { done = ncmd; } fmtd = !last;
          // a home address is always followed by record 0 here
          if (cmd == 0x19) { Rec e = gen_rec(c, q.cyl, q.head, 0, 200); e.id[4] = 0; e.key.clear(); e.data = content(c, 8); t.recs.assign(1, e); g = e.count(); push(g, e.data); bool l2 = c.chance(1, 2); op(0x15, g, g.size(), !l2); if (!st(0, { 0x0c }) || r.moved != (int)g.size()) c.fail("format", "write record 0: %s", r.text().c_str()); pos = 2; pre = WR0; fmtd = !l2; if (l2) ended = true; settle = true; } }
        else { op(cmd, content(c, 16), 16, false); if (!perm && ok) reject(0x80, 4, "protect"); else reject(0x80, perm ? 0x10 : -1, "sequence"); }
        break; }
      case 12: { static const int inv[] = { 0x77, 0x21, 0x2f, 0x37, 0x40, 0x5e, 0x63, 0x7f, 0xff, 0x42 }; op(inv[c.draw(10)], content(c, 4), 4, false); reject(0x80, 0, "invalid"); break; } }
      c.end(); if (!chained) ended = true; }
    c.end(); }
  int a, s; chained = false; for (int i = 0; b.poll(110000, a, s); i++) { c.note("%02x presented %02x", a, s); c.fail("poll", "%02x presented status %02x that nobody owed", a, s); }
  for (int i = 0; i < nd; i++) { Drive &q = D[ids[i]]; dasd_detach(q.d); FILE *f = fopen(q.fn.c_str(), "rb"); Bytes v(TS);
    for (int cy : q.cyls) for (int k = 0; k < HEADS; k++) { fseek(f, 512 + ((long)cy * HEADS + k) * TS, SEEK_SET); if (fread(v.data(), 1, TS, f) != TS) c.fail("file", "pack file cut short"); Track t = parse(v.data()), &w = q.t[cy * 32 + k]; if (!(t == w)) c.fail("pack", "drive %d cylinder %d head %d holds %s expected %s", ids[i], cy, k, show(t).c_str(), show(w).c_str()); }
    for (off_t o = 512, e; (o = lseek(fileno(f), o, SEEK_DATA)) >= 0; o = e) { e = lseek(fileno(f), o, SEEK_HOLE); for (off_t p = o - o % TS; p < e; p += 4096) { int cy = p < 512 ? -1 : (p - 512) / TS / HEADS; if (std::find(q.cyls.begin(), q.cyls.end(), cy) != q.cyls.end()) continue; uint8_t z[4096]; fseek(f, p, SEEK_SET); int n = fread(z, 1, sizeof z, f); for (int j = 0; j < n; j++) if (z[j] && p + j >= 512) { int c2 = (p + j - 512) / TS / HEADS; if (std::find(q.cyls.begin(), q.cyls.end(), c2) == q.cyls.end()) c.fail("pack", "byte written on cylinder %d, never addressed", c2); } } }
    fclose(f); unlink(q.fn.c_str()); }
  c.label(fmt("drives%d", nd)); if (reads && finds) c.nontrivial(h); }
Harness HARNESS = { "C23", nullptr, run, 1, 60, 60 };
