// C26: several scripted devices on the Model 30's channels, a program that issues START, TEST and HALT I/O and TEST
// CHANNEL at random moments with random system masks: every status a channel took from a device reaches the program once.
#include "machines.hpp"
#include "pbt.hpp"
#include <map>
using namespace pbt;
extern "C" {
#include "sdev.h"
void model1052_out(void *, uint16_t) {} void model1052_in(void *, uint16_t *) {} void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) {} void *model1052_init_ctx(uint16_t) { return 0; }
}
uint64_t step_count;
static M30 m; static void init() { m.create(); log_level = 0; m.reset(); }

struct Act { int kind, dev, ccw, buf, n, cmd, mask; std::vector<uint8_t> data; bool split, imm; int reject, end, period, delay0, de_delay; uint64_t t0 = 0, t1 = 0; int at = -1; };
enum { SIO, TIO, HIO, TCH, WINDOW, DELAY };
struct Dev { struct _device dev; struct sdev ctx; int addr; std::vector<std::pair<uint64_t, int>> took; std::vector<int> started; std::map<int, std::vector<int>> got; size_t delivered = 0; };
static std::vector<Act> *acts; static int cur; static uint64_t now;
extern "C" void sdev_command(struct sdev *ctx) {
  Dev *d = (Dev *)ctx->owner; Act a; a.n = 1; a.data = { 0 }; a.split = false; a.reject = a.end = 0; a.period = a.delay0 = a.de_delay = 10; if (cur >= 0 && cur < (int)acts->size() && (*acts)[cur].kind == SIO) a = (*acts)[cur];
  d->started.push_back(cur);
  memset(ctx->buffer, 0, sizeof ctx->buffer); for (size_t i = 0; i < a.data.size(); i++) ctx->buffer[i] = a.data[i];
  ctx->max_data = a.data.size(); ctx->period = a.period; ctx->delay = a.delay0; ctx->de_delay = a.de_delay; ctx->split = a.split; ctx->end_status = a.end; ctx->reject = a.reject; ctx->stopped = 0;
}
extern "C" void sdev_got(struct sdev *ctx, int byte) { Dev *d = (Dev *)ctx->owner; if (d->started.size()) d->got[d->started.back()].push_back(byte & 0xff); }
extern "C" void sdev_accepted(struct sdev *ctx, int status) { if (status) ((Dev *)ctx->owner)->took.push_back({ now, status }); }
static void put(std::vector<uint8_t> &v, uint32_t a, uint32_t w) { for (int i = 0; i < 4; i++) v[a + i] = w >> (24 - 8 * i); }

static void run(Case &c) {
  const uint32_t MS = 65536, LOG = 0x4000, BUF = 0x8000; std::vector<uint8_t> img(MS, 0);
  std::vector<Dev *> D; struct Free { std::vector<Dev *> &d; ~Free() { for (auto p : d) delete p; } } fr{ D };
  int nd = 1 + c.draw(4);
  for (int i = 0; i < nd; i++) { int ch = c.draw(3), ad = ch ? c.draw(256) : c.draw(16), a = ch << 8 | ad; bool dup = false; for (auto p : D) if (p->addr == a) dup = true; if (dup) continue; Dev *p = new Dev; memset(&p->dev, 0, sizeof p->dev); memset(&p->ctx, 0, sizeof p->ctx); p->addr = a; p->dev.bus_func = &sdev_dev; p->dev.dev = &p->ctx; p->dev.addr = ad; p->ctx.owner = p; p->ctx.burst = ch ? 1 : (int)c.draw(2); p->ctx.burst_max = 256; p->ctx.state = STATE_IDLE; D.push_back(p); }
  auto find = [&](int a) -> Dev * { for (auto p : D) if (p->addr == a) return p; return nullptr; };
  std::vector<Act> A; int na = 2 + c.draw(4 + c.size() / 4); uint64_t h = mix(nd, 0);
  for (int i = 0; i < na; i++) { c.begin(); Act a{}; a.kind = c.weighted({ 6, 3, 2, 1, 4, 4 });
    a.dev = c.chance(1, 10) ? (c.draw(4) << 8 | c.draw(c.coin() ? 256 : 16)) : D[c.draw(D.size())]->addr; if (!find(a.dev) && a.dev < 0x100) a.dev &= 15;
    if (a.kind == HIO && (a.dev >> 8) && (a.dev >> 8) < 3) a.kind = TIO; // see DESIGN.md
    if (a.kind == WINDOW) a.mask = c.chance(1, 3) ? 7 : c.draw(8); if (a.kind == WINDOW || a.kind == DELAY) a.n = 1 + c.draw(c.chance(1, 3) ? 200 : 20);
    if (a.kind == SIO) { int k = c.draw(6); a.cmd = k < 2 ? 2 : k < 4 ? 1 : k == 4 ? 3 : 7; a.imm = (a.cmd & 3) == 3; a.n = 1 + c.draw(20); int L = c.chance(2, 3) ? a.n : 1 + c.draw(24); for (int j = 0; j < L; j++) a.data.push_back(c.u8()); a.split = c.chance(1, 2); if (c.chance(1, 12)) a.reject = 0x0e; if (c.chance(1, 10)) a.end = c.coin() ? 1 : 2; a.period = 20 + c.draw(200); a.delay0 = 60 + c.draw(400); a.de_delay = 100 + c.draw(4000); }
    a.at = i; h = mix(h, a.kind * 4096 + a.dev); A.push_back(a); c.end(); }
  std::vector<std::pair<int, int>> att; for (int i = c.chance(1, 2) ? c.draw(4) : 0; i > 0; i--) att.push_back({ (int)c.draw(40000), (int)c.draw(D.size()) });
  // --- storage ---------------------------------------------------------------
  put(img, 0x58, 0x00020000); put(img, 0x5c, 0x58); put(img, 0x60, 0x00020000); put(img, 0x64, 0x60); put(img, 0x68, 0x00020000); put(img, 0x6c, 0x68); put(img, 0x70, 0x00020000); put(img, 0x74, 0x70);
  put(img, 0x78, 0); put(img, 0x7c, 0x200); for (int i = 0; i < 8; i += 4) { put(img, 0x40 + i, 0xaaaaaaaa); put(img, 0x2e8 + i, 0xaaaaaaaa); }
  uint32_t pc = 0x200; auto e = [&](std::initializer_list<int> v) { for (int b : v) img[pc++] = b; };
  e({ 0xd2, 7, 0x60, 0, 0, 0x38, 0xd2, 7, 0x60, 8, 0, 0x40, 0xd2, 7, 0, 0x40, 2, 0xe8, 0x41, 0x66, 0, 16, 0x82, 0, 0, 0x38 });
  for (int i = 0; i < 8; i++) img[0xc00 + i] = i << 5; pc = 0x1000;
  for (auto &a : A) { int i = a.at; put(img, 0x900 + 4 * i, 0xee000000 | i);
    auto delay = [&] { e({ 0x41, 0x70, a.n >> 8, a.n & 255, 0x05, 0x30, 0x46, 0x70, 0x30, 0 }); };
    if (a.kind == DELAY) { delay(); continue; } if (a.kind == WINDOW) { e({ 0x80, 0, 0x0c, a.mask }); delay(); e({ 0x80, 0, 0x0c, 0 }); continue; }
    a.ccw = 0x3000 + 16 * i; a.buf = BUF + 64 * i; if (a.kind == SIO) { put(img, a.ccw, a.cmd << 24 | a.buf); put(img, a.ccw + 4, 0x20000000 | a.n); put(img, 0x600 + 4 * i, a.ccw); for (int j = 0; j < 64; j++) img[a.buf + j] = a.cmd == 1 ? mix(i, j) : 0x5a; e({ 0xd2, 3, 0, 0x48, 6 + (4 * i >> 8), 4 * i & 255 }); }
    e({ 0x58, 0x20, 9 + (4 * i >> 8), 4 * i & 255 }); e({ a.kind == SIO ? 0x9c : a.kind == TIO ? 0x9d : a.kind == HIO ? 0x9e : 0x9f, 0, a.dev >> 8, a.dev & 255 });
    e({ 0x05, 0x10, 0x50, 0x10, 0x60, 0, 0x50, 0x20, 0x60, 4, 0xd2, 7, 0x60, 8, 0, 0x40, 0xd2, 7, 0, 0x40, 2, 0xe8, 0x41, 0x66, 0, 16, 0x41, 0x20, 0, 0 }); }
  put(img, 0x2f8, 0xe0020000); put(img, 0x2fc, pc + 4); e({ 0x82, 0, 2, 0xf8 });
  // --- run -------------------------------------------------------------------
  m.msize = MS; m.reset(); for (uint32_t i = 0; i < MS; i++) M[i] = img[i] | odd_parity[img[i]]; for (uint32_t i = 0; i < MS >> 11; i++) m.key(i, 0);
  for (int i = 0; i < 16; i++) m.gpr(i, 0); m.gpr(6, LOG); for (int i = 0; i < 4; i++) chan[i] = nullptr;
  for (auto p : D) { p->dev.next = chan[p->addr >> 8]; chan[p->addr >> 8] = &p->dev; }
acts = &A; cur = -1; m.start(0x1000); uint64_t cap = 100000 + 40000ull * na, quiet = 0, seen = 0; std::vector<uint64_t> stamp; // time each log entry ended
  struct Was { bool busy; int status; size_t took; int halted; }; std::vector<std::vector<Was>> before(na);
  bool race = false, ado = false, opi = false;
  for (now = 20; now < cap && quiet < 6000; now++) { m.cycle(); { bool A0 = (cpu_2030.MPX_TAGS & CHAN_ADR_OUT) != 0; if (A0 && !ado && opi) race = true; ado = A0; opi = (cpu_2030.MPX_TI & CHAN_OPR_IN) != 0; }
    uint32_t r2 = m.gpr(2), r6 = m.gpr(6); int n = r2 >> 24 == 0xee ? (int)(r2 & 0xffff) : -1; if (n != cur) { cur = n; if (n >= 0 && n < na) { A[n].t0 = now; for (auto p : D) before[n].push_back({ p->ctx.busy != 0, p->ctx.status, p->took.size(), p->ctx.halted }); } } while (stamp.size() < (r6 - LOG) / 16 && stamp.size() < 400) stamp.push_back(now);
    for (auto p : D) { int s = p->ctx.state; if (s == STATE_IDLE || s == STATE_OPR || s == STATE_WAIT_DEVEND) sdev_step(&p->dev); }
    for (auto &q : att) if (q.first >= 0 && (uint64_t)q.first < now) { Dev *p = D[q.second]; if (p->ctx.state == STATE_IDLE && !p->ctx.busy && !p->ctx.status && !p->ctx.cmd && !p->dev.request && !p->dev.stacked) { p->ctx.status = SNS_ATTN; p->dev.request = 1; q.first = -1; } }
    if (m.waiting()) seen = now; bool idle = now - seen < 12; for (auto p : D) if (p->ctx.busy || p->ctx.status || p->ctx.cmd || p->dev.request || p->dev.stacked) idle = false; quiet = idle ? quiet + 1 : 0; }
  for (int i = 0; i < 4; i++) chan[i] = nullptr;
  // --- what happened -----------------------------------------------------------
  static const char *names[] = { "SIO", "TIO", "HIO", "TCH", "window", "delay" }; std::string all; for (auto p : D) all += fmt("device %03x%s; ", p->addr, p->ctx.burst ? " burst" : "");
  int NE = std::min<int>(400, (m.gpr(6) - LOG) / 16); std::vector<std::vector<int>> dl(D.size()); size_t ints = 0, ones = 0;
  c.note("%s", all.c_str()); for (auto &a : A) c.note("%d %s %03x cmd %02x n %d len %d%s rej %02x end %02x mask %d (t %d)", a.at, names[a.kind], a.dev, a.cmd, a.n, (int)a.data.size(), a.split ? " split" : "", a.reject, a.end, a.mask, (int)a.t0);
  for (size_t i = 0; i < D.size(); i++) { std::string s; for (auto &t : D[i]->took) s += fmt("%02x@%d ", t.second, (int)t.first); c.note("device %03x gave %s; state %d busy %d status %02x cmd %02x request %d stacked %d", D[i]->addr, s.c_str(), D[i]->ctx.state, D[i]->ctx.busy, D[i]->ctx.status, D[i]->ctx.cmd, D[i]->dev.request, D[i]->dev.stacked); }
  for (int i = 0; i < NE; i++) { uint32_t w[4]; for (int j = 0; j < 4; j++) w[j] = m.word(LOG + 16 * i + 4 * j); if (w[1] >> 24 == 0xee) c.note("@%d action %d %s %03x cc %d csw %08x %08x", (int)stamp[i], w[1] & 0xffff, names[A[w[1] & 0xffff].kind], A[w[1] & 0xffff].dev, w[0] >> 28 & 3, w[2], w[3]); else c.note("@%d interruption %03x csw %08x %08x psw %08x %08x", (int)stamp[i], w[0] & 0xffff, w[2], w[3], w[0], w[1]); }
  if (quiet < 6000) c.fail(race ? "hang-poll-race" : "hang", "not at rest after %llu cycles", (unsigned long long)now);
  if (m.word(0x28) || m.word(0x20) || m.word(0x30)) c.fail("wrongint", "program, SVC or machine check interruption %08x %08x %08x", m.word(0x28), m.word(0x20), m.word(0x30));
  auto index = [&](int a) { for (size_t i = 0; i < D.size(); i++) if (D[i]->addr == a) return (int)i; return -1; };
  std::vector<int> last(D.size(), -1);           // action whose command the device is running or ran
  for (int i = 0; i < NE; i++) { uint32_t w[4]; for (int j = 0; j < 4; j++) w[j] = m.word(LOG + 16 * i + 4 * j); bool act = w[1] >> 24 == 0xee; int a = act ? A[w[1] & 0xffff].dev : w[0] & 0xffff; int x = index(a), st = w[3] >> 24;
    if (!act) { ints++; if (x < 0) c.fail("intdev", "interruption from %03x, where there is no device", a); if (!(w[0] >> 24 & (0x80 >> (a >> 8)))) c.fail("masked", "interruption from %03x with mask %02x", a, w[0] >> 24); if (!st) c.fail("intstatus", "interruption without unit status"); dl[x].push_back(st); if ((st & 8) && last[x] >= 0 && (w[2] & 0xffffff) != (uint32_t)A[last[x]].ccw + 8) c.fail("cswaddr", "interruption from %03x with command address %06x", a, w[2] & 0xffffff); if ((st & 8) && last[x] >= 0 && !D[x]->ctx.halted && !A[last[x]].imm) { Act &q = A[last[x]]; int want = q.n - std::min<int>(q.n, q.data.size()); if ((int)(w[3] & 0xffff) != want) c.fail("count", "interruption from %03x with count %d, expected %d", a, w[3] & 0xffff, want); } if (w[3] & 0xff0000 & ~0x400000) c.fail("chanstatus", "interruption with channel status %02x", w[3] >> 16 & 255); continue; }
    Act &q = A[w[1] & 0xffff]; int cc = w[0] >> 28 & 3; bool stored = w[2] != 0xaaaaaaaa || w[3] != 0xaaaaaaaa; int ch = a >> 8; auto &bf = before[q.at];
    if (q.kind == TCH) { if (stored) c.fail("tch", "TEST CHANNEL stored a CSW"); if ((cc == 3) != (ch > 2)) c.fail("tch3", "TEST CHANNEL %d set %d", ch, cc); continue; }
    bool still = true, own = true; for (size_t k = 0; k < D.size(); k++) if (D[k]->addr >> 8 == ch) { bool s = !bf[k].busy && !bf[k].status && dl[k].size() == bf[k].took; for (auto &t : D[k]->took) if (t.first >= q.t0 && t.first < stamp[i] && (int)k != x) s = false; if (!s) still = false; if (!s && (int)k == x) own = false; }
    for (auto &t : att) (void)t; if (cc == 1 != stored) c.fail("csw", "%s %03x set %d, CSW %08x %08x", names[q.kind], a, cc, w[2], w[3]); if (cc == 1) ones++;
    if (x < 0) { if (cc != 3 && !(cc == 2 && !still)) c.fail("absent", "%s %03x set %d, there is no such device", names[q.kind], a, cc); continue; }
    if (cc == 3) c.fail("present", "%s %03x set 3", names[q.kind], a);
    int n0 = 0; for (int s : D[x]->started) if (s == q.at) n0++;
    if (q.kind == SIO) { if (n0) last[x] = q.at; if (n0 > 1) c.fail("twice", "SIO %03x started %d commands", a, n0); if (cc == 0 && !n0) c.fail("sio0", "SIO %03x set 0, the device got no command", a); if (cc == 2 && n0) c.fail("sio2", "SIO %03x set 2, the device got the command", a); }
    else if (n0) c.fail("started", "%s %03x started a command", names[q.kind], a);
    if (q.kind == TIO && cc == 0 && (bf[x].busy || bf[x].status || dl[x].size() != bf[x].took)) c.fail("tio0", "TIO %03x set 0, busy %d status %02x, %zu of %zu delivered", a, bf[x].busy, bf[x].status, dl[x].size(), bf[x].took);
    if (still && cc == 2) c.fail("idle2", "%s %03x set 2 on an idle channel", names[q.kind], a);
    if (cc == 1 && st && st != 0x10) dl[x].push_back(st & ~0x10);
    if (still && q.kind == SIO && cc == 1 && !q.imm && !q.reject && st != 0x80 && st != 0x90) c.fail("sio1", "SIO %03x set 1 with status %02x, the device was idle", a, st);
    (void)own; if (w[3] & 0xff0000 & ~0x400000 && cc == 1) c.fail("chanstatus", "%s with channel status %02x", names[q.kind], w[3] >> 16 & 255);
  }
  for (auto &a : A) if (a.kind == SIO) { int x = index(a.dev); bool ran = x >= 0 && std::count(D[x]->started.begin(), D[x]->started.end(), a.at) && !a.reject; int k = std::min<int>(a.n, a.data.size()); bool halted = x >= 0 && D[x]->ctx.halted; int got = 0; if (halted) k = ran ? k : 0;
    for (int j = 0; j < 64; j++) { int v = m.byte(a.buf + j), w = a.cmd == 1 ? img[a.buf + j] : ran && a.cmd == 2 && j < k && !(halted && v == 0x5a) ? a.data[j] : 0x5a; if (v != w) c.fail("storage", "action %d: byte %d of its area is %02x expected %02x", a.at, j, v, w); }
    if (a.cmd == 1 && ran) { auto &g = D[x]->got[a.at]; got = g.size(); if (halted ? got > k + 1 : got != k) c.fail("written", "action %d: device got %d bytes expected %d", a.at, got, k); for (int j = 0; j < std::min(got, k); j++) if (g[j] != img[a.buf + j]) c.fail("written", "action %d: device got %02x as byte %d, expected %02x", a.at, g[j], j, img[a.buf + j]); } }
  for (size_t i = 0; i < D.size(); i++) { std::vector<int> t; for (auto &p : D[i]->took) if (p.second != 0x10) t.push_back(p.second & ~0x10); if (t != dl[i]) { std::string s, g; for (int v : t) s += fmt("%02x ", v); for (int v : dl[i]) g += fmt("%02x ", v); c.fail(t.size() > dl[i].size() ? "lost" : t.size() < dl[i].size() ? "extra" : "status", "device %03x: channel took %s, program saw %s", D[i]->addr, s.c_str(), g.c_str()); } }
  c.label(fmt("devices%d", (int)D.size())); c.label(fmt("ints%d", (int)std::min<size_t>(ints, 9))); if (ints >= 2) c.nontrivial(h);
}
pbt::Harness HARNESS = { "C26", init, run, 1, 20, 40 };
