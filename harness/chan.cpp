// C18/C19: channel programs on the multiplexor and selector channels of both
// processors, run against a scripted device, judged by a model of the channel.
#include "machines.hpp"
#include "pbt.hpp"
using namespace pbt;
extern "C" {
#include "sdev.h"
void model1052_out(void *, uint16_t) {} void model1052_in(void *, uint16_t *) {} void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) {} void *model1052_init_ctx(uint16_t) { return 0; }
}
extern std::string MODE;
uint64_t step_count;
static M30 m30; static M50 m50; static struct CPU_2050 *snap50;
static void init() { m30.create(); m50.create(); log_level = 0; m30.reset(); m50.reset(); snap50 = new CPU_2050(cpu_2050); }

struct Script { int len = 0; std::vector<uint8_t> data; int period, delay0, de_delay; bool split; int end = 0; int reject = 0; };
struct Dev { struct _device dev; struct sdev ctx; std::vector<Script> scripts; std::vector<uint8_t> cmds; std::vector<std::vector<uint8_t>> got; size_t pos = 0; };
extern "C" void sdev_command(struct sdev *ctx) {
  Dev *d = (Dev *)ctx->owner; d->cmds.push_back(ctx->cmd);
  d->got.push_back({});
  Script s; if (d->pos < d->scripts.size()) s = d->scripts[d->pos]; else { s.len = 1; s.data = {0}; s.period = 10; s.delay0 = 10; s.de_delay = 10; s.split = false; }
  d->pos++;
  memset(ctx->buffer, 0, sizeof ctx->buffer); for (size_t i = 0; i < s.data.size(); i++) ctx->buffer[i] = s.data[i];
  ctx->max_data = s.len; ctx->period = s.period; ctx->delay = s.delay0; ctx->de_delay = s.de_delay; ctx->split = s.split; ctx->end_status = s.end; ctx->reject = s.reject; ctx->stopped = 0;
}
extern "C" void sdev_got(struct sdev *ctx, int byte) { Dev *d = (Dev *)ctx->owner; if (d->got.size()) d->got.back().push_back(byte); }
static void put(std::vector<uint8_t> &m, uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) m[a + i] = v >> (24 - 8 * i); }

struct Ccw { int at; uint8_t cmd; uint32_t addr; uint8_t flags; uint16_t count; };
struct Intr { uint32_t csw_hi, csw_lo; uint32_t psw; };

static void run(Case &c) {
  bool sel = MODE[0] == 's', is30 = MODE.find("30") != std::string::npos; Machine &m = is30 ? (Machine &)m30 : (Machine &)m50;
  const uint32_t MS = 16384 << (is30 ? c.draw(3) : 0); int ch = sel ? (int)c.range(1, is30 ? 2 : 3) : 0; int addr = sel ? (int)c.draw(256) : (int)c.draw(is30 ? 16 : 32);
  std::vector<uint8_t> img(MS); uint64_t s = c.draw(1 << 20) * 2654435761u + 1; for (auto &b : img) { s = s * 6364136223846793005ull + 1442695040888963407ull; b = s >> 56; }
  for (int i = 0; i < 0x800; i++) img[i] = 0;
  uint8_t key = 0; std::vector<uint8_t> keys(MS >> 11); if (is30 && c.chance(1, 4)) { key = c.range(1, 15); for (auto &k : keys) k = !sel || c.chance(2, 3) ? key : (int)c.draw(16); }
  auto locked = [&](uint32_t a) { return key && keys[a >> 11] != key; };
  // --- CPU program -----------------------------------------------------
  put(img, 0x48, (uint32_t)key << 28 | 0x500); put(img, 0x40, 0xaaaaaaaa); put(img, 0x44, 0xaaaaaaaa);
  put(img, 0x58, 0x00020000); put(img, 0x5c, 0x58); put(img, 0x60, 0x00020000); put(img, 0x64, 0x60); put(img, 0x68, 0x00020000); put(img, 0x6c, 0x68); put(img, 0x70, 0x00020000); put(img, 0x74, 0x70);
  put(img, 0x78, 0x00040000); put(img, 0x7c, 0x200);            // I/O new PSW -> 200
  uint32_t dev = (uint32_t)ch << 8 | addr;
  // 400: SIO dev; BALR 1,0; ST 1,0x2f0; LPSW 0x2f8
  put(img, 0x400, 0x9c000000 | (dev & 0xfff)); put(img, 0x2e0, 0);
  if (dev > 0xfff) c.discard();
  { uint8_t p[] = { 0x05, 0x10, 0x50, 0x10, 0x02, 0xf0, 0xd2, 7, 2, 0xd0, 0, 0x40, 0xd2, 7, 0, 0x40, 2, 0xe8, 0x82, 0x00, 0x02, 0xf8 }; for (size_t i = 0; i < sizeof p; i++) img[0x404 + i] = p[i]; }
  put(img, 0x2f8, 0xff060000); put(img, 0x2fc, 0x00000460);
  // 200: LM? interruption: MVC 0(8,5),40; MVC 8(8,5),38; MVC 40(8),2e8; LA 5,16(5); LPSW 2f8
  { uint8_t p[] = { 0xd2, 7, 0x50, 0, 0, 0x40, 0xd2, 7, 0x50, 8, 0, 0x38, 0xd2, 7, 0, 0x40, 0x02, 0xe8, 0x41, 0x55, 0, 0x10, 0x82, 0, 2, 0xf8 }; for (size_t i = 0; i < sizeof p; i++) img[0x200 + i] = p[i]; }
  put(img, 0x2e8, 0xaaaaaaaa); put(img, 0x2ec, 0xaaaaaaaa);
  // --- channel program ----------------------------------------------------
  std::vector<Ccw> prog; bool badchain = false, late = false; int pci_sure = 0, pci_max = 0, devst = 0; bool anycount = false, anyil = false; Dev d; memset(&d.dev, 0, sizeof d.dev); memset(&d.ctx, 0, sizeof d.ctx);
  int loc = 0x500; int ncmd = 1 + c.draw(1 + c.size() / 20); std::string listing;
  std::vector<uint8_t> mem = img; bool stop = false; uint32_t end_addr = 0; int end_count = 0; int status = 0, chst = 0; bool two = false; bool first = true; int expect_cc = 0; bool pendde = false; int ilstat = 0;
  std::vector<uint8_t> exp_cmds; std::vector<std::vector<uint8_t>> exp_got; std::vector<int> wr; std::vector<std::pair<uint32_t, uint32_t>> used; bool imm_first = false; int nbytes = 0; uint32_t dc_lo = 1, dc_hi = 0;
  auto place = [&](const Ccw &w) { put(mem, w.at, (uint32_t)w.cmd << 24 | w.addr); put(mem, w.at + 4, (uint32_t)w.flags << 24 | w.count); prog.push_back(w); listing += fmt("%03x:%02x %06x %02x %04x; ", w.at, w.cmd, w.addr, w.flags, w.count); };
  auto nextloc = [&]() { // the next CCW follows, perhaps by way of a transfer in channel
    if (loc > 0x6c0) return; if (c.chance(1, 8) && loc != 0x500) { int to = loc + 8 * (1 + c.draw(3)); place({ loc, (uint8_t)(c.draw(16) << 4 | 8), (uint32_t)to, (uint8_t)0, (uint16_t)0 }); loc = to; } };
  for (int k = 0; k < ncmd && !stop; k++) {
    c.begin();
    nextloc(); if (loc > 0x6c0) { c.end(); c.discard(); }
    bool last = k == ncmd - 1; int kind = c.draw(8); Script sc; uint8_t cmd;
    cmd = kind < 3 ? 0x02 : kind < 5 ? 0x01 : kind == 5 ? 0x0c : kind == 6 ? 0x03 : 0x04; if (c.chance(1, 4) && cmd != 0x0c) cmd |= c.draw(16) << 4;
    bool wri = cmd & 1 && (cmd & 3) != 3, imm = (cmd & 3) == 3, back = (cmd & 15) == 0xc;
    sc.period = c.pick(std::vector<int>{ 100, 20, 60, 200 }) + (int)c.draw(20); sc.delay0 = 100 + c.draw(100); sc.de_delay = 200 + c.draw(1500); sc.split = c.chance(1, 3);
    if (c.chance(1, 10)) sc.end = c.pick(std::vector<int>{ 0x02, 0x01 });
    if (c.chance(1, 25)) sc.reject = 0x0e;
    int bad = is30 && c.chance(1, 12) ? 1 + (int)c.draw(5) : 0;      // this command, or a data chained part, is an invalid CCW
    // segments
    int nseg = imm ? 1 : 1 + (c.chance(1, 3) ? c.range(1, 3) : 0); std::vector<Ccw> segs; int total = 0; int badseg = bad ? (int)c.draw(nseg) : -1; if (!sel && bad) badseg = 0, bad = bad == 5 ? 4 : bad; if (badseg > 0 && bad != 2 && (bad != 5 || MS == 65536)) bad = 2;
    for (int j = 0; j < nseg; j++) {
      if (j) nextloc(); if (loc > 0x6d0) { c.end(); c.discard(); }
      int cnt = c.chance(1, 6) ? c.range(1, 300) : c.range(1, 24); if (nseg > 1 && cnt < 2 && sel) cnt = 2;
      uint32_t a = 0; bool ok = false; for (int t = 0; t < 20 && !ok; t++) { a = 0x800 + c.draw(MS - 0x800 - cnt); ok = true; for (auto &u : used) if (a < u.first + u.second && u.first < a + cnt) ok = false; }
      if (!ok) { c.end(); c.discard(); } used.push_back({ a, cnt });
      uint8_t fl = 0; if (j < nseg - 1) fl |= 0x80; else if (!last) fl |= 0x40; if (c.chance(1, 2)) fl |= 0x20; if (c.chance(1, 10)) fl |= 0x10; if (imm) fl &= ~0x10; if (wri) fl &= ~0x10; if (is30 && c.chance(1, 8)) fl |= 8;
      Ccw w { loc, j ? (uint8_t)c.u8() : cmd, back ? a + cnt - 1 : a, fl, (uint16_t)cnt }; if (j && (w.cmd & 15) == 8) w.cmd ^= 1;
      if (j && !(w.cmd & 15)) w.cmd |= 2;
      if (j == badseg) { if (bad == 1) { w.cmd &= 0xf0; if (c.coin()) w.cmd |= 8, w.addr = (w.addr & ~7) | 4; } else if (bad == 2) w.count = 0; else if (bad == 3) w.flags |= 1 << c.draw(3); else if (w.flags &= ~0x10, bad == 4) w.addr |= 0x010000 << c.draw(8); else w.addr = MS < 65536 ? MS + c.draw(65536 - MS) : 0x10000 + c.draw(1 << 23); listing += "(bad) "; }
      place(w); segs.push_back(w); total += cnt; loc += 8;
    }
    // device length: equal, short or long
    int L = c.chance(3, 5) ? total : c.chance(1, 3) ? total + (int)c.range(1, 9) : (int)c.range(1, total); if (L < 1) L = 1;
    { int b = 0; for (size_t j = 0; j + 1 < segs.size(); j++) { b += segs[j].count; if (L == b) L++; } }     // ending just where data chaining happens is the channel's choice
    sc.len = L; for (int i = 0; i < L; i++) sc.data.push_back(c.u8());
    if (badseg == 0 && (bad < 4 || segs[0].addr > 0xffff)) { // refused before the device is started
      c.end(); stop = true; end_addr = segs[0].at + 8; chst = 0x20; anycount = anyil = true; if (segs[0].flags & 8) pci_max++; if (first) { expect_cc = 1; imm_first = true; status = devst = 0; } two = false; if (!first && pendde) status = 4; badchain = !first; c.label("bad-command"); break; }
    d.scripts.push_back(sc); exp_cmds.push_back(cmd); c.end();
    listing += fmt("(device %d bytes%s%s%s) ", L, sc.split ? " split" : "", sc.end ? fmt(" end %02x", sc.end).c_str() : "", sc.reject ? " reject" : "");
    // --- model -----------------------------------------------------------
    end_addr = segs.back().at + 8;
    if (sc.reject) { two = false; status = sc.reject; chst = 0; end_addr = segs[0].at + 8; end_count = segs[0].count; stop = true; if (first) { expect_cc = 1; imm_first = true; devst = sc.reject; } if (segs[0].flags & 8) pci_max++; wr.push_back(0); exp_got.push_back({}); break; }
    std::vector<uint8_t> got; int il = 0;
    if (imm) { if (segs[0].flags & 8) pci_max++; devst = sc.split ? 8 : 0x0c | sc.end; pendde = sc.split;
      end_count = segs[0].count; il = 0; bool chain = segs[0].flags & 0x40; bool err = sc.end;
      status = 0x0c | sc.end; two = sc.split; if (!sc.split || true) { if (chain && !err) { first = false; exp_got.push_back({}); continue; } }
      if (first && !chain) { expect_cc = 1; imm_first = true; }
      if (first && chain && err) { expect_cc = sc.split ? 0 : 1; imm_first = !sc.split; }
      if (chain && err && sc.split) { status = 4 | sc.end; two = false; }
      stop = true; exp_got.push_back({}); ilstat = sc.split ? 1 : 0; break;
    }
    int n = std::min(L, total), left = n; size_t j = 0; nbytes += n; int off = 0; uint32_t rem = 0;
    bool prot = false, bad2 = false;
    for (j = 0; j < segs.size(); j++) {
      if ((int)j == badseg && (bad < 4 || segs[j].addr > 0xffff)) { bad2 = anycount = anyil = true; if (segs[j].flags & 8) pci_max++; c.label("bad-data-chain"); break; }
      if (segs[j].flags & 8) pci_max++, pci_sure++;
      int k2 = std::min<int>(left, segs[j].count);
      for (int i = 0; i < k2; i++) { uint32_t a = back ? segs[j].addr - i : segs[j].addr + i; if (wri) { if (a >= MS) { bad2 = anycount = anyil = true; c.label("outside"); break; } got.push_back(mem[a]); } else if (!(segs[j].flags & 0x10)) { if (a >= MS) { bad2 = anycount = anyil = true; c.label("outside"); break; } if (locked(a)) { prot = anycount = anyil = true; late = i + 1 == segs[j].count && j + 1 < segs.size(); c.label("protected"); break; } mem[a] = sc.data[off]; } off++; }
      if (prot || bad2) break;
      left -= k2; if (k2 < segs[j].count || j + 1 == segs.size()) { rem = segs[j].count - k2; break; }
    }
    end_addr = segs[j].at + 8; end_count = rem;
    if (prot || bad2) { rem = 1; }
    bool cd = segs[j].flags & 0x80; bool wrong = rem != 0 || L > total; if (wrong && (cd || !(segs[j].flags & 0x20))) il = 1;
    exp_got.push_back(got); first = false;
    bool chain = (segs[j].flags & 0x40) && !cd && !il && !sc.end && !prot && !bad2; status = 0x0c | sc.end; chst = (il ? 0x40 : 0) | (prot ? 0x10 : 0) | (bad2 ? 0x20 : 0); two = sc.split; pendde = sc.split; ilstat = 2;
    if (!chain) stop = true;
  }
  // --- run -------------------------------------------------------------------
  std::vector<uint8_t> start = img; for (int i = 0x500; i < 0x700; i++) start[i] = mem[i];
  m.msize = MS;
  if (is30) { m.reset(); for (uint32_t i = 0; i < MS; i++) M[i] = start[i] | odd_parity[start[i]]; }
  else { m.select(); cpu_2050 = *snap50; START = 0; for (uint32_t i = 0; i < MS; i += 4) M[i >> 2] = (uint32_t)start[i] << 24 | start[i + 1] << 16 | start[i + 2] << 8 | start[i + 3]; }
  for (uint32_t i = 0; i < MS >> 11; i++) m.key(i, keys[i]);
  for (int i = 0; i < 16; i++) m.gpr(i, 0); m.gpr(5, 0x700);
  for (int i = 0; i < 4; i++) chan[i] = nullptr;
  d.dev.bus_func = &sdev_dev; d.dev.dev = &d.ctx; d.dev.addr = sel ? addr : addr; d.ctx.owner = &d; d.ctx.burst = sel ? 1 : (int)c.draw(2); d.ctx.burst_max = 256; d.ctx.state = STATE_IDLE; chan[ch] = &d.dev;
  m.start(0x400); uint64_t cap = 60000 + 3000ull * nbytes + 30000 * (ncmd + 1), quiet = 0, n = 20, seen = 0; bool dd = false;
  size_t np = 0;
  for (; n < cap && quiet < 4000; n++) {
    m.cycle(); dd = !dd; if (is30 || dd) sdev_step(&d.dev);
    if (m.waiting()) seen = n;
    if (n - seen < 12 && !d.ctx.busy && !d.ctx.status && !d.dev.request && !d.dev.stacked && !d.ctx.cmd) quiet++; else quiet = 0;
  }
  chan[ch] = nullptr;
  std::string where = fmt("%s channel %d device %02x%s: ", m.name, ch, addr, d.ctx.burst ? " burst" : "") + listing;
  if (quiet < 4000) c.fail("hang", "%s: no end after %llu cycles (waiting %d busy %d status %02x cmd %02x, interrupts %d)", where.c_str(), (unsigned long long)n, m.waiting(), d.ctx.busy, d.ctx.status, d.ctx.cmd, (int)(m.gpr(5) - 0x700) / 16);
  if (m.word(0x28) || m.word(0x20) || m.word(0x30)) c.fail("wrongint", "%s: program, SVC or machine check interruption %08x %08x %08x", where.c_str(), m.word(0x28), m.word(0x20), m.word(0x30));
  std::vector<Intr> iv; for (uint32_t a = 0x700; a < m.gpr(5) && a < 0x7f0; a += 16) iv.push_back({ m.word(a), m.word(a + 4), m.word(a + 8) });
  int pcis = 0; auto allint = iv; for (size_t i = 0; i < iv.size();) { if ((iv[i].csw_lo >> 16 & 0xff80) == 0x80 && (i + 1 < iv.size() || iv[i].csw_lo >> 16 == 0x80)) { pcis++; iv.erase(iv.begin() + i); } else { if (iv[i].csw_lo & 0x800000) pcis++; i++; } }
  std::string is; for (auto &i : allint) is += fmt("[csw %08x %08x psw %08x] ", i.csw_hi, i.csw_lo, i.psw);
  int cc = m.word(0x2f0) >> 28 & 3;
  std::string ex = fmt("expected cc %d csw %08x %02x%02x%04x%s", expect_cc, end_addr, status, chst, end_count, two ? " split" : "");
  std::string all = where + fmt("=> cc %d ", cc) + is + ex + " commands " + hex(d.cmds.data(), d.cmds.size());
  if (c.verbose()) c.note("%s", all.c_str());
  if (d.cmds != exp_cmds) c.fail("commands", "%s: device saw %s, expected %s", all.c_str(), hex(d.cmds.data(), d.cmds.size()).c_str(), hex(exp_cmds.data(), exp_cmds.size()).c_str());
  if (cc != expect_cc) c.fail("cc", "%s", all.c_str());
  // CSW
  std::vector<Intr> want; size_t k = 0;
  if (expect_cc == 1) {     // stored by START I/O: only the status part
    uint32_t w = m.word(0x2d4); if (pci_max && (w & 0x800000)) pcis++, w &= ~0x800000;
    if (m.word(0x2d0) != 0xaaaaaaaa || w != (uint32_t)(devst << 24 | chst << 16 | 0xaaaa)) c.fail("siocsw", "%s: START I/O stored CSW %08x %08x, expected status %02x%02x alone", all.c_str(), m.word(0x2d0), m.word(0x2d4), devst, chst);
  } else if (m.word(0x2d0) != 0xaaaaaaaa || m.word(0x2d4) != 0xaaaaaaaa) { c.fail("siocsw", "%s: START I/O stored a CSW %08x %08x", all.c_str(), m.word(0x2d0), m.word(0x2d4));
  }
  auto ckintr = [&](const char *what, int st, int cst, bool full) {
    if (k >= iv.size()) c.fail("noint", "%s: no interruption for %s", all.c_str(), what);
    Intr &i = iv[k++];
    if ((i.psw & 0xffff) != dev) c.fail("intdev", "%s: interruption code %04x", all.c_str(), i.psw & 0xffff);
    if (pci_max) i.csw_lo &= ~0x800000; if (anyil && (cst & 0x30)) i.csw_lo |= 0x400000, cst |= 0x40; if (key && (cst & 0x20)) i.csw_lo |= 0x100000, cst |= 0x10; if (badchain && !(i.csw_lo >> 24)) st = 0;
    if (!sel && badchain && (i.csw_lo >> 16 | 0x50) == 0x1070 && (cst & 0x20)) c.fail("quirk-mpx-bad-chain", "%s: the CSW for an invalid chained CCW is not that of the operation", all.c_str());
    if ((i.csw_lo >> 16) != (uint32_t)(st << 8 | cst)) c.fail("status", "%s: %s status", all.c_str(), what);
    if (full && (i.csw_hi & 0xffffff) != end_addr && !(late && (i.csw_hi & 0xffffff) == end_addr + 8)) c.fail("cswaddr", "%s: CSW command address %06x expected %06x", all.c_str(), i.csw_hi & 0xffffff, end_addr);
    if (full && !anycount && (int)(i.csw_lo & 0xffff) != end_count) c.fail("count", "%s: residual count %04x expected %04x", all.c_str(), i.csw_lo & 0xffff, end_count);
    if (full && (i.csw_hi >> 24) != (uint32_t)key << 4) c.fail("cswkey", "%s: CSW key byte %02x", all.c_str(), i.csw_hi >> 24);
  };
  if (imm_first) {
    if (two && d.scripts.size() && !d.scripts[0].reject) ckintr("device end", 0x04 | (d.scripts[0].end), 0, false);
  } else if (!two) ckintr("end", status, chst, true);
  else if (ilstat == 1) { ckintr("channel end", 0x08, chst, true); ckintr("device end", 0x04 | (status & 3), 0, false); }
  else { if (status & 3 || true) ckintr("channel end", status & ~4, chst, true); ckintr("device end", 0x04, 0, false); }
  if (pcis < (pci_sure ? 1 : 0) || pcis > pci_max) c.fail("pci", "%s: %d program controlled interruptions, expected %d to %d", all.c_str(), pcis, pci_sure ? 1 : 0, pci_max);
  if (k != iv.size()) c.fail("extraint", "%s: %d interruptions, expected %d", all.c_str(), (int)iv.size(), (int)k);
  // storage and device data
  for (uint32_t a = 0x500; a < MS; a++) { if (a >= 0x700 && a < 0x800) continue; if (m.byte(a) != mem[a]) { std::string g, w; for (uint32_t q = a; q < a + 12 && q < MS; q++) { g += fmt("%02x", m.byte(q)); w += fmt("%02x", mem[q]); } c.fail("storage", "%s: storage %04x is %s expected %s (was %02x)", all.c_str(), a, g.c_str(), w.c_str(), start[a]); } }
  for (size_t q = 0; q < exp_got.size(); q++) { auto &v = d.got[q], &e = exp_got[q]; if (v != e) c.fail("written", "%s: for command %d the device received %s expected %s", all.c_str(), (int)q + 1, hex(v.data(), v.size()).c_str(), hex(e.data(), e.size()).c_str()); }
  c.label(fmt("cmds%d", (int)exp_cmds.size())); c.label(fmt("status%02x%02x", status, chst));
  if (nbytes >= 2) c.nontrivial(mix(hbytes(exp_cmds.data(), exp_cmds.size()), mix(end_addr, nbytes * 31 + ch)));
}
pbt::Harness HARNESS = { "C18", init, run, 50, 20, 40 };
