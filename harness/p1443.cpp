// C21: 1443 printer on a multiplexor channel: lines, spacing, status.
#include "bus.hpp"
#include "ebcdic_model.hpp"
#include <unistd.h>
using namespace pbt;
extern "C" {
#include "model1443.h"
#include "conf.h"
uint64_t step_count;
void model1443_draw(struct _device *, void *, int) {} void *model1443_control(struct _device *, int, int, int) { return 0; } void model1443_init(struct _device *, void *) {}
}
// the two carriage tapes by line (1-66): channel punched
static int tape_channel(bool std1, int line) { static const int l[12] = { 1, 7, 13, 19, 25, 31, 37, 43, 63, 49, 55, 61 }, s[12] = { 1, 7, 13, 19, 25, 31, 37, 43, 49, 55, 61, 63 }; for (int ch = 0; ch < 12; ch++) if ((std1 ? s : l)[ch] == line) return ch + 1; return 0; }
static uint16_t std1_tape[66];
static int to_ascii(uint8_t e) { for (const char *p = COMMON; *p; p++) if (model_ascii_to_ebcdic(*p) == e) return *p; return e < 0x40 ? '.' : -1; }
struct Model { std::string out; int row = 0, sense = 0; bool ready = false, std1 = false; bool ch9, ch12;
  void lf() { out += "\r\n"; if (++row == 66) { out += "\f"; row = 0; } }
  bool valid(int cmd) { int m = cmd >> 3 & 15; return cmd & 0x80 ? m >= 1 && m <= 12 : m <= 3; }
  int move(int cmd) { ch9 = ch12 = false; int m = cmd >> 3 & 15; int n = 0;
    if (!(cmd & 0x80)) while (m--) { int ch = tape_channel(std1, row + 1); if (ch == 9) ch9 = true; if (ch == 12) ch12 = true; lf(); n++; }
    else do { lf(); n++; } while (tape_channel(std1, row + 1) != m);
    return n; } };
static void run(Case &c) {
  for (int i = 0; i < 66; i++) { int ch = tape_channel(true, i + 1); std1_tape[i] = ch ? 0x1000 >> ch : 0; }
  while (chan[0]) del_chan(chan[0], chan[0]->addr); init_event(); log_level = 0; Bus b; b.reset();
  int addr = c.draw(256); char line[64]; snprintf(line, sizeof line, "1443 %03X file=\"print.out\" start", addr); unlink("print.out");
  if (load_line(line) != 1 || !chan[0]) c.fail("create", "printer not created by '%s'", line);
  struct _device *d = chan[0]; struct _1443_context *x = (struct _1443_context *)d->dev; if (!x->ready || !x->file) c.fail("create", "created printer not started");
  Model m; m.ready = true; m.std1 = c.chance(1, 3);
  // the carriage tape a created printer has, or the standard one; a copy on the heap so that running off either end is seen
  uint16_t *fcb = (uint16_t *)malloc(sizeof std1_tape); memcpy(fcb, m.std1 ? std1_tape : x->fcb, sizeof std1_tape); x->fcb = fcb;
  x->row = m.row = c.chance(1, 3) ? c.draw(66) : 0; b.idle(5);
  c.note("unit %02x, %s tape, line %d", addr, m.std1 ? "standard" : "legacy", m.row + 1);
  int ops = 2 + c.draw(3 + c.size() / 6), lines = 0, moves = 0; uint64_t h = m.row;
  std::vector<uint8_t> good; for (const char *p = COMMON; *p; p++) good.push_back(model_ascii_to_ebcdic(*p));
  bool chained = false;
  for (int i = 0; i < ops; i++) { c.begin(); int k = c.weighted({ 8, 4, 2, 2, 1, 1, 1 }); h = mix(h, k); bool chain = false;
    if (c.chance(1, 4)) { b.stack = c.range(1, 3); b.hold = c.coin() ? 0 : c.draw(600); }
    if (c.chance(1, 4)) { b.probe = c.draw(4000); b.probe_cmd = c.coin() ? 0 : 1; }
    if (c.chance(1, 10)) b.badcmd = true; else if (c.chance(1, 10)) b.badbyte = c.draw(30); else if (c.chance(1, 10)) b.reset_at = c.draw(30); else if (c.chance(1, 10)) b.reset_since = c.draw(3000); bool spoilt = b.badcmd; int breaks = b.badbyte, cut = b.reset_at;
    auto bad = [&](Io &r) { return r.hang || r.absent || r.wrong || r.badparity || r.busy || r.lost || r.notbusy; };
    switch (k) {
    case 0: case 1: { bool inv = c.chance(1, 10); int cmd; do cmd = (c.chance(1, 3) ? 0x80 | c.range(inv ? 0 : 1, inv ? 15 : 12) << 3 : c.draw(inv ? 16 : 4) << 3) | (k ? 3 : 1); while (!inv && !m.valid(cmd));
      int count = c.weighted({ 3, 1, 1 }) == 0 ? c.range(1, 132) : c.coin() ? 120 : c.range(1, 12); std::vector<uint8_t> give; int style = c.draw(4);
      for (int q = 0; q < count; q++) give.push_back(style == 0 ? c.pick(good) : style == 1 ? (q < 60 ? c.pick(good) : 0x40) : style == 2 ? 0x40 : c.chance(1, 10) ? c.draw(0x40) : c.pick(good));
      int line = m.row + 1; if (breaks >= count || breaks >= 120 || k) breaks = b.badbyte = -1; if (cut >= count || cut >= 120 || k) cut = b.reset_at = -1; Io r = b.op(addr, cmd, k ? std::vector<uint8_t>() : give, count, chain = c.chance(1, 3), chained); h = mix(h, cmd);
      int st, init = 0;
      if (r.cut && bad(r)) c.fail("reset", "command %02x: %s", cmd, r.text().c_str());
      if (!m.ready) { m.sense = 0x40; init = st = 0x0e; }
      else if (spoilt) { m.sense |= 0x20; init = st = 0x0e; }
      else if (breaks >= 0 && m.valid(cmd)) { m.sense = 0x20; st = 0x0e; if (r.moved != breaks + 1 || r.more) c.fail("length", "line of %d with a bad byte at %d: %s", count, breaks, r.text().c_str()); count = breaks = -2; }
      else if (r.cut && cut >= 0) { m.sense = 0; c.note("print %02x: %s", cmd, r.text().c_str()); if (x->row != m.row) c.fail("reset", "the paper moved for a line that was never finished"); break; }
      else if (!m.valid(cmd)) { m.sense = 0x80; init = st = 0x0e; }
      else { m.sense = 0; st = 0x0c; if (!k) { std::string t; for (int q = 0; q < count && q < 120; q++) t += (char)to_ascii(give[q]); bool data = !t.empty(); while (t.size() > 1 && t.back() == ' ') t.pop_back(); (void)data; m.out += t; lines++; }
        m.move(cmd); moves++; if (!k && m.ch9) m.sense |= 1; if (!k && m.ch12) st |= 1; if (m.sense) st |= 2; if (k) init = 8; }
      c.note("%s %02x from line %d count %d: %s expected %02x", k ? "carriage" : "print", cmd, line, count, r.text().c_str(), st);
      if (bad(r)) c.fail("hang", "command %02x: %s", cmd, r.text().c_str());
      if (r.cut) { m.sense = 0; if (x->row != m.row) c.fail("row", "command %02x from line %d ended on line %d, expected %d", cmd, line, x->row + 1, m.row + 1); break; }
      if (r.init != init) c.fail("initstatus", "command %02x: initial status %02x expected %02x", cmd, r.init, init);
      if (r.cubusy) st |= 0x20; if (r.all() != st) c.fail("status", "command %02x from line %d: %s expected %02x", cmd, line, r.text().c_str(), st);
      if (!k && init == 0 && count > 0 && (r.moved != std::min(count, 120) || r.more != (count < 120))) c.fail("length", "line of %d: %s", count, r.text().c_str());
      if (k && r.moved) c.fail("length", "carriage command moved data");
      if (x->row != m.row) c.fail("row", "command %02x from line %d ended on line %d, expected %d", cmd, line, x->row + 1, m.row + 1);
      break; }
    case 2: { int cmd = c.chance(1, 8) ? c.pick(std::vector<int>{ 0x14, 0x84, 0xf4 }) : 4; Io r = b.op(addr, cmd, {}, c.range(1, 4), chain = c.chance(1, 3), chained); c.note("sense %02x: %s", cmd, r.text().c_str()); if (bad(r)) c.fail("hang", "sense: %s", r.text().c_str());
      if (!m.ready) { m.sense = 0x40; if (r.init != 0x0e) c.fail("initstatus", "sense unready: %s", r.text().c_str()); break; }
      if (spoilt) { m.sense |= 0x20; if (r.init != 0x0e || r.moved) c.fail("initstatus", "sense with bad parity: %s", r.text().c_str()); break; }
      if (r.cut) { m.sense = 0; break; }
      if (cmd != 4) { m.sense = 0x80; if (r.init != 0x0e || r.moved) c.fail("initstatus", "sense %02x: %s", cmd, r.text().c_str()); break; }
      if (r.data.size() != 1 || r.data[0] != m.sense) c.fail("sense", "sense %s expected %02x", hex(r.data.data(), r.data.size()).c_str(), m.sense);
      if ((r.all() & ~2) != (r.cubusy ? 0x2c : 0x0c) || ((r.all() & 2) && !m.sense)) c.fail("status", "sense ended %s", r.text().c_str());
      break; }
    case 3: { b.plain(); Io r; int s = b.tio(addr, r); c.note("test I/O %02x", s); if (bad(r)) c.fail("hang", "test I/O: %s", r.text().c_str()); if (s != (m.ready ? 0 : 0x0e)) c.fail("tio", "test I/O gave %02x", s); if (!m.ready) m.sense = 0x40; break; }
    case 4: { int cmd = c.pick(std::vector<int>{ 0x02, 0x0a, 0x82, 0x05, 0x06, 0x07, 0x0d, 0x8e, 0xff, 0x17 }); Io r = b.op(addr, cmd, {}, 4); c.note("command %02x: %s", cmd, r.text().c_str()); if (bad(r)) c.fail("hang", "command %02x: %s", cmd, r.text().c_str()); m.sense = !m.ready ? 0x40 : spoilt ? m.sense | 0x20 : 0x80; if (r.init != 0x0e || r.moved) c.fail("initstatus", "command %02x: %s", cmd, r.text().c_str()); break; }
    case 5: m.ready = !m.ready; x->ready = m.ready; c.note("%s", m.ready ? "start" : "stop"); break;
    case 6: { b.plain(); int other = addr ^ (1 << c.draw(8)); Io r = b.op(other, 1, {}, 1); if (!r.absent) c.fail("address", "unit %02x answered to %02x", addr, other); break; }
    }
    b.plain(); chained = false; c.end(); }
  fclose(x->file); std::string got; { FILE *f = fopen("print.out", "rb"); char buf[4096]; size_t n; while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) got.append(buf, n); if (f) fclose(f); unlink("print.out"); }
  if (got != m.out) { size_t q = 0; while (q < got.size() && q < m.out.size() && got[q] == m.out[q]) q++; std::string g = got.substr(q, 40), w = m.out.substr(q, 40); for (auto *t : { &g, &w }) for (auto &ch : *t) if (ch == '\n') ch = '$'; else if (ch == '\r') ch = '~'; else if (ch == '\f') ch = '^'; c.fail("output", "printed %zu bytes, expected %zu; at %zu: '%s' expected '%s'", got.size(), m.out.size(), q, g.c_str(), w.c_str()); }
  del_chan(d, addr); free(d); free(x->file_name); free(x); free(fcb);
  if (lines && moves >= 2) c.nontrivial(mix(h, hbytes(got.data(), got.size())));
}
pbt::Harness HARNESS = { "C21", nullptr, run, 50 };
