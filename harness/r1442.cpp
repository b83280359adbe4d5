// C20: 1442 card read punch on the channel, with an operator.
#include "bus.hpp"
#include "ebcdic_model.hpp"
#include <deque>
#include <set>
#include <tuple>
using namespace pbt;
extern "C" {
#include "card.h"
#include "model1442.h"
uint64_t step_count;
void model1442_draw(struct _device *, void *, int) {} void *model1442_control(struct _device *, int, int, int) { return 0; } void model1442_init_graphics(struct _device *, void *) {} int model1442_create(struct _option *) { return 1; }
}
typedef std::vector<uint16_t> Card;
static std::map<int, int> to_ebcdic;
static void freedeck(struct card_context *x) { if (x->file) fclose(x->file); free(x->images); free(x->file_name); free(x); }
struct Model { std::deque<Card> hop; bool rf = false, pf = false, rdy = false, eof = false, stop = false; Card rdr, pch; int col = 0, stk = 0, sense = 0; std::vector<Card> out[2];
  void feed() { if (hop.empty() && !eof) { sense |= 0x40; rdy = false; return; }
    if (pf) { out[stk].push_back(pch); pf = false; col = 0; }
    if (rf) { pch = rdr; pf = true; rf = false; }
    if (!stop) { if (hop.size()) { rdr = hop.front(); hop.pop_front(); rf = true; } rdy = rf; if (hop.empty() && !eof) rdy = false; } else rdy = false;
    stop = false; if (rdy) sense &= ~0x40; else sense |= 0x40; }
  int feed_status() { int st = 4; if (hop.empty() && eof) { st |= 1; eof = false; feed(); if (sense & ~0x40) st |= 2; return st; } /* the last card stays until the operator runs it out */ feed(); if (sense) st |= 2; return st; } };
static void run(Case &c) {
  if (to_ebcdic.empty()) for (int e = 255; e >= 0; e--) to_ebcdic[model_ebcdic_to_hol(e)] = e;
  while (chan[0]) del_chan(chan[0], chan[0]->addr);
  init_event(); log_level = 0; int addr = c.draw(256); device_t *d = model1442_init(addr); struct _1442_context *x = (struct _1442_context *)d->dev;
  Bus b; b.sel = c.coin(); b.idle(5); Model m; uint64_t h = 3; std::set<std::tuple<int, int, int>> loose; int reads = 0, punches = 0, feeds = 0, ops = 2 + c.draw(4 + c.size() / 4);
  auto sync = [&] { x->hop_cnt = hopper_size(x->feed); };
  auto done = [&] { del_chan(d, addr); freedeck(x->feed); freedeck(x->stack[0]); freedeck(x->stack[1]); free(x); free(d); };
  auto check_out = [&] { for (int s = 0; s < 2; s++) { if (stack_size(x->stack[s]) != (int)m.out[s].size()) c.fail("stackers", "stacker %d holds %d cards, expected %zu", s + 1, stack_size(x->stack[s]), m.out[s].size()); }
    if (hopper_size(x->feed) != (int)m.hop.size()) c.fail("hopper", "hopper holds %d cards, expected %zu", hopper_size(x->feed), m.hop.size()); };
  for (int i = 0; i < ops; i++) { c.begin(); int k = c.weighted({ 3, 1, 1, 1, 7, 4, 3, 2, 1, 1, 1 }); h = mix(h, k);
    if (i == 0) k = 0;
    if (i == 1) k = 2;
    int soft = 0;
    b.plain(); if (c.chance(1, 4)) { b.stack = c.range(1, 3); b.hold = c.coin() ? 0 : c.draw(600); } if (c.chance(1, 4)) { b.probe = c.draw(1500); b.probe_cmd = c.coin() ? 0 : 2; }
    bool spoilt = c.chance(1, 10); int cut = -1; if (!spoilt && c.chance(1, 10)) { if (c.coin()) cut = c.draw(40); else b.reset_since = c.draw(1500); }
    auto bad_end = [&](Io &r) { return r.hang || r.absent || r.wrong || r.badparity || r.lost || r.notbusy; };
    // after a reset while a card moves: the end of that motion still comes
    auto motion = [&](Io &r, const char *what) { bool over = m.stop || m.hop.empty() || hopper_size(x->feed) != (int)m.hop.size(); m.sense = 0; int st = 0, e = m.feed_status(); for (int q = 0; q < 40 && !(st & 4); q++) { int s = 0, a = -1; if (b.poll(100, a, s)) { if (a != addr) c.fail("address", "%s: address %02x", what, a); st |= s; } } c.note("%s: %s, then %02x expected %02x", what, r.text().c_str(), st, e); if (over && !st) { m.sense = 0; return; } if (st != e) c.fail("reset", "%s: reset while the card moved, then status %02x expected %02x", what, st, e); };
    switch (k) {
    case 0: { // load cards
      int n = 1 + c.draw(6); FILE *f = fopen("deck", "wb"); bool blank = c.chance(1, 4); c.note("load %d %scards", n, blank ? "blank " : "");
      for (int j = 0; j < n; j++) { Card k(80, 0); int kind = c.draw(8), lim = c.draw(81); for (int q = 0; q < 80; q++) { if (kind == 0) k[q] = c.chance(1, 20) ? c.draw(4096) : model_ebcdic_to_hol(c.u8()); else if (q < lim) k[q] = model_ebcdic_to_hol(kind < 4 ? 0xc1 + q % 9 : c.u8()); } if (blank) k.assign(80, 0);
        for (auto v : k) { fputc((v & 15) << 4, f); fputc(v >> 4, f); } m.hop.push_back(k); }
      fclose(f); if (blank) blank_deck(x->feed, n); else { x->feed->mode = MODE_BIN; if (read_deck(x->feed, (char *)"deck") != 1) c.fail("load", "deck not read"); } sync(); break; }
    case 1: c.note("end of file key"); x->eof_flag = 1; m.eof = true; break;
    case 2: c.note("feed key"); model1442_feed(x); m.feed(); feeds++; sync(); break;
    case 3: if (c.coin()) { c.note("stop key"); x->stop_flag = 1; m.stop = true; } else { int n = c.draw(3000); c.note("wait %d", n); b.idle(n); } break;
    case 4: case 9: { // read
      bool bad = c.chance(1, 12), s2 = c.coin(); int cmd = bad ? c.pick(std::vector<int>{ 0x42, 0x82, 0x12, 0x0a, 0x62, 0xa2 }) : s2 ? 0x22 : 0x02; int count = c.chance(2, 3) ? 80 : c.range(1, 90); bool chain = c.chance(1, 3), slow = k == 9 && c.coin(), halt = k == 9 && !slow;
      int senses = m.sense; m.sense &= 0x40; std::vector<uint8_t> want; int st = 0; bool fed = false; 
      if (spoilt) { slow = halt = false; b.badcmd = true; m.sense = senses | 0x20; st = 0x0e; } else if (bad) { m.sense |= 0x20 << 2; st = 0x0e; } else { m.stk = s2;
        if (!m.rdy) { m.sense |= 0x40; st = 0x0e; }
        else { for (int q = 0; q < 80 && q < count; q++) { auto it = to_ebcdic.find(m.rdr[q]); if (it == to_ebcdic.end()) { want.push_back(0); m.sense |= 8; } else want.push_back(it->second); } if (count < 80 && !to_ebcdic.count(m.rdr[count])) m.sense |= 8; /* the column offered when the channel says stop was read too */ fed = true; } }
      if (slow || halt) b.plain(); else if (fed && cut >= 0 && cut < std::min(count, 80)) b.reset_at = cut;
      if (fed && (slow || halt)) { // overrun or halted: only the end and what follows are specified
        if (slow) { b.slow = 150 + c.draw(300); } 
        c.note("read %02x count %d%s", cmd, count, slow ? " from a channel too slow" : " halted");
        Io r; if (slow) { r = b.op(addr, cmd, {}, count); b.slow = 0; if (r.hang) c.fail("hang", "read with a slow channel: %s", r.text().c_str()); if (!(r.all() & 2)) c.fail("overrun", "no unit check for an overrun: %s", r.text().c_str());
          if (!(r.all() & 4)) c.fail("noend", "no device end: %s", r.text().c_str()); m.sense |= x->sense & 8; m.sense = (m.sense & ~8) | (x->sense & 8) | 4; int sv = m.sense; (void)sv; int e = m.feed_status(); (void)e; }
        else { int n = c.range(1, 60); b.halt_after = n; b.halt_wait = c.draw(90);
          r = b.op(addr, cmd, {}, 80, chain); b.halt_after = -1; c.note("after %d columns: %s", r.moved, r.text().c_str()); m.sense &= ~8; if (x->sense & 8) m.sense |= 8; bool bad = false; for (int q = 0; q < 80 && q <= r.moved + 1; q++) if (!to_ebcdic.count(m.rdr[q])) bad = true;
          if (!bad && (x->sense & 8)) c.fail("sense", "halted read of good columns left sense %02x", x->sense);
          if (r.hang) c.fail("hang", "halted read: %s", r.text().c_str()); if (r.moved < n || (!r.halted && r.moved != 80)) c.fail("length", "read ended by itself after %d columns", r.moved);
          for (int q = 0; q < r.moved; q++) { auto it = to_ebcdic.find(m.rdr[q]); if (r.data[q] != (it == to_ebcdic.end() ? 0 : it->second)) c.fail("data", "column %d read as %02x", q + 1, r.data[q]); }
          int e = 8 | m.feed_status(); reads++; if (r.all() != e) c.fail("status", "halted read of %d columns ended %s, expected %02x", n, r.text().c_str(), e); }
        break; }
      Io r = b.op(addr, cmd, {}, count, chain);
      if (r.cut) { if (bad_end(r)) c.fail("reset", "read %02x: %s", cmd, r.text().c_str()); want.resize(r.data.size()); if (r.data != want) c.fail("data", "read gave %s expected %s", hex(r.data.data(), r.data.size()).c_str(), hex(want.data(), want.size()).c_str()); if (r.status.empty()) { m.sense = 0; c.note("read %02x: %s", cmd, r.text().c_str()); } else { motion(r, "read"); reads++; } break; }
      if (fed) { int e = 8 | m.feed_status(); st = e; reads++; }
      c.note("read %02x count %d%s: %s expected %02x", cmd, count, chain ? " chained" : "", r.text().c_str(), st);
      if (bad_end(r)) c.fail("hang", "read %02x: %s", cmd, r.text().c_str());
      if (!fed && r.init != st) c.fail("initstatus", "read %02x initial status %02x expected %02x", cmd, r.init, st);
      if (fed && (r.init || r.all() != st)) c.fail("status", "read ended %s, expected %02x", r.text().c_str(), st);
      if (r.data != want) c.fail("data", "read gave %s expected %s", hex(r.data.data(), r.data.size()).c_str(), hex(want.data(), want.size()).c_str());
      if (fed && r.more != (count < 80)) c.fail("length", "count %d: device %s more", count, r.more ? "offered" : "did not offer");
      break; }
    case 5: { // punch
      bool bad = c.chance(1, 12), fd = c.coin(), s2 = c.coin(); int cmd = bad ? c.pick(std::vector<int>{ 0x41, 0x11, 0x09, 0x05, 0x0d, 0xc1 }) : (fd ? 0x81 : 1) | (s2 ? 0x20 : 0); int count = c.chance(1, 3) ? 80 : c.range(1, 80); bool defrej = (cmd & 7) == 5;
      int senses = m.sense; if (!defrej) m.sense &= 0x40; std::vector<uint8_t> give; for (int q = 0; q < count; q++) give.push_back(c.chance(1, 4) ? 0x40 : c.u8());
      int st = 0, init = 0; bool act = false; if (spoilt) { b.badcmd = true; m.sense = senses | 0x20; init = 0x0e; } else if (bad) { m.sense |= 0x80; init = 0x0e; } else { m.stk = s2; if (!m.pf) init = 0x0c | (m.sense ? 2 : 0); else act = true; }
      int room = 80 - m.col, optional = -1; bool hl = c.chance(1, 5); int wrongb = -1; if (hl) { b.plain(); b.badcmd = spoilt; } else if (act) { int mx = std::min(room, count); if (cut >= 0 && cut < mx) b.reset_at = cut; else if (c.chance(1, 8)) { wrongb = c.draw(20); if (wrongb < mx) b.badbyte = wrongb; else wrongb = -1; } } if (hl) { b.halt_after = c.range(1, 60); b.halt_wait = c.draw(120); }
      Io r = b.op(addr, cmd, give, count, c.chance(1, 3)); b.halt_after = -1;
      if (r.cut) { if (bad_end(r)) c.fail("reset", "punch %02x: %s", cmd, r.text().c_str()); // the last byte may or may not have reached the card
        int n = std::min(r.moved, room); for (int q = 0; q < n; q++) { if (q == n - 1 && !r.status.size() && x->pch_col == m.col) break; m.pch[m.col++] |= model_ebcdic_to_hol(give[q]); } if (x->pch_col != m.col && !(r.status.size() && (fd || r.moved < room))) c.fail("haltcol", "reset punch of %d bytes is at column %d, expected %d", n, x->pch_col, m.col);
        if (!r.status.size()) m.sense = 0; else if (fd) { motion(r, "punch"); } else m.sense = 0; c.note("punch %02x: %s", cmd, r.text().c_str()); break; }
      if (wrongb >= 0 && act) { m.sense |= 0x20; st = 0x0e; c.note("punch %02x, byte %d bad: %s", cmd, wrongb, r.text().c_str()); if (bad_end(r)) c.fail("hang", "punch %02x: %s", cmd, r.text().c_str()); for (int q = 0; q < wrongb; q++) m.pch[m.col++] |= model_ebcdic_to_hol(give[q]); if (r.init || r.all() != st || r.moved != wrongb + 1) c.fail("status", "punch with byte %d bad ended %s, expected %02x", wrongb, r.text().c_str(), st); if (x->pch_col != m.col) c.fail("haltcol", "punch with byte %d bad is at column %d, expected %d", wrongb, x->pch_col, m.col); break; }
      if (act && hl && !r.halted && r.moved < std::min(room, count)) r.halted = true;
      if (r.halted) { // the last byte taken may or may not have reached the card
        int n = r.moved; c.note("punch %02x halted after %d bytes: %s", cmd, n, r.text().c_str()); if (r.hang) c.fail("hang", "halted punch: %s", r.text().c_str());
        Card was = m.pch; int c0 = m.col; for (int q = 0; q < n && m.col < 80; q++) { if (q == n - 1 && !fd && x->pch_col == m.col) break; was[m.col++] |= model_ebcdic_to_hol(give[q]); }
        if (!fd) { if (x->pch_col != m.col) c.fail("haltcol", "halted punch of %d bytes from column %d is at column %d", n, c0, x->pch_col); for (int q = 0; q < 80; q++) if (x->pch_card[q] != was[q]) c.fail("haltpunch", "halted punch of %d bytes: column %d holds %03x, expected %03x", n, q + 1, x->pch_card[q], was[q]); }
        Card less = m.pch; for (int q = c0; q < m.col - 1; q++) less[q] |= model_ebcdic_to_hol(give[q - c0]);
        m.pch = was; int z = 8 | (fd ? 0 : 4 | (m.sense ? 2 : 0)); optional = fd ? m.col - 1 : -1; if (fd) { size_t at = m.out[m.stk].size(); z |= m.feed_status(); if (m.out[m.stk].size() == at + 1) loose.insert({ m.stk, (int)at, optional }); else if (m.col > c0 && x->pch_col == m.col - 1) { m.col--; m.pch = less; } }
        punches++; if (r.all() != z) c.fail("status", "halted punch of %d columns ended %s, expected %02x", n, r.text().c_str(), z); break; }
      if (act) { for (int q = 0; q < count && m.col < 80; q++) m.pch[m.col++] |= model_ebcdic_to_hol(give[q]); st = 8; if (fd) { st |= m.feed_status(); } else st |= 4 | (m.sense ? 2 : 0); punches++; }
      c.note("punch %02x count %d: %s expected %02x", cmd, count, r.text().c_str(), act ? st : init);
      if (bad_end(r)) c.fail("hang", "punch %02x: %s", cmd, r.text().c_str());
      if (!act && r.init != init) c.fail("initstatus", "punch %02x initial status %02x expected %02x", cmd, r.init, init);
      if (act && (r.init || r.all() != st)) c.fail("status", "punch ended %s, expected %02x", r.text().c_str(), st);
      if (act && r.moved != std::min(room, count) && !(room == 0 && r.moved == 1)) c.fail("length", "punch of %d columns from column %d took %d bytes", count, 80 - room, r.moved);
      break; }
    case 6: { // feed, select stacker
      bool fd = c.chance(2, 3), bad = c.chance(1, 10), s2 = c.coin(); int cmd = bad ? c.pick(std::vector<int>{ 0x43, 0x0b, 0x13, 0xc3, 0x07, 0x0f }) : (fd ? 0x83 : 3) | (s2 ? 0x20 : 0); bool defrej = (cmd & 7) == 7; int senses = m.sense; if (!defrej) m.sense &= 0x40; int init, st = 0; bool act = false;
      if (spoilt) { b.badcmd = true; m.sense = senses | 0x20; init = 0x0e; } else if (bad) { m.sense |= 0x80; init = 0x0e; } else { m.stk = s2; if (!fd) init = 0x0c; else if (!m.rdy) { m.sense |= 0x40; init = 0x0e; } else { init = 8; act = true; } }
      Io r = b.op(addr, cmd, {}, 1, c.chance(1, 3)); if (r.cut) { motion(r, "feed"); feeds++; break; } if (act) { st = m.feed_status(); feeds++; }
      c.note("control %02x: %s", cmd, r.text().c_str()); if (bad_end(r) || r.moved) c.fail("hang", "control %02x: %s", cmd, r.text().c_str());
      if (!act && r.init != init) c.fail("initstatus", "control %02x initial status %02x expected %02x", cmd, r.init, init);
      if (act && (r.all() & ~8) != st) c.fail("status", "feed ended %s, expected %02x", r.text().c_str(), st);
      break; }
    case 7: { // sense
      int cmd = c.chance(1, 8) ? c.pick(std::vector<int>{ 0x14, 0x0c, 0x84, 0xf4 }) : 4; b.badcmd = spoilt; b.reset_since = -1; Io r = b.op(addr, cmd, {}, 1 + c.draw(3)); c.note("sense %02x: %s", cmd, r.text().c_str()); if (bad_end(r)) c.fail("hang", "sense: %s", r.text().c_str());
      if (spoilt) { m.sense |= 0x20; if (r.init != 0x0e || r.moved) c.fail("initstatus", "sense %02x with bad parity: %s", cmd, r.text().c_str()); break; }
      if (cmd != 4) { m.sense |= 0x80; if (r.init != 0x0e || r.moved) c.fail("initstatus", "sense modifier %02x: %s", cmd, r.text().c_str()); break; }
      if (r.data.size() != 1 || r.data[0] != m.sense) c.fail("sense", "sense %s expected %02x", hex(r.data.data(), r.data.size()).c_str(), m.sense);
      if (r.all() != 0x0c) c.fail("status", "sense ended %s", r.text().c_str()); break; }
    case 8: { Io r; int s = b.tio(addr, r); c.note("test I/O %02x", s); if (r.hang || r.absent || r.wrong || r.busy) c.fail("hang", "test I/O: %s", r.text().c_str()); if (s != 0 && !(s == 2 && m.sense)) c.fail("tio", "test I/O status %02x with sense %02x", s, m.sense); break; }
    case 10: { // start another address, or the unit while it is busy
      int other = addr ^ (1 << c.draw(8)); Io r = b.op(other, 2, {}, 1); c.note("address %02x", other); if (!r.absent) c.fail("address", "unit %02x answered to %02x: %s", addr, other, r.text().c_str()); break; }
    }
    (void)soft; check_out(); c.end(); }
  // at the end everything fed must be in the stackers, in order
  for (int s = 0; s < 2; s++) for (size_t q = 0; q < m.out[s].size(); q++) { uint16_t img[80]; if (read_card(x->stack[s], &img) != 1) c.fail("stackcard", "card %zu missing in stacker %d", q, s + 1); for (int j = 0; j < 80; j++) if (img[j] != m.out[s][q][j] && !(loose.count({ s, (int)q, j }) && (img[j] & ~m.out[s][q][j]) == 0)) c.fail("stackcard", "stacker %d card %zu column %d is %03x, expected %03x", s + 1, q + 1, j + 1, img[j], m.out[s][q][j]); h = mix(h, hbytes(img, 160)); }
  done(); if (reads && (punches || reads > 1) && m.out[0].size() + m.out[1].size() >= 1) c.nontrivial(h);
}
pbt::Harness HARNESS = { "C20", nullptr, run, 100 };
