// A channel end of the standard I/O interface: selects a device, moves data,
// collects every status. One clock cycle per step, as the emulated channels do.
#pragma once
#include "pbt.hpp"
#include <functional>
extern "C" {
#include "device.h"
#include "event.h"
#include "logger.h"
#include "xlat.h"
extern uint64_t step_count;
extern uint16_t const odd_parity[256];
}
struct Io {
  bool halted = false, hang = false, absent = false, busy = false, wrong = false;   // no end / no such device / short busy / another address answered
  bool badparity = false;
  int init = -1;                       // initial status
  std::vector<uint8_t> data;           // bytes read (or given to the device)
  int moved = 0; bool more = false;    // device asked for more than count
  std::vector<uint8_t> status;         // statuses after the initial one, in order
  std::vector<uint8_t> stacked;        // statuses the channel would not take
  bool lost = false;                   // a status came back without what had been stacked
  bool notbusy = false;                // a busy device did not say so
  int probes = 0, cubusy = 0;          // selections made while it worked, those answered with control unit busy
  bool cut = false;                    // reset while it worked
  int all() const { int s = init < 0 ? 0 : init; for (auto x : status) s |= x; return s; }
  std::string text() const { using namespace pbt; std::string s = hang ? "HANG " : ""; if (absent) s += "absent "; if (busy) s += "busy "; if (wrong) s += "wrong "; if (lost) s += "lost "; if (notbusy) s += "notbusy "; if (stacked.size()) s += "stacked " + hex(stacked.data(), stacked.size()) + " "; if (cut) s += "cut "; if (probes) s += fmt("probes %d ", probes); s += fmt("init %02x status", init & 255); for (auto x : status) s += fmt(" %02x", x); s += fmt(" moved %d%s", moved, more ? " more" : ""); return s; }
};
struct Bus {
  uint16_t tags = CHAN_OPR_OUT, in = 0, out = 0x100, bin = 0x100; bool sel = false; uint64_t cycles = 0, limit = 400000; int slow = 0; int gap = 20; int halt_after = -1, halt_wait = 0;
  std::function<void(int, int)> other; // given status of another device that comes during an operation
  // what the channel does besides taking everything at once; each counts down and is used up
  int stack = 0, hold = 0;             // statuses it stacks (command out instead of service out), cycles suppress out stays up after
  int probe = -1, probe_cmd = 0;       // cycles after channel end when it tries to select the device again, with this command
  bool badcmd = false;                 // command byte with bad parity
  int badbyte = -1;                    // data byte given with bad parity
  int reset_at = -1, reset_since = -1; // bytes moved, or cycles after channel end, when it resets the interface
  void plain() { stack = hold = 0; probe = badbyte = reset_at = reset_since = -1; badcmd = false; }
  std::function<void()> tick;          // runs once a cycle after the devices (disk controllers, operator actions)
  void step() { in &= IN_TAGS; in |= tags; for (device_t *d = chan[0]; d; d = d->next) d->bus_func(d, &in, out, &bin); step_count++; advance(); if (tick) tick(); cycles++; }
  static uint16_t par(uint8_t b) { return b | odd_parity[b]; }
  void idle(int n) { tags = CHAN_OPR_OUT; out = 0x100; while (n-- > 0) step(); }
  bool wait(std::function<bool()> f) { for (uint64_t e = cycles + limit; !f();) { if (cycles > e) return false; step(); } return true; }
  void reset() { tags = 0; in = 0; for (int i = 0; i < 5; i++) step(); tags = CHAN_OPR_OUT; for (int i = 0; i < 5; i++) step(); }
  bool release() { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT | CHAN_SRV_OUT | CHAN_ADR_OUT | CHAN_CMD_OUT); return wait([&] { return !(in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)); }); }
  // initial selection with a command (0 = TEST I/O)
  bool select(uint8_t addr, uint8_t cmd, Io &r, bool chained) {
    if (!chained) tags &= ~CHAN_SUP_OUT;
    for (int i = 0; i < gap; i++) step();
    out = par(addr); tags |= CHAN_ADR_OUT; step(); tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
    bool first = true;
    for (uint64_t e = cycles + limit;;) { step(); if (cycles > e) { r.hang = true; return false; }
      if ((in & CHAN_SEL_IN) && !(in & (CHAN_OPR_IN | CHAN_STA_IN))) { r.absent = true; tags = CHAN_OPR_OUT; step(); step(); return false; }
      if ((in & (CHAN_OPR_IN | CHAN_STA_IN)) == CHAN_STA_IN) { r.busy = true; r.init = bin & 255; if (bin != par(bin)) r.badparity = true; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT | CHAN_ADR_OUT); if (!wait([&] { return !(in & CHAN_STA_IN); })) r.hang = true; return false; }
      if (in & CHAN_OPR_IN) tags &= ~CHAN_ADR_OUT;
      if ((in & (CHAN_ADR_IN | CHAN_OPR_IN)) == (CHAN_ADR_IN | CHAN_OPR_IN)) break; }
    (void)first; tags &= ~CHAN_SUP_OUT;
    if (bin != par(addr)) { r.wrong = true; return false; }
    if (!sel || cmd == 0) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
    out = par(cmd); if (badcmd) out ^= 0x100; badcmd = false; tags |= CHAN_CMD_OUT;
    if (!wait([&] { return !(in & CHAN_ADR_IN); })) { r.hang = true; return false; }
    tags &= ~CHAN_CMD_OUT;
    if (!wait([&] { return (in & CHAN_STA_IN) != 0; })) { r.hang = true; return false; }
    r.init = bin & 255; if (bin != par(bin)) r.badparity = true;
    tags |= CHAN_SRV_OUT; if (!wait([&] { return !(in & (CHAN_STA_IN)); })) { r.hang = true; return false; }
    tags &= ~CHAN_SRV_OUT; out = 0x100; return true;
  }
  bool reselect(uint8_t addr, Io &r) { // answer a request in
    tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; out = 0x100;
    if (!wait([&] { return (in & (CHAN_ADR_IN | CHAN_OPR_IN)) == (CHAN_ADR_IN | CHAN_OPR_IN); })) { r.hang = true; return false; }
    if (bin != par(addr) && other) { // another device has status
      int a = bin & 255; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); tags |= CHAN_CMD_OUT; if (!wait([&] { return !(in & CHAN_ADR_IN); })) { r.hang = true; return false; } tags &= ~CHAN_CMD_OUT;
      if (!wait([&] { return (in & (CHAN_STA_IN | CHAN_SRV_IN)) != 0 || !(in & CHAN_OPR_IN); })) { r.hang = true; return false; }
      int st = (in & CHAN_STA_IN) ? bin & 255 : -1; tags |= CHAN_SRV_OUT; if (!wait([&] { return !(in & (CHAN_STA_IN | CHAN_SRV_IN)); })) { r.hang = true; return false; } tags &= ~CHAN_SRV_OUT; other(a, st); return wait([&] { return !(in & CHAN_OPR_IN); }); }
    if (bin != par(addr)) { r.wrong = true; return false; }
    if (!sel) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
    tags |= CHAN_CMD_OUT; if (!wait([&] { return !(in & CHAN_ADR_IN); })) { r.hang = true; return false; }
    tags &= ~CHAN_CMD_OUT; return true;
  }
  int asked = 0;                       // address that asked for service in wait_any
  // one command, until device end (or an initial status that ends it)
  Io op(uint8_t addr, uint8_t cmd, const std::vector<uint8_t> &give, int count, bool chain = false, bool chained = false) {
    Io r; if (!select(addr, cmd, r, chained)) return r;
    if (cmd == 0 || (r.init & 0xb3) || (r.init & SNS_DEVEND)) { if (chain && !(r.init & 0xb3) && cmd) { tags |= CHAN_SUP_OUT; } if (!release()) r.hang = true; return r; }
    if (r.init & SNS_CHNEND) { if (chain) tags |= CHAN_SUP_OUT; if (!(sel && chain)) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); }
    bool reading = !(cmd & 1); int got = 0; int held = 0, since = r.init & SNS_CHNEND ? 0 : -1;
    for (uint64_t e = cycles + limit;;) {
      if (cycles > e) { r.hang = true; return r; }
      if (halt_after >= 0 && got >= halt_after && !(in & (CHAN_OPR_IN | CHAN_STA_IN)) && !(tags & (CHAN_SEL_OUT | CHAN_HLD_OUT))) { halt_after = -1; r.halted = true;
        for (int i = 0; i < halt_wait; i++) step();
        if (in & CHAN_OPR_IN) { r.hang = true; return r; }
        out = par(addr); tags |= CHAN_ADR_OUT; step(); tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; if (!wait([&] { return (in & (CHAN_STA_IN | CHAN_OPR_IN)) != 0; })) { r.hang = true; return r; }
        if (in & CHAN_OPR_IN) { // finished meanwhile: TEST I/O takes the status instead
          r.halted = false; tags &= ~CHAN_ADR_OUT; if (!wait([&] { return (in & CHAN_ADR_IN) != 0; })) { r.hang = true; return r; }
          tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); out = par(0); tags |= CHAN_CMD_OUT; if (!wait([&] { return !(in & CHAN_ADR_IN); })) { r.hang = true; return r; } tags &= ~CHAN_CMD_OUT; out = 0x100; continue; }
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); if (!wait([&] { return !(in & (CHAN_STA_IN | CHAN_OPR_IN)); })) { r.hang = true; return r; }
        step(); step(); tags &= ~CHAN_ADR_OUT; out = 0x100; step(); e = cycles + limit; continue; }
      if ((reset_at >= 0 && got >= reset_at && since < 0) || (reset_since >= 0 && since >= reset_since)) { reset_at = reset_since = -1; r.cut = true; tags = 0; for (int i = 0; i < 5; i++) step(); if (in) r.wrong = true; tags = CHAN_OPR_OUT; out = 0x100; for (int i = 0; i < 5; i++) step(); return r; }
      if (probe >= 0 && since >= probe && !(in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_REQ_IN)) && !(tags & CHAN_SUP_OUT)) { probe = -1; r.probes++; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); Io q; bool ok = select(addr, probe_cmd, q, false);
        if (q.absent) { step(); step(); if (in & CHAN_REQ_IN) { r.probes--; continue; } } // asked for the channel meanwhile
        if (q.hang || q.absent || q.wrong) { r.hang = q.hang; r.absent = q.absent; r.wrong = q.wrong; return r; }
        if ((q.init & 0x50) == 0x50) r.cubusy++;
        if (!(q.init & 0x10) && !(q.init & SNS_DEVEND)) { r.notbusy = true; r.status.push_back(q.init); return r; }
        if (ok && !release()) { r.hang = true; return r; } if (q.init & SNS_DEVEND) { r.status.push_back(q.init & ~0x10); return r; } e = cycles + limit; continue; }
      if (since >= 0) since++;
      if (!(in & CHAN_OPR_IN)) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT | CHAN_ADR_OUT); if (!sel || !r.stacked.empty()) tags &= ~CHAN_SUP_OUT; step(); if (in & CHAN_REQ_IN) { if (!reselect(addr, r)) return r; } continue; }
      if (in & CHAN_SRV_IN) {
        if (slow) for (int i = 0; i < slow; i++) step();
        if (got == count) { r.more = true; tags |= CHAN_CMD_OUT; }
        else { if (reading) { r.data.push_back(bin & 255); if (bin != par(bin)) r.badparity = true; } else { uint8_t b = got < (int)give.size() ? give[got] : 0; out = par(b); if (got == badbyte) out ^= 0x100, badbyte = -1; r.data.push_back(b); } tags |= CHAN_SRV_OUT; got++; r.moved = got; }
        if (!wait([&] { return !(in & CHAN_SRV_IN); })) { r.hang = true; return r; }
        tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT); out = 0x100; e = cycles + limit; continue;
      }
      if (in & CHAN_STA_IN) {
        uint8_t s = bin & 255; if (bin != par(bin)) r.badparity = true; if ((s & held) != held) r.lost = true;
        if (stack > 0) { stack--; held = s; r.stacked.push_back(s); tags |= CHAN_CMD_OUT; if (hold) tags |= CHAN_SUP_OUT; if (!wait([&] { return !(in & CHAN_STA_IN); })) { r.hang = true; return r; }
          tags &= ~(CHAN_CMD_OUT | CHAN_SEL_OUT | CHAN_HLD_OUT); if (!wait([&] { return !(in & CHAN_OPR_IN); })) { r.hang = true; return r; }
          for (int i = 0; i < hold; i++) { step(); if (in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)) { r.wrong = true; return r; } } tags &= ~CHAN_SUP_OUT; e = cycles + limit; continue; }
        held = 0; r.status.push_back(s); since = 0; tags |= CHAN_SRV_OUT; bool err = (r.all() & 0xb3) != 0; if (chain && !err) tags |= CHAN_SUP_OUT;
        if (!wait([&] { return !(in & CHAN_STA_IN); })) { r.hang = true; return r; }
        tags &= ~CHAN_SRV_OUT;
        if (s & (SNS_DEVEND)) { if (!release()) r.hang = true; return r; }
        if (!(sel && chain && !err)) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); }
        e = cycles + limit; continue;
      }
      step();
    }
  }
  // collect one asynchronous status from any device; false if nobody asks for n cycles
  bool poll(int n, int &addr, int &st) { tags &= ~(CHAN_SUP_OUT);
    for (int i = 0; i < n; i++) { step(); if (!(in & CHAN_REQ_IN)) continue;
      tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; out = 0x100; if (!wait([&] { return (in & (CHAN_ADR_IN | CHAN_OPR_IN)) == (CHAN_ADR_IN | CHAN_OPR_IN); })) { addr = -1; return true; }
      addr = bin & 255; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); tags |= CHAN_CMD_OUT; wait([&] { return !(in & CHAN_ADR_IN); }); tags &= ~CHAN_CMD_OUT;
      if (!wait([&] { return (in & (CHAN_STA_IN | CHAN_SRV_IN)) != 0 || !(in & CHAN_OPR_IN); })) { addr = -1; return true; }
      st = (in & CHAN_STA_IN) ? bin & 255 : -1; tags |= CHAN_SRV_OUT; wait([&] { return !(in & (CHAN_STA_IN | CHAN_SRV_IN)); }); release(); return true; }
    return false; }
  int tio(uint8_t addr, Io &r) { r = Io(); if (!select(addr, 0, r, false)) return r.init; release(); return r.init; }
};
