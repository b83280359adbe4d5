// C24: the 1052 console on the channel, with a telnet terminal on the other side.
// The console thread is stepped one turn of its loop at a time, so that histories are repeatable.
#include "bus.hpp"
#include <pthread.h>
#include <deque>
#include <sys/select.h>
using namespace pbt;
typedef std::string Str;
extern "C" {
#include "sdlstub/SDL.h"
#include "model1052.h"
uint64_t step_count;
}
struct Term { pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; pthread_t th; int (*fn)(void *); void *arg; bool go = false, parked = false, done = false;
  int fd = 0, next_fd = 60, second_fd = 0; bool connecting = false, hangup = false; Str input, output, second, extra; size_t chunk = 256; bool second_closed = false; } static T;
extern "C" {
static void *entry(void *) { T.fn(T.arg); pthread_mutex_lock(&T.mu); T.done = true; pthread_cond_broadcast(&T.cv); pthread_mutex_unlock(&T.mu); return 0; }
SDL_Thread *SDL_CreateThread(int (*fn)(void *), const char *, void *data) { T.fn = fn; T.arg = data; T.done = T.go = T.parked = false; pthread_create(&T.th, 0, entry, 0); pthread_mutex_lock(&T.mu); while (!T.parked && !T.done) pthread_cond_wait(&T.cv, &T.mu); pthread_mutex_unlock(&T.mu); return (SDL_Thread *)1; }
void SDL_WaitThread(SDL_Thread *, int *) { pthread_mutex_lock(&T.mu); T.go = true; pthread_cond_broadcast(&T.cv); while (!T.done) { T.go = true; pthread_cond_broadcast(&T.cv); pthread_cond_wait(&T.cv, &T.mu); } pthread_mutex_unlock(&T.mu); pthread_join(T.th, 0); }
int term_socket(void) { return 50; }
int term_select(int n, fd_set *r) { pthread_mutex_lock(&T.mu); T.parked = true; pthread_cond_broadcast(&T.cv); while (!T.go) pthread_cond_wait(&T.cv, &T.mu); T.go = false; T.parked = false; pthread_mutex_unlock(&T.mu);
  int k = 0; fd_set w = *r; FD_ZERO(r); if (T.connecting && n > 50 && FD_ISSET(50, &w)) { FD_SET(50, r); k++; } if (T.fd && n > T.fd && FD_ISSET(T.fd, &w) && (T.input.size() || T.hangup)) { FD_SET(T.fd, r); k++; } return k; }
int term_accept(void) { T.connecting = false; int f = ++T.next_fd; if (!T.fd) T.fd = f; else { T.second_fd = f; T.second.clear(); T.second_closed = false; } return f; }
long term_recv(int fd, void *b, size_t n) { if (fd != T.fd) return -1; if (T.input.empty()) return T.hangup ? 0 : -1; n = std::min(std::min(n, T.chunk), T.input.size()); memcpy(b, T.input.data(), n); T.input.erase(0, n); return n; }
long term_send(int fd, const void *b, size_t n) { if (fd && fd == T.fd) T.output.append((const char *)b, n); else if (fd && fd == T.second_fd) T.second.append((const char *)b, n); else T.extra.append((const char *)b, n); return n; }
int term_close(int fd) { if (fd == T.fd) { T.fd = 0; T.hangup = false; } if (fd == T.second_fd) T.second_closed = true; return 0; }
}
static void turn() { pthread_mutex_lock(&T.mu); if (T.done) { pthread_mutex_unlock(&T.mu); return; } T.go = true; T.parked = false; pthread_cond_broadcast(&T.cv); while (!T.parked && !T.done) pthread_cond_wait(&T.cv, &T.mu); pthread_mutex_unlock(&T.mu); }
// what the keys mean: telnet commands removed
struct Telnet { int st = 0; Str feed(uint8_t t) { // 0 data, 1 IAC, 2 option, 3 sub, 4 sub IAC
    switch (st) { case 0: if (t == 255) { st = 1; return ""; } return Str(1, t);
    case 1: st = 0; if (t == 255) return Str(1, t); if (t >= 251 && t <= 254) st = 2; else if (t == 250) st = 3; return "";
    case 2: st = 0; return "";
    case 3: if (t == 255) st = 4; return "";
    case 4: st = t == 240 ? 0 : 3; return ""; } return ""; } };
static const char *plain = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .<(+|&!$*);-/,%_>?:#@'=\"";
static int e_of(uint8_t a) { // code page 37 for the graphics every EBCDIC code page of the time agrees on
  if (a >= '0' && a <= '9') return 0xf0 + a - '0'; if (a >= 'A' && a <= 'I') return 0xc1 + a - 'A'; if (a >= 'J' && a <= 'R') return 0xd1 + a - 'J'; if (a >= 'S' && a <= 'Z') return 0xe2 + a - 'S';
  if (a >= 'a' && a <= 'i') return 0x81 + a - 'a'; if (a >= 'j' && a <= 'r') return 0x91 + a - 'j'; if (a >= 's' && a <= 'z') return 0xa2 + a - 's';
  static const char *g = " .<(+|&!$*);-/,%_>?:#@'=\""; static const uint8_t v[] = { 0x40, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f };
  const char *p = a ? strchr(g, a) : 0; return p ? v[p - g] : -1; }
static int a_of(uint8_t e) { for (const char *p = plain; *p; p++) if (e_of(*p) == e) return (uint8_t)*p; return ebcdic_to_ascii[e]; }
static Str show(const Str &s) { Str o; for (uint8_t ch : s) o += ch >= 32 && ch < 127 ? Str(1, ch) : fmt("<%02x>", ch); return o; }
struct Sched { uint64_t at; Str bytes; };
static void run(Case &c) {
  while (chan[0]) del_chan(chan[0], chan[0]->addr);
  init_event(); log_level = 0; T.fd = 0; T.second_fd = 0; T.connecting = T.hangup = false; T.input.clear(); T.output.clear(); T.second.clear(); T.extra.clear(); T.chunk = 256;
  int addr = c.range(1, 255); struct _option o; memset(&o, 0, sizeof o); device_t *d = model1052_init(0, addr); if (!d) c.fail("init", "no device");
  Bus b; b.sel = c.coin(); b.limit = 900000; uint64_t h = 9, every = 1000 + c.draw(5000); std::deque<Sched> plan; Telnet tn; Str keys, want_out; bool attn = false, maybe = false; int lines = 0, prints = 0;
  uint64_t attn_at = 0; bool reading = false; // as the operator sees it: keyboard unlocked
  Str line; int ending = 0; Str typed_log; // accepted characters of this read
  auto deliver = [&](const Str &s) { T.input += s; for (uint8_t t : s) for (char k : tn.feed(t)) { if (k == '\f') continue; if (k == 27) { attn = true; attn_at = b.cycles; continue; } if (!reading || ending) continue; if (k == 3) ending = 3; else if (k == '\r') ending = 13; else line += k; } };
  uint64_t nextturn = 0; bool other_attn = false; (void)other_attn; int st_other = 0;
  b.tick = [&] { while (plan.size() && plan.front().at <= b.cycles) { deliver(plan.front().bytes); plan.pop_front(); while (T.input.size()) turn(); } if (b.cycles >= nextturn) { nextturn = b.cycles + every; turn(); } };
  auto pass = [&](int n) { b.idle(n); };
  b.reset(); T.connecting = true; pass(every + 10); if (T.output.size() != 15) c.fail("connect", "greeting was %s", show(T.output).c_str()); T.output.clear();
  auto drain = [&] { for (int i = 0; i < 4; i++) turn(); };
  auto text = [&](int n) { Str s; while (n-- > 0) s += c.chance(1, 40) ? (char)c.pick(std::vector<int>{ 9, 8, 10, 1, 127, 200, 128, '^', '[', '~', '{' }) : plain[c.draw(strlen(plain))]; return s; };
  auto tel = [&]() -> Str { switch (c.draw(6)) { case 0: return Str("\xff") + (char)(251 + c.draw(4)) + (char)c.u8(); case 1: return Str("\xff") + (char)(241 + c.draw(9)); case 2: { Str s = "\xff\xfa"; s += (char)24; int n = c.draw(6); while (n-- > 0) s += (char)c.range(0, 250); return s + "\xff\xf0"; } case 3: return "\xff\xf3"; case 4: return "\xff\xff"; default: return Str("\xff\xf9"); } };
  auto keysgen = [&](bool endit) { Str s; int n = c.chance(1, 8) ? c.draw(120) : c.draw(12); s = text(n); if (c.chance(1, 4)) s.insert(c.draw(s.size() + 1), tel()); if (c.chance(1, 8)) s.insert(c.draw(s.size() + 1), "\033"); if (c.chance(1, 20)) s.insert(c.draw(s.size() + 1), "\f"); if (endit) { s += c.chance(1, 5) ? "\003" : "\r"; if (c.chance(1, 3)) s += c.coin() ? Str("\n") : text(1 + c.draw(4)); } return s; };
  auto split = [&](Str s, uint64_t at) { while (s.size()) { size_t n = c.chance(1, 2) ? s.size() : 1 + c.draw(s.size()); plan.push_back({ at, s.substr(0, n) }); s.erase(0, n); at += c.draw(20000); } };
  auto took_attn = [&](int st, const char *what) { if (st & 0x80) { if (!attn && !maybe) c.fail("attention", "%s: attention presented, none was requested", what); attn = false; maybe = b.cycles - attn_at < 200; } };
  auto finish = [&] { while (plan.size() && tn.st != 99) { deliver(plan.front().bytes); plan.pop_front(); while (T.input.size()) turn(); } };
  b.other = nullptr; (void)st_other; int sense = 0;
  int ops = 2 + c.draw(4 + c.size() / 6);
  auto hangs = [&](const Io &r, const char *w) { if (r.hang || r.absent || r.wrong || r.badparity || r.busy) c.fail("hang", "%s: %s", w, r.text().c_str()); };
  auto settle = [&] { // attention must come by itself
    finish(); drain(); for (int i = 0; i < 3; i++) { int a = 0, st = 0; bool had = attn; if (b.poll(had ? 20000 : 7000, a, st)) { if (a != (d->addr & 255)) c.fail("poll", "address %02x", a); if (st != 0x80) c.fail("attention", "status %02x presented by itself", st); took_attn(st, "poll"); } else if (had) c.fail("attention", "attention not presented"); else break; } };
  auto output = [&](const Str &w, const char *what) { drain(); if (T.output != w) c.fail("terminal", "%s: terminal got '%s' expected '%s'", what, show(T.output).c_str(), show(w).c_str()); T.output.clear(); if (T.extra.size()) c.fail("stray", "data sent to a closed connection"); };
  for (int i = 0; i < ops; i++) { c.begin(); int k = c.weighted({ 6, 6, 1, 1, 1, 1, 2, 1, 1 }); h = mix(h, k); T.chunk = c.coin() ? 256 : 1 + c.draw(9);
    switch (k) {
    case 0: { int count = c.chance(2, 3) ? 255 : c.range(1, 20); line.clear(); ending = 0; reading = true; bool halt = c.chance(1, 10) && !b.sel, before = attn;
      uint64_t at = b.cycles + 60 + c.draw(15000); int segs = c.draw(3); Str all; while (segs-- > 0) all += keysgen(false); all += keysgen(true);
      auto ends = [&] { Telnet t2 = tn; for (auto &p : plan) for (uint8_t t : p.bytes) t2.feed(t); for (uint8_t t : all) for (char q : t2.feed(t)) if (q == 3 || q == '\r') return true; return false; }; if (!ends()) all += "\xff\xf0"; while (!ends()) all += "\r"; // a piece may have broken a telnet command in two
      split(all, at); if (halt) { b.halt_after = c.draw(6); b.halt_wait = c.draw(9000); }
      Io r = b.op(addr, 0x0a, {}, count, c.chance(1, 4)); bool wasatt = (r.init & 0x80) != 0; reading = false; halt = r.halted; b.halt_after = -1;
      Str got = line; int end = ending; c.note("read count %d, typed '%s'%s: %s", count, show(all).c_str(), r.halted ? " (halted)" : "", r.text().c_str()); hangs(r, "read");
      if (wasatt) { if (!before) c.fail("attention", "read: attention presented, none was requested"); if (r.init != 0x90) c.fail("initstatus", "read with attention pending: initial status %02x", r.init); attn = false; for (auto &p : plan) for (char q : p.bytes) if (q == 27) (void)q; finish(); output("", "refused read"); sense = sense; break; }
      if (r.init) c.fail("initstatus", "read: initial status %02x", r.init);
      sense = 0; int s = r.all(); if (s & 0x80) { took_attn(s, "read"); s &= 0x7f; }
      for (size_t q = 0; q < r.data.size(); q++) { if (q >= got.size()) c.fail("input", "read gave %zu characters, only %zu typed", r.data.size(), got.size()); int w = e_of(got[q]); if (w < 0) w = (uint8_t)got[q] < 128 ? ascii_to_ebcdic[(uint8_t)got[q]] : -1; if (w >= 0 && r.data[q] != w) c.fail("input", "character %zu of '%s' read as %02x", q, show(got).c_str(), r.data[q]); }
      bool whole = !halt && !r.more; if (whole && r.data.size() != got.size()) c.fail("input", "read gave %zu of %zu characters '%s'", r.data.size(), got.size(), show(got).c_str());
      if (r.more && (int)got.size() <= count) c.fail("input", "more than the %zu characters typed were offered", got.size());
      int ws = 0x0c | (whole && end == 3 ? 1 : 0); if (halt && end == 3 && s == 0x0d && r.data.size() == got.size()) ws = s; /* the cancel key came first */ if (s != ws) c.fail("status", "read ended %s, expected %02x", r.text().c_str(), ws);
      if (whole && !end) c.fail("early", "read ended before the line did");
      finish(); drain(); if (whole) output(got + "\r\n", "read"); else { Str o = T.output; T.output.clear(); bool crlf = o.size() >= 2 && o.substr(o.size() - 2) == "\r\n"; if (crlf) o.resize(o.size() - 2); if (got.compare(0, o.size(), o) || o.size() < r.data.size()) { Str o2 = o; c.fail("terminal", "read cut short after %zu: terminal got '%s' of '%s'", r.data.size(), show(o2).c_str(), show(got).c_str()); } }
      lines++; h = mix(h, got.size()); break; }
    case 1: { bool acr = c.coin(), before = attn; int n = c.range(1, c.chance(1, 5) ? 60 : 12); std::vector<uint8_t> give; Str w; for (int q = 0; q < n; q++) { int e = c.chance(1, 10) ? c.u8() : e_of(plain[c.draw(strlen(plain))]); give.push_back(e); w += (char)a_of(e); if (a_of(e) == '\r') w += '\n'; }
      if (c.chance(1, 3)) split(keysgen(c.coin()), b.cycles + c.draw(8000 * n)); bool halt = c.chance(1, 8) && !b.sel; if (halt) { b.halt_after = c.draw(n); b.halt_wait = c.draw(9000); }
      Io r = b.op(addr, acr ? 9 : 1, give, n, c.chance(1, 4)); b.halt_after = -1; c.note("write%s %s%s: %s", acr ? " acr" : "", hex(give.data(), n).c_str(), r.halted ? " (halted)" : "", r.text().c_str()); hangs(r, "write");
      if (r.init & 0x80) { if (!before) c.fail("attention", "write: attention presented, none was requested"); if (r.init != 0x90) c.fail("initstatus", "write with attention pending: initial status %02x", r.init); attn = false; finish(); output("", "refused write"); break; }
      if (r.init) c.fail("initstatus", "write: initial status %02x", r.init); sense = 0; int s = r.all(); if (s & 0x80) { took_attn(s, "write"); s &= 0x7f; } if (s != 0x0c) c.fail("status", "write ended %s", r.text().c_str());
      finish(); if (!r.halted) { if (r.moved != n) c.fail("length", "write took %d of %d", r.moved, n); if (acr) w += "\r\n"; output(w, "write"); }
      else { pass(8000); drain(); Str o = T.output; T.output.clear(); w.clear(); Str w1; for (int q = 0; q < r.moved; q++) { w1 = w; w += (char)a_of(give[q]); if (a_of(give[q]) == '\r') w += '\n'; } bool ok = false; for (auto &x : { w, w1 }) for (auto &y : { Str(""), Str(acr ? "\r\n" : "") }) if (o == x + y) ok = true; if (!ok) c.fail("terminal", "halted write: terminal got '%s' of '%s'", show(o).c_str(), show(w).c_str()); }
      prints++; h = mix(h, n); break; }
    case 2: { bool before = attn; Io r = b.op(addr, 4, {}, 1); c.note("sense: %s %s", hex(r.data.data(), r.data.size()).c_str(), r.text().c_str()); hangs(r, "sense"); if (r.init & 0x80) { if (!before || r.init != 0x90) c.fail("attention", "sense: initial status %02x", r.init); attn = false; break; } int s = r.all(); if (s & 0x80) { took_attn(s, "sense"); s &= 0x7f; } if (r.init || s != 0x0c || r.data.size() != 1 || r.data[0] != sense) c.fail("sense", "sense gave %s, %s, expected %02x", hex(r.data.data(), r.data.size()).c_str(), r.text().c_str(), sense); break; }
    case 3: { int cmd = 3; Io r = b.op(addr, cmd, {}, 1); c.note("nop: %s", r.text().c_str()); hangs(r, "nop"); if (r.init & 0x80) { if (!attn || r.init != 0x90) c.fail("attention", "nop: initial status %02x", r.init); attn = false; break; } sense = 0; if (r.init != 0x0c) c.fail("initstatus", "nop: initial status %02x", r.init); break; }
    case 4: { int cmd; do cmd = c.range(1, 255); while (cmd == 1 || cmd == 9 || cmd == 10 || cmd == 3 || cmd == 4); Io r = b.op(addr, cmd, {}, 1); c.note("command %02x: %s", cmd, r.text().c_str()); hangs(r, "invalid"); if (r.init & 0x80) { if (!attn || r.init != 0x90) c.fail("attention", "command %02x: initial status %02x", cmd, r.init); attn = false; break; } sense = 0x80; if (r.init != 0x0e) c.fail("initstatus", "command %02x: initial status %02x", cmd, r.init); break; }
    case 5: { Io r; b.tio(addr, r); c.note("test i/o: %02x", r.init); hangs(r, "test i/o"); if (r.init & 0x80) took_attn(r.init, "test i/o"); else if (attn && 0) c.fail("attention", "test i/o shows none"); if (r.init & 0x7f) c.fail("initstatus", "test i/o gave %02x", r.init); break; }
    case 6: { Str s = keysgen(c.coin()); if (c.coin()) s += "\033"; c.note("typed while locked '%s'", show(s).c_str()); split(s, b.cycles + 1); finish(); if (c.chance(2, 3)) settle(); output("", "locked keyboard"); break; }
    case 7: { c.note("second connection"); T.connecting = true; drain(); if (T.second != "console already connected\n\r") c.fail("second", "second connection got '%s'", show(T.second).c_str()); if (!T.second_closed) c.fail("second", "second connection left open"); output("", "second connection"); break; }
    case 8: { c.note("reconnect"); drain(); T.hangup = true; drain(); if (T.fd) c.fail("hangup", "connection not closed"); pass(c.draw(8000)); T.connecting = true; drain(); if (T.output.size() != 15) c.fail("connect", "greeting was %s", show(T.output).c_str()); T.output.clear(); tn.st = 0; break; } }
    if (c.chance(2, 3)) settle();
    c.end(); }
  settle(); output("", "end");
  model1052_done(d->dev); del_chan(d, d->addr); free(d);
  if (lines && prints) c.nontrivial(h); c.label(b.sel ? "selector" : "multiplexer"); }
Harness HARNESS = { "C24", nullptr, run, 10 };
