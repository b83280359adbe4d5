// C12..C17: instruction execution of the two processors against the
// reference interpreter (and against each other).
#include "machines.hpp"
#include "proggen.hpp"
extern "C" { void model1052_out(void *, uint16_t) {} void model1052_in(void *, uint16_t *) {} void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) {} void *model1052_init_ctx(uint16_t) { return 0; } }
extern std::string MODE;
uint64_t step_count;
static M30 m30; static M50 m50; static struct CPU_2050 *snap50;

static const std::vector<int> FIXED = { 0x04, 0x05, 0x06, 0x07, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f,
  0x40, 0x41, 0x42, 0x43, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4e, 0x4f, 0x50, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f,
  0x86, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98 };
static const std::vector<int> SS = { 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xdc, 0xdd, 0xde, 0xdf, 0xf1, 0xf2, 0xf3 };
static const std::vector<int> DECI = { 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd };
static const std::vector<int> PRIVL = { 0x08, 0x09, 0x80, 0x82 };
static const std::vector<int> STORES = { 0x40, 0x42, 0x4e, 0x50, 0x90, 0x92, 0x93, 0x94, 0x96, 0x97, 0xd1, 0xd2, 0xd3, 0xd4, 0xd6, 0xd7, 0xdc, 0xde, 0xdf, 0xf1, 0xf2, 0xf3, 0xf8, 0xfa, 0xfb, 0xfc, 0xfd, 0x60, 0x70 };
static const std::vector<int> FPL = { 0x20, 0x21, 0x22, 0x23, 0x24, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f,
  0x60, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f };

static void init() {
  m30.create(); m50.create(); log_level = 0;
  m30.reset(); m50.reset(); snap50 = new CPU_2050(cpu_2050);
}
static void load(Machine &m, Gen &g) {
  uint32_t n = g.ref.msize; m.msize = n;
  if (&m == &m50) { m.select(); cpu_2050 = *snap50; START = 0; for (uint32_t i = 0; i < n; i += 4) M[i >> 2] = (uint32_t)g.img[i] << 24 | g.img[i + 1] << 16 | g.img[i + 2] << 8 | g.img[i + 3]; }
  else { m.reset(); for (uint32_t i = 0; i < n; i++) M[i] = g.img[i] | odd_parity[g.img[i]]; }
  for (int i = 0; i < 16; i++) m.gpr(i, g.ir[i]);
  for (int i = 0; i < 4; i++) m.fpr(i, g.iff[i]);
}
struct Out { std::string key, msg; };
static std::string opname(const Ref &r, uint32_t ic) { return fmt("%02x", r.mem[ic]); }

// Runs the program on m and compares the final state with the interpreter.
static void runcmp(Case &c, Machine &m, Gen &g, const uint8_t *keys0, std::string last) {
  // a known departure is reported by the check it belongs to only
  if (g.ref.quirk && !(MODE == "exec50" ? !strcmp(g.ref.quirk, "overflow-lost") : MODE == "err50" ? strstr(g.ref.quirk, "digit") != nullptr : MODE == "fp" ? strstr(g.ref.quirk, "underflow") || strstr(g.ref.quirk, "normalize") : false)) c.discard();
  auto K = [&](const char *p) { return g.ref.quirk ? std::string("quirk-") + g.ref.quirk : std::string(p) + "-" + last; };
  load(m, g); for (uint32_t i = 0; i < g.ref.msize >> 11; i++) m.key(i, keys0[i]);
  if (c.verbose() && getenv("CPU_TRACE")) { log_init((char *)"/tmp/cpu_trace.txt"); setvbuf(log_file, 0, _IOLBF, 0); log_enable = 1; log_level = strtol(getenv("CPU_TRACE"), 0, 16); }
  m.start(0x108); Ref &r = g.ref;
  std::string where = fmt("%s: psw %08x %08x, ", m.name, g.ref.gw(0x110), g.ref.gw(0x114)) + g.listing;
  if (!m.run(60000 + 40000ull * g.nins)) c.fail(K("hang"), "%s does not reach the wait state", where.c_str());
  // interruption
  uint32_t oa = r.svc >= 0 ? 0x20 : 0x28, e_hi = r.psw_hi(), e_lo = r.psw_lo();
  uint32_t g_hi = m.word(oa), g_lo = m.word(oa + 4); int code = g_hi & 0xffff;
  bool svcd = m.word(0x20) || m.word(0x24), prg = m.word(0x28) || m.word(0x2c);
  std::string where2 = where;
  if (r.svc < 0) {
    if (!prg) c.fail(K("noint"), "%s: no program interruption (old SVC psw %08x %08x), expected codes %x", where.c_str(), m.word(0x20), m.word(0x24), r.exc);
    if (code > 15 || !(r.exc >> code & 1)) c.fail(K("code"), "%s: interruption code %d, expected one of %x", where.c_str(), code, r.exc);
  } else {
    if (prg) c.fail(K("int"), "%s: unexpected program interruption %08x %08x", where.c_str(), m.word(0x28), m.word(0x2c));
    if (!svcd) c.fail(K("nosvc"), "%s: program did not reach its end", where.c_str());
    if (code != r.svc) c.fail(K("svccode"), "%s: SVC code %02x expected %02x", where.c_str(), code, r.svc);
  }
  uint32_t hm = 0xffff0000, lm = 0xffffffff;
  if (r.svc < 0) { if (r.dc_cc) lm &= ~0x30000000u; if (r.fetch_err) lm &= ~0xc0ffffffu; }
  if ((g_hi & hm) != (e_hi & hm)) c.fail(K("psw"), "%s: old psw mask/key/amwp %08x expected %08x", where.c_str(), g_hi, e_hi);
  if ((g_lo & lm & 0x30000000) != (e_lo & lm & 0x30000000)) c.fail(K("cc"), "%s: old psw %08x expected %08x", where.c_str(), g_lo, e_lo);
  if ((g_lo & lm) != (e_lo & lm)) c.fail(K("ia"), "%s: old psw %08x expected %08x", where.c_str(), g_lo, e_lo);
  for (int i = 0; i < 16; i++) if (!(r.dc_reg >> i & 1) && m.gpr(i) != r.r[i]) c.fail(K("reg"), "%s: register %d is %08x expected %08x (initially %08x)", where.c_str(), i, m.gpr(i), r.r[i], g.ir[i]);
  for (int i = 0; i < 4; i++) if (!(r.dc_freg >> i & 1) && m.fpr(i) != r.f[i]) c.fail(K("freg"), "%s: floating register %d is %016llx expected %016llx (initially %016llx)", where.c_str(), 2 * i, (unsigned long long)m.fpr(i), (unsigned long long)r.f[i], (unsigned long long)g.iff[i]);
  for (uint32_t a = 0; a < r.msize; a++) {
    if (r.dc_mem[a] || (a >= 0x20 && a < 0x30)) continue;
    if (m.byte(a) != r.mem[a]) c.fail(K("mem"), "%s: storage %06x is %02x expected %02x (initially %02x)%s", where.c_str(), a, m.byte(a), r.mem[a], g.img[a], (" got " + [&] { std::string s; for (uint32_t k = 0; k < 16 && a + k < r.msize; k++) s += fmt("%02x", m.byte(a + k)); s += " want "; for (uint32_t k = 0; k < 16 && a + k < r.msize; k++) s += fmt("%02x", r.mem[a + k]); return s; }()).c_str());
    if (!m.parity_ok(a)) c.fail("parity", "%s: bad parity left at %06x", where.c_str(), a);
  }
  for (int i = 0; i < (int)(r.msize >> 11); i++) if (m.key(i) != r.key[i]) c.fail(K("key"), "%s: storage key %d is %x expected %x", where.c_str(), i, m.key(i), r.key[i]);
  if (c.verbose()) c.note("%s=> %s %08x %08x", where.c_str(), r.svc >= 0 ? "svc" : "program", g_hi, g_lo);
}

// Runs the program on both machines and compares them with each other; the interpreter only
// tells what the architecture leaves open.
struct Final { bool ended; uint32_t old[4]; uint32_t r[16]; std::vector<uint8_t> mem; };
static Final runone(Machine &m, Gen &g, const uint8_t *keys0) {
  Final f; load(m, g); for (uint32_t i = 0; i < g.ref.msize >> 11; i++) m.key(i, keys0[i]);
  m.start(0x108); f.ended = m.run(60000 + 40000ull * g.nins);
  for (int i = 0; i < 4; i++) f.old[i] = m.word(0x20 + 4 * i);
  for (int i = 0; i < 16; i++) f.r[i] = m.gpr(i);
  for (uint32_t a = 0; a < g.ref.msize; a++) f.mem.push_back(m.byte(a));
  return f;
}
static void rundiff(Case &c, Gen &g, const uint8_t *keys0) {
  Ref &r = g.ref; if (r.quirk) c.discard();
  Final a = runone(m30, g, keys0), b = runone(m50, g, keys0);
  std::string w = fmt("psw %08x %08x, ", (unsigned)(g.img[0x110] << 24 | g.img[0x111] << 16 | g.img[0x112] << 8 | g.img[0x113]), (unsigned)(g.img[0x114] << 24 | g.img[0x115] << 16 | g.img[0x116] << 8 | g.img[0x117])) + g.listing;
  if (!a.ended || !b.ended) c.fail("diff-hang", "%s: 2030 %s, 2050 %s", w.c_str(), a.ended ? "ended" : "still running", b.ended ? "ended" : "still running");
  int k = r.svc >= 0 ? 0 : 2; uint32_t lm = 0xffffffff, hm = 0xffffffff;
  if (r.svc < 0) { if (r.exc & (r.exc - 1)) hm = 0xffff0000; if (r.dc_cc) lm &= ~0x30000000u; if (r.fetch_err) lm &= ~0xc0ffffffu; }
  for (int i = 0; i < 4; i++) { uint32_t m = i < k || i > k + 1 ? ~0u : i == k ? hm : lm; if ((a.old[i] & m) != (b.old[i] & m)) c.fail("diff-psw", "%s: old PSW word at %02x: 2030 %08x, 2050 %08x", w.c_str(), 0x20 + 4 * i, a.old[i], b.old[i]); }
  for (int i = 0; i < 16; i++) if (!(r.dc_reg >> i & 1) && a.r[i] != b.r[i]) c.fail("diff-reg", "%s: register %d: 2030 %08x, 2050 %08x", w.c_str(), i, a.r[i], b.r[i]);
  for (uint32_t i = 0x30; i < r.msize; i++) if (!r.dc_mem[i] && a.mem[i] != b.mem[i]) c.fail("diff-mem", "%s: storage %06x: 2030 %02x, 2050 %02x", w.c_str(), i, a.mem[i], b.mem[i]);
}

// Debugging aid: POKE="200=fb2308000900,800=00000d" runs those bytes (code at 200, data below 4096) on the machine.
static void poke(Case &c, Machine &m) {
  Gen g(c, 16384, &m == &m50); g.ref.m50 = g.ref.fp; std::string p = getenv("POKE"); size_t i = 0; const char *am = getenv("AMWP");
  memset(g.img.data() + 0x200, 0, g.img.size() - 0x200); for (int k = 0; k < 16; k++) g.ir[k] = g.ref.r[k] = k * 0x01010101u; for (int k = 0; k < 4; k++) g.iff[k] = g.ref.f[k] = 0;
  while (i < p.size()) { size_t e = p.find(',', i); if (e == std::string::npos) e = p.size(); std::string t = p.substr(i, e - i); i = e + 1; size_t q = t.find('='); std::string l = t.substr(0, q), v = t.substr(q + 1);
    if (l[0] == 'r') g.ir[atoi(l.c_str() + 1)] = g.ref.r[atoi(l.c_str() + 1)] = strtoul(v.c_str(), 0, 16);
    else if (l[0] == 'f') g.iff[atoi(l.c_str() + 1) / 2] = g.ref.f[atoi(l.c_str() + 1) / 2] = strtoull(v.c_str(), 0, 16);
    else { uint32_t a = strtoul(l.c_str(), 0, 16); for (size_t k = 0; k + 1 < v.size(); k += 2) g.img[a + k / 2] = strtoul(v.substr(k, 2).c_str(), 0, 16); } }
  g.ref.mem = g.img; g.psw(0, 0, am ? strtol(am, 0, 16) : 4, 0, getenv("PM") ? strtol(getenv("PM"), 0, 16) : 0, 0x200); uint8_t k0[256] = {0}; g.nins = 40; int n = 0; while (g.ref.step() && n++ < 50) ; g.listing = p;
  c.note("expected codes %x psw %08x %08x%s", g.ref.exc, g.ref.psw_hi(), g.ref.psw_lo(), g.ref.ambiguous ? " ambiguous" : "");
  runcmp(c, m, g, k0, "poke");
}
static void run(Case &c) {
  if (getenv("POKE")) return poke(c, MODE.find("30") != std::string::npos ? (Machine &)m30 : (Machine &)m50);
  bool prot = MODE == "prot30" || MODE == "prot50", diff = MODE == "diff", err = MODE == "err30" || MODE == "err50" || (diff && c.chance(1, 4)), fpm = MODE == "fp";
  Machine &m = MODE.find("30") != std::string::npos ? (Machine &)m30 : (Machine &)m50; bool is30 = diff || &m == &m30;
  uint32_t msize = c.chance(1, 6) ? 65536 : 16384; if (!is30 && c.chance(1, 60)) msize = 524288;
  Gen g(c, msize, !is30); g.want_ex = true; g.ref.m50 = !is30 || diff;
  uint8_t pk = c.coin() ? 0 : c.draw(16), key0[256]; memset(key0, 0, sizeof key0);
  uint8_t mask = c.chance(1, 4) ? c.u8() : 0; if (is30) mask &= 0xe1; 
  uint8_t amwp = (c.chance(1, 6) ? 8 : 0) | 4 | (diff || c.chance(1, 2) ? 1 : 0);
  uint32_t start = g.newcode(16); if (!start) c.discard();
  for (int i = 0; i < 256; i++) key0[i] = prot ? 0 : pk;
  if (prot) { uint32_t ks = c.draw(1 << 16); for (uint32_t i = 0; i < msize >> 11; i++) key0[i] = i < 32 ? c.chance(3, 5) ? pk : c.draw(16) : (ks = ks * 69069 + 1) & 0x30000 ? pk : ks >> 24 & 15; }
  memcpy(g.ref.key, key0, 256);
  g.psw(mask, pk, amwp, c.draw(4), c.draw(16), start);
  int n = 1 + c.draw(1 + c.size() / (diff ? 6 : 12)); bool err_pending = err;  std::string last = "none"; int done = 0;
  for (int i = 0; ; i++) {
    c.begin();
    bool end = i >= n || i > 40; int op = 0x0a; bool ok = true;
    if (g.fill.size()) { g.emit_fill(); op = 0x07; goto placed; }
    if (!end && !fpm && c.chance(1, 24) && g.emit_mod()) { op = g.ins[0]; last = fmt("%02x", op); c.label("self"); goto placed; }
    if (end && err_pending && i <= 40) {
      err_pending = false; ok = false; for (int t = 0; t < 6 && !ok; t++) ok = g.emit_wild();
      if (!ok) { c.end(); c.discard(); }
      last = fmt("%02x", g.ins[0]); n++; goto placed; }
    if (end) {
      g.ins = { 0x0a, c.u8() }; if (!g.fresh(g.ref.ic, 6)) { c.end(); c.discard(); }
      g.place(g.ref.ic, g.ins); g.listing += fmt("%06x: 0a%02x", g.ref.ic, g.ins[1]);
    } else {
      for (int t = 0; t < 8; t++) {
        if (fpm) op = c.pick(FPL);
        else if (prot) op = c.chance(1, 5) && !(g.ref.amwp & 1) ? c.pick(std::vector<int>{8, 9}) : c.chance(1, 6) ? c.pick(FIXED) : c.pick(STORES);
        else { int w = c.draw(10); op = w < 6 ? c.pick(FIXED) : w < 8 ? c.pick(SS) : w < 9 ? c.pick(DECI) : (g.ref.amwp & 1) ? c.pick(FIXED) : c.pick(PRIVL); }
        if (is30 && (op & 0xe0) == 0x20) continue; if (is30 && (op & 0xe0) == 0x60) continue;
        ok = g.emit(op); if (ok) break;
      }
      if (!ok) { n = i; c.end(); i--; if (!g.fresh(g.ref.ic, 6)) c.discard(); continue; }
      last = fmt("%02x", op);
    }
  placed:
    c.end();
    if (g.mod.on && g.mod.ic == g.ref.ic) { g.mod_done(); last = "mod"; }
    bool go = g.ref.step(); g.nins++;
    if (g.ref.ambiguous) c.discard();
    done++;
    c.label(go ? fmt("op%02x", op) : g.ref.svc >= 0 ? "end" : fmt("int%d", __builtin_ctz(g.ref.exc)));
    if (!go) break;
    g.listing += "; ";
  }
  if (diff) rundiff(c, g, key0); else runcmp(c, m, g, key0, last);
  if (done >= 2) c.nontrivial(mix(g.h, g.ref.r[3] ^ g.ref.r[7]));
}
pbt::Harness HARNESS = { "C12", init, run, 200, 20, 40 };
