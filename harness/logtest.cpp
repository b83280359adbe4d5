// C04: log class selection and message output.
#include "pbt.hpp"
#include <unistd.h>
extern "C" {
#include "device.h"
#include "conf.h"
#include "logger.h"
uint64_t step_count;
}
using namespace pbt;
struct Cl { const char *name; int mask; bool cont; };
static const Cl cls[] = { {"INFO", LOG_INFO}, {"WARN", LOG_WARN}, {"ERROR", LOG_ERROR}, {"TRACE", LOG_TRACE}, {"ITRACE", LOG_ITRACE}, {"MICRO", LOG_MICRO}, {"REG", LOG_REG}, {"MEM", LOG_MEM},
  {"MPXCHN", LOG_MPXCHN}, {"SELCHN", LOG_SELCHN}, {"DEVICE", LOG_DEVICE}, {"CONSOLE", LOG_CONSOLE}, {"TAPE", LOG_TAPE}, {"DISK", LOG_DISK}, {"CARD", LOG_CARD}, {"DMICRO", LOG_DMICRO}, {"DREG", LOG_DREG}, {"EVENT", LOG_EVENT}, {"FREG", LOG_FREG} };
static const int N = sizeof cls / sizeof *cls;
static void emit(int k, int a, const char *s) {
    switch (k) {
#define E(n, f) case n: f("msg %d %s|\n", a, s); break;
    E(0, log_info) E(1, log_warn) E(2, log_error) E(3, log_trace) E(4, log_itrace) E(5, log_micro) E(6, log_reg) E(7, log_mem) E(8, log_mpxchn) E(9, log_selchn) E(10, log_device) E(11, log_console) E(12, log_tape) E(13, log_disk) E(14, log_card) E(15, log_dmicro) E(16, log_dreg) E(17, log_event) E(18, log_freg) } }
static const bool multi[N] = { true, true, true, false, true, false, false, false, false, false, false, false, true, true, true, false, false, false, true };
static void emit_s(int k, int a, const char *s) {   // start of a message built from parts
    switch (k) { case 0: case 1: case 2: log_print_s(cls[k].mask, (char *)__FILE__, 1, "msg %d %s|", a, s); break;
#define S(n, f) case n: f##_s("msg %d %s|", a, s); break;
    S(4, log_itrace) S(12, log_tape) S(14, log_card) S(13, log_disk) S(18, log_freg) } }
static void emit_c(int k, int a, const char *s) {   // a further part
    switch (k) { case 0: case 1: case 2: log_print_c(cls[k].mask, "+ %d %s|", a, s); break;
#define C(n, f) case n: f##_c("+ %d %s|", a, s); break;
    C(4, log_itrace) C(12, log_tape) C(14, log_card) C(13, log_disk) C(18, log_freg) } }
static FILE *real_err;
static void quiet(bool on) {      // what the program writes to stderr is kept in err.txt
    if (on) { real_err = stderr; stderr = fopen("err.txt", "w"); } else if (real_err) { fclose(stderr); stderr = real_err; real_err = nullptr; } }
static void run(Case &c) {
    struct Off { ~Off() { quiet(false); } } off;
    log_level = 0; log_enable = 0; if (log_file) { fclose(log_file); log_file = nullptr; }
    unlink("LOG.TXT"); unlink("log.txt"); uint64_t h = 5; std::string out, err; bool open = false; int n_msg = 0; int level = 0; bool enabled = false; int n_lv = 0;
    auto line = [&](const std::string &s, int expect) { std::vector<char> b(s.begin(), s.end()); b.push_back(0); c.note("line: %s", s.c_str()); int r = load_line(&b[0]); if (r != expect) c.fail("result", "[%s] returned %d, expected %d", s.c_str(), r, expect); };
    line("LOGFILE \"log.txt\"", 1);
    log_enable = 1; log_print(LOG_EVENT, (char *)__FILE__, 1, "start\n"); log_enable = 0; fflush(log_file);   // no message is left open by the case before
    auto slurp = [&](const char *name) { FILE *f = fopen(name, "r"); if (!f) c.fail("nofile", "%s was not created", name); char b[4096]; std::string all; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) all.append(b, r); fclose(f); return all; };
    out = slurp("log.txt"); quiet(true);
    int n = 2 + c.draw(6 + c.size() / 3); int serial = 1;
    for (int i = 0; i < n; i++) { c.begin();
        switch (c.weighted({3, 1, 6, 1})) {
        case 0: { std::string s = c.coin() ? "LOGLEVEL" : "loglevel"; int m = 1 + c.draw(5); bool ok = true; int add = 0; s += " ";
            for (int j = 0; j < m; j++) { int bad = c.chance(1, 12); int k = c.draw(N); std::string nm = cls[k].name;
                if (bad) { switch (c.draw(5)) { case 0: nm += "X"; break; case 1: nm = nm.substr(0, nm.size() - 1); break; case 2: nm = "BOGUS"; break; case 3: nm += "=1"; break; case 4: nm = "X" + nm; break; }
                    bool real = false; for (int z = 0; z < N; z++) if (nm == cls[z].name) { add |= cls[z].mask; real = true; } if (!real) ok = false; }
                else add |= cls[k].mask;
                if (c.chance(1, 3)) for (auto &x : nm) x = tolower(x);
                if (j) s += c.chance(1, 3) ? ", " : " "; s += nm; }
            // what an error in the list does to the other names is not specified: only compare when all are good
            if (!ok) { int before = log_level; std::vector<char> b(s.begin(), s.end()); b.push_back(0); c.note("line: %s", s.c_str()); bool en = log_enable; log_enable = 0; FILE *keep = stderr; stderr = fopen("/dev/null", "w"); int r = load_line(&b[0]); fclose(stderr); stderr = keep; log_enable = en; if (r != 0) c.fail("badname", "[%s] accepted", s.c_str()); 
                if ((log_level & ~(level | add))) c.fail("extra", "[%s] enabled classes nobody named: %x", s.c_str(), log_level); log_level = before; }
            else { line(s, 1); level |= add; n_lv++; if (log_level != level) c.fail("level", "[%s] gives classes %x, expected %x", s.c_str(), log_level, level); }
            h = mix(h, add); break; }
        case 1: { bool e = c.chance(3, 4); line(e ? "LOGENABLE" : "LOGDISABLE", 1); enabled = e; if (!!log_enable != enabled) c.fail("enable", "log switch is %d", log_enable); h = mix(h, e); break; }
        case 2: { int k = c.draw(N); std::string s; int l = c.draw(c.chance(1, 8) ? 200 : 8); for (int z = 0; z < l; z++) s += (char)c.range(33, 126); int a = c.chance(1, 3) ? (int)c.u32() : serial; serial++; step_count = c.draw(1000000);
            int how = multi[k] && c.chance(2, 3) ? 1 + (int)c.draw(2) : 0; bool on = (level & cls[k].mask) || k < 3, imp = k < 3; const char *nm = cls[k].name; std::string head = fmt("%llu: %s ", (unsigned long long)step_count, nm);
            c.note("log %s %s %d %s", cls[k].name, how == 0 ? "whole" : how == 1 ? "start" : "more", a, s.c_str()); h = mix(mix(h, k), how);
            if (how == 0) { emit(k, a, s.c_str()); std::string m = fmt("msg %d %s|\n", a, s.c_str()); if (on && enabled) { if (open) out += "\n"; open = false; out += head + m; } if (imp) err += std::string(nm) + " " + m; }
            else if (how == 1) { emit_s(k, a, s.c_str()); std::string m = fmt("msg %d %s|", a, s.c_str()); if (on && enabled) { if (open) { out += "\n"; if (imp) err += "\n"; } open = true; out += head + m; if (imp) err += std::string(nm) + " " + m; } }
            else { emit_c(k, a, s.c_str()); std::string m = fmt("+ %d %s|", a, s.c_str()); if (on && enabled) { if (!open) { out += head; if (imp) err += std::string(nm) + " "; } open = true; out += m; if (imp) err += m; } }
            if (enabled && on) n_msg++; break; }
        case 3: { if (enabled) break; line("LOGENABLE", 1); enabled = true; break; }
        } c.end(); }
    fflush(log_file); quiet(false);
    auto same = [&](const char *what, const std::string &got, const std::string &want) { if (got == want) return; auto lines = [](const std::string &x) { std::vector<std::string> v(1); for (char ch : x) if (ch == '\n') v.push_back(""); else v.back() += ch; return v; }; auto g = lines(got), w = lines(want);
        for (size_t i = 0; i < g.size() || i < w.size(); i++) { std::string a = i < g.size() ? g[i] : "(nothing)", b = i < w.size() ? w[i] : "(nothing)"; if (a != b) c.fail(what, "%s line %zu is [%s], expected [%s]", what, i + 1, a.c_str(), b.c_str()); } };
    same("log", slurp("log.txt"), out); same("stderr", slurp("err.txt"), err);
    if (n_msg >= 2 && n_lv) c.nontrivial(h); if (n_msg > 3) c.label("4+ messages"); }
Harness HARNESS = {"C04", nullptr, run, 500};
