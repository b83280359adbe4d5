// C03: configuration parser against a structural model of each line.
#include "pbt.hpp"
#include <unistd.h>
#include <dirent.h>
extern "C" {
#include "device.h"
#include "conf.h"
extern char *line_ptr;
uint64_t step_count;
}
using namespace pbt;
struct Opt { std::string name; int kind; std::string val; int num; };   // kind 0 flag 1 string 2 integer 3 index
struct Comp { std::string type; char model; int dash, slash, flags; int addr; std::vector<Opt> opts; bool ok; };
static std::vector<Comp> created; static Case *cur; static int calls;
static const char *idx_list[] = {"AUTO", "TEXT", "BIN", "P7B", "E11", NULL};
static const char *names[] = {"FILE", "LABEL", "RING", "7TRACK", "PORT", "FORMAT", "NORING", "SIZE", "1600", "NEW-OPT"};
static const int kinds[] = {1, 1, 0, 0, 2, 3, 0, 2, 0, 0};
static int create(struct _option *o, const char *ty, bool addr) {
    Comp k; k.type = ty; k.model = o->model; k.dash = o->dash_num; k.slash = o->slash_num; k.flags = o->flags; k.addr = addr ? o->addr : -1; k.ok = true;
    struct _option opts; int guard = 0; calls++;
    while (get_option(&opts)) {
        if (++guard > 3000) { cur->soft_fail("loop", "get_option makes no progress"); return 0; }
        if (strnlen(opts.opt, sizeof opts.opt) >= sizeof opts.opt || strnlen(opts.string, sizeof opts.string) >= sizeof opts.string) { cur->soft_fail("unterminated", "option text is not terminated inside its buffer"); return 0; }
        int i; for (i = 0; i < 10; i++) if (!strcmp(names[i], opts.opt)) break;
        if (i == 10) { k.ok = false; continue; }
        Opt q; q.name = names[i]; q.kind = kinds[i]; q.num = 0;
        if (q.kind == 0) { q.val = opts.flags ? "?" : ""; }
        else if (q.kind == 1) { if (opts.flags != 1) { k.ok = false; continue; } q.val = opts.string; }
        else if (q.kind == 2) { int v; if (!get_integer(&opts, &v)) { k.ok = false; continue; } q.num = v; }
        else { int v = get_index(&opts, (char **)idx_list); if (v < 0) { k.ok = false; continue; } if (v > 4) { cur->soft_fail("index", "get_index returned %d", v); } q.num = v; }
        k.opts.push_back(q); }
    created.push_back(k); return k.ok; }
extern "C" {
int model9901_create(struct _option *o) { return create(o, "9901", true); }
int model9902_create(struct _option *o) { return create(o, "9902", true); }
int model9903_create(struct _option *o) { return create(o, "9903", true); }
int model9900_create(struct _option *o) { return create(o, "9900", false); }
DEV_LIST_STRUCT(9901, DEV_TYPE, CHAR_OPT);
DEV_LIST_STRUCT(9902, CTRL_TYPE, NUM_OPT);
DEV_LIST_STRUCT(9903, UNIT_TYPE, 0);
DEV_LIST_STRUCT(9900, CPU_TYPE, 0);
}
static std::string ws(Case &c, bool must) { std::string s; int n = c.draw(3) + must; for (int i = 0; i < n; i++) s += c.chance(1, 4) ? '\t' : ' '; return s; }
static std::string rcase(Case &c, const std::string &s) { std::string r = s; if (c.chance(1, 3)) for (auto &x : r) if (c.coin()) x = tolower(x); return r; }
// a well formed line and what it must create; returns false when it creates nothing
static bool gen_line(Case &c, std::string &line, Comp &k, bool last) {
    line = ws(c, false);
    unsigned w = c.weighted({8, 1, 1});
    if (w == 1) { line += "#"; int n = c.draw(20); for (int i = 0; i < n; i++) line += (char)c.range(32, 126); return false; }
    if (w == 2) return false;
    int t = c.draw(4); k = Comp(); k.type = fmt("990%d", t); k.ok = true; k.model = 0; k.dash = k.slash = 0; k.flags = 0; k.addr = -1;
    line += k.type;
    if (c.coin()) { char m = 'A' + c.draw(26); k.model = m; line += c.chance(1, 3) ? tolower(m) : m; }
    auto dash = [&] { k.dash = c.draw(c.chance(1, 3) ? 100000 : 10); line += fmt("-%d", k.dash); k.flags |= 1; };
    auto slash = [&] { k.slash = c.draw(c.chance(1, 3) ? 100000 : 10); line += fmt("/%d", k.slash); k.flags |= 2; };
    switch (c.draw(6)) { case 1: dash(); break; case 2: slash(); break; case 3: dash(); slash(); break; case 4: slash(); dash(); break; }
    bool sep = true;
    if (t != 0) { line += ws(c, true); k.addr = c.draw(c.chance(1, 4) ? 0x10000 : 0x1000);
        std::string f = c.coin() ? "%x" : "%03X"; if (c.chance(1, 6)) f = "%06x"; char b[32]; snprintf(b, sizeof b, f.c_str(), k.addr); line += b; }
    int n = c.draw(5);
    for (int i = 0; i < n; i++) { c.begin();
        // separators: blanks and/or a comma
        bool comma = sep && i > 0 && c.chance(1, 3);
        if (comma) line += ws(c, false) + "," + ws(c, false); else line += ws(c, true);
        sep = true; int j = c.draw(10); Opt q; q.name = names[j]; q.kind = kinds[j]; q.num = 0; line += rcase(c, q.name);
        if (q.kind == 1) {
            line += "="; bool quoted = c.chance(2, 3); int len = c.chance(1, 20) ? c.draw(300) : c.draw(12);
            if (quoted) { line += '"'; for (int z = 0; z < len; z++) { char ch; switch (c.draw(6)) { case 0: ch = '"'; break; case 1: ch = " ,#=-/"[c.draw(6)]; break; default: ch = c.range(32, 126); } q.val += ch; if (ch == '"') line += "\"\""; else line += ch; } line += '"'; }
            else { if (!len) len = 1; for (int z = 0; z < len; z++) { char ch = "abcXYZ019./_-:"[c.draw(14)]; q.val += toupper(ch); line += ch; } sep = false; }
        } else if (q.kind == 2) { q.num = c.draw(c.chance(1, 3) ? 2000000000 : 5000); line += fmt("=%d", q.num); sep = false; if (c.chance(1, 5)) { line.resize(line.rfind('=') + 1); line += fmt("\"%d\"", q.num); sep = true; } }
        else if (q.kind == 3) { q.num = c.draw(5); line += std::string("=") + rcase(c, idx_list[q.num]); sep = false; }
        k.opts.push_back(q); c.end(); }
    if (c.chance(1, 4)) { line += ws(c, true); line += "# "; int n = c.draw(12); for (int i = 0; i < n; i++) line += (char)c.range(32, 126); }
    else line += ws(c, false);
    return true; }
static std::string show(const Comp &k) { std::string s = fmt("%s model=%02x dash=%d slash=%d flags=%d addr=%x", k.type.c_str(), k.model, k.dash, k.slash, k.flags, k.addr); for (auto &q : k.opts) s += fmt(" %s=%s/%d", q.name.c_str(), q.val.c_str(), q.num); return s; }
static void compare(Case &c, const std::vector<Comp> &want) {
    c.check();
    for (size_t i = 0; i < want.size() || i < created.size(); i++) {
        if (i >= created.size()) c.fail("missing", "component %zu not created: %s", i, show(want[i]).c_str());
        if (i >= want.size()) c.fail("extra", "component created that no line names: %s", show(created[i]).c_str());
        const Comp &a = want[i], &b = created[i];
        bool same = a.type == b.type && toupper(a.model) == toupper(b.model) && a.dash == b.dash && a.slash == b.slash && a.flags == b.flags && a.addr == b.addr && b.ok && a.opts.size() == b.opts.size();
        for (size_t j = 0; same && j < a.opts.size(); j++) same = a.opts[j].name == b.opts[j].name && a.opts[j].val == b.opts[j].val && a.opts[j].num == b.opts[j].num;
        if (!same) c.fail("values", "component %zu\n wanted %s\n got    %s ok=%d", i, show(a).c_str(), show(b).c_str(), b.ok); } }
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static void run_good(Case &c) {
    created.clear(); calls = 0; std::vector<Comp> want; std::string line; Comp k; uint64_t h = 3; size_t opts = 0;
    bool file = c.chance(1, 3);
    if (!file) {
        bool w = gen_line(c, line, k, true); c.note("line: [%s]", line.c_str()); if (w) want.push_back(k);
        std::vector<char> b(line.begin(), line.end()); if (c.chance(1,4)) b.push_back('\n'); b.push_back(0);
        int r = load_line(&b[0]); c.check(); if (r != 1) c.fail("refused", "well formed line refused"); h = hbytes(line.data(), line.size(), h);
    } else {
        int n = 1 + c.draw(8); FILE *f = fopen("cfg", "w");
        for (int i = 0; i < n; i++) { c.begin(); bool w = gen_line(c, line, k, false); if (line.size() < 1000) { c.note("file line: [%s]", line.c_str()); fputs(line.c_str(), f); if (i + 1 < n || c.coin()) fputc('\n', f); if (w) want.push_back(k); } c.end(); h = hbytes(line.data(), line.size(), h); }
        fclose(f); int fds = open_fds(); int r = load_config((char *)"cfg"); c.check(); if (open_fds() != fds) c.fail("leftopen", "%d files are open after the configuration, %d before", open_fds(), fds); if (r != 1) c.fail("refused", "well formed file refused"); unlink("cfg"); }
    compare(c, want);
    for (auto &x : want) opts += x.opts.size();
    if (opts >= 2) c.nontrivial(h); c.label(file ? "file" : "line"); }
static void run_bad(Case &c) {
    // single deliberate defects in an otherwise good line
    created.clear(); calls = 0; std::string line; Comp k; 
    int kind = c.draw(5); int want_calls = 0; bool want_ret0 = true; bool anyok = false;
    switch (kind) {
    case 0: line = fmt("990%d", 1 + (int)c.draw(3)) + (c.coin() ? "" : " # 123") + (c.coin() ? " " : ""); break;         // no address
    case 1: line = fmt("990%d", 1 + (int)c.draw(3)) + " " + std::string(1, "ghxyz=\"*-"[c.draw(9)]) + (c.coin() ? "00" : ""); break; // bad address
    case 2: line = fmt("%d 00c", 5000 + (int)c.draw(4000)); want_ret0 = false; break;                                     // unknown type
    case 3: line = fmt("990%d 0%x ", 1 + (int)c.draw(3), (int)c.draw(256)); { static const char *bad[] = {"BOGUS", "PORT=12x", "PORT", "FORMAT", "FORMAT=XYZ", "FILE", "PORT=", "FILE=\"abc", "BOGUS=1", "FORMAT=", "@", "RINGX", "PORT=-1"}; line += bad[c.draw(13)]; } want_calls = 1; break;
    case 4: { line = "9901"; int n = 1 + c.draw(40); for (int i = 0; i < n; i++) line += (char)('a' + c.draw(26)); if (n == 1) line += "Q"; line += " 00c"; want_ret0 = false; } break;
    }
    c.note("bad line: [%s]", line.c_str());
    std::vector<Comp> pre, post; int r, fds = open_fds(); char *msg = nullptr; size_t mlen = 0; FILE *keep = stderr; bool file = c.chance(1, 3);
    if (file) {         // the same line inside a file of good ones
        std::string all; auto good = [&](std::vector<Comp> &v) { int n = c.draw(3); for (int i = 0; i < n; i++) { std::string l; Comp g; bool w = gen_line(c, l, g, false); if (l.size() < 1000) { all += l + "\n"; if (w) v.push_back(g); } } };
        good(pre); all += line + "\n"; good(post); c.note("file: %s", all.c_str());
        FILE *f = fopen("cfg", "w"); fputs(all.c_str(), f); fclose(f); stderr = open_memstream(&msg, &mlen); r = load_config((char *)"cfg"); unlink("cfg");
    } else { std::vector<char> b(line.begin(), line.end()); b.push_back(0); stderr = open_memstream(&msg, &mlen); r = load_line(&b[0]); }
    fclose(stderr); stderr = keep; bool said = mlen > 0; free(msg); c.check();
    if (open_fds() != fds) c.fail("leftopen", "%d files are open after the configuration, %d before", open_fds(), fds);
    if (kind < 3 && !said) c.fail("silent", "nothing was said about the malformed line [%s]", line.c_str());
    if (file) {
        if (created.size() < pre.size()) c.fail("missing", "only %zu of the %zu components before the malformed line exist", created.size(), pre.size());
        std::vector<Comp> all = created; created.assign(all.begin(), all.begin() + pre.size()); compare(c, pre); created.assign(all.begin() + pre.size(), all.end()); calls -= pre.size();
        if (want_ret0 && r == 0) { if (created.size() > (size_t)want_calls) c.fail("wenton", "the configuration was refused at [%s] and yet the components after it were created", line.c_str()); }
        else { if (r != 1) c.fail("stopped", "[%s] stopped the configuration", line.c_str()); if (created.size() < post.size()) c.fail("missing", "components after [%s] were not created", line.c_str()); auto rest = created; created.assign(rest.end() - post.size(), rest.end()); compare(c, post); created.assign(rest.begin(), rest.end() - post.size()); calls -= post.size(); } }
    for (auto &x : created) anyok |= x.ok;
    if (calls > want_calls) c.fail("created", "malformed line [%s] created a component", line.c_str());
    if (anyok) { if (line.find("\"abc") == std::string::npos && line.find("PORT=") == std::string::npos && line.find("FORMAT=") == std::string::npos) c.fail("accepted", "malformed option accepted: [%s]", line.c_str()); }
    if (want_ret0 && r != 0 && !anyok) c.fail("notrefused", "malformed line [%s] not refused", line.c_str());
    c.nontrivial(hbytes(line.data(), line.size())); c.label(fmt("bad%d", kind)); }
static void run_fuzz(Case &c) {
    created.clear(); calls = 0; std::string line; Comp k; bool file = c.chance(1, 4); int lines = file ? 1 + c.draw(5) : 1; std::string all;
    for (int l = 0; l < lines; l++) {
        line.clear(); if (c.coin()) gen_line(c, line, k, false);
        else { line = c.coin() ? fmt("990%d", (int)c.draw(4)) : ""; }
        int m = c.draw(8); static const char *frag[] = {"\"", "\"\"", "=", "==", "-", "/", ",", "#", " ", "FILE=\"", "PORT=", "FORMAT=", "LOGLEVEL ", "9902-", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "00000000000000000000000000000c", "99999999999999999999999", "\t", "9901 00c "};
        for (int i = 0; i < m; i++) { c.begin(); size_t at = c.draw(line.size() + 1);
            switch (c.draw(4)) { case 0: line.insert(at, 1, (char)c.range(1, 255)); break; case 1: if (line.size()) line.erase(at % line.size(), 1 + c.draw(4)); break;
              case 2: line.insert(at, frag[c.draw(19)]); break; case 3: { int n = 1 + c.draw(c.chance(1, 10) ? 1500 : 30); line.insert(at, n, (char)c.range(33, 126)); } } c.end(); }
        for (auto &ch : line) if (ch == '\n' || ch == 0) ch = ' ';
        size_t p; while ((p = line.find("LOGFILE")) != std::string::npos) line.erase(p, 1);
        std::string up = line; for (auto &ch : up) ch = toupper(ch); if (up.find("LOG") != std::string::npos && up.find("FILE") != std::string::npos) line = "9901 00c";
        all += line + "\n"; }
    c.note("bytes: %s", all.c_str());
    if (file) { FILE *f = fopen("cfg", "w"); fwrite(all.data(), 1, all.size(), f); fclose(f); load_config((char *)"cfg"); unlink("cfg"); }
    else { char *b = (char *)malloc(line.size() + 1); memcpy(b, line.c_str(), line.size() + 1); load_line(b); if (line_ptr < b || line_ptr > b + line.size()) cur->soft_fail("beyond", "parser read past the end of the line"); free(b); }
    c.check(); if (calls) c.nontrivial(hbytes(all.data(), all.size())); }
static void run(Case &c) { cur = &c; if (MODE == "good") run_good(c); else if (MODE == "bad") run_bad(c); else run_fuzz(c); }
Harness HARNESS = {"C03", nullptr, run, 500};
