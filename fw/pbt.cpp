#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <poll.h>
#include <set>
#include <algorithm>

std::string MODE;
namespace pbt {
static const size_t MAXC = 1 << 20, MAXS = 1 << 16;
struct Shared {
    volatile uint64_t idx;          // case being run
    volatile uint32_t stage;        // 0 idle 1 running 2 done-all
    volatile uint32_t nspan, nchoice;
    volatile int result;            // single run: 0 pass 1 fail 2 discard
    char key[256]; char msg[4000];
    char notes[60000];
    Span span[MAXS];
    uint64_t choice[MAXC];
};
static Shared *sh;

uint64_t Case::rnd() {              // xoroshiro128+
    uint64_t s0 = s[0], s1 = s[1], r = s0 + s1; s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16); s[1] = (s1 << 37) | (s1 >> 27); return r; }
static uint64_t smix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void seed(Case &c, uint64_t a, uint64_t b, uint64_t d) {
    uint64_t x = a * 0x2545F4914F6CDD1Dull ^ (b << 40) ^ d; smix(x); c.s[0] = smix(x); c.s[1] = smix(x) | 1; }

uint64_t Case::draw(uint64_t n) {
    uint64_t v;
    if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (n && v >= n) v %= n; }
    else { v = (rnd() >> 11) ^ (rnd() << 20); if (n) v %= n; }
    if (pos < MAXC) { sh->choice[pos] = v; sh->nchoice = pos + 1; }
    pos++;
    return v; }
unsigned Case::weighted(std::initializer_list<unsigned> w) {
    unsigned t = 0; for (unsigned x : w) t += x;
    unsigned v = draw(t), i = 0; for (unsigned x : w) { if (v < x) return i; v -= x; i++; } return 0; }
uint32_t Case::edge32() {
    switch (draw(8)) {
    case 0: return (uint32_t)draw(16);
    case 1: { static const uint32_t e[] = {0,1,0xffffffff,0x80000000,0x7fffffff,0x80000001,0x0000ffff,0x00008000,
                  0x00007fff,0xffff8000,0xffff7fff,0x00010000,0xff,0x100,0xfffffffe,0x40000000,0xc0000000,0x00ffffff,0x01000000}; 
              return e[draw(sizeof e / sizeof *e)]; }
    case 2: return 1u << draw(32);
    case 3: return 0u - (uint32_t)draw(300);
    case 4: return (uint32_t)(int32_t)(int16_t)draw(65536);
    default: return u32(); } }
uint64_t Case::edge64() { uint64_t h = edge32(); return (h << 32) | edge32(); }
void Case::begin() { open.push_back(pos); }
void Case::end() { if (open.empty()) return; uint32_t a = open.back(); open.pop_back();
    if (sh->nspan < MAXS && pos > a) { sh->span[sh->nspan] = Span{a, (uint32_t)pos}; sh->nspan = sh->nspan + 1; } }
static std::string vf(const char *f, va_list ap) { char b[8192]; vsnprintf(b, sizeof b, f, ap); return b; }
void Case::fail(const std::string &k, const char *f, ...) { va_list ap; va_start(ap, f); std::string m = vf(f, ap); va_end(ap);
    if (soft) { soft = false; throw softf; }
    throw Failure{k, m}; }
void Case::soft_fail(const std::string &k, const char *f, ...) { if (soft) return; va_list ap; va_start(ap, f); softf = {k, vf(f, ap)}; va_end(ap); soft = true; }
void Case::note(const char *f, ...) { if (!want_note) return; va_list ap; va_start(ap, f); notes += vf(f, ap); va_end(ap);
    if (notes.empty() || notes.back() != '\n') notes += '\n';
    if (notes.size() > sizeof(sh->notes) - 1) { notes.resize(sizeof(sh->notes) - 1); }
    size_t n = notes.size(); memcpy(sh->notes, notes.c_str(), n + 1); }
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string m = vf(f, ap); va_end(ap); return m; }
std::string hex(const void *p, size_t n, size_t max) { std::string r; const uint8_t *b = (const uint8_t *)p; char t[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 4, "%02x", b[i]); r += t; }
    if (n > max) r += fmt("...(%zu)", n); return r; }

static std::string errfile;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int execute(Case &c) {      // returns 0 pass 1 fail 2 discard
    sh->nspan = 0; sh->nchoice = 0; sh->notes[0] = 0;
    struct itimerval it = {{0,0},{(time_t)HARNESS.cpu_limit,0}}; setitimer(ITIMER_PROF, &it, nullptr);
    try { HARNESS.run(c); c.check(); return 0; }
    catch (Failure &f) { snprintf(sh->key, sizeof sh->key, "%s", f.key.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); return 1; }
    catch (Discard &) { return 2; } }

static void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); close(nul);
    int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(e, 2); close(e);
    struct rlimit rl = {1ull << 30, 1ull << 30}; setrlimit(RLIMIT_FSIZE, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
}
static std::string errtail() {
    std::string r; FILE *f = fopen(errfile.c_str(), "r"); if (!f) return r; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); if (r.size() > 400000) break; } fclose(f);
    size_t p = r.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = r.find("runtime error");
    if (p != std::string::npos) { size_t q = r.rfind('\n', p); r = r.substr(q == std::string::npos ? 0 : q + 1, 1800); }
    else if (r.size() > 600) r = r.substr(r.size() - 600);
    return r; }
static std::string crashkey(const std::string &t) {
    size_t p = t.find("AddressSanitizer: "); if (p != std::string::npos) { size_t q = t.find_first_of(" \n", p + 18); return "asan:" + t.substr(p + 18, q - p - 18); }
    if (t.find("runtime error: ") != std::string::npos) return "ubsan"; return "crash"; }
// wait for child with wall limit; returns status or -1 for wall timeout
static int waitchild(pid_t pid, double limit, uint64_t *progress) {
    double t0 = now(); uint64_t last = progress ? *progress : 0; int st; useconds_t nap = 50;
    for (;;) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) return st;
        if (progress && sh->idx != last) { last = sh->idx; t0 = now(); }
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return -1; }
        usleep(nap); if (nap < 2000) nap += 50; } }
static double wall() { return HARNESS.wall_limit ? HARNESS.wall_limit : HARNESS.cpu_limit * 6 + 60; }

struct Result { int res; std::string key, msg, notes; std::vector<uint64_t> ch; std::vector<Span> sp; };
static void grab(Result &r) { r.ch.assign(sh->choice, sh->choice + std::min<size_t>(sh->nchoice, MAXC)); r.sp.assign(sh->span, sh->span + sh->nspan); r.notes = sh->notes; }
static void classify(int st, Result &r) {
    if (st == -1) { r.res = 1; r.key = "hang"; r.msg = "no progress (wall clock)"; return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.res = sh->result; if (r.res == 1) { r.key = sh->key; r.msg = sh->msg; } return; }
    std::string t = errtail(); r.res = 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.key = "hang"; r.msg = fmt("no end after %us of processor time", HARNESS.cpu_limit); }
    else if (WIFSIGNALED(st)) { r.key = fmt("signal%d", WTERMSIG(st)); r.msg = fmt("killed by signal %d\n", WTERMSIG(st)) + t; }
    else { r.key = crashkey(t); r.msg = fmt("exited with %d\n", WEXITSTATUS(st)) + t; } }
static Result run_choices(const std::vector<uint64_t> &v, size_t sz, bool notes) {
    Result r; sh->result = 0; sh->nchoice = 0; sh->nspan = 0; sh->notes[0] = 0; sh->key[0] = sh->msg[0] = 0;
    fflush(nullptr); pid_t pid = fork();
    if (pid == 0) { child_setup(); Case c; seed(c, 0, 0, 0); c.rep = &v; c.sz = sz; c.want_note = notes; sh->result = execute(c); _exit(0); }
    int st = waitchild(pid, wall(), nullptr); classify(st, r); grab(r); return r; }

static bool shortlex_less(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size(); return a < b; }
static Result shrink(Result best, size_t sz, double budget) {
    double t0 = now(); auto left = [&] { return now() - t0 < budget; };
    std::string kind = best.key;
    auto attempt = [&](std::vector<uint64_t> v) -> bool {
        if (!left()) return false;
        Result r = run_choices(v, sz, false); if (r.res != 1) return false;
        if (!shortlex_less(r.ch, best.ch)) return false; best = r; return true; };
    bool progress = true; 
    while (progress && left()) { progress = false;
        // drop whole operations
        for (size_t i = best.sp.size(); i-- > 0 && left();) { if (i >= best.sp.size()) continue; Span s = best.sp[i]; if (s.b > best.ch.size()) continue;
            std::vector<uint64_t> v(best.ch.begin(), best.ch.begin() + s.a); v.insert(v.end(), best.ch.begin() + s.b, best.ch.end()); if (attempt(v)) progress = true; }
        for (size_t k = std::max<size_t>(1, best.ch.size() / 2); k >= 1 && left(); k /= 2) {
            for (size_t i = best.ch.size(); i >= k && left();) { i -= k; if (i + k > best.ch.size()) { i = best.ch.size(); if (i < k) break; continue; }
                std::vector<uint64_t> v = best.ch; v.erase(v.begin() + i, v.begin() + i + k);
                if (attempt(v)) { progress = true; if (i > best.ch.size()) i = best.ch.size(); }
                if (i == 0) break; }
            if (k == 1) break; }
        for (size_t k = 16; k >= 1 && left(); k /= 4) for (size_t i = 0; i + k <= best.ch.size() && left(); i += k) {
            bool nz = false; for (size_t j = 0; j < k; j++) nz |= best.ch[i + j] != 0; if (!nz) continue;
            std::vector<uint64_t> v = best.ch; std::fill(v.begin() + i, v.begin() + i + k, 0); if (attempt(v)) progress = true; }
        for (size_t i = 0; i < best.ch.size() && left(); i++) { uint64_t lo = 0; 
            while (i < best.ch.size() && best.ch[i] > lo && left()) { uint64_t cur = best.ch[i], mid = lo + (cur - lo) / 2; if (mid == cur) break;
                std::vector<uint64_t> v = best.ch; v[i] = mid; if (attempt(v)) { progress = true; } else lo = mid + 1; } }
    }
    (void)kind; return best; }

static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch); else r += ch; } return r + "\""; }
} // namespace pbt
using namespace pbt;

struct BatchId { bool on = false; uint64_t seed, worker, from, to, maxc; };
static BatchId batchid;
static size_t size_of_case(uint64_t i, uint64_t maxc) { return maxc > 1 ? (size_t)std::min<uint64_t>(100, 5 + 150 * i / maxc) : 100; }
// re-run a stretch of cases in one process: a failure that needs the history of earlier cases
static Result run_batch(const BatchId &b, bool notes) {
    Result r; sh->result = 0; sh->notes[0] = 0; sh->key[0] = sh->msg[0] = 0; sh->idx = b.from;
    fflush(nullptr); pid_t pid = fork();
    if (pid == 0) { child_setup(); int rc = 0; for (uint64_t i = b.from; i <= b.to; i++) { sh->idx = i; Case c; seed(c, b.seed, b.worker, i); c.sz = size_of_case(i, b.maxc); c.want_note = notes && i == b.to; rc = execute(c); if (rc == 1) break; } sh->result = rc == 1; _exit(0); }
    int st = waitchild(pid, wall(), (uint64_t *)&sh->idx); classify(st, r); grab(r); return r; }
static std::vector<uint64_t> load_replay(const char *f, size_t &sz) {
    std::vector<uint64_t> v; FILE *fp = fopen(f, "r"); char line[1 << 16]; if (!fp) { fprintf(stderr, "cannot open %s\n", f); exit(2); }
    bool in = false; while (fgets(line, sizeof line, fp)) {
        if (!strncmp(line, "mode: ", 6)) { MODE = line + 6; while (!MODE.empty() && MODE.back() <= ' ') MODE.pop_back(); }
        if (!strncmp(line, "size: ", 6)) sz = strtoul(line + 6, nullptr, 10);
        if (!strncmp(line, "batch: ", 7)) { unsigned long long a, b, c, d, e; if (sscanf(line + 7, "%llu %llu %llu %llu %llu", &a, &b, &c, &d, &e) == 5) { batchid.on = true; batchid.seed = a; batchid.worker = b; batchid.from = c; batchid.to = d; batchid.maxc = e; } }
        if (!strncmp(line, "env: ", 5)) { line[strcspn(line, "\n")] = 0; char *q = strchr(line, 61); if (q) { *q = 0; setenv(line + 5, q + 1, 1); } continue; }
        if (!strncmp(line, "choices:", 8)) { in = true; continue; }
        if (!strncmp(line, "end", 3)) in = false;
        if (in) { char *p = line; for (;;) { char *q; uint64_t x = strtoull(p, &q, 10); if (q == p) break; v.push_back(x); p = q; } } }
    fclose(fp); return v; }

int main(int argc, char **argv) {
    uint64_t seedv = 1, worker = 0, maxc = 1000; double tlim = 60; std::string out, replay, rdir = "."; std::set<std::string> known;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--seed") seedv = strtoull(nx(), 0, 10); else if (a == "--worker") worker = strtoull(nx(), 0, 10);
        else if (a == "--cases") maxc = strtoull(nx(), 0, 10); else if (a == "--time") tlim = atof(nx());
        else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--rdir") rdir = nx();
        else if (a == "--mode") MODE = nx(); else if (a == "--property") HARNESS.property = nx(); else if (a == "--known") known.insert(nx());
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    errfile = fmt("err.%d", (int)getpid());
    size_t rsz = 100; std::vector<uint64_t> rch;
    if (!replay.empty()) rch = load_replay(replay.c_str(), rsz);
    // The init step is probed in a child first: a crash in it is a failure of the code under test.
    { pid_t pid = fork(); if (pid == 0) { child_setup(); if (HARNESS.init) HARNESS.init(); _exit(0); }
      int st = waitchild(pid, 120, nullptr);
      if (!(st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        std::string t = errtail(); unlink(errfile.c_str());
        std::string rf = fmt("%s/init-w%d.txt", rdir.c_str(), (int)worker); FILE *f = fopen(rf.c_str(), "w"); 
        if (f) { fprintf(f, "property: %s\nmode: %s\nmessage: initialisation fails\n%s\nsize: 0\nchoices:\nend\n", HARNESS.property, MODE.c_str(), t.c_str()); fclose(f); }
        if (!out.empty()) { FILE *o = fopen(out.c_str(), "w"); fprintf(o, "{\"evaluations\":1,\"discards\":0,\"labels\":{},\"nt\":[],\"samples\":[],\"known\":{},\"violation\":{\"key\":\"init\",\"msg\":%s,\"replay\":%s}}\n", jstr(t).c_str(), jstr(rf).c_str()); fclose(o); }
        fprintf(stderr, "FAIL init: %s\n", t.c_str()); return 1; } }
    if (HARNESS.init) { int so = dup(1); int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1); HARNESS.init(); fflush(stdout); dup2(so, 1); close(so); close(nul); }
    if (!replay.empty()) {
        Result r = batchid.on ? run_batch(batchid, true) : run_choices(rch, rsz, true); printf("%s", r.notes.c_str());
        if (r.res == 1) printf("FAIL [%s] %s\n", r.key.c_str(), r.msg.c_str()); else printf("%s\n", r.res == 2 ? "DISCARD" : "PASS");
        unlink(errfile.c_str());
        return r.res == 1 ? 1 : 0; }

    double t0 = now(); uint64_t done = 0, discards = 0; std::set<uint64_t> nts; std::map<std::string,uint64_t> labels; std::vector<std::string> samples;
    std::map<std::string,std::pair<uint64_t,std::string>> knownhits; bool viol = false; Result vr; std::string vfile, note;
    std::string statf = fmt("stat.%d", (int)getpid());
    uint64_t unrepro = 0;
    for (uint64_t n = 0; n < maxc && now() - t0 < tlim && !viol;) {
        uint64_t cnt = std::min<uint64_t>(HARNESS.batch, maxc - n);
        sh->idx = n; sh->result = 0; sh->key[0] = 0; sh->msg[0] = 0; fflush(nullptr);
        auto sizeof_case = [&](uint64_t i) -> size_t { return size_of_case(i, maxc); };
        uint64_t from = n;
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(); uint64_t disc = 0, ev = 0; std::set<uint64_t> ln; std::map<std::string,uint64_t> ll; std::vector<std::string> sm; int rc = 0;
            for (uint64_t i = n; i < n + cnt; i++) {
                sh->idx = i; Case c; seed(c, seedv, worker, i); c.sz = sizeof_case(i); c.want_note = (i % 997 == 5 && sm.size() < 2) || i < 2;
                int r = execute(c); ev++; if (r == 2) { disc++; continue; }
                if (r == 1) { rc = 1; break; }
                for (uint64_t h : c.nt) ln.insert(h); for (auto &k : c.labels) ll[k.first] += k.second;
                if (c.want_note && !c.notes.empty()) sm.push_back(c.notes.substr(0, 1500));
                if (now() - t0 > tlim) break; }
            sh->result = rc;
            FILE *f = fopen(statf.c_str(), "w"); if (!f) _exit(9);
            fprintf(f, "%llu %llu %zu %zu %zu\n", (unsigned long long)ev, (unsigned long long)disc, ln.size(), ll.size(), sm.size());
            for (uint64_t h : ln) fprintf(f, "%llx\n", (unsigned long long)h);
            for (auto &k : ll) fprintf(f, "%llu %s\n", (unsigned long long)k.second, k.first.c_str());
            for (auto &s : sm) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); }
            fclose(f); _exit(0); }
        int st = waitchild(pid, wall(), (uint64_t *)&sh->idx);
        Result r; classify(st, r); grab(r); uint64_t at = sh->idx;
        if (FILE *f = fopen(statf.c_str(), "r")) { unsigned long long ev, di; size_t a, b, s;
            if (fscanf(f, "%llu %llu %zu %zu %zu\n", &ev, &di, &a, &b, &s) == 5) { done += ev; discards += di;
                for (size_t i = 0; i < a; i++) { unsigned long long h; if (fscanf(f, "%llx\n", &h) == 1) nts.insert(h); }
                for (size_t i = 0; i < b; i++) { unsigned long long k; char l[512]; if (fscanf(f, "%llu %511[^\n]\n", &k, l) == 2) labels[l] += k; }
                for (size_t i = 0; i < s; i++) { size_t len; if (fscanf(f, "%zu", &len) != 1) break; fgetc(f); std::string t(len, 0); if (fread(&t[0], 1, len, f) != len) break; if (samples.size() < 4) samples.push_back(t); } }
            fclose(f); unlink(statf.c_str()); } else done += at - n + 1;
        n += cnt;
        if (r.res == 1) {
            size_t sz = sizeof_case(at);
            Result a = run_choices(r.ch, sz, false);
            if (a.res == 1) {
                if (known.count(a.key)) { auto &k = knownhits[a.key]; k.first++; k.second = a.msg; n = at + 1; continue; }
                Result b = run_choices(a.ch, sz, false), c2 = run_choices(a.ch, sz, false);
                if (b.res == 1 && c2.res == 1) {
                    Result best = shrink(a, sz, HARNESS.max_shrink_s);
                    if (known.count(best.key) && !known.count(a.key)) best = a;
                    vr = run_choices(best.ch, sz, true); if (vr.res != 1) vr = a; viol = true;
                    vfile = fmt("%s/%s-seed%llu-w%llu-c%llu.txt", rdir.c_str(), MODE.empty() ? "case" : MODE.c_str(), (unsigned long long)seedv, (unsigned long long)worker, (unsigned long long)at);
                    FILE *f = fopen(vfile.c_str(), "w"); if (f) {
                        fprintf(f, "property: %s\nmode: %s\nseed: %llu worker: %llu case: %llu\nkey: %s\nmessage: %s\n--- case ---\n%s------------\nsize: %zu\nchoices:\n", HARNESS.property, MODE.c_str(), (unsigned long long)seedv, (unsigned long long)worker, (unsigned long long)at, vr.key.c_str(), vr.msg.c_str(), vr.notes.c_str(), sz);
                        for (size_t i = 0; i < vr.ch.size(); i++) fprintf(f, "%llu%c", (unsigned long long)vr.ch[i], i % 16 == 15 ? '\n' : ' ');
                        fprintf(f, "\nend\n"); fclose(f); }
                    break; }
            }
            // not reproducible on its own: try the prefix of the batch as one history
            { BatchId b; b.on = true; b.seed = seedv; b.worker = worker; b.from = from; b.to = at; b.maxc = maxc;
              Result q = run_batch(b, true); bool same = q.res == 1 && sh->idx == at;
              for (int k = 0; k < 2 && same; k++) { q = run_batch(b, true); same = q.res == 1 && sh->idx == at; }
              if (same && known.count(q.key)) { auto &k = knownhits[q.key]; k.first++; k.second = q.msg; n = at + 1; continue; }
              if (same) { 
                // drop earlier cases while it still fails
                double ts = now(); for (uint64_t step = (b.to - b.from) / 2; step >= 1 && now() - ts < HARNESS.max_shrink_s; ) { BatchId d = b; d.from = b.from + step; Result z = run_batch(d, true); if (z.res == 1 && sh->idx == at) { b = d; q = z; if (step > b.to - b.from) step = (b.to - b.from) / 2; } else step /= 2; }
                vr = q; viol = true; vfile = fmt("%s/%s-seed%llu-w%llu-b%llu.txt", rdir.c_str(), MODE.empty() ? "batch" : MODE.c_str(), (unsigned long long)seedv, (unsigned long long)worker, (unsigned long long)at);
                FILE *f = fopen(vfile.c_str(), "w"); if (f) { fprintf(f, "property: %s\nmode: %s\nkey: %s\nmessage: %s\n--- last case of the history ---\n%s------------\nsize: 0\nbatch: %llu %llu %llu %llu %llu\n", HARNESS.property, MODE.c_str(), vr.key.c_str(), vr.msg.c_str(), vr.notes.c_str(), (unsigned long long)b.seed, (unsigned long long)b.worker, (unsigned long long)b.from, (unsigned long long)b.to, (unsigned long long)b.maxc); fclose(f); }
                break; } }
            unrepro++; note = r.key + ": " + r.msg; n = at + 1;
            if (unrepro > 20) break; } }
    unlink(errfile.c_str()); unlink(statf.c_str());
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"evaluations\":%llu,\"discards\":%llu,\"unreproducible\":%llu,\"unrepro_note\":%s,\"wall\":%.2f,\"labels\":{", (unsigned long long)done, (unsigned long long)discards, (unsigned long long)unrepro, jstr(note.substr(0, 500)).c_str(), now() - t0);
    bool first = true; for (auto &k : labels) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(o, "},\"nt\":["); first = true; for (uint64_t h : nts) { fprintf(o, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(o, "],\"samples\":["); first = true; for (auto &s : samples) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(o, "],\"known\":{"); first = true; for (auto &k : knownhits) { fprintf(o, "%s%s:[%llu,%s]", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second.first, jstr(k.second.second).c_str()); first = false; }
    fprintf(o, "}"); if (viol) fprintf(o, ",\"violation\":{\"key\":%s,\"msg\":%s,\"replay\":%s}", jstr(vr.key).c_str(), jstr(vr.msg).c_str(), jstr(vfile).c_str());
    fprintf(o, "}\n"); if (o != stdout) fclose(o);
    return viol ? 1 : 0; }
