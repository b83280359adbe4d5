// C01: event scheduler against a model of absolute due times.
#include "pbt.hpp"
#include <set>
#include <tuple>
extern "C" {
#include "event.h"
uint64_t step_count;
}
using namespace pbt;
static Case *cur;
struct Group { std::multiset<std::pair<int, int>> ids; int n = 0; };   // (argument pointer, integer argument), drawn from small pools so that they repeat
static std::map<std::tuple<long,int,int>, Group> model;   // (due, dev, func)
static long nowt; static int fired, hits, depth, budget, maxpend; static uint64_t h;
static device_t devs[3]; static char argbase[4]; static void *argp(int a) { return a ? argbase + a : nullptr; }
static const int IARGS[5] = {0, 1, -1, 0x7fffffff, 2};
static bool expect_imm; static std::pair<int, int> imm_id; static int imm_dev, imm_f;
static void act(bool in_cb);
static void on_fire(int f, device_t *d, void *arg, int iarg) {
    fired++; int dev = d ? (int)(d - devs) : 3;
    std::pair<int, int> id((int)(arg ? (char *)arg - argbase : 0), iarg);
    if (expect_imm) { expect_imm = false;
        if (id != imm_id || dev != imm_dev || f != imm_f) cur->soft_fail("immediate", "zero-delay add of event (%d,%d) called back as event (%d,%d) dev %d func %d", imm_id.first, imm_id.second, id.first, id.second, dev, f);
    } else {
        auto it = model.find({nowt, dev, f});
        if (it == model.end() || !it->second.ids.count(id) || it->second.n == 0) { cur->soft_fail("spurious", "at time %ld event (%d,%d) (dev %d func %d) fired but is not due with these arguments", nowt, id.first, id.second, dev, f); return; }
        it->second.ids.erase(it->second.ids.find(id)); if (--it->second.n == 0) model.erase(it); }
    if (cur->soft) return;
    cur->note("  [t=%ld fired (%d,%d) dev %d f%d]", nowt, id.first, id.second, dev, f);
    if (depth < 4 && budget > 0 && cur->chance(1, 3)) { depth++; act(true); depth--; } }
#define CB(n) static void cb##n(struct _device *d, void *a, int i) { on_fire(n, d, a, i); }
CB(0) CB(1) CB(2)
static _callback cbs[3] = {cb0, cb1, cb2};
static int pending() { int n = 0; for (auto &g : model) n += g.second.n; return n; }
static void act(bool in_cb) {
    budget--; cur->begin();
    unsigned k = cur->weighted({6, 3});
    if (k == 0) {
        int dev = cur->draw(4), f = cur->draw(3); long t;
        switch (cur->draw(8)) { case 0: t = 0; break; case 1: t = 1; break; case 7: t = 1 + cur->draw(cur->chance(1,4) ? 1000 : 100); break; default: t = 1 + cur->draw(12); }
        if (depth >= 4 && t == 0) t = 1;
        std::pair<int, int> id(cur->draw(4), IARGS[cur->draw(5)]); h = mix(h, (t << 8) | (dev << 4) | f);
        cur->note("%st=%ld add (%d,%d) dev %d f%d in %ld", in_cb ? "    " : "", nowt, id.first, id.second, dev, f, t);
        if (t) { auto &g = model[{nowt + t, dev, f}]; g.ids.insert(id); g.n++; maxpend = std::max(maxpend, pending()); }
        else { expect_imm = true; imm_id = id; imm_dev = dev; imm_f = f; }
        int r = add_event(dev == 3 ? nullptr : &devs[dev], cbs[f], (int)t, argp(id.first), id.second);
        if (r) cur->soft_fail("add", "add_event returned %d", r);
        if (expect_imm) { expect_imm = false; cur->soft_fail("immediate", "zero-delay event (%d,%d) not called at once", id.first, id.second); }
    } else {
        int dev = cur->draw(4), f = cur->draw(3); h = mix(h, 0x1000 + dev * 16 + f);
        auto best = model.end();
        for (auto it = model.begin(); it != model.end(); ++it) if (std::get<1>(it->first) == dev && std::get<2>(it->first) == f) { best = it; break; }
        cur->note("%st=%ld cancel dev %d f%d (%s)", in_cb ? "    " : "", nowt, dev, f, best == model.end() ? "none" : "pending");
        if (best != model.end()) { hits++; if (--best->second.n == 0) model.erase(best); }
        cancel_event(dev == 3 ? nullptr : &devs[dev], cbs[f]);
    }
    cur->end(); }
static void step() {
    nowt++; advance();
    while (!model.empty() && !cur->soft) { auto it = model.begin(); if (std::get<0>(it->first) > nowt) break;
        cur->soft_fail("missed", "at time %ld event due at %ld (dev %d func %d) has not fired", nowt, std::get<0>(it->first), std::get<1>(it->first), std::get<2>(it->first)); } }
static void run(Case &c) {
    cur = &c; model.clear(); nowt = 0; fired = hits = depth = maxpend = 0; h = 7; expect_imm = false; budget = 400;
    init_event();
    int n = 1 + c.draw(4 + c.size());
    for (int i = 0; i < n; i++) { c.begin();
        if (c.chance(1, 2)) act(false);
        else { int k = c.chance(1, 12) ? 1 + c.draw(200) : 1 + c.draw(6); h = mix(h, 0x9000 + k); c.note("advance %d", k); for (int j = 0; j < k && !c.soft; j++) step(); }
        c.end(); c.check(); }
    for (int j = 0; !model.empty() && j < 3000 && !c.soft; j++) step();
    c.check();
    if (!model.empty() && budget > 0) c.fail("missed", "events never fired");
    int before = fired; for (int j = 0; j < 3 && model.empty(); j++) step(); c.check();
    if (fired != before && model.empty() && budget > 0 && fired - before > 0 && depth > 100) c.fail("spurious", "extra call");
    if (fired >= 3 && hits && maxpend >= 2) c.nontrivial(h);
    if (hits) c.label("cancel-hit"); if (fired > 20) c.label("fired>20"); if (maxpend > 5) c.label("pending>5"); }
Harness HARNESS = {"C01", nullptr, run, 500};
