// C02: device registry and disk step list against a list model.
#include "pbt.hpp"
#include <list>
#include <algorithm>
extern "C" {
#include "device.h"
uint64_t step_count;
}
using namespace pbt;
static Case *cur;
static int stepped[64], inits[64], closes[64]; static device_t *D[64];
static void stepfn(void *d) { stepped[(char *)d - (char *)stepped]++; }
static void stepfn2(void *d) { stepped[(char *)d - (char *)stepped] += 1; }
static int idx(device_t *d) { for (int i = 0; i < 64; i++) if (D[i] == d) return i; return -1; }
static void initfn(device_t *d, void *) { int i = idx(d); if (i >= 0) inits[i]++; }
static void closefn(device_t *d) { int i = idx(d); if (i >= 0) closes[i]++; }
static void run(Case &c) {
    cur = &c; for (int i = 0; i < 6; i++) chan[i] = nullptr; disk = nullptr;
    std::vector<int> lst[8]; uint16_t addr[64]; bool att[64] = {}; std::vector<int> disks; bool dsk[64] = {}; uint64_t h = 1; int maxn = 0, dels = 0, finds = 0;
    for (int i = 0; i < 64; i++) { D[i] = (device_t *)calloc(1, sizeof(device_t)); D[i]->init_device = initfn; D[i]->close_device = closefn; if (i % 5 == 4) { D[i]->init_device = nullptr; D[i]->close_device = nullptr; } }
    auto drawaddr = [&]() -> uint16_t { return c.chance(1, 8) ? c.draw(65536) : (c.draw(6) << 8) | (c.chance(1, 2) ? c.draw(8) : c.draw(256)); };
    auto listcheck = [&](const char *what) {
        for (int k = 0; k < 6; k++) { size_t n = 0; for (device_t *d = chan[k]; d; d = d->next) { if (n >= lst[k].size() || D[lst[k][n]] != d) c.fail("list", "after %s, channel %d entry %zu is wrong", what, k, n); n++; }
            if (n != lst[k].size()) c.fail("list", "after %s, channel %d has %zu devices, expected %zu", what, k, n, lst[k].size()); } };
    int n = 1 + c.draw(8 + c.size());
    for (int q = 0; q < n; q++) { c.begin();
        switch (c.weighted({6, 3, 6, 3, 2, 2, 1})) {
        case 0: { int i = c.draw(c.chance(1,2) ? 12 : 64); if (att[i]) break; uint16_t a = drawaddr(); c.note("add_chan #%d %04x", i, a); addr[i] = a; int k = (a >> 8) & 7; h = mix(h, a);
            add_chan(D[i], a); if (k < 6) { lst[k].push_back(i); att[i] = true; maxn = std::max<int>(maxn, lst[k].size()); if (D[i]->addr != a) c.fail("addr", "device address not recorded"); } listcheck("add"); break; }
        case 1: { int i = c.draw(c.chance(1,2) ? 12 : 64); uint16_t a = att[i] ? addr[i] : drawaddr(); if (att[i] && c.chance(1, 8)) a ^= 0x100 << c.draw(2);
            int k = (a >> 8) & 7; c.note("del_chan #%d %04x", i, a); h = mix(h, 77 + i); del_chan(D[i], a);
            if (k < 6) { auto it = std::find(lst[k].begin(), lst[k].end(), i); if (it != lst[k].end()) { lst[k].erase(it); att[i] = false; dels++; } } listcheck("del"); break; }
        case 2: { uint16_t a = drawaddr(); uint16_t m; switch (c.draw(5)) { case 0: m = 0xff; break; case 1: m = 0xf8; break; case 2: m = 0xff8; break; case 3: m = c.draw(65536); break; default: m = 0xfff; }
            int k = (a >> 8) & 7, want = -1; if (k < 6) for (int i : lst[k]) if ((addr[i] & m) == (a & m)) { want = i; break; }
            device_t *d = find_chan(a, m); c.note("find_chan %04x/%04x -> %d", a, m, want); if (want >= 0) finds++;
            if (d != (want < 0 ? nullptr : D[want])) c.fail("find", "find_chan(%04x,%04x) returned device %d, expected %d", a, m, d ? idx(d) : -1, want); break; }
        case 3: { int i = c.draw(64); if (dsk[i]) break; dsk[i] = true; disks.push_back(i); c.note("add_disk #%d", i); h = mix(h, 1000 + i); add_disk(c.coin() ? stepfn : stepfn2, (char *)stepped + i); break; }
        case 4: { int i = disks.size() && c.chance(3, 4) ? disks[c.draw(disks.size())] : (int)c.draw(64); c.note("del_disk #%d", i); h = mix(h, 2000 + i); del_disk((char *)stepped + i); if (dsk[i]) { dsk[i] = false; dels++; disks.erase(std::find(disks.begin(), disks.end(), i)); } break; }
        case 5: { memset(stepped, 0, sizeof stepped); step_disk(); c.note("step_disk"); for (int i = 0; i < 64; i++) { if (stepped[i] != (dsk[i] ? 1 : 0)) c.fail("step", "drive %d stepped %d times, registered %d", i, stepped[i], dsk[i]); } break; }
        case 6: { memset(inits, 0, sizeof inits); memset(closes, 0, sizeof closes); system_init(nullptr); system_shutdown(); c.note("init/shutdown");
            for (int i = 0; i < 64; i++) { int w = att[i] && i % 5 != 4; if (inits[i] != w || closes[i] != w) c.fail("init", "device %d attached=%d initialised %d closed %d times", i, att[i], inits[i], closes[i]); } break; }
        } c.end(); }
    for (int i = 0; i < 64; i++) free(D[i]);
    for (int i = 0; i < 6; i++) chan[i] = nullptr;
    if (maxn >= 3 && dels >= 2 && finds >= 1) c.nontrivial(h); if (maxn >= 3) c.label("3 on a channel"); if (disks.size() > 1) c.label("several drives"); }
Harness HARNESS = {"C02", nullptr, run, 500};
