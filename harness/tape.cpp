// C08: tape images against an ideal tape.   C09: arbitrary image files (mode fuzz).
#include "pbt.hpp"
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "tape.h"
uint64_t step_count;
void tape_init(); int tape_finish_rec(struct _tape_buffer *); int tape_write_frame(struct _tape_buffer *, uint8_t);
int tape_start_rewind(struct _tape_buffer *); int tape_rewind_frames(struct _tape_buffer *, int);
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;
static const char *FN = "image.tap";
static const char *tn[3] = {"tap", "e11", "p7b"};
static Bytes slurp(const char *f) { Bytes b; FILE *p = fopen(f, "rb"); if (!p) return b; int c; uint8_t buf[65536]; while ((c = fread(buf, 1, sizeof buf, p)) > 0) b.insert(b.end(), buf, buf + c); fclose(p); return b; }
static void spit(const char *f, const Bytes &b) { FILE *p = fopen(f, "wb"); fwrite(b.data(), 1, b.size(), p); fclose(p); }
struct Item { bool mark; Bytes d; };
static size_t ilen(int t, const Item &i) { if (t == 2) return i.mark ? 1 : i.d.size(); if (i.mark) return 4; return 8 + i.d.size() + (t == 0 ? (i.d.size() & 1) : 0); }
static void enc(int t, const Item &i, Bytes &o) {
    if (t == 2) { if (i.mark) o.push_back(0x8f); else for (size_t k = 0; k < i.d.size(); k++) o.push_back(i.d[k] | (k == 0 ? 0x80 : 0)); return; }
    uint32_t l = i.mark ? 0 : i.d.size(); auto len = [&] { for (int k = 0; k < 4; k++) o.push_back(l >> (8 * k)); };
    len(); if (i.mark) return; o.insert(o.end(), i.d.begin(), i.d.end()); if (t == 0 && (l & 1)) o.push_back(0); len(); }
static Bytes content(Case &c, int t, size_t n) {
    Bytes b(n); unsigned k = c.draw(4); uint64_t s = c.draw(1 << 16); 
    for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)(i * 7 + (s >> 60)) : s >> 33; }
    if (t == 2) { for (auto &x : b) x &= 0x7f; if (b[0] == 0x0f) b[0] = 0x11; }
    return b; }
static struct _tape_buffer *T;
static int type, den; static std::vector<Item> items; static size_t pos; static bool junk, ring, attached; static size_t file_end;
static size_t off(size_t n) { size_t o = 0; for (size_t i = 0; i < n; i++) o += ilen(type, items[i]); return o; }
static void wrote(const Item &it) { items.resize(pos); items.push_back(it); pos++; size_t e = off(pos); junk = e < file_end; if (e > file_end) file_end = e; }
static size_t reclen(Case &c, bool big) {
    unsigned k = c.draw(8);
    if (k < 4 || !big) return 1 + c.draw(k == 0 ? 3 : 90);
    if (k < 6) return 1 + c.draw(3000);
    // aim near a multiple of the buffer size
    size_t o = off(pos), goal = (o / 32768 + 1 + (k == 7 ? c.draw(2) : 0)) * 32768; long want = (long)(goal - o) + (long)c.draw(33) - 16;
    if (want < 1) want = 1; if (want > 70000) want = 1 + want % 40000; return want; }
static void expect(Case &c, const char *what, int got, int want) { if (got != want) c.fail(std::string(what), "%s returned %d, expected %d", what, got, want); }
static void verify_file(Case &c) {
    Bytes w; for (auto &i : items) enc(type, i, w); Bytes f = slurp(FN);
    if (f.size() < w.size() || (!junk && f.size() != file_end && f.size() != w.size())) c.fail("image-size", "image holds %zu bytes, records take %zu", f.size(), w.size());
    for (size_t i = 0; i < w.size(); i++) if (w[i] != f[i]) c.fail("image", "image byte %zu is %02x, expected %02x", i, f[i], w[i]); }
static void attach(Case &c) {
    ring = c.chance(5, 6); den = c.draw(2); c.note("attach %s ring=%d den=%d", tn[type], ring, den);
    if (!tape_attach(T, (char *)FN, type, ring, den)) c.fail("attach", "attach failed");
    attached = true; pos = 0;
    if (!tape_at_loadpt(T) || !tape_ready(T) || tape_ring(T) != (int)ring) c.fail("attach-status", "load point %d ready %d ring %d after attach", tape_at_loadpt(T), tape_ready(T), tape_ring(T)); }
static void detach(Case &c) { c.note("detach"); tape_detach(T); attached = false; if (tape_ready(T)) c.fail("ready", "ready after detach"); verify_file(c); }
static int finish_ok(Case &c, const char *w) { int r = tape_finish_rec(T); if (r != TAPE_STATUS_OK) c.fail("finish", "tape_finish_rec after %s returned %d", w, r); return r; }
static void run_ideal(Case &c) {
    type = c.draw(3); items.clear(); pos = 0; junk = false; attached = false; file_end = 0; unlink(FN);
    T = (struct _tape_buffer *)calloc(1, sizeof *T); if (c.coin()) T->format |= TRACK9;
    bool big = c.chance(1, 3); uint64_t h = type; int writes = 0, reads = 0, backs = 0, mids = 0, n = 3 + c.draw(4 + c.size() / 2);
    // sometimes start from an image that already exists
    { Bytes f; int k = c.chance(1, 3) ? c.draw(6) : 0; for (int i = 0; i < k; i++) { Item it; it.mark = c.chance(1, 4); if (!it.mark) it.d = content(c, type, 1 + c.draw(200)); enc(type, it, f); items.push_back(it); }
      if (k && type < 2 && c.chance(1, 2)) { for (int i = 0; i < 4; i++) f.push_back(0xff); file_end = f.size(); } else file_end = f.size();
      spit(FN, f); c.note("image with %d items, %zu bytes", k, f.size()); }
    size_t eom_at = (file_end > off(items.size())) ? items.size() : SIZE_MAX;      // end-of-medium word after the last item
    attach(c);
    for (int i = 0; i < n; i++) { c.begin();
        unsigned op = c.weighted({6, 2, 6, 5, 2, 1, 1}); h = mix(h, op);
        switch (op) {
        case 0: { // write
            size_t l = reclen(c, big); Item it; it.mark = false; it.d = content(c, type, l); h = mix(h, l); c.note("write %zu at item %zu (offset %zu)", l, pos, off(pos));
            int r = tape_write_start(T); if (!ring) { expect(c, "write_start without ring", r, TAPE_STATUS_WRP); break; }
            expect(c, "write_start", r, TAPE_STATUS_OK);
            for (auto b : it.d) { r = tape_write_frame(T, b); if (r) c.fail("write_frame", "write_frame returned %d", r); }
            finish_ok(c, "write"); if (pos < items.size()) mids++; if (pos <= eom_at) eom_at = SIZE_MAX; wrote(it); writes++; break; }
        case 1: { c.note("write mark at item %zu", pos);
            int r = tape_write_mark(T); if (!ring) { expect(c, "write_mark without ring", r, TAPE_STATUS_WRP); break; }
            expect(c, "write_mark", r, TAPE_STATUS_OK); if (c.coin()) finish_ok(c, "mark");
            if (pos < items.size()) mids++; if (pos <= eom_at) eom_at = SIZE_MAX; Item it; it.mark = true; wrote(it); writes++; break; }
        case 2: case 3: {
            bool fwd = op == 2; if (fwd && pos == items.size() && junk && eom_at != pos) { c.note("(skip, data after a rewrite is undefined)"); break; }
            size_t lim = c.chance(1, 4) ? c.draw(40) : SIZE_MAX; c.note("read %s at item %zu%s", fwd ? "forward" : "back", pos, lim == SIZE_MAX ? "" : " partly"); h = mix(h, fwd);
            int r = fwd ? tape_read_forw(T) : tape_read_back(T); uint8_t d = 0xaa;
            if (fwd ? pos == items.size() : pos == 0) {
                // an empty P7B or a missing length reads as end of tape
                expect(c, fwd ? "read_forw at end" : "read_back at start", r, fwd ? TAPE_STATUS_EOT : TAPE_STATUS_BOT);
                if (!fwd && !tape_at_loadpt(T)) c.fail("loadpt", "not at load point after reading back at the start");
                if (c.coin()) { r = tape_read_frame(T, &d); if (r != (fwd ? TAPE_STATUS_EOT : TAPE_STATUS_BOT)) c.fail("frame-at-end", "read_frame returned %d at the %s of tape", r, fwd ? "end" : "start"); }
                break; }
            Item &it = items[fwd ? pos : pos - 1];
            if (it.mark) { expect(c, "read of a mark", r, TAPE_STATUS_MARK); 
                if (c.coin()) expect(c, "read_frame on a mark", tape_read_frame(T, &d), TAPE_STATUS_MARK); if (c.coin()) finish_ok(c, "mark"); }
            else { expect(c, fwd ? "read_forw" : "read_back", r, TAPE_STATUS_OK); size_t k = 0;
                for (; k < lim; k++) { r = tape_read_frame(T, &d); if (r != TAPE_STATUS_OK) break;
                    if (k >= it.d.size()) c.fail("long-record", "record of %zu bytes read as longer", it.d.size());
                    uint8_t w = fwd ? it.d[k] : it.d[it.d.size() - 1 - k]; if (d != w) c.fail("data", "byte %zu read %s is %02x, expected %02x (record of %zu)", k, fwd ? "forward" : "back", d, w, it.d.size()); }
                if (r == TAPE_STATUS_OK && k == lim) ; else { expect(c, "read_frame at end of record", r, TAPE_STATUS_EOB); if (k != it.d.size()) c.fail("short-record", "record of %zu bytes ended after %zu", it.d.size(), k); }
                finish_ok(c, fwd ? "read" : "read back"); }
            pos += fwd ? 1 : -1; (fwd ? reads : backs)++; 
            if (tape_at_loadpt(T) && pos != 0) c.fail("loadpt", "load point reported at item %zu", pos);
            break; }
        case 4: { c.note("rewind"); expect(c, "start_rewind", tape_start_rewind(T), TAPE_STATUS_OK); int fr = 1 + c.draw(20000); long lim = 4000000; 
            while (tape_rewind_frames(T, fr) != TAPE_STATUS_BOT) if (--lim == 0) c.fail("rewind", "rewind never reaches load point");
            pos = 0; if (!tape_at_loadpt(T)) c.fail("loadpt", "not at load point after rewind"); break; }
        case 5: detach(c); attach(c); break;
        case 6: { c.note("(select)"); tape_select(T); if (!tape_is_selected(T)) c.fail("select", "not selected"); tape_unselect(T); if (tape_is_selected(T)) c.fail("select", "still selected"); break; }
        }
        c.end(); }
    detach(c); free(T);
    if (mids) c.label("rewrite-in-middle"); if (file_end > 32768) c.label("over-one-buffer"); c.label(std::string("type-") + tn[type]);
    if (writes >= 2 && reads >= 1 && backs >= 1) c.nontrivial(h); }

// ---- arbitrary files -------------------------------------------------------
static void run_fuzz(Case &c) {
    type = c.draw(3); Bytes f; uint64_t h = type; int k = c.draw(8);
    for (int i = 0; i < k; i++) switch (c.draw(6)) {
        case 0: case 1: case 2: { Item it; it.mark = false; it.d = content(c, type, 1 + (c.chance(1, 6) ? c.draw(40000) : c.draw(60))); enc(type, it, f); break; }
        case 3: { Item it; it.mark = true; enc(type, it, f); break; }
        case 4: { static const uint32_t L[] = {0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 1, 3, 0x01000000, 32768, 32764, 0xff000000}; uint32_t l = c.coin() ? L[c.draw(10)] : (uint32_t)c.draw(1 << 17); for (int j = 0; j < 4; j++) f.push_back(l >> (8 * j)); break; }
        case 5: { int m = c.draw(12); for (int j = 0; j < m; j++) f.push_back(c.u8()); break; } }
    if (f.size() && c.chance(1, 2)) { int m = c.draw(4); for (int j = 0; j < m; j++) f[c.draw(f.size())] = c.u8(); }
    if (f.size() && c.chance(1, 3)) f.resize(c.draw(f.size() + 1));
    spit(FN, f); c.note("%s image of %zu bytes: %s", tn[type], f.size(), hex(f.data(), f.size(), 200).c_str());
    T = (struct _tape_buffer *)calloc(1, sizeof *T); bool rg = c.chance(1, 3); 
    if (!tape_attach(T, (char *)FN, type, rg, 1)) c.fail("attach", "attach failed");
    // forward pass: frames must be those of the file, in order, up to the first anomaly
    size_t p = 0, total = 0; int recs = 0; uint8_t d = 0;
    if (c.coin()) { c.note("forward pass"); 
        for (size_t guard = 0; guard < f.size() + 4; guard++) {
            int r = tape_read_forw(T); size_t base = p; bool stop = false;
            if (type == 2) {
                if (p >= f.size()) { if (r != TAPE_STATUS_EOT && r >= 0) c.fail("eot", "read_forw at end of file returned %d", r); break; }
                if (f[p] == 0x8f) { if (r != TAPE_STATUS_MARK) c.fail("mark", "mark at %zu read as %d", p, r); p++; recs++; tape_finish_rec(T); continue; }
                if (r != TAPE_STATUS_OK) c.fail("record", "record at %zu gave %d", p, r);
                size_t e = p + 1; while (e < f.size() && !(f[e] & 0x80)) e++;
                for (; p < e; p++) { r = tape_read_frame(T, &d); if (r) c.fail("frame", "frame at %zu gave %d", p, r); if (d != (f[p] & 0x7f)) c.fail("frame-data", "frame at %zu is %02x, file has %02x", p, d, f[p]); total++; }
                r = tape_read_frame(T, &d); if (r == TAPE_STATUS_OK) c.fail("invented", "record at %zu continues after its %zu frames", base, e - base);
                tape_finish_rec(T); recs++; continue; }
            uint32_t l = 0; if (p + 4 <= f.size()) l = f[p] | f[p + 1] << 8 | f[p + 2] << 16 | (uint32_t)f[p + 3] << 24;
            if (p + 4 > f.size()) { if (r == TAPE_STATUS_OK || r == TAPE_STATUS_MARK) c.fail("eot", "%zu bytes left but read_forw returned %d", f.size() - p, r); break; }
            if (l == 0xffffffff) { if (r != TAPE_STATUS_EOT) c.fail("eom", "end of medium mark gave %d", r); break; }
            if (l == 0) { if (r != TAPE_STATUS_MARK) c.fail("mark", "mark at %zu read as %d", p, r); p += 4; recs++; tape_finish_rec(T); continue; }
            if (r != TAPE_STATUS_OK) { c.label("refused-length"); break; }
            p += 4; size_t n = 0;
            while ((r = tape_read_frame(T, &d)) == TAPE_STATUS_OK) { if (p >= f.size()) c.fail("invented", "a frame was read past the end of the file (record at %zu, length %u)", base, l);
                if (d != f[p]) c.fail("frame-data", "frame at %zu is %02x, file has %02x", p, d, f[p]); p++; total++; if (++n > l) c.fail("long", "record longer than its length"); }
            if (n < l && p < f.size()) c.fail("short", "record of length %u ended after %zu frames with data left", l, n);
            if (n < l) stop = true;
            if (n == l && type == 0 && (l & 1)) p++;
            if (n == l && p + 4 > f.size()) stop = true;
            tape_finish_rec(T); recs++; if (stop) { c.label("truncated-record"); break; } 
            uint32_t t = f[p] | f[p + 1] << 8 | f[p + 2] << 16 | (uint32_t)f[p + 3] << 24; p += 4; if (t != l) { c.label("length-mismatch"); break; } }
        if (total > f.size()) c.fail("invented", "%zu frames from a file of %zu bytes", total, f.size()); }
    // then anything
    int n = c.draw(30); 
    for (int i = 0; i < n; i++) { c.begin(); unsigned op = c.draw(rg ? 9 : 6); h = mix(h, op); int r;
        switch (op) {
        case 0: case 1: case 2: case 3: { r = op & 1 ? tape_read_back(T) : tape_read_forw(T); c.note("%s -> %d", op & 1 ? "back" : "forward", r); size_t q = 0, lim = c.coin() ? SIZE_MAX : c.draw(20);
            while (q < lim && tape_read_frame(T, &d) == TAPE_STATUS_OK) if (++q > f.size() + 100000) c.fail("invented", "record of more than %zu frames from a file of %zu bytes", q, f.size());
            if (c.chance(7, 8)) tape_finish_rec(T); break; }
        case 4: c.note("rewind"); tape_start_rewind(T); while (tape_rewind_frames(T, 5000) == TAPE_STATUS_OK); break;
        case 5: c.note("finish"); tape_finish_rec(T); break;
        case 6: { int m = 1 + c.draw(c.chance(1, 10) ? 40000 : 40); c.note("write %d", m); if (tape_write_start(T) == 0) { for (int j = 0; j < m; j++) tape_write_frame(T, j); tape_finish_rec(T); } break; }
        case 7: c.note("mark"); tape_write_mark(T); break;
        case 8: c.note("reattach"); tape_detach(T); f = slurp(FN); tape_attach(T, (char *)FN, type, rg, 1); break; }
        c.end(); }
    tape_detach(T); free(T);
    if (f.size() > 8 && recs + n > 2) c.nontrivial(mix(h, hbytes(f.data(), f.size()))); }
static void run(Case &c) { if (MODE == "fuzz") run_fuzz(c); else run_ideal(c); unlink(FN); }
Harness HARNESS = {"C08", nullptr, run, 50, 20};
