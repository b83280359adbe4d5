// C05/C06/C07: card decks, hoppers and character codes.
#include "pbt.hpp"
#include "ebcdic_model.hpp"
#include <unistd.h>
#include <algorithm>
#include <deque>
extern "C" {
#include "card.h"
#include "xlat.h"
uint64_t step_count;
}
using namespace pbt;
typedef std::vector<uint16_t> Card;
static std::string slurp(const char *n) { std::string s; FILE *f = fopen(n, "rb"); if (!f) return "<none>"; char b[8192]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) s.append(b, r); fclose(f); return s; }
static void spew(const char *n, const std::string &s) { FILE *f = fopen(n, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string show(const Card &k) { std::string s; int last = 79; while (last > 0 && !k[last]) last--; for (int i = 0; i <= last; i++) s += fmt("%03x ", k[i]); return s; }
static void freectx(struct card_context *x) { if (x->file) fclose(x->file); free(x->images); free(x->file_name); free(x); }
static bool is_control_text(const std::string &t) {   // text line that documents a control card
    if (t.empty() || t[0] != '~') return false;
    if (t.find_first_not_of(' ', 1) == std::string::npos) return true;
    if (t.size() >= 4) { std::string k; for (int i = 1; i < 4; i++) k += tolower(t[i]); return k == "raw" || k == "eor" || k == "eof" || k == "eoi"; }
    return false; }
static Card text_card(const std::string &t) { Card k(80, 0); for (size_t i = 0; i < t.size() && i < 80; i++) k[i] = model_ebcdic_to_hol(model_ascii_to_ebcdic(t[i])); return k; }
static std::string gen_text(Case &c, int max) { std::string t; int n = c.chance(1, 6) ? max : c.draw(max + 1); n = std::min(n, max);
    switch (c.draw(4)) { case 0: { int ch = c.draw(sizeof COMMON - 1); t.assign(n, COMMON[ch]); break; } default: for (int i = 0; i < n; i++) t += c.chance(1, 6) ? ' ' : COMMON[c.draw(sizeof COMMON - 1)]; }
    return t; }
static Card gen_bin(Case &c) { Card k(80, 0); switch (c.draw(5)) { case 0: { int i = c.draw(80); k[i] = c.draw(4096); break; } case 1: k[0] = c.draw(4096); break; case 2: { static const uint16_t sp[] = {07, 015, 017, 0xfff, 0xf02, 0x200, 0}; k[0] = sp[c.draw(7)]; break; }
      default: { int n = c.draw(81); for (int i = 0; i < n; i++) k[i] = c.draw(4096); } } return k; }
static std::string enc_raw(const Card &k) { std::string s = "~raw"; for (auto v : k) s += fmt("%04o", v); return s; }
static std::string enc_octal(const Card &k) { bool only0 = true; for (int i = 1; i < 80; i++) only0 &= k[i] == 0; if (only0 && k[0] == 07) return "~eor"; if (only0 && k[0] == 015) return "~eof"; if (only0 && k[0] == 017) return "~eoi"; return enc_raw(k); }
static std::string enc_bin(const Card &k) { std::string s; for (auto v : k) { s += (char)((v & 0xf) << 4); s += (char)(v >> 4); } return s; }
static std::string rtrim(std::string t) { while (t.size() && t.back() == ' ') t.pop_back(); return t; }
// would the automatic detection take the text at `at` for a binary card?
static bool lookalike(const std::string &f, size_t at) { if (at + 160 > f.size()) return false; for (int i = 0; i < 160; i += 2) if (f[at + i] & 0xf) return false; return true; }
static bool any_lookalike(const std::string &f) { size_t p = 0; while (p < f.size()) { if (lookalike(f, p)) return true; p = f.find('\n', p); if (p == std::string::npos) break; p++; } return false; }
static void read_check(Case &c, const char *file, int mode, const std::vector<Card> &want, const char *what) {
    struct card_context *x = init_card_context(); x->mode = mode; int r = read_deck(x, (char *)file);
    if (r != 1) c.fail("readfail", "%s: read_deck returned %d", what, r);
    if (hopper_size(x) != (int)want.size()) c.fail("count", "%s: %d cards read, expected %zu", what, hopper_size(x), want.size());
    uint16_t img[80];
    for (size_t i = 0; i < want.size(); i++) { if (read_card(x, &img) != 1) c.fail("readcard", "%s: card %zu not available", what, i);
        for (int j = 0; j < 80; j++) if (img[j] != want[i][j]) c.fail("column", "%s: card %zu column %d is %03x, expected %03x", what, i, j, img[j], want[i][j]); }
    if (read_card(x, &img) != 0) c.fail("extra", "%s: a card after the last", what);
    freectx(x); }
static void run_write(Case &c) {
    int mode = c.draw(5); int n = c.chance(1, 12) ? c.draw(200) : c.draw(12); std::vector<Card> deck; std::string want; uint64_t h = mode;
    if (c.chance(1, 60)) n = 990 + c.draw(40);
    Card rep; std::string repl; bool same = n > 200;
    for (int i = 0; i < n; i++) { c.begin(); Card k; std::string enc;
        if (same && i > 3) { k = rep; enc = repl; }
        else switch (mode) {
        case MODE_TEXT: { std::string t = gen_text(c, 80); k = text_card(t); t = rtrim(t); enc = (t.empty() ? " " : t) + "\n"; break; }
        case MODE_BIN: k = gen_bin(c); enc = enc_bin(k); break;
        case MODE_EBCDIC: { std::string t; for (int j = 0; j < 80; j++) t += (char)c.draw(256); k.resize(80); for (int j = 0; j < 80; j++) k[j] = model_ebcdic_to_hol(t[j]); enc = t; break; }
        case MODE_OCTAL: k = gen_bin(c); enc = enc_octal(k) + "\n"; break;
        case MODE_AUTO: if (c.coin()) { std::string t = gen_text(c, 80); k = text_card(t); t = rtrim(t); enc = (t.empty() ? " " : t) + "\n"; }
                        else { k = gen_bin(c); k[c.draw(80)] = 0x800 | 0x400 | 0x007; k[3] = 0x0c7; enc = enc_octal(k) + "\n"; } break; }
        rep = k; repl = enc; deck.push_back(k); want += enc; h = mix(h, hbytes(k.data(), 160)); c.note("card %d (mode %d): %s", i, mode, show(k).c_str()); c.end(); }
    struct card_context *x = init_card_context(); x->mode = mode; int at = c.draw(n + 1); bool saved = false; unlink("deck");
    for (int i = 0; i <= n; i++) { if (i == at) { if (save_deck(x, (char *)"deck") != 0) c.fail("save", "save_deck failed"); saved = true; }
        if (i < n) { uint16_t img[80]; std::copy(deck[i].begin(), deck[i].end(), img); if (stack_card(x, &img) != 0) c.fail("stack", "stack_card failed"); } }
    if (stack_size(x) != n) c.fail("stacksize", "stack holds %d cards, %d were stacked", stack_size(x), n);
    close_deck(x); freectx(x); (void)saved;
    std::string got = slurp("deck");
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; c.fail("bytes", "mode %d deck file differs at byte %zu (lengths %zu, expected %zu): got %s expected %s", mode, i, got.size(), want.size(), hex(got.data() + i, std::min<size_t>(24, got.size() - i)).c_str(), hex(want.data() + i, std::min<size_t>(24, want.size() - i)).c_str()); }
    read_check(c, "deck", mode == MODE_AUTO && any_lookalike(got) ? MODE_TEXT : mode, deck, "read back");
    if ((mode == MODE_TEXT || mode == MODE_OCTAL) && !any_lookalike(got)) { read_check(c, "deck", MODE_AUTO, deck, "read back in automatic mode"); }
    if (mode == MODE_BIN) read_check(c, "deck", MODE_AUTO, deck, "binary read back in automatic mode");
    if (n >= 2) c.nontrivial(h); c.label(fmt("write mode %d", mode)); }
static void run_read(Case &c) {
    int mode = c.pick(std::vector<int>{MODE_TEXT, MODE_AUTO, MODE_OCTAL, MODE_BIN, MODE_EBCDIC}); int n = c.draw(c.chance(1, 10) ? 120 : 12); std::string f; std::vector<Card> deck; uint64_t h = mode;
    for (int i = 0; i < n; i++) { c.begin(); Card k(80, 0); bool last = i == n - 1; std::string l;
        if (mode == MODE_BIN) { k = gen_bin(c); f += enc_bin(k); deck.push_back(k); c.end(); continue; }
        if (mode == MODE_EBCDIC) { for (int j = 0; j < 80; j++) { uint8_t b = c.u8(); f += (char)b; k[j] = model_ebcdic_to_hol(b); } deck.push_back(k); c.end(); continue; }
        std::string eol = c.chance(1, 4) ? "\r\n" : "\n";
        switch (c.weighted({5, 2, 2, 2, 1, 2, 1})) {
        case 0: { std::string t = gen_text(c, 80); if (is_control_text(t)) t[0] = 'A'; k = text_card(t); l = t; break; }
        case 1: { std::string t = gen_text(c, 80); t.resize(80, ' '); if (is_control_text(t)) t[0] = 'A'; k = text_card(t); l = t; int m = c.draw(300); for (int j = 0; j < m; j++) l += (char)c.range(32, 126); break; }   // past column 80 is ignored
        case 2: { // tabs go to the next multiple of eight
            size_t col = 0; int parts = 1 + c.draw(5); for (int p = 0; p < parts && col < 80; p++) { std::string t = gen_text(c, std::min<int>(9, 80 - col)); if (p == 0 && is_control_text(t)) t = "A"; for (char ch : t) k[col++] = model_ebcdic_to_hol(model_ascii_to_ebcdic(ch)); l += t; if (p + 1 < parts && col < 79) { l += '\t'; col = (col | 7) + 1; } } break; }
        case 3: { int m = c.draw(81); l = c.coin() ? "~raw" : "~RAW"; for (int j = 0; j < m; j++) { k[j] = c.draw(4096); l += fmt("%04o", k[j]); } break; }
        case 4: { static const char *nm[] = {"~eor", "~EOF", "~eoi", "~Eor"}; static const uint16_t v[] = {07, 015, 017, 07}; int j = c.draw(4); l = nm[j]; k[0] = v[j]; break; }
        case 5: if (mode == MODE_AUTO) { k = gen_bin(c); std::string e = enc_bin(k); f += e; deck.push_back(k); h = mix(h, hbytes(k.data(), 160)); c.end(); continue; } l = "A"; k = text_card(l); break;
        case 6: l = "~"; break; }
        h = mix(h, hbytes(k.data(), 160)); f += l; if (!last || c.coin()) f += eol; else if (l.empty()) f += eol; deck.push_back(k); c.note("line %d: %s", i, l.c_str()); c.end(); }
    if (mode == MODE_AUTO) { // the detection rule is a documented heuristic: keep away from text it would misjudge
        size_t p = 0; std::string g = f; (void)g; for (size_t i = 0; i + 160 <= f.size(); i++) if ((i == 0 || f[i - 1] == '\n') && lookalike(f, i)) { mode = -1; break; } (void)p;
        if (mode < 0) { bool allbin = true; for (size_t i = 0; i < f.size(); i++) if (f[i] == '\n') allbin = false; if (!allbin) { bool hasbin = f.size() > 0; (void)hasbin; }
            mode = MODE_AUTO;
            // re-scan with the deck's own boundaries: only a text card at a boundary is a problem
            c.label("auto with binary-looking stretch"); 
            // walk
            size_t q = 0; bool bad = false; for (auto &k : deck) { std::string e = enc_bin(k); if (f.compare(q, 160, e) == 0 && f.size() - q >= 160) { q += 160; continue; } if (lookalike(f, q)) { bad = true; break; } q = f.find('\n', q); if (q == std::string::npos) break; q++; } if (bad) c.discard(); } }
    spew("deck", f); read_check(c, "deck", mode, deck, "read");
    if (n >= 2) c.nontrivial(h); c.label(fmt("read mode %d", mode)); }
static void run_fuzz(Case &c) {
    int mode = c.draw(5); std::string f; int n = c.draw(8);
    for (int i = 0; i < n; i++) { c.begin(); switch (c.draw(6)) { case 0: f += gen_text(c, 90); break; case 1: f += (c.coin() ? "\n" : c.coin() ? "\r\n" : "\t"); break; case 2: { int m = c.draw(c.chance(1, 10) ? 9000 : 170); for (int j = 0; j < m; j++) f += (char)c.draw(256); break; }
        case 3: { static const char *s[] = {"~raw", "~", "~eo", "~eof\n", "~raw12", "~raw7777777\n", "~ \t ~"}; f += s[c.draw(7)]; break; } case 4: f += std::string(c.draw(c.chance(1, 10) ? 20000 : 700), (char)c.draw(256)); break; case 5: f += enc_bin(gen_bin(c)).substr(0, c.draw(161)); } c.end(); }
    c.note("mode %d bytes (%zu): %s", mode, f.size(), hex(f.data(), f.size()).c_str());
    spew("deck", f); struct card_context *x = init_card_context(); x->mode = mode; int r = read_deck(x, (char *)"deck");
    int k = hopper_size(x); if (k < 0 || k > (int)f.size() + 1) c.fail("count", "%d cards out of %zu bytes", k, f.size()); if (f.empty() && k) c.fail("count", "cards from an empty file");
    uint16_t img[80]; int got = 0; while (read_card(x, &img)) { got++; for (int j = 0; j < 80; j++) if (img[j] > 0xfff) c.fail("punch", "card %d column %d holds %04x", got, j, img[j]); if (got > k) break; }
    if (r == 1 && got != k) c.fail("count", "hopper said %d cards, %d were read", k, got);
    if (mode == MODE_BIN && k != (int)((f.size() + 159) / 160)) c.fail("count", "binary deck of %zu bytes gives %d cards", f.size(), k);
    if (mode == MODE_EBCDIC && k != (int)((f.size() + 79) / 80)) c.fail("count", "EBCDIC deck of %zu bytes gives %d cards", f.size(), k);
    freectx(x); if (f.size() > 10) c.nontrivial(hbytes(f.data(), f.size(), mode)); c.label(fmt("fuzz mode %d", mode)); }
// ---- C06 ----------------------------------------------------------------
static void run_queue(Case &c) {
    struct card_context *hop = init_card_context(), *stk = init_card_context(); hop->mode = MODE_BIN; stk->mode = c.coin() ? MODE_BIN : MODE_OCTAL;
    std::deque<Card> hq; std::vector<Card> sq, punched; bool open = false; uint64_t h = 1; int reads = 0, loads = 0, stacks = 0; uint16_t img[80]; int serial = 1; bool big = c.chance(1, 8);
    auto mk = [&]() { Card k(80, 0); k[0] = serial & 0xfff; k[1] = (serial >> 12) & 0xfff; k[2] = 0x0c7; k[79] = (serial * 7) & 0xfff; serial++; return k; };
    auto filecheck = [&](const char *w) { std::string want; for (auto &k : punched) want += stk->mode == MODE_BIN ? enc_bin(k) : enc_octal(k) + "\n"; std::string got = slurp("punch"); if (got != want) c.fail("punchfile", "%s: punch file has %zu bytes, expected %zu (%zu cards)", w, got.size(), want.size(), punched.size()); };
    int n = 1 + c.draw(6 + c.size() / 2);
    for (int q = 0; q < n; q++) { c.begin();
        switch (c.weighted({3, 2, 6, 1, 6, 2, 1, 1, 1, 2})) {
        case 0: { int k = c.draw(big ? 1500 : 20); std::string f; std::vector<Card> add; for (int i = 0; i < k; i++) { add.push_back(mk()); f += enc_bin(add.back()); } spew("deck", f); c.note("read_deck %d", k); if (read_deck(hop, (char *)"deck") != 1) c.fail("load", "read_deck failed"); hq.insert(hq.end(), add.begin(), add.end()); loads++; h = mix(h, k); break; }
        case 1: { int k = c.draw(big ? 1500 : 20); c.note("blank_deck %d", k); blank_deck(hop, k); hq.insert(hq.end(), k, Card(80, 0)); h = mix(h, 5000 + k); loads++; break; }
        case 2: { int k = c.draw(big ? 1500 : 12); c.note("read %d", k); h = mix(h, 9000 + k); for (int i = 0; i < k; i++) { memset(img, 0x5a, sizeof img); int r = read_card(hop, &img); if (hq.empty()) { if (r != 0) c.fail("phantom", "a card read from an empty hopper"); break; } if (r != 1) c.fail("lost", "read_card returned %d with %zu cards in the hopper", r, hq.size());
                for (int j = 0; j < 80; j++) if (img[j] != hq[0][j]) c.fail("order", "card read has column %d = %03x, expected %03x (card %zu of history)", j, img[j], hq[0][j], (size_t)reads); hq.pop_front(); reads++; } break; }
        case 3: c.note("empty hopper"); empty_cards(hop); hq.clear(); h = mix(h, 3); break;
        case 4: { int k = 1 + c.draw(big ? 1200 : 6); c.note("stack %d", k); h = mix(h, 20000 + k); for (int i = 0; i < k; i++) { Card z = mk(); std::copy(z.begin(), z.end(), img); if (stack_card(stk, &img) != 0) c.fail("stack", "stack_card failed"); sq.push_back(z); stacks++; if (open) punched.push_back(z); } break; }
        case 5: { if (open) break; c.note("save_deck"); h = mix(h, 4); unlink("punch"); if (save_deck(stk, (char *)"punch") != 0) c.fail("save", "save_deck failed"); punched = sq; static int dummy; (void)dummy; open = true; if (stk->hopper_pos != stk->hopper_cards) c.fail("save", "cards left unpunched"); break; }
        case 6: { if (!open) break; c.note("close_deck"); h = mix(h, 6); close_deck(stk); filecheck("close"); open = false; // a later save starts after the cards already punched
                empty_cards(stk); sq.clear(); break; }
        case 7: { if (open) break; c.note("empty stacker"); empty_cards(stk); sq.clear(); h = mix(h, 7); break; }
        case 9: { int k = 1 + c.draw(big ? 1200 : 6); c.note("stack %d on the hopper", k); h = mix(h, 40000 + k); for (int i = 0; i < k; i++) { Card z = mk(); std::copy(z.begin(), z.end(), img); if (stack_card(hop, &img) != 0) c.fail("stack", "stack_card failed"); hq.push_back(z); } break; }
        case 8: { c.note("read_deck of a missing file"); if (read_deck(hop, (char *)"/nonexistent/deck") == 1) c.fail("load", "missing file accepted"); break; }
        }
        if (hopper_size(hop) != (int)hq.size()) c.fail("hopper_size", "hopper_size is %d, %zu cards are in it", hopper_size(hop), hq.size());
        if (stack_size(stk) != (int)sq.size()) c.fail("stack_size", "stack_size is %d, %zu cards were stacked", stack_size(stk), sq.size());
        c.end(); }
    if (open) { close_deck(stk); filecheck("end"); }
    else if (sq.size()) { if (save_deck(stk, (char *)"punch") != 0) c.fail("save", "save_deck failed"); punched = sq; close_deck(stk); filecheck("final save"); }
    while (hq.size()) { if (read_card(hop, &img) != 1) c.fail("lost", "hopper ran out with %zu cards due", hq.size()); for (int j = 0; j < 80; j++) if (img[j] != hq[0][j]) c.fail("order", "card read has column %d = %03x, expected %03x", j, img[j], hq[0][j]); hq.pop_front(); }
    if (read_card(hop, &img) != 0) c.fail("phantom", "a card too many"); freectx(hop); freectx(stk);
    if (reads >= 3 && loads >= 2 && stacks >= 2) c.nontrivial(h); if (big) c.label("over one allocation"); }
// ---- C07 ----------------------------------------------------------------
static void run_codes(Case &c) {
    struct card_context *x = init_card_context(); uint64_t h = 1;
    static std::map<uint16_t,int> inv; if (inv.empty()) for (int i = 0; i < 256; i++) inv[model_ebcdic_to_hol(i)] = i;
    if (inv.size() != 256) c.fail("model", "model is not one to one");
    for (int q = 0; q < 80; q++) { c.begin();
        switch (c.draw(6)) {
        case 0: { int b = c.draw(256); uint16_t hl = ebcdic_to_hol(b); c.note("ebcdic %02x", b); if (hl != model_ebcdic_to_hol(b)) c.fail("ebcdic_to_hol", "EBCDIC %02x gives punches %03x, expected %03x", b, hl, model_ebcdic_to_hol(b)); if (hol_to_ebcdic(hl) != b) c.fail("roundtrip", "EBCDIC %02x comes back as %02x", b, hol_to_ebcdic(hl)); h = mix(h, b); break; }
        case 1: { int p = c.draw(4096); uint16_t e = hol_to_ebcdic(p); auto it = inv.find(p); if (it == inv.end() ? (e < 0x100) : (e != it->second)) c.fail("hol_to_ebcdic", "punches %03x give EBCDIC %03x, expected %s", p, e, it == inv.end() ? "an error" : fmt("%02x", it->second).c_str()); h = mix(h, p); break; }
        case 2: { char ch = COMMON[c.draw(sizeof COMMON - 1)]; int e = model_ascii_to_ebcdic(ch); h = mix(h, ch); c.note("char %c", ch);
            if (ascii_to_ebcdic[(int)ch] != e) c.fail("ascii_to_ebcdic", "'%c' gives EBCDIC %02x, expected %02x", ch, ascii_to_ebcdic[(int)ch], e);
            if (ebcdic_to_ascii[e] != ch) c.fail("ebcdic_to_ascii", "EBCDIC %02x gives %02x, expected '%c'", e, ebcdic_to_ascii[e], ch);
            uint16_t hl = ascii_to_hol(ch); if (hl != model_ebcdic_to_hol(e)) c.fail("ascii_to_hol", "'%c' gives punches %03x, expected %03x", ch, hl, model_ebcdic_to_hol(e));
            if (hol_to_ascii(hl) != ch) c.fail("hol_to_ascii", "punches %03x give %02x, expected '%c'", hl, hol_to_ascii(hl), ch); break; }
        case 3: { int b = c.draw(256); int ones = __builtin_popcount(b) + ((odd_parity[b] & 0x100) ? 1 : 0); if ((ones & 1) == 0 || (odd_parity[b] & ~0x100)) c.fail("parity", "parity bit of %02x is %03x", b, odd_parity[b]); h = mix(h, 3 + b); break; }
        case 4: { int b = c.draw(64); int ones = __builtin_popcount(b) + ((parity_table[b] & 0100) ? 1 : 0); if ((ones & 1) != 0 || (parity_table[b] & ~0100)) c.fail("parity6", "six bit parity of %02o is %03o", b, parity_table[b]); h = mix(h, 4 + b); break; }
        case 5: { int b = c.draw(64); int d = b & 15, z = b >> 4, e; static const int zn[4] = {0xf0, 0xe0, 0xd0, 0xc0};
            static const int z0[4] = {0x40, 0x7a, 0x60, 0x50}; if (d == 0) e = z0[z]; else if (b == 0x11) e = 0x61; else if (d < 10) e = zn[z] | d; else if (d == 10) e = zn[z]; else e = (zn[z] & 0x7f) | d;
            if (bcd_to_ebcdic[b] != e) c.fail("bcd", "BCD %02o gives EBCDIC %02x, expected %02x", b, bcd_to_ebcdic[b], e); h = mix(h, 5 + b); break; }
        } c.end(); }
    freectx(x); c.nontrivial(h); }
static void run(Case &c) { if (MODE == "write") run_write(c); else if (MODE == "read") run_read(c); else if (MODE == "fuzz") run_fuzz(c); else if (MODE == "queue") run_queue(c); else run_codes(c); }
Harness HARNESS = {"C05", nullptr, run, 50};
