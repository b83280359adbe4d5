// Property-based testing core: cases are functions of a recorded sequence of
// choices, so generation, replay and shrinking are generic.  Every case runs
// in a forked child, so a crash, sanitizer report or hang of the code under
// test is a failure of that case, never of the checker.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace pbt {

struct Failure { std::string key, msg; };
struct Discard {};

struct Span { uint32_t a, b; };

struct Shared;                 // lives in MAP_SHARED memory

class Case {
public:
    // --- choices -----------------------------------------------------
    uint64_t draw(uint64_t n);                  // [0,n)   n==0 means full 64 bit
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool     chance(unsigned num, unsigned den) { // shrinks towards false
        return draw(den) >= den - num; }
    bool     coin() { return draw(2) != 0; }
    uint32_t u32() { return (uint32_t)draw(0x100000000ull); }
    uint8_t  u8()  { return (uint8_t)draw(256); }
    // 32 bit value biased to interesting operands
    uint32_t edge32();
    uint64_t edge64();
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    unsigned weighted(std::initializer_list<unsigned> w);
    // span of choices belonging to one operation (helps shrinking)
    void begin(); void end();
    // --- verdicts ----------------------------------------------------
    [[noreturn]] void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf,3,4)));
    // usable from C callbacks: remembers the first failure, raised by check()
    void soft_fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf,3,4)));
    void check() { if (soft) { soft = false; throw softf; } }
    [[noreturn]] void discard() { throw Discard(); }
    // --- evidence ----------------------------------------------------
    bool verbose() const { return want_note; }
    void note(const char *fmt, ...) __attribute__((format(printf,2,3)));
    void nontrivial(uint64_t h) { nt.push_back(h); }
    void label(const std::string &s) { labels[s]++; }
    size_t size() const { return sz; }           // 0..100 growing over a run
    // --- internal ----------------------------------------------------
    uint64_t s[2]; const std::vector<uint64_t> *rep = nullptr; size_t pos = 0;
    size_t sz = 100; bool want_note = false; std::string notes;
    std::vector<uint64_t> nt; std::map<std::string,uint64_t> labels;
    bool soft = false; Failure softf; std::vector<uint32_t> open;
    uint64_t rnd();
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 0x1234567) {
    const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return mix(h, n); }
std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
std::string hex(const void *p, size_t n, size_t max = 64);

struct Harness {
    const char *property;                       // default id
    void (*init)() = nullptr;                    // once, before any fork
    void (*run)(Case &) = nullptr;               // one generated case
    unsigned batch = 100;                        // cases per forked child
    unsigned cpu_limit = 20;                     // seconds of CPU per case
    unsigned max_shrink_s = 40;
    unsigned wall_limit = 0;                     // 0: 10*cpu_limit+60
};
}
// provided by each harness
extern pbt::Harness HARNESS;
extern const char *const *HARNESS_ARGS;
extern std::string MODE;                         // --mode given on command line
