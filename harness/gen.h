// Choice-sequence generator: every random decision of a case is one recorded draw, so a case is
// replayed from its choices and shrunk by editing them.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// shared-memory mirror of a running case, readable by the parent after a crash
struct Mirror {
    static const uint32_t MAXC = 1 << 16, MAXT = 1 << 17;
    uint32_t n;
    uint32_t v[MAXC];
    int kind;        // outcome, -1 while running
    uint32_t msgLen, textLen;
    char msg[MAXT], text[MAXT];
};
extern Mirror *g_mirror;

struct Gen {
    std::vector<uint32_t> rec;            // choices made
    const std::vector<uint32_t> *src = nullptr;  // replayed choices (exhausted: 0)
    size_t pos = 0;
    uint64_t st = 0;
    explicit Gen(uint64_t seed) : st(seed) {}
    explicit Gen(const std::vector<uint32_t> *s) : src(s) {}
    // uniform in [0,n)
    uint32_t below(uint32_t n) {
        if (n == 0) n = 1;
        uint32_t v;
        if (src) {
            v = pos < src->size() ? (*src)[pos] : 0;
            pos++;
            if (v >= n) v = n - 1;
        } else {
            st = mix64(st);
            v = (uint32_t)((st >> 11) % n);
        }
        rec.push_back(v);
        if (g_mirror && g_mirror->n < Mirror::MAXC) g_mirror->v[g_mirror->n++] = v;
        return v;
    }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return below(den) >= (uint32_t)(den - num); }  // shrinks to false
    // weighted choice; shrinks to index 0
    int pick(std::initializer_list<int> w) {
        int t = 0;
        for (int x : w) t += x;
        int r = (int)below(t), i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return i - 1;
    }
    // signed small integer, shrinks to 0: 0,1,-1,2,-2...
    int sint(int m) {
        int v = (int)below(2 * m + 1);
        return (v & 1) ? (v + 1) / 2 : -(v / 2);
    }
};

struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Case {
    bool nontrivial = false;
    uint64_t hash = 0;
    std::string text;                 // human rendering of the case (input + expectation)
    std::vector<std::string> labels;  // classification
    long checks = 0;                  // oracle comparisons made
    std::string tier = "quick";
    void label(const std::string &s) { labels.push_back(s); }
    // call before exercising the code under test
    void commit() {
        if (!g_mirror) return;
        g_mirror->textLen = (uint32_t)std::min<size_t>(text.size(), Mirror::MAXT);
        for (uint32_t i = 0; i < g_mirror->textLen; i++) g_mirror->text[i] = text[i];
    }
};
typedef void (*CaseFn)(Gen &, Case &);
struct Prop {
    std::string id;
    CaseFn fn;
    long quick, thorough;  // cases
    std::string rule;
    bool noFork = false;
};
std::vector<Prop> &props();
struct Reg {
    Reg(const Prop &p) { props().push_back(p); }
};
[[noreturn]] inline void fail(const std::string &m) { throw Violation(m); }
