// Choice-sequence property-based testing engine (generation, integrated shrinking, replay, crash isolation).
//
// A case is a sequence of integer choices. Generators draw choices from a Src; in random mode the
// draws come from a PRNG seeded by (run seed, case index) and are recorded, in replay mode they come
// from a recorded sequence (missing choices read as 0, too large ones are reduced). Shrinking edits the
// recorded sequence, so it works for every generator, and a replay file is just that sequence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

typedef std::string Bytes;

class Src {
 public:
    explicit Src(uint64_t seed, int tier) : replaying(false), rng(seed), tier_(tier) {}
    Src(const std::vector<uint64_t>& r, int tier) : replaying(true), rng(0), in(r), tier_(tier) {}

    int tier() const { return tier_; }  // 0 quick, 1 thorough

    // uniform in [0, max]
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (replaying) {
            v = pos < in.size() ? in[pos] : 0;
            ++pos;
            if (max != UINT64_MAX && v > max) v = v % (max + 1);
        } else {
            v = rng.next();
            if (max != UINT64_MAX) v %= (max + 1);
        }
        rec.push_back(v);
        if (sink && rec.size() <= sink_cap) { sink[rec.size()] = v; sink[0] = rec.size(); }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo)); }
    // value in [lo, hi], biased to small values and to both ends; shrinks to lo
    int64_t skew(int64_t lo, int64_t hi) {
        if (hi <= lo) { draw(0); draw(0); return lo; }
        uint64_t span = (uint64_t) (hi - lo);
        uint64_t k = draw(9);
        uint64_t m;
        if (k < 4) m = std::min<uint64_t>(span, 8);
        else if (k < 6) m = std::min<uint64_t>(span, 64);
        else if (k < 9) m = span;
        else { uint64_t d = draw(std::min<uint64_t>(span, 3)); return hi - (int64_t) d; }
        return lo + (int64_t) draw(m);
    }
    bool boolean() { return draw(1) == 1; }
    // true with probability num/den (shrinks to false)
    bool chance(int num, int den) { return draw(den - 1) >= (uint64_t) (den - num); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    size_t weighted(std::initializer_list<int> w) {
        int sum = 0; for (int x : w) sum += x;
        int d = (int) draw(sum - 1), i = 0;
        for (int x : w) { if (d < x) return i; d -= x; ++i; }
        return 0;
    }
    // list continuation flag: about `mean` elements on average; deletes well when shrinking
    bool more(int mean) { return draw(mean) != 0; }

    // content of length n from a single choice, so that it shrinks fast; 0 -> all zero bytes
    Bytes blob(size_t n) {
        uint64_t k = draw(5), seed = draw(0xffffffff);
        Bytes b(n, '\0');
        if (seed == 0) return b;
        Rng r(seed);
        for (size_t i = 0; i < n; ++i) {
            switch (k) {
                case 0: case 1: case 2: b[i] = (char) r.next(); break;
                case 3: b[i] = (char) (i * 7 + seed); break;
                case 4: b[i] = (r.next() & 3) ? 0 : (char) (r.next() & 3); break;  // near start codes
                case 5: b[i] = (r.next() & 1) ? (char) 0xff : (char) r.next(); break;
            }
        }
        return b;
    }
    Bytes text(size_t n, const char* alphabet) {
        uint64_t seed = draw(0xffffffff);
        size_t m = strlen(alphabet);
        Bytes b(n, alphabet[0]);
        if (seed == 0) return b;
        Rng r(seed);
        for (auto& c : b) c = alphabet[r.next() % m];
        return b;
    }

    std::vector<uint64_t> rec;
    static uint64_t* sink;       // shared memory copy of rec, survives a crash
    static size_t sink_cap;

 private:
    bool replaying;
    Rng rng;
    std::vector<uint64_t> in;
    size_t pos = 0;
    int tier_;
};

// per-case context: description, classification, verdict
struct Ctx {
    bool nontrivial = false;
    bool want_desc = false;
    std::ostringstream desc;                 // readable form of the case
    std::vector<std::string> labels;
    uint64_t digest = 1469598103934665603ull;  // digest of the actual input, for distinctness
    void mix(const void* p, size_t n) {
        const uint8_t* c = (const uint8_t*) p;
        for (size_t i = 0; i < n; ++i) { digest ^= c[i]; digest *= 1099511628211ull; }
    }
    void mix(const std::string& s) { mix(s.data(), s.size()); }
    void label(const std::string& l) { labels.push_back(l); }
    void label_if(bool b, const std::string& l) { if (b) labels.push_back(l); }
};

struct Property {
    std::string id;
    std::string rule;       // how cases are made and what makes one non-trivial
    std::function<void(Src&, Ctx&)> body;
    std::function<void()> setup;   // once per process, after fork
    long quick_cases = 20000;
    long thorough_cases = 400000;
    double case_timeout = 20;      // seconds without finishing one case => hang
    bool cpu_clock = true;         // hang measured in CPU time (pure computation) or wall time (sockets)
    int max_workers = 8;
    std::vector<std::string> assumptions;
};

std::string hex(const void* p, size_t n, size_t limit = 64);
inline std::string hex(const std::string& s, size_t limit = 64) { return hex(s.data(), s.size(), limit); }
std::string quote(const std::string& s, size_t limit = 200);

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

const std::string& scratch();   // directory removed when the run ends

int run_main(int argc, char** argv, std::vector<Property> props);

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(c) do { if (!(c)) pbt::fail(std::string("line " PBT_STR(__LINE__) ": " #c)); } while (0)
#define CHECK_MSG(c, m) do { if (!(c)) { std::ostringstream o_; o_ << "line " PBT_STR(__LINE__) ": " #c ": " << m; pbt::fail(o_.str()); } } while (0)
#define CHECK_EQ(a, b) do { auto va_ = (a); auto vb_ = (b); if (!(va_ == vb_)) { std::ostringstream o_; \
    o_ << "line " PBT_STR(__LINE__) ": " #a " == " #b " : " << va_ << " vs " << vb_; pbt::fail(o_.str()); } } while (0)
