// Small choice-sequence property-testing engine (generate / classify / shrink / replay).
//
// Every random decision of a case is a recorded choice.  A case is therefore a vector of
// integers: shrinking edits that vector, replay feeds it back.  Cases run in forked workers, so
// a crash, a sanitizer report or a hang of the code under test is an observed failure of that
// one case and is shrunk like any other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdarg>

namespace pbt {

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}

struct Src {
    std::vector<uint32_t> rec;          // choices made so far
    const std::vector<uint32_t>* in = nullptr;  // replayed choices (zeros after the end)
    uint64_t s = 0;
    size_t   limit = 200000;
    bool     exhausted = false;

    uint32_t raw()
    {
        uint32_t v;
        if (in) v = rec.size() < in->size() ? (*in)[rec.size()] : 0;
        else { s += 0x9E3779B97F4A7C15ull; v = (uint32_t)(mix(s) >> 16); }
        return v;
    }
    // uniform in [0, n); the recorded choice is the reduced value, smaller is simpler
    uint32_t below(uint32_t n)
    {
        uint32_t v = raw();
        if (n) v %= n;
        if (rec.size() >= limit) { exhausted = true; v = 0; }
        rec.push_back(v);
        return v;
    }
    int32_t range(int32_t lo, int32_t hi) { return lo + (int32_t)below((uint32_t)(hi - lo + 1)); }
    bool    chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }  // 0 -> false
    uint32_t word() { return below(0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    // 32-bit value biased to boundaries
    int32_t i32()
    {
        static const int32_t pool[] = { 0, 1, -1, 2, -2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100,
            127, 128, 129, 255, 256, 257, -127, -128, -129, 32767, 32768, 32769, 65535, 65536, 65537, -32767,
            -32768, -32769, 0x7fffffff, (int32_t)0x80000000, (int32_t)0x80000001, 0x7ffffffe, 0x12345678,
            (int32_t)0xdeadbeef, (int32_t)0xaaaaaaaa, 0x55555555, 1000000007, -1000000007, (int32_t)0x80808080,
            0x7f7f7f7f, 0x00ff00ff, (int32_t)0xff00ff00 };
        switch (below(6)) {
        case 0: return (int32_t)below(16);
        case 1: case 2: return pool[below(sizeof(pool) / sizeof(*pool))];
        case 3: return (int32_t)(1u << below(32));
        case 4: return range(-1000, 1000);
        default: return (int32_t)word();
        }
    }
    float f32()
    {
        static const float pool[] = { 0.0f, 1.0f, -1.0f, 0.5f, 2.0f, -0.0f, 3.25f, 1e10f, -1e10f, 1e-10f, 16777216.0f,
            16777217.0f, 2147483520.0f, -2147483648.0f, 65536.5f, 0.1f, 1e30f, 1.17549435e-38f, 1e-40f, 1.0000001f };
        switch (below(4)) {
        case 0: return (float)range(-1000, 1000);
        case 1: return pool[below(sizeof(pool) / sizeof(*pool))];
        case 2: return (float)range(-100000, 100000) / 64.0f;
        default: return (float)(int32_t)word() * 0.001f;
        }
    }
};

struct Ctx {
    Src  src;
    std::set<std::string> labels;
    bool nontrivial = false;
    bool discarded  = false;
    uint64_t key = 0;                 // identity of the generated case
    bool failed = false;
    std::string msg;
    bool describe = false;
    std::string desc;

    void label(const std::string& l) { labels.insert(l); }
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (failed) return;
        failed = true;
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        msg = buf;
    }
    void say(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!describe) return;
        char buf[8192];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (desc.size() < 60000) desc += buf;
    }
};

typedef void (*CaseFn)(Ctx&);

struct Check {
    std::string id;
    CaseFn      fn;
    uint32_t    quick;       // cases in the quick tier
    uint32_t    thorough;    // cases in the thorough tier
    std::string rule;        // evidence: generation + non-triviality rule
    std::string level_note;
    std::vector<std::string> assumptions;
};

int main_(int argc, char** argv, const std::vector<Check>& checks);

// Text a case may leave behind (shared with the parent) so that a crash can be explained.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

}  // namespace pbt
