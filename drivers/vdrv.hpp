// Shared helpers of the drivers: ndjson writer, deterministic random numbers, behaviour files.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>

namespace vdrv {

struct rng {
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
};

struct out {
    FILE *f;
    std::string line;
    bool first = true;
    explicit out(const char *path) {
        f = fopen(path, "w");
        if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
        setvbuf(f, nullptr, _IOFBF, 1 << 16);
        current() = f;
        std::signal(SIGABRT, [](int) { if (current()) fflush(current()); std::signal(SIGABRT, SIG_DFL); std::raise(SIGABRT); });
    }
    static FILE *&current() { static FILE *c = nullptr; return c; }
    ~out() { current() = nullptr; fclose(f); }
    out &begin(const char *ev) { line = "{\"e\":\""; line += ev; line += "\""; return *this; }
    out &key(const char *k) { line += ",\""; line += k; line += "\":"; return *this; }
    out &raw(const std::string &v) { line += v; return *this; }
    out &kv(const char *k, long long v) { key(k); line += std::to_string(v); return *this; }
    out &kb(const char *k, bool v) { key(k); line += v ? "true" : "false"; return *this; }
    out &ks(const char *k, const std::string &v) { key(k); line += "\"" + v + "\""; return *this; }
    template<typename C> out &arr(const char *k, const C &c) {
        key(k); line += "[";
        bool sep = false;
        for (auto &x : c) { if (sep) line += ","; sep = true; line += std::to_string((long long)x); }
        line += "]"; return *this;
    }
    template<typename C> out &arr2(const char *k, const C &c) {
        key(k); line += "[";
        bool sep = false;
        for (auto &r : c) {
            if (sep) line += ","; sep = true;
            line += "[";
            bool s2 = false;
            for (auto &x : r) { if (s2) line += ","; s2 = true; line += std::to_string((long long)x); }
            line += "]";
        }
        line += "]"; return *this;
    }
    void end() { line += "}\n"; fputs(line.c_str(), f); fflush(f); }
    void endq() { line += "}\n"; fputs(line.c_str(), f); }   // no flush
    void reset() { fputs("{\"e\":\"reset\"}\n", f); fflush(f); }
};

// One line of a behaviour file (TLC's CSVWrite of a sequence of tuples) -> all the integers in it.
inline std::vector<std::vector<int>> read_behaviours(const char *path) {
    std::vector<std::vector<int>> res;
    std::ifstream in(path);
    std::string l;
    while (std::getline(in, l)) {
        std::vector<int> v;
        for (size_t i = 0; i < l.size();) {
            if (isdigit((unsigned char)l[i]) || (l[i] == '-' && i + 1 < l.size() && isdigit((unsigned char)l[i + 1]))) {
                char *e;
                v.push_back((int)strtol(l.c_str() + i, &e, 10));
                i = e - l.c_str();
            } else ++i;
        }
        if (!v.empty()) res.push_back(v);
    }
    return res;
}

// Scale a real to an integer; non-finite or huge values become a recognisable sentinel.
inline long long sc(double x, double s = 1000) {
    if (!(x == x)) return 2000000001;
    double y = x * s;
    if (y > 1.5e9 || y < -1.5e9) return y > 0 ? 2000000000 : -2000000000;
    return llround(y);
}

}
