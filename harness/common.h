// Shared by all drivers: random numbers, event log, universes of assignments.
// Drivers use the public interface of /repo/include only. They record what the code does;
// they judge nothing. Judging is done by the TLA+ trace specifications.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <sstream>
#include <cstring>

extern uint64_t harness_hash_seed; // seeds std::random_device, see det.cpp

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    size_t below(size_t n) { return n == 0 ? 0 : next() % n; }
    size_t range(size_t a, size_t b) { return a + below(b - a + 1); } // inclusive
    bool chance(int percent) { return below(100) < size_t(percent); }
};

using Words = std::vector<int>;

struct Out {
    FILE* f = nullptr;
    std::string cur;
    bool first = true;
    size_t events = 0;
    void open(const char* path) { f = fopen(path, "w"); if(!f) { perror(path); exit(3); } }
    void begin(const char* e) { cur = "{\"e\":\""; cur += e; cur += "\""; }
    void key(const char* k) { cur += ",\""; cur += k; cur += "\":"; }
    void val(long v) { cur += std::to_string(v); }
    void val(const std::string& s) { cur += "\"" + s + "\""; }
    template<class T> void val(const std::vector<T>& v) {
        cur += "[";
        for(size_t i=0; i<v.size(); ++i) { if(i) cur += ","; val(v[i]); }
        cur += "]";
    }
    void num(const char* k, long v) { key(k); val(v); }
    void str(const char* k, const std::string& v) { key(k); val(v); }
    template<class T> void arr(const char* k, const std::vector<T>& v) { key(k); val(v); }
    void end() { cur += "}\n"; fwrite(cur.data(), 1, cur.size(), f); fflush(f); ++events; }
    void close() { if(f) fclose(f); f = nullptr; }
};

inline void val_pair(Out& o, long a, long b) { o.cur += "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }

// Points at which functions are observed
struct Universe {
    size_t n = 0;      // variables
    bool exact = true;
    std::vector<std::vector<char>> pts; // assignments
    static Universe all(size_t n) {
        Universe u; u.n = n;
        for(size_t p=0; p < (size_t(1) << n); ++p) {
            std::vector<char> a(n);
            for(size_t v=0; v<n; ++v) a[v] = (p >> v) & 1;
            u.pts.push_back(a);
        }
        return u;
    }
    // random assignments of n variables, with varied numbers of true variables
    static Universe sample(size_t n, size_t k, Rng& r) {
        Universe u; u.n = n; u.exact = false;
        for(size_t i=0; i<k; ++i) {
            std::vector<char> a(n, 0);
            switch(i % 4) {
                case 0: for(auto& x : a) x = r.below(2); break;
                case 1: { size_t c = r.below(std::min<size_t>(n, 6) + 1); for(size_t j=0; j<c; ++j) a[r.below(n)] = 1; break; }
                case 2: { for(auto& x : a) x = 1; size_t c = r.below(std::min<size_t>(n, 6) + 1); for(size_t j=0; j<c; ++j) a[r.below(n)] = 0; break; }
                case 3: { size_t c = r.below(n+1); std::vector<size_t> idx(n); for(size_t j=0; j<n; ++j) idx[j] = j;
                          for(size_t j=0; j<c; ++j) { std::swap(idx[j], idx[j + r.below(n-j)]); a[idx[j]] = 1; } break; }
            }
            u.pts.push_back(a);
        }
        return u;
    }
    // a point in one of several containers, some longer than needed
    template<class F> bool at(size_t p, F f) const {
        const std::vector<char>& a = pts[p];
        switch(turn++ % 16) {
            case 0: { std::vector<bool> b(a.begin(), a.end()); return f(b.begin(), b.end()); }
            case 1: { std::vector<int> b(a.begin(), a.end()); b.push_back(1); return f(b.begin(), b.end()); }
            case 2: { std::deque<size_t> b(a.begin(), a.end()); return f(b.begin(), b.end()); }
            case 3: { std::vector<char> b = a; for(char& x : b) if(x) x = 4; return f(b.begin(), b.end()); }
            case 4: return f(a.data(), a.data() + a.size());
            default: return f(a.begin(), a.end());
        }
    }
    mutable size_t turn = 0;
    size_t words() const { return (pts.size() + 15) / 16; }
    template<class F> Words tabulate(F f) const {
        Words w(words(), 0);
        for(size_t p=0; p<pts.size(); ++p) if(f(p)) w[p/16] |= 1 << (p % 16);
        return w;
    }
    Words full() const { return tabulate([](size_t) { return true; }); }
    Words var(size_t v) const { return tabulate([&](size_t p) { return bool(pts[p][v]); }); }
    void header(Out& o) const {
        o.arr("full", full());
        std::vector<Words> vs; for(size_t v=0; v<n; ++v) vs.push_back(var(v));
        o.arr("var", vs); o.num("exact", exact); o.num("n", n);
    }
};

inline const char* arg(int argc, char** argv, const char* name, const char* def) {
    for(int i=1; i+1<argc; ++i) if(!strcmp(argv[i], name)) return argv[i+1];
    return def;
}
