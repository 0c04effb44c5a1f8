// Histories of the caches of table pages, for PageTrace.tla, all fifteen page sizes.
#include "common.h"
#include "script.h"
#include "bdd_var.h"
using namespace BDD;

template<size_t S, size_t N> struct One {
    unique_table_page_cache<S, N> c;
    using P = unique_table_page<S>;
    std::map<char*, std::pair<P*, size_t>> out;            // by address; stamp
    std::vector<P*> order; std::set<P*> ever; size_t stamp = 0;
    Out& o; Rng& r;
    One(Out& _o, Rng& _r) : o(_o), r(_r) { o.begin("new"); o.num("size", S); o.num("block", N); o.num("total", c.nr_pages()); o.end(); }
    node* mark(size_t st, size_t i) { return reinterpret_cast<node*>((st * 1048583 + i) * 16 + 16); }
    void fill(P* p, size_t st) { for(size_t i=0; i<S; ++i) p->data[i] = mark(st, i); }
    bool intact(P* p, size_t st) { for(size_t i=0; i<S; ++i) if(p->data[i] != mark(st, i)) return false; return true; }
    void reserve(size_t n) {
        size_t empty = 0, clash = 0, seen = 0;
        const size_t bytes = S * sizeof(node*);
        for(size_t k=0; k<n; ++k) {
            P* p = c.reserve_page(); char* a = reinterpret_cast<char*>(p);
            bool e = true; for(size_t i=0; i<S; ++i) if(p->data[i] != nullptr) e = false; empty += e;
            auto it = out.lower_bound(a); bool hit = it != out.end() && it->first < a + bytes;
            if(it != out.begin()) { --it; hit = hit || it->first + bytes > a; }
            clash += hit; seen += !ever.insert(p).second;
            if(!hit) { fill(p, ++stamp); out[a] = {p, stamp}; order.push_back(p); }
        }
        o.begin("res"); o.num("n", n); o.num("empty", empty); o.num("clash", clash); o.num("seen", seen); o.num("total", c.nr_pages()); o.end();
    }
    void release(size_t n, int how) {
        size_t ok = 0; n = std::min(n, order.size());
        for(size_t k=0; k<n; ++k) {
            const size_t q = how == 0 ? order.size()-1 : how == 1 ? 0 : r.below(order.size());
            P* p = order[q]; if(how == 1) order.erase(order.begin()); else { order[q] = order.back(); order.pop_back(); }
            auto it = out.find(reinterpret_cast<char*>(p)); ok += intact(p, it->second.second); out.erase(it);
            c.free_page(p);
        }
        o.begin("free"); o.num("n", n); o.num("ok", ok); o.num("total", c.nr_pages()); o.end();
    }
    std::map<long, P*> named; // pages of a script
    void get(long q) {
        const size_t k = order.size(); reserve(1);
        if(order.size() > k) { named[q] = order.back(); }
    }
    void put(long q) {
        auto it = named.find(q); if(it == named.end()) return;
        auto at = std::find(order.begin(), order.end(), it->second); named.erase(it); if(at == order.end()) return;
        std::swap(*at, order.back()); release(1, 0);
    }
    void scan() { size_t ok = 0; for(auto& x : out) ok += intact(x.second.first, x.second.second); o.begin("scan"); o.num("n", out.size()); o.num("ok", ok); o.num("total", c.nr_pages()); o.end(); }
};

template<size_t S, size_t N> void history(Out& o, Rng& r, size_t ops)
{
    One<S, N> d(o, r);
    for(size_t i=0; i<ops; ++i) {
        const size_t room = 3 * N + 2 - std::min<size_t>(d.out.size(), 3 * N + 1); // at most three blocks
        if(r.chance(55) || d.out.empty()) { static const size_t q[] = {1, 1, 2, 3}; size_t n = r.chance(50) || N < 64 ? q[r.below(4)] : r.chance(40) ? r.range(1, N) : N - 2 + r.below(5); d.reserve(std::min(n, room)); }
        else { size_t n = r.chance(50) ? 1 : r.chance(30) ? d.out.size() : r.range(1, d.out.size()); d.release(n, N > 4000 && n > 500 ? 2 * r.below(2) : r.below(3)); }
        if(r.chance(20) || i + 1 == ops) d.scan();
    }
}
template<size_t S, size_t N> void script(Out& o, Rng& r, const std::vector<Cmd>& s)
{
    One<S, N> d(o, r);
    for(auto& c : s) { if(c.first == "get") d.get(c.second[0]); else if(c.first == "put") d.put(c.second[0]); else exit(3); }
    d.scan();
}
template<class C> struct Dim;
template<size_t S, size_t N> struct Dim<unique_table_page_cache<S, N>> {
    static void run(Out& o, Rng& r, size_t ops) { history<S, N>(o, r, ops); }
    static void scr(Out& o, Rng& r, const std::vector<Cmd>& s) { script<S, N>(o, r, s); }
};
#define ALL(X) X(64) X(128) X(256) X(512) X(1024) X(2048) X(4096) X(8192) X(16384) X(32768) X(65536) X(131072) X(262144) X(524288) X(1048576)

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "all");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    Rng r(seed); Out o; o.open(arg(argc, argv, "--out", "/dev/stdout"));
    using Cs = unique_table_page_caches;
    auto one = [&](size_t k) {
        size_t i = 0;
#define RUN(S) if(i++ == k) Dim<decltype(Cs::cache_##S)>::run(o, r, S > 16384 ? ops / 2 : ops);
        ALL(RUN)
    };
    if(name == "script") for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) { const size_t which = s[0].second[0]; size_t i = 0;
        const std::vector<Cmd> rest(s.begin()+1, s.end());
#define SCR(S) if(i++ == which) Dim<decltype(Cs::cache_##S)>::scr(o, r, rest);
        ALL(SCR) }
    else if(name == "all") for(size_t h=0; h<hist; ++h) for(size_t k=0; k<15; ++k) one(k);
    else if(name == "small") for(size_t h=0; h<hist; ++h) one(r.range(10, 14)); // few pages per block
    else return 3;
    o.close();
    return 0;
}
