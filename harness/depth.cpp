// Histories of depth bookkeeping, for DepthTrace.tla.
#include "common.h"
#include "script.h"
#include "bdd_node_depth.h"
#include "bdd_node_cache.h"
using namespace BDD;

struct Drv {
    Out o; Rng r; explicit Drv(uint64_t s) : r(s) {}
    std::unique_ptr<bdd_node_cache> S; std::unique_ptr<bdd_node_depth> D; std::vector<node*> nd; size_t idx = 0;
    void start(long order) {
        S.reset(new bdd_node_cache(nullptr)); D.reset(new bdd_node_depth); nd.clear(); nd.push_back(S->botsink()); nd.push_back(S->topsink()); idx = 1000000;
        if(order) { D->add_topsink(nd[1]); D->add_botsink(nd[0]); } else { D->add_botsink(nd[0]); D->add_topsink(nd[1]); }
        o.begin("new"); o.end();
    }
    void add(long lo, long hi) {
        if(lo < 1 || hi < 1 || lo > long(nd.size()) || hi > long(nd.size()) || lo == hi) return;
        node* p = S->reserve_node(); p->init_new_node(--idx, nd[lo-1], nd[hi-1]); nd.push_back(p);
        const size_t d = D->add_node(p);
        o.begin("add"); o.num("lo", lo); o.num("hi", hi); o.num("d", d > 2000000000 ? 2000000000 : d); o.end();
    }
    // m nodes in a row on top of node lo; the other child is a sink
    void chain(long lo, long sink, size_t m, bool swap) {
        if(lo <= 2) sink = 3 - lo;
        o.begin("chain"); o.num("lo", lo); o.num("sink", sink); o.num("m", m); std::vector<long> d;
        for(size_t i=0; i<m; ++i) {
            node* below = i == 0 ? nd[lo-1] : nd.back();
            node* p = S->reserve_node(); if(swap && (i & 1)) p->init_new_node(--idx, nd[sink-1], below); else p->init_new_node(--idx, below, nd[sink-1]); nd.push_back(p);
            const size_t k = D->add_node(p); d.push_back(k > 2000000000 ? 2000000000 : k);
        }
        o.arr("d", d); o.end();
    }
    void longhistory(size_t ops) {
        start(r.below(2)); const bool swap = r.chance(50);
        for(size_t i=0; i<20; ++i) { const size_t n = nd.size(); size_t a = r.range(1, n), b = r.range(1, n); if(a == b) b = a == 1 ? 2 : 1; add(a, b); }
        chain(nd.size(), r.range(1, 2), ops, swap);
        for(size_t i=0; i<30; ++i) { const size_t n = nd.size(); size_t a = r.chance(50) ? n : r.range(1, n), b = r.range(1, n); if(a == b) b = 1; add(a, b); }
        chain(r.range(1, nd.size()), r.range(1, 2), ops / 7, !swap);
        for(size_t i=0; i<30; ++i) { const size_t n = nd.size(); size_t a = r.chance(50) ? n : r.range(1, n), b = r.range(1, n); if(a == b) b = 1; add(a, b); }
        D.reset(); S.reset();
    }
    void exec(const std::string& op, const std::vector<long>& a) { if(op == "new") start(a[0]); else if(op == "add") add(a[0], a[1]); else exit(3); }
    void history(size_t ops) {
        start(r.below(2)); const int kind = r.below(5);
        for(size_t i=0; i<ops; ++i) {
            const size_t n = nd.size(); size_t a = r.range(1, n), b = r.range(1, n);
            switch(kind) {
                case 0: break;
                case 1: a = n; b = r.range(1, 2); break;                       // chain
                case 2: a = n - r.below(std::min<size_t>(n, 4)); b = n - r.below(std::min<size_t>(n, 4)); break;
                case 3: a = n; b = n > 3 ? n-1 : r.range(1, 2); break;
                case 4: if(r.chance(60)) { a = r.range(1, std::min<size_t>(n, 6)); b = n; } break;
            }
            if(a == b) b = a == 1 ? 2 : 1;
            if(r.chance(50)) std::swap(a, b);
            add(a, b);
        }
        D.reset(); S.reset();
    }
};

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "small");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "script") for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) for(auto& c : s) D.exec(c.first, c.second);
    else if(name == "small") for(size_t h=0; h<hist; ++h) D.history(ops);
    else if(name == "long") for(size_t h=0; h<hist; ++h) D.longhistory(ops);
    else return 3;
    D.o.close();
    return 0;
}
