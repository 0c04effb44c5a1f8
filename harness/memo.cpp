// Histories of the operation cache, for MemoTrace.tla.
//   small   single insertions, lookups, purges over few nodes with chosen hash keys
//   big     rows of insertions: the cache grows by many doublings
//   huge    ... up to its largest size
#include "common.h"
#include "script.h"
#include "bdd_memo_cache.h"
#include "bdd_node_cache.h"
using namespace BDD;

struct Drv {
    Out o; Rng r; explicit Drv(uint64_t s) : r(s) {}
    size_t pattern = 0;
    size_t key(size_t i) {
        const size_t top = (size_t(1) << unique_table_hash_size) - 1;
        switch(pattern) {
            case 0: return 0;
            case 1: return top;
            case 2: return i % 2;
            case 3: return (i * 16) & top;   // equal in small caches
            case 4: return i % 5;
            case 5: return (i * 4096) & top;
            case 6: return i & top;
            default: return r.next() & top;
        }
    }
    // ------------------------------------------------------------ single operations
    std::unique_ptr<bdd_node_cache> store; std::unique_ptr<memo_cache> C;
    std::vector<node*> nd;                         // id - 1 -> node; the sinks are 1 and 2
    std::vector<std::vector<node_ref>> handles;
    std::vector<std::array<long,3>> keys;
    size_t nkey = 0;
    node* at(long x) { if(x == -1) return memo::and_symb(); if(x == -2) return memo::or_symb(); if(x == -3) return memo::xor_symb(); return nd[x-1]; }
    bool isnode(long x) { return x >= 1 && x <= long(nd.size()); }
    bool isop(long x) { return isnode(x) || (x >= -3 && x <= -1); }
    void fresh(node* p) { p->init_new_node(0, store->botsink(), store->topsink()); p->hash_key = key(nkey++); }
    void start(size_t n, size_t pat) {
        pattern = pat; nkey = 0; keys.clear(); handles.clear(); nd.clear();
        store.reset(new bdd_node_cache(nullptr)); C.reset(new memo_cache(*store));
        nd.push_back(store->botsink()); nd.push_back(store->topsink());
        for(size_t i=0; i<n; ++i) { node* p = store->reserve_node(); fresh(p); nd.push_back(p); }
        handles.resize(nd.size());
        o.begin("new"); o.num("n", nd.size()); o.end();
    }
    long idof(node* p) { if(p == nullptr) return 0; for(size_t i=0; i<nd.size(); ++i) if(nd[i] == p) return i+1; return -9; }
    void exec(const std::string& op, const std::vector<long>& a) {
        if(op == "new") start(a[0], a[1]);
        else if(op == "ins") { if(!isnode(a[0]) || !isnode(a[1]) || !isop(a[2]) || !isnode(a[3])) return;
            C->cache_insert(at(a[0]), at(a[1]), at(a[2]), at(a[3])); keys.push_back({a[0], a[1], a[2]});
            o.begin("ins"); o.num("f", a[0]); o.num("g", a[1]); o.num("h", a[2]); o.num("r", a[3]); o.end(); }
        else if(op == "look") { if(!isnode(a[0]) || !isnode(a[1]) || !isop(a[2])) return;
            node* p = C->cache_lookup(at(a[0]), at(a[1]), at(a[2]));
            o.begin("look"); o.num("f", a[0]); o.num("g", a[1]); o.num("h", a[2]); o.num("r", idof(p)); o.end(); }
        else if(op == "hold") { if(!isnode(a[0])) return; handles[a[0]-1].push_back(node_ref(nd[a[0]-1])); o.begin("hold"); o.num("id", a[0]); o.end(); }
        else if(op == "rel") { if(!isnode(a[0]) || handles[a[0]-1].empty()) return; handles[a[0]-1].pop_back(); o.begin("rel"); o.num("id", a[0]); o.end(); }
        else if(op == "purge") { C->purge(); o.begin("purge"); o.end(); }
        else if(op == "renew") { // what a collection does: purge, then free what is dead and use the memory for other nodes
            C->purge(); o.begin("purge"); o.end();
            std::vector<size_t> dead; for(size_t i=2; i<nd.size(); ++i) if(handles[i].empty()) { dead.push_back(i); store->free_node(nd[i]); }
            std::vector<node*> got; for(size_t i=0; i<dead.size(); ++i) { got.push_back(store->reserve_node()); fresh(got.back()); }
            for(size_t i=0; i<dead.size(); ++i) nd[dead[i]] = got[i]; }
        else if(op == "all") for(long f=1; f<=long(nd.size()); ++f) for(long g=1; g<=long(nd.size()); ++g) for(long h=-3; h<=long(nd.size()); ++h) { if(h == 0) continue; exec("look", {f, g, h}); }
        else exit(3);
    }
    void history(size_t ops) {
        start(r.range(1, r.chance(50) ? 5 : 24), r.below(10));
        const int ite = r.below(3) * 40; const int purges = r.below(3) * 3; const int holds = r.chance(50) ? 30 : 10;
        auto nod = [&]() { return long(r.range(1, nd.size())); };
        auto op = [&]() { return r.chance(ite) ? nod() : -long(r.range(1, 3)); };
        for(size_t i=0; i<ops; ++i) {
            const int c = r.below(100);
            if(c < 35) { if(!keys.empty() && r.chance(15)) { auto k = keys[r.below(keys.size())]; exec("ins", {k[0], k[1], k[2], nod()}); } else exec("ins", {nod(), nod(), op(), nod()}); }
            else if(c < 80) {
                if(keys.empty() || r.chance(15)) { exec("look", {nod(), nod(), op()}); continue; }
                const size_t w = r.chance(60) ? std::min<size_t>(keys.size(), 6) : keys.size();
                auto k = keys[keys.size() - 1 - r.below(w)];
                switch(r.below(8)) { case 0: std::swap(k[0], k[1]); break; case 1: k[2] = op(); break; case 2: if(k[2] > 0) std::swap(k[1], k[2]); break; case 3: k[r.below(2)] = nod(); break; default: break; }
                exec("look", {k[0], k[1], k[2]}); }
            else if(c < 80 + holds / 2) { if(r.chance(50)) exec("hold", {nod()}); else exec("rel", {nod()}); }
            else if(c < 95 + purges) exec(r.chance(50) ? "hold" : "rel", {nod()});
            else exec(r.chance(50) ? "purge" : "renew", {});
        }
        handles.clear(); C.reset(); store.reset();
    }
    // ------------------------------------------------------------ rows
    void big(size_t A, size_t B, size_t steps) {
        pattern = r.chance(70) ? 9 : r.below(7); nkey = 0;
        bdd_node_cache S(nullptr); memo_cache M(S);
        const size_t R = 211;
        auto mk = [&]() { node* p = S.reserve_node(); p->init_new_node(0, S.botsink(), S.topsink()); p->hash_key = key(nkey++); return p; };
        std::vector<node*> row, col, res; std::vector<node_ref> keep; std::vector<node_ref> rowh(A);
        for(size_t i=0; i<A; ++i) { row.push_back(mk()); rowh[i] = node_ref(row[i]); }
        for(size_t i=0; i<B; ++i) { col.push_back(mk()); keep.push_back(node_ref(col[i])); }
        for(size_t i=0; i<R; ++i) { res.push_back(mk()); keep.push_back(node_ref(res[i])); }
        node* other = mk(); keep.push_back(node_ref(other));
        std::vector<int> sym(A); for(auto& x : sym) x = r.below(4);
        auto symb = [&](int s) { return s == 0 ? memo::and_symb() : s == 1 ? memo::or_symb() : s == 2 ? memo::xor_symb() : other; };
        std::unordered_map<node*, size_t> resid; for(size_t i=0; i<R; ++i) resid[res[i]] = i;
        auto f = [&](size_t a, size_t b, size_t v) { return (a*7 + b*13 + v*29) % R; };
        o.begin("bnew"); o.num("rows", A); o.num("cols", B); o.end();
        std::vector<size_t> ver(A, 0);
        auto ins = [&](size_t a, size_t v) { for(size_t b=0; b<B; ++b) M.cache_insert(row[a], col[b], symb(sym[a]), res[f(a, b, v)]); ver[a] = v; o.begin("brow"); o.num("a", a); o.num("v", v); o.end(); };
        auto scan = [&](size_t a) {
            std::map<long, long> hit; size_t none = 0, alien = 0;
            for(size_t b=0; b<B; ++b) {
                node* p = M.cache_lookup(row[a], col[b], symb(sym[a]));
                if(p == nullptr) ++none;
                else { auto it = resid.find(p); if(it == resid.end()) { ++alien; continue; } long v = -1; for(long w=0; w<6 && v<0; ++w) if(f(a, b, w) == it->second) v = w; if(v < 0) ++alien; else ++hit[v]; }
                if(M.cache_lookup(col[b], row[a], symb(sym[a])) != nullptr) ++alien;
                if(M.cache_lookup(row[a], col[b], symb((sym[a] + 1 + b % 3) % 4)) != nullptr) ++alien;
            }
            o.begin("bscan"); o.num("a", a); std::vector<std::vector<long>> h; for(auto& x : hit) h.push_back({x.first, x.second}); o.arr("hit", h); o.num("none", none); o.num("alien", alien); o.end();
        };
        for(size_t a=0; a<A; ++a) { ins(a, 0); if(r.chance(5)) scan(r.below(a+1)); }
        for(size_t s=0; s<steps; ++s) {
            for(size_t k = r.range(0, 8); k > 0; --k) { const size_t a = r.below(A); ins(a, (ver[a] + r.range(1, 5)) % 6); }
            for(size_t k = std::min<size_t>(A, 12); k > 0; --k) scan(r.below(A));
            if(r.chance(60)) { // rows die; purge; their memory is used for other nodes
                std::vector<size_t> dead; for(size_t a=0; a<A; ++a) if(r.chance(10)) dead.push_back(a);
                for(size_t a : dead) rowh[a] = node_ref();
                M.purge();
                std::vector<long> d(dead.begin(), dead.end()); o.begin("bpurge"); o.arr("dead", d); o.end();
                for(size_t a : dead) S.free_node(row[a]);
                for(size_t a : dead) { row[a] = mk(); rowh[a] = node_ref(row[a]); }
                for(size_t i=0; i<dead.size() && i < 6; ++i) scan(dead[i]);
            }
        }
    }
};

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "small");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "script") for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) { for(auto& c : s) D.exec(c.first, c.second); D.handles.clear(); D.C.reset(); D.store.reset(); }
    else for(size_t h=0; h<hist; ++h) {
        if(name == "small") D.history(ops);
        else if(name == "big") D.big(D.r.range(1, 300), D.r.range(1, 600), ops);
        else if(name == "huge") D.big(2300, 2000, ops);
        else return 3;
    }
    D.o.close();
    return 0;
}
