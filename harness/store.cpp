// Histories of the node store, for StoreTrace.tla.
//   small   single reservations and frees, contents read back
//   big     thousands of reservations at once, over many page extensions
#include "common.h"
#include "script.h"
#include "bdd_node_cache.h"
#include <unordered_set>
using namespace BDD;

struct Drv {
    Out o; Rng r; explicit Drv(uint64_t s) : r(s) {}
    std::unique_ptr<bdd_node_cache> S;
    std::unordered_map<node*, long> ids; std::vector<node*> at; // ids name addresses; the sinks are 1 and 2
    size_t unseen = 0; std::vector<long> used; std::map<long, std::vector<node_ref>> handles; size_t stamp = 0;
    long id(node* p) { auto it = ids.find(p); if(it != ids.end()) return it->second; at.push_back(p); ids[p] = at.size(); return at.size(); }
    bool in_use(long x) { return x == 1 || x == 2 || std::find(used.begin(), used.end(), x) != used.end(); }
    void start() {
        handles.clear(); used.clear(); unseen = 0; ids.clear(); at.clear(); S.reset(new bdd_node_cache(nullptr));
        o.begin("new"); o.num("bot", id(S->botsink())); o.num("top", id(S->topsink())); o.num("isbot", S->botsink()->is_botsink()); o.num("istop", S->topsink()->is_topsink()); o.num("cnt", S->nr_nodes()); o.end();
    }
    void peek(long x) {
        node* p = at[x-1]; o.begin("peek"); o.num("id", x);
        if(x > 2) { o.num("lo", ids.count(p->lo) ? ids[p->lo] : -1); o.num("hi", ids.count(p->hi) ? ids[p->hi] : -1); o.num("idx", p->index); o.num("key", p->hash_key); }
        o.num("xref", long(p->xref) - (x <= 2 ? long(unseen) : 0)); o.num("cnt", S->nr_nodes() - unseen); o.end();
    }
    void exec(const std::string& op, const std::vector<long>& a) {
        if(op == "new") start();
        else if(op == "fill") for(; unseen < size_t(a[0]); ++unseen) S->reserve_node()->init_new_node(7, at[0], at[1]); // nodes that are not reported
        else if(op == "res") { if(!in_use(a[0]) || !in_use(a[1])) return;
            node* p = S->reserve_node(); const long x = id(p); ++stamp;
            if(x > 2) { p->init_new_node(stamp % 1000, at[a[0]-1], at[a[1]-1]); p->hash_key = (stamp * 77) % 4096; }
            used.push_back(x);
            o.begin("res"); o.num("id", x); o.num("lo", a[0]); o.num("hi", a[1]); o.num("idx", stamp % 1000); o.num("key", (stamp * 77) % 4096); o.num("cnt", S->nr_nodes() - unseen); o.end(); }
        else if(op == "free") { auto it = std::find(used.begin(), used.end(), a[0]); if(it == used.end()) return; node* p = at[a[0]-1]; if(p->xref > 0) return;
            S->free_node(p); used.erase(it); o.begin("free"); o.num("id", a[0]); o.num("cnt", S->nr_nodes() - unseen); o.end(); }
        else if(op == "hold") { if(!in_use(a[0])) return; handles[a[0]].push_back(node_ref(at[a[0]-1])); o.begin("hold"); o.num("id", a[0]); o.end(); }
        else if(op == "rel") { auto it = handles.find(a[0]); if(it == handles.end()) return; it->second.pop_back(); if(it->second.empty()) handles.erase(it); o.begin("rel"); o.num("id", a[0]); o.end(); }
        else if(op == "peek") { if(in_use(a[0])) peek(a[0]); }
        else if(op == "all") { peek(1); peek(2); for(long x : used) peek(x); }
        else exit(3);
    }
    void history(size_t ops) {
        start();
        const int bias = r.range(30, 60); const size_t target = r.range(3, 40);
        for(size_t i=0; i<ops; ++i) {
            auto any = [&]() { return r.chance(25) || used.empty() ? long(r.range(1, 2)) : used[r.below(used.size())]; };
            const int c = r.below(100);
            if(c < (used.size() < target ? 55 : bias - 15)) exec("res", {any(), any()});
            else if(c < 75) { if(!used.empty()) { const long x = r.chance(60) ? used.back() : any(); exec("free", {x}); } }
            else if(c < 82) exec("hold", {any()});
            else if(c < 89) { if(!handles.empty()) { auto it = handles.begin(); std::advance(it, r.below(handles.size())); exec("rel", {it->first}); } }
            else if(c < 98) exec("peek", {any()});
            else exec("all", {});
        }
        exec("all", {});
        handles.clear(); S.reset();
    }
    void big(size_t maxn, size_t steps) {
        bdd_node_cache B(nullptr);
        struct Rec { node* p; long lo, hi; size_t idx, key; };
        std::vector<Rec> use; std::unordered_set<node*> in, ever; 
        in.insert(B.botsink()); in.insert(B.topsink());
        o.begin("bnew"); o.num("cnt", B.nr_nodes()); o.end();
        for(size_t s=0; s<steps; ++s) {
            if(r.chance(60) || use.empty()) {
                static const size_t special[] = {1, 2, 4093, 4094, 4095, 4096, 4097, 8190, 8192};
                const size_t n = r.chance(40) ? special[r.below(9)] : r.range(1, maxn);
                size_t reused = 0, fresh = 0, clash = 0;
                for(size_t i=0; i<n; ++i) {
                    node* p = B.reserve_node();
                    if(!in.insert(p).second) ++clash;
                    else { if(ever.insert(p).second) ++fresh; else ++reused; const size_t k = ++stamp; p->init_new_node(k % 100000, B.botsink(), B.topsink()); p->hash_key = k % 4001; use.push_back({p, 0, 1, k % 100000, k % 4001}); }
                }
                o.begin("bres"); o.num("n", n); o.num("reused", reused); o.num("fresh", fresh); o.num("clash", clash); o.num("cnt", B.nr_nodes()); o.num("bx", B.botsink()->xref); o.num("tx", B.topsink()->xref); o.end();
            } else {
                const size_t n = r.chance(30) ? use.size() : r.range(1, use.size());
                if(r.chance(50)) for(size_t i=0; i<n; ++i) std::swap(use[r.below(use.size())], use[use.size()-1-i]);
                for(size_t i=0; i<n; ++i) { B.free_node(use.back().p); in.erase(use.back().p); use.pop_back(); }
                o.begin("bfree"); o.num("n", n); o.num("cnt", B.nr_nodes()); o.num("bx", B.botsink()->xref); o.num("tx", B.topsink()->xref); o.end();
            }
            size_t ok = 0;
            for(auto& u : use) ok += u.p->lo == B.botsink() && u.p->hi == B.topsink() && u.p->index == u.idx && u.p->hash_key == u.key && u.p->xref == 0;
            o.begin("bscan"); o.num("n", use.size()); o.num("ok", ok); o.num("isbot", B.botsink()->is_botsink()); o.num("istop", B.topsink()->is_topsink()); o.end();
        }
    }
};

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "small");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "script") for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) { for(auto& c : s) D.exec(c.first, c.second); D.handles.clear(); D.S.reset(); }
    else for(size_t h=0; h<hist; ++h) {
        if(name == "small") D.history(ops);
        else if(name == "big") D.big(20000, ops);
        else return 3;
    }
    D.o.close();
    return 0;
}
