// Histories of node lookups in the unique table of one variable, for TableTrace.tla.
//   small  single lookups through var_struct, chosen hash keys
//   mgr    single lookups through bdd_mgr::unique_find, chosen hash keys, collect_garbage
//   big    rows of lookups through bdd_mgr, up to hundreds of thousands of nodes
#include "common.h"
#include "script.h"
#include "bdd_mgr.h"
#include "bdd_var.h"
using namespace BDD;

struct Drv {
    Out o; Rng r; explicit Drv(uint64_t s) : r(s) {}
    size_t keypattern = 0, keybase = 0;
    size_t key(size_t i) {
        const size_t top = (size_t(1) << unique_table_hash_size) - 1;
        switch(keypattern) {
            case 0: return 0;                         // all collide
            case 1: return top;                       // all collide at the end of the table
            case 2: return keybase & top;             // all collide somewhere
            case 3: return 60 + i % 8;                // around the end of the smallest table
            case 4: return (64 * i) & top;            // collide in the smallest table only
            case 5: return i % 3;
            case 6: return (top - i % 4) & top;       // run over the end in tables of every size
            case 7: return i & top;
            case 8: return (i * 1021) & top;
            default: return r.next() & top;
        }
    }

    // ---------------------------------------------------------------- single lookups
    void history(bool direct, size_t ops) {
        keypattern = r.below(12); keybase = r.next();
        bdd_mgr M; 
        const size_t nchild = r.range(6, 26);
        M.add_variable(); size_t nv = 1;
        std::vector<node_ref> kid;
        while(kid.size() < nchild) { kid.push_back(M.projection(nv++)); kid.back().address()->hash_key = key(kid.size()); }
        // children that are nodes above other children
        for(size_t i=0; i<nchild/3; ++i) { const size_t q = r.below(kid.size()); node_ref x = M.projection(nv++); x.address()->hash_key = key(kid.size()+1); kid[q] = x; }
        if(r.chance(50)) { kid.push_back(M.botsink()); kid.push_back(M.topsink()); }
        M.collect_garbage();
        std::unique_ptr<var_struct> V; if(direct) V.reset(new var_struct(0, M));
        std::unordered_map<node*, int> ids; int next = 1000;
        for(size_t i=0; i<kid.size(); ++i) ids[kid[i].address()] = i+1;
        std::map<int, std::vector<node_ref>> held; std::vector<int> names; std::map<int, node*> addr;
        auto id = [&](node* p) { auto it = ids.find(p); if(it != ids.end()) return it->second; ids[p] = next; addr[next] = p; return next++; };
        o.begin("new"); o.num("kids", kid.size()); o.num("cnt", M.nr_nodes()); o.end();
        const bool few = r.chance(30); const bool grow = r.chance(40);
        for(size_t i=0; i<ops; ++i) {
            const int c = r.below(100);
            if(c < (grow ? 75 : 60)) { // find
                size_t a = r.below(kid.size()), b = r.below(kid.size());
                if(few) { a %= 6; b %= 6; }
                node* p;
                int got;
                if(direct) { p = r.chance(50) ? V->unique_find(kid[a].address(), kid[b].address()) : V->unique_find(0, kid[a].address(), kid[b].address()); got = id(p);
                    if(r.chance(60) && got >= 1000) held[got].push_back(node_ref(p)); else got = -got; }
                else { node_ref x = M.unique_find(0, kid[a], kid[b]); got = id(x.address()); p = x.address(); if(r.chance(60) && got >= 1000) held[got].push_back(x); else got = -got; }
                o.begin("find"); o.num("lo", a+1); o.num("hi", b+1); o.num("r", std::abs(got)); o.num("held", got > 0); o.num("cnt", M.nr_nodes());
                o.num("nlo", p->lo == kid[a].address() || a == b); o.num("nhi", p->hi == kid[b].address() || a == b);
                if(direct) o.num("fs", V->nr_free_slots_debug()); o.end();
            } else if(c < 82 && direct) {
                const size_t a = r.below(kid.size()), b = r.below(kid.size()); if(a == b) continue;
                node* p = V->unique_table_lookup(kid[a].address(), kid[b].address());
                o.begin("look"); o.num("lo", a+1); o.num("hi", b+1); o.num("r", p == nullptr ? -1 : id(p)); o.num("cnt", M.nr_nodes()); o.end();
            } else if(c < 96) { // release
                if(held.empty()) continue;
                const int n = r.range(1, 6);
                for(int k=0; k<n && !held.empty(); ++k) { auto it = held.begin(); std::advance(it, r.below(held.size())); const int q = it->first;
                    it->second.pop_back(); if(it->second.empty()) held.erase(it);
                    o.begin("rel"); o.num("id", q); o.num("cnt", M.nr_nodes()); o.end(); }
            } else { // sweep
                if(r.chance(30)) while(held.size() > 3) { auto it = held.begin(); std::advance(it, r.below(held.size())); const int q = it->first; const size_t k = it->second.size(); held.erase(it);
                    for(size_t z=0; z<k; ++z) { o.begin("rel"); o.num("id", q); o.num("cnt", M.nr_nodes()); o.end(); } }
                std::unordered_map<node*, int> keep; for(size_t k=0; k<kid.size(); ++k) keep[kid[k].address()] = k+1;
                for(auto& h : held) keep[h.second[0].address()] = h.first;
                ids.swap(keep);
                if(direct) V->remove_dead_nodes(); else M.collect_garbage();
                o.begin("sweep"); o.num("cnt", M.nr_nodes()); if(direct) o.num("fs", V->nr_free_slots_debug()); o.end();
            }
        }
        held.clear();
        if(direct) { V->release_nodes(); o.begin("end"); o.num("cnt", M.nr_nodes()); o.end(); V.reset(); }
        kid.clear();
    }

    // ---------------------------------------------------------------- a behaviour of UniqueTable
    // key k: branches k and k+1; further nodes over other branches are in the table from the beginning
    void script(const std::vector<Cmd>& cmds) {
        keypattern = cmds[0].second[0]; keybase = r.next(); const size_t fill = cmds[0].second[1];
        bdd_mgr M; M.add_variable(); size_t nv = 1; std::vector<node_ref> kid;
        while(kid.size() < 20) { kid.push_back(M.projection(nv++)); kid.back().address()->hash_key = key(kid.size()); }
        M.collect_garbage();
        var_struct V(0, M);
        std::unordered_map<node*, int> ids; std::map<int, node_ref> held; int next = 1000;
        o.begin("new"); o.num("kids", kid.size()); o.num("cnt", M.nr_nodes()); o.end();
        auto find = [&](size_t a, size_t b) {
            node* p = V.unique_find(kid[a].address(), kid[b].address());
            if(!ids.count(p)) ids[p] = next++;
            const int i = ids[p]; const bool fresh = !held.count(i); if(fresh) held[i] = node_ref(p);
            o.begin("find"); o.num("lo", a+1); o.num("hi", b+1); o.num("r", i); o.num("held", fresh); o.num("cnt", M.nr_nodes());
            o.num("nlo", p->lo == kid[a].address()); o.num("nhi", p->hi == kid[b].address()); o.num("fs", V.nr_free_slots_debug()); o.end();
            return i;
        };
        std::map<long, int> mine;
        for(size_t i=0; i<fill; ++i) find(8 + i / 11, 8 + (i / 11 + 1 + i % 11) % 12);
        for(size_t c=1; c<cmds.size(); ++c) {
            const std::vector<long>& a = cmds[c].second;
            if(cmds[c].first == "find") mine[a[0]] = find(a[0], a[0] + 1);
            else { // the nodes of the keys given survive
                for(auto it = mine.begin(); it != mine.end(); ) if(std::find(a.begin(), a.end(), it->first) == a.end()) {
                    ids.erase(held[it->second].address()); held.erase(it->second); o.begin("rel"); o.num("id", it->second); o.num("cnt", M.nr_nodes()); o.end(); it = mine.erase(it); } else ++it;
                if(fill && r.chance(50)) while(held.size() > mine.size()) { // all the others die
                    int q = -1; for(auto& h : held) { bool m = false; for(auto& x : mine) m = m || x.second == h.first; if(!m) q = h.first; }
                    ids.erase(held[q].address()); held.erase(q); o.begin("rel"); o.num("id", q); o.num("cnt", M.nr_nodes()); o.end(); }
                V.remove_dead_nodes(); o.begin("sweep"); o.num("cnt", M.nr_nodes()); o.num("fs", V.nr_free_slots_debug()); o.end();
            }
        }
        for(long k=1; k<=5; ++k) { node* p = V.unique_table_lookup(kid[k].address(), kid[k+1].address()); o.begin("look"); o.num("lo", k+1); o.num("hi", k+2); o.num("r", p == nullptr ? -1 : ids.count(p) ? ids[p] : -2); o.num("cnt", M.nr_nodes()); o.end(); }
        held.clear(); V.release_nodes(); o.begin("end"); o.num("cnt", M.nr_nodes()); o.end();
    }

    // ---------------------------------------------------------------- rows
    void big(size_t A, size_t B, size_t steps) {
        bdd_mgr M; const size_t nv = 40; for(size_t i=0; i<nv; ++i) M.add_variable();
        keypattern = A*B < 8000 && r.below(3) == 0 ? 7 + r.below(2) : 9; // small keys would put everything in few probe sequences
        keybase = 0;
        // children: distinct nodes of lower variables
        std::vector<node_ref> pool, kid;
        for(size_t v=3; v<nv; ++v) pool.push_back(M.projection(v));
        for(size_t i=0; i<pool.size() && kid.size() < A+B; ++i) for(size_t j=0; j<pool.size() && kid.size() < A+B; ++j) if(i != j) kid.push_back(M.unique_find(2, pool[i], pool[j]));
        { const size_t k0 = kid.size(); for(size_t i=0; i+1<k0 && kid.size() < A+B; ++i) kid.push_back(M.unique_find(1, kid[i], kid[i+1])); }
        pool.clear();
        if(keypattern != 9) for(size_t i=0; i<kid.size(); ++i) kid[i].address()->hash_key = key(i);
        M.collect_garbage();
        const size_t base = M.nr_nodes();
        std::vector<std::vector<node_ref>> held(A); std::vector<std::vector<node*>> seen(A);
        o.begin("bnew"); o.num("rows", A); o.num("cols", B); o.num("cnt", base); o.end();
        auto row = [&](size_t a, bool hold) {
            const size_t before = M.nr_nodes(); size_t same = 0, bad = 0;
            std::vector<node_ref> h; std::vector<node*> now;
            for(size_t b=0; b<B; ++b) {
                node_ref x = M.unique_find(0, kid[a], kid[A+b]);
                now.push_back(x.address());
                if(!seen[a].empty() && seen[a][b] == x.address()) ++same;
                if(x.address()->lo != kid[a].address() || x.address()->hi != kid[A+b].address()) ++bad;
                if(hold) h.push_back(x);
            }
            std::vector<node*> s = now; std::sort(s.begin(), s.end()); const size_t dist = std::unique(s.begin(), s.end()) - s.begin();
            seen[a] = now; if(hold) held[a] = std::move(h);
            o.begin("row"); o.num("a", a); o.num("hold", hold); o.num("created", long(M.nr_nodes()) - long(before)); o.num("same", same); o.num("bad", bad); o.num("dist", dist); o.num("cnt", M.nr_nodes()); o.end();
        };
        auto sweep = [&]() { M.collect_garbage(); for(size_t a=0; a<A; ++a) if(held[a].empty()) seen[a].clear(); o.begin("bsweep"); o.num("cnt", M.nr_nodes()); o.end(); };
        auto drop = [&](size_t a) { held[a].clear(); o.begin("drow"); o.num("a", a); o.num("cnt", M.nr_nodes()); o.end(); };
        auto whole = [&]() { // all nodes that are held, again
            size_t same = 0, n = 0; const size_t before = M.nr_nodes(); std::vector<node*> all;
            for(size_t a=0; a<A; ++a) if(!held[a].empty()) for(size_t b=0; b<B; ++b) { node_ref x = M.unique_find(0, kid[a], kid[A+b]); ++n; same += x.address() == seen[a][b]; all.push_back(x.address()); }
            std::sort(all.begin(), all.end()); const size_t dist = std::unique(all.begin(), all.end()) - all.begin();
            o.begin("all"); o.num("n", n); o.num("same", same); o.num("dist", dist); o.num("created", long(M.nr_nodes()) - long(before)); o.num("cnt", M.nr_nodes()); o.end();
        };
        for(size_t a=0; a<A; ++a) row(a, r.chance(95));
        whole(); sweep(); whole();
        for(size_t s=0; s<steps; ++s) {
            const size_t k = r.range(1, A); const int how = r.below(3);
            for(size_t i=0; i<k; ++i) { const size_t a = r.below(A); if(how == 0) { if(!held[a].empty()) drop(a); } else if(how == 1) row(a, r.chance(80)); else if(!held[a].empty() && r.chance(70)) drop(a); else row(a, r.chance(80)); }
            if(r.chance(50)) { for(size_t a=0; a<A; ++a) if(!held[a].empty() && !r.chance(10)) drop(a); } // nearly everything: the table shrinks
            if(r.chance(80)) sweep();
            whole();
        }
        held.clear(); kid.clear();
    }
};

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "small");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "script") for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) D.script(s);
    else for(size_t h=0; h<hist; ++h) {
        if(name == "small") D.history(true, ops);
        else if(name == "mgr") D.history(false, ops);
        else if(name == "mid") D.big(D.r.range(2, 40), D.r.range(20, 120), ops);
        else if(name == "big") D.big(160, 1000, ops);
        else if(name == "huge") D.big(D.r.range(550, 940), 1000, ops);
        else return 3;
    }
    D.o.close();
    return 0;
}
