// Histories of bdd_collection objects, recorded for CollectionTrace.tla.
#include "common.h"
#include "script.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <fstream>
using namespace BDD;

struct Profile {
    size_t n = 4; bool exact = true; size_t points = 64;
    size_t maxbdds = 10, maxinstr = 100000, ncol = 1, maxops = 5;
    std::map<std::string,int> w;
    int audit = 100; // percent of events followed by an audit
    bool leaves = false; // many operands
    size_t wide = 0;     // diagrams with up to this many nodes per variable
};

struct Drv {
    Out o; Rng r; Universe u; Profile P;
    std::unique_ptr<bdd_mgr> M, M2; // sources and targets
    std::vector<node_ref> pool;     // handles of M with functions in poolt
    std::vector<Words> poolt;
    struct Col { std::unique_ptr<bdd_collection> c; std::vector<char> ord; }; // ord: variables increase along every path
    std::map<int, Col> cs; int nextcol = 0;
    explicit Drv(uint64_t seed) : r(seed) {}

    Words tt(node_ref& x) { return u.tabulate([&](size_t p) { return u.at(p, [&](auto b, auto e) { return x.evaluate(b, e); }); }); }
    Words tt(bdd_collection& c, size_t i) { return u.tabulate([&](size_t p) { return u.at(p, [&](auto b, auto e) { return c.evaluate(i, b, e); }); }); }

    node_ref build(bdd_mgr& m, const Words& w, size_t v, size_t base) {
        if(v == u.n) return (w[base/16] >> (base%16)) & 1 ? m.topsink() : m.botsink();
        node_ref lo = build(m, w, v+1, base), hi = build(m, w, v+1, base | (size_t(1) << v));
        return m.unique_find(v, lo, hi);
    }
    Words random_words() {
        Words w(u.words(), 0); const Words f = u.full();
        switch(P.leaves && r.chance(75) ? 2 : r.below(7)) {
            case 0: for(auto& x : w) x = r.below(65536); break;
            case 1: for(size_t i=0; i<3; ++i) { size_t p = r.below(u.pts.size()); w[p/16] |= 1 << (p%16); } break;
            case 2: { for(auto& x : w) x = 65535; for(size_t i=0; i<3; ++i) { size_t p = r.below(u.pts.size()); w[p/16] &= ~(1 << (p%16)); } break; }
            case 3: case 4: { std::vector<size_t> vs; for(size_t i=0; i<r.range(1,3); ++i) vs.push_back(r.below(u.n));
                const size_t tab = r.next();
                w = u.tabulate([&](size_t p) { size_t k = 0; for(size_t i=0; i<vs.size(); ++i) k |= size_t(u.pts[p][vs[i]]) << i; return (tab >> k) & 1; }); break; }
            case 5: { const size_t tab = r.next(); w = u.tabulate([&](size_t p) { size_t k = 0; for(char c : u.pts[p]) k += c; return (tab >> k) & 1; }); break; }
            case 6: if(r.chance(50)) w = f; break; // constants
        }
        for(size_t i=0; i<w.size(); ++i) w[i] &= f[i];
        return w;
    }
    // a BDD of M: exact universes: any function; otherwise counting constraints, clauses and cubes over some variables
    node_ref random_bdd() {
        if(P.wide && r.chance(70)) return layered();
        if(u.exact) { node_ref x = build(*M, random_words(), 0, 0); return x; }
        std::vector<size_t> vs; const size_t k = r.range(1, std::min<size_t>(u.n, 8));
        const size_t start = r.below(u.n), stride = r.range(1, 3);
        for(size_t i=0; i<k; ++i) { const size_t v = r.chance(50) ? r.below(u.n) : (start + i*stride) % u.n; if(std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); }
        std::vector<node_ref> x; for(size_t v : vs) { node_ref p = M->projection(v); x.push_back(r.chance(70) ? p : M->negate(p)); }
        switch(r.below(6)) {
            case 0: return M->simplex(x.begin(), x.end());
            case 1: return M->at_most_one(x.begin(), x.end());
            case 2: return M->at_least(x.begin(), x.end(), r.below(vs.size()+1));
            case 3: return M->at_most(x.begin(), x.end(), r.below(vs.size()+1));
            case 4: { node_ref a = x[0]; for(size_t i=1; i<x.size(); ++i) a = M->xor_rec(a, x[i]); return a; }
            default: { node_ref a = x[0]; for(size_t i=1; i<x.size(); ++i) a = M->or_rec(a, x[i]); return a; }
        }
    }

    // a random diagram over some consecutive variables
    node_ref layered() {
        const size_t k = r.range(8, std::min<size_t>(u.n, 15)), v0 = r.below(u.n - k + 1), W = r.range(4, P.wide);
        std::vector<node_ref> below = {M->botsink(), M->topsink()}; size_t last = 0;
        for(size_t l=k; l-- > 1; ) {
            std::vector<node_ref> now;
            const size_t want = std::min({W, size_t(1) << l, below.size() * below.size() / 2 + 1});
            for(size_t i=0; i<want; ++i) {
                node_ref a = below[r.chance(96) ? last + r.below(below.size() - last) : r.below(below.size())], b = below[r.chance(88) ? last + r.below(below.size() - last) : r.below(below.size())];
                node_ref x = M->unique_find(v0 + l, a, b); now.push_back(x);
            }
            last = below.size(); for(auto& x : now) below.push_back(x);
        }
        node_ref x = M->unique_find(v0, below[below.size() - 1], below[below.size() - 2 - r.below(2)]);
        return x;
    }

    // ---------------------------------------------------------------- observation
    // stored BDD as <<variable, lo, hi>> with relative positions; sinks: -1 bot, -2 top
    std::vector<std::vector<long>> dump(bdd_collection& c, size_t i) {
        std::vector<std::vector<long>> d;
        auto [b, e] = c.get_bdd_instructions(i);
        if(b == e) return d;
        const long off = c.offset(*b);
        for(auto it = b; it != e; ++it) {
            if(it->is_botsink()) d.push_back({-1, 0, 0});
            else if(it->is_topsink()) d.push_back({-2, 0, 0});
            else d.push_back({small(it->index), small(it->lo - off), small(it->hi - off)});
        }
        return d;
    }
    static long small(size_t x) { return x > 2000000000u ? -9 : long(x); }
    void log_new(bdd_collection& c, size_t i) { o.arr("new", dump(c, i)); o.arr("rt", tt(c, i)); }
    void log_count(bdd_collection& c) { o.num("nb", c.nr_bdds()); o.num("sz", c.size()); }
    void audit(int k) {
        bdd_collection& c = *cs[k].c;
        o.begin("audit"); o.num("c", k);
        std::vector<std::vector<std::vector<long>>> d; std::vector<Words> t;
        for(size_t i=0; i<c.nr_bdds(); ++i) { d.push_back(dump(c, i)); t.push_back(tt(c, i)); }
        o.arr("bdds", d); o.arr("tts", t); log_count(c); o.end();
    }
    // all contents as one string, to compare a collection with its copy
    std::string digest(bdd_collection& c) {
        std::string s; for(size_t i=0; i<c.nr_bdds(); ++i) { for(auto& q : dump(c, i)) for(long x : q) s += std::to_string(x) + ","; s += ";"; }
        return s;
    }

    // ---------------------------------------------------------------- operations
    bool full(int k) { auto& c = *cs[k].c; size_t s = 0; for(size_t i=0; i<c.nr_bdds(); ++i) s += c.nr_bdd_nodes(i); return c.nr_bdds() >= P.maxbdds || s >= P.maxinstr; }
    int pick(int k, bool ord = false) {
        auto& c = cs[k]; std::vector<int> v;
        for(size_t i=0; i<c.ord.size(); ++i) if(!ord || c.ord[i]) v.push_back(i);
        return v.empty() ? -1 : v[r.below(v.size())];
    }

    void do_add(int k) {
        node_ref x = (!pool.empty() && r.chance(30)) ? pool[r.below(pool.size())] : random_bdd();
        Words t = tt(x); remember(x, t);
        const bool parts = r.chance(10) && !x.is_terminal();
        if(parts) { x = r.chance(50) ? x.low() : x.high(); t = tt(x); }
        add_op(k, x, t);
    }
    void add_op(int k, node_ref& x, const Words& t) {
        bdd_collection& c = *cs[k].c;
        const size_t nodes = x.nr_nodes();
        o.begin("add"); o.num("c", k); o.arr("at", t); o.num("nodes", nodes);
        const size_t i = c.add_bdd(x);
        o.num("r", i); o.arr("at2", tt(x)); log_new(c, i); log_count(c); o.end();
        cs[k].ord.push_back(1);
    }
    void remember(node_ref& x, const Words& t) {
        if(pool.size() < 6) { pool.push_back(x); poolt.push_back(t); }
        else if(r.chance(30)) { const size_t i = r.below(pool.size()); pool[i] = x; poolt[i] = t; }
    }
    void do_and(int k, size_t n, bool limited) {
        bdd_collection& c = *cs[k].c;
        std::vector<long> a; const bool anyorder = !P.wide && r.chance(20); bool oin = true;
        for(size_t i=0; i<n; ++i) { const int x = pick(k, !anyorder); if(x < 0) return; a.push_back(x); oin = oin && cs[k].ord[x]; }
        if(n > 2 && r.chance(20)) { a[1] = a[0]; oin = true; for(long x : a) oin = oin && cs[k].ord[x]; }
        if(P.wide) { // the product can be as large as the product of the sizes unless they test different variables
            double p = 1; for(long x : a) { std::set<size_t> vs; for(size_t v : c.variables(x)) vs.insert(v);
                for(long y : a) if(y != x) for(size_t v : c.variables(y)) if(vs.count(v)) { p *= c.nr_bdd_nodes(x); break; } }
            if(p > 2e6) return; }
        and_op(k, a, oin, limited, -1);
    }
    void and_op(int k, const std::vector<long>& a, bool oin, bool limited, long given) {
        bdd_collection& c = *cs[k].c; const size_t n = a.size();
        // the size without limit, from a copy
        bdd_collection cc = c;
        size_t usz = 0;
        { const size_t i = cc.bdd_and(a.begin(), a.end()); usz = cc.nr_bdd_nodes(i); }
        size_t limit = std::numeric_limits<size_t>::max();
        if(limited) {
            switch(r.below(7)) { case 0: limit = usz; break; case 1: limit = usz > 3 ? usz-1 : 3; break; case 2: limit = usz+1; break; case 3: limit = 3; break;
                case 4: limit = 3 + r.below(2*usz); break; case 5: limit = (size_t(1) << 32) + r.below(4); break; case 6: limit = usz > 4 ? usz - 1 - r.below(usz-3) : usz; break; }
            limit = std::max<size_t>(limit, 3);
            if(given >= 0) limit = given;
        }
        const int form = r.below(4);
        o.begin("and"); o.num("c", k); o.arr("a", a); o.num("limit", limited ? (limit > 2000000000 ? 2000000000 : long(limit)) : -1); o.num("usz", usz);
        size_t i;
        const bool lim = limited || r.chance(20);
        if(n == 2 && form == 0) i = lim ? c.bdd_and(size_t(a[0]), size_t(a[1]), limit) : c.bdd_and(size_t(a[0]), size_t(a[1]));
        else if(n == 2 && form == 1) i = lim ? c.bdd_and(int(a[0]), int(a[1]), limit) : c.bdd_and(int(a[0]), int(a[1]));
        else if(n == 2 && form == 2 && !limited) { auto x = c[a[0]], y = c[a[1]]; const size_t before = c.nr_bdds(); auto z = x & y; i = c.nr_bdds() == before ? 0 : c.nr_bdds()-1;
            if(z.nr_nodes() != c.nr_bdd_nodes(i) || (z.root_node() != c[i].root_node())) i = 999999; }
        else if(form == 3) { std::set<int> dummy; std::vector<int> b(a.begin(), a.end()); i = lim ? c.bdd_and(b.begin(), b.end(), limit) : c.bdd_and(b.begin(), b.end()); }
        else { std::vector<size_t> b(a.begin(), a.end()); i = lim ? c.bdd_and(b.begin(), b.end(), limit) : c.bdd_and(b.begin(), b.end()); }
        const bool fail = i == std::numeric_limits<size_t>::max();
        o.num("form", form); o.num("r", fail ? -1 : small(i));
        if(!fail && i < c.nr_bdds()) log_new(c, i); else { o.arr("new", std::vector<int>()); o.arr("rt", Words()); }
        log_count(c); 
        { // afterwards the same conjunction without a limit, on a copy again
            bdd_collection c2 = c; const size_t j = c2.bdd_and(a.begin(), a.end());
            o.num("usz2", c2.nr_bdd_nodes(j)); o.arr("rt2", tt(c2, j));
        }
        o.end();
        if(!fail && n > 1) cs[k].ord.push_back(oin);
    }
    void do_or(int k) {
        const int s = pick(k, P.wide || r.chance(80)); if(s < 0) return;
        std::set<size_t> pos, neg;
        const size_t m = r.chance(15) ? u.n + 1 : std::min<size_t>(u.n, 5);
        const size_t np = r.below(m), nn = r.below(m);
        for(size_t i=0; i<np; ++i) pos.insert(r.below(u.n));
        for(size_t i=0; i<nn; ++i) { const size_t v = r.below(u.n); if(!pos.count(v) || r.chance(15)) neg.insert(v); }
        or_op(k, s, pos, neg);
    }
    void or_op(int k, int s, std::set<size_t> pos, std::set<size_t> neg) {
        bdd_collection& c = *cs[k].c;
        o.begin("or"); o.num("c", k); o.arr("a", std::vector<long>{s});
        o.arr("pos", std::vector<long>(pos.begin(), pos.end())); o.arr("neg", std::vector<long>(neg.begin(), neg.end()));
        size_t i;
        if(r.chance(50)) i = c.bdd_or_var(s, pos, neg);
        else { std::vector<size_t> p(pos.begin(), pos.end()), q(neg.begin(), neg.end()); std::reverse(p.begin(), p.end()); i = c.bdd_or_var(s, p, q); }
        o.num("r", small(i));
        if(i < c.nr_bdds()) log_new(c, i); else { o.arr("new", std::vector<int>()); o.arr("rt", Words()); }
        log_count(c); o.end();
        cs[k].ord.push_back(cs[k].ord[s]);
    }
    void do_rm(int k) {
        bdd_collection& c = *cs[k].c;
        const size_t n = c.nr_bdds(); if(n == 0) return;
        std::vector<long> a;
        const int how = r.below(6);
        for(size_t i=0; i<n; ++i) {
            bool x = false;
            switch(how) { case 0: x = r.chance(50); break; case 1: x = r.chance(20); break; case 2: x = i+1 == n; break; case 3: x = i == 0; break; case 4: x = r.chance(85); break; case 5: x = r.chance(5); break; }
            if(x) a.push_back(i);
        }
        rm_op(k, a);
    }
    void rm_op(int k, const std::vector<long>& a) {
        bdd_collection& c = *cs[k].c; const size_t n = c.nr_bdds();
        o.begin("rm"); o.num("c", k); o.arr("a", a);
        if(r.chance(50)) { std::vector<size_t> b(a.begin(), a.end()); c.remove(b.begin(), b.end()); }
        else { std::vector<int> b(a.begin(), a.end()); c.remove(b.begin(), b.end()); }
        log_count(c); o.end();
        std::vector<char> ord; for(size_t i=0; i<n; ++i) if(!std::count(a.begin(), a.end(), long(i))) ord.push_back(cs[k].ord[i]);
        cs[k].ord = ord;
    }
    void do_reb(int k) {
        bdd_collection& c = *cs[k].c;
        const int s = pick(k); if(s < 0) return;
        std::set<size_t> sup; for(auto& q : dump(c, s)) if(q[0] >= 0) sup.insert(q[0]);
        std::vector<size_t> img; for(size_t v=0; v<u.n; ++v) img.push_back(v);
        for(size_t i=0; i<img.size(); ++i) std::swap(img[i], img[i + r.below(img.size()-i)]);
        const size_t nmap = sup.empty() ? 1 : *sup.rbegin() + 1;
        std::vector<size_t> full(img.begin(), img.begin() + nmap);
        const bool keep = r.chance(60);
        if(keep) std::sort(full.begin(), full.end());
        reb_op(k, s, full, sup);
    }
    void reb_op(int k, int s, const std::vector<size_t>& full, const std::set<size_t>& sup) {
        bdd_collection& c = *cs[k].c;
        std::unordered_map<size_t,size_t> mp; for(size_t v=0; v<full.size(); ++v) if(sup.count(v) || r.chance(30)) mp[v] = full[v];
        std::vector<std::vector<long>> pairs; for(size_t v=0; v<full.size(); ++v) pairs.push_back({long(v), long(full[v])});
        bool ord = true; { long last = -1; for(size_t v : sup) { ord = ord && long(full[v]) > last; last = full[v]; } }
        o.begin("reb"); o.num("c", k); o.arr("a", std::vector<long>{s}); o.arr("map", pairs); o.num("ord", ord);
        const int form = r.below(4);
        switch(form) {
            case 0: c.rebase(s, full.begin(), full.end()); break;
            case 1: c.rebase(s, mp); break;
            case 2: c[s].rebase(full.begin(), full.end()); break;
            case 3: c[s].rebase(mp); break;
        }
        o.num("form", form); o.num("r", s); log_new(c, s); log_count(c); o.end();
        cs[k].ord[s] = cs[k].ord[s] && ord;
        // an unordered diagram may become ordered again; only a fresh import is known to be
    }
    void do_exp(int k) {
        bdd_collection& c = *cs[k].c;
        const int s = pick(k); if(s < 0) return;
        const int kind = r.below(3); // same manager, another one, a new one
        const bool viamgr = r.chance(50);
        std::unique_ptr<bdd_mgr> fresh; bdd_mgr* T = M.get();
        if(kind == 1) T = M2.get();
        if(kind == 2) { fresh.reset(new bdd_mgr()); for(size_t v=0; v<u.n; ++v) fresh->add_variable(); T = fresh.get(); }
        o.begin("exp"); o.num("c", k); o.arr("a", std::vector<long>{s}); o.num("kind", kind); o.num("viamgr", viamgr); o.num("ord", cs[k].ord[s]);
        {
            node_ref x = viamgr ? T->add_bdd(c, s) : c.export_bdd(*T, s);
            o.arr("rt", tt(x)); o.num("nodes", x.nr_nodes()); o.num("own", x.find_bdd_mgr() == T);
            // identity with handles of the same functions in that manager
            std::vector<long> eq; std::vector<Words> pt;
            if(kind == 0) for(size_t i=0; i<pool.size(); ++i) { pt.push_back(poolt[i]); eq.push_back(pool[i] == x); }
            else for(size_t i=0; i<2 && u.exact; ++i) { const Words w = i == 0 ? tt(c, s) : random_words(); node_ref y = build(*T, w, 0, 0); pt.push_back(w); eq.push_back(x == y); }
            o.arr("pt", pt); o.arr("eq", eq);
            node_ref y = viamgr ? c.export_bdd(*T, s) : T->add_bdd(c, s);
            o.num("again", x == y);
            // back into a collection
            bdd_collection cc; const size_t j = cc.add_bdd(x); o.arr("back", dump(cc, j)); o.arr("backt", tt(cc, j));
        }
        log_count(c); o.end();
    }
    void do_view(int k) {
        bdd_collection& c = *cs[k].c;
        const int s = pick(k); if(s < 0) return;
        auto e = c[s];
        const auto d = dump(c, s);
        const size_t N = e.nr_nodes();
        o.begin("view"); o.num("c", k); o.arr("a", std::vector<long>{s}); o.arr("d", d); o.arr("rt", tt(c, s));
        std::unordered_map<bdd_collection_node, long> pos;
        for(size_t i=0; i<N; ++i) pos.insert({e[i], long(i)});
        auto at = [&](const bdd_collection_node& x) -> long { auto it = pos.find(x); return it == pos.end() ? -7 : it->second; };
        std::vector<std::vector<long>> nav;
        for(size_t i=0; i<N; ++i) {
            bdd_collection_node x = e[i];
            if(x.is_terminal()) nav.push_back({x.is_botsink() && !x.is_topsink() ? -1 : x.is_topsink() && !x.is_botsink() ? -2 : -3, 0, 0});
            else {
                const bool ok = x.lo() == x.low() && x.hi() == x.high() && !(x.lo() != x.low()) && x != x.lo() && !(x == x.hi()) && !x.is_botsink() && !x.is_topsink();
                nav.push_back({ok ? long(x.variable()) : -8, at(x.lo()), at(x.hi())});
            }
        }
        o.arr("nav", nav); o.num("n1", N); o.num("n2", c.nr_bdd_nodes(s));
        o.num("root", at(e.root_node()));
        o.num("bot", at(e.botsink())); o.num("top", at(e.topsink()));
        std::vector<long> walk;
        if(N > 2) { bdd_collection_node x = e.first_node_postorder(); walk.push_back(at(x));
            while(x != e.root_node() && walk.size() < N + 5) { if(r.chance(50)) x = x.next_postorder(); else { bdd_collection_node y = x.next_postorder(); x = y; } walk.push_back(at(x)); } }
        o.arr("walk", walk);
        std::vector<long> per, per2; for(size_t v=0; v<u.n; ++v) { per.push_back(e.nr_nodes(v)); per2.push_back(c.nr_bdd_nodes(s, v)); }
        o.arr("per", per); o.arr("per2", per2);
        { auto v = c.variables(s); o.arr("vars", std::vector<long>(v.begin(), v.end())); auto w = e.variables(); o.arr("vars2", std::vector<long>(w.begin(), w.end())); }
        { Words t = u.tabulate([&](size_t p) { bdd_collection_node x = e.root_node(); while(!x.is_terminal()) { bdd_collection_node y = u.pts[p][x.variable()] ? x.hi() : x.lo(); x = y; } return x.is_topsink(); }); o.arr("navt", t); }
        { // graphviz
            std::stringstream ss; c.export_graphviz(s, ss); std::string line; long cluster = -9;
            std::vector<std::vector<long>> gn, ge;
            while(std::getline(ss, line)) {
                if(line.compare(0, 17, "subgraph cluster_") == 0) { const size_t x = std::stoull(line.substr(17)); cluster = x == std::numeric_limits<size_t>::max() ? -1 : long(x); continue; }
                const size_t ar = line.find(" -> ");
                if(ar != std::string::npos) {
                    if(line.find("style=invis") != std::string::npos) continue;
                    const long a = std::stol(line.substr(0, ar)), b = std::stol(line.substr(ar + 4));
                    ge.push_back({a, b, line.find("dashed") == std::string::npos});
                } else if(line.find("[label=\"") != std::string::npos) {
                    const long a = std::stol(line); const size_t q = line.find("[label=\"") + 8; const std::string l = line.substr(q, line.find('"', q) - q);
                    const long v = l == "bot" ? -1 : l == "top" ? -2 : std::stol(l);
                    gn.push_back({a, v, cluster});
                }
            }
            o.arr("gn", gn); o.arr("ge", ge);
        }
        o.arr("d2", dump(c, s)); log_count(c); o.end();
    }
    // reduced diagram of a function as a list, parents before children in a random order
    std::vector<std::vector<long>> describe(node_ref root) {
        std::vector<std::vector<long>> d;
        if(root.is_terminal()) return d;
        auto post = root.nodes_postorder();
        std::map<node*, size_t> indeg; for(auto& x : post) indeg[x.address()];
        for(auto& x : post) for(node* q : {x.low().address(), x.high().address()}) if(indeg.count(q)) ++indeg[q];
        std::map<node*, node_ref*> ref; for(auto& x : post) ref[x.address()] = &x;
        std::vector<node*> order, ready = {root.address()};
        while(!ready.empty()) { std::swap(ready[r.below(ready.size())], ready.back()); node* p = ready.back(); ready.pop_back(); order.push_back(p);
            for(node* q : {ref[p]->low().address(), ref[p]->high().address()}) if(indeg.count(q) && --indeg[q] == 0) ready.push_back(q); }
        std::map<node*, long> num; for(size_t i=0; i<order.size(); ++i) num[order[i]] = i;
        auto child = [&](node_ref c) -> long { return c.is_botsink() ? -1 : c.is_topsink() ? -2 : num[c.address()]; };
        for(node* p : order) d.push_back({long(ref[p]->variable()), child(ref[p]->low()), child(ref[p]->high())});
        return d;
    }
    void do_build(int k) {
        bdd_collection& c = *cs[k].c;
        node_ref x = random_bdd(); if(x.is_terminal()) return;
        auto d = describe(x);
        struct Arc { size_t i; bool hi; long to; };
        std::vector<Arc> arcs; for(size_t i=0; i<d.size(); ++i) { arcs.push_back({i, false, d[i][1]}); arcs.push_back({i, true, d[i][2]}); }
        const int how = r.below(3);
        if(how > 0) for(size_t i=arcs.size()-1; i>0; --i) std::swap(arcs[i], arcs[r.below(i+1)]);
        const int missing = r.chance(25) ? int(r.below(arcs.size())) : -1;
        const bool rewrite = r.chance(20); // first set to something else, then to what it should be
        o.begin("build"); o.num("c", k); o.arr("want", d); o.arr("at", tt(x));
        const size_t i = c.new_bdd();
        std::vector<bdd_collection_node> nodes;
        auto set = [&](const Arc& a) {
            bdd_collection_node& p = nodes[a.i];
            if(a.to == -1) { if(a.hi) p.set_hi_to_0_terminal(); else p.set_lo_to_0_terminal(); }
            else if(a.to == -2) { if(a.hi) p.set_hi_to_1_terminal(); else p.set_lo_to_1_terminal(); }
            else { if(a.hi) p.set_hi_arc(nodes[a.to]); else p.set_lo_arc(nodes[a.to]); }
        };
        auto ready = [&](const Arc& a) { return a.i < nodes.size() && (a.to < 0 || size_t(a.to) < nodes.size()); };
        std::vector<char> done(arcs.size(), 0);
        auto setall = [&](size_t upto) { for(size_t q=0; q<arcs.size(); ++q) if(!done[q] && int(q) != missing && ready(arcs[q])) { if(upto == 0) return; 
            if(rewrite) { Arc f = arcs[q]; f.to = r.chance(50) ? -1 - long(r.below(2)) : long(r.below(nodes.size())); set(f); }
            set(arcs[q]); done[q] = 1; --upto; } };
        for(size_t q=0; q<d.size(); ++q) { // interleave adding nodes and setting branches
            nodes.push_back(c.add_bdd_node(d[q][0]));
            if(how == 2) setall(r.below(4));
        }
        setall(arcs.size());
        bool err = false;
        if(missing >= 0) {
            try { c.close_bdd(); } catch(const std::exception&) { err = true; }
            if(err) { set(arcs[missing]); }
        }
        bool err2 = false;
        if(missing < 0 || err) try { c.close_bdd(); } catch(const std::exception&) { err2 = true; }
        o.num("missing", missing >= 0); o.num("err", err); o.num("err2", err2); o.num("r", i);
        const bool ok = !err2 && !(missing >= 0 && !err);
        if(!ok) { // not usable
            o.arr("new", std::vector<int>()); o.arr("rt", Words()); log_count(c); o.end(); o.close(); exit(0);
        }
        o.arr("new", dump(c, i)); o.arr("rt", tt(c, i)); log_count(c); o.end();
        cs[k].ord.push_back(1);
    }
    // branches of a closed BDD set anew: exchanging the sinks and/or the branches of some nodes
    void do_edit(int k) {
        bdd_collection& c = *cs[k].c;
        const int s = pick(k); if(s < 0) return;
        auto d = dump(c, s); const long N = d.size();
        const bool neg = r.chance(50); const size_t pct = r.below(3) == 0 ? 0 : r.chance(50) ? 100 : 30;
        std::vector<long> sw; std::set<std::vector<long>> all;
        auto to = [&](long x) { return neg && x >= N-2 ? 2*N-3-x : x; };
        auto want = d;
        for(long i=0; i<N-2; ++i) { long lo = to(d[i][1]), hi = to(d[i][2]); if(r.chance(pct)) { std::swap(lo, hi); sw.push_back(i); } want[i] = {d[i][0], lo, hi}; all.insert(want[i]); }
        if(long(all.size()) != N-2) { sw.clear(); for(long i=0; i<N-2; ++i) want[i] = {d[i][0], to(d[i][1]), to(d[i][2])}; } // would no longer be reduced
        o.begin("edit"); o.num("c", k); o.arr("a", std::vector<long>{s}); o.num("neg", neg); o.arr("sw", sw);
        auto e = c[s]; const bool hifirst = r.chance(50), again = r.chance(30);
        for(long j=0; j<N-2; ++j) {
            const long i = hifirst ? N-3-j : j;
            bdd_collection_node p = e[i];
            for(int q=0; q<2; ++q) {
                const bool hi = (q == 1) != hifirst; const long t = want[i][1 + hi];
                if(t == d[i][1 + hi] && !again) continue;
                if(d[t][0] == -1) { if(hi) p.set_hi_to_0_terminal(); else p.set_lo_to_0_terminal(); }
                else if(d[t][0] == -2) { if(hi) p.set_hi_to_1_terminal(); else p.set_lo_to_1_terminal(); }
                else { bdd_collection_node x = e[t]; if(hi) p.set_hi_arc(x); else p.set_lo_arc(x); }
            }
        }
        o.num("r", s); log_new(c, s); log_count(c); o.end();
    }
    void do_newcol() { const int k = nextcol++; cs[k].c.reset(new bdd_collection()); o.begin("newcol"); o.num("c", k); log_count(*cs[k].c); o.end(); }
    void do_delcol(int k) { cs.erase(k); o.begin("delcol"); o.num("c", k); o.end(); }
    void do_copycol(int k) { // a copy of a collection is independent of it
        const int j = nextcol++; 
        if(r.chance(50)) cs[j].c.reset(new bdd_collection(*cs[k].c)); else { cs[j].c.reset(new bdd_collection()); *cs[j].c = *cs[k].c; }
        cs[j].ord = cs[k].ord;
        if(r.chance(30)) { // or moved
            if(r.chance(50)) cs[j].c.reset(new bdd_collection(std::move(*cs[k].c))); else { cs[j].c.reset(new bdd_collection()); *cs[j].c = std::move(*cs[k].c); }
            o.begin("copycol"); o.num("c", k); o.num("d", j); log_count(*cs[j].c); o.end();
            do_delcol(k); return;
        }
        o.begin("copycol"); o.num("c", k); o.num("d", j); log_count(*cs[j].c); o.end();
    }

    void step(int k) {
        int total = 0; for(auto& q : P.w) total += q.second;
        int x = r.below(total); std::string op;
        for(auto& q : P.w) { if(x < q.second) { op = q.first; break; } x -= q.second; }
        const bool f = full(k);
        if(f && (op == "add" || op == "and" || op == "nand" || op == "or" || op == "build")) op = "rm";
        bdd_collection& c = *cs[k].c;
        if(c.nr_bdds() == 0 && op != "build") op = "add";
        if(op == "add") do_add(k);
        else if(op == "and") do_and(k, 2, r.chance(limpct));
        else if(op == "nand") do_and(k, P.leaves ? r.range(1, 49) : r.range(1, P.maxops), r.chance(limpct));
        else if(op == "or") do_or(k);
        else if(op == "rm") do_rm(k);
        else if(op == "reb") do_reb(k);
        else if(op == "exp") do_exp(k);
        else if(op == "view") { do_view(k); }
        else if(op == "build") do_build(k);
        else if(op == "edit") do_edit(k);
        if(r.chance(P.audit)) { audit(k); if(P.ncol > 1 && r.chance(30)) for(auto& q : cs) if(q.first != k) audit(q.first); }
    }
    int limpct = 30;

    void history(size_t ops) {
        cs.clear(); pool.clear(); poolt.clear(); M.reset(new bdd_mgr()); M2.reset(new bdd_mgr()); nextcol = 0;
        for(size_t v=0; v<u.n; ++v) { M->add_variable(); M2->add_variable(); }
        o.begin("reset"); u.header(o); o.end();
        do_newcol();
        for(size_t i=0; i<ops; ++i) {
            if(P.ncol > 1 && r.chance(5)) {
                if(cs.size() < P.ncol) { auto it = cs.begin(); std::advance(it, r.below(cs.size())); if(r.chance(50)) do_copycol(it->first); else do_newcol(); }
                else { auto it = cs.begin(); std::advance(it, r.below(cs.size())); do_delcol(it->first); }
                if(cs.empty()) do_newcol();
            }
            if(r.chance(3)) { M->collect_garbage(); }
            auto it = cs.begin(); std::advance(it, r.below(cs.size()));
            step(it->first);
        }
        for(auto& q : cs) audit(q.first);
        pool.clear(); 
        if(r.chance(50)) { M.reset(); for(auto& q : cs) audit(q.first); } // collections outlive the managers
        cs.clear(); M.reset(); M2.reset();
    }

    // ---------------------------------------------------------------- a behaviour of MC_CollectionAlg
    struct Desc { std::vector<std::vector<long>> d; std::vector<bdd_collection_node> nodes; size_t i = 0; bool missing = false, err = true; };
    Words described(const std::vector<std::vector<long>>& d) { return u.tabulate([&](size_t p) { long x = 0; while(x >= 0) x = u.pts[p][d[x][0]] ? d[x][2] : d[x][1]; return x == -2; }); }
    void script(const std::vector<Cmd>& cmds) {
        cs.clear(); pool.clear(); poolt.clear(); M.reset(new bdd_mgr()); M2.reset(new bdd_mgr()); nextcol = 0;
        for(size_t v=0; v<u.n; ++v) { M->add_variable(); M2->add_variable(); }
        o.begin("reset"); u.header(o); o.end();
        do_newcol(); bdd_collection& c = *cs[0].c; std::vector<char>& ord = cs[0].ord;
        std::unique_ptr<Desc> D;
        for(auto& cmd : cmds) {
            const std::string& k = cmd.first; const std::vector<long>& a = cmd.second;
            if(k == "add") { const Words w{int(a[0])}; node_ref x = build(*M, w, 0, 0); add_op(0, x, w); }
            else if(k == "and") { std::vector<long> b(a.begin() + 1, a.end()); bool in = true; for(long x : b) in = in && ord[x]; and_op(0, b, in, true, a[0]); }
            else if(k == "or") { std::set<size_t> pos, neg; for(size_t i=1; i<a.size(); i+=2) (a[i+1] ? pos : neg).insert(a[i]); or_op(0, a[0], pos, neg); }
            else if(k == "rm") rm_op(0, a);
            else if(k == "reb") { std::set<size_t> sup; for(auto& q : dump(c, a[0])) if(q[0] >= 0) sup.insert(q[0]); reb_op(0, a[0], std::vector<size_t>(a.begin() + 1, a.end()), sup); }
            else if(k == "open") { D.reset(new Desc); D->i = c.new_bdd(); }
            else if(k == "node") { D->d.push_back({a[0], -9, -9}); D->nodes.push_back(c.add_bdd_node(a[0])); }
            else if(k == "arc") {
                bdd_collection_node& p = D->nodes[a[0]-1]; const bool hi = a[1];
                D->d[a[0]-1][1 + hi] = a[2] > 0 ? a[2] - 1 : a[2];
                if(a[2] == -1) { if(hi) p.set_hi_to_0_terminal(); else p.set_lo_to_0_terminal(); }
                else if(a[2] == -2) { if(hi) p.set_hi_to_1_terminal(); else p.set_lo_to_1_terminal(); }
                else { if(hi) p.set_hi_arc(D->nodes[a[2]-1]); else p.set_lo_arc(D->nodes[a[2]-1]); }
            } else if(k == "close") {
                bool full = true; for(auto& q : D->d) full = full && q[1] != -9 && q[2] != -9;
                bool err = false; try { c.close_bdd(); } catch(const std::exception&) { err = true; }
                if(!full) { D->missing = true; if(err) continue; }
                o.begin("build"); o.num("c", 0); o.arr("want", D->d); o.arr("at", full ? described(D->d) : Words()); o.num("missing", D->missing); o.num("err", full && D->missing); o.num("err2", full && err); o.num("r", D->i);
                if(!full || err) { o.arr("new", std::vector<int>()); o.arr("rt", Words()); log_count(c); o.end(); o.close(); exit(0); }
                o.arr("new", dump(c, D->i)); o.arr("rt", tt(c, D->i)); log_count(c); o.end(); ord.push_back(1); D.reset();
            } else exit(3);
        }
        if(!D) { audit(0); if(!ord.empty()) { do_exp(0); do_view(0); audit(0); } }
    }

    // every number of operands of bdd_and, every position of the operand that matters
    void each(bool limited) {
        cs.clear(); pool.clear(); poolt.clear(); M.reset(new bdd_mgr()); M2.reset(new bdd_mgr()); nextcol = 0;
        for(size_t v=0; v<u.n; ++v) { M->add_variable(); M2->add_variable(); }
        o.begin("reset"); u.header(o); o.end();
        do_newcol();
        const int full = u.full()[0], bits = 1 << u.n;
        const int p = r.below(bits);
        std::vector<int> weak, strong;
        for(int i=0; i<5; ++i) weak.push_back((int(r.next()) & full) | (1 << p));
        weak.push_back(full);
        for(int i=0; i<3; ++i) { int w = full; for(int j=0; j<=i; ++j) w &= ~(1 << r.below(bits)); strong.push_back(w & ~(1 << p)); }
        for(auto* f : {&weak, &strong}) for(int& w : *f) { node_ref x = build(*M, Words{w}, 0, 0); const Words t = tt(x); add_op(0, x, t); w = cs[0].c->nr_bdds() - 1; }
        for(size_t n=2; n<=49; ++n) {
            const size_t before = cs[0].c->nr_bdds();
            for(size_t k=0; k<n; ++k) {
                std::vector<long> a; for(size_t i=0; i<n; ++i) a.push_back(i == k ? strong[r.below(strong.size())] : n > 4 && r.chance(75) ? weak.back() : weak[r.below(weak.size())]);
                and_op(0, a, true, limited, -1);
            }
            std::vector<long> rm; for(size_t i=before; i<cs[0].c->nr_bdds(); ++i) rm.push_back(i);
            if(!rm.empty()) rm_op(0, rm);
        }
        audit(0);
    }

    // every pair of functions of n variables, every limit
    void pairs(size_t n, size_t sample) {
        u = Universe::all(n); M.reset(new bdd_mgr()); for(size_t v=0; v<n; ++v) M->add_variable();
        o.begin("reset"); u.header(o); o.end();
        const int full = u.full()[0];
        bdd_collection c; std::vector<size_t> ix;
        for(int w=0; w<=full; ++w) { node_ref x = build(*M, Words{w}, 0, 0); ix.push_back(c.add_bdd(x)); }
        std::vector<int> as; for(int w=0; w<=full; ++w) as.push_back(w);
        if(sample && sample < as.size()) { for(size_t i=as.size()-1; i>0; --i) std::swap(as[i], as[r.below(i+1)]); as.resize(sample); }
        for(int a : as) {
            std::vector<int> rows, sizes, ok, third; std::vector<int> trows;
            const int t = r.below(full+1);
            for(int b=0; b<=full; ++b) {
                const size_t before = c.nr_bdds();
                const size_t i = c.bdd_and(ix[a], ix[b]);
                rows.push_back(tt(c, i)[0]); const size_t s = c.nr_bdd_nodes(i); sizes.push_back(s);
                bool good = i == before && c.nr_bdds() == before + 1;
                std::vector<size_t> rm = {i}; c.remove(rm.begin(), rm.end());
                // limits around the size
                for(size_t L=3; L<=s+2; ++L) { const size_t j = c.bdd_and(ix[a], ix[b], L); const bool fail = j == std::numeric_limits<size_t>::max();
                    good = good && fail == (L < s) && c.nr_bdds() == before + !fail;
                    if(!fail) { std::vector<size_t> rm2 = {j}; c.remove(rm2.begin(), rm2.end()); } }
                std::vector<size_t> three = {ix[a], ix[b], ix[t]};
                const size_t k = c.bdd_and(three.begin(), three.end()); trows.push_back(tt(c, k)[0]); std::vector<size_t> rm3 = {k};
                const size_t s3 = c.nr_bdd_nodes(k);
                c.remove(rm3.begin(), rm3.end());
                for(size_t L=3; L<=s3+1; ++L) { const size_t j = c.bdd_and(three.begin(), three.end(), L); const bool fail = j == std::numeric_limits<size_t>::max();
                    good = good && fail == (L < s3) && c.nr_bdds() == before + !fail;
                    if(!fail) { std::vector<size_t> rm2 = {j}; c.remove(rm2.begin(), rm2.end()); } }
                ok.push_back(good);
            }
            o.begin("pairs"); o.num("f", a); o.num("t", t); o.arr("rows", rows); o.arr("sizes", sizes); o.arr("trows", trows); o.arr("ok", ok); o.end();
        }
    }
};

static Profile profile(const std::string& name, Rng& r, Drv& D) {
    Profile P; D.limpct = 25;
    P.n = r.range(2, 5);
    if(name == "col") P.w = {{"edit",3},{"add",10},{"and",8},{"nand",6},{"or",6},{"rm",4},{"reb",4},{"exp",6},{"view",4},{"build",5}};
    else if(name == "impexp") { P.w = {{"edit",3},{"add",20},{"and",4},{"or",2},{"nand",2},{"rm",3},{"reb",3},{"exp",20},{"build",3}}; P.maxbdds = 14; P.audit = 40; }
    else if(name == "impexpbig") { P.exact = false; P.n = r.range(8, 40); P.w = {{"add",40},{"and",3},{"rm",1},{"exp",15},{"reb",6},{"build",3}}; P.maxbdds = 400; P.maxinstr = 6000; P.audit = 2; }
    else if(name == "and") { P.w = {{"edit",2},{"add",10},{"and",16},{"nand",24},{"or",2},{"rm",4},{"reb",5},{"build",2}}; D.limpct = 10; P.maxops = 7; }
    else if(name == "andN") { P.n = r.range(4, 6); P.w = {{"add",14},{"and",4},{"nand",30},{"rm",2},{"build",2}}; P.leaves = true; D.limpct = 15; P.audit = 30; P.maxbdds = 30; }
    else if(name == "each") P.n = 4;
    else if(name == "andbig") { P.exact = false; P.n = r.range(8, 30); P.w = {{"add",30},{"and",16},{"nand",16},{"rm",2},{"reb",2},{"or",1}}; P.maxbdds = 60; P.maxinstr = 4000; P.audit = 5; P.maxops = 4; D.limpct = 30; }
    else if(name == "limit") { P.w = {{"edit",2},{"add",10},{"and",20},{"nand",20},{"or",2},{"rm",4},{"reb",5},{"build",1}}; D.limpct = 85; P.maxops = 6; }
    else if(name == "remove") { P.w = {{"edit",3},{"add",20},{"and",4},{"nand",2},{"or",2},{"rm",16},{"reb",16},{"build",4},{"exp",4}}; P.maxbdds = 14; D.limpct = 10; }
    else if(name == "removebig") { P.exact = false; P.n = r.range(8, 30); P.points = 48; P.w = {{"add",40},{"and",4},{"or",2},{"rm",4},{"reb",10},{"build",4}}; P.maxbdds = 60; P.maxinstr = 3000; P.audit = 15; }
    else if(name == "or") { P.w = {{"edit",2},{"add",14},{"and",4},{"or",30},{"rm",3},{"reb",6},{"build",4}}; }
    else if(name == "orbig") { P.exact = false; P.n = r.range(8, 30); P.w = {{"add",20},{"or",20},{"and",2},{"reb",3},{"rm",2}}; P.maxbdds = 40; P.maxinstr = 3000; P.audit = 5; }
    else if(name == "view") { P.w = {{"edit",5},{"add",8},{"and",6},{"nand",4},{"or",6},{"rm",4},{"reb",4},{"view",30},{"build",6}}; }
    else if(name == "viewbig") { P.exact = false; P.n = r.range(8, 30); P.w = {{"edit",3},{"add",12},{"and",6},{"or",4},{"rm",2},{"reb",3},{"view",14},{"build",5}}; P.maxbdds = 40; P.maxinstr = 2000; P.audit = 3; }
    else if(name == "build") { P.w = {{"edit",8},{"add",6},{"and",5},{"nand",3},{"or",3},{"rm",5},{"reb",3},{"exp",6},{"view",5},{"build",25}}; }
    else if(name == "buildbig") { P.exact = false; P.n = r.range(8, 30); P.w = {{"edit",4},{"add",6},{"and",4},{"or",2},{"rm",3},{"exp",4},{"view",3},{"build",16}}; P.maxbdds = 40; P.maxinstr = 2000; P.audit = 5; }
    else if(name == "huge") { P.exact = false; P.n = r.range(26, 40); P.points = 48; P.wide = 400; P.w = {{"add",16},{"and",12},{"nand",3},{"or",4},{"rm",2},{"reb",4},{"exp",5},{"view",4},{"build",3}}; P.maxbdds = 400; P.maxinstr = 75000; P.audit = 1; P.maxops = 3; }
    else if(name == "script") P.n = 2;
    else if(name == "multi") { P.n = r.range(2, 4); P.ncol = 4; P.w = {{"edit",3},{"add",14},{"and",8},{"nand",3},{"or",4},{"rm",6},{"reb",4},{"exp",4},{"build",4}}; P.maxbdds = 7; }
    else { fprintf(stderr, "unknown profile %s\n", name.c_str()); exit(3); }
    if(!P.exact && !P.wide && r.chance(name == "viewbig" || name == "impexpbig" ? 40 : 20)) P.n = r.chance(50) ? r.range(60, 140) : r.range(250, 280); // more variables than a word has bits, a byte has values
    return P;
}

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "col");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "pairs") D.pairs(hist, ops);
    else if(name == "script") { D.P = profile(name, D.r, D); D.P.n = hist; D.u = Universe::all(D.P.n); for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) D.script(s); }
    else for(size_t h=0; h<hist; ++h) {
        D.P = profile(name, D.r, D);
        D.u = D.P.exact ? Universe::all(D.P.n) : Universe::sample(D.P.n, D.P.points, D.r);
        if(name == "each") D.each(ops); else D.history(ops);
    }
    D.o.close();
    return 0;
}
