// Histories of bdd_mgr / node_ref objects, recorded for ManagerTrace.tla.
//   mgr --profile P --seed S --hist H --ops N --out FILE [--script FILE]
#include "common.h"
#include "script.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <iostream>
using namespace BDD;

struct Profile {
    size_t n = 4; bool exact = true; size_t points = 96; size_t nslots = 8; size_t nmgr = 1;
    std::map<std::string,int> w; // weights
    bool dag = true, eq = false, rc = false, rep = false, nns = false, twin = false, at2 = false, minsize = false, maxnew = false;
    int audit = 0;   // percent of events followed by an audit
    int gcaudit = 0; // percent of collections followed by an audit
    size_t maxlist = 6;
    bool prevars = true; // create all variables at the beginning
    size_t maxnodes = 100000;
    int ballast = 40;      // percent of managers with ballast
    size_t maxwork = 1500;
    size_t wide = 0;     // layered diagrams with up to this many nodes per variable
    size_t maxdag = 300; // larger diagrams are dropped (sampled universes)
};

struct Mgr {
    std::unique_ptr<bdd_mgr> m;
    std::unordered_map<node*, int> ids;
    int next = 2;
    // nodes over variables that the history does not use, kept alive unseen: they take up (most of) the
    // first page of the node store, so that the nodes of the history lie on several pages
    std::vector<node_ref> ballast; long nballast = 0, bx = 0, tx = 0;
    long nn() const { return long(m->nr_nodes()) - nballast; }
    Mgr() = default;
    ~Mgr() { ballast.clear(); }
};

struct Drv {
    Out o; Rng r; Universe u; Profile P;
    std::map<int, Mgr> ms;
    std::map<int, std::unique_ptr<node_ref>> slots, slots2; // slots2: twin
    std::map<int, int> slotm;
    std::unique_ptr<bdd_mgr> twin;
    explicit Drv(uint64_t seed) : r(seed) {}

    // ---------------------------------------------------------------- observation
    int id(int m, node* p) {
        Mgr& M = ms[m];
        if(p == M.m->botsink().address()) return 0;
        if(p == M.m->topsink().address()) return 1;
        auto it = M.ids.find(p);
        if(it != M.ids.end()) return it->second;
        M.ids.insert({p, M.next});
        return M.next++;
    }
    static bool sink(node* p) { return p->index == node::botsink_index || p->index == node::topsink_index; }
    static void post(node* p, std::unordered_map<node*,char>& seen, std::vector<node*>& out) {
        if(sink(p) || seen.count(p)) return;
        seen[p] = 1;
        post(p->lo, seen, out); post(p->hi, seen, out);
        out.push_back(p);
    }
    static std::vector<node*> reach(node* p) { std::unordered_map<node*,char> s; std::vector<node*> v; post(p, s, v); return v; }
    std::vector<std::vector<long>> dag(int m, node* p) {
        // rows <<id, variable, lo, hi, row of lo, row of hi>>; rows 1, 2: the sinks
        std::vector<std::vector<long>> d; std::unordered_map<node*, long> pos;
        pos[ms[m].m->botsink().address()] = 1; pos[ms[m].m->topsink().address()] = 2;
        for(node* q : reach(p)) {
            const int i = id(m, q), a = id(m, q->lo), b = id(m, q->hi);
            d.push_back({i, long(q->index), a, b, pos[q->lo], pos[q->hi]}); pos[q] = d.size() + 2;
        }
        return d;
    }
    Words tt(node_ref& x) { return u.tabulate([&](size_t p) { return u.at(p, [&](auto b, auto e) { return x.evaluate(b, e); }); }); }
    std::vector<int> slots_of(int m) { std::vector<int> v; for(auto& s : slotm) if(s.second == m) v.push_back(s.first); return v; }
    double paths(node* p, std::unordered_map<node*,double>& memo) {
        if(sink(p)) return 1;
        auto it = memo.find(p); if(it != memo.end()) return it->second;
        const double d = paths(p->lo, memo) + paths(p->hi, memo);
        return memo[p] = d;
    }
    double paths(node_ref& x) { std::unordered_map<node*,double> memo; return paths(x.address(), memo); }

    void log_counts(int m) {
        o.num("nn", ms[m].nn()); o.num("nv", ms[m].m->nr_variables());
        if(P.nns) log_nns();
        log_rc();
    }
    void log_nns() {
        std::vector<std::vector<long>> v;
        for(auto& M : ms) v.push_back({M.first, M.second.nn()});
        o.arr("nns", v);
    }
    void log_rc() {
        if(!P.rc) return;
        std::vector<std::vector<long>> v;
        for(auto& s : slots) { // references from the ballast are not counted
            Mgr& M = ms[slotm[s.first]]; node* p = s.second->address();
            v.push_back({s.first, long(s.second->reference_count()) - (p == M.m->botsink().address() ? M.bx : p == M.m->topsink().address() ? M.tx : 0)});
        }
        o.arr("rc", v);
    }
    void log_eq(int m, int d, node_ref& x, const char* k = "eq", bool tw = false) {
        std::vector<int> e;
        for(auto& s : slotm) if(s.second == m && s.first != d) {
            node_ref& y = tw ? *slots2[s.first] : *slots[s.first];
            const bool q = (y == x);
            if(q == (y != x)) e.push_back(-99); // == and != must be opposite
            if(q) e.push_back(s.first);
        }
        o.arr(k, e);
    }

    // ---------------------------------------------------------------- operations
    struct Op { std::string op; int form = 0; long b = 0; Words w; std::vector<std::vector<long>> want; };

    node_ref build(bdd_mgr& m, const Words& w, size_t v, size_t base) {
        // function with truth table w restricted to the points base + x, x over variables v..n-1
        if(v == u.n) return (w[base/16] >> (base%16)) & 1 ? m.topsink() : m.botsink();
        node_ref lo = build(m, w, v+1, base);
        node_ref hi = build(m, w, v+1, base | (size_t(1) << v));
        return m.unique_find(v, lo, hi);
    }

    // numbers beyond 2^31 are logged as BIG
    static constexpr long BIG = 2000000000;
    size_t big(long b) { if(b != BIG) return b; switch(nbig++ % 4) { case 0: return size_t(1) << 32; case 1: return (size_t(1) << 32) + 2; case 2: return std::numeric_limits<size_t>::max(); default: return BIG; } }
    size_t nbig = 0;
    node_ref exec(bdd_mgr& m, const Op& op, std::vector<node_ref>& a) {
        const size_t k = a.size();
        if(op.op == "not") return op.form == 0 ? m.negate(a[0]) : !a[0];
        if(op.op == "and") {
            if(k == 2 && op.form == 0) return m.and_rec(a[0], a[1]);
            if(k == 2 && op.form == 1) return a[0] & a[1];
            if(op.form == 3 && k == 3) return m.and_rec(a[0], a[1], a[2]);
            if(op.form == 3 && k == 4) return m.and_rec(a[0], a[1], a[2], a[3]);
            if(op.form == 3 && k == 5) return m.and_rec(a[0], a[1], a[2], a[3], a[4]);
            if(op.form == 3 && k == 6) return m.and_rec(a[0], a[1], a[2], a[3], a[4], a[5]);
            if(op.form == 3 && k == 7) return m.and_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            if(op.form == 3 && k == 9) return m.and_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
            return m.and_rec(a.begin(), a.end());
        }
        if(op.op == "or") {
            if(k == 2 && op.form == 0) return m.or_rec(a[0], a[1]);
            if(k == 2 && op.form == 1) return a[0] || a[1];
            if(op.form == 3 && k == 3) return m.or_rec(a[0], a[1], a[2]);
            if(op.form == 3 && k == 4) return m.or_rec(a[0], a[1], a[2], a[3]);
            if(op.form == 3 && k == 5) return m.or_rec(a[0], a[1], a[2], a[3], a[4]);
            if(op.form == 3 && k == 6) return m.or_rec(a[0], a[1], a[2], a[3], a[4], a[5]);
            if(op.form == 3 && k == 7) return m.or_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            if(op.form == 3 && k == 9) return m.or_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
            return m.or_rec(a.begin(), a.end());
        }
        if(op.op == "xor") {
            if(k == 2 && op.form == 0) return m.xor_rec(a[0], a[1]);
            if(k == 2 && op.form == 1) return a[0] ^ a[1];
            if(op.form == 3 && k == 3) return m.xor_rec(a[0], a[1], a[2]);
            if(op.form == 3 && k == 4) return m.xor_rec(a[0], a[1], a[2], a[3]);
            if(op.form == 3 && k == 5) return m.xor_rec(a[0], a[1], a[2], a[3], a[4]);
            if(op.form == 3 && k == 6) return m.xor_rec(a[0], a[1], a[2], a[3], a[4], a[5]);
            if(op.form == 3 && k == 7) return m.xor_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            if(op.form == 3 && k == 9) return m.xor_rec(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
            return m.xor_rec(a.begin(), a.end());
        }
        if(op.op == "ite") return m.ite_rec(a[0], a[1], a[2]);
        if(op.op == "bot") return m.botsink();
        if(op.op == "top") return m.topsink();
        if(op.op == "proj") return m.projection(op.b);
        if(op.op == "nproj") return m.neg_projection(op.b);
        if(op.op == "find") return m.unique_find(op.b, a[0], a[1]);
        if(op.op == "none") return m.all_false(a.begin(), a.end());
        if(op.op == "one") return m.simplex(a.begin(), a.end());
        if(op.op == "amo") return m.at_most_one(a.begin(), a.end());
        if(op.op == "alo") return m.at_least_one(a.begin(), a.end());
        if(op.op == "atleast") return m.at_least(a.begin(), a.end(), big(op.b));
        if(op.op == "atmost") return m.at_most(a.begin(), a.end(), big(op.b));
        if(op.op == "card") return m.cardinality(a.begin(), a.end(), big(op.b));
        if(op.op == "build") return build(m, op.w, 0, 0);
        if(op.op == "layer") { // node by node as described: <<v, lo, hi>>, 0 and 1 the sinks, k+1 the k-th node
            std::vector<node_ref> x = {m.botsink(), m.topsink()};
            for(auto& n : op.want) x.push_back(m.unique_find(n[0], x[n[1]], x[n[2]]));
            return x.back();
        }
        fprintf(stderr, "unknown op %s\n", op.op.c_str()); exit(3);
    }

    void put(std::map<int, std::unique_ptr<node_ref>>& S, int d, node_ref& x, int how) {
        auto it = S.find(d);
        if(it != S.end() && how == 0) { *it->second = x; return; }        // copy assignment
        if(how == 1) S[d].reset(new node_ref(x));                         // copy construction
        else if(how == 2) { S[d].reset(new node_ref(std::move(x))); }     // move construction
        else { node_ref tmp; tmp = x; S[d].reset(new node_ref(tmp)); }    // assignment to an empty handle
    }

    int dest() { return r.below(P.nslots); }

    void do_op(int m, Op op, const std::vector<int>& args, int d) {
        bdd_mgr& M = *ms[m].m;
        std::vector<long> ai; std::vector<Words> at;
        for(int s : args) { ai.push_back(id(m, slots[s]->address())); at.push_back(tt(*slots[s])); }
        const int how = r.below(4);
        o.begin("op"); o.str("op", op.op); o.num("form", op.form); o.num("m", m); o.arr("a", args); o.arr("ai", ai); o.arr("at", at);
        o.num("b", op.b); o.num("d", d);
        if(op.op == "build") o.arr("w", op.w);
        if(op.op == "layer") o.arr("want", op.want);
        if(P.maxnew && (op.op == "bot" || op.op == "top")) o.num("maxnew", 0);
        if(P.maxnew && (op.op == "proj" || op.op == "nproj" || op.op == "find")) o.num("maxnew", 1);
        std::vector<long> rep;
        {
            std::vector<node_ref> a; for(int s : args) a.push_back(*slots[s]);
            node_ref x = exec(M, op, a);
            const int rid = id(m, x.address());
            Words rt = tt(x);
            o.num("r", rid); o.arr("rt", rt);
            if(P.at2) { std::vector<Words> at2; for(int s : args) at2.push_back(tt(*slots[s])); o.arr("at2", at2); }
            if(P.dag) o.arr("dag", dag(m, x.address()));
            if(P.minsize && r.chance(40)) o.num("min", 1);
            if(P.eq) log_eq(m, d, x);
            if(P.nns) { int own = -1; for(auto& q : ms) if(q.second.m.get() == x.find_bdd_mgr()) own = q.first; o.num("own", own); }
            if(P.rep && r.chance(30)) {
                                node_ref y = exec(M, op, a);
                rep = {id(m, y.address()), ms[m].nn()};
            }
            if(P.twin) {
                std::vector<node_ref> a2; for(int s : args) a2.push_back(*slots2[s]);
                node_ref y = exec(*twin, op, a2);
                o.arr("rt2", tt(y)); o.num("sz", x.nr_nodes()); o.num("sz2", y.nr_nodes());
                log_eq(m, d, y, "eq2", true);
                slots2[d].reset(new node_ref(y));
            }
            if(d >= 0) { slotm[d] = m; put(slots, d, x, how); }
        }
        if(!rep.empty()) o.arr("rep", rep);
        log_counts(m);
        o.end();
    }

    // results that are not connectives: the new handle comes from f
    template<class F> void do_get(const char* op, int m, const std::vector<int>& args, long b, int d, int maxnew, F f, bool val = true) {
        o.begin("get"); o.str("op", op); o.num("m", m); o.arr("a", args); o.num("b", b); o.num("d", d);
        if(P.maxnew && maxnew >= 0) o.num("maxnew", maxnew);
        {
            node_ref x = f(slots);
            o.num("r", id(m, x.address()));
            if(val) { o.arr("rt", tt(x)); if(P.dag) o.arr("dag", dag(m, x.address())); if(P.eq) log_eq(m, d, x); }
            if(P.twin) { node_ref y = f(slots2); slots2[d].reset(new node_ref(y)); }
            slotm[d] = m; put(slots, d, x, r.below(4));
        }
        log_counts(m); o.end();
    }

    void do_reset() {
        o.begin("reset"); u.header(o); o.end();
    }
    void do_newmgr(int m) {
        ms[m].ballast.clear(); ms[m].nballast = ms[m].bx = ms[m].tx = 0;
        ms[m].m.reset(new bdd_mgr()); ms[m].next = 2; ms[m].ids.clear();
        bdd_mgr& M = *ms[m].m;
        o.begin("newmgr"); o.num("m", m);
        long s0, s1;
        { node_ref b = M.botsink(); s0 = b.reference_count() - 1; } { node_ref t = M.topsink(); s1 = t.reference_count() - 1; }
        o.arr("sx", std::vector<long>{s0, s1});
        o.num("nn", M.nr_nodes()); o.num("nv", M.nr_variables());
        if(P.nns) { std::vector<std::vector<long>> v; for(auto& q : ms) if(q.first != m) v.push_back({q.first, q.second.nn()}); o.arr("nns", v); }
        o.end();
    }
    // fill the node store up to shortly before or after the end of a page
    void do_ballast(int m) {
        Mgr& M = ms[m];
        if(M.m->nr_variables() != u.n || !r.chance(P.ballast)) return;
        const size_t k = 10; for(size_t i=0; i<k; ++i) do_addvar(m);
        const size_t target = 4096 * r.range(1, 2) - r.below(r.chance(50) ? 12 : 150);
        auto sinks = [&]() { return std::make_pair(long(M.m->get_node_cache().botsink()->xref), long(M.m->get_node_cache().topsink()->xref)); };
        const auto s0 = sinks(); const long n0 = M.m->nr_nodes();
        std::vector<std::vector<node_ref>> level(k + 1);
        level[k] = {M.m->botsink(), M.m->topsink()};
        size_t below = 2; std::vector<node_ref> all = level[k];
        for(size_t l=k; l-- > 0 && M.m->nr_nodes() < target; ) {
            const size_t want = l == 0 ? target : std::min(target, M.m->nr_nodes() + std::min<size_t>(below * below / 3 + 1, 700));
            for(size_t tries=0; tries < 40000 && M.m->nr_nodes() < want; ++tries) {
                node_ref a = all[r.below(below)], b = all[r.below(below)];
                node_ref x = M.m->unique_find(u.n + l, a, b);
                if(!x.is_terminal()) all.push_back(x);
            }
            below = all.size();
        }
        M.ballast.assign(all.begin() + 2, all.end());
        level.clear(); all.clear();
        const auto s1 = sinks();
        M.nballast = long(M.m->nr_nodes()) - n0; M.bx = s1.first - s0.first; M.tx = s1.second - s0.second;
    }
    void do_delmgr(int m) {
        for(int s : slots_of(m)) do_drop(s);
        ms[m].ballast.clear();
        ms.erase(m);
        o.begin("delmgr"); o.num("m", m); if(P.nns) log_nns(); o.end();
    }
    void do_addvar(int m) {
        const size_t v = ms[m].m->add_variable();
        if(P.twin) twin->add_variable();
        o.begin("addvar"); o.num("m", m); o.num("v", v); log_counts(m); o.end();
    }
    void do_drop(int s) {
        const int m = slotm[s];
        slots.erase(s); slots2.erase(s); slotm.erase(s);
        o.begin("drop"); o.num("s", s); o.num("m", m); log_nns(); log_rc(); o.end();
    }
    static node_ref pass(node_ref x) { node_ref y = x; return y; }
    void do_copy(int s, int d) {
        const int m = slotm[s];
        if(s == d) { node_ref& x = *slots[s]; x = *slots[s]; } // self assignment
        else switch(r.below(5)) {
            case 0: slots[d].reset(new node_ref(*slots[s])); break;
            case 1: if(slots.count(d)) *slots[d] = *slots[s]; else { slots[d].reset(new node_ref()); *slots[d] = *slots[s]; } break;
            case 2: { node_ref y = pass(*slots[s]); slots[d].reset(new node_ref(y)); break; }
            case 3: { std::vector<node_ref> v; for(int i=0; i<5; ++i) v.push_back(*slots[s]); v.erase(v.begin()+1); std::reverse(v.begin(), v.end());
                      slots[d].reset(new node_ref(v[2])); break; }
            case 4: { node_ref y(*slots[s]); node_ref z(std::move(y)); std::swap(y, z); slots[d].reset(new node_ref(y.address() ? y : z)); break; }
        }
        if(P.twin && s != d) slots2[d].reset(new node_ref(*slots2[s]));
        slotm[d] = m;
        o.begin("copy"); o.num("s", s); o.num("d", d); o.num("r", id(m, slots[d]->address())); log_nns(); log_rc(); o.end();
    }
    void do_move(int s, int d) {
        const int m = slotm[s];
        if(s == d) return;
        slots[d].reset(new node_ref(std::move(*slots[s])));
        if(P.twin) { slots2[d].reset(new node_ref(*slots2[s])); slots2.erase(s); }
        slotm[d] = m; slots.erase(s); slotm.erase(s);
        o.begin("move"); o.num("s", s); o.num("d", d); o.num("r", id(m, slots[d]->address())); log_nns(); log_rc(); o.end();
    }
    // forget the names of nodes that die
    void forget_dead(int m) {
        Mgr& M = ms[m];
        std::unordered_map<node*, char> seen; std::vector<node*> live;
        for(int s : slots_of(m)) post(slots[s]->address(), seen, live);
        std::unordered_map<node*, int> ids;
        for(node* p : live) { auto it = M.ids.find(p); if(it != M.ids.end()) ids.insert(*it); }
        M.ids.swap(ids);
    }
    void do_gc(int m) {
        forget_dead(m);
        if(ms[m].nballast && r.chance(6)) { ms[m].ballast.clear(); ms[m].nballast = ms[m].bx = ms[m].tx = 0; } // thousands of nodes to reclaim at once
        ms[m].m->collect_garbage();
        o.begin("gc"); o.num("m", m); o.num("nn", ms[m].nn()); if(P.nns) log_nns(); log_rc(); o.end();
        if(r.chance(P.gcaudit)) do_audit(m);
    }
    void do_audit(int m) {
        Mgr& M = ms[m];
        // name all nodes reachable from handles, then report every node with a name
        for(int s : slots_of(m)) dag(m, slots[s]->address());
        o.begin("audit"); o.num("m", m);
        o.key("slots"); o.cur += "["; bool first = true;
        for(int s : slots_of(m)) {
            if(!first) o.cur += ","; first = false;
            o.cur += "[" + std::to_string(s) + "," + std::to_string(id(m, slots[s]->address())) + ",";
            o.val(tt(*slots[s])); o.cur += "]";
        }
        o.cur += "]";
        std::vector<std::vector<long>> nodes;
        std::vector<std::pair<int,node*>> byid; for(auto& q : M.ids) byid.push_back({q.second, q.first});
        std::sort(byid.begin(), byid.end());
        for(auto& q : byid) nodes.push_back({q.first, long(q.second->index), id(m, q.second->lo), id(m, q.second->hi), long(q.second->xref)});
        o.arr("nodes", nodes);
        long s0, s1;
        { node_ref b = M.m->botsink(); s0 = b.reference_count() - 1 - M.bx; } { node_ref t = M.m->topsink(); s1 = t.reference_count() - 1 - M.tx; }
        o.arr("sx", std::vector<long>{s0, s1});
        o.num("nn", M.nn()); o.num("nv", M.m->nr_variables());
        o.end();
    }

    // ---------------------------------------------------------------- structural queries
    struct Answers { size_t nr; std::vector<size_t> vars; std::vector<int> post, bfs; bool one; std::vector<std::vector<long>> edges;
        bool operator==(const Answers& o) const { return nr==o.nr && vars==o.vars && post==o.post && bfs==o.bfs && one==o.one && edges==o.edges; } };
    std::vector<std::vector<long>> printed(int m, node_ref& x) {
        std::stringstream s; x.print(s);
        std::vector<std::vector<long>> e; std::string line; 
        auto name = [&](std::string t) -> long {
            if(t == "bot") return 0; if(t == "top") return 1;
            const size_t c = t.find(','); if(t.size() < 4 || t[0] != '"' || c == std::string::npos) return -1;
            const size_t v = std::stoul(t.substr(1, c-1)); const size_t a = std::stoul(t.substr(c+1));
            auto it = ms[m].ids.find(reinterpret_cast<node*>(a));
            if(it == ms[m].ids.end()) return -2;
            if(it->first->index != v) return -3;
            return it->second;
        };
        while(std::getline(s, line)) {
            const size_t a = line.find(" -> "); if(a == std::string::npos) continue;
            const size_t b = line.find(" [label="); 
            if(b == std::string::npos || b + 9 >= line.size()) { e.push_back({-1,-1,-1}); continue; }
            e.push_back({name(line.substr(0, a)), name(line.substr(a+4, b-a-4)), line[b+9] - '0'});
        }
        return e;
    }
    Answers ask(int m, node_ref& x) {
        Answers A; dag(m, x.address());
        int order[6] = {0,1,2,3,4,5};
        for(int i=5; i>0; --i) std::swap(order[i], order[r.below(i+1)]);
        for(int i=0; i<6; ++i) switch(order[i]) {
            case 0: A.nr = x.nr_nodes(); break;
            case 1: A.vars = x.variables(); break;
            case 2: for(node_ref& y : x.nodes_postorder()) A.post.push_back(id(m, y.address())); break;
            case 3: for(node_ref& y : x.nodes_bfs()) A.bfs.push_back(id(m, y.address())); break;
            case 4: A.one = x.exactly_one_solution(); break;
            case 5: A.edges = printed(m, x); break;
        }
        return A;
    }
    void do_query(int s) {
        const int m = slotm[s];
        node_ref& x = *slots[s];
        auto d1 = dag(m, x.address());
        Answers A = ask(m, x), B = ask(m, x);
        if(r.chance(50)) { // the same through other handles and after querying parts of the diagram
            if(!x.is_terminal()) { node_ref lo = x.low(), hi = x.high(); ask(m, lo); hi.nr_nodes(); ask(m, hi); lo.variables(); }
            node_ref y = x; B = ask(m, y);
        }
        o.begin("query"); o.num("m", m); o.num("s", s); o.num("r", id(m, x.address()));
        o.arr("dag", d1); o.num("nr", A.nr); { std::vector<long> v(A.vars.begin(), A.vars.end()); o.arr("vars", v); }
        o.arr("post", A.post); o.arr("bfs", A.bfs); o.num("one", A.one); o.arr("edges", A.edges);
        o.arr("rt", tt(x)); o.arr("dag2", dag(m, x.address())); o.num("same", A == B);
        o.arr("root", std::vector<long>{x.is_terminal() ? -1 : long(x.variable()), x.is_botsink(), x.is_topsink()});
        log_counts(m); o.end();
    }

    // ---------------------------------------------------------------- rebase, limited conjunction
    void do_rebase(int s, int d, const std::vector<size_t>& fixed = {}) {
        const int m = slotm[s]; bdd_mgr& M = *ms[m].m;
        auto adag = dag(m, slots[s]->address());
        std::set<size_t> sup; for(auto& q : adag) sup.insert(q[1]);
        std::vector<size_t> vars(sup.begin(), sup.end());
        // images: distinct variables of the universe
        std::vector<size_t> img; for(size_t v=0; v<u.n; ++v) img.push_back(v);
        for(size_t i=0; i<img.size(); ++i) std::swap(img[i], img[i + r.below(img.size()-i)]);
        const int kind = r.below(5);
        if(kind == 0) std::sort(img.begin(), img.end()); // identity on the first variables
        const size_t k = vars.empty() ? 0 : vars.back() + 1;
        std::vector<size_t> full(img.begin(), img.begin() + std::max<size_t>(k, 1)); // vector form: image of 0..k-1
        if(kind == 1 || kind == 2) std::sort(full.begin(), full.end()); // order preserving
        if(kind == 2) { size_t sh = u.n - full.back() - 1; for(auto& x : full) x += r.below(1) + sh; }
        const bool inj = !fixed.empty() || !r.chance(15);
        if(!inj) for(size_t i=0; i<r.range(1, 2); ++i) full[r.below(full.size())] = full[r.below(full.size())]; // identifies variables
        if(!fixed.empty()) full = fixed;
        std::unordered_map<size_t,size_t> mp, inv;
        const bool extra = r.chance(30); // entries for variables outside the support
        for(size_t v=0; v<full.size(); ++v) if(sup.count(v) || (extra && v < k)) { mp[v] = full[v]; inv[full[v]] = v; }
        size_t mx = 0; 
        Words at = tt(*slots[s]); const int aid = id(m, slots[s]->address());
        const bool vecfirst = r.chance(50);
        const bool term = slots[s]->is_terminal();
        const size_t nv0 = M.nr_variables();
        // adds the variables up to the largest image given; a constant given in vector form needs none
        if(!mp.empty()) for(auto& q : mp) mx = std::max(mx, q.second);
        if(!term) for(size_t q : full) mx = std::max(mx, q);
        size_t want = nv0;
        if(!term || !mp.empty()) want = std::max(nv0, mx + 1);
        const bool usehash = true;
        std::vector<std::vector<long>> pairs; for(size_t v=0; v<full.size(); ++v) pairs.push_back({long(v), long(full[v])});
        o.begin("rebase"); o.num("m", m); o.arr("a", std::vector<int>{s}); o.arr("ai", std::vector<int>{aid});
        o.arr("at", at); o.arr("adag", adag); o.arr("map", pairs); o.num("d", d); o.num("vecfirst", vecfirst);
        {
            node_ref x = vecfirst ? M.rebase(*slots[s], full.begin(), full.end()) : (usehash ? M.rebase(*slots[s], mp) : *slots[s]);
            node_ref y = vecfirst ? (usehash ? M.rebase(*slots[s], mp) : x) : M.rebase(*slots[s], full.begin(), full.end());
            o.num("r", id(m, x.address())); o.num("r2", id(m, y.address()));
            o.arr("rt", tt(x)); o.arr("dag", dag(m, x.address()));
            o.arr("at2", tt(*slots[s])); o.arr("adag2", dag(m, slots[s]->address()));
            if(usehash && inj) { node_ref z = M.rebase(x, inv); o.num("inv", id(m, z.address())); }
            else o.num("inv", aid);
            slotm[d] = m; put(slots, d, x, r.below(4));
        }
        o.num("wantnv", want); o.num("inj", inj);
        log_counts(m); o.end();
    }
    // a variable with a large number v, beyond the existing ones
    void do_far(int m, size_t v) {
        bdd_mgr& M = *ms[m].m;
        if(u.n < 2 || M.nr_variables() < 2) return;
        v = std::max(v, M.nr_variables());
        o.begin("far"); o.num("m", m); o.num("v", v);
        {
            node_ref p = M.projection(v), q = M.neg_projection(v), a = M.projection(0), b = M.projection(1);
            std::vector<node_ref> f = {p, q, M.and_rec(p, b), M.xor_rec(p, a)};
            std::vector<size_t> mp(2); mp[0] = v; mp[1] = 1;
            f.push_back(M.rebase(M.and_rec(a, M.negate(b)), mp.begin(), mp.end()));
            bdd_collection c; const size_t i = c.add_bdd(f[2]); f.push_back(M.add_bdd(c, i)); f.push_back(c.export_bdd(M, i));
            f.push_back(M.ite_rec(p, a, b));
            std::vector<long> rows; std::vector<char> x(v + 1, 0);
            for(auto& g : f) { long w = 0; for(size_t k=0; k<8; ++k) { x[v] = k & 1; x[0] = (k >> 1) & 1; x[1] = (k >> 2) & 1; w |= long(g.evaluate(x.begin(), x.end())) << k; } rows.push_back(w); }
            o.arr("rows", rows);
            { auto w = f[2].variables(); o.arr("vars", std::vector<long>(w.begin(), w.end())); }
            o.num("root", p.variable()); o.num("same", f[5] == f[2] && f[6] == f[2] && p != q);
        }
        log_counts(m); o.end();
    }
    size_t scratch_size(const Words& w) { // size of the diagram of w, in a manager of its own
        bdd_mgr M; for(size_t i=0; i<u.n; ++i) M.add_variable();
        return build(M, w, 0, 0).nr_nodes();
    }
    void do_lim(int m, int s, int t, int d, long given = -1) {
        bdd_mgr& M = *ms[m].m;
        std::vector<long> ai = {id(m, slots[s]->address()), id(m, slots[t]->address())};
        std::vector<Words> at = {tt(*slots[s]), tt(*slots[t])};
        size_t S;
        if(u.exact) { Words c(at[0].size()); for(size_t i=0; i<c.size(); ++i) c[i] = at[0][i] & at[1][i]; S = scratch_size(c); }
        else { bdd_mgr M2; bdd_collection c; const size_t a = c.add_bdd(*slots[s]), b = c.add_bdd(*slots[t]);
               node_ref x = M2.add_bdd(c, a), y = M2.add_bdd(c, b); S = M2.and_rec(x, y).nr_nodes(); }
        size_t limit;
        switch(r.below(8)) {
            case 0: limit = S; break;
            case 1: limit = S + 1; break;
            case 2: limit = S > 0 ? S - 1 : 0; break;
            case 3: limit = S + 2; break;
            case 4: limit = r.below(4); break;
            case 5: limit = r.below(2*S + 2); break;
            case 6: limit = BIG; break;
            default: limit = S + r.below(3); break;
        }
        if(given >= 0) limit = given;
        o.begin("lim"); o.num("m", m); o.arr("a", std::vector<int>{s, t}); o.arr("ai", ai); o.arr("at", at); o.num("limit", limit); o.num("d", d);
        {
            if(given < 0 && r.chance(25)) { node_ref z = M.and_rec(*slots[s], *slots[t]); }
            auto [x, c] = M.and_rec_limited(*slots[s], *slots[t], big(limit));
            const bool null = x.address() == nullptr;
            o.num("null", null); o.num("c", c == std::numeric_limits<size_t>::max() ? -1 : long(c));
            o.num("r", null ? 0 : id(m, x.address()));
            o.arr("rt", null ? Words() : tt(x));
            o.arr("dag", null ? std::vector<std::vector<long>>() : dag(m, x.address()));
            std::vector<Words> at2 = {tt(*slots[s]), tt(*slots[t])}; o.arr("at2", at2);
            node_ref y = M.and_rec(*slots[s], *slots[t]);
            o.arr("rt2", tt(y)); o.num("size", y.nr_nodes());
            if(null) id(m, y.address());
            o.num("r2", id(m, y.address()));
            if(!null) { slotm[d] = m; put(slots, d, x, r.below(4)); }
        }
        log_counts(m); o.end();
    }

    // ---------------------------------------------------------------- unlogged work
    // many operations on temporary handles; grows tables, caches and pages
    void work(bdd_mgr& M, size_t k, uint64_t seed) {
        Rng q(seed);
        std::vector<node_ref> t;
        const size_t nv = std::min(M.nr_variables(), u.n);
        for(size_t i=0; i<k; ++i) {
            if(t.size() < 2 || q.chance(25)) { node_ref x = M.projection(q.below(nv)); t.push_back(q.chance(50) ? x : M.negate(x)); continue; }
            node_ref a = t[q.below(t.size())], b = t[q.below(t.size())];
            switch(q.below(5)) {
                case 0: t.push_back(M.and_rec(a, b)); break;
                case 1: t.push_back(M.or_rec(a, b)); break;
                case 2: t.push_back(M.xor_rec(a, b)); break;
                case 3: t.push_back(M.ite_rec(a, b, t[q.below(t.size())])); break;
                case 4: t.push_back(M.negate(a)); break;
            }
            if(t.size() > 30) { std::swap(t[q.below(t.size())], t.back()); t.pop_back(); }
        }
    }
    void do_work(int m) {
        const size_t k = r.chance(15) ? r.range(500, P.maxwork) : r.range(20, 200); const uint64_t seed = r.next();
        const bool gcs = r.chance(60);
        std::vector<long> cyc;
        if(gcs) forget_dead(m);
        const int rounds = r.range(1, 4);
        for(int i=0; i<rounds; ++i) {
            work(*ms[m].m, k, seed + i);
            if(P.twin) work(*twin, k, seed + i);
            if(gcs) { ms[m].m->collect_garbage(); cyc.push_back(ms[m].nn()); }
        }
        if(gcs) {
            for(long c : cyc) { o.begin("gc"); o.num("m", m); o.num("nn", c); if(P.nns) log_nns(); log_rc(); o.end(); }
            if(r.chance(P.gcaudit)) do_audit(m);
        } else {
            // counts as an operation whose results were dropped
            o.begin("get"); o.str("op", "work"); o.num("m", m); o.arr("a", std::vector<int>()); o.num("b", 0); o.num("d", -1); o.num("r", 0);
            log_counts(m); o.end();
        }
    }

    // ---------------------------------------------------------------- random choice
    Words random_words() {
        Words w(u.words(), 0); const Words f = u.full();
        switch(r.below(6)) {
            case 0: for(auto& x : w) x = r.below(65536); break;
            case 1: for(size_t i=0; i<3; ++i) { size_t p = r.below(u.pts.size()); w[p/16] |= 1 << (p%16); } break;
            case 2: { for(auto& x : w) x = 65535; for(size_t i=0; i<3; ++i) { size_t p = r.below(u.pts.size()); w[p/16] &= ~(1 << (p%16)); } break; }
            case 3: case 4: { // few variables
                std::vector<size_t> vs; for(size_t i=0; i<r.range(1,3); ++i) vs.push_back(r.below(u.n));
                const size_t tab = r.next();
                w = u.tabulate([&](size_t p) { size_t k = 0; for(size_t i=0; i<vs.size(); ++i) k |= size_t(u.pts[p][vs[i]]) << i; return (tab >> k) & 1; });
                break; }
            case 5: { // symmetric
                const size_t tab = r.next();
                w = u.tabulate([&](size_t p) { size_t k = 0; for(char c : u.pts[p]) k += c; return (tab >> k) & 1; });
                break; }
        }
        for(size_t i=0; i<w.size(); ++i) w[i] &= f[i];
        return w;
    }
    // a random diagram over some consecutive variables
    std::vector<std::vector<long>> layered() {
        const size_t k = r.range(std::min<size_t>(u.n, 6), std::min<size_t>(u.n, 15)), v0 = r.below(u.n - k + 1), W = r.range(4, P.wide);
        std::vector<std::vector<long>> d; size_t last = 0, below = 2;
        for(size_t l=k; l-- > 1; ) {
            const size_t want = std::min({W, size_t(1) << l, below * below / 2 + 1});
            for(size_t i=0; i<want; ++i) {
                const long a = r.chance(96) ? last + r.below(below - last) : r.below(below), b = r.chance(88) ? last + r.below(below - last) : r.below(below);
                d.push_back({long(v0 + l), a, b});
            }
            last = below; below = d.size() + 2;
        }
        d.push_back({long(v0), long(below) - 1, long(below) - 2 - long(r.below(2))});
        // only what the root reaches
        std::vector<char> need(d.size() + 2, 0); need[d.size() + 1] = 1;
        for(size_t i=d.size(); i-- > 0; ) if(need[i + 2]) need[d[i][1]] = need[d[i][2]] = 1;
        std::vector<long> num(d.size() + 2, 0); num[1] = 1; std::vector<std::vector<long>> e;
        for(size_t i=0; i<d.size(); ++i) if(need[i + 2]) { e.push_back({d[i][0], num[d[i][1]], num[d[i][2]]}); num[i + 2] = e.size() + 1; }
        return e;
    }
    int pick(int m) { auto v = slots_of(m); return v.empty() ? -1 : v[r.below(v.size())]; }
    int level(int s) { node* p = slots[s]->address(); return sink(p) ? 1000000 : int(p->index); }

    bool cheap(const std::vector<int>& a, double limit) {
        if(u.exact) return true;
        double p = 1; for(int s : a) p *= paths(*slots[s]);
        return p <= limit;
    }

    void step(int m) {
        int total = 0; for(auto& q : P.w) total += q.second;
        int c = r.below(total); std::string k;
        for(auto& q : P.w) { if(c < q.second) { k = q.first; break; } c -= q.second; }
        bdd_mgr& M = *ms[m].m;
        const int s = pick(m), t = pick(m), w = pick(m), d0 = dest();
        // a destination holds handles of one manager at a time
        const int d = d0 + int(1000 * m);
        if(k == "not") { if(s < 0 || !cheap({s}, 1e5)) return; do_op(m, Op{"not", int(r.below(2))}, {s}, d); }
        else if(k == "and" || k == "or" || k == "xor") {
            if(s < 0) return;
            if(k == "xor" && !cheap({s, t}, 1e5)) return;
            if(!u.exact && paths(*slots[s]) > 1e9) return;
            do_op(m, Op{k, int(r.below(2))}, {s, t}, d);
        }
        else if(k == "nand" || k == "nor" || k == "nxor") { // n operands
            if(s < 0) return;
            const bool range = r.chance(60);
            const size_t n = range ? r.range(2, u.exact ? 9 : 4) : r.range(3, u.exact ? 6 : 3);
            std::vector<int> a; for(size_t i=0; i<n; ++i) a.push_back(pick(m));
            if(k == "nxor" && !cheap(a, 1e5)) return;
            if(!cheap(a, 1e7)) return;
            do_op(m, Op{k.substr(1), range ? 2 : 3}, a, d);
        }
        else if(k == "ite") { if(s < 0 || !cheap({s,t,w}, 1e5)) return; do_op(m, Op{"ite"}, {s, t, w}, d); }
        else if(k == "const") do_op(m, Op{r.chance(50) ? "bot" : "top"}, {}, d);
        else if(k == "proj") do_op(m, Op{"proj", 0, long(r.below(u.n))}, {}, d);
        else if(k == "nproj") { if(M.nr_variables() == 0) return; do_op(m, Op{"nproj", 0, long(r.below(std::min(u.n, M.nr_variables())))}, {}, d); }
        else if(k == "build") { if(!u.exact || M.nr_variables() < u.n) return; Op op{"build"}; op.w = random_words(); do_op(m, op, {}, d); }
        else if(k == "find") {
            if(s < 0) return;
            const int lv = std::min({level(s), level(t), int(std::min(u.n, M.nr_variables()))});
            if(lv == 0) return;
            do_op(m, Op{"find", 0, long(r.below(lv))}, {s, t}, d);
        }
        else if(k == "layer") { if(M.nr_variables() < u.n || u.n < 2) return; Op op{"layer"}; op.want = layered(); do_op(m, op, {}, d); }
        else if(k == "far") { // many variables: rarely
            if(faronce && u.n >= 2) { faronce = r.chance(20); static const size_t big[] = {1000, 4095, 16383, 16384, 32768, 65535, 65536, 70000}; do_far(m, big[r.below(8)] + r.below(3)); }
            else do_far(m, M.nr_variables() + r.below(200)); }
        else if(k == "lits") { // long lists of literals
            std::vector<int> lit; for(int q : slots_of(m)) if(reach(slots[q]->address()).size() == 1) lit.push_back(q);
            if(lit.empty()) return;
            static const char* ops[] = {"none", "one", "amo", "alo", "atleast", "atmost", "card"};
            const std::string op = ops[r.below(7)]; const bool lin = r.chance(30) ? false : op[0] != 'c' && op.substr(0, 2) != "at";
            const size_t n = lin ? r.range(1, 40) : r.range(1, 13);
            std::vector<int> a; const bool distinct = r.chance(60);
            for(size_t i=0; i<n; ++i) a.push_back(distinct ? lit[i % lit.size()] : lit[r.below(lit.size())]);
            if(distinct) for(size_t i=a.size()-1; i>0; --i) std::swap(a[i], a[r.below(i+1)]);
            do_op(m, Op{op, 0, long(r.chance(50) ? n / 2 + r.below(2) : r.below(n + 3))}, a, d);
        }
        else if(k == "none" || k == "one" || k == "amo" || k == "alo" || k == "atleast" || k == "atmost" || k == "card") {
            if(s < 0) return;
            const size_t n = r.range(1, P.maxlist);
            std::vector<int> a; for(size_t i=0; i<n; ++i) a.push_back(pick(m));
            if(!cheap(a, 1e4)) return;
            do_op(m, Op{k, 0, long(r.below(n + 3))}, a, d);
        }
        else if(k == "copy") { if(s < 0) return; do_copy(s, r.chance(20) ? s : d); }
        else if(k == "move") { if(s < 0) return; do_move(s, d); }
        else if(k == "drop") { if(s < 0) return; do_drop(s); }
        else if(k == "child") {
            if(s < 0 || slots[s]->is_terminal()) return;
            dag(m, slots[s]->address());
            const long b = r.below(2);
            do_get("child", m, {s}, b, d, 0, [&](auto& S) { return b ? S[s]->high() : S[s]->low(); });
        }
        else if(k == "list") { // a handle taken from a list of nodes
            if(s < 0 || slots[s]->is_terminal()) return;
            dag(m, slots[s]->address());
            const size_t q = r.next(); const bool bfs = r.chance(50);
            do_get("list", m, {s}, 0, d, 0, [&](auto& S) { auto v = bfs ? S[s]->nodes_bfs() : S[s]->nodes_postorder(); return v[q % v.size()]; });
        }
        else if(k == "impexp") { // through a collection
            if(s < 0) return;
            do_get("impexp", m, {s}, 0, d, -1, [&](auto& S) { bdd_collection c; const size_t i = c.add_bdd(*S[s]);
                bdd_mgr& M = *S[s]->find_bdd_mgr(); return q_export(M, c, i); });
        }
        else if(k == "rebase") { if(s < 0 || !cheap({s}, 1e4)) return; do_rebase(s, d); }
        else if(k == "lim") { if(s < 0 || !cheap({s, t}, 1e6)) return; do_lim(m, s, t, d); }
        else if(k == "query") { if(s < 0) return; do_query(s); }
        else if(k == "gc") do_gc(m);
        else if(k == "work") do_work(m);
        else if(k == "audit") do_audit(m);
        else if(k == "addvar") { if(M.nr_variables() < u.n) do_addvar(m); }
        // keep diagrams small in sampled universes
        if(!u.exact) for(int q : slots_of(m)) if(reach(slots[q]->address()).size() > P.maxdag) do_drop(q);
        if(r.chance(P.audit)) do_audit(m);
        if(!P.twin && ms[m].nn() > long(P.maxnodes)) do_gc(m);
    }
    node_ref q_export(bdd_mgr& M, bdd_collection& c, size_t i) { return flip++ % 2 ? M.add_bdd(c, i) : c.export_bdd(M, i); }
    size_t flip = 0;
    bool faronce = true;

    void history(size_t ops) {
        slots.clear(); slots2.clear(); slotm.clear(); ms.clear(); twin.reset();
        do_reset();
        if(P.twin) twin.reset(new bdd_mgr());
        for(size_t m=0; m<P.nmgr; ++m) {
            do_newmgr(m);
            if(P.prevars) for(size_t v=0; v<u.n; ++v) do_addvar(m);
            do_ballast(m);
        }
        int next = P.nmgr;
        for(size_t i=0; i<ops; ++i) {
            if(P.nns && r.chance(2)) { // short lives, one after the other: the memory of one manager is the next one's
                const size_t lives = r.range(2, 5); const std::vector<int> s = {50, 51, 52, 53, 54};
                std::vector<std::unique_ptr<char[]>> taken; // the manager itself need not be where the last one was
                for(size_t l=0; l<lives; ++l) {
                    if(r.chance(60)) taken.emplace_back(new char[sizeof(bdd_mgr)]);
                    const int m = next++; do_newmgr(m); for(size_t v=0; v<u.n; ++v) do_addvar(m);
                    const size_t k = r.range(1, 5);
                    for(size_t j=0; j<k; ++j) {
                        static const char* bin[] = {"and", "or", "xor"};
                        if(j < 1 || (j < u.n && r.chance(50))) do_op(m, Op{r.chance(70) ? "proj" : "nproj", 0, long(r.below(u.n))}, {}, s[j]);
                        else if(r.chance(20)) do_op(m, Op{"not", int(r.below(2))}, {s[r.below(j)]}, s[j]);
                        else do_op(m, Op{bin[r.below(3)], int(r.below(2))}, {s[r.below(j)], s[r.below(j)]}, s[j]);
                    }
                    for(int q : slots_of(m)) do_drop(q);
                    if(r.chance(30)) do_gc(m);
                    do_delmgr(m);
                }
            }
            if(P.nmgr > 1 && r.chance(3)) { // managers come and go in any order
                if(ms.size() > 1 && r.chance(60)) { auto it = ms.begin(); std::advance(it, r.below(ms.size())); do_delmgr(it->first); }
                else if(ms.size() < P.nmgr + 2) { do_newmgr(next); if(P.prevars) for(size_t v=0; v<u.n; ++v) do_addvar(next); do_ballast(next); ++next; }
            }
            auto it = ms.begin(); std::advance(it, r.below(ms.size()));
            step(it->first);
        }
        // everything dropped, collected and torn down
        while(!ms.empty()) {
            const int m = ms.begin()->first;
            do_audit(m);
            for(int s : slots_of(m)) do_drop(s);
            if(r.chance(70)) do_gc(m);
            do_delmgr(m);
        }
        slots2.clear(); twin.reset();
    }

    // ---------------------------------------------------------------- a behaviour of MC_BddAlg
    void script(const std::vector<Cmd>& cmds) {
        slots.clear(); slots2.clear(); slotm.clear(); ms.clear();
        do_reset(); do_newmgr(0); for(size_t v=0; v<u.n; ++v) do_addvar(0);
        for(auto& c : cmds) {
            const std::string& k = c.first; const std::vector<long>& a = c.second;
            auto have = [&](size_t n) { for(size_t i=0; i<n; ++i) if(!slots.count(a[i])) { fprintf(stderr, "script: no handle\n"); exit(3); } };
            if(k == "proj" || k == "nproj") do_op(0, Op{k, 0, a[0]}, {}, a[1]);
            else if(k == "not") { have(1); do_op(0, Op{k, int(r.below(2))}, {int(a[0])}, a[1]); }
            else if(k == "and" || k == "or" || k == "xor") { have(2); do_op(0, Op{k, int(r.below(2))}, {int(a[0]), int(a[1])}, a[2]); }
            else if(k == "ite") { have(3); do_op(0, Op{k}, {int(a[0]), int(a[1]), int(a[2])}, a[3]); }
            else if(k == "lim") { have(2); do_lim(0, a[0], a[1], a[2], a[3]); }
            else if(k == "rebase") { have(1); do_rebase(a[0], a[1], std::vector<size_t>(a.begin() + 2, a.end())); }
            else if(k == "drop") { have(1); do_drop(a[0]); }
            else if(k == "gc") do_gc(0);
            else exit(3);
        }
        for(int s : slots_of(0)) do_query(s);
        do_audit(0);
        if(r.chance(30)) { for(int s : slots_of(0)) do_drop(s); do_gc(0); do_delmgr(0); }
    }

    // ---------------------------------------------------------------- exhaustive tables
    // all lists of at most `len' functions of n variables, all counting operations, all bounds
    void lists(size_t n, size_t len, bool nary) {
        u = Universe::all(n);
        do_reset();
        bdd_mgr M; for(size_t i=0; i<n; ++i) M.add_variable();
        const int full = u.full()[0];
        std::vector<node_ref> f; std::vector<int> all;
        for(int w=0; w<=full; ++w) { f.push_back(build(M, Words{w}, 0, 0)); all.push_back(w); }
        std::vector<std::vector<int>> pre = {{}};
        for(size_t k=0; k<len; ++k) {
            for(auto& a : pre) {
                auto row = [&](const char* op, long b) {
                    std::vector<int> rows; bool canon = true;
                    for(int g : all) { std::vector<node_ref> x; for(int w : a) x.push_back(f[w]); x.push_back(f[g]);
                        node_ref y = exec(M, Op{op, 2, b}, x); const int v = tt(y)[0]; rows.push_back(v); canon = canon && y == f[v]; }
                    o.begin("tabn"); o.str("op", op); o.num("b", b); o.arr("a", a); o.arr("rows", rows); o.num("canon", canon); o.end();
                };
                if(nary) { if(k > 0) { row("and", 0); row("or", 0); row("xor", 0); } }
                else {
                    for(const char* op : {"none", "one", "amo", "alo"}) row(op, 0);
                    for(long b=0; b<=long(k) + 2; ++b) for(const char* op : {"atleast", "atmost", "card"}) row(op, b);
                }
                if(r.chance(3)) M.collect_garbage();
            }
            std::vector<std::vector<int>> next; for(auto& a : pre) for(int w : all) { next.push_back(a); next.back().push_back(w); }
            pre = next;
        }
    }
    // every length of operand lists, every position of the operand that matters
    void each(bool count) {
        u = Universe::all(P.n); slots.clear(); slots2.clear(); slotm.clear(); ms.clear();
        do_reset(); do_newmgr(0); for(size_t v=0; v<u.n; ++v) do_addvar(0);
        const int full = u.full()[0], p = r.below(1 << u.n), H = 5, d = 2 * H;
        for(int i=0; i<2*H; ++i) { int w = (int(r.next()) & full) | (1 << p); if(i >= H) w ^= 1 << p; Op op{"build"}; op.w = Words{w}; do_op(0, op, {}, i); }
        auto list = [&](const std::vector<char>& t) { std::vector<int> a; for(char b : t) a.push_back(b ? r.below(H) : H + r.below(H)); return a; };
        auto only = [&](size_t n, size_t k, bool b) { std::vector<char> t(n, !b); t[k] = b; return list(t); };
        for(size_t n=2; n<=(count ? 20 : 24); ++n) {
            for(size_t k=0; k<n; ++k) {
                if(!count) {
                    for(int form : {2, 3}) if(form == 2 || n < 8 || n == 9) { do_op(0, Op{"and", form}, only(n, k, false), d); do_op(0, Op{"or", form}, only(n, k, true), d); }
                    std::vector<char> t(n); for(auto& b : t) b = r.below(2); t[k] = 1; do_op(0, Op{"xor", 2}, list(t), d); if(n < 8 || n == 9) do_op(0, Op{"xor", 3}, list(t), d);
                } else {
                    do_op(0, Op{"none"}, only(n, k, true), d); do_op(0, Op{"alo"}, only(n, k, true), d); do_op(0, Op{"one"}, only(n, k, true), d);
                    std::vector<char> t(n, 0); t[k] = t[(k + 1 + r.below(n-1)) % n] = 1; do_op(0, Op{"amo"}, list(t), d); do_op(0, Op{"one"}, list(t), d);
                    if(n > 11 && !(n < 16 && r.chance(20))) continue;
                    for(auto& b : t) b = r.below(2); 
                    t[k] = 1; const long j = std::count(t.begin(), t.end(), 1);
                    do_op(0, Op{"atleast", 0, j}, list(t), d); do_op(0, Op{"card", 0, j}, list(t), d); do_op(0, Op{"atmost", 0, j-1}, list(t), d);
                    if(k == 0) for(const char* op : {"atleast", "card", "atmost"}) for(int i=0; i<2; ++i) do_op(0, Op{op, 0, BIG}, list(t), d);
                }
            }
            do_drop(d); do_gc(0);
        }
        // many operands
        for(size_t n : {41, 64, 100, 255, 256, 257, 300}) for(size_t k : {size_t(0), n-1, size_t(r.below(n)), size_t(r.below(n)), n/2}) {
            if(!count) {
                do_op(0, Op{"and", 2}, only(n, k, false), d); do_op(0, Op{"or", 2}, only(n, k, true), d);
                std::vector<char> t(n); for(auto& b : t) b = r.below(2); do_op(0, Op{"xor", 2}, list(t), d);
            } else {
                do_op(0, Op{"none"}, only(n, k, true), d); do_op(0, Op{"alo"}, only(n, k, true), d); do_op(0, Op{"one"}, only(n, k, true), d); do_op(0, Op{"amo"}, only(n, k, true), d);
                std::vector<char> t(n, 0); t[k] = t[(k + 1 + r.below(n-1)) % n] = 1; do_op(0, Op{"amo"}, list(t), d); do_op(0, Op{"one"}, list(t), d);
                if(k != n/2) continue;
                do_op(0, Op{"atleast", 0, 2}, list(t), d); do_op(0, Op{"card", 0, 2}, list(t), d); do_op(0, Op{"atmost", 0, 1}, list(t), d);
                for(const char* op : {"atleast", "card"}) do_op(0, Op{op, 0, long(n) + 1}, list(t), d);
            }
        }
        do_audit(0);
    }
    // all pairs (ite: triples) of functions of n variables
    void tables(size_t n, bool ite, size_t sample, int order) {
        u = Universe::all(n);
        do_reset();
        bdd_mgr M; for(size_t i=0; i<n; ++i) M.add_variable();
        const int full = u.full()[0];
        std::vector<node_ref> f;
        for(int w=0; w<=full; ++w) f.push_back(build(M, Words{w}, 0, 0));
        auto val = [&](node_ref x) { return tt(x)[0]; };
        auto row = [&](const char* op, int a, int g, std::vector<int>& gs, auto fn) {
            std::vector<int> rows; bool canon = true;
            for(int b : gs) { node_ref x = fn(b); const int v = val(x); rows.push_back(v); canon = canon && (x == f[v]); }
            o.begin("tab"); o.str("op", op); o.num("f", a); o.num("g", g); o.arr("gs", gs); o.arr("rows", rows); o.num("canon", canon); o.end();
        };
        std::vector<int> all; for(int w=0; w<=full; ++w) all.push_back(w);
        if(order == 1) std::reverse(all.begin(), all.end());
        if(order == 2) for(size_t i=all.size()-1; i>0; --i) std::swap(all[i], all[r.below(i+1)]);
        std::vector<int> as = all;
        if(sample && sample < as.size()) { for(size_t i=as.size()-1; i>0; --i) std::swap(as[i], as[r.below(i+1)]); as.resize(sample); }
        row("not", 0, 0, all, [&](int b) { return M.negate(f[b]); });
        for(int a : as) {
            if(!ite) {
                row("xor", a, 0, all, [&](int b) { return M.xor_rec(f[a], f[b]); });
                row("and", a, 0, all, [&](int b) { return M.and_rec(f[a], f[b]); });
                row("or", a, 0, all, [&](int b) { return M.or_rec(f[a], f[b]); });
            } else for(int g : all) {
                row("ite", a, g, all, [&](int b) { return M.ite_rec(f[a], f[g], f[b]); });
                if(n > 2 && r.chance(3)) M.collect_garbage();
            }
            if(r.chance(10)) M.collect_garbage();
        }
    }
};

static Profile profile(const std::string& name, Rng& r) {
    Profile P;
    auto base = [&]() {
        P.w = {{"not",6},{"and",10},{"or",10},{"xor",10},{"ite",10},{"nand",3},{"nor",3},{"nxor",3},{"const",1},{"proj",4},{"nproj",2},{"build",10},{"find",3},{"copy",1},{"drop",4},{"gc",2}};
    };
    if(name == "conn") { base(); P.n = r.range(3,5); P.at2 = true; P.w["work"] = 1; }
    else if(name == "connbig") { base(); P.n = r.chance(25) ? r.range(31, 70) : r.range(8, 30); P.exact = false; P.at2 = true; P.w["far"] = 1; P.w["build"] = 0; P.w["proj"] = 15; P.w["card"] = 3; P.w["amo"] = 2; P.w["drop"] = 8; P.w["gc"] = 3; }
    else if(name == "canon") { base(); P.n = r.range(3,5); P.eq = P.minsize = P.rep = true; P.w["card"] = 2; P.w["amo"] = 2; P.w["one"] = 2; P.w["child"] = 4; P.w["list"] = 2; P.w["rebase"] = 4; P.w["impexp"] = 3; P.w["lim"] = 2; P.w["gc"] = 4; P.w["work"] = 2; P.nslots = 10; P.maxnodes = 260; }
    else if(name == "canonbig") { base(); P.n = r.range(8,24); P.exact = false; P.points = 64; P.eq = P.rep = true; P.w["build"] = 0; P.w["proj"] = 15; P.w["card"] = 3; P.w["rebase"] = 3; P.w["impexp"] = 3; P.w["drop"] = 10; P.w["gc"] = 6; P.w["child"] = 5; P.maxnodes = 500; }
    else if(name == "count") { P.n = r.range(3,5); P.at2 = true; P.nslots = 10; P.maxlist = 8; P.w = {{"none",4},{"one",6},{"amo",6},{"alo",4},{"atleast",8},{"atmost",8},{"card",8},{"proj",14},{"nproj",3},{"build",6},{"const",2},{"and",2},{"drop",5},{"gc",2}}; }
    else if(name == "countbig") { P.n = r.range(8, 40); P.exact = false; P.at2 = true; P.nslots = 36; P.w = {{"lits",30},{"proj",40},{"nproj",10},{"amo",2},{"atleast",3},{"card",3},{"one",2},{"drop",6},{"gc",1}}; }
    else if(name == "gc") { base(); P.n = r.range(3,5); P.twin = P.eq = true; P.gcaudit = 60; P.audit = 2; P.w["gc"] = 10; P.w["work"] = 4; P.w["drop"] = 10; P.w["amo"] = 2; P.w["card"] = 2; P.w["child"] = 3; P.w["copy"] = 3; P.w["move"] = 2; P.nslots = 10; }
    else if(name == "cnt") { base(); P.n = r.range(2,5); P.maxnew = P.rep = true; P.w["gc"] = 12; P.w["work"] = 4; P.w["drop"] = 12; P.w["amo"] = 2; P.w["card"] = 2; P.w["child"] = 3; P.w["copy"] = 3; P.w["move"] = 2; P.w["query"] = 2; P.w["list"] = 2; P.audit = 4; P.w["rebase"] = 2; P.w["lim"] = 2; P.w["impexp"] = 2; }
    else if(name == "ref") { base(); P.n = r.range(2,4); P.rc = true; P.w["gc"] = 10; P.w["drop"] = 8; P.w["copy"] = 12; P.w["move"] = 6; P.w["child"] = 6; P.w["list"] = 4; P.w["query"] = 3; P.w["amo"] = 2; P.w["card"] = 2; P.w["rebase"] = 2; P.w["lim"] = 2; P.w["impexp"] = 2; P.audit = 12; P.gcaudit = 60; P.w["work"] = 1; }
    else if(name == "query") { base(); P.n = r.range(2,6); P.w["query"] = 50; P.w["gc"] = 3; P.w["card"] = 3; P.w["one"] = 2; P.w["child"] = 4; P.nslots = 8; P.w["proj"] = 6; P.w["nand"] = 8; }
    else if(name == "querybig") { base(); P.n = r.range(8,24); P.exact = false; P.points = 48; P.w["build"] = 0; P.w["proj"] = 12; P.w["nproj"] = 8; P.w["and"] = 25; P.w["query"] = 30; P.w["card"] = 4; P.w["one"] = 3; P.w["drop"] = 12; P.w["gc"] = 4; }
    else if(name == "rebase") { base(); P.n = r.range(4,7); P.w["rebase"] = 40; P.prevars = false; P.w["addvar"] = 2; P.w["proj"] = 14; P.w["gc"] = 3; P.w["card"] = 2; P.w["const"] = 2; P.w["work"] = 0; P.w["far"] = 1; }
    else if(name == "rebasebig") { base(); P.n = r.range(10,40); P.exact = false; P.points = 64; P.maxnodes = 400; P.w["build"] = 0; P.w["proj"] = 15; P.w["rebase"] = 25; P.prevars = false; P.w["one"] = 4; P.w["card"] = 3; P.w["drop"] = 8; P.w["gc"] = 4; }
    else if(name == "lim") { base(); P.n = r.range(3,5); P.w["lim"] = 40; P.audit = 5; P.w["gc"] = 4; P.w["card"] = 2; P.w["work"] = 1; P.maxnodes = 400; }
    else if(name == "limbig") { base(); P.n = r.range(8,24); P.exact = false; P.points = 64; P.w["build"] = 0; P.w["proj"] = 12; P.w["card"] = 4; P.w["one"] = 3; P.w["lim"] = 25; P.w["drop"] = 10; P.w["gc"] = 4; P.audit = 2; P.maxnodes = 600; }
    else if(name == "vars") { base(); P.n = r.range(3,8); P.prevars = false; P.w["addvar"] = 6; P.w["proj"] = 20; P.w["nproj"] = 10; P.audit = 15; P.w["rebase"] = 4; P.at2 = true; P.w["build"] = 2; P.w["drop"] = 6; P.w["gc"] = 3; P.w["far"] = 2; }
    else if(name == "multi") { base(); P.n = r.range(2,4); P.nmgr = 3; P.nns = true; P.audit = 12; P.w["gc"] = 6; P.w["drop"] = 8; P.w["amo"] = 2; P.w["card"] = 2; P.w["impexp"] = 2; P.w["work"] = 2; P.nslots = 5; P.w["not"] = 12; }
    else if(name.substr(0, 4) == "wide") { // diagrams of thousands of nodes
        base(); P.n = r.range(16, 34); P.exact = false; P.points = 48; P.wide = 300; P.maxdag = 5000; P.nslots = 8; P.maxnodes = 40000;
        P.w = {{"layer",14},{"and",10},{"or",6},{"not",4},{"ite",2},{"xor",2},{"proj",3},{"drop",12},{"gc",6},{"child",4},{"list",3},{"query",5},{"rebase",4},{"impexp",4},{"lim",3},{"copy",3},{"move",2}};
        if(name == "wideq") P.w["query"] = 25;
        if(name == "wider") P.w["rebase"] = 20;
        if(name == "widel") P.w["lim"] = 20;
        if(name == "widex") { P.rc = true; P.audit = 10; P.wide = 60; P.maxdag = 600; P.maxnodes = 3000; }
        if(name == "wideg") { P.twin = P.eq = true; P.gcaudit = 60; P.w["gc"] = 12; P.w["lim"] = P.w["rebase"] = P.w["list"] = P.w["impexp"] = P.w["query"] = 0; }
        if(name == "widec") { P.eq = P.rep = P.maxnew = true; P.w["gc"] = 10; }
    }
    else if(name == "eachn" || name == "eachc") P.n = 4;
    else if(name == "script") { P.n = 2; P.eq = P.rc = P.at2 = P.minsize = true; P.gcaudit = 100; P.ballast = 0; }
    else { fprintf(stderr, "unknown profile %s\n", name.c_str()); exit(3); }
    if(!P.exact && !P.wide && r.chance(20)) P.n = r.chance(70) ? r.range(60, 140) : r.range(250, 280); // more variables than a word has bits, a byte has values
    return P;
}

int main(int argc, char** argv)
{
    const std::string name = arg(argc, argv, "--profile", "conn");
    const uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
    const size_t hist = std::stoul(arg(argc, argv, "--hist", "10")), ops = std::stoul(arg(argc, argv, "--ops", "100"));
    harness_hash_seed = seed * 7919 + 13;
    Drv D(seed);
    D.o.open(arg(argc, argv, "--out", "/dev/stdout"));
    if(name == "tab") { // --hist: variables, --ops: how many first operands (0: all)
        D.tables(hist, false, ops, 0); if(hist < 3) { D.tables(hist, false, ops, 1); D.tables(hist, false, ops, 2); }
    } else if(name == "tabn") D.lists(1 + (hist > 1), hist == 1 ? 4 : ops, false);
    else if(name == "tabnary") D.lists(1 + (hist > 1), hist == 1 ? 4 : ops, true);
    else if(name == "tabite") D.tables(hist, true, ops, seed % 3);
    else if(name == "script") { D.P = profile(name, D.r); D.P.n = std::stoul(arg(argc, argv, "--hist", "2")); D.u = Universe::all(D.P.n); for(auto& s : read_scripts(arg(argc, argv, "--script", ""))) D.script(s); }
    else for(size_t h=0; h<hist; ++h) {
        D.P = profile(name, D.r);
        if(name == "eachn" || name == "eachc") { D.each(name == "eachc"); continue; }
        D.u = D.P.exact ? Universe::all(D.P.n) : Universe::sample(D.P.n, D.P.points, D.r);
        D.history(ops);
    }
    D.o.close();
    return 0;
}
