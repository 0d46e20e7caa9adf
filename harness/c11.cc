// C11: a set of boundary nodes acts as one virtual boundary, for every boundary set and every sequence of boundary changes.
#include "big.h"
using namespace vx;

static bool isb(uint32_t bm, int v) { return v < 0 || (bm >> v & 1); }
// The same graph with one virtual boundary: lightest edge of each detector to the boundary, nothing between boundary nodes.
static G merged(const G& g, uint32_t bm, int n) {
    G r;
    r.n = n;
    std::vector<int64_t> b(n, INF);
    for (auto& e : g.e) {
        bool x = isb(bm, e.u), y = isb(bm, e.v);
        if (x && y) continue;
        if (x || y) {
            int u = x ? e.v : e.u;
            b[u] = std::min(b[u], e.w);
        } else
            r.e.push_back(e);
    }
    for (int u = 0; u < n; u++)
        if (b[u] < INF) r.e.push_back({u, -1, b[u]});
    return r;
}
// Negative weights only where "the lightest counts" and "never needed" are unambiguous.
static bool in_domain(const G& g, uint32_t bm) {
    std::vector<int> cnt(g.n + 1, 0), neg(g.n + 1, 0);
    for (auto& e : g.e) {
        bool x = isb(bm, e.u), y = isb(bm, e.v);
        if (x && y) {
            if (e.w < 0) return false;
        } else if (x || y) {
            int u = x ? e.v : e.u;
            cnt[u]++;
            neg[u] += e.w < 0;
        }
    }
    for (int u = 0; u < g.n; u++)
        if (cnt[u] > 1 && neg[u]) return false;
    return true;
}
static std::set<size_t> as_set(uint32_t bm) {
    std::set<size_t> s;
    for (auto x : events_of(bm)) s.insert(x);
    return s;
}
static void judge(pm::UserGraph& ug, const G& g, uint32_t bm, int n, const std::string& hist, Ctx& c) {
    G v = merged(g, bm, n);
    auto best = oracle(v);
    bool neg = false;
    for (auto& e : v.e) neg |= e.w < 0;
    if (ug.get_boundary() != as_set(bm)) fail("get_boundary is wrong after " + hist);
    if (ug.get_num_nodes() != (size_t)n || ug.get_num_detectors() != (size_t)(n - __builtin_popcount(bm)))
        fail("node or detector count is wrong after " + hist);
    for (int k = 0; k < n; k++)
        if (ug.is_boundary_node(k) != isb(bm, k)) fail("is_boundary_node is wrong after " + hist);
    auto where = [&](uint64_t s) { return fmt("%s on %s, boundary %s, history %s", synd_str(s).c_str(), g.str().c_str(), synd_str(bm).c_str(), hist.c_str()); };
    auto& mw = ug.get_mwpm();
    for (uint64_t s = 0; s < best.size(); s++) {
        uint64_t t = s & ~(uint64_t)bm;
        Dec d = decode(mw, events_of(s), g.e.size());
        c.states++;
        c.transitions++;
        if (best[t] >= INF) {
            if (!d.threw) fail("unsatisfiable syndrome accepted: " + where(s));
            continue;
        }
        if (d.threw) fail("rejected (" + d.err + "): " + where(s));
        Masked m;
        for (size_t k = 0; k < g.e.size(); k++)
            if (d.obs[k] & 1) {
                m.synd ^= ebits(g.e[k]);
                m.w += g.e[k].w;
            }
        if ((m.synd & ~(uint64_t)bm) != t) fail(fmt("prediction has syndrome %s: ", synd_str(m.synd).c_str()) + where(s));
        if (m.w != best[t] || d.weight != (double)best[t])
            fail(fmt("prediction weighs %lld, reported weight %g, minimum %lld: ", (long long)m.w, d.weight, (long long)best[t]) + where(s));
        uint64_t h = best[t] * 64 + bm;
        for (auto b : d.obs) h = h * 2 + b;
        c.outcome(h);
        if (!neg) {
            DecM x = decode_match(mw, events_of(s));
            uint64_t seen = 0;
            for (auto& p : x.pairs) seen ^= (1ull << p.first) ^ (p.second >= 0 ? 1ull << p.second : 0);
            if (x.threw || seen != t) fail("matched events " + pairs_str(x.pairs) + " for " + where(s));
            c.transitions++;
        }
    }
    auto& ms = ug.get_mwpm_with_search_graph();
    for (uint64_t s = 0; s < best.size(); s++) {
        uint64_t t = s & ~(uint64_t)bm;
        DecE d = decode_edges(ms, events_of(s));
        c.transitions++;
        if (best[t] >= INF) {
            if (!d.threw) fail("unsatisfiable syndrome decoded to edges: " + where(s));
            continue;
        }
        require_edges(v, d, t, best[t], ("edges " + hist).c_str());
    }
    c.traces++;
}
static void all_sets(const G& g, Ctx& c) {
    for (uint32_t bm = 0; bm < (1u << g.n); bm++) {
        if (!in_domain(g, bm)) continue;
        pm::UserGraph ug(g.n, g.e.size());
        fill(ug, g);
        ug.set_boundary(as_set(bm));
        judge(ug, g, bm, g.n, "set_boundary" + synd_str(bm), c);
    }
    c.note("every boundary set agrees with the merged graph");
}
// boundary marked before the edges are added
static void set_first(const G& g, Ctx& c) {
    for (uint32_t bm = 0; bm < (1u << g.n); bm++) {
        if (!in_domain(g, bm)) continue;
        pm::UserGraph ug;
        ug.set_boundary(as_set(bm));
        fill(ug, g);
        int n = 0;
        for (auto& e : g.e) n = std::max({n, e.u + 1, e.v + 1});
        for (auto x : events_of(bm)) n = std::max(n, (int)x + 1);
        ug.set_min_num_observables(g.e.size());
        judge(ug, g, bm, n, "set_boundary" + synd_str(bm) + " before adding edges", c);
    }
}
static Family sequences(const std::string& nm, std::vector<G> gs, int extra, int len) {
    Family f;
    f.name = nm;
    int n = gs[0].n + extra;
    uint64_t A = 1u << n;
    f.bound = fmt("%d graphs, every sequence of %d set_boundary calls over all subsets of %d nodes (%d of them beyond the graph), all syndromes decoded after each call", (int)gs.size(), len, n, extra);
    f.n = gs.size() * ipow(A, len);
    f.chunk = 16;
    f.describe = [=](uint64_t i) {
        std::string s = gs[i % gs.size()].str();
        i /= gs.size();
        for (int k = 0; k < len; k++) {
            s += " boundary=" + synd_str(i % A);
            i /= A;
        }
        return s;
    };
    f.run = [=](uint64_t i, Ctx& c) {
        const G& g = gs[i % gs.size()];
        i /= gs.size();
        pm::UserGraph ug(g.n, g.e.size());
        fill(ug, g);
        std::string h = "";
        int cur = g.n;
        for (int k = 0; k < len; k++) {
            uint32_t bm = i % A;
            i /= A;
            for (auto x : events_of(bm)) cur = std::max(cur, (int)x + 1);
            ug.set_boundary(as_set(bm));
            h += synd_str(bm) + " ";
            judge(ug, g, bm, cur, h, c);
        }
        c.note("agrees after each change");
    };
    return f;
}
// Large graphs, large boundary sets, changed several times.
static void check_big(const G& g, const std::vector<Events>& synd, Ctx& c) {
    pm::UserGraph ug(g.n, g.e.size());
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k});
    c.traces++;
    for (int s = 0; s < 5; s++) {
        static const int dens[] = {10, 2, 40, 10, 0};
        std::set<size_t> bs;
        for (int i = 0; i < g.n; i++)
            if (seq1009(s + 17, i) * 100 < dens[s] * 1009) bs.insert(i);
        if (s == 1) bs.insert(g.n - 1);
        auto isb = [&](int v) { return v < 0 || bs.count(v); };
        G v;
        v.n = g.n;
        std::vector<int64_t> b(g.n, INF);
        for (auto& e : g.e) {
            bool x = isb(e.u), y = isb(e.v);
            if (x && y) continue;
            if (x || y) b[x ? e.v : e.u] = std::min(b[x ? e.v : e.u], e.w);
            else v.e.push_back(e);
        }
        for (int u = 0; u < g.n; u++)
            if (b[u] < INF) v.e.push_back({u, -1, b[u]});
        Frontier fr(v, {}, 0);
        auto idx = edge_index(v);
        ug.set_boundary(bs);
        if (ug.get_num_detectors() != g.n - bs.size()) fail("detector count is wrong: " + g_str(g));
        for (auto& ev : synd) {
            Events t;
            for (auto x : ev)
                if (!bs.count(x)) t.push_back(x);
            int64_t best = fr.solve(t)[0];
            std::string where = fmt("%s, boundary set %d of %zu nodes (%s)", ev_str(ev).c_str(), s, bs.size(), g_str(g).c_str());
            auto& mw = ug.get_mwpm();
            Dec d = decode(mw, ev, g.e.size());
            c.transitions += 2;
            c.states++;
            if (d.threw != (best >= INF)) fail((d.threw ? "rejected: " : "unsatisfiable but accepted: ") + where);
            DecE e = decode_edges(ug.get_mwpm_with_search_graph(), ev);
            if (e.threw != (best >= INF)) fail((e.threw ? "rejected (edges): " : "unsatisfiable but accepted (edges): ") + where);
            if (d.threw) continue;
            auto bits = event_bits(g.n, t);
            int64_t w = 0;
            for (size_t k = 0; k < g.e.size(); k++)
                if (d.obs[k]) {
                    w += g.e[k].w;
                    if (g.e[k].v >= 0) bits[g.e[k].v] ^= 1;
                    bits[g.e[k].u] ^= 1;
                }
            for (int i = 0; i < g.n; i++)
                if (bits[i] && !bs.count(i)) fail(fmt("the predicted edges do not explain node %d: ", i) + where);
            if (w != best || d.weight != (double)best) fail(fmt("predicted edges weigh %lld, reported %g, minimum %lld: ", (long long)w, d.weight, (long long)best) + where);
            judge_edge_list(v, idx, e, t, best, "edges with boundary nodes");
            c.outcome(best * 64 + bs.size());
        }
    }
    c.note("five boundary sets in turn agree with the merged graph");
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C11";
    o.assumptions = {"edges between boundary nodes, and the edges of a node with several boundary edges, have non-negative weight (otherwise 'never needed' and 'the lightest counts' have no meaning)"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT;
        GraphFn al = all_sets, sf = set_first;
        auto add = [&](Family x, const char* p) {
            x.name = std::string(p) + x.name;
            x.bound += std::string("; ") + p + " every boundary subset";
            f.push_back(x);
        };
        add(fam(AllWeights{complete(3, 3), {A, 0, 1, 3}}, al, 16), "sets:");
        add(fam(AllWeights{complete(3, 1), {A, -2, -1, 1, 2}}, al, 16), "sets:");
        add(fam(AllWeights{complete(3, 2), {A, 1, 2}}, sf, 4), "first:");
        add(fam(AllWeights{complete(4, 1), {A, 1, 2}}, al, 8), "sets:");
        add(fam(AllWeights{complete(4, 0), {A, 1, -1}}, al, 8), "sets:");
        for (auto& t : {grid(2, 3, 1, false), ring(6, 1), triangles(2, true), wheel(5, false), mobius(6, true), complete(5, 1)})
            add(fam(QuadWeights{t, th ? 9 : 5, 1}, al, 1), "sets:");
        for (auto& t : {grid(2, 3, 1, false), ring(6, 1)}) add(fam(QuadWeights{t, 3, -1}, al, 1), "sets:");
        std::vector<G> gs{{3, {{0, 1, 1}, {1, 2, 2}, {0, 2, 5}}}, {3, {{0, 1, 1}, {1, 2, 2}, {0, -1, 4}, {2, -1, 1}}}, {3, {{0, 1, 3}, {0, 2, 1}, {1, 2, 1}, {1, -1, 1}}}};
        f.push_back(sequences("changes:n3+1", gs, 1, th ? 4 : 3));
        f.push_back(sequences("changes:n3", gs, 0, th ? 5 : 4));
        std::vector<G> g4{{4, {{0, 1, 1}, {1, 2, 2}, {2, 3, 1}, {3, 0, 2}, {0, 2, 4}, {1, -1, 3}}}};
        f.push_back(sequences("changes:n4", g4, 0, th ? 4 : 3));
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b)) f.push_back(big("", bigcase(t, 5, 1, th ? 20 : 5, {5, 25, 60}, th ? 500 : 5000, th ? 20 : 2), check_big));
        for (auto& b : huge_cases(true, 1, 3)) f.push_back(big("", b, check_big));
        if (th) {
            add(fam(AllWeights{complete(4, 4), {A, 1, 2}}, al, 64), "sets:");
            add(fam(AllWeights{complete(4, 0), {A, 0, 1, -1, 3}}, al, 64), "sets:");
            for (auto& t : {grid(3, 3, 1, false), petersen(false)}) add(fam(QuadWeights{t, 3, 1}, al, 1), "sets:");
        }
        return f;
    });
}
