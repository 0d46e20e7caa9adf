// Large graphs of small path-width: exact minimum over all edge sets by a frontier dynamic program, and enumerated
// families of weightings and syndromes on them. Complements the "every syndrome" families, which need few nodes.
#ifndef VERIF_BIG_H
#define VERIF_BIG_H
#include <functional>
#include <memory>
#include <queue>
#include <set>

#include "graphs.h"

namespace vx {

using Events = std::vector<uint64_t>;

// For a fixed graph: minimum weight of an edge set with a given syndrome, separately for every parity vector of a few
// tracked observables (masks[k]: tracked observables crossed by edge k).
struct Frontier {
    struct Step {
        int kind;  // 0: open node into slot a; 1: edge toggling slot mask bits; 2: close node at slot a
        int a = 0;
        uint32_t bits = 0;
        int64_t w = 0;
        uint32_t obs = 0;
        int node = 0;
    };
    int slots = 0, nobs = 0, n = 0;
    std::vector<Step> steps;
    Frontier(const G& g, const std::vector<uint32_t>& masks, int num_obs, int max_slots = 14) : nobs(num_obs), n(g.n) {
        std::vector<int> last(g.n), slot(g.n, -1);
        for (int i = 0; i < g.n; i++) last[i] = i;
        std::vector<std::vector<size_t>> at(g.n);
        for (size_t k = 0; k < g.e.size(); k++) {
            int hi = std::max(g.e[k].u, g.e[k].v);
            at[hi].push_back(k);
            last[g.e[k].u] = std::max(last[g.e[k].u], hi);
            if (g.e[k].v >= 0) last[g.e[k].v] = std::max(last[g.e[k].v], hi);
        }
        std::vector<std::vector<int>> closes(g.n);
        for (int i = 0; i < g.n; i++) closes[last[i]].push_back(i);
        std::vector<int> freelist;
        for (int i = 0; i < g.n; i++) {
            int s;
            if (freelist.empty()) s = slots++;
            else s = freelist.back(), freelist.pop_back();
            if (slots > max_slots) {
                fprintf(stderr, "frontier too wide\n");
                exit(2);
            }
            slot[i] = s;
            Step o;
            o.kind = 0, o.a = s, o.node = i;
            steps.push_back(o);
            for (auto k : at[i]) {
                Step e;
                e.kind = 1;
                e.w = g.e[k].w;
                e.obs = masks.empty() || nobs == 0 ? 0 : masks[k];
                if (g.e[k].u != g.e[k].v) {
                    e.bits = 1u << slot[g.e[k].u];
                    if (g.e[k].v >= 0) e.bits ^= 1u << slot[g.e[k].v];
                }
                steps.push_back(e);
            }
            for (int x : closes[i]) {
                Step cl;
                cl.kind = 2, cl.a = slot[x], cl.node = x;
                steps.push_back(cl);
                freelist.push_back(slot[x]);
            }
        }
    }
    // best[o]: minimum for tracked parity vector o (INF if none)
    std::vector<int64_t> solve(const Events& ev) const {
        std::vector<char> s(n, 0);
        for (auto x : ev) s[x] ^= 1;
        size_t size = size_t{1} << (slots + nobs);
        std::vector<int64_t> d(size, INF), t;
        d[0] = 0;
        for (auto& st : steps) {
            if (st.kind == 0) continue;  // a fresh slot has parity 0
            if (st.kind == 1) {
                uint32_t x = st.bits | st.obs << slots;
                if (x == 0) {
                    if (st.w < 0)
                        for (auto& v : d)
                            if (v < INF) v += st.w;
                    continue;
                }
                for (size_t i = 0; i < size; i++) {
                    size_t j = i ^ x;
                    if (j < i) continue;
                    int64_t a = d[i], b = d[j];
                    if (b < INF) d[i] = std::min(a, b + st.w);
                    if (a < INF) d[j] = std::min(b, a + st.w);
                }
            } else {
                size_t bit = size_t{1} << st.a;
                bool want = s[st.node];
                for (size_t i = 0; i < size; i++)
                    if (!(i & bit)) {
                        if (want) d[i] = d[i | bit];
                        d[i | bit] = INF;
                    }
            }
        }
        std::vector<int64_t> out;
        for (size_t o = 0; o < (size_t{1} << nobs); o++) out.push_back(d[o << slots]);
        return out;
    }
};
inline void add_edge(pm::UserGraph& ug, const E& e, const std::vector<size_t>& obs) {
    if (e.v < 0) ug.add_or_merge_boundary_edge(e.u, obs, e.w, 0.1, pm::DISALLOW);
    else ug.add_or_merge_edge(e.u, e.v, obs, e.w, 0.1, pm::DISALLOW);
}
inline std::string ev_str(const Events& ev) {
    std::string s = "{";
    for (size_t k = 0; k < ev.size() && k < 60; k++) s += fmt("%s%llu", k ? "," : "", (unsigned long long)ev[k]);
    return s + (ev.size() > 60 ? fmt(",... %zu events}", ev.size()) : "}");
}
inline std::string g_str(const G& g) {
    return g.e.size() <= 60 ? g.str() : fmt("graph with %d nodes and %zu edges", g.n, g.e.size());
}
// A sequence without a short period: (a k^2 + b k) mod 1009 for the s-th pair (a, b).
inline int64_t seq1009(int64_t s, int64_t k) {
    int64_t a = 1 + s * 211 % 1008, b = (s * 101 + s / 7) % 1009;
    return (a * (k % 1009) % 1009 * (k % 1009) + b * (k % 1009)) % 1009;
}
// Syndromes {i : seq(s, i) < d% of 1009} for every s < count and density d; odd ones are kept.
inline std::vector<Events> quad_syndromes(int n, int count, std::vector<int> densities) {
    std::vector<Events> out;
    for (int d : densities)
        for (int s = 0; s < count; s++) {
            Events e;
            for (int64_t i = 0; i < n; i++)
                if (seq1009(s, i) * 100 < d * 1009) e.push_back(i);
            out.push_back(e);
        }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}
// Every pair of nodes (stride: every stride-th pair of an enumeration of all of them), every single node, all nodes.
inline std::vector<Events> pair_syndromes(int n, int stride) {
    std::vector<Events> out;
    for (int i = 0; i < n; i += std::max(1, stride / 4)) out.push_back({(uint64_t)i});
    int k = 0;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (k++ % stride == 0) out.push_back({(uint64_t)i, (uint64_t)j});
    Events all;
    for (int i = 0; i < n; i++) all.push_back(i);
    out.push_back(all);
    out.push_back({});
    return out;
}
// copies of a small topology side by side, with no connection
inline Topo copies(const Topo& t, int k) {
    Topo r{fmt("%dx(%s)", k, t.name.c_str()), t.n * k, {}};
    for (int i = 0; i < k; i++)
        for (auto& s : t.slots) r.slots.push_back({s.first + i * t.n, s.second < 0 ? -1 : s.second + i * t.n});
    return r;
}
inline Topo star(int leaves, int spacing) {  // hub 0, boundary on every spacing-th leaf
    Topo t{fmt("star%d/%d", leaves, spacing), leaves + 1, {}};
    for (int i = 1; i <= leaves; i++) {
        t.slots.push_back({0, i});
        if (spacing && i % spacing == 0) t.slots.push_back({i, -1});
    }
    return t;
}
inline Topo long_wheel(int rim, bool bnd) {  // hub is node 0
    Topo t{fmt("longwheel%d%s", rim, bnd ? "+B" : ""), rim + 1, {}};
    for (int i = 1; i <= rim; i++) {
        t.slots.push_back({i, i % rim + 1});
        t.slots.push_back({0, i});
    }
    if (bnd) t.slots.push_back({rim / 2, -1});
    return t;
}
// rows x cols with diagonals on alternating sides, so odd cycles of many lengths occur
inline Topo strip(int rows, int cols, int kind, bool bnd) {
    Topo t = grid(rows, cols, kind, bnd);
    t.name = fmt("strip:%s", t.name.c_str());
    return t;
}
struct BigCase {
    Topo t;
    int wm, lo;                // weights lo + (seq(s, k) mod wm), s < shapes
    std::vector<Events> synd;  // the syndromes
    std::string synd_bound;
    int shapes;
    std::vector<int64_t> scales;  // every weighting multiplied by each
    std::vector<std::pair<int, int>> cls = {};  // if not empty: the (lo, wm) of every slot
};
using BigFn = std::function<void(const G&, const std::vector<Events>&, Ctx&)>;
inline Family big(const std::string& prefix, const BigCase& bc, const BigFn& fn) {
    Family f;
    auto b = std::make_shared<BigCase>(bc);
    for (size_t k = 0; k < b->synd.size(); k++) reorder(b->synd[k], k);
    f.name = fmt("%sbig:%s:m%d:lo%d", prefix.c_str(), bc.t.name.c_str(), bc.wm, bc.lo);
    uint64_t S = bc.scales.size();
    f.n = bc.shapes * S;
    std::string sc;
    for (auto x : bc.scales) sc += fmt(" %lld", (long long)x);
    f.bound = fmt("%d nodes: the %d weightings w_k=%d+(seq(s,k) mod %d)%s of %s, times each of%s; %zu syndromes (%s); seq(s,k)=(a_s k^2+b_s k) mod 1009", bc.t.n, bc.shapes, bc.lo, bc.wm,
                  bc.cls.empty() ? "" : " (other constants for links between pairs)", bc.t.name.c_str(), sc.c_str(), bc.synd.size(), bc.synd_bound.c_str());
    f.chunk = 1;
    f.case_limit_s = 300;
    auto at = [S, b](uint64_t i) {
        std::vector<int64_t> w;
        for (size_t k = 0; k < b->t.slots.size(); k++) {
            int lo = b->cls.empty() ? b->lo : b->cls[k].first, wm = b->cls.empty() ? b->wm : b->cls[k].second;
            w.push_back((lo + seq1009(i / S, k) % wm) * b->scales[i % S]);
        }
        return with_weights(b->t, w);
    };
    f.run = [b, at, fn](uint64_t i, Ctx& c) { fn(at(i), b->synd, c); };
    f.describe = [at, b](uint64_t i) { return fmt("weighting %llu: ", (unsigned long long)i) + g_str(at(i)) + " of " + b->t.name; };
    return f;
}
inline BigCase bigcase(const Topo& t, int wm, int lo, int count, std::vector<int> densities, int stride, int shapes, std::vector<int64_t> scales = {1}) {
    BigCase b{t, wm, lo, quad_syndromes(t.n, count, densities), "", shapes, scales};
    std::string tl;
    for (int x : densities) tl += fmt("%s%d", tl.empty() ? "" : ",", x);
    b.synd_bound = fmt("every {i: seq(s,i) below d%% of 1009}, s<%d, d in {%s}", count, tl.c_str());
    if (stride) {
        auto p = pair_syndromes(t.n, stride);
        b.synd.insert(b.synd.end(), p.begin(), p.end());
        b.synd_bound += fmt("; single nodes, every %s pair, all nodes", stride == 1 ? "" : fmt("%d-th", stride).c_str());
    }
    return b;
}
// The graphs used by the large families of several properties.
inline std::vector<Topo> big_topos(bool boundary) {
    bool b = boundary;
    return {strip(60, 3, 1, b), strip(40, 4, 0, b), strip(30, 4, 2, b), strip(100, 2, 2, b), path(300, b ? 2 : 0), ring(150, b ? 1 : 0), triangles(40, b), copies(complete(5, b ? 1 : 0), 30),
            star(280, b ? 7 : 0), long_wheel(120, b), copies(petersen(b), 8), cube(12, 2, 2, b)};
}
// Two trees of matched pairs, each grown from one single event, that meet over one long edge: the alternating trees
// follow the branching given, and the chords close odd cycles in them. chords 0: none, 1: between consecutive outer
// nodes, 2: from every outer node to the first leaf of its tree, 3: between every third.
inline BigCase pair_trees(const std::vector<int>& branch, int chords, int shapes, int single_stride) {
    BigCase b;
    std::string nm = "pairtrees";
    for (int x : branch) nm += fmt("%s%d", nm == "pairtrees" ? "" : "-", x);
    b.t = Topo{nm + fmt("/c%d", chords), 0, {}};
    b.wm = 3, b.lo = 1, b.shapes = shapes, b.scales = {1};
    auto slot = [&](int u, int v, int lo, int wm) {
        b.t.slots.push_back({u, v});
        b.cls.push_back({lo, wm});
    };
    int roots[2];
    for (int tree = 0; tree < 2; tree++) {
        std::vector<int> outers;
        int first_leaf = -1;
        std::function<void(int, size_t)> grow = [&](int outer, size_t d) {
            if (d == branch.size()) {
                if (first_leaf < 0) first_leaf = outer;
                return;
            }
            for (int k = 0; k < branch[d]; k++) {
                int in = b.t.n++, out = b.t.n++;
                slot(outer, in, 2, 4);
                slot(in, out, 1, 3);
                if (chords == 1 && !outers.empty() && outers.back() != outer) slot(outers.back(), out, 5, 9);
                if (chords == 3 && outers.size() >= 3) slot(outers[outers.size() - 3], out, 5, 11);
                outers.push_back(out);
                grow(out, d + 1);
            }
        };
        roots[tree] = b.t.n++;
        grow(roots[tree], 0);
        if (chords == 2)
            for (int o : outers)
                if (o != first_leaf) slot(std::min(o, first_leaf), std::max(o, first_leaf), 5, 13);
    }
    slot(roots[0], b.t.n - 1, 20, 30);
    // repeated slots (a chord that is also another chord) count once
    std::set<std::pair<int, int>> seen;
    Topo u{b.t.name, b.t.n, {}};
    std::vector<std::pair<int, int>> uc;
    for (size_t k = 0; k < b.t.slots.size(); k++)
        if (seen.insert(std::minmax(b.t.slots[k].first, b.t.slots[k].second)).second) u.slots.push_back(b.t.slots[k]), uc.push_back(b.cls[k]);
    b.t = u, b.cls = uc;
    Events all;
    for (int i = 0; i < b.t.n; i++) all.push_back(i);
    b.synd.push_back(all);
    for (int i = 0; i < b.t.n; i += single_stride)
        for (int j = i + 1; j < b.t.n; j += single_stride + 1) {
            Events e;
            for (int k = 0; k < b.t.n; k++)
                if (k != i && k != j) e.push_back(k);
            b.synd.push_back(e);
        }
    b.synd_bound = "all nodes; all but two";
    return b;
}
// negative: every negative-th edge gets a negative weight and the ends of those edges are flipped in every syndrome
inline std::vector<BigCase> tree_cases(int shapes, int single_stride, int negative = 0) {
    std::vector<BigCase> r;
    for (auto& br : std::vector<std::vector<int>>{{3, 2}, {4, 3}, {2, 2, 2}, {3, 3, 1}, {1, 1, 1, 1, 1, 1}, {5, 4}, {2, 3, 2}, {1, 5, 1}})
        for (int c = 0; c < 4; c++) r.push_back(pair_trees(br, c, shapes, single_stride));
    if (negative)
        for (auto& b : r) {
            b.t.name += fmt("/neg%d", negative);
            std::vector<char> flip(b.t.n, 0);
            for (size_t k = 0; k < b.t.slots.size(); k += negative) {
                b.cls[k].first = -(b.cls[k].first + b.cls[k].second - 1);
                flip[b.t.slots[k].first] ^= 1;
                flip[b.t.slots[k].second] ^= 1;
            }
            for (auto& ev : b.synd) {
                auto f = flip;
                for (auto x : ev) f[x] ^= 1;
                ev.clear();
                for (int i = 0; i < b.t.n; i++)
                    if (f[i]) ev.push_back(i);
            }
            b.synd_bound += fmt(", flipped at the ends of every %d-th edge, which has a negative weight", negative);
        }
    return r;
}
// Complete graphs whose weights satisfy the triangle inequality; the minimum over all pairings, by a table over subsets.
struct Pairings {
    std::vector<int64_t> best;
    Pairings(const G& g) : best(size_t{1} << g.n, INF) {
        std::vector<std::vector<int64_t>> d(g.n + 1, std::vector<int64_t>(g.n + 1, INF));
        for (auto& e : g.e) {
            int v = e.v < 0 ? g.n : e.v;
            d[e.u][v] = d[v][e.u] = std::min(d[e.u][v], e.w);
        }
        for (int k = 0; k <= g.n; k++)
            for (int i = 0; i <= g.n; i++)
                for (int j = 0; j <= g.n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        best[0] = 0;
        for (size_t s = 1; s < best.size(); s++) {
            int i = __builtin_ctzll(s);
            size_t r = s & (s - 1);
            int64_t m = d[i][g.n] < INF && best[r] < INF ? d[i][g.n] + best[r] : INF;
            for (size_t q = r; q; q &= q - 1) {
                int j = __builtin_ctzll(q);
                size_t x = r & ~(size_t{1} << j);
                if (d[i][j] < INF && best[x] < INF) m = std::min(m, d[i][j] + best[x]);
            }
            best[s] = m;
        }
    }
};
inline std::vector<uint64_t> crowded(int n, int missing, uint64_t stride) {  // syndromes lacking at most so many nodes
    std::vector<uint64_t> r;
    uint64_t all = (uint64_t{1} << n) - 1;
    r.push_back(all);
    uint64_t k = 0;
    for (int i = 0; i < n && missing >= 1; i++) {
        r.push_back(all ^ uint64_t{1} << i);
        for (int j = i + 1; j < n && missing >= 2; j++)
            if (k++ % stride == 0) r.push_back(all ^ uint64_t{1} << i ^ uint64_t{1} << j);
    }
    return r;
}
using CrowdFn = std::function<void(const G&, const Pairings&, const std::vector<uint64_t>&, Ctx&)>;
// weightings lo + (seq(s, k) mod wm) of complete(n, nb), s < shapes
inline Family crowd(int n, int nb, int lo, int wm, int shapes, uint64_t stride, const CrowdFn& fn) {
    Family f;
    Topo t = complete(n, nb);
    f.name = fmt("crowd:%s:m%d:lo%d", t.name.c_str(), wm, lo);
    f.n = shapes;
    auto sy = std::make_shared<std::vector<uint64_t>>(crowded(n, 2, stride));
    f.bound = fmt("the %d weightings w_k=%d+(seq(s,k) mod %d) of %s; %zu syndromes that lack at most two nodes", shapes, lo, wm, t.name.c_str(), sy->size());
    f.chunk = 4;
    auto at = [=](uint64_t i) {
        std::vector<int64_t> w;
        for (size_t k = 0; k < t.slots.size(); k++) w.push_back(lo + seq1009(i, k) % wm);
        return with_weights(t, w);
    };
    f.run = [=](uint64_t i, Ctx& c) {
        G g = at(i);
        fn(g, Pairings(g), *sy, c);
    };
    f.describe = [=](uint64_t i) { return fmt("weighting %llu: ", (unsigned long long)i) + g_str(at(i)); };
    return f;
}
inline std::vector<Family> crowds(bool th, const CrowdFn& fn) {
    std::vector<Family> f;
    int m = th ? 200 : 20;
    f.push_back(crowd(10, 0, 20, 20, 400 * m, 1, fn));
    f.push_back(crowd(11, 1, 20, 20, 400 * m, 1, fn));
    f.push_back(crowd(12, 0, 5, 4, 200 * m, 2, fn));
    f.push_back(crowd(13, 3, 30, 9, 200 * m, 2, fn));
    f.push_back(crowd(14, 0, 50, 40, 100 * m, 3, fn));
    f.push_back(crowd(14, 14, 30, 30, 100 * m, 3, fn));
    f.push_back(crowd(16, 0, 12, 12, 40 * m, 5, fn));
    f.push_back(crowd(17, 1, 100, 100, 20 * m, 5, fn));
    return f;
}
// the same kind of graph as a BigCase
inline BigCase crowd_case(int n, int nb, int lo, int wm, int shapes, uint64_t stride) {
    BigCase b;
    b.t = complete(n, nb);
    b.wm = wm, b.lo = lo, b.shapes = shapes, b.scales = {1};
    for (auto s : crowded(n, 2, stride)) {
        Events e;
        for (int i = 0; i < n; i++)
            if (s >> i & 1) e.push_back(i);
        b.synd.push_back(e);
    }
    b.synd_bound = "lacking at most two nodes";
    return b;
}
inline std::vector<BigCase> crowd_cases(int m, bool boundary) {
    std::vector<BigCase> r{crowd_case(11, 0, 20, 20, 20 * m, 4), crowd_case(13, 0, 5, 4, 10 * m, 6), crowd_case(12, 0, 30, 9, 10 * m, 6), crowd_case(14, 0, 50, 40, 5 * m, 8)};
    if (boundary) r.push_back(crowd_case(11, 1, 20, 20, 20 * m, 4)), r.push_back(crowd_case(13, 13, 30, 30, 10 * m, 6));
    return r;
}
// ------------------------------------------------------------------ judges
inline void crowd_decode(const G& g, const Pairings& p, const std::vector<uint64_t>& synd, Ctx& c) {
    pm::UserGraph ug(g.n, g.e.size()), m64(g.n, 64);
    fill(ug, g);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(m64, g.e[k], {k % 64});
    auto& mwpm = ug.get_mwpm();
    auto& b = m64.get_mwpm();
    c.traces++;
    for (auto s : synd) {
        if (p.best[s] >= INF) continue;
        auto ev = events_of(s);
        Dec d = decode(mwpm, ev, g.e.size());
        c.transitions++;
        require_optimal(g, d, s, p.best[s], "decode");
        Dec e = decode64(b, ev, 64);
        c.transitions++;
        if (e.threw || e.weight != (double)p.best[s]) fail(fmt("decode (bit mask): weight %.17g of %s but the minimum is %lld (%s)", e.weight, synd_str(s).c_str(), (long long)p.best[s], g.str().c_str()));
        c.states++;
        c.outcome(p.best[s]);
        c.note(fmt("%s->%.0f", synd_str(s).c_str(), d.weight));
    }
}
inline void crowd_edges(const G& g, const Pairings& p, const std::vector<uint64_t>& synd, Ctx& c) {
    pm::UserGraph ug(g.n, 64);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % 64});
    auto& m = ug.get_mwpm_with_search_graph();
    c.traces++;
    for (auto s : synd) {
        if (p.best[s] >= INF) continue;
        DecE d = decode_edges(m, events_of(s));
        c.transitions++;
        require_edges(g, d, s, p.best[s], "decode to edges");
        c.states++;
        c.outcome(p.best[s]);
        c.note(fmt("%s->%zu edges", synd_str(s).c_str(), d.edges.size()));
    }
}
inline std::vector<uint8_t> event_bits(int n, const Events& ev) {
    std::vector<uint8_t> s(n, 0);
    for (auto x : ev) s[x] ^= 1;
    return s;
}
inline void judge_edge_set(const G& g, const std::vector<uint8_t>& used, const Events& ev, int64_t best, const std::string& what) {
    auto s = event_bits(g.n, ev);
    int64_t w = 0;
    for (size_t k = 0; k < g.e.size(); k++)
        if (used[k]) {
            if (g.e[k].u != g.e[k].v) {
                s[g.e[k].u] ^= 1;
                if (g.e[k].v >= 0) s[g.e[k].v] ^= 1;
            }
            w += g.e[k].w;
        }
    for (int i = 0; i < g.n; i++)
        if (s[i]) fail(fmt("%s of %s: the edge set does not produce the syndrome at node %d (%s)", what.c_str(), ev_str(ev).c_str(), i, g_str(g).c_str()));
    if (w != best) fail(fmt("%s of %s: the edge set weighs %lld but the minimum is %lld (%s)", what.c_str(), ev_str(ev).c_str(), (long long)w, (long long)best, g_str(g).c_str()));
}
inline std::map<std::pair<int64_t, int64_t>, size_t> edge_index(const G& g) {
    std::map<std::pair<int64_t, int64_t>, size_t> idx;
    for (size_t k = 0; k < g.e.size(); k++) idx[{std::max(g.e[k].u, g.e[k].v), std::min(g.e[k].u, g.e[k].v)}] = k;
    return idx;
}
inline void judge_edge_list(const G& g, const std::map<std::pair<int64_t, int64_t>, size_t>& idx, const DecE& d, const Events& ev, int64_t best, const std::string& what) {
    if (d.threw) fail(fmt("%s of %s rejected: %s (%s)", what.c_str(), ev_str(ev).c_str(), d.err.c_str(), g_str(g).c_str()));
    std::vector<uint8_t> used(g.e.size(), 0);
    for (auto p : d.edges) {
        if (p.first < p.second) std::swap(p.first, p.second);
        auto it = idx.find(p);
        if (it == idx.end()) fail(fmt("%s of %s names the non-edge (%lld,%lld) (%s)", what.c_str(), ev_str(ev).c_str(), (long long)p.first, (long long)p.second, g_str(g).c_str()));
        if (used[it->second]++) fail(fmt("%s of %s repeats the edge (%lld,%lld) (%s)", what.c_str(), ev_str(ev).c_str(), (long long)p.first, (long long)p.second, g_str(g).c_str()));
    }
    judge_edge_set(g, used, ev, best, what);
}
// tracked observables for graphs whose predictions are bit masks
inline uint32_t tracked_mask(size_t k) {
    return (uint32_t)((k * 2654435761u) >> 13) & 7;
}
static const size_t TRACKED[3] = {0, 31, 63};
inline std::vector<size_t> tracked_obs(size_t k) {
    std::vector<size_t> o;
    for (int j = 0; j < 3; j++)
        if (tracked_mask(k) >> j & 1) o.push_back(TRACKED[j]);
    return o;
}
// Ordinary decoding of a large graph: once with three observables at indices 0, 31 and 63 (bit-mask predictions, judged
// by the parity-resolved minimum) and once with one observable per edge (more than 64 of them: the edge set itself).
inline void big_decode(const G& g, const std::vector<Events>& synd, Ctx& c, bool masked, bool unique) {
    std::vector<uint32_t> masks;
    for (size_t k = 0; k < g.e.size(); k++) masks.push_back(tracked_mask(k));
    Frontier fr(g, masks, masked ? 3 : 0);
    pm::UserGraph a(g.n, 64), b(g.n, g.e.size());
    for (size_t k = 0; k < g.e.size(); k++) {
        add_edge(a, g.e[k], tracked_obs(k));
        add_edge(b, g.e[k], {k});
    }
    auto& ma = a.get_mwpm();
    c.traces++;
    size_t rot = 0;
    for (auto& ev : synd) {
        auto by = fr.solve(ev);
        int64_t best = *std::min_element(by.begin(), by.end());
        if (best >= INF) continue;
        if (masked) {
            Dec d = rot++ % 2 ? decode64(ma, ev, 64) : decode(ma, ev, 64);
            c.transitions++;
            if (d.threw) fail(fmt("%s rejected: %s (%s)", ev_str(ev).c_str(), d.err.c_str(), g_str(g).c_str()));
            if (d.weight != (double)best) fail(fmt("%s: weight %.17g reported, minimum %lld (%s)", ev_str(ev).c_str(), d.weight, (long long)best, g_str(g).c_str()));
            uint32_t o = 0;
            for (size_t k = 0; k < 64; k++)
                if (d.obs[k]) {
                    int j = k == 0 ? 0 : k == 31 ? 1 : k == 63 ? 2 : -1;
                    if (j < 0) fail(fmt("observable %zu on no edge predicted for %s (%s)", k, ev_str(ev).c_str(), g_str(g).c_str()));
                    o |= 1u << j;
                }
            if (by[o] != best) fail(fmt("%s: predicted observables %u need weight %lld, minimum %lld (%s)", ev_str(ev).c_str(), o, (long long)by[o], (long long)best, g_str(g).c_str()));
        }
        if (unique) {
            auto& mb = b.get_mwpm();
            Dec d = decode(mb, ev, g.e.size());
            c.transitions++;
            if (d.threw) fail(fmt("%s rejected: %s (%s)", ev_str(ev).c_str(), d.err.c_str(), g_str(g).c_str()));
            if (d.weight != (double)best) fail(fmt("%s: weight %.17g reported, minimum %lld (%s)", ev_str(ev).c_str(), d.weight, (long long)best, g_str(g).c_str()));
            judge_edge_set(g, d.obs, ev, best, "prediction");
        }
        c.states++;
        c.outcome(best * 1000003 + ev.size());
        c.note(fmt("%zu events->%lld", ev.size(), (long long)best));
    }
}
// Decoding to edges.
inline void big_edges(const G& g, const std::vector<Events>& synd, Ctx& c, size_t num_obs) {
    Frontier fr(g, {}, 0);
    pm::UserGraph ug(g.n, num_obs);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % num_obs});
    auto& m = ug.get_mwpm_with_search_graph();
    auto idx = edge_index(g);
    c.traces++;
    for (auto& ev : synd) {
        int64_t best = fr.solve(ev)[0];
        if (best >= INF) continue;
        DecE d = decode_edges(m, ev);
        judge_edge_list(g, idx, d, ev, best, "decoding to edges");
        c.transitions++;
        c.states++;
        c.outcome(best * 1000003 + d.edges.size());
        c.note(fmt("%zu events->%zu edges", ev.size(), d.edges.size()));
    }
}
// Shortest distances from one node; the boundary is entry n and no path passes through it. Non-negative weights.
inline std::vector<int64_t> distances(const G& g, const std::vector<std::vector<std::pair<int, int64_t>>>& adj, int src) {
    std::vector<int64_t> d(g.n + 1, INF);
    std::priority_queue<std::pair<int64_t, int>, std::vector<std::pair<int64_t, int>>, std::greater<>> q;
    d[src] = 0;
    q.push({0, src});
    while (!q.empty()) {
        auto [x, u] = q.top();
        q.pop();
        if (x != d[u] || u == g.n) continue;
        for (auto& e : adj[u])
            if (x + e.second < d[e.first]) d[e.first] = x + e.second, q.push({d[e.first], e.first});
    }
    return d;
}
inline std::vector<std::vector<std::pair<int, int64_t>>> adjacency(const G& g) {
    std::vector<std::vector<std::pair<int, int64_t>>> adj(g.n);
    for (auto& e : g.e) {
        adj[e.u].push_back({e.v < 0 ? g.n : e.v, e.w});
        if (e.v >= 0) adj[e.v].push_back({e.u, e.w});
    }
    return adj;
}
// Distance of one pair; d is all INF before and after.
inline int64_t distance(const std::vector<std::vector<std::pair<int, int64_t>>>& adj, std::vector<int64_t>& d, int src, int dst) {
    std::vector<int> touched{src};
    std::priority_queue<std::pair<int64_t, int>, std::vector<std::pair<int64_t, int>>, std::greater<>> q;
    d[src] = 0;
    q.push({0, src});
    while (!q.empty()) {
        auto [x, u] = q.top();
        q.pop();
        if (u == dst) break;
        if (x != d[u] || u == (int)adj.size()) continue;
        for (auto& e : adj[u])
            if (x + e.second < d[e.first]) d[e.first] = x + e.second, touched.push_back(e.first), q.push({d[e.first], e.first});
    }
    int64_t r = d[dst];
    for (int v : touched) d[v] = INF;
    return r;
}
// Matched pairs of detection events.
inline void big_pairs(const G& g, const std::vector<Events>& synd, Ctx& c) {
    Frontier fr(g, {}, 0);
    pm::UserGraph ug(g.n, 64);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], tracked_obs(k));
    auto& m = ug.get_mwpm();
    auto adj = adjacency(g);
    std::vector<std::vector<int64_t>> dist(g.n);
    std::vector<int64_t> lazy;
    c.traces++;
    for (auto& ev : synd) {
        int64_t best = fr.solve(ev)[0];
        if (best >= INF) continue;
        DecM d = decode_match(m, ev);
        c.transitions++;
        c.states++;
        std::string where = fmt("%s (%s)", ev_str(ev).c_str(), g_str(g).c_str());
        if (d.threw) fail("rejected: " + where);
        auto s = event_bits(g.n, ev);
        int64_t total = 0;
        for (auto& p : d.pairs) {
            if (p.first < 0 || p.first >= g.n || p.second < -1 || p.second >= g.n) fail("pair outside the graph: " + where);
            if (!s[p.first]) fail(fmt("node %lld matched twice or never fired: ", (long long)p.first) + where);
            s[p.first] = 0;
            if (p.second >= 0) {
                if (!s[p.second]) fail(fmt("node %lld matched twice or never fired: ", (long long)p.second) + where);
                s[p.second] = 0;
            }
            int to = p.second < 0 ? g.n : p.second;
            int64_t x;
            if (g.n > 2000) {  // long sparse graphs: only as far as needed
                if (lazy.empty()) lazy.assign(g.n + 1, INF);
                x = distance(adj, lazy, p.first, to);
            } else {
                if (dist[p.first].empty()) dist[p.first] = distances(g, adj, p.first);
                x = dist[p.first][to];
            }
            if (x >= INF) fail("unconnected events are matched: " + where);
            total += x;
        }
        for (int i = 0; i < g.n; i++)
            if (s[i]) fail(fmt("fired detector %d is unmatched: ", i) + where);
        if (total != best) fail(fmt("pair distances sum to %lld but the minimum is %lld: ", (long long)total, (long long)best) + where);
        c.outcome(best * 1000003 + d.pairs.size());
        c.note(fmt("%zu events->%zu pairs", ev.size(), d.pairs.size()));
    }
}
inline void crowd_pairs(const G& g, const Pairings& p, const std::vector<uint64_t>& synd, Ctx& c) {
    pm::UserGraph ug(g.n, 64);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % 64});
    auto& m = ug.get_mwpm();
    auto adj = adjacency(g);
    std::vector<std::vector<int64_t>> dist;
    for (int i = 0; i < g.n; i++) dist.push_back(distances(g, adj, i));
    c.traces++;
    for (auto s : synd) {
        if (p.best[s] >= INF) continue;
        DecM d = decode_match(m, events_of(s));
        c.transitions++;
        std::string where = fmt("%s (%s)", synd_str(s).c_str(), g.str().c_str());
        if (d.threw) fail("rejected: " + where);
        uint64_t left = s;
        int64_t total = 0;
        for (auto& q : d.pairs) {
            for (int64_t x : {(int64_t)q.first, (int64_t)q.second}) {
                if (x == -1 && x == q.second) continue;
                if (x < 0 || x >= g.n || !(left >> x & 1)) fail(fmt("node %lld matched twice or never fired: ", (long long)x) + where);
                left &= ~(uint64_t{1} << x);
            }
            int64_t x = dist[q.first][q.second < 0 ? g.n : q.second];
            if (x >= INF) fail("unconnected events are matched: " + where);
            total += x;
        }
        if (left) fail("a fired detector is unmatched: " + where);
        if (total != p.best[s]) fail(fmt("pair distances sum to %lld but the minimum is %lld: ", (long long)total, (long long)p.best[s]) + where);
        c.states++;
        c.outcome(p.best[s]);
        c.note(fmt("%s->%zu pairs", synd_str(s).c_str(), d.pairs.size()));
    }
}
// Tens of thousands of nodes: a path, a star whose hub has 70000 neighbours, a strip of 6000 nodes, 700 small components.
inline std::vector<BigCase> huge_cases(bool boundary, int lo, int wm) {
    std::vector<BigCase> r;
    auto few = [](BigCase& b) {
        uint64_t n = b.t.n;
        for (Events e : {Events{0, n - 1}, Events{n / 2, n / 2 + 1}, Events{n - 2, n - 1}, Events{255, 256, n / 3, n - 2}, Events{0}, Events{n - 1}, Events{}}) b.synd.push_back(e);
        if (n > 65540)
            for (Events e : {Events{65535, 65536}, Events{65535}, Events{65536, n - 1}, Events{65533, 65534, 65535, 65536, 65537, 65538}, Events{0, 65536}}) b.synd.push_back(e);
        b.synd_bound += "; some of at most 6 events at the ends, in the middle and around 256 and 65536";
    };
    auto add = [&](const Topo& t, std::vector<int> d) {
        r.push_back(bigcase(t, wm, lo, 1, d, 0, 1));
        few(r.back());
    };
    add(path(70000, boundary ? 2 : 0), {1, 50});
    if (boundary) {  // (without one, an odd syndrome would absorb every leaf)
        // The hub is node 0. Every leaf a region absorbs costs a scan of the hub's neighbours: spokes of few equal
        // and no very different weights let regions meet at the hub before they absorb many.
        BigCase b{star(70000, boundary ? 7 : 0), wm, lo, {}, "no dense ones", 1, {1}};
        for (auto& s : b.t.slots)
            if (s.second >= 0) std::swap(s.first, s.second);  // looked up from the leaf, so that building stays linear
        for (auto& s : b.t.slots) b.cls.push_back(s.second < 0 ? std::make_pair(lo, wm) : std::make_pair(1000, 1009));
        few(b);
        Events e, e2;
        for (uint64_t i = 0; i < 70000; i += 9777) e.push_back(i);
        for (uint64_t i = 69999; i > 65500; i -= 900) e2.insert(e2.begin(), i);
        b.synd.push_back(e);
        b.synd.push_back(e2);
        r.push_back(b);
    }
    add(strip(2000, 3, 1, boundary), {2, 30, 60});
    add(copies(complete(5, boundary ? 1 : 0), 700), {3, 40});
    return r;
}
}  // namespace vx
#endif
