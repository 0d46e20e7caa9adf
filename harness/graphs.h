// Reference graphs, exact oracle, and builders for the implementation's graph object.
#ifndef VERIF_GRAPHS_H
#define VERIF_GRAPHS_H

#include <numeric>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "explore.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"

namespace vx {

constexpr int64_t INF = INT64_MAX / 4;

struct E {
    int u, v;  // v == -1: virtual boundary
    int64_t w;
};
struct G {
    int n = 0;
    std::vector<E> e;
    std::string str() const {
        std::string s = fmt("n=%d", n);
        for (auto& x : e)
            s += x.v < 0 ? fmt(" (%d,B):%lld", x.u, (long long)x.w) : fmt(" (%d,%d):%lld", x.u, x.v, (long long)x.w);
        return s;
    }
};
inline uint32_t ebits(const E& x) {
    if (x.v < 0)
        return 1u << x.u;
    return (1u << x.u) ^ (1u << x.v);
}
// Exact minimum total weight over all edge subsets, for every syndrome. Any signs.
inline std::vector<int64_t> oracle(const G& g) {
    std::vector<int64_t> best(size_t{1} << g.n, INF), tmp;
    best[0] = 0;
    for (auto& x : g.e) {
        uint32_t b = ebits(x);
        tmp = best;
        for (size_t s = 0; s < best.size(); s++)
            if (tmp[s ^ b] < INF && tmp[s ^ b] + x.w < best[s])
                best[s] = tmp[s ^ b] + x.w;
    }
    return best;
}
// The order in which detection events are given carries no meaning: ascending, descending or scattered by a fixed stride.
inline void reorder(std::vector<uint64_t>& e, uint64_t how) {
    size_t n = e.size();
    if (n < 2 || how % 4 < 2) return;
    if (how % 4 == 2) {
        std::reverse(e.begin(), e.end());
        return;
    }
    size_t step = n * 5 / 8 + 1;
    while (std::gcd(step, n) != 1) step++;
    std::vector<uint64_t> r;
    for (size_t k = 0; k < n; k++) r.push_back(e[(k * step + n / 2) % n]);
    e = r;
}
inline std::vector<uint64_t> events_of(uint64_t s) {
    std::vector<uint64_t> r;
    uint64_t how = (s * 0x9e3779b97f4a7c15ull) >> 61;
    for (int k = 0; s; k++, s >>= 1)
        if (s & 1)
            r.push_back(k);
    reorder(r, how);
    return r;
}
inline std::string synd_str(uint64_t s) {
    std::string o = "{";
    for (auto x : events_of(s))
        o += fmt("%s%d", o.size() > 1 ? "," : "", (int)x);
    return o + "}";
}
// Every edge k carries exactly observable k, so predictions reveal the chosen edge set.
inline void fill(pm::UserGraph& ug, const G& g, double scale = 1.0) {
    for (size_t k = 0; k < g.e.size(); k++) {
        auto& x = g.e[k];
        if (x.v < 0)
            ug.add_or_merge_boundary_edge(x.u, {k}, x.w * scale, 0.1, pm::DISALLOW);
        else
            ug.add_or_merge_edge(x.u, x.v, {k}, x.w * scale, 0.1, pm::DISALLOW);
    }
}
struct Masked {
    uint64_t synd = 0;
    int64_t w = 0;
};
inline Masked eval_mask(const G& g, const std::vector<uint8_t>& used) {
    Masked m;
    for (size_t k = 0; k < g.e.size(); k++)
        if (used[k] & 1) {
            m.synd ^= ebits(g.e[k]);
            m.w += g.e[k].w;
        }
    return m;
}
struct Dec {
    bool threw = false;
    std::string err;
    std::vector<uint8_t> obs;
    double weight = 0;
};
inline Dec decode(pm::Mwpm& mwpm, const std::vector<uint64_t>& ev, size_t num_obs, bool corr = false) {
    Dec d;
    d.obs.assign(num_obs, 0);
    pm::total_weight_int w = 0;
    try {
        pm::decode_detection_events(mwpm, ev, d.obs.data(), w, corr);
        d.weight = (double)w / mwpm.flooder.graph.normalising_constant;
    } catch (const std::invalid_argument& e) {
        d.threw = true;
        d.err = e.what();
    }
    return d;
}
inline Dec decode64(pm::Mwpm& mwpm, const std::vector<uint64_t>& ev, size_t num_obs, bool corr = false) {
    Dec d;
    d.obs.assign(num_obs, 0);
    try {
        auto r = pm::decode_detection_events_for_up_to_64_observables(mwpm, ev, corr);
        for (size_t k = 0; k < num_obs && k < 64; k++)
            d.obs[k] = (r.obs_mask >> k) & 1;
        d.weight = (double)r.weight / mwpm.flooder.graph.normalising_constant;
    } catch (const std::invalid_argument& e) {
        d.threw = true;
        d.err = e.what();
    }
    return d;
}
struct DecE {
    bool threw = false;
    std::string err;
    std::vector<std::pair<int64_t, int64_t>> edges;  // as returned
};
inline DecE decode_edges(pm::Mwpm& mwpm, const std::vector<uint64_t>& ev, bool corr = false) {
    DecE d;
    std::vector<int64_t> out;
    try {
        if (corr)
            pm::decode_detection_events_to_edges_with_edge_correlations(mwpm, ev, out);
        else
            pm::decode_detection_events_to_edges(mwpm, ev, out);
        if (out.size() % 2)
            fail("edge list of odd length");
        for (size_t k = 0; k + 1 < out.size(); k += 2)
            d.edges.push_back({out[k], out[k + 1]});
    } catch (const std::invalid_argument& e) {
        d.threw = true;
        d.err = e.what();
    }
    return d;
}
inline std::vector<std::pair<int64_t, int64_t>> canon(std::vector<std::pair<int64_t, int64_t>> v) {
    for (auto& x : v)
        if (x.first < x.second)
            std::swap(x.first, x.second);
    std::sort(v.begin(), v.end());
    return v;
}
inline std::string pairs_str(const std::vector<std::pair<int64_t, int64_t>>& v) {
    std::string s = "[";
    for (auto& x : v)
        s += fmt("(%lld,%lld)", (long long)x.first, (long long)x.second);
    return s + "]";
}
struct DecM {
    bool threw = false;
    std::string err;
    std::vector<std::pair<int64_t, int64_t>> pairs;  // second -1: boundary
    uint64_t obs = 0;
};
inline DecM decode_match(pm::Mwpm& mwpm, const std::vector<uint64_t>& ev) {
    DecM d;
    try {
        pm::decode_detection_events_to_match_edges(mwpm, ev);
        auto* base = mwpm.flooder.graph.nodes.data();
        for (auto& e : mwpm.flooder.match_edges) {
            d.pairs.push_back({e.loc_from - base, e.loc_to ? e.loc_to - base : -1});
            d.obs ^= e.obs_mask;
        }
    } catch (const std::invalid_argument& e) {
        d.threw = true;
        d.err = e.what();
    }
    return d;
}
inline void require_edges(const G& g, const DecE& d, uint64_t s, int64_t best, const char* what) {
    if (d.threw)
        fail(fmt("%s: syndrome %s rejected: %s (%s)", what, synd_str(s).c_str(), d.err.c_str(), g.str().c_str()));
    auto es = canon(d.edges);
    std::map<std::pair<int64_t, int64_t>, size_t> idx;
    for (size_t k = 0; k < g.e.size(); k++) {
        int64_t a = g.e[k].u, b = g.e[k].v;
        if (a < b)
            std::swap(a, b);
        idx[{a, b}] = k;
    }
    std::vector<uint8_t> used(g.e.size(), 0);
    for (auto& x : es) {
        auto it = idx.find(x);
        if (it == idx.end())
            fail(fmt("%s: %s decoded to %s but (%lld,%lld) is not an edge (%s)", what, synd_str(s).c_str(),
                     pairs_str(es).c_str(), (long long)x.first, (long long)x.second, g.str().c_str()));
        if (used[it->second])
            fail(fmt("%s: %s decoded to %s with a repeated edge (%s)", what, synd_str(s).c_str(), pairs_str(es).c_str(),
                     g.str().c_str()));
        used[it->second] = 1;
    }
    Masked m = eval_mask(g, used);
    if (m.synd != s)
        fail(fmt("%s: %s decoded to %s whose syndrome is %s (%s)", what, synd_str(s).c_str(), pairs_str(es).c_str(),
                 synd_str(m.synd).c_str(), g.str().c_str()));
    if (m.w != best) {
        // every omitted negative self-loop accounts for a known, listed discrepancy
        int64_t loops = 0;
        for (size_t k = 0; k < g.e.size(); k++)
            if (g.e[k].u == g.e[k].v && g.e[k].w < 0 && !used[k])
                loops += g.e[k].w;
        std::string msg = fmt("%s: %s decoded to %s of weight %lld but the minimum is %lld (%s)", what, synd_str(s).c_str(),
                              pairs_str(es).c_str(), (long long)m.w, (long long)best, g.str().c_str());
        if (loops != 0 && m.w + loops == best)
            fail_keyed("negative-self-loop-omitted", msg);
        fail(msg);
    }
}
inline void require_optimal(const G& g, const Dec& d, uint64_t s, int64_t best, const char* what) {
    if (d.threw)
        fail(fmt("%s: syndrome %s rejected although an explanation of weight %lld exists: %s (%s)", what,
                 synd_str(s).c_str(), (long long)best, d.err.c_str(), g.str().c_str()));
    for (auto b : d.obs)
        if (b > 1)
            fail(fmt("%s: prediction byte %d is neither 0 nor 1 for %s (%s)", what, b, synd_str(s).c_str(), g.str().c_str()));
    Masked m = eval_mask(g, d.obs);
    if (m.synd != s)
        fail(fmt("%s: prediction for %s corresponds to an edge set with syndrome %s (%s)", what, synd_str(s).c_str(),
                 synd_str(m.synd).c_str(), g.str().c_str()));
    if (m.w != best)
        fail(fmt("%s: prediction for %s has weight %lld but the minimum is %lld (%s)", what, synd_str(s).c_str(),
                 (long long)m.w, (long long)best, g.str().c_str()));
    if (d.weight != (double)best)
        fail(fmt("%s: reported weight %.17g for %s but the minimum is %lld (%s)", what, d.weight, synd_str(s).c_str(),
                 (long long)best, g.str().c_str()));
}

// ---------------------------------------------------------------- graph spaces
// A topology: node count and edge slots; weights are filled in by an enumerator.
struct Topo {
    std::string name;
    int n;
    std::vector<std::pair<int, int>> slots;
};
constexpr int64_t ABSENT = INT64_MAX;

inline uint64_t ipow(uint64_t a, uint64_t b) {
    uint64_t r = 1;
    while (b--)
        r *= a;
    return r;
}
inline Topo complete(int n, int nb) {  // K_n plus boundary slots on the first nb nodes
    Topo t{fmt("K%d+%dB", n, nb), n, {}};
    for (int i = 0; i < nb; i++)
        t.slots.push_back({i, -1});
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            t.slots.push_back({i, j});
    return t;
}
inline Topo ring(int n, int nb) {
    Topo t{fmt("ring%d+%dB", n, nb), n, {}};
    for (int i = 0; i < n; i++)
        t.slots.push_back({i, (i + 1) % n});
    for (int i = 0; i < nb; i++)
        t.slots.push_back({i, -1});
    return t;
}
inline Topo path(int n, int ends) {
    Topo t{fmt("path%d+%dB", n, ends), n, {}};
    if (ends >= 1)
        t.slots.push_back({0, -1});
    for (int i = 0; i + 1 < n; i++)
        t.slots.push_back({i, i + 1});
    if (ends >= 2)
        t.slots.push_back({n - 1, -1});
    return t;
}
inline Topo wheel(int rim, bool hub_boundary) {
    Topo t{fmt("wheel%d%s", rim, hub_boundary ? "+B" : ""), rim + 1, {}};
    for (int i = 0; i < rim; i++) {
        t.slots.push_back({i, (i + 1) % rim});
        t.slots.push_back({i, rim});
    }
    if (hub_boundary)
        t.slots.push_back({rim, -1});
    return t;
}
// kind: 0 square, 1 triangulated, 2 king moves. bnd: boundary on left and right columns
inline Topo grid(int r, int c, int kind, bool bnd) {
    Topo t{fmt("%s%dx%d%s", kind == 0 ? "grid" : kind == 1 ? "tri" : "king", r, c, bnd ? "+B" : ""), r * c, {}};
    auto id = [&](int i, int j) { return i * c + j; };
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++) {
            if (bnd && j == 0)
                t.slots.push_back({id(i, j), -1});
            if (j + 1 < c)
                t.slots.push_back({id(i, j), id(i, j + 1)});
            if (i + 1 < r)
                t.slots.push_back({id(i, j), id(i + 1, j)});
            if (kind >= 1 && i + 1 < r && j + 1 < c)
                t.slots.push_back({id(i, j), id(i + 1, j + 1)});
            if (kind >= 2 && i + 1 < r && j > 0)
                t.slots.push_back({id(i, j), id(i + 1, j - 1)});
            if (bnd && j == c - 1 && c > 1)
                t.slots.push_back({id(i, j), -1});
        }
    return t;
}
inline Topo cube(int a, int b, int c, bool bnd) {
    Topo t{fmt("cube%dx%dx%d%s", a, b, c, bnd ? "+B" : ""), a * b * c, {}};
    auto id = [&](int i, int j, int k) { return (i * b + j) * c + k; };
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++)
            for (int k = 0; k < c; k++) {
                if (i + 1 < a)
                    t.slots.push_back({id(i, j, k), id(i + 1, j, k)});
                if (j + 1 < b)
                    t.slots.push_back({id(i, j, k), id(i, j + 1, k)});
                if (k + 1 < c)
                    t.slots.push_back({id(i, j, k), id(i, j, k + 1)});
                if (bnd && k == 0)
                    t.slots.push_back({id(i, j, k), -1});
                if (bnd && k == c - 1 && c > 1)
                    t.slots.push_back({id(i, j, k), -1});
            }
    return t;
}
inline Topo petersen(bool bnd) {
    Topo t{bnd ? "petersen+B" : "petersen", 10, {}};
    for (int i = 0; i < 5; i++) {
        t.slots.push_back({i, (i + 1) % 5});
        t.slots.push_back({5 + i, 5 + (i + 2) % 5});
        t.slots.push_back({i, 5 + i});
    }
    if (bnd)
        t.slots.push_back({0, -1});
    return t;
}
inline Topo mobius(int n, bool bnd) {  // Moebius ladder on n (even) nodes
    Topo t{fmt("mobius%d%s", n, bnd ? "+B" : ""), n, {}};
    for (int i = 0; i < n; i++)
        t.slots.push_back({i, (i + 1) % n});
    for (int i = 0; i < n / 2; i++)
        t.slots.push_back({i, i + n / 2});
    if (bnd) {
        t.slots.push_back({0, -1});
        t.slots.push_back({1, -1});
    }
    return t;
}
// A chain of k triangles joined by bridges: forces nested blossoms.
inline Topo triangles(int k, bool bnd) {
    Topo t{fmt("triangles%d%s", k, bnd ? "+B" : ""), 3 * k, {}};
    for (int i = 0; i < k; i++) {
        t.slots.push_back({3 * i, 3 * i + 1});
        t.slots.push_back({3 * i + 1, 3 * i + 2});
        t.slots.push_back({3 * i, 3 * i + 2});
        if (i + 1 < k)
            t.slots.push_back({3 * i + 2, 3 * i + 3});
        if (i + 2 < k)
            t.slots.push_back({3 * i + 1, 3 * (i + 2) + 1});
    }
    if (bnd) {
        t.slots.push_back({0, -1});
        t.slots.push_back({3 * k - 1, -1});
    }
    return t;
}
inline G with_weights(const Topo& t, const std::vector<int64_t>& w) {
    G g;
    g.n = t.n;
    // parallel boundary slots on one node are merged to the first
    std::vector<char> hasb(t.n, 0);
    for (size_t k = 0; k < t.slots.size(); k++) {
        if (w[k] == ABSENT)
            continue;
        if (t.slots[k].second < 0) {
            if (hasb[t.slots[k].first])
                continue;
            hasb[t.slots[k].first] = 1;
        }
        g.e.push_back({t.slots[k].first, t.slots[k].second, w[k]});
    }
    return g;
}
// All assignments of the alphabet to the slots.
struct AllWeights {
    Topo t;
    std::vector<int64_t> alphabet;
    uint64_t size() const {
        return ipow(alphabet.size(), t.slots.size());
    }
    G at(uint64_t i) const {
        std::vector<int64_t> w;
        for (size_t k = 0; k < t.slots.size(); k++) {
            w.push_back(alphabet[i % alphabet.size()]);
            i /= alphabet.size();
        }
        return with_weights(t, w);
    }
};
// All quadratic-residue weightings: w_k = lo + ((a k^2 + b k + c) mod m), all a, b, c below m.
struct QuadWeights {
    Topo t;
    int64_t m, lo;
    uint64_t size() const {
        return m * m * m;
    }
    G at(uint64_t i) const {
        int64_t a = i % m, b = i / m % m, c = i / m / m;
        std::vector<int64_t> w;
        for (int64_t k = 0; k < (int64_t)t.slots.size(); k++)
            w.push_back(lo + (a * k * k + b * k + c) % m);
        return with_weights(t, w);
    }
};
// Base weight everywhere, every choice of at most two slots that deviate, over an alphabet.
struct DevWeights {
    Topo t;
    int64_t base;
    std::vector<int64_t> alphabet;
    uint64_t size() const {
        uint64_t S = t.slots.size(), A = alphabet.size();
        return 1 + S * A + S * (S - 1) / 2 * A * A;
    }
    G at(uint64_t i) const {
        uint64_t S = t.slots.size(), A = alphabet.size();
        std::vector<int64_t> w(S, base);
        if (i == 0)
            return with_weights(t, w);
        i--;
        if (i < S * A) {
            w[i / A] = alphabet[i % A];
            return with_weights(t, w);
        }
        i -= S * A;
        uint64_t pr = i / (A * A), al = i % (A * A);
        uint64_t x = 0;
        while (pr >= S - 1 - x) {
            pr -= S - 1 - x;
            x++;
        }
        uint64_t y = x + 1 + pr;
        w[x] = alphabet[al % A];
        w[y] = alphabet[al / A];
        return with_weights(t, w);
    }
};
inline std::string alpha_str(const std::vector<int64_t>& a) {
    std::string s = "{";
    for (auto x : a)
        s += (s.size() > 1 ? "," : "") + (x == ABSENT ? std::string("absent") : fmt("%lld", (long long)x));
    return s + "}";
}
using GraphFn = std::function<void(const G&, Ctx&)>;
inline Family fam(const AllWeights& a, const GraphFn& fn, uint64_t chunk) {
    Family f;
    f.name = "all:" + a.t.name + ":" + alpha_str(a.alphabet);
    f.bound = fmt("every assignment of %s to the %d slots of %s, every syndrome", alpha_str(a.alphabet).c_str(),
                  (int)a.t.slots.size(), a.t.name.c_str());
    f.n = a.size();
    f.chunk = chunk;
    f.run = [a, fn](uint64_t i, Ctx& c) { fn(a.at(i), c); };
    f.describe = [a](uint64_t i) { return a.at(i).str(); };
    return f;
}
inline Family fam(const QuadWeights& a, const GraphFn& fn, uint64_t chunk) {
    Family f;
    f.name = fmt("quad:%s:m%d:lo%d", a.t.name.c_str(), (int)a.m, (int)a.lo);
    f.bound = fmt("every weighting w_k=%d+((a k^2+b k+c) mod %d), a,b,c<%d, of %s, every syndrome", (int)a.lo, (int)a.m,
                  (int)a.m, a.t.name.c_str());
    f.n = a.size();
    f.chunk = chunk;
    f.run = [a, fn](uint64_t i, Ctx& c) { fn(a.at(i), c); };
    f.describe = [a](uint64_t i) { return a.at(i).str(); };
    return f;
}
inline Family fam(const DevWeights& a, const GraphFn& fn, uint64_t chunk) {
    Family f;
    f.name = fmt("dev:%s:base%d:%s", a.t.name.c_str(), (int)a.base, alpha_str(a.alphabet).c_str());
    f.bound = fmt("base weight %d on %s with every choice of at most 2 deviating slots over %s, every syndrome",
                  (int)a.base, a.t.name.c_str(), alpha_str(a.alphabet).c_str());
    f.n = a.size();
    f.chunk = chunk;
    f.run = [a, fn](uint64_t i, Ctx& c) { fn(a.at(i), c); };
    f.describe = [a](uint64_t i) { return a.at(i).str(); };
    return f;
}

}  // namespace vx
#endif
