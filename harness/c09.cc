// C09: magnitudes. Exact integers up to 2^24-1, reals within the discretisation at every scale, rejection above the
// maximum, and arbitrarily long distances (every edge subdivided into many maximum-weight edges).
#include "graphs.h"
using namespace vx;

static const int64_t MAXW = (1 << 24) - 1;

static void exact(const G& g, Ctx& c) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& m = ug.get_mwpm_with_search_graph();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        require_optimal(g, decode(m, events_of(s), g.e.size()), s, best[s], "decode");
        require_edges(g, decode_edges(m, events_of(s)), s, best[s], "edges");
        c.states++;
        c.transitions += 2;
        c.outcome(best[s]);
        c.note(fmt("%s:%lld", synd_str(s).c_str(), (long long)best[s]));
    }
}
// ------------------------------------------------------------------ real weights
struct RealCfg {
    Topo t;
    std::vector<double> alpha;
    double scale;
};
static Family reals(RealCfg r, uint64_t chunk) {
    Family f;
    f.name = fmt("real:%s:x%g:%d", r.t.name.c_str(), r.scale, (int)r.alpha.size());
    std::string as;
    for (auto a : r.alpha) as += fmt("%g ", a);
    f.bound = fmt("every assignment of {%s} (nan = absent) times %g to the %d slots of %s, every syndrome", as.c_str(), r.scale, (int)r.t.slots.size(), r.t.name.c_str());
    uint64_t A = r.alpha.size();
    f.n = ipow(A, r.t.slots.size());
    f.chunk = chunk;
    struct RE {
        int u, v;
        double w;
    };
    auto at = [=](uint64_t i) {
        std::vector<RE> e;
        for (auto& s : r.t.slots) {
            double w = r.alpha[i % A] * r.scale;
            if (!std::isnan(w)) e.push_back({s.first, s.second, w});
            i /= A;
        }
        return e;
    };
    auto str = [=](uint64_t i) {
        std::string s;
        for (auto& e : at(i)) s += fmt("(%d,%d):%.9g ", e.u, e.v, e.w);
        return s;
    };
    f.describe = str;
    f.run = [=](uint64_t i, Ctx& c) {
        auto es = at(i);
        int n = r.t.n;
        std::vector<long double> best(size_t{1} << n, 1e300L), tmp;
        best[0] = 0;
        double mx = 0;
        bool integral = true;
        pm::UserGraph ug(n, es.size());
        for (size_t k = 0; k < es.size(); k++) {
            auto& e = es[k];
            mx = std::max(mx, std::abs(e.w));
            integral = integral && std::round(e.w) == e.w;
            uint32_t b = ebits({e.u, e.v, 0});
            tmp = best;
            for (size_t s = 0; s < best.size(); s++)
                if (tmp[s ^ b] < 1e299L) best[s] = std::min(best[s], tmp[s ^ b] + (long double)e.w);
            if (e.v < 0) ug.add_or_merge_boundary_edge(e.u, {k}, e.w, 0.1, pm::DISALLOW);
            else ug.add_or_merge_edge(e.u, e.v, {k}, e.w, 0.1, pm::DISALLOW);
        }
        auto& m = ug.get_mwpm_with_search_graph();
        c.traces++;
        double per_edge = mx / (1 << 24) * 1.01;
        double tol = integral ? 1e-9 * mx : es.size() * per_edge + 1e-12 * mx;
        for (uint64_t s = 0; s < best.size(); s++) {
            if (best[s] > 1e299L) continue;
            Dec d = decode(m, events_of(s), es.size());
            if (d.threw) fail("rejected " + synd_str(s) + ": " + str(i));
            uint64_t sy = 0;
            long double w = 0;
            for (size_t k = 0; k < es.size(); k++)
                if (d.obs[k]) {
                    sy ^= ebits({es[k].u, es[k].v, 0});
                    w += es[k].w;
                }
            if (sy != s) fail("prediction has another syndrome for " + synd_str(s) + ": " + str(i));
            if ((double)(w - best[s]) > tol) fail(fmt("prediction for %s weighs %.12g but %.12g is possible (tolerance %.3g): ", synd_str(s).c_str(), (double)w, (double)best[s], tol) + str(i));
            if (std::abs(d.weight - (double)w) > tol || std::abs(d.weight - (double)best[s]) > tol)
                fail(fmt("reported weight %.12g for %s, solution weighs %.12g, minimum %.12g (tolerance %.3g): ", d.weight, synd_str(s).c_str(), (double)w, (double)best[s], tol) + str(i));
            DecE de = decode_edges(m, events_of(s));
            if (de.threw) fail("edges rejected " + synd_str(s) + ": " + str(i));
            long double we = 0;
            uint64_t sye = 0;
            for (auto& p : canon(de.edges)) {
                bool found = false;
                for (auto& e : es)
                    if (std::max(e.u, e.v) == p.first && std::min(e.u, e.v) == p.second) {
                        we += e.w;
                        sye ^= ebits({e.u, e.v, 0});
                        found = true;
                    }
                if (!found) fail("edge list names a non-edge: " + str(i));
            }
            if (sye != s || std::abs((double)(we - best[s])) > tol) fail(fmt("edge list for %s weighs %.12g, minimum %.12g: ", synd_str(s).c_str(), (double)we, (double)best[s]) + str(i));
            c.states++;
            c.transitions += 2;
            c.outcome((uint64_t)(int64_t)(d.weight / (mx ? mx : 1) * 1e6));
        }
        c.note(fmt("tolerance %.3g", tol));
    };
    return f;
}
// ------------------------------------------------------------------ long distances
// Edge k of a small graph becomes a path of w_k unit edges, each of weight W; the small graph is the oracle.
struct LongCfg {
    Topo t;
    std::vector<int64_t> lens;
    int64_t W;
    size_t pad_obs;
};
static void subdivided(const G& small, int64_t W, size_t pad_obs, Ctx& c) {
    G scaled = small;
    for (auto& e : scaled.e) e.w *= W;
    auto best = oracle(scaled);
    size_t E = small.e.size();
    pm::UserGraph ug(small.n, E + pad_obs);
    size_t next = small.n;
    std::vector<std::pair<size_t, size_t>> owner_range(E);
    std::map<std::pair<int64_t, int64_t>, int> owner;
    for (size_t k = 0; k < E; k++) {
        size_t cur = small.e[k].u;
        for (int64_t j = 0; j < small.e[k].w; j++) {
            std::vector<size_t> ob;
            if (j == small.e[k].w / 2) ob = {k + pad_obs};
            bool last = j + 1 == small.e[k].w;
            if (last && small.e[k].v < 0) {
                ug.add_or_merge_boundary_edge(cur, ob, W, 0.1, pm::DISALLOW);
                owner[{(int64_t)cur, -1}] = k;
            } else {
                size_t to = last ? small.e[k].v : next++;
                ug.add_or_merge_edge(cur, to, ob, W, 0.1, pm::DISALLOW);
                owner[{(int64_t)std::max(cur, to), (int64_t)std::min(cur, to)}] = k;
                cur = to;
            }
        }
    }
    auto& m = ug.get_mwpm_with_search_graph();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        auto where = [&]() { return fmt("%s on %s with unit edges of weight %lld", synd_str(s).c_str(), small.str().c_str(), (long long)W); };
        Dec d = decode(m, events_of(s), E + pad_obs);
        d.obs.erase(d.obs.begin(), d.obs.begin() + pad_obs);
        require_optimal(scaled, d, s, best[s], "long distances");
        DecE de = decode_edges(m, events_of(s));
        if (de.threw) fail("edges rejected: " + where());
        std::vector<int64_t> cnt(E, 0);
        int64_t prev_a = -5, prev_b = -5, w = 0;
        for (auto& p : canon(de.edges)) {
            auto it = owner.find(p);
            if (it == owner.end()) fail("edge list names a non-edge: " + where());
            if (p.first == prev_a && p.second == prev_b) fail("edge listed twice: " + where());
            prev_a = p.first;
            prev_b = p.second;
            cnt[it->second]++;
            w += W;
        }
        std::vector<uint8_t> used(E, 0);
        for (size_t k = 0; k < E; k++) {
            if (cnt[k] && cnt[k] != small.e[k].w) fail("edge list is not a set of whole paths: " + where());
            used[k] = cnt[k] > 0;
        }
        Masked mk = eval_mask(scaled, used);
        if (mk.synd != s || w != best[s]) fail(fmt("edge list weighs %lld, minimum %lld: ", (long long)w, (long long)best[s]) + where());
        DecM dm = decode_match(m, events_of(s));
        uint64_t seen = 0;
        for (auto& p : dm.pairs) seen ^= (1ull << p.first) ^ (p.second >= 0 ? 1ull << p.second : 0);
        if (dm.threw || seen != s) fail("matched pairs are wrong: " + where());
        c.states++;
        c.transitions += 3;
        c.outcome(best[s]);
        c.note(fmt("%s:%lld", synd_str(s).c_str(), (long long)best[s]));
    }
}
static Family longs(LongCfg l, uint64_t chunk) {
    AllWeights a{l.t, l.lens};
    Family f;
    f.name = fmt("long:%s:%s:W%lld%s", l.t.name.c_str(), alpha_str(l.lens).c_str(), (long long)l.W, l.pad_obs ? ":many-observables" : "");
    f.bound = fmt("every assignment of path lengths %s to the %d slots of %s, each path of unit edges of weight %lld, every syndrome on the %d original nodes",
                  alpha_str(l.lens).c_str(), (int)l.t.slots.size(), l.t.name.c_str(), (long long)l.W, l.t.n);
    f.n = a.size();
    f.chunk = chunk;
    f.describe = [=](uint64_t i) { return "lengths " + a.at(i).str(); };
    f.run = [=](uint64_t i, Ctx& c) { subdivided(a.at(i), l.W, l.pad_obs, c); };
    return f;
}
// ------------------------------------------------------------------ the limit
static Family limit() {
    std::vector<double> ws;
    for (double b : {0.0, 1.0, 8388608.0, 16777214.0, 16777214.5, 16777215.0, 16777215.25, 16777216.0, 16777217.0, 33554431.0, 2147483647.0, 4294967296.0, 1e12, 1e300}) {
        ws.push_back(b);
        if (b != 0) ws.push_back(-b);
    }
    Family f;
    f.name = "limit";
    f.bound = fmt("every pair of %d weights around and beyond 2^24-1 on an edge and a boundary edge, through both decoder constructors, then repaired by a replacement", (int)ws.size());
    f.n = ws.size() * ws.size();
    f.chunk = 16;
    f.describe = [ws](uint64_t i) { return fmt("weights %.17g, %.17g", ws[i % ws.size()], ws[i / ws.size()]); };
    f.run = [ws](uint64_t i, Ctx& c) {
        double a = ws[i % ws.size()], b = ws[i / ws.size()];
        bool ok = std::abs(a) <= MAXW && std::abs(b) <= MAXW;
        for (int k = 0; k < 2; k++) {
            pm::UserGraph ug(2, 2);
            ug.add_or_merge_edge(0, 1, {0}, a, 0.1, pm::DISALLOW);
            ug.add_or_merge_boundary_edge(1, {1}, b, 0.1, pm::DISALLOW);
            bool threw = false;
            try {
                if (k) ug.get_mwpm_with_search_graph();
                else ug.get_mwpm();
            } catch (const std::invalid_argument&) {
                threw = true;
            }
            if (threw == ok) fail(fmt("weights %.17g and %.17g were %s", a, b, threw ? "rejected" : "accepted"));
            if (!ok) {
                ug.add_or_merge_edge(0, 1, {0}, 3, 0.1, pm::REPLACE);
                ug.add_or_merge_boundary_edge(1, {1}, 4, 0.1, pm::REPLACE);
                a = 3, b = 4;
            }
            double best[4];
            for (int s = 0; s < 4; s++) best[s] = 0;
            best[3] = a, best[2] = b, best[1] = a + b;
            auto& m = k ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
            double tol = 2.02 * std::max(std::abs(a), std::abs(b)) / (1 << 24);
            if (std::round(a) == a && std::round(b) == b) tol = 0;
            for (uint64_t s = 0; s < 4; s++) {
                Dec d = decode(m, events_of(s), 2);
                if (d.threw || std::abs(d.weight - best[s]) > tol) fail(fmt("weights %.17g, %.17g: %s decoded with weight %.17g instead of %.17g", a, b, synd_str(s).c_str(), d.weight, best[s]));
                c.states++;
                c.transitions++;
            }
            a = ws[i % ws.size()], b = ws[i / ws.size()];
        }
        c.traces++;
        c.outcome(i);
        c.note(ok ? "accepted" : "rejected");
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C09";
    o.assumptions = {"weights are finite (no NaN or infinity); real weights are judged to within max|w|/2^24 per edge of the graph"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT, M = MAXW;
        GraphFn ex = exact;
        f.push_back(fam(AllWeights{complete(2, 2), {A, 1, -1, M, -M, M - 1, 1 - M, (1 << 23) + 1, 0}}, ex, 32));
        f.push_back(fam(AllWeights{complete(3, 3), {A, 1, M, M - 1, -M}}, ex, 64));
        f.push_back(fam(AllWeights{complete(4, 1), {A, M, M - 1, (1 << 23)}}, ex, 64));
        f.push_back(fam(AllWeights{ring(6, 2), {1, M, M - 1}}, ex, 64));
        f.push_back(fam(AllWeights{complete(5, 1), {M, M - 1}}, ex, 64));
        f.push_back(fam(AllWeights{triangles(2, true), {M, M - 2, -M + 1}}, ex, 64));
        f.push_back(limit());
        double nan = std::nan("");
        std::vector<double> al{nan, 0.1, 1.0 / 3, 2.718281828, 7.5}, al2{0.001, 1.37, 9.99, -0.77}, al3{0.5, 1, 2.25};
        for (double sc : {1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6}) {
            f.push_back(reals({complete(3, 2), al, sc}, 32));
            f.push_back(reals({complete(3, 3), al2, sc}, 32));
            f.push_back(reals({ring(5, 2), al3, sc}, 32));
        }
        f.push_back(reals({complete(3, 3), {1, 16777215.0, 0.5, 4194304.25}, 1.0}, 32));
        f.push_back(reals({complete(4, 1), {0.3, 16777214.9, 1e-4}, 1.0}, 32));
        // long distances
        std::vector<int64_t> l1{1, 64, 66, 131}, l2{2, 63, 129}, l3{1, 70, 260};
        f.push_back(longs({complete(2, 2), {1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 257}, M, 0}, 8));
        f.push_back(longs({complete(3, 0), {1, 63, 64, 65, 66, 128, 130, 300}, M, 0}, 8));
        f.push_back(longs({ring(4, 1), l1, M, 0}, 8));
        f.push_back(longs({ring(5, 1), l2, M, 0}, 4));
        f.push_back(longs({complete(4, 0), l2, M, 0}, 4));
        f.push_back(longs({complete(4, 0), l3, (1 << 23) + 1, 70}, 4));
        f.push_back(longs({triangles(2, false), {40, 70, 131}, M, 0}, 4));
        f.push_back(longs({path(2, 2), {1, 1000, 2000}, M, 0}, 1));
        f.push_back(longs({complete(2, 1), {500, 1999, 3000}, M, 70}, 1));
        f.push_back(longs({complete(3, 1), {3, 200, 700}, 1, 0}, 4));
        f.push_back(longs({path(2, 0), {70000}, M, 0}, 1));
        f.push_back(longs({path(1, 2), {70000, 66000}, M, 0}, 1));
        if (th) {
            f.push_back(longs({complete(4, 1), l2, M, 0}, 4));
            f.push_back(longs({complete(5, 0), {64, 129}, M, 0}, 2));
            f.push_back(longs({ring(6, 2), l2, M, 0}, 2));
            f.push_back(longs({triangles(3, true), {60, 131}, M, 0}, 1));
            f.push_back(longs({path(2, 2), {10000, 30000}, M, 70}, 1));
            f.push_back(fam(AllWeights{complete(4, 4), {1, M, M - 1}}, ex, 64));
            f.push_back(fam(AllWeights{complete(6, 0), {M, M - 1}}, ex, 64));
            for (double sc : {1e-7, 1.0, 1e5}) f.push_back(reals({complete(4, 2), {nan, 0.1, 2.718281828, 7.5}, sc}, 64));
        }
        return f;
    });
}
