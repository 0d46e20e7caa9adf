// C20: noise samples are consistent, reproducible, and distributed as the edges say. Random draws are enumerated
// (every script of draws) and real seeds are enumerated (every seed of a range).
#include "big.h"
#include "pymatching/rand/rand_gen.h"
using namespace vx;

// Controlled random source: while a script is active, pm::rand_float takes its value from it.
static std::vector<double> script;
static size_t script_pos;
static bool scripted = false;
extern "C" double __real__ZN2pm10rand_floatEdd(double, double) __attribute__((weak));
extern "C" double __wrap__ZN2pm10rand_floatEdd(double a, double b) {
    if (!scripted) return __real__ZN2pm10rand_floatEdd(a, b);
    double x = script_pos < script.size() ? script[script_pos] : 0.5;
    script_pos++;
    return a + (b - a) * x;
}

struct NE {
    int u, v;
    double p;
};
struct NG {
    int n;
    std::vector<NE> e;
    std::vector<size_t> boundary;
    std::string str() const {
        std::string s = fmt("n=%d", n);
        for (auto& x : e) s += fmt(" (%d,%d):p=%g", x.u, x.v, x.p);
        for (auto b : boundary) s += fmt(" boundary=%d", (int)b);
        return s;
    }
};
// Edge k carries its own observable k and, as extra, two shared ones.
static void build(pm::UserGraph& ug, const NG& g) {
    size_t E = g.e.size();
    for (size_t k = 0; k < E; k++) {
        std::vector<size_t> obs{k, E + k % 2, E + 2};
        if (g.e[k].v < 0) ug.add_or_merge_boundary_edge(g.e[k].u, obs, 1, g.e[k].p, pm::DISALLOW);
        else ug.add_or_merge_edge(g.e[k].u, g.e[k].v, obs, 1, g.e[k].p, pm::DISALLOW);
    }
    ug.set_boundary(std::set<size_t>(g.boundary.begin(), g.boundary.end()));
}
// Takes one sample; returns the flipped edge set after checking consistency.
static uint64_t sample(const pm::UserGraph& ug, const NG& g) {
    size_t E = g.e.size();
    std::vector<uint8_t> err(E + 3 + 8, 0), syn(g.n + 8, 0);
    for (int k = 0; k < 8; k++) err[E + 3 + k] = 0xA5, syn[g.n + k] = 0xA5;
    ug.add_noise(err.data(), syn.data());
    for (int k = 0; k < 8; k++)
        if (err[E + 3 + k] != 0xA5 || syn[g.n + k] != 0xA5) fail("sample written outside its arrays: " + g.str());
    uint64_t f = 0;
    std::vector<uint8_t> ws(g.n, 0), we(3, 0);
    for (size_t k = 0; k < E; k++) {
        if (err[k] > 1) fail("sample is not binary: " + g.str());
        if (!err[k]) continue;
        f |= 1ull << k;
        ws[g.e[k].u] ^= 1;
        if (g.e[k].v >= 0) ws[g.e[k].v] ^= 1;
        we[k % 2] ^= 1;
        we[2] ^= 1;
        if (g.e[k].p <= 0) fail(fmt("edge %d of probability 0 flipped: ", (int)k) + g.str());
    }
    for (size_t k = 0; k < E; k++)
        if (g.e[k].p >= 1 && !(f >> k & 1)) fail(fmt("edge %d of probability 1 did not flip: ", (int)k) + g.str());
    for (auto b : g.boundary) ws[b] = 0;
    for (int i = 0; i < g.n; i++)
        if (syn[i] != ws[i]) fail(fmt("syndrome bit %d is %d for flipped edges %s: ", i, syn[i], synd_str(f).c_str()) + g.str());
    for (int i = 0; i < 3; i++)
        if (err[E + i] != we[i]) fail(fmt("observable %d is wrong for flipped edges %s: ", (int)E + i, synd_str(f).c_str()) + g.str());
    return f;
}
static std::vector<std::pair<int, int>> slots(int n, bool loops) {
    std::vector<std::pair<int, int>> s;
    for (int i = 0; i < n; i++) {
        s.push_back({i, -1});
        for (int j = i + 1; j < n; j++) s.push_back({i, j});
        if (loops && i == 0) s.push_back({i, i});
    }
    return s;
}
// All assignments of probabilities (or absence) to slots, all boundary sets; every script of draws.
static Family scripts(const std::string& nm, int n, bool loops, std::vector<double> ps, std::vector<double> draws) {
    auto sl = slots(n, loops);
    Family f;
    f.name = nm;
    uint64_t A = ps.size() + 1;
    f.n = ipow(A, sl.size()) << n;
    f.chunk = 8;
    f.bound = fmt("every assignment of {absent, %d probabilities} to %d edge slots on %d nodes, every boundary set, every script of %d draw values per edge", (int)ps.size(),
                  (int)sl.size(), n, (int)draws.size());
    auto at = [=](uint64_t i) {
        NG g{n, {}, {}};
        uint32_t bm = i & ((1u << n) - 1);
        i >>= n;
        for (auto x : events_of(bm)) g.boundary.push_back(x);
        for (auto& s : sl) {
            if (i % A) g.e.push_back({s.first, s.second, ps[i % A - 1]});
            i /= A;
        }
        return g;
    };
    f.describe = [=](uint64_t i) { return at(i).str(); };
    f.run = [=](uint64_t i, Ctx& c) {
        NG g = at(i);
        pm::UserGraph ug(g.n, g.e.size() + 3);
        build(ug, g);
        bool valid = true;
        uint64_t may = 0, must = 0;
        for (size_t k = 0; k < g.e.size(); k++) {
            valid = valid && g.e[k].p >= 0 && g.e[k].p <= 1;
            if (g.e[k].p > 0 && g.e[k].p < 1) may |= 1ull << k;
            if (g.e[k].p >= 1) must |= 1ull << k;
        }
        c.traces++;
        if (ug.all_edges_have_error_probabilities() != valid) fail("all_edges_have_error_probabilities is wrong: " + g.str());
        size_t E = g.e.size();
        if (!valid) {
            std::vector<uint8_t> err(E + 3, 0), syn(g.n, 0);
            for (int t = 0; t < 20; t++) ug.add_noise(err.data(), syn.data());
            for (auto x : err) if (x) fail("sample produced without valid probabilities: " + g.str());
            for (auto x : syn) if (x) fail("sample produced without valid probabilities: " + g.str());
            c.states++;
            return;
        }
        std::set<uint64_t> reached;
        bool one_draw_each = true;
        uint64_t D = draws.size(), N = ipow(D, E);
        for (uint64_t x = 0; x < N; x++) {
            script.clear();
            uint64_t y = x;
            for (size_t k = 0; k < E; k++) {
                script.push_back(draws[y % D]);
                y /= D;
            }
            scripted = true;
            script_pos = 0;
            uint64_t fl;
            try {
                fl = sample(ug, g);
            } catch (...) {
                scripted = false;
                throw;
            }
            scripted = false;
            one_draw_each = one_draw_each && script_pos == E;
            reached.insert(fl);
            c.states++;
            c.transitions++;
            c.outcome(fl * 64 + E);
        }
        // With one draw per edge, every subset of the uncertain edges must be reachable.
        if (one_draw_each && reached.size() != (uint64_t{1} << __builtin_popcountll(may)))
            fail(fmt("%d of %d flip patterns reachable: ", (int)reached.size(), 1 << __builtin_popcountll(may)) + g.str());
        c.note(fmt("%d scripts, %d flip patterns", (int)N, (int)reached.size()));
    };
    return f;
}
static Family seeds(const std::string& nm, NG g, uint64_t nseeds, int per_seed, std::function<void(pm::UserGraph&)> b) {
    Family f;
    f.name = nm;
    f.n = 1;
    f.case_limit_s = 120;
    f.bound = fmt("every seed below %d, %d consecutive samples each, of %s", (int)nseeds, per_seed, g.str().c_str());
    f.describe = [=](uint64_t) { return g.str(); };
    f.run = [=](uint64_t, Ctx& c) {
        pm::UserGraph ug(g.n, g.e.size() + 3);
        if (b) b(ug);
        else build(ug, g);
        size_t E = g.e.size();
        std::vector<uint64_t> count(1u << E, 0);
        uint64_t total = 0;
        std::set<std::vector<uint64_t>> streams;
        for (uint64_t s = 0; s < nseeds; s++) {
            std::vector<uint64_t> a, bb;
            for (int rep = 0; rep < 2; rep++) {
                pm::set_seed((unsigned)s);
                for (int k = 0; k < per_seed; k++) (rep ? bb : a).push_back(sample(ug, g));
            }
            if (a != bb) fail(fmt("seed %d does not reproduce its samples: ", (int)s) + g.str());
            streams.insert(a);
            for (auto x : a) count[x]++;
            total += per_seed;
            c.states += per_seed;
            c.transitions += 2 * per_seed;
            c.outcome(std::hash<std::string>()(std::string((char*)a.data(), a.size() * 8)));
        }
        c.traces++;
        bool random = false;
        for (auto& e : g.e) random |= e.p > 0 && e.p < 1;
        if (random && nseeds > 8 && streams.size() < nseeds / 2) fail("different seeds give the same samples: " + g.str());
        // joint frequencies of every flip pattern and marginals of every edge
        auto within = [&](uint64_t k, double p, const std::string& what) {
            double mean = p * total, sd = std::sqrt(total * p * (1 - p));
            if (std::abs(k - mean) > 6.5 * sd + 1e-9)
                fail(fmt("%s occurs %llu times in %llu samples, expected %.1f +- %.1f: ", what.c_str(), (unsigned long long)k, (unsigned long long)total, mean, sd) + g.str());
        };
        for (uint64_t x = 0; x < count.size(); x++) {
            double p = 1;
            for (size_t k = 0; k < E; k++) p *= x >> k & 1 ? g.e[k].p : 1 - g.e[k].p;
            if (p * total > 30 || p == 0) within(count[x], p, "flip pattern " + synd_str(x));
        }
        for (size_t k = 0; k < E; k++) {
            uint64_t m = 0;
            for (uint64_t x = 0; x < count.size(); x++)
                if (x >> k & 1) m += count[x];
            within(m, g.e[k].p, fmt("edge %d", (int)k));
        }
        c.note(fmt("%llu samples within 6.5 standard deviations", (unsigned long long)total));
    };
    return f;
}
// Large graphs: consistency of every sample, reproducibility, certain edges, and the marginal of every edge.
static void big_noise(const G& g, int variant, uint64_t nseeds, int per_seed, Ctx& c) {
    size_t E = g.e.size(), O = E + 3;
    std::vector<double> p(E);
    std::set<size_t> bs;
    for (size_t k = 0; k < E; k++) {
        int64_t r = seq1009(variant, k);
        p[k] = r % 10 == 0 ? 0 : r % 10 == 1 ? 1 : 0.02 + 0.001 * (r % 900);
    }
    if (variant % 2)
        for (int i = 0; i < g.n; i++)
            if (seq1009(variant + 3, i) % 7 == 0) bs.insert(i);
    pm::UserGraph ug(g.n, O);
    for (size_t k = 0; k < E; k++) {
        std::vector<size_t> obs{k, E + k % 2, E + 2};
        if (g.e[k].v < 0) ug.add_or_merge_boundary_edge(g.e[k].u, obs, 1, p[k], pm::DISALLOW);
        else ug.add_or_merge_edge(g.e[k].u, g.e[k].v, obs, 1, p[k], pm::DISALLOW);
    }
    ug.set_boundary(bs);
    std::vector<uint64_t> count(E, 0);
    c.traces++;
    for (uint64_t s = 0; s < nseeds; s++) {
        std::vector<std::vector<uint8_t>> first;
        for (int rep = 0; rep < 2; rep++) {
            pm::set_seed((unsigned)s);
            for (int k = 0; k < per_seed; k++) {
                std::vector<uint8_t> err(O, 0), syn(g.n, 0), ws(g.n, 0), we(3, 0);
                ug.add_noise(err.data(), syn.data());
                c.transitions++;
                c.states++;
                for (size_t j = 0; j < E; j++) {
                    if (err[j] > 1 || (err[j] && p[j] == 0) || (!err[j] && p[j] == 1)) fail(fmt("edge %zu of probability %g has flip value %d (%s)", j, p[j], err[j], g_str(g).c_str()));
                    if (!err[j]) continue;
                    ws[g.e[j].u] ^= 1;
                    if (g.e[j].v >= 0) ws[g.e[j].v] ^= 1;
                    we[j % 2] ^= 1;
                    we[2] ^= 1;
                    if (!rep) count[j]++;
                }
                for (auto b : bs) ws[b] = 0;
                for (int i = 0; i < g.n; i++)
                    if (ws[i] != syn[i]) fail(fmt("syndrome bit %d is %d instead of %d (%s)", i, syn[i], ws[i], g_str(g).c_str()));
                for (int i = 0; i < 3; i++)
                    if (we[i] != err[E + i]) fail(fmt("shared observable %d is wrong (%s)", i, g_str(g).c_str()));
                if (!rep) first.push_back(err);
                else if (first[k] != err) fail(fmt("seed %d does not reproduce its samples (%s)", (int)s, g_str(g).c_str()));
                c.outcome(std::hash<std::string>()(std::string((char*)err.data(), err.size())));
            }
        }
    }
    double total = (double)nseeds * per_seed;
    double allmean = 0, allvar = 0, all = 0;
    for (size_t k = 0; k < E; k++) {
        double mean = p[k] * total, sd = std::sqrt(total * p[k] * (1 - p[k]));
        allmean += mean, allvar += sd * sd, all += count[k];
        if (total < 6000 && sd > 0) continue;  // too few samples for a single edge
        if (std::abs(count[k] - mean) > 6.5 * sd + 1e-9) fail(fmt("edge %zu of probability %g flips %llu times in %.0f samples (%s)", k, p[k], (unsigned long long)count[k], total, g_str(g).c_str()));
    }
    if (std::abs(all - allmean) > 6.5 * std::sqrt(allvar) + 1e-9) fail(fmt("%.0f flips in %.0f samples, expected %.0f (%s)", all, total, allmean, g_str(g).c_str()));
    c.note(fmt("%.0f samples", total));
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C20";
    o.assumptions = {"frequencies over the enumerated seeds are compared at 6.5 standard deviations; everything else is exact",
                     "the caller passes zeroed arrays, as the Python binding does"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        f.push_back(scripts("scripts:n2+loop", 2, true, {0, 0.3, 0.8, 1, -1, 1.5}, {0, 0.1, 0.5, 0.9, 0.999999}));
        f.push_back(scripts("scripts:n3", 3, false, {0, 0.5, 1}, {0, 0.2, 0.8}));
        if (th) f.push_back(scripts("scripts:n3+loop", 3, true, {0, 0.3, 0.7, 1}, {0, 0.2, 0.8}));
        uint64_t S = th ? 4096 : 512;
        int per = th ? 2000 : 1000;
        f.push_back(seeds("seeds:path", NG{3, {{0, -1, 0.1}, {0, 1, 0.5}, {1, 2, 0.9}, {2, -1, 0.25}}, {}}, S, per, nullptr));
        f.push_back(seeds("seeds:boundary", NG{4, {{0, 1, 0.3}, {1, 2, 0.05}, {2, 3, 1}, {3, 0, 0}, {0, 2, 0.6}, {1, 1, 0.4}}, {3, 1}}, S, per, nullptr));
        f.push_back(seeds("seeds:many", NG{6, {{0, 1, 0.01}, {1, 2, 0.5}, {2, 3, 0.99}, {3, 4, 0.2}, {4, 5, 0.35}, {5, 0, 0.5}, {0, 3, 0.7}, {1, -1, 0.45}}, {5}}, S, per, nullptr));
        // probabilities that come from merging, and a graph that first lacks one probability
        NG m{3, {{0, 1, 0.2 * 0.6 + 0.4 * 0.8}, {1, 2, 0.7}, {2, -1, 0.15}, {0, -1, 0.3}}, {}};
        f.push_back(seeds("seeds:merged", m, S, per, [](pm::UserGraph& g) {
            g.add_or_merge_edge(0, 1, {0, 4, 6}, 1, 0.2, pm::INDEPENDENT);
            g.add_or_merge_edge(1, 0, {0, 4, 6}, 1, 0.4, pm::INDEPENDENT);
            g.add_or_merge_edge(1, 2, {3}, 1, -1, pm::DISALLOW);
            g.add_or_merge_edge(2, 1, {1, 5, 6}, 5, 0.7, pm::REPLACE);
            g.add_or_merge_boundary_edge(2, {2}, 3, 0.9, pm::DISALLOW);
            g.add_or_merge_boundary_edge(2, {2, 4, 6}, 1, 0.15, pm::SMALLEST_WEIGHT);
            g.add_or_merge_boundary_edge(2, {2, 4, 6}, 1, 0.77, pm::KEEP_ORIGINAL);
            g.add_or_merge_boundary_edge(0, {3, 5, 6}, 1, 0.3, pm::DISALLOW);
        }));
        for (auto& t : {strip(60, 3, 1, true), path(300, 2), star(280, 7), copies(complete(5, 1), 30)})
            for (int v = 0; v < 2; v++) {
                Family x;
                x.name = fmt("big:%s:%d", t.name.c_str(), v);
                x.n = th ? 20 : 2;
                x.chunk = 1;
                x.case_limit_s = 300;
                x.bound = fmt("%d probability assignments on %s%s, 64 seeds, %d samples each", (int)x.n, t.name.c_str(), v ? " with boundary nodes" : "", th ? 400 : 100);
                x.run = [=](uint64_t i, Ctx& c) { big_noise(with_weights(t, std::vector<int64_t>(t.slots.size(), 1)), (int)i * 2 + v, 64, th ? 400 : 100, c); };
                x.describe = [=](uint64_t i) { return fmt("assignment %d on %s", (int)i, t.name.c_str()); };
                f.push_back(x);
            }
        for (auto& t : {path(70000, 2), star(70000, 7), strip(2000, 3, 1, true)})
            for (int v = 0; v < 2; v++) {
                Family x;
                x.name = fmt("huge:%s:%d", t.name.c_str(), v);
                x.n = th ? 10 : 2;
                x.chunk = 1;
                x.case_limit_s = 300;
                x.bound = fmt("%d probability assignments on %s%s, 4 seeds, 4 samples each", (int)x.n, t.name.c_str(), v ? " with boundary nodes" : "");
                Topo u = t;
                for (auto& s : u.slots)
                    if (s.second >= 0 && s.first == 0) std::swap(s.first, s.second);
                x.run = [=](uint64_t i, Ctx& c) { big_noise(with_weights(u, std::vector<int64_t>(u.slots.size(), 1)), (int)i * 2 + v, 4, 4, c); };
                x.describe = [=](uint64_t i) { return fmt("assignment %d on %s", (int)i, t.name.c_str()); };
                f.push_back(x);
            }
        return f;
    });
}
