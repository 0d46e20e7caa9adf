// C02: negative edge weights are decoded exactly.
#include "big.h"
using namespace vx;

static void check(const G& g, Ctx& c, bool edges_too) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        auto ev = events_of(s);
        Dec d = decode(mwpm, ev, g.e.size());
        require_optimal(g, d, s, best[s], "decode");
        c.transitions++;
        if (edges_too) {
            std::reverse(ev.begin(), ev.end());
            Dec d2 = decode64(mwpm, ev, g.e.size());
            require_optimal(g, d2, s, best[s], "decode (bit mask, events reversed)");
            c.transitions++;
        }
        c.states++;
        uint64_t h = best[s] + 1000;
        for (auto b : d.obs) h = h * 3 + b;
        c.outcome(h);
        c.note(fmt("%s->%.0f", synd_str(s).c_str(), d.weight));
    }
}
// the same graph decoded with more than 64 observables (path extraction instead of bit masks)
static void check_many_obs(const G& g, Ctx& c) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, 70);
    fill(ug, g);
    auto& mwpm = ug.get_mwpm();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        Dec d = decode(mwpm, events_of(s), 70);
        for (size_t k = g.e.size(); k < 70; k++)
            if (d.obs[k]) fail(fmt("observable %zu on no edge was predicted (%s)", k, g.str().c_str()));
        d.obs.resize(g.e.size());
        require_optimal(g, d, s, best[s], "decode with 70 observables");
        c.transitions++;
        c.states++;
    }
}
static Topo with_loops(Topo t, int k) {
    for (int i = 0; i < k; i++) t.slots.push_back({i, i});
    t.name += fmt("+%dloops", k);
    return t;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C02";
    o.assumptions = {"at most one edge per node pair; boundary nodes are virtual (explicit boundary nodes are C11)"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        GraphFn both = [](const G& g, Ctx& c) { check(g, c, true); };
        GraphFn one = [](const G& g, Ctx& c) { check(g, c, false); };
        GraphFn many = check_many_obs;
        GraphFn all = [](const G& g, Ctx& c) { check(g, c, true); check_many_obs(g, c); };
        const int64_t A = ABSENT;
        f.push_back(fam(AllWeights{with_loops(complete(1, 1), 1), {A, -3, -2, -1, 0, 1, 2}}, all, 8));
        f.push_back(fam(AllWeights{with_loops(complete(2, 2), 2), {A, -2, -1, 0, 1, 3}}, all, 64));
        f.push_back(fam(AllWeights{complete(3, 3), {A, -2, -1, 1, 2}}, all, 128));
        f.push_back(fam(AllWeights{with_loops(complete(3, 1), 1), {A, -2, -1, 0, 3}}, all, 128));
        f.push_back(fam(AllWeights{complete(4, 2), {A, -2, 1}}, all, 128));
        f.push_back(fam(AllWeights{complete(4, 4), {-1, 1, 2}}, one, 512));
        f.push_back(fam(AllWeights{complete(5, 0), {-2, 1, 3}}, one, 256));
        f.push_back(fam(AllWeights{ring(6, 2), {-1, 1, 2}}, all, 32));
        f.push_back(fam(AllWeights{triangles(2, true), {-1, 1, 2}}, one, 64));
        for (auto& t : {grid(3, 3, 1, true), petersen(true), mobius(8, true), triangles(3, true), cube(2, 2, 2, true),
                        ring(9, 2), wheel(7, true), complete(7, 2)}) {
            f.push_back(fam(QuadWeights{t, th ? 11 : 7, -2}, one, 1));
            f.push_back(fam(QuadWeights{t, 5, -4}, t.slots.size() <= 60 ? many : one, 1));
        }
        for (auto& t : {grid(3, 4, 0, true), triangles(4, true), petersen(false), ring(10, 1)})
            f.push_back(fam(DevWeights{t, 2, th ? std::vector<int64_t>{-5, -3, -2, -1, 1} : std::vector<int64_t>{-3, -1}}, one, 4));
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b))
                f.push_back(big("", bigcase(t, 5, -2, th ? 24 : 12, {0, 5, 25, 50, 90}, th ? 100 : 1000, th ? 60 : 6, {1, 1000003}),
                                [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, true, true); }));
        for (auto& b : huge_cases(true, -2, 5)) f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, true, true); }));
        for (int neg : {2, 5})
            for (auto& b : tree_cases(th ? 200 : 20, 3, neg))
                f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, false, true); }));
        if (th) {
            f.push_back(fam(AllWeights{complete(4, 4), {A, -2, 0, 1}}, one, 512));
            f.push_back(fam(AllWeights{complete(5, 5), {-1, 2}}, one, 256));
            f.push_back(fam(AllWeights{complete(6, 0), {-1, 1, 2}}, one, 512));
            for (auto& t : {grid(4, 4, 1, true), triangles(5, true), cube(2, 3, 3, true)}) f.push_back(fam(QuadWeights{t, 5, -2}, one, 1));
        }
        return f;
    });
}
