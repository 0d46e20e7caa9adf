// C01: minimum-weight decoding is valid and optimal for non-negative weights.
#include "big.h"
using namespace vx;

static void check(const G& g, Ctx& c, bool both) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm();
    c.traces++;  // one decoder object driven through all syndromes in turn
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF)
            continue;  // infeasible syndromes belong to C03
        auto ev = events_of(s);
        Dec d = decode(mwpm, ev, g.e.size());
        c.transitions++;
        require_optimal(g, d, s, best[s], "decode");
        if (both) {
            Dec d2 = decode64(mwpm, ev, g.e.size());
            c.transitions++;
            require_optimal(g, d2, s, best[s], "decode (bit mask)");
        }
        c.states++;
        uint64_t h = best[s];
        for (auto b : d.obs)
            h = h * 3 + b;
        c.outcome(h);
        c.note(fmt("%s->%.0f", synd_str(s).c_str(), d.weight));
    }
}
// Insertion order and orientation variants of one graph.
static void check_orders(const G& g, Ctx& c) {
    check(g, c, true);
    G r = g;
    std::reverse(r.e.begin(), r.e.end());
    check(r, c, false);
    for (size_t k = 0; k < r.e.size(); k += 2)
        if (r.e[k].v >= 0)
            std::swap(r.e[k].u, r.e[k].v);
    check(r, c, false);
}

int main(int argc, char** argv) {
    Options o;
    o.prop = "C01";
    o.assumptions = {"graphs have at most one edge per node pair (parallel edges are merged on insertion, see C10)",
                     "integer weights; real weights are C09"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        GraphFn both = [](const G& g, Ctx& c) { check(g, c, true); };
        GraphFn one = [](const G& g, Ctx& c) { check(g, c, false); };
        GraphFn ord = check_orders;
        const int64_t A = ABSENT;
        f.push_back(fam(AllWeights{complete(1, 1), {A, 0, 1, 2, 3}}, both, 1));
        f.push_back(fam(AllWeights{complete(2, 2), {A, 0, 1, 2, 3, 5, 8}}, ord, 16));
        f.push_back(fam(AllWeights{complete(3, 3), {A, 0, 1, 2, 3}}, ord, 256));
        f.push_back(fam(AllWeights{complete(4, 4), {A, 1, 2}}, ord, 512));
        f.push_back(fam(AllWeights{complete(4, 1), {A, 0, 1, 3}}, both, 256));
        f.push_back(fam(AllWeights{complete(5, 0), {A, 1, 2}}, both, 256));
        f.push_back(fam(AllWeights{complete(5, 5), {1, 3}}, one, 256));
        f.push_back(fam(AllWeights{complete(6, 0), {1, 2}}, one, 256));
        f.push_back(fam(AllWeights{ring(5, 5), {1, 2}}, one, 64));
        f.push_back(fam(AllWeights{ring(7, 1), {1, 2, 3}}, one, 64));
        f.push_back(fam(AllWeights{wheel(5, true), {1, 2}}, one, 64));
        f.push_back(fam(AllWeights{triangles(2, true), {1, 2, 3}}, one, 64));
        for (auto& t : {grid(3, 3, 1, true), grid(3, 4, 0, true), petersen(true), mobius(10, true), triangles(3, true),
                        triangles(4, true), cube(2, 2, 3, true), grid(3, 4, 2, false), ring(9, 2), ring(12, 1), wheel(9, true), complete(8, 2), complete(7, 0), path(10,2)})
            f.push_back(fam(QuadWeights{t, th ? 11 : 5, 1}, one, 1));
        for (auto& t : {grid(3, 3, 1, true), petersen(true), triangles(3, true), complete(7, 1), mobius(8, true)})
            f.push_back(fam(QuadWeights{t, 4, 0}, one, 1));
        for (auto& t : {grid(4, 4, 0, true), grid(4, 4, 1, true), triangles(5, true), cube(2, 3, 3, true)}) {
            f.push_back(fam(QuadWeights{t, th ? 5 : 2, 1}, one, 1));
        }
        for (auto& t : {ring(9, 1), triangles(3, true), petersen(false), grid(3, 3, 1, true)})
            f.push_back(fam(DevWeights{t, 2, th ? std::vector<int64_t>{0, 1, 3, 4, 7} : std::vector<int64_t>{1, 5}}, one, 4));
        for (auto& b : huge_cases(true, 1, 3)) f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, true, true); }));
        // hundreds of nodes and events
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b))
                f.push_back(big("", bigcase(t, 5, t.n % 2, th ? 24 : 12, {5, 25, 50, 90}, th ? 100 : 1000, th ? 60 : 6, {1, 1000003}),
                                [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, true, true); }));
        for (auto& b : tree_cases(th ? 400 : 40, 3))
            f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_decode(g, s, c, false, true); }));
        for (auto& x : crowds(th, crowd_decode)) f.push_back(x);
        if (th) {
            f.push_back(fam(AllWeights{complete(4, 4), {A, 0, 1, 2}}, one, 1024));
            f.push_back(fam(AllWeights{complete(4, 4), {1, 2, 3, 4}}, one, 1024));
            f.push_back(fam(AllWeights{complete(5, 5), {A, 1, 2}}, one, 1024));
            f.push_back(fam(AllWeights{complete(6, 0), {1, 2, 3}}, one, 1024));
            f.push_back(fam(AllWeights{ring(7, 7), {1, 2}}, one, 64));
            f.push_back(fam(AllWeights{wheel(5, true), {1, 2, 3}}, one, 64));
            f.push_back(fam(AllWeights{petersen(false), {1, 2}}, one, 64));
            f.push_back(fam(AllWeights{triangles(3, true), {1, 2}}, one, 16));
            f.push_back(fam(AllWeights{grid(3, 3, 1, true), {1, 2}}, one, 64));
            for (auto& t : {grid(4, 4, 2, true), grid(3, 6, 1, true), triangles(6, true), cube(2, 2, 4, true)})
                f.push_back(fam(QuadWeights{t, 3, 1}, one, 1));
        }
        return f;
    });
}
