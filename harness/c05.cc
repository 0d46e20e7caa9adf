// C05: decoding to edges returns a minimum-weight edge set of the graph.
#include "big.h"
using namespace vx;

static void check(const G& g, Ctx& c) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm_with_search_graph();
    c.traces++;
    Failure known;
    bool have_known = false;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        DecE d = decode_edges(mwpm, events_of(s));
        c.transitions++;
        try {
            require_edges(g, d, s, best[s], "decode to edges");
        } catch (const Failure& f) {
            if (f.key.empty()) throw;
            known = f;
            have_known = true;
        }
        c.states++;
        uint64_t h = best[s];
        for (auto& e : canon(d.edges)) h = h * 131 + e.first * 17 + e.second + 1;
        c.outcome(h);
        c.note(fmt("%s->%s", synd_str(s).c_str(), pairs_str(d.edges).c_str()));
    }
    if (have_known) throw known;
}
// order and orientation of insertion, and more than 64 observables
static void check_variants(const G& g, Ctx& c) {
    check(g, c);
    G r = g;
    std::reverse(r.e.begin(), r.e.end());
    for (size_t k = 0; k < r.e.size(); k++)
        if (k % 2 && r.e[k].v >= 0) std::swap(r.e[k].u, r.e[k].v);
    check(r, c);
}
static Topo with_loops(Topo t, int k) {
    for (int i = 0; i < k; i++) t.slots.push_back({i, i});
    t.name += fmt("+%dloops", k);
    return t;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C05";
    o.assumptions = {"at most one edge per node pair; boundary is virtual (explicit boundary nodes: C11)"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        GraphFn var = check_variants, one = check;
        const int64_t A = ABSENT;
        f.push_back(fam(AllWeights{with_loops(complete(2, 2), 1), {A, -2, -1, 0, 1, 3}}, var, 32));
        f.push_back(fam(AllWeights{complete(3, 3), {A, -1, 0, 1, 2}}, var, 128));
        f.push_back(fam(AllWeights{complete(4, 4), {A, 1, 2}}, one, 256));
        f.push_back(fam(AllWeights{complete(4, 1), {A, 0, 1, -2}}, one, 256));
        f.push_back(fam(AllWeights{complete(5, 0), {A, 1, 2}}, one, 256));
        f.push_back(fam(AllWeights{complete(5, 3), {1, 3}}, one, 256));
        f.push_back(fam(AllWeights{ring(6, 2), {1, 2, 0}}, one, 64));
        f.push_back(fam(AllWeights{triangles(2, true), {-1, 1, 2}}, one, 64));
        for (auto& t : {grid(3, 3, 1, true), petersen(true), mobius(8, true), triangles(3, true), cube(2, 2, 2, true), ring(9, 2),
                        wheel(7, true), complete(7, 2), grid(3, 4, 0, true)}) {
            f.push_back(fam(QuadWeights{t, th ? 11 : 5, 1}, one, 1));
            f.push_back(fam(QuadWeights{t, 5, -2}, one, 1));
        }
        for (auto& t : {grid(3, 3, 1, true), triangles(3, true), petersen(false)})
            f.push_back(fam(DevWeights{t, 2, th ? std::vector<int64_t>{-3, -1, 0, 1, 5} : std::vector<int64_t>{-1, 0, 5}}, one, 4));
        for (auto& b : huge_cases(true, 1, 3)) f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_edges(g, s, c, 64); }));
        for (int neg : {0, 4})
            for (auto& b : tree_cases(th ? 200 : 20, 3, neg))
                f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_edges(g, s, c, 100); }));
        for (auto& x : crowds(th, crowd_edges)) f.push_back(x);
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b)) {
                f.push_back(big("", bigcase(t, 5, t.n % 2, th ? 24 : 12, {5, 25, 50, 90}, th ? 100 : 1000, th ? 60 : 6, {1, 1000003}),
                                [](const G& g, const std::vector<Events>& s, Ctx& c) { big_edges(g, s, c, 64); }));
                f.push_back(big("", bigcase(t, 5, -1, th ? 24 : 12, {0, 5, 25, 50, 90}, th ? 100 : 1000, th ? 60 : 6, {1, 1000003}),
                                [](const G& g, const std::vector<Events>& s, Ctx& c) { big_edges(g, s, c, 100); }));
            }
        if (th) {
            f.push_back(fam(AllWeights{complete(4, 4), {A, 0, 1, -1}}, one, 512));
            f.push_back(fam(AllWeights{complete(5, 5), {1, 2}}, one, 256));
            f.push_back(fam(AllWeights{complete(6, 0), {1, 2}}, one, 256));
            for (auto& t : {grid(4, 4, 1, true), triangles(4, true), cube(2, 2, 3, true)}) f.push_back(fam(QuadWeights{t, 5, 0}, one, 1));
        }
        return f;
    });
}
