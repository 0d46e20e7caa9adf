// C06: matched detection events form a minimum-distance perfect pairing.
#include "big.h"
using namespace vx;

static void check(const G& g, Ctx& c) {
    auto best = oracle(g);
    bool neg = false;
    for (auto& x : g.e) neg |= x.w < 0;
    // shortest distances; the boundary is node n but paths do not pass through it
    std::vector<std::vector<int64_t>> d(g.n, std::vector<int64_t>(g.n + 1, INF));
    for (int i = 0; i < g.n; i++) d[i][i] = 0;
    std::vector<int64_t> b(g.n, INF);
    for (auto& x : g.e) {
        if (x.v < 0)
            b[x.u] = std::min(b[x.u], x.w);
        else {
            d[x.u][x.v] = std::min(d[x.u][x.v], x.w);
            d[x.v][x.u] = std::min(d[x.v][x.u], x.w);
        }
    }
    for (int k = 0; k < g.n; k++)
        for (int i = 0; i < g.n; i++)
            for (int j = 0; j < g.n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    for (int i = 0; i < g.n; i++)
        for (int j = 0; j < g.n; j++) d[i][g.n] = std::min(d[i][g.n], d[i][j] + b[j]);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        DecM m = decode_match(mwpm, events_of(s));
        c.transitions++;
        c.states++;
        if (neg) {
            if (!m.threw) fail(fmt("graph with negative weights not rejected for %s (%s)", synd_str(s).c_str(), g.str().c_str()));
            c.outcome(1);
            continue;
        }
        auto where = [&] { return fmt("%s matched as %s (%s)", synd_str(s).c_str(), pairs_str(m.pairs).c_str(), g.str().c_str()); };
        if (m.threw) fail(fmt("rejected: %s: ", m.err.c_str()) + where());
        uint64_t seen = 0;
        int64_t total = 0;
        for (auto& p : m.pairs) {
            if (p.first < 0 || p.first >= g.n || p.second < -1 || p.second >= g.n) fail("pair outside the graph: " + where());
            uint64_t bits = (1ull << p.first) | (p.second >= 0 ? 1ull << p.second : 0);
            if ((seen & bits) || p.first == p.second) fail("a detection event is matched twice: " + where());
            seen |= bits;
            int64_t dd = d[p.first][p.second < 0 ? g.n : p.second];
            if (dd >= INF) fail("unconnected events are matched: " + where());
            total += dd;
        }
        if (seen != s) fail("matched events differ from the fired detectors: " + where());
        if (total != best[s])
            fail(fmt("pair distances sum to %lld but the minimum is %lld: ", (long long)total, (long long)best[s]) + where());
        uint64_t h = 7;
        for (auto& p : canon(m.pairs)) h = h * 131 + p.first * 17 + p.second + 1;
        c.outcome(h);
        c.note(fmt("%s->%s", synd_str(s).c_str(), pairs_str(m.pairs).c_str()));
        // the pairing must be consistent with an ordinary decode of the same syndrome made right afterwards
        Dec o = decode(mwpm, events_of(s), g.e.size());
        require_optimal(g, o, s, best[s], "decode after matching");
        c.transitions++;
    }
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C06";
    o.assumptions = {"at most one edge per node pair; boundary is virtual"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        GraphFn one = check;
        const int64_t A = ABSENT;
        f.push_back(fam(AllWeights{complete(2, 2), {A, -1, 0, 1, 3}}, one, 16));
        f.push_back(fam(AllWeights{complete(3, 3), {A, 0, 1, 2, 3}}, one, 128));
        f.push_back(fam(AllWeights{complete(4, 4), {A, 1, 2}}, one, 256));
        f.push_back(fam(AllWeights{complete(4, 1), {A, 0, 1, 3}}, one, 256));
        f.push_back(fam(AllWeights{complete(5, 0), {A, 1, 2}}, one, 256));
        f.push_back(fam(AllWeights{complete(5, 3), {1, 3}}, one, 256));
        f.push_back(fam(AllWeights{ring(6, 2), {1, 2, 0}}, one, 64));
        f.push_back(fam(AllWeights{triangles(2, true), {1, 2, 3}}, one, 64));
        for (auto& t : {grid(3, 3, 1, true), petersen(true), mobius(8, true), triangles(3, true), cube(2, 2, 2, true), ring(9, 2),
                        wheel(7, true), complete(7, 2), grid(3, 4, 0, true), complete(8, 0), ring(11, 1)}) {
            f.push_back(fam(QuadWeights{t, th ? 11 : 7, 1}, one, 1));
            f.push_back(fam(QuadWeights{t, 4, 0}, one, 1));
        }
        for (auto& t : {grid(3, 3, 1, true), triangles(3, true), petersen(false)})
            f.push_back(fam(DevWeights{t, 2, th ? std::vector<int64_t>{0, 1, 3, 7} : std::vector<int64_t>{1, 5}}, one, 4));
        for (auto& b : huge_cases(true, 1, 3)) f.push_back(big("", b, big_pairs));
        for (auto& b : tree_cases(th ? 200 : 20, 3)) f.push_back(big("", b, big_pairs));
        for (auto& x : crowds(th, crowd_pairs)) f.push_back(x);
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b))
                f.push_back(big("", bigcase(t, 5, t.n % 2, th ? 24 : 12, {0, 5, 25, 50, 90}, th ? 100 : 1000, th ? 60 : 6, {1, 1000003}), big_pairs));
        if (th) {
            f.push_back(fam(AllWeights{complete(4, 4), {A, 0, 1, 2}}, one, 512));
            f.push_back(fam(AllWeights{complete(5, 5), {1, 2}}, one, 256));
            f.push_back(fam(AllWeights{complete(6, 0), {1, 2}}, one, 256));
            for (auto& t : {grid(4, 4, 1, true), triangles(5, true), cube(2, 3, 3, true)}) f.push_back(fam(QuadWeights{t, 4, 1}, one, 1));
        }
        return f;
    });
}
