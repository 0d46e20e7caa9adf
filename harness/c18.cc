// C18: shortest-path queries, all graphs of the families, all pairs of end points, all boundary sets, all pairs of queries.
#include "big.h"
using namespace vx;

static const int B = -1;
// Reference: nodes flagged in bmask are the boundary; distances between detectors (not through the boundary), and to the boundary.
struct RefPath {
    int n;
    uint32_t bmask;
    std::vector<std::vector<int64_t>> adj;  // lightest edge between two detectors
    std::vector<int64_t> bnd;               // lightest edge to the boundary
    std::vector<std::vector<int64_t>> d;
    RefPath(const G& g, uint32_t bm) : n(g.n), bmask(bm), adj(n, std::vector<int64_t>(n, INF)), bnd(n, INF) {
        auto isb = [&](int v) { return v < 0 || (bm >> v & 1); };
        for (auto& e : g.e) {
            if (isb(e.u) && isb(e.v)) continue;
            if (isb(e.v)) bnd[e.u] = std::min(bnd[e.u], e.w);
            else if (isb(e.u)) bnd[e.v] = std::min(bnd[e.v], e.w);
            else if (e.u != e.v) adj[e.u][e.v] = adj[e.v][e.u] = e.w;
        }
        d = adj;
        for (int i = 0; i < n; i++) d[i][i] = 0;
        for (int k = 0; k < n; k++)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    }
    bool isb(int v) const { return v < 0 || (bmask >> v & 1); }
    int64_t to_boundary(int i) const {
        int64_t r = INF;
        for (int j = 0; j < n; j++)
            if (!isb(j) && d[i][j] < INF && bnd[j] < INF) r = std::min(r, d[i][j] + bnd[j]);
        return r;
    }
    int64_t dist(int a, int b) const { return isb(b) ? to_boundary(a) : isb(a) ? to_boundary(b) : d[a][b]; }
};
static std::string q_str(int a, int b) { return fmt("path %d->%d", a, b); }
// Returns a description of the result, after judging it.
static std::string query(pm::UserGraph& ug, const G& g, const RefPath& r, int a, int b) {
    auto where = [&]() { return q_str(a, b) + fmt(" on %s with boundary nodes %s", g.str().c_str(), synd_str(r.bmask).c_str()); };
    std::vector<size_t> out;
    bool threw = false;
    try {
        ug.get_nodes_on_shortest_path_from_source(a < 0 ? SIZE_MAX : a, b < 0 ? SIZE_MAX : b, out);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    bool known = a < g.n && b < g.n;
    int64_t want = known && !(r.isb(a) && r.isb(b)) ? r.dist(a, b) : INF;
    if (want >= INF) {
        if (!threw) fail("request without an answer was not rejected: " + where());
        return "rejected";
    }
    if (threw) fail("existing path was rejected: " + where());
    if (out.empty()) fail("empty path: " + where());
    std::string s;
    for (auto x : out) s += fmt("%d ", (int)x);
    int64_t w = 0;
    for (size_t k = 0; k < out.size(); k++) {
        if (out[k] >= (size_t)g.n || r.isb((int)out[k])) fail("path visits a node that is no detector: " + s + where());
        if (k) {
            if (r.adj[out[k - 1]][out[k]] >= INF) fail("path " + s + "uses a non-edge: " + where());
            w += r.adj[out[k - 1]][out[k]];
        }
    }
    size_t first = out.front(), last = out.back();
    if (r.isb(a)) {
        if (r.bnd[first] >= INF) fail("path " + s + "does not start at the boundary: " + where());
        w += r.bnd[first];
    } else if (first != (size_t)a) fail("path " + s + "does not start at the source: " + where());
    if (r.isb(b)) {
        if (r.bnd[last] >= INF) fail("path " + s + "does not end at the boundary: " + where());
        w += r.bnd[last];
    } else if (last != (size_t)b) fail("path " + s + "does not end at the target: " + where());
    if (w != want) fail(fmt("path %shas weight %lld but the shortest has %lld: ", s.c_str(), (long long)w, (long long)want) + where());
    return s;
}
// The edge iterators of the search graph itself.
static void iterators(pm::UserGraph& ug, const G& g, const RefPath& r, int a, int b) {
    auto& m = ug.get_mwpm_with_search_graph();
    auto where = [&]() { return q_str(a, b) + fmt(" on %s with boundary nodes %s", g.str().c_str(), synd_str(r.bmask).c_str()); };
    auto* base = &m.search_flooder.graph.nodes[0];
    for (int k = 0; k < 2; k++) {
        int64_t w = 0;
        std::vector<int> deg(g.n, 0);
        int bdeg = 0;
        int cur = a;
        auto h = [&](const pm::SearchGraphEdge& e) {
            int x = (int)(e.detector_node - base);
            auto* nb = e.detector_node->neighbors[e.neighbor_index];
            int y = nb ? (int)(nb - base) : B;
            int64_t ew = y < 0 ? r.bnd[x] : r.adj[x][y];
            if (ew >= INF) fail("edge iterator visits a non-edge: " + where());
            w += ew;
            deg[x] ^= 1;
            if (y < 0) bdeg ^= 1;
            else deg[y] ^= 1;
            if (k == 0) {
                if (x != cur) fail(fmt("edges out of order (at %d, expected %d): ", x, cur) + where());
                cur = y;
            }
        };
        if (k == 0) m.search_flooder.iter_edges_on_shortest_path_from_source(a, b < 0 ? SIZE_MAX : b, h);
        else m.search_flooder.iter_edges_on_shortest_path_from_middle(a, b < 0 ? SIZE_MAX : b, h);
        if (k == 0 && cur != b) fail("edges do not end at the target: " + where());
        deg[a] ^= 1;
        if (b < 0) bdeg ^= 1;
        else deg[b] ^= 1;
        for (auto x : deg)
            if (x) fail("edges do not connect the end points: " + where());
        if (bdeg) fail("edges do not connect the end points: " + where());
        if (w != r.dist(a, b)) fail(fmt("edges weigh %lld but the shortest path weighs %lld: ", (long long)w, (long long)r.dist(a, b)) + where());
    }
}
static void check(const G& g, uint32_t bm, Ctx& c) {
    RefPath r(g, bm);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    if (bm) {
        std::set<size_t> s;
        for (auto x : events_of(bm)) s.insert(x);
        ug.set_boundary(s);
    }
    c.traces++;
    for (int a = -1; a <= g.n; a++)
        for (int b = -1; b <= g.n; b++) {
            std::string x = query(ug, g, r, a, b);
            c.states++;
            c.transitions++;
            c.outcome(std::hash<std::string>()(x));
            c.note(q_str(a, b) + ": " + x);
            if (a >= 0 && a < g.n && !r.isb(a) && a != b && b < g.n && (b < 0 || !r.isb(b)) && r.dist(a, b) < INF) {
                iterators(ug, g, r, a, b);
                c.transitions += 2;
            }
        }
}
// Large graphs: pairs of end points, evenly spaced among all pairs.
static void check_big(const G& g, Ctx& c, int stride) {
    RefPath r(g, 0);
    pm::UserGraph ug(g.n, g.e.size());
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k});
    c.traces++;
    int64_t n = 0;
    for (int a = -1; a <= g.n; a++)
        for (int b = -1; b <= g.n; b++) {
            if (n++ % stride && a != 0 && b != g.n - 1) continue;
            std::string x = query(ug, g, r, a, b);
            c.states++;
            c.transitions++;
            c.outcome(std::hash<std::string>()(x));
            if (a >= 0 && a < g.n && a != b && b < g.n && r.dist(a, b) < INF) {
                iterators(ug, g, r, a, b);
                c.transitions += 2;
            }
        }
    c.note("all paths are shortest");
}
// Tens of thousands of nodes: all ordered pairs of some end points, judged by a search of their own.
static void check_huge(const G& g, const std::vector<Events>&, Ctx& c) {
    pm::UserGraph ug(g.n, 64);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % 64});
    auto adj = adjacency(g);
    std::map<std::pair<int, int>, int64_t> w;
    for (auto& e : g.e) w[{e.u, e.v < 0 ? g.n : e.v}] = w[{e.v < 0 ? g.n : e.v, e.u}] = e.w;
    std::vector<int> ends{0, 1, g.n / 3, g.n / 2, g.n / 2 + 1, 255, 256, g.n - 2, g.n - 1, g.n, g.n + 1};
    if (g.n > 65540) for (int x : {65535, 65536, 65537}) ends.push_back(x);
    std::vector<int64_t> d(g.n + 1, INF);
    c.traces++;
    // g.n stands for the boundary, g.n + 1 for a node that does not exist
    for (int a : ends)
        for (int b : ends) {
            std::string where = fmt("path %d->%d of %d nodes", a, b, g.n);
            std::vector<size_t> out;
            bool threw = false;
            try {
                ug.get_nodes_on_shortest_path_from_source(a == g.n ? SIZE_MAX : a, b == g.n ? SIZE_MAX : b, out);
            } catch (const std::invalid_argument&) {
                threw = true;
            }
            c.states++;
            c.transitions++;
            int64_t want = a > g.n || b > g.n || (a == g.n && b == g.n) ? INF : a == g.n ? distance(adj, d, b, a) : distance(adj, d, a, b);
            if (threw != (want >= INF)) fail((threw ? "an existing path was rejected: " : "request without an answer was not rejected: ") + where);
            c.outcome(want);
            if (threw) continue;
            std::vector<int> p;
            if (a == g.n) p.push_back(a);
            for (auto x : out) p.push_back((int)x);
            if (b == g.n) p.push_back(b);
            if (p.front() != a || p.back() != b) fail("wrong end points: " + where);
            int64_t sum = 0;
            for (size_t k = 1; k < p.size(); k++) {
                auto it = w.find({p[k - 1], p[k]});
                if (it == w.end()) fail("the path uses a non-edge: " + where);
                sum += it->second;
            }
            if (sum != want) fail(fmt("the path has weight %lld but the shortest has %lld: ", (long long)sum, (long long)want) + where);
        }
    c.note(fmt("%zu end points", ends.size()));
}
static void check0(const G& g, Ctx& c) { check(g, 0, c); }
static void check_all_boundaries(const G& g, Ctx& c) {
    for (uint32_t bm = 0; bm < (1u << g.n); bm++) check(g, bm, c);
}
// every ordered pair of queries: the second answers as on a fresh graph
static void check_pairs(const G& g, Ctx& c) {
    RefPath r(g, 0);
    std::vector<std::pair<int, int>> qs;
    for (int a = -1; a <= g.n; a++)
        for (int b = -1; b <= g.n; b++) qs.push_back({a, b});
    std::vector<std::string> fresh;
    for (auto& q : qs) {
        pm::UserGraph ug(g.n, g.e.size());
        fill(ug, g);
        fresh.push_back(query(ug, g, r, q.first, q.second));
    }
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    for (size_t i = 0; i < qs.size(); i++)
        for (size_t j = 0; j < qs.size(); j++) {
            query(ug, g, r, qs[i].first, qs[i].second);
            auto x = query(ug, g, r, qs[j].first, qs[j].second);
            c.transitions += 2;
            c.states++;
            if (x != fresh[j])
                fail(fmt("%s gave %s after %s but %s on a fresh graph (%s)", q_str(qs[j].first, qs[j].second).c_str(), x.c_str(),
                         q_str(qs[i].first, qs[i].second).c_str(), fresh[j].c_str(), g.str().c_str()));
        }
    c.traces++;
    c.note("all ordered pairs of queries agree");
}
// A query in one part of a graph, k queries elsewhere, again the first part: every k up to 700 and near 2^15 and 2^16.
static Family gaps(int near) {
    Family f;
    f.name = "gaps";
    f.bound = fmt("on a graph of two components: a query in the first, k queries in the second, a query in the first, for every k up to 700 and within %d of 32768 and 65536, 12 weightings", near);
    f.n = 12 * 17;
    f.chunk = 1;
    f.case_limit_s = 120;
    f.describe = [](uint64_t i) { return fmt("weighting %d, gaps %d", (int)(i / 17), (int)(i % 17)); };
    f.run = [near](uint64_t i, Ctx& c) {
        int s = i / 17, p = i % 17;
        auto w = [&](int k) { return (int64_t)(1 + (k * k + s * k + s) % 5); };
        G g{9, {{0, 1, w(0)}, {1, 2, w(1)}, {2, 3, w(2)}, {0, 3, w(3)}, {1, 3, w(4)}, {0, -1, w(5)}, {4, 5, w(6)}, {5, 6, w(7)}, {4, 6, w(8)}, {6, 7, w(9)}, {7, 8, w(10)}, {8, -1, w(11)}}};
        RefPath r(g, 0);
        pm::UserGraph ug(g.n, g.e.size());
        for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k});
        std::vector<uint64_t> ks;
        if (p == 0) {
            for (uint64_t k = 0; k <= 700; k++) ks.push_back(k);
        } else
            for (int d = -near; d <= near; d++)
                if ((d + near) % 8 == (p - 1) % 8) ks.push_back((p <= 8 ? 32768 : 65536) + d);
        static const int first[][2] = {{0, 2}, {2, 0}, {1, 3}, {3, 1}, {0, -1}, {2, -1}, {-1, 3}}, second[][2] = {{4, 8}, {5, 7}, {4, 6}, {8, 5}, {7, -1}, {-1, 8}};
        uint64_t a = 0, b = 0;
        for (auto k : ks) {
            auto& q = first[a++ % 7];
            query(ug, g, r, q[0], q[1]);
            for (uint64_t x = 0; x < k; x++) {
                auto& z = second[b++ % 6];
                query(ug, g, r, z[0], z[1]);
            }
            c.transitions += k + 1;
            c.states++;
            c.traces++;
        }
        query(ug, g, r, first[a % 7][0], first[a % 7][1]);
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C18";
    o.assumptions = {"non-negative weights; a path from or to the boundary lists the detectors on it; a node's path to itself is that node"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT;
        auto named = [&](Family x, const char* p) {
            x.name = std::string(p) + x.name;
            x.bound += " -> here: every pair of end points (" + std::string(p) + ")";
            f.push_back(x);
        };
        GraphFn z = check0, ab = check_all_boundaries, pr = check_pairs;
        named(fam(AllWeights{complete(3, 3), {A, 0, 1, 2, 5}}, z, 64), "paths:");
        named(fam(AllWeights{complete(4, 4), {A, 1, 3}}, z, 256), "paths:");
        named(fam(AllWeights{complete(4, 2), {A, 0, 1, 4}}, z, 256), "paths:");
        named(fam(AllWeights{complete(5, 2), {A, 1}}, z, 64), "paths:");
        named(fam(AllWeights{ring(6, 2), {1, 2, 4}}, z, 64), "paths:");
        named(fam(AllWeights{complete(3, 3), {A, 1, 2, 4}}, ab, 64), "paths+every-boundary-set:");
        named(fam(AllWeights{complete(4, 1), {A, 1, 3}}, ab, 64), "paths+every-boundary-set:");
        named(fam(AllWeights{complete(3, 2), {A, 1, 2}}, pr, 8), "query-pairs:");
        for (auto& t : {grid(3, 3, 1, true), petersen(true), mobius(8, true), triangles(3, true), cube(2, 2, 2, true), ring(9, 2), wheel(7, true),
                        grid(3, 4, 0, true), complete(7, 2)})
            named(fam(QuadWeights{t, th ? 13 : 9, 0}, z, 8), "paths:");
        for (auto& t : {grid(3, 3, 1, true), mobius(6, true)}) named(fam(QuadWeights{t, 5, 0}, ab, 1), "paths+every-boundary-set:");
        for (auto& t : {petersen(true), triangles(2, true)}) named(fam(QuadWeights{t, 3, 1}, pr, 1), "query-pairs:");
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b))
                f.push_back(big("", bigcase(t, 6, 0, 0, {}, 0, th ? 8 : 2, {1, 1000003}), [th](const G& g, const std::vector<Events>&, Ctx& c) { check_big(g, c, th ? 3 : 37); }));
        for (int b = 0; b < 2; b++)
            for (auto& x : huge_cases(b, b, 4)) {
                x.synd.clear();
                if (x.cls.empty()) x.scales = {1, 4000003};  // distances beyond 2^32
                x.synd_bound = "not used: instead every ordered pair of 11 to 14 end points near the ends, the middle, 256 and 65536";
                f.push_back(big("huge-", x, check_huge));
            }
        f.push_back(gaps(th ? 20 : 4));
        if (th) {
            named(fam(AllWeights{complete(5, 2), {A, 1, 3}}, z, 512), "paths:");
            named(fam(AllWeights{complete(4, 4), {A, 0, 1, 3}}, z, 512), "paths:");
            named(fam(AllWeights{complete(4, 4), {A, 1, 2}}, ab, 64), "paths+every-boundary-set:");
            for (auto& t : {grid(4, 5, 1, true), cube(3, 3, 3, true)}) named(fam(QuadWeights{t, 11, 0}, z, 4), "paths:");
        }
        return f;
    });
}
