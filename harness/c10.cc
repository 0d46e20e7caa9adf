// C10: every sequence of edge insertions with every merge strategy gives the documented graph.
#include <map>

#include "graphs.h"
using namespace vx;

struct Op {
    int u, v;  // v == -1 boundary edge
    double w, p;
    std::vector<size_t> obs;
    pm::MERGE_STRATEGY st;
};
static const char* SN[] = {"disallow", "independent", "smallest-weight", "keep-original", "replace"};
static std::string ostr(const Op& o) {
    std::string s = o.v < 0 ? fmt("(%d,B", o.u) : fmt("(%d,%d", o.u, o.v);
    s += fmt(" w=%g p=%g obs{", o.w, o.p);
    for (auto x : o.obs) s += fmt("%d ", (int)x);
    return s + "} " + SN[o.st] + ")";
}
static bool valid_p(double p) { return p >= 0 && p <= 1; }
// Reference for the independent merge of two log-likelihood ratios.
static double merged_llr(double a, double b) {
    if (std::abs(a) < 25 && std::abs(b) < 25) {
        long double pa = 1 / (1 + expl((long double)a)), pb = 1 / (1 + expl((long double)b));
        long double p = pa * (1 - pb) + pb * (1 - pa), q = pa * pb + (1 - pa) * (1 - pb);
        return (double)logl(q / p);
    }
    // log((e^{a+b}+1)/(e^a+e^b)), both numerator and denominator in log space
    long double A = a, B = b;
    auto lse = [](long double x, long double y) {
        long double m = std::max(x, y), n = std::min(x, y);
        return m + log1pl(expl(n - m));
    };
    return (double)(lse(A + B, 0) - lse(A, B));
}
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

struct RefEdge {
    double w, p;
    std::vector<size_t> obs;
};
struct Ref {
    size_t n = 0, nobs = 0;
    std::map<std::pair<int, int>, RefEdge> e;
    bool apply(const Op& o) {  // returns false if it must be rejected
        std::pair<int, int> k = {std::max(o.u, o.v), std::min(o.u, o.v)};
        auto it = e.find(k);
        auto grow = [&](const std::vector<size_t>& ob) {
            for (auto x : ob) nobs = std::max(nobs, x + 1);
        };
        if (it == e.end()) {
            n = std::max(n, (size_t)k.first + 1);
            e[k] = {o.w, o.p, o.obs};
            grow(o.obs);
            return true;
        }
        auto& x = it->second;
        switch (o.st) {
            case pm::DISALLOW: return false;
            case pm::KEEP_ORIGINAL: return true;
            case pm::SMALLEST_WEIGHT:
                if (o.w >= x.w) return true;
                [[fallthrough]];
            case pm::REPLACE:
                x = {o.w, o.p, o.obs};
                grow(o.obs);
                return true;
            case pm::INDEPENDENT:
                x.w = merged_llr(x.w, o.w);
                x.p = valid_p(x.p) && valid_p(o.p) ? x.p * (1 - o.p) + o.p * (1 - x.p) : -1;
                return true;
        }
        return true;
    }
};
static void compare(pm::UserGraph& ug, const Ref& r, const std::function<std::string()>& hist) {
    auto bad = [&](const std::string& m) { fail(m + " after " + hist()); };
    if (ug.get_num_nodes() != r.n) bad(fmt("%d nodes instead of %d", (int)ug.get_num_nodes(), (int)r.n));
    if (ug.get_num_detectors() != r.n) bad("wrong number of detectors");
    if (ug.get_num_edges() != r.e.size()) bad(fmt("%d edges instead of %d", (int)ug.get_num_edges(), (int)r.e.size()));
    if (ug.get_num_observables() != r.nobs)
        bad(fmt("%d observables instead of %d", (int)ug.get_num_observables(), (int)r.nobs));
    bool allp = true;
    std::map<std::pair<int, int>, int> seen;
    for (auto& e : ug.edges) {
        int a = (int)e.node1, b = e.node2 == SIZE_MAX ? -1 : (int)e.node2;
        std::pair<int, int> k = {std::max(a, b), std::min(a, b)};
        auto it = r.e.find(k);
        if (it == r.e.end() || seen[k]++) bad(fmt("unexpected edge (%d,%d)", a, b));
        auto& x = it->second;
        if (!close(e.weight, x.w)) bad(fmt("edge (%d,%d) has weight %.12g instead of %.12g", a, b, e.weight, x.w));
        if (valid_p(x.p) != valid_p(e.error_probability) || (valid_p(x.p) && std::abs(x.p - e.error_probability) > 1e-12))
            bad(fmt("edge (%d,%d) has probability %.12g instead of %.12g", a, b, e.error_probability, x.p));
        auto o1 = e.observable_indices, o2 = x.obs;
        std::sort(o1.begin(), o1.end());
        std::sort(o2.begin(), o2.end());
        if (o1 != o2) bad(fmt("edge (%d,%d) has the wrong observables", a, b));
        allp = allp && valid_p(x.p);
    }
    double largest = 0;
    for (auto& x : r.e) largest = std::max(largest, std::abs(x.second.w));
    [&](auto& u) {
        if constexpr (requires { u.max_abs_weight(); })
            if (!close(u.max_abs_weight(), largest)) bad(fmt("largest weight %.12g reported instead of %.12g", u.max_abs_weight(), largest));
    }(ug);
    if (ug.all_edges_have_error_probabilities() != allp) bad("all_edges_have_error_probabilities is wrong");
    // pairs of nodes to ask about: all, or in very large graphs those near some of the nodes that have edges
    std::vector<int> ask;
    if (r.n <= 1000) {
        for (int a = 0; a <= (int)r.n; a++) ask.push_back(a);
    } else {
        std::set<int> s{(int)r.n, (int)r.n - 1, 0};
        size_t k = 0;
        for (auto& x : r.e)
            if (k++ % (1 + r.e.size() / 60) == 0)
                for (int d = -1; d <= 1; d++)
                    for (int y : {x.first.first, x.first.second})
                        if (y >= 0 && y + d >= 0 && y + d <= (int)r.n) s.insert(y + d);
        ask.assign(s.begin(), s.end());
    }
    for (int a : ask) {
        if (ug.has_boundary_edge(a) != (r.e.count({a, -1}) > 0)) bad(fmt("has_boundary_edge(%d) is wrong", a));
        for (int b : ask) {
            auto it = r.e.find({std::max(a, b), std::min(a, b)});
            if (ug.has_edge(a, b) != (it != r.e.end())) bad(fmt("has_edge(%d,%d) is wrong", a, b));
            double w = 12345;
            bool got = ug.get_edge_or_boundary_edge_weight(a, b, w);
            if (got != (it != r.e.end()) || (got && !close(w, it->second.w))) bad(fmt("weight query of (%d,%d) is wrong", a, b));
        }
        auto it = r.e.find({a, -1});
        double w = 0;
        bool got = ug.get_edge_or_boundary_edge_weight(a, SIZE_MAX, w);
        if (got != (it != r.e.end()) || (got && !close(w, it->second.w))) bad(fmt("weight query of (%d,B) is wrong", a));
    }
}
static void step(pm::UserGraph& ug, Ref& r, const Op& o, const std::function<std::string()>& hist) {
    bool threw = false;
    try {
        if (o.v < 0) ug.add_or_merge_boundary_edge(o.u, o.obs, o.w, o.p, o.st);
        else ug.add_or_merge_edge(o.u, o.v, o.obs, o.w, o.p, o.st);
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    bool ok = r.apply(o);
    if (threw == ok) fail(fmt("insertion was %s after ", threw ? "rejected" : "accepted") + hist());
}
struct Init {
    int kind;
    size_t n, obs;
};
static pm::UserGraph* mk(const Init& i, Ref& r) {
    r.n = i.n;
    r.nobs = i.obs;
    return i.kind == 0 ? new pm::UserGraph() : i.kind == 1 ? new pm::UserGraph(i.n) : new pm::UserGraph(i.n, i.obs);
}
static Family seqs(const std::string& name, const std::vector<Op>& ops, int len, const Init& init) {
    Family f;
    uint64_t A = ops.size();
    f.name = name + fmt(":L%d:init%d", len, init.kind);
    f.bound = fmt("every sequence of %d insertions from %d (edge, weight, probability, observables, strategy) operations, initial graph UserGraph(%s)", len,
                  (int)A, init.kind == 0 ? "" : init.kind == 1 ? fmt("%d", (int)init.n).c_str() : fmt("%d,%d", (int)init.n, (int)init.obs).c_str());
    f.n = ipow(A, len - 1);
    f.chunk = 1 + 20000 / A;
    auto dec = [=](uint64_t i) {
        std::vector<uint64_t> p;
        for (int k = 0; k < len - 1; k++) {
            p.push_back(i % A);
            i /= A;
        }
        return p;
    };
    f.describe = [=](uint64_t i) {
        std::string s;
        for (auto x : dec(i)) s += ostr(ops[x]) + " ";
        return s + "then each last operation";
    };
    f.run = [=](uint64_t i, Ctx& c) {
        auto p = dec(i);
        for (uint64_t last = 0; last < A; last++) {
            Ref r;
            std::unique_ptr<pm::UserGraph> ug(mk(init, r));
            std::function<std::string()> hist = [&]() {
                std::string s;
                for (auto x : p) s += ostr(ops[x]) + " ";
                return s + ostr(ops[last]);
            };
            for (auto x : p) step(*ug, r, ops[x], hist);
            step(*ug, r, ops[last], hist);
            compare(*ug, r, hist);
            c.states++;
            c.traces++;
            c.transitions += len;
            uint64_t h = r.n * 31 + r.nobs;
            for (auto& e : r.e) h = h * 1009 + (uint64_t)(e.second.w * 4096) + e.first.first * 7 + e.first.second;
            c.outcome(h);
        }
        c.note(fmt("%d final operations agree", (int)A));
    };
    return f;
}
static std::vector<Op> mkops(std::vector<std::pair<int, int>> es, std::vector<std::pair<double, double>> wps,
                             std::vector<std::vector<size_t>> obs, std::vector<pm::MERGE_STRATEGY> sts) {
    std::vector<Op> v;
    for (auto& e : es)
        for (auto& wp : wps)
            for (auto& o : obs)
                for (auto s : sts) v.push_back({e.first, e.second, wp.first, wp.second, o, s});
    return v;
}
// a sequence without a short period
static int64_t seq1009(int64_t s, int64_t k) {
    int64_t a = 1 + s * 211 % 1008, b = (s * 101 + s / 7) % 1009;
    return (a * (k % 1009) % 1009 * (k % 1009) + b * (k % 1009)) % 1009;
}
// Long scripts over many nodes.
static Family scripts(int count, int len, int nodes, int spread = 1, int ospread = 1) {
    Family f;
    f.name = fmt("scripts:n%d:L%d", nodes, len);
    f.bound = fmt("%d scripts of %d insertions over %d nodes and their boundary edges, all strategies, compared after every %d-th", count, len, nodes, len / 4);
    if (spread > 1) f.name += ":spread", f.bound += fmt("; node numbers are multiples of %d, observables of %d", spread, ospread);
    f.n = count;
    f.chunk = 1;
    f.case_limit_s = 120;
    f.describe = [=](uint64_t i) { return fmt("script %d", (int)i); };
    f.run = [=](uint64_t i, Ctx& c) {
        Ref r;
        std::unique_ptr<pm::UserGraph> ug(mk(Init{(int)i % 3, i % 3 ? (size_t)nodes / 2 : 0, i % 3 == 2 ? (size_t)40 : 0}, r));
        std::string last;
        std::function<std::string()> hist = [&]() { return "script " + last; };
        for (int k = 0; k < len; k++) {
            Op o;
            o.u = seq1009(i, k) % nodes;
            o.v = seq1009(i + 1, k) % 5 == 0 ? -1 : (o.u + seq1009(i + 2, k) % 4 * (k % 2 ? 1 : nodes - 1)) % nodes;
            o.u *= spread;
            if (o.v > 0) o.v *= spread;
            int q = seq1009(i + 3, k) % 9;
            o.p = q == 8 ? (k % 2 ? -1 : 1.5) : 0.02 + 0.1 * q;
            o.w = q == 8 ? (double)(seq1009(i + 4, k) % 11) - 3 : std::log((1 - o.p) / o.p);
            for (int j = 0; j < seq1009(i + 5, k) % 4; j++) o.obs.push_back((seq1009(i + 6, k) * (j + 1)) % (k % 50 == 49 ? 300 : 60) * ospread);
            std::sort(o.obs.begin(), o.obs.end());
            o.obs.erase(std::unique(o.obs.begin(), o.obs.end()), o.obs.end());
            o.st = (pm::MERGE_STRATEGY)(seq1009(i + 7, k) % 5);
            last = fmt("%d up to insertion %d ", (int)i, k) + ostr(o);
            step(*ug, r, o, hist);
            c.transitions++;
            if (k % (len / 4) == len / 4 - 1 || k == len - 1) {
                compare(*ug, r, hist);
                c.states++;
            }
        }
        c.outcome(r.e.size() * 1000 + r.nobs);
        c.traces++;
        c.note(fmt("%zu edges", r.e.size()));
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C10";
    o.assumptions = {"weights are finite; an edge without a valid probability is any probability outside [0,1]",
                     "the order and orientation in which edges are listed is not part of the property"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        std::vector<pm::MERGE_STRATEGY> all{pm::DISALLOW, pm::INDEPENDENT, pm::SMALLEST_WEIGHT, pm::KEEP_ORIGINAL, pm::REPLACE};
        double l1 = std::log(0.9 / 0.1), l2 = std::log(0.3 / 0.7), l3 = std::log(0.8 / 0.2);
        auto big = mkops({{0, 1}, {1, 0}, {0, -1}, {2, 0}, {1, 1}, {1, -1}},
                         {{l1, 0.1}, {l2, 0.7}, {l3, 0.2}, {2, -1}, {0, 0.5}, {-2, 1.5}, {3, 0}, {-3, 1}}, {{}, {0}, {3, 1}, {70}}, all);
        for (int k = 0; k < 3; k++) f.push_back(seqs("wide", big, 2, Init{k, k ? (size_t)2 : 0, k == 2 ? (size_t)5 : 0}));
        auto mid = mkops({{0, 1}, {1, 0}, {0, -1}}, {{l1, 0.1}, {l2, 0.7}, {2, -1}}, {{0}, {2}}, all);
        f.push_back(seqs("mid", mid, 3, Init{0, 0, 0}));
        f.push_back(seqs("mid", mid, 3, Init{2, 3, 1}));
        auto deep = mkops({{0, 1}, {1, 0}}, {{l1, 0.1}, {2, -1}}, {{0}, {1, 66}}, {pm::DISALLOW, pm::INDEPENDENT, pm::SMALLEST_WEIGHT, pm::REPLACE});
        f.push_back(seqs("deep", deep, 4, Init{0, 0, 0}));
        auto two = mkops({{0, 1}, {1, -1}, {1, 2}}, {{1, 0.25}, {-1, 2}}, {{1}}, all);
        f.push_back(seqs("several-edges", two, 4, Init{0, 0, 0}));
        if (th) {
            f.push_back(seqs("deep", deep, 5, Init{0, 0, 0}));
            f.push_back(seqs("several-edges", two, 5, Init{0, 0, 0}));
            auto t = mkops({{0, 1}, {1, 0}, {0, -1}, {1, 1}}, {{l1, 0.1}, {l2, 0.7}, {2, -1}, {0, 0.5}}, {{0}, {2, 70}}, all);
            f.push_back(seqs("wide3", t, 3, Init{0, 0, 0}));
        }
        f.push_back(scripts(th ? 300 : 60, 60, 6));
        f.push_back(scripts(th ? 300 : 60, 400, 30));
        f.push_back(scripts(th ? 60 : 12, 2000, 300));
        f.push_back(scripts(th ? 60 : 12, 400, 40, 1777, 1201));
        {
            // a node with 70000 neighbours: insertions that meet the first, middle and last of them again, from either end
            Family h;
            h.name = "hub";
            h.bound = "70000 edges from a hub to other nodes (added from the other end), then a second insertion at 9 of them from either end, all strategies";
            h.n = 5;
            h.chunk = 1;
            h.case_limit_s = 120;
            h.describe = [](uint64_t i) { return fmt("strategy %d", (int)i); };
            h.run = [](uint64_t i, Ctx& c) {
                Ref r;
                std::unique_ptr<pm::UserGraph> ug(mk(Init{0, 0, 0}, r));
                std::string last;
                std::function<std::string()> hist = [&]() { return "hub, " + last; };
                auto ins = [&](Op o) {
                    last = ostr(o);
                    step(*ug, r, o, hist);
                    c.transitions++;
                };
                for (int k = 1; k <= 70000; k++) ins({k, 0, 1.0 + k % 7, 0.1, {(size_t)(k % 5)}, pm::DISALLOW});
                ins({0, -1, 2, 0.1, {6}, pm::DISALLOW});
                for (int k : {1, 255, 256, 257, 32768, 65535, 65536, 65537, 70000})
                    for (int e = 0; e < 2; e++) ins({e ? 0 : k, e ? k : 0, 2.5, 0.2, {7}, (pm::MERGE_STRATEGY)i});
                ins({0, -1, 1, 0.3, {8}, (pm::MERGE_STRATEGY)i});
                compare(*ug, r, hist);
                c.states++;
                c.traces++;
                c.outcome(r.e.size());
            };
            f.push_back(h);
        }
        // every pair of weights on a grid for the independent merge, including very large ones
        Family m;
        m.name = "independent-weights";
        std::vector<double> ws;
        for (double x : {0.0, 1e-9, 1e-3, 0.1, 0.5, 1.0, 2.0, 3.5, 7.0, 12.0, 20.0, 24.0, 30.0, 36.0, 40.0, 100.0, 700.0, 745.0, 1000.0, 1e4, 1e6, 16777215.0}) {
            ws.push_back(x);
            if (x != 0) ws.push_back(-x);
        }
        m.bound = fmt("independent merge of every pair of %d weights from -(2^24-1) to 2^24-1, as edge and as boundary edge", (int)ws.size());
        m.n = ws.size() * ws.size();
        m.chunk = 64;
        m.describe = [ws](uint64_t i) { return fmt("merge %g with %g", ws[i % ws.size()], ws[i / ws.size()]); };
        m.run = [ws](uint64_t i, Ctx& c) {
            double a = ws[i % ws.size()], b = ws[i / ws.size()], want = merged_llr(a, b);
            for (int k = 0; k < 2; k++) {
                pm::UserGraph ug(2);
                if (k) {
                    ug.add_or_merge_edge(0, 1, {0}, a, 0.1, pm::INDEPENDENT);
                    ug.add_or_merge_edge(1, 0, {0}, b, 0.1, pm::INDEPENDENT);
                } else {
                    ug.add_or_merge_boundary_edge(1, {0}, a, 0.1, pm::INDEPENDENT);
                    ug.add_or_merge_boundary_edge(1, {0}, b, 0.1, pm::INDEPENDENT);
                }
                double got = ug.edges.front().weight;
                if (!(std::abs(got - want) <= 1e-6 * std::max(1.0, std::abs(want)) || close(got, want)))
                    fail(fmt("independent merge of weights %.12g and %.12g gave %.12g instead of %.12g", a, b, got, want));
                c.states++;
                c.transitions += 2;
            }
            c.traces++;
            c.outcome((uint64_t)(int64_t)(want * 1000));
            c.note(fmt("-> %.9g", want));
        };
        f.push_back(m);
        return f;
    });
}
