// C12: detector error models are loaded faithfully.
#include "dem.h"
using namespace vx;

// One line of a model; flattening is done here by hand so that the reference does not share code with the loader.
struct Line {
    std::string text;
    // appends flattened errors given the current detector offset, updates offset and counts
    std::function<void(std::vector<Err>&, int& offset, int& ndet, int& nobs)> apply;
};
static Line error_line(double p, std::vector<Comp> comps) {
    Err e{p, comps};
    return {err_text(e), [e](std::vector<Err>& out, int& off, int& nd, int& no) {
                Err x = e;
                for (auto& c : x.comps) {
                    for (auto& d : c.dets) {
                        d += off;
                        nd = std::max(nd, d + 1);
                    }
                    for (auto& o : c.obs) no = std::max(no, o + 1);
                }
                out.push_back(x);
            }};
}
static std::vector<Line> alphabet(bool th) {
    std::vector<Line> a;
    std::vector<std::vector<Comp>> shapes = {
        {{{0}, {}}},
        {{{0}, {1}}},
        {{{1}, {0, 2}}},
        {{{0, 1}, {}}},
        {{{1, 0}, {0}}},
        {{{0, 1}, {1, 0}}},
        {{{1, 2}, {3}}},
        {{{0}, {}}, {{1}, {}}},
        {{{0, 1}, {0}}, {{2}, {1}}},
        {{{2, 1}, {}}, {{0, 1}, {2}}},
        {{{0}, {0}}, {{1, 2}, {}}, {{3}, {0}}},
        {{{0, 1}, {}}, {{0}, {1}}},
        {{{}, {0}}},
        {{{0, 1, 2}, {0}}},
        {{{0, 1, 2}, {}}, {{3}, {}}},
        {{{0}, {}}, {{}, {1}}},
        {{{0, 3}, {70}}},
        {{{}, {1}}, {{0}, {}}},
        {{{0, 1}, {}}, {{}, {0}}, {{2}, {2}}},
    };
    for (auto& s : shapes) {
        a.push_back(error_line(0.1, s));
        a.push_back(error_line(0.3, s));
    }
    for (size_t k : {0u, 3u, 7u, 8u, 13u}) a.push_back(error_line(0, shapes[k]));
    a.push_back(error_line(0.5, shapes[3]));
    a.push_back(error_line(0.5, shapes[8]));
    a.push_back(error_line(0.9, shapes[3]));
    a.push_back(error_line(0.7, shapes[0]));
    a.push_back({"detector D5", [](std::vector<Err>&, int& off, int& nd, int&) { nd = std::max(nd, off + 6); }});
    a.push_back({"detector(1, 2.5) D1", [](std::vector<Err>&, int& off, int& nd, int&) { nd = std::max(nd, off + 2); }});
    a.push_back({"logical_observable L4", [](std::vector<Err>&, int&, int&, int& no) { no = std::max(no, 5); }});
    a.push_back({"shift_detectors 2", [](std::vector<Err>&, int& off, int&, int&) { off += 2; }});
    auto rep = [&](int n, const Line& body, int shift) {
        a.push_back({fmt("repeat %d {\n %s\n shift_detectors %d\n}", n, body.text.c_str(), shift),
                     [n, body, shift](std::vector<Err>& out, int& off, int& nd, int& no) {
                         for (int i = 0; i < n; i++) {
                             body.apply(out, off, nd, no);
                             off += shift;
                         }
                     }});
    };
    rep(2, error_line(0.2, shapes[3]), 1);
    rep(3, error_line(0.1, shapes[8]), 0);
    rep(2, error_line(0.05, shapes[0]), 2);
    if (th) {
        for (auto& s : shapes) a.push_back(error_line(0.02, s));
    }
    return a;
}
static void check(const std::vector<const Line*>& lines, Ctx& c) {
    std::string text;
    std::vector<Err> errs;
    int off = 0, nd = 0, no = 0;
    for (auto* l : lines) {
        text += l->text + "\n";
        l->apply(errs, off, nd, no);
    }
    stim::DetectorErrorModel dem(text.c_str());
    for (int corr = 0; corr < 2; corr++) {
        RefModel ref = reference(errs, corr);
        c.transitions++;
        c.states++;
        std::string what = fmt("loading with correlations=%d:\n%s", corr, text.c_str());
        bool threw = false;
        pm::UserGraph ug;
        try {
            ug = pm::detector_error_model_to_user_graph(dem, corr, pm::NUM_DISTINCT_WEIGHTS);
        } catch (const std::invalid_argument& e) {
            threw = true;
        }
        if (threw != ref.rejected) fail(fmt("%s: %s", threw ? "rejected" : "accepted", what.c_str()));
        if (threw) {
            c.outcome(99);
            continue;
        }
        if ((int)ug.get_num_nodes() != nd) fail(fmt("%zu nodes, expected %d: ", ug.get_num_nodes(), nd) + what);
        if ((int)ug.get_num_observables() != no) fail(fmt("%zu observables, expected %d: ", ug.get_num_observables(), no) + what);
        if (ug.get_num_edges() != ref.edges.size()) fail(fmt("%zu edges, expected %zu: ", ug.get_num_edges(), ref.edges.size()) + what);
        if (!ug.boundary_nodes.empty()) fail("unexpected boundary nodes: " + what);
        std::set<EdgeKey> seen;
        uint64_t h = nd * 7 + no;
        for (auto& e : ug.edges) {
            EdgeKey k = e.node2 == SIZE_MAX ? EdgeKey{(int)e.node1, -1}
                                            : EdgeKey{(int)std::min(e.node1, e.node2), (int)std::max(e.node1, e.node2)};
            auto it = ref.edges.find(k);
            if (it == ref.edges.end() || !seen.insert(k).second) fail(fmt("unexpected or repeated edge (%d,%d): ", k.first, k.second) + what);
            auto& r = it->second;
            auto near = [](double a, double b) { return std::abs(a - b) <= 1e-9 * std::max(1.0, std::abs(b)); };
            if (!near(e.error_probability, r.p)) fail(fmt("edge (%d,%d) has probability %.17g, expected %.17g: ", k.first, k.second, e.error_probability, r.p) + what);
            if (!near(e.weight, llr(r.p))) fail(fmt("edge (%d,%d) has weight %.17g, expected %.17g: ", k.first, k.second, e.weight, llr(r.p)) + what);
            std::set<int> obs(e.observable_indices.begin(), e.observable_indices.end());
            if (obs != r.obs || obs.size() != e.observable_indices.size()) fail(fmt("edge (%d,%d) has wrong observables: ", k.first, k.second) + what);
            std::map<EdgeKey, double> imp;
            for (auto& w : e.implied_weights_for_other_edges) {
                EdgeKey q = w.node2 == SIZE_MAX ? EdgeKey{(int)w.node1, -1}
                                                : EdgeKey{(int)std::min(w.node1, w.node2), (int)std::max(w.node1, w.node2)};
                if (imp.count(q)) fail("repeated implied weight: " + what);
                imp[q] = w.implied_weight;
            }
            if (imp.size() != r.implied.size()) fail(fmt("edge (%d,%d) has %zu implied weights, expected %zu: ", k.first, k.second, imp.size(), r.implied.size()) + what);
            for (auto& x : r.implied) {
                if (!imp.count(x.first)) fail(fmt("edge (%d,%d) lacks the implied weight of (%d,%d): ", k.first, k.second, x.first.first, x.first.second) + what);
                if (!near(imp[x.first], x.second))
                    fail(fmt("edge (%d,%d) implies weight %.17g of (%d,%d), expected %.17g: ", k.first, k.second, imp[x.first], x.first.first, x.first.second, x.second) + what);
            }
            h = h * 31 + (uint64_t)(e.weight * 1e6) + obs.size() + imp.size() * 7;
            double wq;
            if (!ug.get_edge_or_boundary_edge_weight(k.first, k.second < 0 ? SIZE_MAX : k.second, wq) || wq != e.weight)
                fail("edge weight lookup disagrees with the edge: " + what);
        }
        // the decoder built from the same model has the model's sizes
        auto mwpm = pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, true, corr);
        c.transitions++;
        if ((int)mwpm.flooder.graph.nodes.size() != nd || (int)mwpm.flooder.graph.num_observables != no) fail("decoder sizes differ from the model: " + what);
        c.traces++;
        c.outcome(h);
    }
}
// a sequence without a short period
static int64_t seq1009(int64_t s, int64_t k) {
    int64_t a = 1 + s * 211 % 1008, b = (s * 101 + s / 7) % 1009;
    return (a * (k % 1009) % 1009 * (k % 1009) + b * (k % 1009)) % 1009;
}
// Models of hundreds of errors over many detectors, with repeats and shifts.
static std::vector<Line> big_lines(int s, int len, int dspread = 1, int ospread = 1) {
    std::vector<Line> out;
    for (int k = 0; k < len; k++) {
        int64_t r = seq1009(s, k);
        auto det = [&](int j) { return (int)(seq1009(s + 10 + j, k) % 40) * dspread; };
        std::vector<Comp> cs;
        std::set<EdgeKey> used;
        int n = 1 + seq1009(s + 1, k) % 4;
        for (int j = 0; j < n; j++) {
            Comp c;
            int a = det(2 * j), b = det(2 * j + 1);
            c.dets.push_back(a);
            if (b != a && (r + j) % 4) c.dets.push_back(b);
            if (!used.insert(key_of(c)).second) continue;
            std::set<int> obs;
            for (int q = 0; q < seq1009(s + 30 + j, k) % 3; q++) obs.insert(seq1009(s + 31 + j + q, k) % (k % 40 == 39 ? 90 : 20) * ospread);
            c.obs.assign(obs.begin(), obs.end());
            cs.push_back(c);
        }
        double p = r % 13 == 0 ? 0 : 0.0005 * (1 + seq1009(s + 2, k) % 600);
        Line l = error_line(p, cs);
        if (r % 17 == 5) out.push_back({"shift_detectors 3", [](std::vector<Err>&, int& off, int&, int&) { off += 3; }});
        if (r % 11 == 3) {
            int times = 2 + r % 5, sh = r % 3;
            out.push_back({fmt("repeat %d {\n %s\n shift_detectors %d\n}", times, l.text.c_str(), sh), [=](std::vector<Err>& o, int& off, int& nd, int& no) {
                               for (int i = 0; i < times; i++) {
                                   l.apply(o, off, nd, no);
                                   off += sh;
                               }
                           }});
        } else out.push_back(l);
    }
    return out;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C12";
    o.assumptions = {"the model text is parsed and flattened by the stim stand-in (shim/stim.h), checked against all 116 upstream tests",
                     "an error does not list one detector or one edge twice; probabilities of exactly 1 are excluded"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        static std::vector<Line> A;
        A = alphabet(th);
        std::vector<Family> f;
        for (int len = 0; len <= 3; len++) {
            Family x;
            x.name = fmt("models-of-%d-lines", len);
            x.bound = fmt("every model of %d lines from an alphabet of %zu error / repeat / shift / declaration lines, with and without correlations", len, A.size());
            x.n = ipow(A.size(), len);
            x.chunk = 256;
            auto at = [len](uint64_t i) {
                std::vector<const Line*> l;
                for (int k = 0; k < len; k++) {
                    l.push_back(&A[i % A.size()]);
                    i /= A.size();
                }
                return l;
            };
            x.run = [at](uint64_t i, Ctx& c) {
                check(at(i), c);
                c.note("loaded as specified");
            };
            x.describe = [at](uint64_t i) {
                std::string s;
                for (auto* l : at(i)) s += l->text + " | ";
                return s;
            };
            f.push_back(x);
        }
        // four lines from the pure two-body subset
        {
            std::vector<int> sub;
            for (int k = 0; k < (th ? (int)A.size() : 24); k++) sub.push_back(k);
            Family x;
            x.name = "models-of-4-lines";
            x.bound = fmt("every model of 4 lines from %zu %s", sub.size(), th ? "lines (the whole alphabet)" : "one/two-component error lines");
            x.n = ipow(sub.size(), 4);
            x.chunk = 256;
            auto at = [sub](uint64_t i) {
                std::vector<const Line*> l;
                for (int k = 0; k < 4; k++) {
                    l.push_back(&A[sub[i % sub.size()]]);
                    i /= sub.size();
                }
                return l;
            };
            x.run = [at](uint64_t i, Ctx& c) { check(at(i), c); };
            x.describe = [at](uint64_t i) {
                std::string s;
                for (auto* l : at(i)) s += l->text + " | ";
                return s;
            };
            f.push_back(x);
        }
        for (int len : {20, 150, 700}) {
            Family x;
            x.name = fmt("big-models:%d", len);
            x.n = th ? 400 : 60;
            x.chunk = 1;
            x.bound = fmt("%d models of %d error lines over 40 detectors and more (shifts, repeats, up to 4 components), with and without correlations", (int)x.n, len);
            x.run = [len](uint64_t i, Ctx& c) {
                auto ls = big_lines((int)i, len);
                std::vector<const Line*> v;
                for (auto& l : ls) v.push_back(&l);
                check(v, c);
                c.note("loaded as specified");
            };
            x.describe = [len](uint64_t i) {
                std::string s;
                for (auto& l : big_lines((int)i, len)) s += l.text + " | ";
                return s.substr(0, 3000);
            };
            f.push_back(x);
        }
        for (int len : {20, 300}) {
            Family x;
            x.name = fmt("wide-models:%d", len);
            x.n = th ? 100 : 16;
            x.chunk = 1;
            x.bound = fmt("%d models of %d error lines whose detectors are multiples of 1777 up to 69303 and whose observables are multiples of 3643 up to 69217 (and beyond)", (int)x.n, len);
            x.run = [len](uint64_t i, Ctx& c) {
                auto ls = big_lines((int)i + 1000, len, 1777, 3643);
                std::vector<const Line*> v;
                for (auto& l : ls) v.push_back(&l);
                check(v, c);
                c.note("loaded as specified");
            };
            x.describe = [len](uint64_t i) {
                std::string s;
                for (auto& l : big_lines((int)i + 1000, len, 1777, 3643)) s += l.text + " | ";
                return s.substr(0, 3000);
            };
            f.push_back(x);
        }
        {
            Family x;
            x.name = "long-repeats";
            std::vector<int> times{255, 256, 1000, 65537, 70000}, shifts{0, 1, 2};
            x.n = times.size() * shifts.size();
            x.chunk = 1;
            x.case_limit_s = 300;
            x.bound = "a two-component error repeated 255, 256, 1000, 65537 and 70000 times, the detectors shifted by 0, 1 and 2 each time (at most 1000 times without a shift)";
            auto lines = [=](uint64_t i) {
                int t = times[i / 3], sh = shifts[i % 3];
                if (sh == 0) t = std::min(t, 1000);
                Line l = error_line(0.001, {Comp{{0, 1}, {0}}, Comp{{2}, {1}}});
                return std::vector<Line>{{fmt("repeat %d {\n %s\n shift_detectors %d\n}", t, l.text.c_str(), sh), [=](std::vector<Err>& o, int& off, int& nd, int& no) {
                                              for (int k = 0; k < t; k++) {
                                                  l.apply(o, off, nd, no);
                                                  off += sh;
                                              }
                                          }},
                                         error_line(0.25, {Comp{{0, 3}, {2}}})};
            };
            x.run = [=](uint64_t i, Ctx& c) {
                auto ls = lines(i);
                std::vector<const Line*> v;
                for (auto& l : ls) v.push_back(&l);
                check(v, c);
                c.note("loaded as specified");
            };
            x.describe = [=](uint64_t i) {
                std::string s;
                for (auto& l : lines(i)) s += l.text + " | ";
                return s;
            };
            f.push_back(x);
        }
        return f;
    });
}
