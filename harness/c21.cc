// C21: every call sequence of the families runs under AddressSanitizer and UndefinedBehaviorSanitizer; live memory is
// counted exactly, so leaks and growth show as numbers.
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

#include "big.h"
#include "pymatching/rand/rand_gen.h"
using namespace vx;
using UG = pm::UserGraph;

static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
// Runs the body; if memory stays behind, runs it again: only what is left behind by every repetition is a leak
// (a buffer kept for reuse is left behind once).
static void leak_checked(const std::function<void()>& body, const std::function<std::string()>& what) {
    size_t before = live();
    body();
    if (live() == before) return;
    size_t d[3];
    for (int k = 0; k < 3; k++) {
        before = live();
        body();
        if (live() <= before) return;
        d[k] = live() - before;
    }
    fail(fmt("%zu, %zu, %zu bytes leaked in repetitions of ", d[0], d[1], d[2]) + what());
}

// Every kind of call for one syndrome. Results are not judged here, only that the calls are clean.
static int calls(UG& g, uint64_t s, int kinds, Ctx& c) {
    int errors = 0;
    auto ev = events_of(s);
    size_t no = g.get_num_observables();
    auto run = [&](const std::function<bool()>& f) {
        c.transitions++;
        try {
            if (f()) errors++;
        } catch (const std::invalid_argument&) {
            errors++;
        }
    };
    if (kinds & 1) run([&] { return decode(g.get_mwpm(), ev, no).threw; });
    if (kinds & 2) run([&] { return decode_edges(g.get_mwpm_with_search_graph(), ev).threw; });
    if (kinds & 4) run([&] { return decode_match(g.get_mwpm(), ev).threw; });
    if (kinds & 8) run([&] { return decode(g.get_mwpm_with_search_graph(), ev, no, true).threw; });
    if (kinds & 16) run([&] { return decode_edges(g.get_mwpm_with_search_graph(), ev, true).threw; });
    if (kinds & 32) run([&] {
        auto e = ev;
        e.push_back(g.get_num_nodes() + s);
        return decode(g.get_mwpm(), e, no).threw;
    });
    if (kinds & 64) run([&] {
        size_t n = g.get_num_nodes() + 1;
        std::vector<size_t> out;
        g.get_nodes_on_shortest_path_from_source(s % n == n - 1 ? SIZE_MAX : s % n, s / n % (n + 1) == n ? SIZE_MAX : s / n % (n + 1), out);
        return false;
    });
    if (kinds & 128 && no <= 64) run([&] { return decode64(g.get_mwpm(), ev, no).threw; });
    return errors;
}
static void noise(UG& g) {
    std::vector<uint8_t> e(g.get_num_observables()), s(g.get_num_nodes());
    g.add_noise(e.data(), s.data());
}
static uint64_t top(UG& g) { return uint64_t{1} << std::min<size_t>(g.get_num_nodes(), 12); }

// every syndrome with every kind; then again and again: live memory must not grow
static void steady(const G& g, Ctx& c, size_t pad_obs, int kinds) {
    leak_checked([&] {
        UG ug(g.n, g.e.size() + pad_obs);
        fill(ug, g);
        size_t m[6];
        for (int r = 0; r < 6; r++) {
            uint64_t h = 0;
            for (uint64_t s = 0; s < top(ug); s++) h = h * 3 + calls(ug, s, kinds, c);
            c.outcome(h);
            c.states += top(ug);
            m[r] = live();
        }
        if (m[5] > m[2] || m[4] > m[2])
            fail(fmt("live memory grows while the same syndromes are decoded again: %zu, %zu, %zu, %zu, %zu, %zu bytes (%s)", m[0], m[1], m[2], m[3], m[4], m[5], g.str().c_str()));
    }, [&] { return g.str(); });
    c.traces++;
    c.note("clean, steady and leak-free");
}
// sequences of changes, calls, moves and resets
struct Act {
    const char* name;
    std::function<void(std::unique_ptr<UG>&, Ctx&)> f;
};
static std::vector<Act> acts() {
    using P = std::unique_ptr<UG>;
    auto guard = [](const std::function<void(P&, Ctx&)>& f) {
        return [f](P& g, Ctx& c) {
            try {
                f(g, c);
            } catch (const std::invalid_argument&) {
            }
        };
    };
    std::vector<Act> a;
    a.push_back({"add(0,1)", guard([](P& g, Ctx&) { g->add_or_merge_edge(0, 1, {0}, 2, 0.2, pm::DISALLOW); })});
    a.push_back({"add(1,2)negative", guard([](P& g, Ctx&) { g->add_or_merge_edge(2, 1, {1, 2}, -3, 0.2, pm::SMALLEST_WEIGHT); })});
    a.push_back({"replace(0,2)", guard([](P& g, Ctx&) { g->add_or_merge_edge(0, 2, {5}, 1.5, 1, pm::REPLACE); })});
    a.push_back({"independent(0,1)", guard([](P& g, Ctx&) { g->add_or_merge_edge(0, 1, {9}, 1, 0.3, pm::INDEPENDENT); })});
    a.push_back({"boundary-edge(1)", guard([](P& g, Ctx&) { g->add_or_merge_boundary_edge(1, {3}, 1, 0, pm::REPLACE); })});
    a.push_back({"replace-many-obs(0,B)", guard([](P& g, Ctx&) { g->add_or_merge_boundary_edge(0, {80}, 4, 0.1, pm::REPLACE); })});
    a.push_back({"add(4,3)", guard([](P& g, Ctx&) { g->add_or_merge_edge(4, 3, {}, 16777215, -1, pm::KEEP_ORIGINAL); })});
    a.push_back({"too-heavy(0,1)", guard([](P& g, Ctx&) { g->add_or_merge_edge(0, 1, {}, 1e9, 0.1, pm::REPLACE); })});
    a.push_back({"loop(1,1)", guard([](P& g, Ctx&) { g->add_or_merge_edge(1, 1, {4}, -1, 0.1, pm::REPLACE); })});
    a.push_back({"boundary{1}", guard([](P& g, Ctx&) { g->set_boundary({1}); })});
    a.push_back({"boundary{0,6}", guard([](P& g, Ctx&) { g->set_boundary({0, 6}); })});
    a.push_back({"boundary{}", guard([](P& g, Ctx&) { g->set_boundary({}); })});
    a.push_back({"min_obs(70)", guard([](P& g, Ctx&) { g->set_min_num_observables(70); })});
    a.push_back({"calls", guard([](P& g, Ctx& c) {
                     for (uint64_t s = 0; s < top(*g); s++) calls(*g, s, 255, c);
                 })});
    a.push_back({"decode", guard([](P& g, Ctx& c) {
                     for (uint64_t s = 0; s < top(*g); s++) calls(*g, s, 1, c);
                 })});
    a.push_back({"edges-then-fail", guard([](P& g, Ctx& c) {
                     for (uint64_t s = 0; s < top(*g); s++) calls(*g, s, 2 + 32, c);
                 })});
    a.push_back({"noise", guard([](P& g, Ctx&) { noise(*g); })});
    a.push_back({"move-decoder", guard([](P& g, Ctx& c) {
                     pm::Mwpm m = g->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                     pm::Mwpm m2 = std::move(m);
                     for (uint64_t s = 0; s < top(*g); s++) decode(m2, events_of(s), g->get_num_observables());
                     m2.reset();
                     for (uint64_t s = 0; s < top(*g); s++) decode_edges(m2, events_of(s));
                     m = g->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                     for (uint64_t s = 0; s < top(*g); s++) decode(m, events_of(s), g->get_num_observables());
                     c.transitions += 3 * top(*g);
                 })});
    a.push_back({"reset-decoder", guard([](P& g, Ctx& c) {
                     g->get_mwpm().reset();
                     for (uint64_t s = 0; s < top(*g); s++) calls(*g, s, 3, c);
                 })});
    a.push_back({"move-graph", guard([](P& g, Ctx&) { g = std::make_unique<UG>(std::move(*g)); })});
    return a;
}
static Family seqs(int len) {
    auto as = acts();
    uint64_t A = as.size();
    Family f;
    f.name = fmt("sequences:L%d", len);
    f.bound = fmt("every sequence of %d actions from %d kinds (graph changes, decode rounds, noise, moves, resets), starting from an empty graph and from a path with boundary", len, (int)A);
    f.n = 2 * ipow(A, len);
    f.chunk = 16;
    auto str = [=](uint64_t i) {
        std::string s = i % 2 ? "path: " : "empty: ";
        i /= 2;
        for (int k = 0; k < len; k++) {
            s += std::string(as[i % A].name) + "; ";
            i /= A;
        }
        return s;
    };
    f.describe = str;
    f.run = [=](uint64_t i, Ctx& c) {
        leak_checked([&] {
            auto g = std::make_unique<UG>();
            if (i % 2) {
                g->add_or_merge_edge(0, 1, {0}, 1, 0.1, pm::DISALLOW);
                g->add_or_merge_edge(1, 2, {1}, 1, 0.1, pm::DISALLOW);
                g->add_or_merge_boundary_edge(2, {2}, 1, 0.1, pm::DISALLOW);
            }
            uint64_t j = i / 2;
            for (int k = 0; k < len; k++) {
                as[j % A].f(g, c);
                c.transitions++;
                j /= A;
            }
            for (uint64_t s = 0; s < top(*g); s++) calls(*g, s, 3, c);
            c.outcome(g->get_num_nodes() * 1000 + g->get_num_observables() * 7 + g->get_num_edges());
        }, [&] { return str(i); });
        c.states++;
        c.traces++;
        c.note("clean and leak-free");
    };
    return f;
}
// detector error models: loading (also of rejected models) and correlated decoding
static Family dems(const std::vector<std::string>& lines, int len) {
    Family f;
    uint64_t A = lines.size();
    f.name = fmt("models:L%d", len);
    f.bound = fmt("every detector error model of %d instructions out of %d, loaded with and without correlations, every syndrome decoded by every kind of call six times", len, (int)A);
    f.n = ipow(A, len);
    f.chunk = 8;
    auto text = [=](uint64_t i) {
        std::string s;
        for (int k = 0; k < len; k++) {
            s += lines[i % A] + "\n";
            i /= A;
        }
        return s;
    };
    f.describe = text;
    f.run = [=](uint64_t i, Ctx& c) {
        leak_checked([&] {
          for (int corr = 0; corr < 2; corr++) {
            try {
                stim::DetectorErrorModel dem(text(i).c_str());
                UG g = pm::detector_error_model_to_user_graph(dem, corr, pm::NUM_DISTINCT_WEIGHTS);
                size_t m[6];
                for (int r = 0; r < 6; r++) {
                    for (uint64_t s = 0; s < top(g); s++) calls(g, s, corr ? 1 + 2 + 8 + 16 + 32 : 1 + 2 + 4 + 8, c);
                    m[r] = live();
                }
                // twice the work must not need more memory (a buffer that grows with the work would have doubled)
                if (m[5] > m[2] || m[4] > m[2])
                    fail(fmt("live memory grows while the same syndromes are decoded again: %zu, %zu, %zu, %zu, %zu, %zu bytes (%s)", m[0], m[1], m[2], m[3], m[4], m[5], text(i).c_str()));
                c.outcome(g.get_num_edges() * 100 + g.get_num_observables());
            } catch (const std::invalid_argument&) {
                c.outcome(1);
            }
          }
        }, [&] { return text(i); });
        c.states++;
        c.traces++;
        c.note("clean and leak-free");
    };
    return f;
}
// Large graphs: all kinds of calls on all syndromes; memory returns, and repeated rounds do not grow it.
static void big_steady(const G& g, const std::vector<Events>& synd, Ctx& c, size_t num_obs) {
    leak_checked([&] {
        UG ug(g.n, num_obs);
        for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % num_obs});
        size_t m[4];
        for (int r = 0; r < 4; r++) {
            for (auto& ev : synd)
                for (int kind = 0; kind < 6; kind++) {
                    c.transitions++;
                    try {
                        if (kind == 0) decode(ug.get_mwpm(), ev, num_obs);
                        if (kind == 1) decode_edges(ug.get_mwpm_with_search_graph(), ev);
                        if (kind == 2) decode_match(ug.get_mwpm(), ev);
                        if (kind == 3) decode(ug.get_mwpm_with_search_graph(), ev, num_obs, true);
                        if (kind == 4) decode_edges(ug.get_mwpm_with_search_graph(), ev, true);
                        if (kind == 5) {
                            Events e = ev;
                            e.insert(e.begin() + e.size() / 2, g.n + 2);
                            decode(ug.get_mwpm(), e, num_obs);
                        }
                    } catch (const std::invalid_argument&) {
                    }
                }
            m[r] = live();
            c.states += synd.size();
        }
        // from the second round to the fourth the work doubles: nothing may still be growing
        if (m[3] > m[1]) fail(fmt("memory grows in repetitions of the same %zu syndromes: %zu, %zu, %zu, %zu bytes (%s)", synd.size(), m[0], m[1], m[2], m[3], g_str(g).c_str()));
    }, [&] { return "large graph " + g_str(g); });
    c.traces++;
    c.outcome(g.e.size() * 1000 + synd.size());
    c.note("clean and steady");
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C21";
    o.sanitizer = true;
    o.assumptions = {"AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions detect the memory errors; live bytes are those of the sanitizer allocator"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT;
        auto st = [](size_t pad, int kinds) -> GraphFn { return [=](const G& g, Ctx& c) { steady(g, c, pad, kinds); }; };
        auto add = [&](Family x, const char* nm) {
            x.name = std::string(nm) + x.name;
            f.push_back(x);
        };
        add(fam(AllWeights{complete(3, 3), {A, 1, 2}}, st(0, 255), 8), "steady:");
        add(fam(AllWeights{complete(3, 2), {A, -1, 0, 2}}, st(0, 255), 8), "steady:");
        add(fam(AllWeights{complete(4, 1), {A, 1, 16777215}}, st(0, 255), 8), "steady:");
        add(fam(AllWeights{complete(3, 2), {A, -1, 2}}, st(70, 255), 8), "steady-many-observables:");
        for (auto& t : {grid(3, 3, 1, true), petersen(true), triangles(3, true), mobius(8, true), ring(9, 1), complete(7, 1)}) {
            add(fam(QuadWeights{t, th ? 5 : 2, 1}, st(0, 1 + 2 + 4 + 32), 1), "steady:");
            add(fam(QuadWeights{t, th ? 3 : 2, 1}, st(70, 1 + 2), 1), "steady-many-observables:");
        }
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b)) {
                f.push_back(big("", bigcase(t, 5, t.n % 2 - b, th ? 12 : 4, {5, 25, 60}, 5000, th ? 8 : 1, {1, 1000003}),
                                [](const G& g, const std::vector<Events>& s, Ctx& c) { big_steady(g, s, c, 64); }));
                f.push_back(big("obs-", bigcase(t, 5, b - 1, th ? 12 : 4, {5, 25, 60}, 5000, th ? 8 : 1), [](const G& g, const std::vector<Events>& s, Ctx& c) { big_steady(g, s, c, 100); }));
            }
        {
            auto h = huge_cases(true, 1, 4);
            for (size_t k : {size_t{2}, size_t{3}}) f.push_back(big("", h[k], [](const G& g, const std::vector<Events>& s, Ctx& c) { big_steady(g, s, c, 64 + 40 * (s.size() % 2)); }));
        }
        auto crowd = crowd_cases(th ? 20 : 2, true);
        auto trees = tree_cases(th ? 10 : 1, 9);
        crowd.insert(crowd.end(), trees.begin(), trees.end());
        for (auto& b : crowd) f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_steady(g, s, c, 64); }));
        f.push_back(seqs(2));
        f.push_back(seqs(3));
        f.push_back(dems({"error(0.1) D0", "error(0.2) D0 D1", "error(0.05) D1 D2 L0", "error(0.1) D0 D1 ^ D2 L1", "error(0.3) D0 ^ D0 D1 ^ D2", "error(0.1) D0 D1 D2",
                          "error(0.01) D2 L70", "error(0.6) D1", "error(0) D4 D5", "error(0.1) L2", "detector D3", "repeat 2 {\nerror(0.1) D0 D1 ^ D2\nshift_detectors 1\n}"},
                         th ? 3 : 2));
        if (th) f.push_back(seqs(4));
        // static buffers are allocated before anything is counted, inside the monitored process
        for (auto& x : f)
            x.run = [r = x.run](uint64_t i, Ctx& c) {
                static bool warm = false;
                if (!warm) {
                    warm = true;
                    UG w(2, 2);
                    w.add_or_merge_edge(0, 1, {0}, 1.5, 0.1);
                    Ctx d;
                    for (uint64_t s = 0; s < 4; s++) calls(w, s, 255, d);
                }
                r(i, c);
            };
        return f;
    });
}
