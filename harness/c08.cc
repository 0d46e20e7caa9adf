// C08: correlated decoding applies the two-pass rule and leaves no trace.
#include "big.h"
#include "dem.h"
using namespace vx;

struct Model {
    int n;
    std::vector<Err> errs;  // each edge k carries observable k wherever it occurs
    std::vector<EdgeKey> edges;
    size_t num_obs;
    std::string text;
};
static Model make(int n, const std::vector<EdgeKey>& edges, const std::vector<double>& p,
                  const std::vector<std::pair<uint32_t, double>>& corr, size_t extra_obs) {
    Model m;
    m.n = n;
    m.edges = edges;
    m.num_obs = std::max(edges.size(), extra_obs);
    auto comp = [&](size_t k) {
        Comp c;
        c.dets.push_back(edges[k].first);
        if (edges[k].second >= 0) c.dets.push_back(edges[k].second);
        c.obs.push_back(k);
        return c;
    };
    for (size_t k = 0; k < edges.size(); k++) m.errs.push_back({p[k], {comp(k)}});
    for (auto& x : corr) {
        Err e{x.second, {}};
        for (size_t k = 0; k < edges.size(); k++)
            if (x.first >> k & 1) e.comps.push_back(comp(k));
        m.errs.push_back(e);
    }
    for (auto& e : m.errs) m.text += err_text(e) + "\n";
    m.text += fmt("logical_observable L%zu\n", m.num_obs - 1);
    return m;
}
// bm: nodes made boundary nodes after loading. The graph that is decoded then has the nodes of bm contracted into the
// boundary and keeps the lightest boundary edge of each node (C11); the rules concern the edges it keeps.
// chg: a later call that adds an edge parallel to one of the model's, which changes its weight (C10) and no rule.
struct Merge {
    pm::MERGE_STRATEGY st;
    double w;
};
static const Merge MERGES[] = {{pm::REPLACE, 0}, {pm::REPLACE, 0.05}, {pm::REPLACE, 3}, {pm::REPLACE, 12.25}, {pm::INDEPENDENT, 1.5}, {pm::SMALLEST_WEIGHT, 0.3}, {pm::SMALLEST_WEIGHT, 30}, {pm::KEEP_ORIGINAL, 0.1}};
const size_t NM = sizeof MERGES / sizeof *MERGES;
static void merge(pm::UserGraph& g, const Model& m, size_t k, const Merge& x) {
    if (m.edges[k].second < 0) g.add_or_merge_boundary_edge(m.edges[k].first, {k}, x.w, -1, x.st);
    else g.add_or_merge_edge(m.edges[k].second, m.edges[k].first, {k}, x.w, -1, x.st);
}
// From here on, every weight is replaced by an integer, while the implied weights are not integers.
const size_t INTEGERS = 1000, NI = 12;
static double integer(size_t chg, size_t k) {
    size_t t = chg - INTEGERS;
    return (double)((k * (1 + t % 4) + t / 4) % 5 + (t % 3 ? 1 : 0));
}
static void check(const Model& m, Ctx& c, uint32_t bm = 0, size_t chg = 0) {
    size_t E = m.edges.size();
    RefModel ref = reference(m.errs, true);
    std::vector<double> w(E);
    std::vector<std::vector<double>> imp(E, std::vector<double>(E, 1e300));
    double mx = 0;
    for (size_t k = 0; k < E; k++) {
        w[k] = llr(ref.edges[m.edges[k]].p);
        if (chg && chg < INTEGERS && (chg - 1) / NM == k) {
            auto& x = MERGES[(chg - 1) % NM];
            if (x.st == pm::REPLACE || (x.st == pm::SMALLEST_WEIGHT && x.w < w[k])) w[k] = x.w;
            if (x.st == pm::INDEPENDENT) w[k] = 2 * std::atanh(std::tanh(w[k] / 2) * std::tanh(x.w / 2));
        }
        if (chg >= INTEGERS) w[k] = integer(chg, k);
        mx = std::max(mx, std::abs(w[k]));
        for (size_t j = 0; j < E; j++) {
            auto it = ref.edges[m.edges[k]].implied.find(m.edges[j]);
            if (it != ref.edges[m.edges[k]].implied.end()) {
                imp[k][j] = it->second;
                mx = std::max(mx, std::abs(it->second));
            }
        }
    }
    const double eps = mx * (E + 2) / 8388608.0 + 1e-9;
    std::vector<EdgeKey> ends = m.edges;
    uint32_t active = (uint32_t)((uint64_t{1} << E) - 1);
    if (bm) {
        std::vector<int> kept(m.n, -1);
        for (size_t k = 0; k < E; k++) {
            bool ba = bm >> ends[k].first & 1, bb = ends[k].second < 0 || (bm >> ends[k].second & 1);
            if (ba && bb) {
                active &= ~(1u << k);
                continue;
            }
            if (ba) ends[k].first = ends[k].second;
            if (ba || bb) ends[k].second = -1;
            else continue;
            int& o = kept[ends[k].first];
            if (o < 0) {
                o = k;
            } else if (std::abs(w[o] - w[k]) < 4 * eps) {
                return;  // which of two equal boundary edges is kept is not determined
            } else if (w[k] < w[o]) {
                active &= ~(1u << o);
                o = k;
            } else {
                active &= ~(1u << k);
            }
        }
    }
    std::vector<std::vector<uint32_t>> bysynd(size_t{1} << m.n);
    std::vector<double> W(size_t{1} << E, 0);
    for (uint32_t x = 0; x < (1u << E); x++) {
        if (x & ~active) continue;
        uint32_t s = 0;
        for (size_t k = 0; k < E; k++)
            if (x >> k & 1) {
                s ^= 1u << ends[k].first;
                if (ends[k].second >= 0) s ^= 1u << ends[k].second;
                W[x] += w[k];
            }
        bysynd[s].push_back(x);
    }
    stim::DetectorErrorModel dem(m.text.c_str());
    auto ug = pm::detector_error_model_to_user_graph(dem, true, pm::NUM_DISTINCT_WEIGHTS);
    std::set<size_t> bs;
    for (int k = 0; k < m.n; k++)
        if (bm >> k & 1) bs.insert(k);
    auto change = [&](pm::UserGraph& g) {
        if (bm) g.set_boundary(bs);
        if (chg >= INTEGERS)
            for (size_t k = 0; k < E; k++) merge(g, m, k, {pm::REPLACE, integer(chg, k)});
        else if (chg)
            merge(g, m, (chg - 1) / NM, MERGES[(chg - 1) % NM]);
    };
    change(ug);
    auto& mwpm = ug.get_mwpm_with_search_graph();
    // the same model decoded through the path the command line uses; with changes, a graph that was in use before
    auto cli0 = bm || chg ? pm::Mwpm() : pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, true, true);
    auto used = pm::detector_error_model_to_user_graph(dem, true, pm::NUM_DISTINCT_WEIGHTS);
    if (bm || chg) {
        for (uint32_t s = 0; s < (1u << m.n); s += 3) decode(used.get_mwpm_with_search_graph(), events_of(s), m.num_obs, true);
        change(used);
    }
    auto& cli = bm || chg ? used.get_mwpm_with_search_graph() : cli0;
    c.traces++;
    auto as_mask = [&](const std::vector<uint8_t>& obs) {
        uint32_t x = 0;
        for (size_t k = 0; k < E; k++) x |= (uint32_t)(obs[k] & 1) << k;
        for (size_t k = E; k < obs.size(); k++)
            if (obs[k]) fail(fmt("observable %zu on no edge predicted:\n%s", k, m.text.c_str()));
        return x;
    };
    for (uint32_t s = 0; s < bysynd.size(); s++) {
        auto& sols = bysynd[s & ~bm];
        auto ev = events_of(s);
        if (sols.empty()) {
            if (!decode(mwpm, ev, m.num_obs, true).threw || !decode_edges(mwpm, ev, true).threw)
                fail(fmt("impossible syndrome %s accepted:\n%s", synd_str(s).c_str(), m.text.c_str()));
            c.transitions += 2;
            continue;
        }
        double opt1 = 1e300;
        for (auto x : sols) opt1 = std::min(opt1, W[x]);
        struct Cand {
            std::vector<double> w2;
            double opt2;
        };
        std::vector<Cand> cands;
        for (auto x : sols)
            if (W[x] <= opt1 + eps) {
                Cand cd;
                cd.w2 = w;
                for (size_t k = 0; k < E; k++)
                    if (x >> k & 1)
                        for (size_t j = 0; j < E; j++) cd.w2[j] = std::min(cd.w2[j], imp[k][j]);
                cd.opt2 = 1e300;
                for (auto y : sols) {
                    double t = 0;
                    for (size_t k = 0; k < E; k++)
                        if (y >> k & 1) t += cd.w2[k];
                    cd.opt2 = std::min(cd.opt2, t);
                }
                cands.push_back(cd);
            }
        auto judge = [&](uint32_t x, const double* weight, const char* what) {
            bool in = false;
            for (auto y : sols) in |= y == x;
            if (!in) fail(fmt("%s of %s is an edge set %x with another syndrome:\n%s", what, synd_str(s).c_str(), x, m.text.c_str()));
            for (auto& cd : cands) {
                double t = 0;
                for (size_t k = 0; k < E; k++)
                    if (x >> k & 1) t += cd.w2[k];
                if (t <= cd.opt2 + 2 * eps && (!weight || std::abs(*weight - t) <= 2 * eps)) return;
            }
            fail(fmt("%s of %s gave edge set %x weight %.9g, but the two-pass rule gives minimum %.9g (%zu first-pass optimum/optima):\n%s", what,
                     synd_str(s).c_str(), x, weight ? *weight : -1.0, cands[0].opt2, cands.size(), m.text.c_str()));
        };
        auto plain = [&](pm::Mwpm& mw, const char* what) {
            Dec d = decode(mw, ev, m.num_obs);
            c.transitions++;
            if (d.threw) fail(fmt("%s: plain decode rejected:\n%s", what, m.text.c_str()));
            uint32_t x = as_mask(d.obs);
            bool in = false;
            for (auto y : sols) in |= y == x;
            if (!in || W[x] > opt1 + 2 * eps || std::abs(d.weight - opt1) > 2 * eps)
                fail(fmt("plain decode of %s %s gave weight %.9g instead of %.9g:\n%s", synd_str(s).c_str(), what, d.weight, opt1, m.text.c_str()));
        };
        for (auto* mw : {&mwpm, &cli}) {
            Dec d = decode(*mw, ev, m.num_obs, true);
            c.transitions++;
            if (d.threw) fail(fmt("correlated decode of %s rejected: %s\n%s", synd_str(s).c_str(), d.err.c_str(), m.text.c_str()));
            judge(as_mask(d.obs), &d.weight, "correlated decode");
            plain(*mw, "after a correlated decode");
            c.outcome(as_mask(d.obs) * 977 + s + (uint64_t)(d.weight * 1e4) * 31);
            if (m.num_obs <= 64) {
                Dec d2 = decode64(*mw, ev, m.num_obs, true);
                c.transitions++;
                if (d2.threw) fail("correlated bit-mask decode rejected:\n" + m.text);
                judge(as_mask(d2.obs), &d2.weight, "correlated bit-mask decode");
                if (mw == &mwpm) plain(*mw, "after a correlated bit-mask decode");
            }
            if (mw == &mwpm) c.note(fmt("%s->%x", synd_str(s).c_str(), as_mask(d.obs)));
        }
        DecE e = decode_edges(mwpm, ev, true);
        c.transitions++;
        if (e.threw) fail("correlated decode to edges rejected:\n" + m.text);
        uint32_t x = 0;
        for (auto& pr : e.edges) {
            bool found = false;
            for (size_t k = 0; k < E; k++) {
                int a = ends[k].first, b = ends[k].second;
                if ((active >> k & 1) && ((pr.first == a && pr.second == b) || (pr.first == b && pr.second == a))) {
                    if (x >> k & 1) fail("correlated decode to edges repeats an edge:\n" + m.text);
                    x |= 1u << k;
                    found = true;
                }
            }
            if (!found) fail("correlated decode to edges returns a non-edge:\n" + m.text);
        }
        judge(x, nullptr, "correlated decode to edges");
        plain(mwpm, "after correlated decode to edges");
        c.states++;
    }
}
static void check_uncorrelated(const Model& m, Ctx& c) {
    stim::DetectorErrorModel dem(m.text.c_str());
    auto ug = pm::detector_error_model_to_user_graph(dem, false, pm::NUM_DISTINCT_WEIGHTS);
    auto& mwpm = ug.get_mwpm_with_search_graph();
    auto no_search = pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, false, false);
    c.traces++;
    for (uint32_t s = 0; s < (1u << m.n); s++) {
        auto ev = events_of(s);
        Dec a = decode(mwpm, ev, m.num_obs);
        Dec b = decode(mwpm, ev, m.num_obs, true);
        DecE e = decode_edges(mwpm, ev, true);
        Dec a2 = decode(mwpm, ev, m.num_obs);
        c.transitions += 4;
        c.states++;
        if (!b.threw || !e.threw) fail(fmt("correlated decoding of %s accepted on a model loaded without correlations:\n%s", synd_str(s).c_str(), m.text.c_str()));
        if (a.threw != a2.threw || a.obs != a2.obs || a.weight != a2.weight) fail("rejected correlated decode changed later results:\n" + m.text);
        if (m.num_obs <= 64) {
            Dec q = decode64(no_search, ev, m.num_obs, true);
            c.transitions++;
            if (!q.threw) fail("correlated decoding accepted without a search graph on an uncorrelated model:\n" + m.text);
        }
        c.outcome(s + (uint64_t)(a.weight * 1e4) * 31);
    }
}
// A graph built by hand has no correlation rules: correlated decoding equals ordinary decoding.
static void check_manual(const G& g, Ctx& c) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm_with_search_graph();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        require_optimal(g, decode(mwpm, events_of(s), g.e.size(), true), s, best[s], "correlated decode of a graph without rules");
        require_edges(g, decode_edges(mwpm, events_of(s), true), s, best[s], "correlated edges of a graph without rules");
        c.transitions += 2;
        c.states++;
    }
}
// Large models: strips of detectors with a correlated error for many pairs of edges.
struct BigModel {
    G g;                       // edges, weights unused
    std::vector<Err> errs;
    std::vector<std::vector<size_t>> obs;
    size_t num_obs;
    std::string text;
};
static BigModel big_model(const Topo& t, int s, bool many) {
    BigModel m;
    m.g = with_weights(t, std::vector<int64_t>(t.slots.size(), 1));
    size_t E = m.g.e.size();
    auto comp = [&](size_t k) {
        Comp c;
        c.dets.push_back(m.g.e[k].u);
        if (m.g.e[k].v >= 0) c.dets.push_back(m.g.e[k].v);
        for (auto o : m.obs[k]) c.obs.push_back(o);
        return c;
    };
    for (size_t k = 0; k < E; k++) m.obs.push_back(many ? std::vector<size_t>{k} : tracked_obs(k));
    for (size_t k = 0; k < E; k++) m.errs.push_back({0.01 + 0.0001 * seq1009(s, k), {comp(k)}});
    for (size_t k = 0; k < E; k++) {
        int64_t r = seq1009(s + 5, k);
        if (r % 3 == 0) continue;
        size_t j = (k + 1 + r % 11) % E;
        if (j == k) continue;
        Err e{0.004 + 0.00017 * seq1009(s + 9, k), {comp(k), comp(j)}};
        if (r % 5 == 0) {
            size_t i = (j + 3 + r % 7) % E;
            if (i != j && i != k) e.comps.push_back(comp(i));
        }
        m.errs.push_back(e);
    }
    for (auto& e : m.errs) m.text += err_text(e) + "\n";
    m.num_obs = many ? E : 64;
    m.text += fmt("detector D%d\nlogical_observable L%zu\n", m.g.n - 1, m.num_obs - 1);
    return m;
}
static void check_big(const BigModel& m, const std::vector<Events>& synd, bool many, Ctx& c) {
    const double S = 1 << 28;
    size_t E = m.g.e.size();
    RefModel ref = reference(m.errs, true);
    auto key = [&](size_t k) { return m.g.e[k].v < 0 ? EdgeKey{m.g.e[k].u, -1} : EdgeKey{std::min(m.g.e[k].u, m.g.e[k].v), std::max(m.g.e[k].u, m.g.e[k].v)}; };
    std::map<EdgeKey, size_t> pos;
    for (size_t k = 0; k < E; k++) pos[key(k)] = k;
    std::vector<double> w(E);
    std::vector<std::vector<std::pair<size_t, double>>> imp(E);
    double mx = 0;
    for (size_t k = 0; k < E; k++) {
        auto& r = ref.edges[key(k)];
        w[k] = llr(r.p);
        mx = std::max(mx, std::abs(w[k]));
        for (auto& x : r.implied) imp[k].push_back({pos[x.first], x.second}), mx = std::max(mx, std::abs(x.second));
    }
    const double eps = mx * (E + 2) / 8388608.0 + 1e-7;
    std::vector<uint32_t> masks;
    for (size_t k = 0; k < E; k++) masks.push_back(many ? 0 : tracked_mask(k));
    auto optimum = [&](const std::vector<double>& ww, const Events& ev, bool by_obs) {
        G q = m.g;
        for (size_t k = 0; k < E; k++) q.e[k].w = (int64_t)std::llround(ww[k] * S);
        Frontier fr(q, masks, by_obs ? 3 : 0);
        std::vector<double> r;
        for (auto x : fr.solve(ev)) r.push_back(x >= INF ? 1e300 : x / S);
        return r;
    };
    stim::DetectorErrorModel dem(m.text.c_str());
    auto ug = pm::detector_error_model_to_user_graph(dem, true, pm::NUM_DISTINCT_WEIGHTS);
    auto& mwpm = ug.get_mwpm_with_search_graph();
    auto cli = pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, true, true);
    c.traces++;
    auto as_used = [&](const DecE& d, const Events& ev) {
        std::vector<uint8_t> used(E, 0);
        if (d.threw) fail("rejected: " + ev_str(ev) + "\n" + m.text.substr(0, 2000));
        for (auto p : d.edges) {
            if (p.first < p.second) std::swap(p.first, p.second);
            EdgeKey k = p.second < 0 ? EdgeKey{(int)p.first, -1} : EdgeKey{(int)p.second, (int)p.first};
            auto it = pos.find(k);
            if (it == pos.end() || used[it->second]++) fail(fmt("edge (%d,%d) does not exist or is repeated: ", k.first, k.second) + ev_str(ev));
        }
        return used;
    };
    auto consistent = [&](const std::vector<uint8_t>& used, const Events& ev) {
        auto b = event_bits(m.g.n, ev);
        for (size_t k = 0; k < E; k++)
            if (used[k]) {
                b[m.g.e[k].u] ^= 1;
                if (m.g.e[k].v >= 0) b[m.g.e[k].v] ^= 1;
            }
        for (auto x : b)
            if (x) return false;
        return true;
    };
    auto weigh = [&](const std::vector<uint8_t>& used, const std::vector<double>& ww) {
        double t = 0;
        for (size_t k = 0; k < E; k++)
            if (used[k]) t += ww[k];
        return t;
    };
    size_t rot = 0;
    for (auto& ev : synd) {
        double opt1 = optimum(w, ev, false)[0];
        if (opt1 > 1e200) continue;
        // first pass: any optimal edge set; the one ordinary decoding returns is used, and it must be the only one for an alarm
        auto first = as_used(decode_edges(mwpm, ev), ev);
        c.transitions++;
        if (!consistent(first, ev) || weigh(first, w) > opt1 + 2 * eps) fail("ordinary decoding is not optimal: " + ev_str(ev));
        auto w2 = w;
        size_t lowered = 0;
        for (size_t k = 0; k < E; k++)
            if (first[k])
                for (auto& x : imp[k])
                    if (x.second < w2[x.first]) w2[x.first] = x.second, lowered++;
        auto by = optimum(w2, ev, !many);
        double opt2 = *std::min_element(by.begin(), by.end());
        auto unique = [&] {
            for (size_t k = 0; k < E; k++)
                if (first[k]) {
                    auto w3 = w;
                    w3[k] = 1e6;
                    if (optimum(w3, ev, false)[0] <= opt1 + 2 * eps) return false;
                }
            return true;
        };
        auto require = [&](bool ok, const std::string& msg) {
            if (!ok && unique())
                fail(fmt("%s; %s, ordinary minimum %.9g, two-pass minimum %.9g, %zu weights lowered, %zu edges\n%s", msg.c_str(), ev_str(ev).c_str(), opt1, opt2, lowered, E,
                         m.text.substr(0, 4000).c_str()));
        };
        for (int round = 0; round < 2; round++) {
            auto& mw = round ? cli : mwpm;
            Dec d = !many && rot++ % 2 ? decode64(mw, ev, m.num_obs, true) : decode(mw, ev, m.num_obs, true);
            c.transitions++;
            if (d.threw) fail("correlated decoding rejected " + ev_str(ev));
            require(std::abs(d.weight - opt2) <= 2 * eps, fmt("correlated decoding reports weight %.9g", d.weight));
            if (many) {
                if (!consistent(d.obs, ev)) fail("correlated prediction has another syndrome: " + ev_str(ev));
                require(weigh(d.obs, w2) <= opt2 + 2 * eps, fmt("correlated prediction weighs %.9g", weigh(d.obs, w2)));
            } else {
                uint32_t o = 0;
                for (int j = 0; j < 3; j++) o |= (uint32_t)d.obs[TRACKED[j]] << j;
                require(by[o] <= opt2 + 2 * eps, fmt("correlated prediction %u needs weight %.9g", o, by[o]));
            }
            Dec pl = decode(mw, ev, m.num_obs);
            c.transitions++;
            if (pl.threw || std::abs(pl.weight - opt1) > 2 * eps) fail(fmt("ordinary decoding after correlated decoding reports %.9g, minimum %.9g: ", pl.weight, opt1) + ev_str(ev));
        }
        auto e2 = as_used(decode_edges(mwpm, ev, true), ev);
        c.transitions++;
        if (!consistent(e2, ev)) fail("correlated edges have another syndrome: " + ev_str(ev));
        require(weigh(e2, w2) <= opt2 + 2 * eps, fmt("correlated edges weigh %.9g", weigh(e2, w2)));
        c.states++;
        c.outcome(lowered * 1000003 + ev.size());
        c.note(fmt("%zu events, %zu weights lowered, %.4g -> %.4g", ev.size(), lowered, opt1, opt2));
    }
}
struct Shape {
    std::string name;
    int n;
    std::vector<EdgeKey> edges;
};
int main(int argc, char** argv) {
    Options o;
    o.prop = "C08";
    o.assumptions = {"where several first-pass edge sets are optimal within the discretisation, any of them may be the one that reweights",
                     "weights compare within the documented discretisation"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        std::vector<Shape> shapes{
            {"path3", 3, {{0, -1}, {0, 1}, {1, 2}, {2, -1}}},
            {"triangle+B", 3, {{0, 1}, {1, 2}, {0, 2}, {1, -1}}},
            {"ring4", 4, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}},
            {"path4", 4, {{0, -1}, {0, 1}, {1, 2}, {2, 3}, {3, -1}}},
            {"K4", 4, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}},
            {"two-paths", 4, {{0, -1}, {0, 1}, {1, -1}, {2, -1}, {2, 3}, {3, -1}}},
            {"K3+3B", 3, {{0, 1}, {1, 2}, {0, 2}, {0, -1}, {1, -1}, {2, -1}}},
        };
        std::vector<std::vector<double>> bases{{0.1, 0.1, 0.1, 0.1, 0.1, 0.1},
                                               {0.05, 0.12, 0.08, 0.2, 0.15, 0.1},
                                               {0.3, 0.01, 0.2, 0.02, 0.4, 0.07},
                                               {0.02, 0.3, 0.03, 0.25, 0.01, 0.45},
                                               {0.001, 0.499, 0.2, 0.0001, 0.1, 0.3}};
        std::vector<double> cp{0.05, 0.2};
        if (th) cp = {0.01, 0.05, 0.2, 0.5};
        for (auto& sh : shapes) {
            size_t E = sh.edges.size();
            std::vector<std::pair<uint32_t, double>> opts;
            for (uint32_t x = 0; x < (1u << E); x++) {
                int k = __builtin_popcount(x);
                if (k >= 2 && k <= 3)
                    for (auto p : cp) opts.push_back({x, p});
            }
            auto pairs = [=](uint64_t i) {
                uint64_t O = opts.size();
                std::vector<std::pair<uint32_t, double>> v;
                uint64_t a = i % (O + 1), b = i / (O + 1);
                if (a) v.push_back(opts[a - 1]);
                if (b) v.push_back(opts[b - 1]);
                return v;
            };
            uint64_t per = (opts.size() + 1) * (opts.size() + 1);
            for (size_t extra : {size_t{0}, size_t{70}}) {
                if (extra && E > 4 && !th) continue;
                Family x;
                x.name = sh.name + (extra ? ":70obs" : "");
                x.bound = fmt("every model on %s with at most two correlated errors (2-3 components, %zu probabilities), %zu base probability vectors, every syndrome, all entry points",
                              sh.name.c_str(), cp.size(), bases.size());
                x.n = per * bases.size();
                x.chunk = 16;
                auto at = [=](uint64_t i) { return make(sh.n, sh.edges, bases[i / per], pairs(i % per), extra); };
                x.run = [at](uint64_t i, Ctx& c) { check(at(i), c); };
                x.describe = [at](uint64_t i) { return at(i).text; };
                f.push_back(x);
            }
            Family xb;
            xb.name = sh.name + ":boundary-nodes";
            uint64_t nb = (1u << sh.n) - 1, nbase = th ? bases.size() : 2;
            xb.bound = fmt("the same models with every non-empty set of nodes made boundary nodes after loading, %d base probability vectors, every fourth with 70 observables, every syndrome", (int)nbase);
            xb.n = per * nbase * nb;
            xb.chunk = 64;
            auto atb = [=](uint64_t i) { return make(sh.n, sh.edges, bases[1 + i / nb / per % (bases.size() - 1)], pairs(i / nb % per), i % 4 == 1 ? 70 : 0); };
            xb.run = [=](uint64_t i, Ctx& c) { check(atb(i), c, 1 + i % nb); };
            xb.describe = [=](uint64_t i) { return fmt("boundary nodes %s of ", synd_str(1 + i % nb).c_str()) + atb(i).text; };
            f.push_back(xb);
            Family xc;
            xc.name = sh.name + ":changed-weights";
            uint64_t nc = sh.edges.size() * NM, mbase = th ? nbase : 1;
            xc.bound = fmt("the same models, one edge merged with a parallel edge after loading (every edge x %zu strategies and weights), %d base probability vectors, every fourth with 70 observables, every syndrome", NM, (int)mbase);
            xc.n = per * mbase * nc;
            xc.chunk = 64;
            auto atc = [=](uint64_t i) { return make(sh.n, sh.edges, bases[1 + i / nc / per % (bases.size() - 1)], pairs(i / nc % per), i % 4 == 1 ? 70 : 0); };
            xc.run = [=](uint64_t i, Ctx& c) { check(atc(i), c, 0, 1 + i % nc); };
            xc.describe = [=](uint64_t i) { return fmt("edge %d merged (case %d) in ", (int)(i % nc / NM), (int)(i % NM)) + atc(i).text; };
            f.push_back(xc);
            Family xi;
            xi.name = sh.name + ":integer-weights";
            xi.bound = fmt("the same models with every weight replaced by an integer after loading (%zu patterns), the implied weights being no integers; every syndrome", NI);
            xi.n = per * NI;
            xi.chunk = 64;
            auto ati = [=](uint64_t i) { return make(sh.n, sh.edges, bases[1], pairs(i / NI), 0); };
            xi.run = [=](uint64_t i, Ctx& c) { check(ati(i), c, 0, INTEGERS + i % NI); };
            xi.describe = [=](uint64_t i) { return fmt("integer weights, pattern %d, in ", (int)(i % NI)) + ati(i).text; };
            f.push_back(xi);
            Family xr;
            xr.name = sh.name + ":rare";
            const std::vector<double> rp{1e-5, 1e-9, 1e-30, 1e-200};
            const std::vector<std::vector<double>> rb{{0.49, 0.499, 0.48, 0.495, 0.47, 0.485}, {0.47, 0.3, 0.49, 0.2, 0.48, 0.41}};
            uint64_t nm = (opts.size() / cp.size());
            xr.bound = fmt("every model on %s with one correlated error of probability 1e-5 to 1e-200 among errors of probability near one half (implied weights far above all weights), every syndrome", sh.name.c_str());
            xr.n = nm * rp.size() * rb.size();
            xr.chunk = 8;
            auto atr = [=](uint64_t i) { return make(sh.n, sh.edges, rb[i / nm / rp.size()], {{opts[i % nm * cp.size()].first, rp[i / nm % rp.size()]}}, 0); };
            xr.run = [=](uint64_t i, Ctx& c) { check(atr(i), c); };
            xr.describe = [=](uint64_t i) { return atr(i).text; };
            f.push_back(xr);
            Family y;
            y.name = sh.name + ":uncorrelated";
            y.bound = "the same models loaded without correlations: correlated decoding must be rejected without effect";
            y.n = per;
            y.chunk = 32;
            auto at = [=](uint64_t i) { return make(sh.n, sh.edges, bases[1], pairs(i), 0); };
            y.run = [at](uint64_t i, Ctx& c) { check_uncorrelated(at(i), c); };
            y.describe = [at](uint64_t i) { return at(i).text; };
            f.push_back(y);
            if (E <= 4) {
                Family z;
                z.name = sh.name + ":three";
                uint64_t O = opts.size();
                z.bound = "every model with exactly three correlated errors, one base vector";
                z.n = O * O * O;
                z.chunk = 32;
                auto at3 = [=](uint64_t i) { return make(sh.n, sh.edges, bases[2], {opts[i % O], opts[i / O % O], opts[i / O / O]}, 0); };
                z.run = [at3](uint64_t i, Ctx& c) { check(at3(i), c); };
                z.describe = [at3](uint64_t i) { return at3(i).text; };
                f.push_back(z);
            }
        }
        GraphFn man = check_manual;
        Family m1 = fam(AllWeights{complete(3, 3), {ABSENT, -1, 1, 2}}, man, 64);
        m1.name = "manual:" + m1.name;
        f.push_back(m1);
        Family m2 = fam(QuadWeights{petersen(true), 4, 1}, man, 1);
        m2.name = "manual:" + m2.name;
        f.push_back(m2);
        for (auto& tp : {strip(20, 3, 1, true), strip(25, 2, 2, true), path(80, 2), triangles(14, true), copies(complete(5, 1), 8), ring(60, 1), long_wheel(40, true), strip(15, 3, 0, true)})
            for (int many = 0; many < 2; many++) {
                Family x;
                auto sy = quad_syndromes(tp.n, th ? 30 : 16, {4, 10, 25, 60});
                for (size_t k = 0; k < sy.size(); k++) reorder(sy[k], k);
                x.name = fmt("big:%s%s", tp.name.c_str(), many ? ":obs>64" : "");
                x.n = th ? 100 : 12;
                x.chunk = 1;
                x.case_limit_s = 300;
                x.bound = fmt("%d models on the %d detectors of %s with correlated errors on about two thirds of the edges; %zu syndromes, all entry points", (int)x.n, tp.n, tp.name.c_str(), sy.size());
                x.run = [=](uint64_t i, Ctx& c) { check_big(big_model(tp, (int)i, many), sy, many, c); };
                x.describe = [=](uint64_t i) { return fmt("model %d on %s: ", (int)i, tp.name.c_str()) + big_model(tp, (int)i, many).text.substr(0, 1500); };
                f.push_back(x);
            }
        // tens of thousands of detectors and observables, a few fired
        for (auto& tp : {path(70000, 2), strip(2000, 3, 1, true), copies(complete(5, 1), 700)})
            for (int many = 0; many < 2; many++) {
                Family x;
                uint64_t n = tp.n;
                std::vector<Events> sy{{0}, {n - 1}, {n / 2, n / 2 + 1}, {255, 256, 257}, {n - 3, n - 2}, {0, 3, n - 5, n - 1}};
                if (n > 65540)
                    for (Events e : {Events{65535, 65536}, Events{65534, 65537}, Events{65530, 65533, 65536, 65539}, Events{65536}}) sy.push_back(e);
                x.name = fmt("huge:%s%s", tp.name.c_str(), many ? ":obs>64" : "");
                x.n = th ? 6 : 2;
                x.chunk = 1;
                x.case_limit_s = 300;
                x.bound = fmt("%d models on the %d detectors of %s with correlated errors on about two thirds of the edges; %zu syndromes of 1 to 4 events at the ends, in the middle, around 256 and 65536; all entry points",
                              (int)x.n, tp.n, tp.name.c_str(), sy.size());
                x.run = [=](uint64_t i, Ctx& c) { check_big(big_model(tp, (int)i, many), sy, many, c); };
                x.describe = [=](uint64_t i) { return fmt("model %d on %s", (int)i, tp.name.c_str()); };
                f.push_back(x);
            }
        return f;
    });
}
