// C22: whatever is interleaved, every result equals that of a graph built from scratch with the same content.
#include "big.h"
using namespace vx;

using UG = pm::UserGraph;
struct Mut {
    std::string name;
    std::function<void(UG&)> f;
};
static Mut edge(int u, int v, double w, std::vector<size_t> obs, pm::MERGE_STRATEGY st, const char* sn) {
    return {fmt("%s(%d,%d,w=%g,%dobs)", sn, u, v, w, (int)obs.size()), [=](UG& g) {
                if (v < 0) g.add_or_merge_boundary_edge(u, obs, w, 0.1, st);
                else g.add_or_merge_edge(u, v, obs, w, 0.1, st);
            }};
}
static Mut bnd(std::set<size_t> b) {
    std::string s = "boundary{";
    for (auto x : b) s += fmt("%d ", (int)x);
    return {s + "}", [=](UG& g) { g.set_boundary(b); }};
}
static Mut minobs(size_t n) { return {fmt("min_observables(%d)", (int)n), [=](UG& g) { g.set_min_num_observables(n); }}; }
static void apply(UG& g, const Mut& m) {
    try {
        m.f(g);
    } catch (const std::invalid_argument&) {
    }
}
enum K { DEC, EDG, MAT, PATH, FAIL, COR, NKIND };
static const char* KN[] = {"decode", "to-edges", "matched", "paths", "out-of-range", "correlated"};

static std::string dstr(const Dec& d) {
    if (d.threw) return "error ";
    std::string x = fmt("%.15g:", d.weight);
    for (size_t k = 0; k < d.obs.size(); k++)
        if (d.obs[k]) x += fmt("%d,", (int)k);
    return x + " ";
}
// one call of the kind on one syndrome
static std::string call(UG& g, int kind, uint64_t s) {
    auto ev = events_of(s);
    size_t no = g.get_num_observables();
    try {
        switch (kind) {
            case DEC: return dstr(decode(g.get_mwpm(), ev, no));
            case COR: return dstr(decode(g.get_mwpm_with_search_graph(), ev, no, true));
            case EDG: {
                auto d = decode_edges(g.get_mwpm_with_search_graph(), ev);
                return d.threw ? "error " : pairs_str(canon(d.edges));
            }
            case MAT: {
                auto d = decode_match(g.get_mwpm(), ev);
                return d.threw ? "error " : pairs_str(canon(d.pairs));
            }
            case FAIL: {
                ev.push_back(g.get_num_nodes());
                return dstr(decode(g.get_mwpm(), ev, no));
            }
            default: {
                size_t n = g.get_num_nodes();
                std::string x;
                for (size_t a = 0; a <= n; a++) {
                    size_t b = s % (n + 1);
                    std::vector<size_t> out;
                    try {
                        g.get_nodes_on_shortest_path_from_source(a == n ? SIZE_MAX : a, b == n ? SIZE_MAX : b, out);
                        for (auto y : out) x += fmt("%d-", (int)y);
                    } catch (const std::invalid_argument&) {
                        x += "error";
                    }
                    x += " ";
                }
                return x;
            }
        }
    } catch (const std::invalid_argument& e) {
        return "unusable graph";
    }
}
static std::string all(UG& g, int kind) {
    uint64_t top = uint64_t{1} << g.get_num_nodes();
    std::string r;
    for (uint64_t s = 0; s < top; s++) r += call(g, kind, s) + "|";
    return r;
}
static std::string props(UG& g) {
    std::string r = fmt("nodes=%d detectors=%d edges=%d obs=%d allp=%d boundary=", (int)g.get_num_nodes(), (int)g.get_num_detectors(),
                        (int)g.get_num_edges(), (int)g.get_num_observables(), (int)g.all_edges_have_error_probabilities());
    for (auto b : g.get_boundary()) r += fmt("%d,", (int)b);
    for (size_t k = 0; k < g.get_num_nodes(); k++) r += fmt("%d%d", (int)g.is_boundary_node(k), (int)g.has_boundary_edge(k));
    for (auto& e : g.edges) {
        r += fmt(" (%d,%d,%.15g,%g", (int)e.node1, e.node2 == SIZE_MAX ? -1 : (int)e.node2, e.weight, e.error_probability);
        for (auto o : e.observable_indices) r += fmt(",%d", (int)o);
        r += ")";
    }
    return r;
}
// A new graph with the content that g has now.
static void rebuild(UG& g, UG& out) {
    for (auto& e : g.edges) {
        if (e.node2 == SIZE_MAX) out.add_or_merge_boundary_edge(e.node1, e.observable_indices, e.weight, e.error_probability, pm::DISALLOW);
        else out.add_or_merge_edge(e.node1, e.node2, e.observable_indices, e.weight, e.error_probability, pm::DISALLOW);
    }
    out.set_boundary(g.get_boundary());
}
static Family seqs(const std::string& name, std::vector<Mut> base, std::vector<Mut> ms, int len, std::vector<int> kinds) {
    Family f;
    uint64_t A = ms.size(), NK = kinds.size();
    std::string bs, mss;
    for (auto& b : base) bs += b.name + " ";
    f.name = name + fmt(":L%d", len);
    f.bound = fmt("every sequence of %d graph changes from %d kinds on base [%s], with every choice of %d kinds of call (each on every other syndrome) after each change",
                  len, (int)A, bs.c_str(), (int)NK);
    f.n = ipow(A, len);
    f.chunk = 4;
    auto dec = [=](uint64_t i) {
        std::vector<int> v;
        for (int k = 0; k < len; k++) {
            v.push_back(i % A);
            i /= A;
        }
        return v;
    };
    f.describe = [=](uint64_t i) {
        std::string s = "base " + bs + "then ";
        for (auto x : dec(i)) s += ms[x].name + "; ";
        return s;
    };
    f.run = [=](uint64_t i, Ctx& c) {
        auto seq = dec(i);
        // content after all changes, no call ever made
        UG plain;
        for (auto& b : base) apply(plain, b);
        for (auto x : seq) apply(plain, ms[x]);
        std::string want_props = props(plain);
        std::vector<std::string> want;
        for (auto k : kinds) {
            UG fresh(plain.get_num_nodes(), plain.get_num_observables());
            rebuild(plain, fresh);
            if (props(fresh) != want_props) fail("content differs when built from scratch: " + props(fresh) + " versus " + want_props);
            want.push_back(all(fresh, k));
            c.outcome(std::hash<std::string>()(want.back()));
        }
        uint64_t combos = ipow(NK, len);
        for (uint64_t x = 0; x < combos; x++) {
            UG g;
            for (auto& b : base) apply(g, b);
            uint64_t y = x;
            std::string hist;
            for (int d = 0; d < len; d++) {
                apply(g, ms[seq[d]]);
                int ki = y % NK;
                y /= NK;
                c.transitions++;
                if (d + 1 < len) {
                    uint64_t top = uint64_t{1} << g.get_num_nodes();
                    for (uint64_t s = d & 1; s < top; s += 2) call(g, kinds[ki], s), c.transitions++;
                } else {
                    // the last call decides; then every other kind on the same object
                    for (uint64_t k = 0; k < NK; k++) {
                        int kk = (ki + k) % NK;
                        std::string got = all(g, kinds[kk]);
                        c.transitions += uint64_t{1} << g.get_num_nodes();
                        if (got != want[kk]) {
                            uint64_t z = x;
                            for (int e = 0; e < len; e++) {
                                hist += ms[seq[e]].name + ", " + KN[kinds[z % NK]] + "; ";
                                z /= NK;
                            }
                            fail(fmt("%s after [%s] gave %s but a graph built from scratch gives %s", KN[kinds[kk]], hist.c_str(), got.c_str(),
                                     want[kk].c_str()));
                        }
                        if (x >= NK) break;  // full rotation only for the first histories
                    }
                }
            }
            if (props(g) != want_props) fail("content changed by decoding: " + props(g) + " versus " + want_props);
            c.states++;
            c.traces++;
        }
        c.note(want_props + fmt("; %d interleavings agree", (int)combos));
    };
    return f;
}
// Long scripts of changes on large graphs, with calls in between; after every change a few calls are compared with a
// graph built from scratch.
static std::string bigcall(UG& g, int kind, const Events& ev) {
    size_t no = g.get_num_observables();
    try {
        switch (kind) {
            case DEC: return dstr(decode(g.get_mwpm(), ev, no));
            case COR: return dstr(decode(g.get_mwpm_with_search_graph(), ev, no, true));
            case EDG: {
                auto d = decode_edges(g.get_mwpm_with_search_graph(), ev);
                return d.threw ? "error " : pairs_str(canon(d.edges));
            }
            case MAT: {
                auto d = decode_match(g.get_mwpm(), ev);
                return d.threw ? "error " : pairs_str(canon(d.pairs));
            }
            case FAIL: {
                Events e = ev;
                e.push_back(g.get_num_nodes());
                return dstr(decode(g.get_mwpm(), e, no));
            }
            default: {
                std::string x;
                std::vector<size_t> out;
                g.get_nodes_on_shortest_path_from_source(ev.empty() ? 0 : ev[0], ev.size() < 2 ? SIZE_MAX : ev.back(), out);
                for (auto y : out) x += fmt("%d-", (int)y);
                return x;
            }
        }
    } catch (const std::invalid_argument&) {
        return "rejected";
    }
}
static void big_changes(const G& g, const std::vector<Events>& synd, Ctx& c, int variant, int steps) {
    UG ug;
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % 50});
    c.traces++;
    std::string log;
    for (int k = 0; k < steps; k++) {
        // a change
        int64_t r = seq1009(variant, k);
        auto& e = g.e[seq1009(variant + 1, k) % g.e.size()];
        int64_t nw = seq1009(variant + 2, k) % 9 - (variant % 2);
        std::vector<size_t> ob{(size_t)(seq1009(variant + 3, k) % 50)};
        switch (r % 9) {
            case 0:
            case 1: {
                auto st = r % 2 ? pm::REPLACE : pm::SMALLEST_WEIGHT;
                log = fmt("change %d: edge (%d,%d) to %d", k, e.u, e.v, (int)nw);
                if (e.v < 0) ug.add_or_merge_boundary_edge(e.u, ob, nw, 0.1, st);
                else ug.add_or_merge_edge(e.v, e.u, ob, nw, 0.1, st);
                break;
            }
            case 2: {
                std::set<size_t> b;
                for (int j = 0; j < k % 4; j++) b.insert(seq1009(variant + 4 + j, k) % g.n);
                log = fmt("change %d: boundary of %zu", k, b.size());
                ug.set_boundary(b);
                break;
            }
            case 3:
                log = fmt("change %d: new node", k);
                ug.add_or_merge_edge(e.u, ug.get_num_nodes(), ob, 1 + nw * nw, 0.1, pm::DISALLOW);
                break;
            case 4:
                log = fmt("change %d: boundary edge", k);
                ug.add_or_merge_boundary_edge(seq1009(variant + 5, k) % g.n, ob, 2 + nw * nw, 0.1, pm::REPLACE);
                break;
            case 5:
                log = fmt("change %d: observables", k);
                // beyond 64 another algorithm picks among equal solutions, so stay within
                ug.set_min_num_observables(variant % 3 == 2 && k > steps / 2 ? 64 : 55);
                break;
            case 6:
                log = fmt("change %d: independent", k);
                if (e.v < 0) ug.add_or_merge_boundary_edge(e.u, ob, 1, 0.1, variant % 4 == 1 ? pm::INDEPENDENT : pm::KEEP_ORIGINAL);
                else ug.add_or_merge_edge(e.u, e.v, ob, 1, 0.1, variant % 4 == 1 ? pm::INDEPENDENT : pm::KEEP_ORIGINAL);
                break;
            default: log = fmt("change %d: none", k);
        }
        // calls on both
        UG fresh(ug.get_num_nodes(), ug.get_num_observables());
        rebuild(ug, fresh);
        for (int j = 0; j < 3; j++) {
            int kind = seq1009(variant + 6 + j, k) % NKIND;
            auto& ev = synd[seq1009(variant + 9 + j, k) % synd.size()];
            c.transitions++;
            auto got = bigcall(ug, kind, ev);
            UG f2(fresh.get_num_nodes(), fresh.get_num_observables());
            rebuild(ug, f2);
            auto want = bigcall(f2, kind, ev);
            if (got != want) fail(fmt("after %s: %s of %s gave %.400s but a graph built from scratch gives %.400s", log.c_str(), KN[kind], ev_str(ev).c_str(), got.c_str(), want.c_str()));
            c.outcome(std::hash<std::string>()(got));
        }
        c.states++;
    }
    if (props(ug).empty()) fail("no properties");
    c.note(fmt("%d changes", steps));
}
// A call, then k changes in a row, then the call again: every k up to 600 and near 2^15 and 2^16.
static Family runs(int near) {
    Family f;
    static const char* how[] = {"replaced weights", "other boundary sets", "replaced observables", "independent parallel edges", "a growing number of observables", "new edges"};
    f.name = "runs-of-changes";
    f.bound = fmt("on a path of three nodes: every kind of call, k changes of one of 5 kinds in a row, every kind of call again, for every k up to 600 and within %d of 32768 and 65536; up to 1200 new edges", near);
    f.n = 6 * 4 * 3;
    f.chunk = 1;
    f.case_limit_s = 120;
    f.describe = [](uint64_t i) { return fmt("%s, %s, part %d", how[i / 12], KN[i / 3 % 4], (int)(i % 3)); };
    f.run = [near](uint64_t i, Ctx& c) {
        int h = i / 12, kind = i / 3 % 4, part = i % 3;
        if (h == 5 && part) return;
        UG g;
        g.add_or_merge_edge(0, 1, {0}, 2, 0.1, pm::DISALLOW);
        g.add_or_merge_edge(1, 2, {1}, 2, 0.1, pm::DISALLOW);
        g.add_or_merge_boundary_edge(2, {2}, 2, 0.1, pm::DISALLOW);
        g.add_or_merge_boundary_edge(0, {3}, 3, 0.1, pm::DISALLOW);
        uint64_t n = 0;
        auto change = [&] {
            n++;
            double w = 1 + n * n % 7;
            switch (h) {
                case 0: return g.add_or_merge_edge(n % 2, n % 2 + 1, {n % 2}, w, 0.1, pm::REPLACE);
                case 1: return g.set_boundary(n % 4 == 0 ? std::set<size_t>{} : std::set<size_t>{n % 3});
                case 2: return g.add_or_merge_boundary_edge(n % 2 * 2, {n * 5 % 8}, 2 + n % 2, 0.1, pm::REPLACE);
                case 3: return g.add_or_merge_edge(n % 2, n % 2 + 1, {}, n % 4 < 2 ? 4.5 : -4.25, 0.1, pm::INDEPENDENT);
                case 4: return g.add_or_merge_edge(n % 2, n % 2 + 1, {n % 2, n % 90}, w, 0.1, pm::REPLACE);
                default: return g.add_or_merge_edge(2 + (n - 1) / 2, 3 + (n - 1) / 2, {n % 60}, w, 0.1, pm::SMALLEST_WEIGHT);
            }
        };
        auto answer = [&](UG& x) {
            std::string r;
            for (uint64_t s = 0; s < 8; s++) r += call(x, kind, s) + "|";
            return r;
        };
        std::vector<uint64_t> ks;
        if (part == 0)
            for (uint64_t k = 1; k <= (h == 5 ? 48 : 600); k++) ks.push_back(k);
        else
            for (int d = -near; d <= near; d++) ks.push_back((part == 1 ? 32768 : 65536) + d);
        answer(g);
        for (auto k : ks) {
            for (uint64_t x = 0; x < k; x++) change();
            UG y(g.get_num_nodes(), g.get_num_observables());
            rebuild(g, y);
            auto a = answer(g), b = answer(y);
            c.transitions += k + 16;
            c.states += 8;
            c.traces++;
            if (a != b) fail(fmt("%s after %llu changes (%s) in a row gave %.300s but a rebuilt graph gives %.300s", KN[kind], (unsigned long long)k, how[h], a.c_str(), b.c_str()));
            c.outcome(std::hash<std::string>()(a));
        }
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C22";
    o.assumptions = {"graphs with the same content and edge order resolve ties alike"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        using namespace pm;
        std::vector<Mut> ms{
            edge(0, 1, 1, {0}, DISALLOW, "add"), edge(2, 1, 2, {1}, DISALLOW, "add"), edge(0, 2, -1, {2}, REPLACE, "replace"),
            edge(0, -1, 3, {3}, REPLACE, "replace"), edge(1, -1, 1, {70}, SMALLEST_WEIGHT, "smallest"), edge(0, 1, 5, {1}, REPLACE, "replace"),
            edge(1, 0, -3, {0, 2}, SMALLEST_WEIGHT, "smallest"), edge(0, 1, 1.5, {0}, INDEPENDENT, "independent"), edge(1, 0, 7, {5}, KEEP_ORIGINAL, "keep"),
            edge(3, 2, 1.25, {}, DISALLOW, "add"), bnd({}), bnd({2}), bnd({0, 3}), minobs(3), minobs(80), edge(1, 1, -2, {4}, REPLACE, "replace"),
            edge(0, 2, 1 << 25, {0}, REPLACE, "replace"), bnd({1}), bnd({1, 2})};
        std::vector<Mut> tri{edge(0, 1, 2, {0}, DISALLOW, "add"), edge(1, 2, 2, {1}, DISALLOW, "add"), edge(2, -1, 2, {2}, DISALLOW, "add")};
        std::vector<int> k6{DEC, EDG, MAT, PATH, FAIL, COR}, k4{DEC, EDG, PATH, FAIL};
        f.push_back(seqs("from-empty", {}, ms, 2, k6));
        f.push_back(seqs("from-path", tri, ms, 2, k6));
        std::vector<Mut> sub{ms[0], ms[2], ms[4], ms[6], ms[7], ms[9], ms[10], ms[11], ms[13], ms[14], ms[16], ms[17], ms[18]};
        f.push_back(seqs("from-empty", {}, ms, 3, {DEC, EDG, MAT}));
        f.push_back(seqs("from-path", tri, sub, 3, k4));
        std::vector<Mut> core{ms[2], ms[4], ms[5], ms[11], ms[17], ms[14], ms[9]};
        f.push_back(seqs("from-path-core", tri, core, 4, {DEC, EDG, PATH}));
        f.push_back(runs(th ? 20 : 3));
        if (th) {
            f.push_back(seqs("from-path", tri, ms, 3, k6));
            f.push_back(seqs("from-empty-core", {}, core, 4, k4));
            f.push_back(seqs("from-path-core", tri, core, 5, {DEC, EDG}));
        }
        for (int v = 0; v < (th ? 12 : 4); v++)
            for (int b = 0; b < 2; b++)
                for (auto& t : big_topos(b))
                    f.push_back(big(fmt("changes%d-", v), bigcase(t, 5, 1, 8, {3, 20, 60}, 5000, 1),
                                    [v, th](const G& g, const std::vector<Events>& s, Ctx& c) { big_changes(g, s, c, v, th ? 400 : 60); }));
        for (auto& b : huge_cases(true, 1, 4)) f.push_back(big("changes-", b, [th](const G& g, const std::vector<Events>& s, Ctx& c) { big_changes(g, s, c, 1, th ? 60 : 12); }));
        return f;
    });
}
