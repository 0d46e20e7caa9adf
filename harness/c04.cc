// C04: every sequence of decode calls on one decoder gives, call by call, what a fresh decoder gives.
#include "big.h"
using namespace vx;

struct Cfg {
    std::string name;
    G g;
    size_t num_obs;
    std::string dem;      // if set, a correlated model instead of g
    std::vector<uint64_t> synds;
    std::vector<int> kinds;
};
enum Kind { DEC, DEC64, EDG, MAT, COR, CORE, OUT, NK };
static const char* KN[] = {"decode", "decode64", "edges", "matched", "correlated", "correlated-edges", "out-of-range"};

static pm::Mwpm build(const Cfg& cfg) {
    if (!cfg.dem.empty()) {
        stim::DetectorErrorModel dem(cfg.dem.c_str());
        return pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, true, true);
    }
    pm::UserGraph ug(cfg.g.n, cfg.num_obs);
    fill(ug, cfg.g);
    return ug.to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
}
static std::string result(pm::Mwpm& m, int kind, uint64_t s, size_t num_obs, int n) {
    auto ev = events_of(s);
    std::string r;
    auto dec = [&](const Dec& d) {
        if (d.threw) return std::string("error");
        std::string x = fmt("w=%.17g obs=", d.weight);
        for (auto b : d.obs) x += '0' + b;
        return x;
    };
    switch (kind) {
        case DEC: return dec(decode(m, ev, num_obs));
        case DEC64: return dec(decode64(m, ev, num_obs));
        case COR: return dec(decode(m, ev, num_obs, true));
        case EDG:
        case CORE: {
            DecE e = decode_edges(m, ev, kind == CORE);
            return e.threw ? "error" : pairs_str(canon(e.edges));
        }
        case MAT: {
            DecM d = decode_match(m, ev);
            return d.threw ? "error" : pairs_str(canon(d.pairs)) + fmt(" obs=%llx", (unsigned long long)d.obs);
        }
        default: {
            ev.push_back(n + 1);
            return dec(decode(m, ev, num_obs));
        }
    }
}
struct Op {
    int kind;
    uint64_t s;
};
static std::vector<Op> ops_of(const Cfg& c) {
    std::vector<Op> v;
    for (int k : c.kinds)
        for (auto s : c.synds) v.push_back({k, s});
    return v;
}
static std::vector<uint64_t> all_synds(int n) {
    std::vector<uint64_t> v;
    for (uint64_t s = 0; s < (uint64_t{1} << n); s++) v.push_back(s);
    return v;
}
static Family fam_of(Cfg cfg, int depth) {
    Family f;
    auto ops = ops_of(cfg);
    uint64_t A = ops.size();
    f.name = cfg.name + fmt(":L%d", depth);
    f.bound = fmt("every sequence of %d calls from the %d (kind, syndrome) calls on %s", depth, (int)A,
                  cfg.dem.empty() ? cfg.g.str().c_str() : cfg.dem.c_str());
    // one case = one first call; all continuations inside
    f.n = A;
    f.chunk = 1;
    int n = cfg.dem.empty() ? cfg.g.n : (int)stim::DetectorErrorModel(cfg.dem.c_str()).count_detectors();
    f.describe = [=](uint64_t i) { return fmt("%s first call %s%s", cfg.name.c_str(), KN[ops[i].kind], synd_str(ops[i].s).c_str()); };
    f.run = [=](uint64_t i, Ctx& c) {
        std::vector<std::string> fresh;
        for (auto& o : ops) {
            auto m = build(cfg);
            fresh.push_back(result(m, o.kind, o.s, cfg.num_obs, n));
            c.outcome(std::hash<std::string>()(fresh.back()));
        }
        uint64_t total = 1;
        for (int d = 1; d < depth; d++) total *= A;
        // Each sequence runs on a decoder of its own for depth <= 3 prefixes; one shared decoder keeps the
        // history of all earlier sequences too, which only adds history.
        pm::Mwpm m = build(cfg);
        for (uint64_t x = 0; x < total; x++) {
            std::string log;
            uint64_t y = x;
            if (x % 4096 == 0) m = build(cfg);
            for (int d = 0; d < depth; d++) {
                uint64_t o = d == 0 ? i : y % A;
                if (d) y /= A;
                std::string r = result(m, ops[o].kind, ops[o].s, cfg.num_obs, n);
                c.transitions++;
                if (r != fresh[o]) {
                    std::string h;
                    uint64_t z = x;
                    for (int e = 0; e <= d; e++) {
                        uint64_t q = e == 0 ? i : z % A;
                        if (e) z /= A;
                        h += fmt("%s%s ", KN[ops[q].kind], synd_str(ops[q].s).c_str());
                    }
                    fail(fmt("last call of history [%s] gave %s but a fresh decoder gives %s (%s)", h.c_str(), r.c_str(), fresh[o].c_str(),
                             cfg.dem.empty() ? cfg.g.str().c_str() : cfg.dem.c_str()));
                }
            }
            c.states++;
            c.traces++;
        }
        c.note(fmt("%llu sequences agree", (unsigned long long)total));
    };
    return f;
}
// Long histories on large graphs: all kinds of calls on all syndromes, in several orders, against fresh decoders.
static std::string big_result(pm::Mwpm& m, int kind, const Events& ev0, size_t num_obs, int n) {
    Events ev = ev0;
    auto dec = [&](const Dec& d) {
        if (d.threw) return std::string("error");
        std::string x = fmt("w=%.17g obs=", d.weight);
        for (auto b : d.obs) x += '0' + b;
        return x;
    };
    switch (kind) {
        case DEC: return dec(decode(m, ev, num_obs));
        case DEC64: return dec(decode64(m, ev, num_obs));
        case COR: return dec(decode(m, ev, num_obs, true));
        case EDG:
        case CORE: {
            DecE e = decode_edges(m, ev, kind == CORE);
            return e.threw ? "error" : pairs_str(canon(e.edges));
        }
        case MAT: {
            DecM d = decode_match(m, ev);
            return d.threw ? "error" : pairs_str(canon(d.pairs)) + fmt(" obs=%llx", (unsigned long long)d.obs);
        }
        default: {
            ev.insert(ev.begin() + ev.size() / 2, n + 1);
            return dec(decode(m, ev, num_obs));
        }
    }
}
static void big_history(const G& g, const std::vector<Events>& synd, Ctx& c, size_t num_obs, bool search) {
    std::vector<int> kinds;
    for (int k = 0; k < NK; k++)
        if ((num_obs <= 64 || k != DEC64) && (search || k == DEC || k == DEC64 || k == MAT || k == OUT)) kinds.push_back(k);
    auto make = [&] {
        pm::UserGraph ug(g.n, num_obs);
        for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % num_obs});
        return ug.to_mwpm(pm::NUM_DISTINCT_WEIGHTS, search);
    };
    size_t N = synd.size() * kinds.size();
    std::vector<std::string> fresh(N);
    for (size_t i = 0; i < N; i++) {
        auto m = make();
        fresh[i] = big_result(m, kinds[i % kinds.size()], synd[i / kinds.size()], num_obs, g.n);
        c.outcome(std::hash<std::string>()(fresh[i]));
    }
    auto m = make();
    c.traces++;
    // orders: i -> (a i) mod N for several a prime to N, so that every call meets many different predecessors
    for (size_t a : {size_t{1}, N - 1, size_t{7}, size_t{101}}) {
        size_t x = a, y = N;
        while (y) {
            size_t z = x % y;
            x = y;
            y = z;
        }
        if (x != 1) continue;
        for (size_t i = 0; i < N; i++) {
            size_t j = i * a % N;
            auto r = big_result(m, kinds[j % kinds.size()], synd[j / kinds.size()], num_obs, g.n);
            c.transitions++;
            c.states++;
            if (r != fresh[j])
                fail(fmt("call %zu (order %zu) of a long history, %s%s, gave %.300s but a fresh decoder gives %.300s (%s)", i, a, KN[kinds[j % kinds.size()]],
                         ev_str(synd[j / kinds.size()]).c_str(), r.c_str(), fresh[j].c_str(), g_str(g).c_str()));
        }
    }
    c.note(fmt("%zu calls in several orders agree", N));
}
// Long gaps: a call that touches one component of the graph, then k calls that touch only the other, then the first
// component again - for every k up to 700 and every k near 2^15 and 2^16.
static std::vector<uint64_t> gap_list(uint64_t i, int near) {
    std::vector<uint64_t> ks;
    if (i == 0) {
        for (uint64_t k = 0; k <= 700; k++) ks.push_back(k);
    } else {
        uint64_t c = i <= 8 ? 32768 : 65536;
        for (int64_t d = -near; d <= near; d++)
            if ((uint64_t)(d + near) % 8 == (i - 1) % 8) ks.push_back(c + d);
    }
    return ks;
}
static Family gap_of(Cfg cfg, uint64_t lo, int near) {
    Family f;
    f.name = cfg.name + ":gaps";
    f.bound = "on a graph of two components (nodes below " + fmt("%d", __builtin_ctzll(lo)) + " and the others): a call on the first, k calls on the second, a call on the first, for every k up to 700 and within " + fmt("%d", near) + " of 32768 and 65536; every kind of call: " +
              (cfg.dem.empty() ? cfg.g.str() : cfg.dem);
    auto kinds = cfg.kinds;
    f.n = kinds.size() * 17;
    f.chunk = 1;
    f.case_limit_s = 120;
    int n = cfg.dem.empty() ? cfg.g.n : (int)stim::DetectorErrorModel(cfg.dem.c_str()).count_detectors();
    f.describe = [=](uint64_t i) { return fmt("%s %s gaps %d", cfg.name.c_str(), KN[kinds[i / 17]], (int)(i % 17)); };
    f.run = [=](uint64_t i, Ctx& c) {
        int kind = kinds[i / 17];
        std::vector<uint64_t> first, second;
        for (uint64_t s = 1; s < uint64_t{1} << n; s++) {
            if (s < lo) first.push_back(s);
            if (s % lo == 0 && __builtin_popcountll(s) <= 2) second.push_back(s);
        }
        std::map<uint64_t, std::string> fresh;
        for (auto* v : {&first, &second})
            for (auto s : *v) {
                auto m = build(cfg);
                fresh[s] = result(m, kind, s, cfg.num_obs, n);
            }
        auto m = build(cfg);
        uint64_t a = 0, b = 0;
        auto call = [&](uint64_t s, uint64_t k) {
            auto r = result(m, kind, s, cfg.num_obs, n);
            c.transitions++;
            if (r != fresh[s])
                fail(fmt("%s%s after %llu calls elsewhere gave %s but a fresh decoder gives %s (%s)", KN[kind], synd_str(s).c_str(), (unsigned long long)k, r.c_str(), fresh[s].c_str(),
                         cfg.dem.empty() ? cfg.g.str().c_str() : cfg.dem.c_str()));
        };
        for (auto k : gap_list(i % 17, near)) {
            call(first[a++ % first.size()], k);
            for (uint64_t q = 0; q < k; q++) call(second[b++ % second.size()], q);
            c.states++;
            c.traces++;
        }
        call(first[a % first.size()], 0);
    };
    return f;
}
static G quad(const Topo& t, int m, int lo, int a, int b, int cc) {
    QuadWeights q{t, m, lo};
    return q.at(a + b * m + cc * m * m);
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C04";
    o.assumptions = {"ties are resolved deterministically by the implementation, so results compare exactly (edge and pair lists as sets)"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        std::vector<int> plain{DEC, DEC64, EDG, MAT, COR, CORE, OUT};
        std::vector<int> some{DEC, EDG, MAT, OUT};
        auto add = [&](const char* nm, G g, size_t nobs, std::vector<int> kinds, int depth) {
            Cfg c;
            c.name = nm;
            c.g = g;
            c.num_obs = nobs ? nobs : g.e.size();
            c.kinds = kinds;
            c.synds = all_synds(g.n);
            f.push_back(fam_of(c, depth));
        };
        int x = th ? 1 : 0;
        G tri{3, {{0, 1, 2}, {1, 2, 2}, {0, 2, 2}}};
        G tribnd{3, {{0, 1, 2}, {1, 2, 2}, {0, 2, 1}, {0, -1, 5}}};
        G path{3, {{0, -1, 1}, {0, 1, 1}, {1, 2, 1}, {2, -1, 1}}};
        G negtri{3, {{0, 1, -2}, {1, 2, 1}, {0, 2, 3}, {1, -1, -1}}};
        G split{4, {{0, 1, 1}, {2, 3, 2}, {3, -1, 1}}};
        std::vector<int> nine{DEC, EDG, COR, CORE, OUT};
        add("triangle", tri, 0, plain, 3 + x);
        add("triangle+B", tribnd, 0, plain, 3 + x);
        add("path3", path, 0, plain, 3 + x);
        add("negtriangle", negtri, 0, plain, 3 + x);
        add("split", split, 0, some, 3 + x);
        add("triangle70", tri, 70, nine, 3);
        add("neg70", negtri, 70, nine, 3);
        add("triangle-L4", tri, 0, {DEC, EDG, OUT}, 4 + x);
        add("neg-L4", negtri, 0, {DEC, MAT, EDG}, 4 + x);
        add("K4", quad(complete(4, 2), 5, 1, 1, 2, 0), 0, plain, 3);
        add("K5", quad(complete(5, 0), 5, 1, 2, 1, 3), 0, some, 3);
        add("ring5", quad(ring(5, 0), 3, 1, 0, 0, 1), 0, {DEC, EDG, MAT}, 3);
        add("triangles2", quad(triangles(2, true), 4, 1, 1, 1, 1), 0, some, th ? 3 : 2);
        add("grid33", quad(grid(3, 3, 1, true), 4, 0, 1, 2, 3), 0, {DEC}, 2);
        add("ring7neg", quad(ring(7, 1), 5, -2, 1, 2, 3), 0, {DEC, EDG, OUT}, 2);
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b)) {
                auto bc = [&](int lo) { return bigcase(t, 4, lo, th ? 30 : 10, {3, 25, 60}, th ? 500 : 5000, th ? 20 : 2); };
                f.push_back(big("plain-", bc(1), [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 60, false); }));
                f.push_back(big("", bc(0), [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 64, true); }));
                f.push_back(big("obs70-", bc(-1), [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 70, true); }));
            }
        for (auto& b : huge_cases(true, 0, 4)) f.push_back(big("obs70-", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 70, true); }));
        auto crowd = crowd_cases(th ? 20 : 2, true);
        auto trees = tree_cases(th ? 10 : 1, 9);
        crowd.insert(crowd.end(), trees.begin(), trees.end());
        for (auto& b : crowd) {
            f.push_back(big("plain-", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 60, false); }));
            f.push_back(big("obs70-", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { big_history(g, s, c, 70, true); }));
        }
        for (int nobs : {14, 70})
            for (int neg : {0, 2}) {
                Cfg c;
                c.name = fmt("two-components-%d-%d", nobs, neg);
                c.g = G{6, {{0, 1, 2 - neg}, {1, 2, 3}, {0, 2, 4}, {0, -1, 3}, {2, -1, 5}, {3, 4, 2}, {4, 5, 3 - neg}, {3, 5, 4}, {3, -1, 4}, {5, -1, 3}}};
                c.num_obs = nobs;
                c.kinds = {DEC, EDG, COR};
                if (!neg) c.kinds.push_back(MAT);
                f.push_back(gap_of(c, 8, th ? 20 : 4));
            }
        for (int nobs : {2, 70}) {
            Cfg c;
            c.name = fmt("two-models-%d", nobs);
            c.dem = fmt("error(0.1) D0 ^ D1 D2 L0\nerror(0.2) D1 ^ D0 D1 L1\nerror(0.05) D2\nerror(0.15) D0 D2 ^ D1\nerror(0.3) D2 ^ D0\nerror(0.1) D3 ^ D4 D5 L0\nerror(0.2) D4 ^ D3 D4 L1\nerror(0.05) D5\nerror(0.15) D3 D5 ^ D4\nerror(0.3) D5 ^ D3\nlogical_observable L%d\n", nobs - 1);
            c.num_obs = nobs;
            c.kinds = {DEC, COR, CORE};
            f.push_back(gap_of(c, 8, th ? 20 : 4));
        }
        for (int v = 0; v < 2; v++) {
            Cfg c;
            c.name = v ? "dem-correlated-2" : "dem-correlated";
            c.dem = v ? "error(0.1) D0 ^ D1 D2 L0\nerror(0.2) D1 ^ D0 D1 L1\nerror(0.05) D2\nerror(0.15) D0 D2 ^ D1\nerror(0.3) D2 ^ D0\n"
                      : "error(0.1) D0 D1 L0 ^ D2 D3 L1\nerror(0.15) D1 D2\nerror(0.08) D0 ^ D3 L0\nerror(0.2) D0 D3\nerror(0.1) D2 D3\n";
            c.num_obs = 2;
            c.kinds = plain;
            c.synds = all_synds(v ? 3 : 4);
            f.push_back(fam_of(c, v ? 3 + x : 3));
        }
        return f;
    });
}
