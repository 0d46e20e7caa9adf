// C03: unsatisfiable or out-of-range syndromes are rejected in every entry point and do no harm.
#include "big.h"
using namespace vx;

enum Entry { DECODE, DECODE64, EDGES, MATCH, CORR, CORR64, CORR_EDGES, NENTRY };
static const char* NAMES[] = {"decode", "decode64", "to_edges", "to_matched", "decode(corr)", "decode64(corr)", "to_edges(corr)"};

struct World {
    const G& g;
    pm::Mwpm& mwpm;
    size_t num_obs;
    bool neg;
};
// returns true if the call was rejected with invalid_argument
static bool call(World& w, int entry, const std::vector<uint64_t>& ev, Dec* d, DecE* e, DecM* m) {
    Dec d0;
    DecE e0;
    DecM m0;
    switch (entry) {
        case DECODE: d0 = decode(w.mwpm, ev, w.num_obs); break;
        case DECODE64: d0 = decode64(w.mwpm, ev, w.num_obs); break;
        case CORR: d0 = decode(w.mwpm, ev, w.num_obs, true); break;
        case CORR64: d0 = decode64(w.mwpm, ev, w.num_obs, true); break;
        case EDGES: e0 = decode_edges(w.mwpm, ev); break;
        case CORR_EDGES: e0 = decode_edges(w.mwpm, ev, true); break;
        case MATCH: m0 = decode_match(w.mwpm, ev); break;
    }
    if (d) *d = d0;
    if (e) *e = e0;
    if (m) *m = m0;
    return d0.threw || e0.threw || m0.threw;
}
static void good(World& w, int entry, uint64_t s, int64_t best, const std::string& before, Ctx& c) {
    Dec d;
    DecE e;
    DecM m;
    bool rej = call(w, entry, events_of(s), &d, &e, &m);
    c.transitions++;
    std::string what = std::string(NAMES[entry]) + " after " + before;
    if (entry == MATCH) {
        if (rej != w.neg) fail(fmt("%s: %s %s (%s)", what.c_str(), synd_str(s).c_str(), rej ? "rejected" : "not rejected", w.g.str().c_str()));
        if (rej) return;
        uint64_t seen = 0;
        for (auto& p : m.pairs) seen ^= (1ull << p.first) ^ (p.second >= 0 ? 1ull << p.second : 0);
        if (seen != s) fail(fmt("%s: %s matched as %s (%s)", what.c_str(), synd_str(s).c_str(), pairs_str(m.pairs).c_str(), w.g.str().c_str()));
    } else if (entry == EDGES || entry == CORR_EDGES) {
        require_edges(w.g, e, s, best, what.c_str());
    } else {
        d.obs.resize(w.g.e.size());
        require_optimal(w.g, d, s, best, what.c_str());
    }
}
static void check(const G& g, Ctx& c, size_t num_obs, bool all_pairs, bool search = true) {
    auto best = oracle(g);
    bool neg = false;
    for (auto& x : g.e) neg |= x.w < 0;
    pm::UserGraph ug(g.n, num_obs);
    fill(ug, g);
    World w{g, search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm(), num_obs, neg};
    c.traces++;
    std::vector<uint64_t> feas, infeas;
    for (uint64_t s = 0; s < best.size(); s++) (best[s] < INF ? feas : infeas).push_back(s);
    std::vector<int> entries;
    for (int k = 0; k < NENTRY; k++)
        if ((num_obs <= 64 || (k != DECODE64 && k != CORR64)) && (search || k == DECODE || k == DECODE64 || k == MATCH)) entries.push_back(k);
    // bad calls: infeasible syndromes, and out-of-range events added to any syndrome at either end
    std::vector<std::vector<uint64_t>> bad;
    for (auto s : infeas) bad.push_back(events_of(s));
    for (auto s : {uint64_t{0}, uint64_t{1}, (uint64_t)best.size() - 1, (uint64_t)best.size() / 2 + 1}) {
        auto ev = events_of(s & (best.size() - 1));
        for (uint64_t x : {(uint64_t)g.n, (uint64_t)g.n + 3, (uint64_t)1 << 32, UINT64_MAX}) {
            auto e1 = ev, e2 = ev;
            e1.push_back(x);
            e2.insert(e2.begin(), x);
            bad.push_back(e1);
            if (!ev.empty()) bad.push_back(e2);
        }
    }
    size_t rot = 0, rote = 0;
    for (auto& ev : bad)
        for (int k : entries) {
            bool rej = call(w, k, ev, nullptr, nullptr, nullptr);
            c.transitions++;
            c.states++;
            std::string es = "{";
            for (auto x : ev) es += fmt("%llu ", (unsigned long long)x);
            es += "}";
            if (!rej) fail(fmt("%s accepted the impossible syndrome %s (%s)", NAMES[k], es.c_str(), g.str().c_str()));
            std::string before = std::string("rejected ") + NAMES[k] + es;
            if (all_pairs) {
                for (auto s : feas) good(w, entries[rote++ % entries.size()], s, best[s], before, c);
            } else {
                for (int r = 0; r < 2; r++) {
                    uint64_t s = feas[rot++ % feas.size()];
                    good(w, entries[rote++ % entries.size()], s, best[s], before, c);
                }
            }
            c.outcome(ev.size() * 64 + k * 1000 + g.e.size());
        }
    for (auto s : feas)
        for (int k : entries) {
            good(w, k, s, best[s], "all rejections", c);
            c.states++;
        }
    c.note(fmt("%zu rejected syndromes, %zu accepted", bad.size(), feas.size()));
}
// Large graphs: every syndrome in turn through every entry point; accepted exactly when feasible, and then optimal.
static void check_big(const G& g, const std::vector<Events>& synd, Ctx& c, size_t num_obs, bool search) {
    bool neg = false;
    for (auto& x : g.e) neg |= x.w < 0;
    Frontier fr(g, {}, 0);
    pm::UserGraph ug(g.n, num_obs);
    for (size_t k = 0; k < g.e.size(); k++) add_edge(ug, g.e[k], {k % num_obs});
    World w{g, search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm(), num_obs, neg};
    auto idx = edge_index(g);
    c.traces++;
    size_t rot = 0;
    for (auto& ev0 : synd)
        for (int k = 0; k < NENTRY; k++) {
            if ((num_obs > 64 && (k == DECODE64 || k == CORR64)) || (!search && k != DECODE && k != DECODE64 && k != MATCH)) continue;
            auto ev = ev0;
            int64_t best = fr.solve(ev)[0];
            bool oor = rot++ % 3 == 0;
            if (oor) ev.insert(ev.begin() + ev.size() * (rot % 5) / 4, g.n + rot % 7);
            Dec d;
            DecE e;
            DecM m;
            bool rej = call(w, k, ev, &d, &e, &m);
            c.transitions++;
            c.states++;
            bool want = oor || best >= INF || (k == MATCH && neg);
            if (rej != want) fail(fmt("%s of %s %s (%s)", NAMES[k], ev_str(ev).c_str(), rej ? "rejected" : "accepted", g_str(g).c_str()));
            c.outcome(ev.size() * 16 + k * 2 + rej);
            if (rej) continue;
            if (k == EDGES || k == CORR_EDGES) judge_edge_list(g, idx, e, ev, best, std::string(NAMES[k]) + " among rejected calls");
            else if (k != MATCH && d.weight != (double)best)
                fail(fmt("%s of %s among rejected calls reports %.17g, minimum %lld (%s)", NAMES[k], ev_str(ev).c_str(), d.weight, (long long)best, g_str(g).c_str()));
        }
    c.note(fmt("%zu syndromes through all entry points", synd.size()));
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C03";
    o.assumptions = {"each detector is listed at most once in a syndrome",
                     "rejection means std::invalid_argument (ValueError in Python)"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        GraphFn ap = [](const G& g, Ctx& c) { check(g, c, g.e.size(), true); };
        GraphFn ap70 = [](const G& g, Ctx& c) { check(g, c, 70, true); };
        GraphFn one = [](const G& g, Ctx& c) { check(g, c, g.e.size(), false); };
        auto lab = [&](Family x, const char* l) {
            x.name += l;
            f.push_back(x);
        };
        // decoders without a search graph: the plain entry points only
        GraphFn np = [](const G& g, Ctx& c) { check(g, c, g.e.size(), true, false); };
        GraphFn no = [](const G& g, Ctx& c) { check(g, c, g.e.size(), false, false); };
        const int64_t A = ABSENT;
        lab(fam(AllWeights{complete(2, 1), {A, -1, 0, 2}}, np, 4), ":plain");
        lab(fam(AllWeights{complete(4, 0), {A, 1, 3}}, np, 16), ":plain");
        lab(fam(AllWeights{complete(5, 0), {A, 2}}, no, 16), ":plain");
        for (auto& t : {ring(7, 0), petersen(false), triangles(3, false), wheel(6, false), complete(7, 0)}) lab(fam(QuadWeights{t, 3, 1}, no, 1), ":plain");
        f.push_back(fam(AllWeights{complete(1, 1), {A, -1, 0, 2}}, ap, 1));
        f.push_back(fam(AllWeights{complete(2, 2), {A, -1, 0, 2}}, ap, 4));
        f.push_back(fam(AllWeights{complete(3, 1), {A, -1, 1, 2}}, ap, 16));
        f.push_back(fam(AllWeights{complete(4, 0), {A, 1, 2}}, ap, 16));
        lab(fam(AllWeights{complete(3, 2), {A, -1, 1}}, ap70, 8), ":70obs");
        lab(fam(AllWeights{complete(4, 0), {A, 1}}, ap70, 8), ":70obs");
        f.push_back(fam(AllWeights{complete(4, 1), {A, 1, -2}}, one, 16));
        f.push_back(fam(AllWeights{complete(5, 0), {1, 2}}, one, 32));
        f.push_back(fam(AllWeights{complete(5, 1), {A, 1}}, one, 32));
        f.push_back(fam(AllWeights{triangles(2, false), {A, 1}}, one, 4));
        for (auto& t : {ring(7, 0), ring(9, 0), petersen(false), triangles(3, false), wheel(6, false), complete(7, 0), mobius(8, false), cube(2, 2, 2, false)}) {
            f.push_back(fam(QuadWeights{t, th ? 7 : 4, 1}, one, 1));
            f.push_back(fam(QuadWeights{t, 4, -1}, one, 1));
        }
        for (auto& t : big_topos(false)) {
            auto bc = [&](int lo) { return bigcase(t, 4, lo, th ? 30 : 10, {3, 25, 60}, th ? 200 : 2000, th ? 20 : 2); };
            f.push_back(big("plain-", bc(1), [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 60, false); }));
            f.push_back(big("", bc(0), [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 64, true); }));
            f.push_back(big("obs70-", bc(-1), [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 70, true); }));
        }
        for (auto& b : huge_cases(false, 0, 4)) {
            f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 64, true); }));
            f.push_back(big("obs70-", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 70, true); }));
        }
        auto crowd = crowd_cases(th ? 40 : 4, false);
        auto trees = tree_cases(th ? 20 : 2, 7);
        for (auto& b : trees) {  // also odd syndromes
            auto even = b.synd;
            for (auto e : even)
                if (e.size() > 1) {
                    e.erase(e.begin() + e.size() / 2);
                    b.synd.push_back(e);
                }
            b.synd_bound += ", and all of these without their middle node";
        }
        crowd.insert(crowd.end(), trees.begin(), trees.end());
        for (auto& b : crowd) {
            f.push_back(big("", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 64, true); }));
            f.push_back(big("obs70-", b, [](const G& g, const std::vector<Events>& s, Ctx& c) { check_big(g, s, c, 70, true); }));
        }
        if (th) {
            f.push_back(fam(AllWeights{complete(4, 2), {A, -1, 1, 2}}, one, 64));
            f.push_back(fam(AllWeights{complete(4, 0), {A, -1, 0, 1, 2}}, ap, 64));
            f.push_back(fam(AllWeights{complete(5, 0), {A, 1, 2}}, one, 64));
        }
        return f;
    });
}
