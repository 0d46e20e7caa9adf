// C07: predictions do not depend on how many or which observables exist.
#include <array>
#include <set>

#include "big.h"
using namespace vx;

using ObsSets = std::vector<std::vector<size_t>>;
constexpr size_t MAXOBS = 256;
using Bits = std::array<uint64_t, MAXOBS / 64>;

static void check(const G& g, const ObsSets& obs, size_t declared, Ctx& c) {
    size_t E = g.e.size();
    size_t need = declared;
    for (auto& o : obs)
        for (auto x : o) need = std::max(need, x + 1);
    // reference: all edge subsets
    std::vector<int64_t> best(size_t{1} << g.n, INF);
    std::vector<std::set<Bits>> opt(size_t{1} << g.n);
    for (uint32_t m = 0; m < (1u << E); m++) {
        uint64_t s = 0;
        int64_t w = 0;
        Bits b{};
        for (size_t k = 0; k < E; k++)
            if (m >> k & 1) {
                s ^= ebits(g.e[k]);
                w += g.e[k].w;
                for (auto x : obs[k]) b[x / 64] ^= uint64_t{1} << (x % 64);
            }
        if (w < best[s]) {
            best[s] = w;
            opt[s].clear();
        }
        if (w == best[s]) opt[s].insert(b);
    }
    pm::UserGraph ug(g.n, declared);
    for (size_t k = 0; k < E; k++) {
        if (g.e[k].v < 0)
            ug.add_or_merge_boundary_edge(g.e[k].u, obs[k], g.e[k].w, 0.1, pm::DISALLOW);
        else
            ug.add_or_merge_edge(g.e[k].u, g.e[k].v, obs[k], g.e[k].w, 0.1, pm::DISALLOW);
    }
    auto desc = [&] {
        std::string s = g.str() + fmt(" declared=%zu obs:", declared);
        for (auto& o : obs) {
            s += "{";
            for (auto x : o) s += fmt("%zu ", x);
            s += "}";
        }
        return s;
    };
    if (ug.get_num_observables() != need) fail(fmt("get_num_observables()=%zu, expected %zu: ", ug.get_num_observables(), need) + desc());
    for (int search = 0; search < 2; search++) {
        auto& mwpm = search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
        c.traces++;
        if (mwpm.flooder.graph.num_observables != need) fail("decoder's num_observables wrong: " + desc());
        for (uint64_t s = 0; s < best.size(); s++) {
            if (best[s] >= INF) continue;
            auto ev = events_of(s);
            std::vector<uint8_t> buf(need + 16), init(need + 16);
            for (size_t k = 0; k < buf.size(); k++) init[k] = buf[k] = (k * 5 + s) % 3 == 0;
            pm::total_weight_int w = 10;
            pm::decode_detection_events(mwpm, ev, buf.data(), w, false);
            c.transitions++;
            Bits b{};
            for (size_t k = 0; k < buf.size(); k++) {
                uint8_t x = buf[k] ^ init[k];
                if (x > 1) fail("prediction byte not 0/1: " + desc());
                if (k >= need && x) fail(fmt("byte %zu beyond the observables was written: ", k) + desc());
                if (k < need && x) b[k / 64] ^= uint64_t{1} << (k % 64);
            }
            if (!opt[s].count(b)) {
                std::string p;
                for (size_t k = 0; k < need; k++)
                    if (b[k / 64] >> (k % 64) & 1) p += fmt("%zu ", k);
                fail(fmt("prediction {%s} for %s is not that of any minimum-weight edge set: ", p.c_str(), synd_str(s).c_str()) + desc());
            }
            double got = (double)(w - 10) / mwpm.flooder.graph.normalising_constant;
            if (got != (double)best[s]) fail(fmt("weight %.17g added for %s, expected %lld: ", got, synd_str(s).c_str(), (long long)best[s]) + desc());
            if (need <= 64) {
                auto r = pm::decode_detection_events_for_up_to_64_observables(mwpm, ev, false);
                c.transitions++;
                Bits b2{};
                b2[0] = r.obs_mask;
                if (!opt[s].count(b2) || (double)r.weight / mwpm.flooder.graph.normalising_constant != (double)best[s])
                    fail(fmt("bit-mask prediction %llx for %s wrong: ", (unsigned long long)r.obs_mask, synd_str(s).c_str()) + desc());
            }
            c.states++;
            c.outcome(b[0] * 3 + b[1] * 5 + b[2] + best[s]);
            c.note(fmt("%s->%lld", synd_str(s).c_str(), (long long)best[s]));
        }
    }
}
// Large graphs with three tracked observables at every listed triple of indices.
static void check_large(const G& g, const std::vector<Events>& synd, Ctx& c) {
    std::vector<uint32_t> masks;
    for (size_t k = 0; k < g.e.size(); k++) masks.push_back(tracked_mask(k));
    Frontier fr(g, masks, 3);
    std::vector<std::vector<int64_t>> want;
    for (auto& ev : synd) want.push_back(fr.solve(ev));
    const std::vector<std::vector<size_t>> triples{{0, 1, 2}, {0, 31, 32}, {61, 62, 63}, {0, 63, 64}, {63, 64, 65}, {7, 127, 128}, {255, 256, 257}, {2, 1000, 69999}};
    for (auto& tr : triples)
        for (int search = 0; search < 2; search++) {
            size_t need = tr[2] + 1;
            pm::UserGraph ug(g.n, 0);
            for (size_t k = 0; k < g.e.size(); k++) {
                std::vector<size_t> o;
                for (int j = 0; j < 3; j++)
                    if (masks[k] >> j & 1) o.push_back(tr[j]);
                add_edge(ug, g.e[k], o);
            }
            if (ug.get_num_observables() != need) fail(fmt("%zu observables, expected %zu (%s)", ug.get_num_observables(), need, g_str(g).c_str()));
            auto& mwpm = search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
            c.traces++;
            for (size_t i = 0; i < synd.size(); i++) {
                auto& by = want[i];
                int64_t best = *std::min_element(by.begin(), by.end());
                if (best >= INF) continue;
                std::vector<uint8_t> buf(need + 8, 1);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(mwpm, synd[i], buf.data(), w, false);
                c.transitions++;
                c.states++;
                uint32_t o = 0;
                for (size_t k = 0; k < buf.size(); k++) {
                    if (buf[k] > 1) fail(fmt("prediction byte %d (%s)", buf[k], g_str(g).c_str()));
                    if (buf[k]) continue;
                    int j = k == tr[0] ? 0 : k == tr[1] ? 1 : k == tr[2] ? 2 : -1;
                    if (j < 0) fail(fmt("observable %zu on no edge predicted for %s (%s)", k, ev_str(synd[i]).c_str(), g_str(g).c_str()));
                    o |= 1u << j;
                }
                if (by[o] != best || (double)w / mwpm.flooder.graph.normalising_constant != (double)best)
                    fail(fmt("observables at %zu,%zu,%zu: %s predicted as %u (weight %lld), reported weight %lld, minimum %lld (%s)", tr[0], tr[1], tr[2], ev_str(synd[i]).c_str(), o,
                             (long long)by[o], (long long)w, (long long)best, g_str(g).c_str()));
                c.outcome(best * 64 + o * 8 + need % 8);
            }
        }
    c.note(fmt("%zu syndromes, %zu index triples", synd.size(), triples.size()));
}
// Edges that carry many observables. fat > 0: edge k carries a block of fat observables of its own; fat == 0: observable j
// is the parity of some of three tracked observables, so that every observable lies on about half of the edges.
static void check_fat(const G& g, const std::vector<Events>& synd, Ctx& c, size_t fat, size_t total, bool search) {
    std::vector<uint32_t> masks;
    for (size_t k = 0; k < g.e.size(); k++) masks.push_back(tracked_mask(k));
    Frontier fr(g, masks, fat ? 0 : 3);
    size_t need = fat ? std::max(total, fat * g.e.size()) : total;
    pm::UserGraph ug(g.n, need);
    for (size_t k = 0; k < g.e.size(); k++) {
        std::vector<size_t> o;
        if (fat)
            for (size_t j = 0; j < fat; j++) o.push_back(k + g.e.size() * j);
        else
            for (size_t j = 0; j < total; j++)
                if (__builtin_parity(masks[k] & (j % 8))) o.push_back(j);
        add_edge(ug, g.e[k], o);
    }
    auto& mwpm = search ? ug.get_mwpm_with_search_graph() : ug.get_mwpm();
    c.traces++;
    for (auto& ev : synd) {
        auto by = fr.solve(ev);
        int64_t best = *std::min_element(by.begin(), by.end());
        if (best >= INF) continue;
        for (int half = 0; half < (need <= 64 ? 2 : 1); half++) {
            Dec d = half ? decode64(mwpm, ev, need) : decode(mwpm, ev, need);
            c.transitions++;
            c.states++;
            std::string where = fmt("%s with %zu observables (%s)", ev_str(ev).c_str(), need, g_str(g).c_str());
            if (d.threw) fail("rejected: " + where);
            if (d.weight != (double)best) fail(fmt("weight %.17g, minimum %lld: ", d.weight, (long long)best) + where);
            if (fat) {
                std::vector<uint8_t> used(d.obs.begin(), d.obs.begin() + g.e.size());
                for (size_t k = 0; k < need; k++)
                    if (d.obs[k] != (k < fat * g.e.size() ? used[k % g.e.size()] : 0)) fail(fmt("observables %zu and %zu lie on the same edge but are predicted differently: ", k, k % g.e.size()) + where);
                judge_edge_set(g, used, ev, best, "prediction");
            } else {
                uint32_t o = 0;
                for (int j = 0; j < 3; j++)
                    if (d.obs[1 << j]) o |= 1u << j;
                for (size_t k = 0; k < need; k++)
                    if (d.obs[k] != __builtin_parity(o & (k % 8))) fail(fmt("observable %zu contradicts observables 1, 2, 4: ", k) + where);
                if (by[o] != best) fail(fmt("predicted parities %u need weight %lld, minimum %lld: ", o, (long long)by[o], (long long)best) + where);
            }
            c.outcome(best * 64 + ev.size());
        }
    }
    c.note(fmt("%zu syndromes", synd.size()));
}
static Family assign(const std::string& nm, G g, ObsSets options, std::vector<size_t> declared) {
    Family f;
    size_t E = g.e.size();
    uint64_t per = ipow(options.size(), E);
    f.name = nm;
    std::string os, ds;
    for (auto& o : options) {
        os += "{";
        for (auto x : o) os += fmt("%zu ", x);
        os += "} ";
    }
    for (auto d : declared) ds += fmt("%zu ", d);
    f.bound = fmt("%s: every assignment of the observable sets %sto the edges, declared observable counts {%s}, with and without search graph, every syndrome",
                  g.str().c_str(), os.c_str(), ds.c_str());
    f.n = per * declared.size();
    f.chunk = 64;
    auto at = [=](uint64_t i) {
        ObsSets o;
        uint64_t x = i % per;
        for (size_t k = 0; k < E; k++) {
            o.push_back(options[x % options.size()]);
            x /= options.size();
        }
        return o;
    };
    f.run = [=](uint64_t i, Ctx& c) { check(g, at(i), declared[i / per], c); };
    f.describe = [=](uint64_t i) {
        std::string s = g.str() + fmt(" declared=%zu obs:", declared[i / per]);
        for (auto& o : at(i)) {
            s += "{";
            for (auto x : o) s += fmt("%zu ", x);
            s += "}";
        }
        return s;
    };
    return f;
}
// Every graph of a weight space with edge k carrying observable base+k, for every base across the 64 boundary.
static Family sliding(const AllWeights& a, std::vector<size_t> bases) {
    Family f;
    f.name = "sliding:" + a.t.name;
    f.bound = fmt("every assignment of %s to %s, edge k carrying observables {base+k, 2k}, base in a list of %d values across 64 and 128", alpha_str(a.alphabet).c_str(),
                  a.t.name.c_str(), (int)bases.size());
    f.n = a.size() * bases.size();
    f.chunk = 64;
    f.run = [=](uint64_t i, Ctx& c) {
        G g = a.at(i / bases.size());
        size_t b = bases[i % bases.size()];
        ObsSets o;
        for (size_t k = 0; k < g.e.size(); k++) o.push_back(2 * k == b + k ? std::vector<size_t>{b + k} : std::vector<size_t>{b + k, 2 * k});
        check(g, o, 0, c);
    };
    f.describe = [=](uint64_t i) { return a.at(i / bases.size()).str() + fmt(" base=%zu", bases[i % bases.size()]); };
    return f;
}
// Larger graphs with one observable per edge, indices starting below, at or above 64.
static void check_base(const G& g, size_t base, Ctx& c) {
    auto best = oracle(g);
    pm::UserGraph ug(g.n);
    for (size_t k = 0; k < g.e.size(); k++) {
        if (g.e[k].v < 0)
            ug.add_or_merge_boundary_edge(g.e[k].u, {base + k}, g.e[k].w, 0.1, pm::DISALLOW);
        else
            ug.add_or_merge_edge(g.e[k].u, g.e[k].v, {base + k}, g.e[k].w, 0.1, pm::DISALLOW);
    }
    auto& mwpm = ug.get_mwpm();
    c.traces++;
    for (uint64_t s = 0; s < best.size(); s++) {
        if (best[s] >= INF) continue;
        Dec d = decode(mwpm, events_of(s), base + g.e.size());
        for (size_t k = 0; k < base; k++)
            if (d.obs[k]) fail(fmt("observable %zu on no edge was predicted (%s)", k, g.str().c_str()));
        d.obs.erase(d.obs.begin(), d.obs.begin() + base);
        require_optimal(g, d, s, best[s], fmt("decode with observables from %zu", base).c_str());
        c.transitions++;
        c.states++;
        c.outcome(best[s] * 64 + s % 64);
    }
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C07";
    o.assumptions = {"an edge lists each observable at most once"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT;
        G path{3, {{0, -1, 1}, {0, 1, 1}, {1, 2, 2}, {2, -1, 1}}};
        G tri{3, {{0, 1, 2}, {1, 2, 3}, {0, 2, 4}, {1, -1, 1}}};
        G neg{3, {{0, 1, -2}, {1, 2, 3}, {0, 2, -1}, {1, -1, -1}}};
        G loop{2, {{0, 1, 2}, {0, 0, -1}, {1, -1, -3}, {1, 1, 1}}};
        ObsSets six{{}, {0}, {63}, {64}, {0, 64}, {127, 1}};
        ObsSets small{{}, {0}, {1}, {0, 1}, {31}, {32}, {63, 2}};
        std::vector<size_t> decl{0, 63, 64, 65, 128, 129};
        int idx = 0;
        for (auto& g : {path, tri, neg, loop}) {
            f.push_back(assign(fmt("cross64-%d", idx), g, six, decl));
            f.push_back(assign(fmt("below64-%d", idx), g, small, {0, 64, 65}));
            idx++;
        }
        std::vector<size_t> bases{0, 1, 30, 31, 32, 33, 57, 58, 59, 60, 61, 62, 63, 64, 65, 120, 127, 128, 190};
        f.push_back(sliding(AllWeights{complete(3, 3), {A, 1, 2}}, bases));
        f.push_back(sliding(AllWeights{complete(3, 2), {-1, 1, 3}}, bases));
        f.push_back(sliding(AllWeights{complete(4, 1), th ? std::vector<int64_t>{1, 2, 4} : std::vector<int64_t>{1, 2}}, bases));
        f.push_back(sliding(AllWeights{ring(5, 2), th ? std::vector<int64_t>{1, 2, -1} : std::vector<int64_t>{1, 2}}, bases));
        f.push_back(sliding(AllWeights{complete(5, 0), {1, 2}}, th ? bases : std::vector<size_t>{55, 63, 64}));
        for (size_t base : {size_t{40}, size_t{60}, size_t{64}}) {
            GraphFn at_base = [base](const G& g, Ctx& c) { check_base(g, base, c); };
            for (auto& t : {grid(3, 3, 1, true), petersen(true), triangles(3, true), ring(9, 2), complete(7, 1), cube(2, 2, 3, true)}) {
                Family x = fam(QuadWeights{t, th ? 7 : 5, -1}, at_base, 1);
                x.name += fmt(":base%zu", base);
                f.push_back(x);
            }
            Family y = fam(AllWeights{complete(4, 4), {1, 2, 3}}, at_base, 256);
            y.name += fmt(":base%zu", base);
            f.push_back(y);
        }
        Family m;
        m.name = "masks";
        m.bound = "every observable count 0..66 and every mask with at most two set bits, both conversions";
        m.n = 67;
        m.describe = [](uint64_t i) { return fmt("num_observables=%llu", (unsigned long long)i); };
        m.run = [](uint64_t n, Ctx& c) {
            c.traces++;
            if (n > 64) {
                bool t1 = false, t2 = false;
                std::vector<uint8_t> v(n, 1);
                try { pm::fill_bit_vector_from_obs_mask(1, v.data(), n); } catch (const std::invalid_argument&) { t1 = true; }
                try { pm::bit_vector_to_obs_mask(v); } catch (const std::invalid_argument&) { t2 = true; }
                if (!t1 || !t2) fail("more than 64 observables accepted by a mask conversion");
                c.transitions += 2;
                c.states++;
                return;
            }
            for (size_t a = 0; a <= n; a++)
                for (size_t b = a; b <= n; b++) {
                    uint64_t mask = (a < n ? 1ull << a : 0) | (b < n ? 1ull << b : 0);
                    std::vector<uint8_t> v(n + 2, 0), init;
                    for (size_t k = 0; k < v.size(); k++) v[k] = (k + a) % 2;
                    init = v;
                    pm::fill_bit_vector_from_obs_mask(mask, v.data(), n);
                    std::vector<uint8_t> pure(n);
                    for (size_t k = 0; k < v.size(); k++) {
                        uint8_t want = init[k] ^ (k < n && (mask >> k & 1));
                        if (v[k] != want) fail(fmt("fill_bit_vector_from_obs_mask(%llx, n=%zu): byte %zu", (unsigned long long)mask, (size_t)n, k));
                        if (k < n) pure[k] = mask >> k & 1;
                    }
                    if (pm::bit_vector_to_obs_mask(pure) != mask)
                        fail(fmt("bit_vector_to_obs_mask: %llx became %llx (n=%zu)", (unsigned long long)mask, (unsigned long long)pm::bit_vector_to_obs_mask(pure), (size_t)n));
                    c.transitions += 2;
                    c.states++;
                    c.outcome(mask);
                }
        };
        f.push_back(m);
        for (int b = 0; b < 2; b++)
            for (auto& t : big_topos(b)) {
                f.push_back(big("", bigcase(t, 5, t.n % 2, th ? 24 : 4, {5, 25, 50, 90}, th ? 500 : 5000, th ? 20 : 2), check_large));
                if (b || th) f.push_back(big("", bigcase(t, 4, -1, th ? 24 : 4, {5, 25, 50}, 0, th ? 10 : 1), check_large));
            }
        for (auto& b : huge_cases(true, 0, 4)) f.push_back(big("", b, check_large));
        for (int b = 0; b < 2; b++) {
            // edges with many observables: (block size, observable count)
            std::vector<std::pair<size_t, size_t>> fats{{2, 0}, {3, 65}, {9, 0}, {17, 0}, {40, 0}, {100, 0}, {0, 60}, {0, 64}, {0, 65}, {0, 100}, {0, 300}, {1, 70000}, {5000, 0}, {0, 70000}};
            std::vector<Topo> ts{complete(5, (int)b), ring(9, (int)b), grid(3, 3, 1, b != 0), vx::path(20, b ? 2 : 0), strip(20, 2, 2, b != 0), strip(10, 4, 1, b != 0), copies(complete(5, b), 3)};
            for (auto& t : ts)
                for (auto& [fat, total] : fats) {
                    bool search = fat % 2;
                    auto x = big(fmt("fat%zu-%zu-", fat, total), bigcase(t, 5, b - 1, th ? 24 : 8, {10, 30, 60, 90}, t.n < 12 ? 1 : 7, th ? 60 : 6),
                                 [fat = fat, total = total, search](const G& g, const std::vector<Events>& s, Ctx& c) { check_fat(g, s, c, fat, total, search); });
                    x.bound += fat ? fmt("; edge k carries %zu observables of its own", fat) : fmt("; %zu observables, observable j the parity of the tracked ones in j mod 8", total);
                    f.push_back(x);
                }
        }
        return f;
    });
}
