// C27: separate graphs and decoders share nothing that shows: whatever is done with others in between, or in another
// thread at the same time, every call gives what it gives when its objects are the only ones.
#include <unordered_map>

#include "dem.h"
#include "rt27.h"
using namespace vx;

enum Step { DEC, DEC64, COR, COR64, EDG, CORE, MAT, PATH, BAD, GROW, MERGE, FRESH, MOVE, LOAD };
static const char* SN[] = {"decode", "decode64", "correlated", "correlated64", "edges", "correlated-edges", "matched", "path", "bad", "grow", "merge", "fresh", "move", "load"};
// A user of the library with objects of its own.
struct Plan {
    std::string name;
    G g;
    size_t num_obs = 0, first_obs = 0;
    std::set<size_t> boundary;
    std::string dem;
    std::vector<Step> steps;  // steps[0] is always the construction
};
struct User {
    const Plan& p;
    std::unique_ptr<pm::UserGraph> ug;
    explicit User(const Plan& p) : p(p) {}
    static std::string show(const Dec& d) {
        if (d.threw) return "error";
        std::string x = fmt("w=%.17g obs=", d.weight);
        for (size_t k = 0; k < d.obs.size(); k++)
            if (d.obs[k]) x += fmt("%zu,", k);
        return x;
    }
    std::vector<size_t> obs_of(size_t k) { return {p.first_obs + k % (p.num_obs - p.first_obs)}; }
    void construct() {
        if (!p.dem.empty()) {
            stim::DetectorErrorModel d(p.dem.c_str());
            ug = std::make_unique<pm::UserGraph>(pm::detector_error_model_to_user_graph(d, true, pm::NUM_DISTINCT_WEIGHTS));
            return;
        }
        ug = std::make_unique<pm::UserGraph>(p.g.n, p.num_obs);
        for (size_t k = 0; k < p.g.e.size(); k++) {
            auto& e = p.g.e[k];
            if (e.v < 0) ug->add_or_merge_boundary_edge(e.u, obs_of(k), e.w, 0.1, pm::INDEPENDENT);
            else ug->add_or_merge_edge(e.u, e.v, obs_of(k), e.w, 0.1, pm::INDEPENDENT);
        }
        if (!p.boundary.empty()) ug->set_boundary(p.boundary);
    }
    std::string step(size_t at) {
        std::string r;
        if (at == 0) {
            construct();
            return fmt("%zu nodes %zu edges %zu obs", ug->get_num_nodes(), ug->get_num_edges(), ug->get_num_observables());
        }
        size_t n = ug->get_num_nodes(), no = ug->get_num_observables();
        uint64_t all = uint64_t{1} << std::min<size_t>(n, 5);
        for (uint64_t x = 1; x < all; x += at % 2 ? 3 : 5) {
            uint64_t s = n > 5 ? (x * 0x9e3779b97f4a7c15ull) >> (64 - n) : x;
            auto ev = events_of(s);
            try {
                switch (p.steps[at]) {
                    case DEC: r += show(decode(ug->get_mwpm(), ev, no)); break;
                    case DEC64: r += show(no > 64 ? decode(ug->get_mwpm(), ev, no) : decode64(ug->get_mwpm(), ev, no)); break;
                    case COR: r += show(decode(ug->get_mwpm_with_search_graph(), ev, no, true)); break;
                    case COR64: r += show(no > 64 ? decode(ug->get_mwpm_with_search_graph(), ev, no, true) : decode64(ug->get_mwpm_with_search_graph(), ev, no, true)); break;
                    case EDG:
                    case CORE: {
                        auto d = decode_edges(ug->get_mwpm_with_search_graph(), ev, p.steps[at] == CORE);
                        r += d.threw ? "error" : pairs_str(d.edges);
                        break;
                    }
                    case MAT: {
                        auto d = decode_match(ug->get_mwpm(), ev);
                        r += d.threw ? "error" : pairs_str(d.pairs);
                        break;
                    }
                    case PATH: {
                        std::vector<size_t> out;
                        ug->get_nodes_on_shortest_path_from_source(x % n, x % 3 ? (x * 7 + 1) % n : SIZE_MAX, out);
                        for (auto v : out) r += fmt("%zu-", v);
                        break;
                    }
                    case BAD:
                        ev.push_back(n + x);
                        r += show(decode(ug->get_mwpm(), ev, no));
                        break;
                    case GROW:
                        if (x == 1) ug->add_or_merge_edge(n - 1, n, {no}, 2 + at, 0.2, pm::SMALLEST_WEIGHT), r += fmt("%zu nodes", ug->get_num_nodes());
                        break;
                    case MERGE: {
                        auto e = *ug->edges.begin();
                        if (e.node2 == SIZE_MAX) ug->add_or_merge_boundary_edge(e.node1, {0}, 0.5 + x % 4, 0.2, x % 2 ? pm::REPLACE : pm::INDEPENDENT);
                        else ug->add_or_merge_edge(e.node1, e.node2, {0}, 0.5 + x % 4, 0.2, x % 2 ? pm::REPLACE : pm::INDEPENDENT);
                        double w = 0;
                        ug->get_edge_or_boundary_edge_weight(e.node1, e.node2, w);
                        r += fmt("%.17g", w);
                        break;
                    }
                    case FRESH: {
                        auto m = ug->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, x % 2);
                        r += show(decode(m, ev, no));
                        break;
                    }
                    case MOVE: {
                        auto m = ug->to_mwpm(pm::NUM_DISTINCT_WEIGHTS, true);
                        r += show(decode(m, ev, no));
                        pm::Mwpm m2 = std::move(m);
                        r += show(decode(m2, ev, no));
                        pm::Mwpm m3;
                        m3 = std::move(m2);
                        r += show(decode(m3, ev, no));
                        break;
                    }
                    case LOAD: construct(); break;
                }
            } catch (const std::invalid_argument&) {
                r += "rejected";
            }
            r += ";";
        }
        return r;
    }
};
static std::vector<Plan> plans(bool large) {
    std::vector<Plan> r;
    auto add = [&](const std::string& name, const Topo& t, std::vector<int64_t> w, size_t num_obs, size_t first, std::vector<Step> steps, std::set<size_t> b = {}) {
        std::vector<int64_t> ww;
        for (size_t k = 0; k < t.slots.size(); k++) ww.push_back(w[k % w.size()]);
        r.push_back({name, with_weights(t, ww), num_obs, first, b, "", steps});
    };
    add("path", path(4, 2), {1, 2, 3}, 3, 0, {LOAD, DEC, EDG, MAT});
    add("triangles", triangles(2, true), {1, 2, 1, 3}, 64, 30, {LOAD, DEC64, MAT, DEC});
    add("many-obs", grid(2, 3, 1, true), {2, 1, 3, 1, 1}, 90, 60, {LOAD, DEC, EDG, DEC});
    add("negative", ring(5, 2), {-1, 2, 1, -3}, 6, 0, {LOAD, DEC, DEC64, EDG});
    add("boundary-nodes", path(5, 0), {1, 2}, 5, 0, {LOAD, EDG, DEC, PATH}, {0, 4});
    add("rejecting", complete(4, 0), {1, 3, 2}, 6, 0, {LOAD, BAD, DEC, EDG});
    add("changing", path(3, 1), {1, 2}, 3, 0, {LOAD, MERGE, DEC, GROW});
    add("moving", ring(4, 1), {1, 3}, 5, 0, {LOAD, MOVE, FRESH, PATH});
    auto dem = [&](const std::string& name, const std::string& text, std::vector<Step> steps) { r.push_back({name, {}, 0, 0, {}, text, steps}); };
    dem("correlated", "error(0.1) D0 D1 L0\nerror(0.05) D1 D2 ^ D0 L1\nerror(0.2) D2 D3\nerror(0.03) D3 L2 ^ D0 D1 L0\nerror(0.15) D0\nerror(0.01) D2 D3 ^ D3 L2\n", {LOAD, COR, CORE, DEC});
    dem("correlated-wide", "error(0.1) D0 D1 L0\nerror(0.07) D1 D2 L70 ^ D0 L1\nerror(0.2) D2 D3\nerror(0.03) D3 L2 ^ D0 D1 L0\nerror(0.15) D0 L1\nerror(0.02) D3 D4 L66 ^ D4\nerror(0.1) D4\n", {LOAD, COR, EDG, CORE});
    dem("correlated-64", "error(0.2) D0 D1 L0 ^ D1 D2 L31\nerror(0.1) D2 L63\nerror(0.1) D0 L5 ^ D2 L63\nerror(0.3) D0 D1 L0\n", {LOAD, COR64, DEC64, MAT});
    if (large) {
        add("large", triangles(9, true), {1, 2, 1, 3, 2}, 50, 0, {LOAD, DEC64, EDG, MAT});
        add("large-negative", grid(4, 5, 1, true), {2, -1, 3, 1, 1, 4, -2}, 80, 3, {LOAD, EDG, DEC, MOVE});
    }
    return r;
}
static std::vector<std::string> alone(const Plan& p) {
    User u(p);
    std::vector<std::string> r;
    for (size_t k = 0; k < p.steps.size(); k++) r.push_back(u.step(k));
    return r;
}
static std::string steps_str(const Plan& p) {
    std::string s = p.name + "[";
    for (auto x : p.steps) s += std::string(s.back() == '[' ? "" : " ") + SN[x];
    return s + "]";
}
// --------------------------------------------------------------------------------- calls interleaved in one thread
static Family calls(int users) {
    auto P = std::make_shared<std::vector<Plan>>(plans(users < 3));
    Family f;
    uint64_t N = P->size();
    f.name = fmt("calls:%d", users);
    f.bound = fmt("every interleaving of the steps (construction and 3 calls of several syndromes each) of %d users, for every choice of them from %d kinds; also with every user destroyed when it is done or only at the end", users, (int)N);
    f.n = ipow(N, users);
    f.case_limit_s = 120;
    f.run = [=](uint64_t i, Ctx& c) {
        std::vector<const Plan*> who;
        std::vector<std::vector<std::string>> want;
        for (int k = 0; k < users; k++, i /= N) {
            who.push_back(&(*P)[i % N]);
            want.push_back(alone(*who[k]));
            for (auto& w : want[k]) c.outcome(std::hash<std::string>()(w));
        }
        std::vector<int> order;
        for (int k = 0; k < users; k++) order.insert(order.end(), who[k]->steps.size(), k);
        do {
            for (int keep = 0; keep < 2; keep++) {
                std::vector<std::unique_ptr<User>> u;
                for (auto p : who) u.push_back(std::make_unique<User>(*p));
                std::vector<size_t> at(users, 0);
                c.traces++;
                for (auto k : order) {
                    auto got = u[k]->step(at[k]);
                    c.transitions++;
                    if (got != want[k][at[k]]) {
                        std::string o;
                        for (auto x : order) o += fmt("%d", x);
                        std::string all;
                        for (auto p : who) all += steps_str(*p) + " ";
                        fail(fmt("in the order %s of the users %sstep %zu of user %d gives %s but alone %s", o.c_str(), all.c_str(), at[k], k, got.substr(0, 300).c_str(), want[k][at[k]].substr(0, 300).c_str()));
                    }
                    at[k]++;
                    if (!keep && at[k] == who[k]->steps.size()) u[k].reset();
                    c.states++;
                }
            }
        } while (std::next_permutation(order.begin(), order.end()));
    };
    f.describe = [=](uint64_t i) {
        std::string s;
        for (int k = 0; k < users; k++, i /= N) s += steps_str((*P)[i % N]) + " ";
        return s;
    };
    return f;
}
// ------------------------------------------------------------------------------------------------- two real threads
struct Run {
    const Plan* p;
    std::vector<std::string> got;
    std::string error;
};
static void thread_body(void* v) {
    Run* r = (Run*)v;
    try {
        User u(*r->p);
        for (size_t k = 0; k < r->p->steps.size(); k++) r->got.push_back(u.step(k));
    } catch (const std::exception& e) {
        r->error = std::string("unexpected error: ") + e.what();
    }
}
struct Pair {
    const Plan *a, *b;
    std::vector<std::string> wa, wb;
    Ctx& c;
    rt27::Stats go(int first, const std::vector<rt27::Switch>& sw, bool tracing = false) {
        Run ra{a, {}, ""}, rb{b, {}, ""};
        auto s = rt27::run(thread_body, &ra, thread_body, &rb, first, sw.data(), sw.size(), tracing);
        c.traces++;
        c.transitions += s.switches + 2;
        c.states += s.switches + 1;
        for (int k = 0; k < 2; k++) {
            auto& r = k ? rb : ra;
            auto& w = k ? wb : wa;
            if (r.error.empty() && r.got == w) continue;
            std::string o = fmt("thread %d starts", first);
            for (auto& x : sw) o += fmt(", thread %d stops at its %s %llu", x.thread, x.entry ? "function entry" : "memory access", (unsigned long long)x.pos);
            size_t d = 0;
            while (d < r.got.size() && d < w.size() && r.got[d] == w[d]) d++;
            fail(fmt("threads %s and %s: %s: step %zu of thread %d gives %s but alone %s", steps_str(*a).c_str(), steps_str(*b).c_str(), o.c_str(), d, k,
                     d < r.got.size() ? r.got[d].substr(0, 300).c_str() : r.error.c_str(), d < w.size() ? w[d].substr(0, 300).c_str() : ""));
        }
        return s;
    }
};
static void threads(const Plan& a, const Plan& b, int stride, size_t cap, Ctx& c) {
    Pair p{&a, &b, alone(a), alone(b), c};
    auto base = p.go(0, {}, true);
    // accesses of one thread that depend on an access of the other
    std::unordered_map<uint64_t, int> seen[2];  // 8-byte cell -> 1 read, 2 written
    for (int k = 0; k < 2; k++)
        for (uint64_t i = 0; i < base.trace_len[k]; i++) {
            auto& x = base.trace[k][i];
            for (uint64_t q = x.addr / 8; q <= (x.addr + x.size - 1) / 8; q++) seen[k][q] |= x.write ? 2 : 1;
        }
    std::vector<uint64_t> dep[2];
    for (int k = 0; k < 2; k++) {
        for (uint64_t i = 0; i < base.trace_len[k]; i++) {
            auto& x = base.trace[k][i];
            bool hit = false;
            for (uint64_t q = x.addr / 8; q <= (x.addr + x.size - 1) / 8 && !hit; q++) {
                auto it = seen[1 - k].find(q);
                hit = it != seen[1 - k].end() && (x.write || it->second & 2);
            }
            if (hit) dep[k].push_back(x.pos);
        }
        c.outcome(base.trace_len[k] * 64 + k);
    }
    c.note(fmt("%llu+%llu accesses, %zu+%zu dependent", (unsigned long long)base.accesses[0], (unsigned long long)base.accesses[1], dep[0].size(), dep[1].size()));
    // one preemption: the first thread stops at a function entry, the other runs to its end
    for (int first = 0; first < 2; first++)
        for (uint64_t e = 0; e < base.entries[first]; e += stride) p.go(first, {{first, true, e}});
    // at every dependent access: one and two preemptions
    for (int first = 0; first < 2; first++) {
        auto &x = dep[first], &y = dep[1 - first];
        size_t sx = x.size() / cap + 1, sy = y.size() / cap + 1;
        for (size_t i = 0; i < x.size(); i += sx) {
            p.go(first, {{first, false, x[i]}});
            for (size_t j = 0; j < y.size(); j += sy) p.go(first, {{first, false, x[i]}, {1 - first, false, y[j]}});
        }
    }
}
static Family thread_pairs(int stride, size_t cap) {
    auto P = std::make_shared<std::vector<Plan>>(plans(false));
    Family f;
    uint64_t N = P->size();
    f.name = "threads";
    f.n = N * (N + 1) / 2;
    f.chunk = 1;
    f.case_limit_s = 300;
    f.bound = fmt(
        "every pair of %d users, each constructing and using its objects in its own thread; all memory accesses of both are recorded and those that depend on the other thread's (same 8-byte cell, one a write) are found: schedules that differ "
        "only in the order of independent accesses are equivalent, so without dependent accesses one schedule stands for all; every schedule with one preemption at %s, either thread first; with dependent accesses also every schedule with "
        "one preemption, or one each way, at them (all up to %zu per thread, evenly spaced ones beyond)",
        (int)N, stride == 1 ? "a function entry" : fmt("every %d-th function entry", stride).c_str(), cap);
    auto at = [=](uint64_t i) {
        uint64_t a = 0;
        while (i >= N - a) i -= N - a, a++;
        return std::make_pair(a, a + i);
    };
    f.run = [=](uint64_t i, Ctx& c) {
        auto q = at(i);
        threads((*P)[q.first], (*P)[q.second], stride, cap, c);
    };
    f.describe = [=](uint64_t i) {
        auto q = at(i);
        return "threads " + steps_str((*P)[q.first]) + " and " + steps_str((*P)[q.second]);
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C27";
    o.assumptions = {"noise sampling is left out: its random generator is shared by design",
                     "memory accesses inside the C and C++ runtime libraries are not scheduling points", "one thread per decoder object"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        f.push_back(calls(2));
        f.push_back(thread_pairs(th ? 1 : 8, th ? 300 : 50));
        if (th) f.push_back(calls(3));
        return f;
    });
}
