// C16: the monotone event queue, explored over all operation sequences up to a depth.
#include <map>

#include "explore.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
using namespace vx;

template <bool V>
struct World {
    pm::radix_heap_queue<V> q;
    int64_t now = 0;
    std::map<uint64_t, std::pair<int64_t, int>> in;  // id -> (absolute time, type)
    uint64_t next_id = 1;
    std::string log;
};
static pm::FloodCheckEvent make(uint64_t id, int type, int64_t t) {
    pm::cyclic_time_int ct{t};
    switch (type) {
        case 0: return pm::FloodCheckEvent((pm::DetectorNode*)(id << 4), ct);
        case 1: return pm::FloodCheckEvent((pm::GraphFillRegion*)(id << 4), ct);
        default: return pm::FloodCheckEvent((pm::SearchDetectorNode*)(id << 4), ct);
    }
}
static int type_of(const pm::FloodCheckEvent& e) {
    return e.tentative_event_type == pm::LOOK_AT_NODE               ? 0
           : e.tentative_event_type == pm::LOOK_AT_SHRINKING_REGION ? 1
           : e.tentative_event_type == pm::LOOK_AT_SEARCH_NODE      ? 2
                                                                    : -1;
}
template <bool V>
static void sizes(World<V>& w) {
    if (w.q.size() != w.in.size() || w.q.empty() != w.in.empty())
        fail(fmt("size()=%zu empty()=%d but %zu events are queued; history: %s", w.q.size(), (int)w.q.empty(),
                 w.in.size(), w.log.c_str()));
}
template <bool V>
static void enq(World<V>& w, int64_t delta, Ctx& c) {
    uint64_t id = w.next_id++;
    int type = id % 3;
    w.in[id] = {w.now + delta, type};
    if (c.verbose || w.log.size() < 400) w.log += fmt("enq(+%lld) ", (long long)delta);
    w.q.enqueue(make(id, type, w.now + delta));
    c.transitions++;
    sizes(w);
}
template <bool V>
static void deq(World<V>& w, Ctx& c) {
    w.log += "deq ";
    auto e = w.q.dequeue();
    c.transitions++;
    if (w.in.empty()) {
        if (type_of(e) != -1) fail("dequeue on an empty queue returned an event; history: " + w.log);
        if (w.q.cur_time != w.now) fail("dequeue on an empty queue moved the time; history: " + w.log);
        sizes(w);
        return;
    }
    if (type_of(e) == -1)
        fail(fmt("dequeue returned nothing although %zu events are queued; history: %s", w.in.size(), w.log.c_str()));
    uint64_t id = (uint64_t)e.data_look_at_node >> 4;
    auto it = w.in.find(id);
    if (it == w.in.end()) fail("dequeue returned an event that is not queued (lost identity or duplicate); history: " + w.log);
    int64_t best = INT64_MAX;
    for (auto& kv : w.in) best = std::min(best, kv.second.first);
    if (it->second.first != best)
        fail(fmt("dequeue returned an event at time %lld although one at %lld is queued; history: %s",
                 (long long)it->second.first, (long long)best, w.log.c_str()));
    if (type_of(e) != it->second.second || e.time.value != (uint32_t)best)
        fail("dequeue altered the event's type or time; history: " + w.log);
    if (w.q.cur_time != best)
        fail(fmt("current time is %lld after dequeuing an event of time %lld (was %lld); history: %s",
                 (long long)w.q.cur_time, (long long)best, (long long)w.now, w.log.c_str()));
    w.now = best;
    w.in.erase(it);
    c.outcome(best * 8 + type_of(e) + w.in.size() * 1315423911u);
    sizes(w);
}
template <bool V>
static void clr(World<V>& w, bool reset, Ctx& c) {
    w.log += reset ? "reset " : "clear ";
    if (reset) {
        w.q.reset();
        w.now = 0;
    } else {
        w.q.clear();
    }
    c.transitions++;
    w.in.clear();
    if (w.q.cur_time != w.now) fail("clear/reset left a wrong current time; history: " + w.log);
    sizes(w);
}
// What the queue says about its content: the listing and the printed form.
template <bool V>
static void listing(World<V>& w, bool printed) {  // printed in the validated family only, for its cost
    auto l = w.q.to_vector();
    if (l.size() != w.in.size())
        fail(fmt("to_vector() lists %zu events although %zu are queued; history: %s", l.size(), w.in.size(), w.log.c_str()));
    std::vector<uint64_t> ids;
    int64_t last = w.now;
    for (auto& e : l) {
        uint64_t id = (uint64_t)e.data_look_at_node >> 4;
        auto it = w.in.find(id);
        if (it == w.in.end() || type_of(e) != it->second.second || e.time.value != (uint32_t)it->second.first)
            fail("to_vector() lists an event that is not queued; history: " + w.log);
        if (it->second.first < last) fail("to_vector() is not in time order; history: " + w.log);
        last = it->second.first;
        ids.push_back(id);
    }
    std::sort(ids.begin(), ids.end());
    for (size_t k = 1; k < ids.size(); k++)
        if (ids[k] == ids[k - 1]) fail("to_vector() lists an event twice; history: " + w.log);
    if (!w.q.satisfies_invariants()) fail("satisfies_invariants() is false; history: " + w.log);
    if (!printed) return;
    std::string s = w.q.str();
    size_t n = 0;
    for (size_t at = 0; (at = s.find("TentativeEvent{", at)) != std::string::npos; at++) n++;
    if (n != l.size()) fail(fmt("the printed form shows %zu events although %zu are queued; history: %s", n, l.size(), w.log.c_str()));
    for (auto& e : l)
        if (s.find(e.str()) == std::string::npos) fail("the printed form lacks " + e.str() + "; history: " + w.log);
    if (s.find(fmt("cur_time=%lld\n", (long long)w.now)) == std::string::npos) fail("the printed form lacks the current time; history: " + w.log);
}
template <bool V>
static void go(World<V> w, int op, const std::vector<int64_t>& deltas, int depth, Ctx& c) {
    int D = deltas.size();
    if (op < D)
        enq(w, deltas[op], c);
    else if (op == D)
        deq(w, c);
    else
        clr(w, op == D + 2, c);
    c.states++;
    if (depth == 0) {
        listing(w, V);
        size_t guard = w.in.size();
        for (size_t k = 0; k < guard; k++) deq(w, c);
        deq(w, c);
        c.traces++;
        c.note(w.log);
        return;
    }
    for (int o = 0; o < D + 3; o++) go(w, o, deltas, depth - 1, c);
}
template <bool V>
static World<V> at_time(int64_t t) {
    World<V> w;
    Ctx tmp;
    while (w.now < t) {
        enq(w, std::min<int64_t>(t - w.now, 2147483647), tmp);
        deq(w, tmp);
    }
    w.log = fmt("[start at %lld] ", (long long)t);
    return w;
}
template <bool V>
static Family seqs(const std::vector<int64_t>& starts, const std::vector<int64_t>& deltas, int depth, const std::string& nm) {
    Family f;
    int A = deltas.size() + 3;
    f.name = nm;
    std::string ds, ss;
    for (auto d : deltas) ds += fmt("%lld ", (long long)d);
    for (auto d : starts) ss += fmt("%lld ", (long long)d);
    f.bound = fmt("every sequence of %d operations from {enqueue(now+d) for d in {%s}, dequeue, clear, reset}, then drained, "
                  "started at times {%s}",
                  depth, ds.c_str(), ss.c_str());
    f.n = (uint64_t)A * A * starts.size();
    f.chunk = 1;
    f.describe = [=](uint64_t i) { return fmt("start=%lld first ops %d,%d then all", (long long)starts[i / (A * A)], (int)(i % A), (int)(i / A % A)); };
    f.run = [=](uint64_t i, Ctx& c) {
        World<V> w = at_time<V>(starts[i / (A * A)]);
        int op = i % A, op2 = i / A % A;
        if (op < (int)deltas.size()) enq(w, deltas[op], c);
        else if (op == (int)deltas.size()) deq(w, c);
        else clr(w, op == (int)deltas.size() + 2, c);
        go(w, op2, deltas, depth - 2, c);
    };
    return f;
}
// Every multiset of k events over a time window, then drained: the full radix redistribution.
template <bool V>
static Family windows(int k, int64_t step, int width, const std::vector<int64_t>& starts, const std::string& nm) {
    Family f;
    f.name = nm;
    f.bound = fmt("every tuple of %d event times now + %lld*{0..%d}, from %d start times, interleaved re-insertion after each dequeue",
                  k, (long long)step, width - 1, (int)starts.size());
    uint64_t per = 1;
    for (int i = 0; i < k; i++) per *= width;
    f.n = per * starts.size();
    f.chunk = 512;
    f.describe = [=](uint64_t i) { return fmt("start=%lld tuple=%llu", (long long)starts[i / per], (unsigned long long)(i % per)); };
    f.run = [=](uint64_t i, Ctx& c) {
        World<V> w = at_time<V>(starts[i / per]);
        uint64_t x = i % per;
        std::vector<int64_t> d;
        for (int j = 0; j < k; j++) {
            d.push_back(step * (int64_t)(x % width));
            x /= width;
        }
        for (auto t : d) enq(w, t, c);
        for (auto t : d) {
            deq(w, c);
            enq(w, t, c);
        }
        for (size_t j = d.size(); j--;) deq(w, c);
        deq(w, c);
        c.states++;
        c.traces++;
        c.note(w.log);
    };
    return f;
}
// a sequence without a short period
static int64_t seq1009(int64_t s, int64_t k) {
    int64_t a = 1 + s * 211 % 1008, b = (s * 101 + s / 7) % 1009;
    return (a * (k % 1009) % 1009 * (k % 1009) + b * (k % 1009)) % 1009;
}
// Hundreds of queued events: long scripted runs of enqueues (spread d over a range) and dequeues, from each start time.
template <bool V>
static Family bulk(int count, int len, const std::vector<int64_t>& starts, const std::vector<int64_t>& spreads) {
    Family f;
    f.name = "bulk";
    uint64_t S = starts.size(), P = spreads.size();
    f.bound = fmt("%d scripts of %d enqueues in waves of 1 to 200, with dequeues in between, delays up to each of %d spreads, from each of %d start times, then drained", count, len, (int)P, (int)S);
    f.n = count * S * P;
    f.chunk = 1;
    f.describe = [=](uint64_t i) { return fmt("script %d spread %lld start %lld", (int)(i / S / P), (long long)spreads[i / S % P], (long long)starts[i % S]); };
    f.run = [=](uint64_t i, Ctx& c) {
        World<V> w = at_time<V>(starts[i % S]);
        int64_t spread = spreads[i / S % P], s = i / S / P;
        int k = 0;
        for (int wave = 0; k < len; wave++) {
            int64_t in = 1 + seq1009(s, wave) % 200, out = seq1009(s + 3, wave) % (wave % 3 == 2 ? 400 : 150);
            for (int64_t j = 0; j < in && k < len; j++, k++) enq(w, (int64_t)((__int128)seq1009(s + 1, k) * spread / 1008), c);
            for (int64_t j = 0; j < out && !w.in.empty(); j++) deq(w, c);
            if (s % 4 == 3 && wave % 5 == 4) clr(w, wave % 2, c);
            c.states++;
            if (w.log.size() > 2000) w.log = w.log.substr(w.log.size() - 1000);
        }
        while (!w.in.empty()) deq(w, c);
        deq(w, c);
        c.traces++;
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C16";
    o.assumptions = {"enqueued times lie in [now, now + 2^31 - 1], the documented contract"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        int64_t W = int64_t{1} << 32, H = int64_t{1} << 31;
        std::vector<int64_t> starts{0, 1, 17, H - 2, W - 3, W - 1, 3 * W - 6, 5 * W + H - 1};
        f.push_back(seqs<false>(starts, {0, 1, 2, 5, 8, H - 1}, th ? 8 : 7, "seq-small"));
        f.push_back(seqs<false>(starts, {1, 6, 64, 65536, 1 << 30, H - 2}, th ? 8 : 7, "seq-large"));
        f.push_back(seqs<true>(starts, {0, 3, 4, H - 1}, 6, "seq-validated"));
        f.push_back(windows<false>(4, 1, th ? 24 : 12, starts, "window-unit"));
        f.push_back(windows<false>(3, 3, th ? 64 : 32, {0, 5, W - 40, H - 33, W - 7}, "window-3"));
        f.push_back(windows<false>(3, 89478485, 24, {0, 1, W - 1, H, W + H - 1}, "window-wide"));
        f.push_back(bulk<false>(th ? 40 : 8, th ? 4000 : 1000, starts, {1, 40, 255, 1009, 70000, 1 << 25, H - 1}));
        return f;
    });
}
