// C17: event trackers over the queue, all interleavings of set / move / cancel / dequeue up to a depth.
#include "explore.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
using namespace vx;

static constexpr int MAXK = 60;
struct World {
    pm::radix_heap_queue<false> q;
    pm::QueuedEventTracker tr[MAXK];
    int64_t now = 0;
    int64_t want[MAXK];
    World() {
        for (auto& x : want) x = -1;
    }
    std::string log;
    int sets = 0;
};
static pm::FloodCheckEvent ev(int k, int64_t t) {
    return pm::FloodCheckEvent((pm::DetectorNode*)(uint64_t)((k + 1) << 4), pm::cyclic_time_int{t});
}
static void set(World& w, int k, int64_t d, Ctx& c) {
    w.log += fmt("set%d(+%lld) ", k, (long long)d);
    w.want[k] = w.now + d;
    w.tr[k].set_desired_event(ev(k, w.now + d), w.q);
    w.sets++;
    c.transitions++;
}
static void cancel(World& w, int k, Ctx& c) {
    w.log += fmt("cancel%d ", k);
    w.want[k] = -1;
    w.tr[k].set_no_desired_event();
    c.transitions++;
}
// returns false if the queue had nothing
static bool step(World& w, int K, Ctx& c) {
    auto e = w.q.dequeue();
    c.transitions++;
    if (e.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT) {
        for (int k = 0; k < K; k++)
            if (w.want[k] >= 0)
                fail(fmt("queue ran empty but the event of tracker %d wanted at %lld was never delivered; history: %s", k,
                         (long long)w.want[k], w.log.c_str()));
        return false;
    }
    if (w.q.cur_time < w.now) fail("time went backwards; history: " + w.log);
    w.now = w.q.cur_time;
    int k = (int)((uint64_t)e.data_look_at_node >> 4) - 1;
    if (k < 0 || k >= K) fail("event of unknown tracker; history: " + w.log);
    bool act = w.tr[k].dequeue_decision(e, w.q);
    w.log += fmt("deq(%d@%lld:%s) ", k, (long long)w.now, act ? "act" : "drop");
    c.outcome(w.now * 64 + k * 2 + act);
    if (act) {
        if (w.want[k] != w.now)
            fail(fmt("tracker %d acted at time %lld but its event was wanted at %lld (-1: not wanted); history: %s", k,
                     (long long)w.now, (long long)w.want[k], w.log.c_str()));
        w.want[k] = -1;
    }
    for (int j = 0; j < K; j++)
        if (w.want[j] >= 0 && w.want[j] < w.now)
            fail(fmt("time reached %lld but the event of tracker %d wanted at %lld was not delivered; history: %s",
                     (long long)w.now, j, (long long)w.want[j], w.log.c_str()));
    return true;
}
static void drain(World& w, int K, Ctx& c) {
    int limit = 4 * w.sets + 8;
    while (step(w, K, c))
        if (limit-- < 0) fail("events keep being re-queued without end; history: " + w.log);
    c.traces++;
    c.note(w.log);
}
struct Cfg {
    int K;
    std::vector<int64_t> d;
    int nops() const { return K * ((int)d.size() + 2) + 1; }
};
static void apply(World& w, const Cfg& g, int op, Ctx& c) {
    int D = g.d.size();
    if (op < g.K * D)
        set(w, op / D, g.d[op % D], c);
    else if (op < g.K * (D + 1))
        cancel(w, op - g.K * D, c);
    else if (op < g.K * (D + 2)) {
        // what the search does after finishing with a node: drop everything and start afresh
        int k = op - g.K * (D + 1);
        w.log += fmt("setnow%d ", k);
        w.want[k] = w.now;
        w.tr[k].set_desired_event(ev(k, w.now), w.q);
        w.sets++;
        c.transitions++;
    } else
        step(w, g.K, c);
    c.states++;
}
static void go(const World& w0, const Cfg& g, int op, int depth, Ctx& c) {
    World w = w0;
    apply(w, g, op, c);
    if (depth == 0) {
        drain(w, g.K, c);
        return;
    }
    for (int o = 0; o < g.nops(); o++) go(w, g, o, depth - 1, c);
}
static Family seqs(Cfg g, int depth, std::vector<int64_t> starts, const std::string& nm) {
    Family f;
    int A = g.nops();
    std::string ds, ss;
    for (auto d : g.d) ds += fmt("%lld ", (long long)d);
    for (auto d : starts) ss += fmt("%lld ", (long long)d);
    f.name = nm;
    f.bound = fmt("every sequence of %d operations {set tracker k to now+d, d in {%s}; set to now; cancel k; dequeue} on %d trackers, then "
                  "drained, started at times {%s}",
                  depth, ds.c_str(), g.K, ss.c_str());
    f.n = (uint64_t)A * A * starts.size();
    f.describe = [=](uint64_t i) { return fmt("start=%lld ops %d,%d,*", (long long)starts[i / (A * A)], (int)(i % A), (int)(i / A % A)); };
    f.run = [=](uint64_t i, Ctx& c) {
        World w;
        int64_t t = starts[i / (A * A)];
        while (w.now < t) {
            int64_t d = std::min<int64_t>(t - w.now, 2147483647);
            w.q.enqueue(ev(7, w.now + d));
            w.q.dequeue();
            w.now += d;
        }
        w.log = fmt("[start %lld] ", (long long)t);
        apply(w, g, i % A, c);
        go(w, g, i / A % A, depth - 2, c);
    };
    return f;
}
// a sequence without a short period
static int64_t seq1009(int64_t s, int64_t k) {
    int64_t a = 1 + s * 211 % 1008, b = (s * 101 + s / 7) % 1009;
    return (a * (k % 1009) % 1009 * (k % 1009) + b * (k % 1009)) % 1009;
}
// Sixty trackers, long scripts: sets, moves (earlier and later), cancels and dequeues interleaved.
static Family bulk(int count, int len, const std::vector<int64_t>& starts, const std::vector<int64_t>& spreads) {
    Family f;
    f.name = "bulk";
    uint64_t S = starts.size(), P = spreads.size();
    f.bound = fmt("%d scripts of %d operations on 60 trackers, delays up to each of %d spreads, from each of %d start times, then drained", count, len, (int)P, (int)S);
    f.n = count * S * P;
    f.chunk = 1;
    f.describe = [=](uint64_t i) { return fmt("script %d spread %lld start %lld", (int)(i / S / P), (long long)spreads[i / S % P], (long long)starts[i % S]); };
    f.run = [=](uint64_t i, Ctx& c) {
        World w;
        int64_t t = starts[i % S], spread = spreads[i / S % P], s = i / S / P;
        while (w.now < t) {
            int64_t d = std::min<int64_t>(t - w.now, 2147483647);
            w.q.enqueue(ev(70, w.now + d));
            w.q.dequeue();
            w.now += d;
        }
        for (int k = 0; k < len; k++) {
            int64_t r = seq1009(s, k), who = seq1009(s + 2, k) % 60;
            if (r % 8 < 4) set(w, (int)who, (int64_t)((__int128)seq1009(s + 1, k) * spread / 1008), c);
            else if (r % 8 == 4) cancel(w, (int)who, c);
            else step(w, 60, c);
            c.states++;
            if (w.log.size() > 3000) w.log = w.log.substr(w.log.size() - 1500);
        }
        drain(w, 60, c);
    };
    return f;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C17";
    o.assumptions = {"a desired time is never before the queue's current time"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        int64_t W = int64_t{1} << 32, H = int64_t{1} << 31;
        std::vector<Family> f;
        f.push_back(seqs({1, {1, 2, 5}}, th ? 10 : 9, {0, W - 3, H - 2}, "one-tracker"));
        f.push_back(seqs({2, {1, 2, 4}}, th ? 8 : 7, {0, W - 2}, "two-trackers"));
        f.push_back(seqs({2, {1, 3, H - 1}}, 5, {0, W - 2, H - 4}, "two-trackers-far"));
        f.push_back(seqs({3, {1, 3}}, th ? 7 : 6, {0, W - 2}, "three-trackers"));
        f.push_back(bulk(th ? 60 : 12, th ? 6000 : 1500, {0, W - 500, H - 20, 3 * W - 1}, {3, 60, 300, 5000, 1 << 22, H - 1}));
        return f;
    });
}
