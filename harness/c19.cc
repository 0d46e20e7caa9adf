// C19: cyclic integers and Varying radii against plain integer arithmetic, exhaustively on small ranges
// and on every combination of boundary values.
#include "explore.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/tracker/cyclic.h"
using namespace vx;

template <typename T>
static void pair_check(T a, T b, Ctx& c) {
    using C = pm::cyclic<T>;
    const uint64_t M = (uint64_t)(T)-1;  // modulus - 1
    const uint64_t H = (M >> 1) + 1;
    uint64_t d = ((uint64_t)b - a) & M;
    C x{a}, y{b};
    c.states++;
    c.transitions += 10;
    auto bad = [&](const char* op) { fail(fmt("cyclic%d: %s wrong for %llu, %llu", (int)sizeof(T) * 8, op, (unsigned long long)a, (unsigned long long)b)); };
    if ((x == y) != (d == 0)) bad("==");
    if ((x != y) != (d != 0)) bad("!=");
    if ((x == b) != (d == 0)) bad("== value");
    if ((x != b) != (d != 0)) bad("!= value");
    if (d != H) {
        bool lt = d > 0 && d < H, gt = d > H;
        if ((x < y) != lt) bad("<");
        if ((x > y) != gt) bad(">");
        if ((x <= y) != (lt || d == 0)) bad("<=");
        if ((x >= y) != (gt || d == 0)) bad(">=");
    }
    if ((uint64_t)(x + y).value != (((uint64_t)a + b) & M)) bad("+");
    if ((uint64_t)(x - y).value != (((uint64_t)a - b) & M)) bad("-");
    C z = x;
    z += b;
    if ((uint64_t)z.value != (((uint64_t)a + b) & M)) bad("+=");
    z = x;
    z -= b;
    if ((uint64_t)z.value != (((uint64_t)a - b) & M)) bad("-=");
    z = x;
    ++z;
    if ((uint64_t)z.value != (((uint64_t)a + 1) & M)) bad("++");
    z--;
    if (z.value != a) bad("--");
    c.outcome(d * 31 + sizeof(T));
}
template <typename T, typename O>
static void widen_check(O ref, int64_t diff, Ctx& c) {
    O want = (O)(ref + diff);
    pm::cyclic<T> x{(T)want};
    O got = x.widen_from_nearby_reference(ref);
    c.transitions++;
    c.states++;
    if (got != want)
        fail(fmt("widen_from_nearby_reference: cyclic %llu near %lld gave %lld, expected %lld",
                 (unsigned long long)(T)want, (long long)ref, (long long)got, (long long)want));
}
template <typename T>
static std::vector<T> edge_values() {
    std::vector<T> v;
    const T m = (T)-1;
    for (int k = 0; k <= 5; k++) {
        v.push_back((T)k);
        v.push_back((T)(m - k));
        v.push_back((T)(m / 2 - k));
        v.push_back((T)(m / 2 + 1 + k));
        v.push_back((T)(m / 4 + k));
        v.push_back((T)(m / 4 * 3 + k));
    }
    return v;
}
template <typename T>
static void varying_check(T y, int g, T t, T t2, Ctx& c) {
    using V = pm::Varying<T>;
    V v = V::from_base_and_growth(y, (int8_t)g);
    c.states++;
    c.transitions += 16;
    auto bad = [&](const char* w, long long got, long long want) {
        fail(fmt("Varying%d %s: (%lld %+d t) at t=%lld, t2=%lld gave %lld, expected %lld", (int)sizeof(T) * 8, w, (long long)y, g,
                 (long long)t, (long long)t2, got, want));
    };
    auto req = [&](const char* w, long long got, long long want) {
        if (got != want) bad(w, got, want);
    };
    long long at = (long long)y + (long long)g * t;
    req("y_intercept", v.y_intercept(), y);
    req("get_distance_at_time", v.get_distance_at_time(t), at);
    req("is_growing", v.is_growing(), g == 1);
    req("is_shrinking", v.is_shrinking(), g == -1);
    req("is_frozen", v.is_frozen(), g == 0);
    if (g == 1) {
        req("get_growing_distance_at_time", v.get_growing_distance_at_time(t), at);
        req("time_of_x_intercept", v.time_of_x_intercept(), -(long long)y);
        req("time_of_x_intercept_for_growing", v.time_of_x_intercept_for_growing(), -(long long)y);
    } else if (g == -1) {
        req("get_shrinking_distance_at_time", v.get_shrinking_distance_at_time(t), at);
        req("time_of_x_intercept", v.time_of_x_intercept(), y);
        req("time_of_x_intercept_for_shrinking", v.time_of_x_intercept_for_shrinking(), y);
    } else {
        bool threw = false;
        try {
            v.time_of_x_intercept();
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        req("time_of_x_intercept of frozen throws", threw, true);
    }
    V a = v.then_growing_at_time(t), b = v.then_shrinking_at_time(t), f = v.then_frozen_at_time(t);
    req("then_growing slope", a.is_growing() && !a.is_shrinking(), 1);
    req("then_shrinking slope", b.is_shrinking() && !b.is_growing(), 1);
    req("then_frozen slope", f.is_frozen(), 1);
    req("then_growing value", a.get_distance_at_time(t2), at + (t2 - t));
    req("then_shrinking value", b.get_distance_at_time(t2), at - (t2 - t));
    req("then_frozen value", f.get_distance_at_time(t2), at);
    req("operator+", (v + t2).get_distance_at_time(t), at + t2);
    req("operator-", (v - t2).get_distance_at_time(t), at - t2);
    req("+ keeps slope", (v + t2).is_growing() == v.is_growing() && (v + t2).is_shrinking() == v.is_shrinking(), 1);
    V p = v;
    p += t2;
    req("operator+=", p.get_distance_at_time(t), at + t2);
    p -= t2;
    p -= t2;
    req("operator-=", p.get_distance_at_time(t), at - t2);
    req("==", v == V::from_base_and_growth(y, (int8_t)g), 1);
    req("!=", v != V::from_base_and_growth(y, (int8_t)g), 0);
    req("growing_varying_with_zero_distance_at_time", V::growing_varying_with_zero_distance_at_time(t).get_distance_at_time(t2), (long long)t2 - t);
    req("growing_value_at_time", V::growing_value_at_time(y, t).get_distance_at_time(t2), (long long)y + t2 - t);
    req("shrinking_value_at_time", V::shrinking_value_at_time(y, t).get_distance_at_time(t2), (long long)y - t2 + t);
    req("frozen", V::frozen(y).get_distance_at_time(t2), y);
    c.outcome(at * 3 + g);
}
template <typename T>
static void collide_check(T y1, int g1, T y2, int g2, Ctx& c) {
    using V = pm::Varying<T>;
    V a = V::from_base_and_growth(y1, (int8_t)g1), b = V::from_base_and_growth(y2, (int8_t)g2);
    c.states++;
    c.transitions += 3;
    bool want = g1 >= 0 && g2 >= 0 && g1 + g2 > 0;
    if (a.colliding_with(b) != want) fail(fmt("colliding_with wrong for slopes %d,%d bases %lld,%lld", g1, g2, (long long)y1, (long long)y2));
    if (want) {
        long long s = -((long long)y1 + y2);
        if (s > (long long)std::numeric_limits<T>::max()) return;
        if (g1 + g2 == 1) {
            if (a.time_of_x_intercept_when_added_to(b) != s || a.time_of_x_intercept_when_added_to_giving_unit_slope(b) != s)
                fail(fmt("collision time of (%lld%+dt)+(%lld%+dt) wrong", (long long)y1, g1, (long long)y2, g2));
        } else if (s % 2 == 0) {
            if (a.time_of_x_intercept_when_added_to(b) != s / 2)
                fail(fmt("collision time of (%lld+t)+(%lld+t) wrong", (long long)y1, (long long)y2));
        }
    }
    c.outcome(y1 * 7 + y2 * 3 + g1 + 2 * g2);
}
template <typename T>
static void corners(size_t i, Ctx& c) {
    const long long lim = 1LL << (sizeof(T) * 8 - 3);  // bases lie in [-lim, lim)
    std::vector<long long> v{-lim, 0, 1, -1, 2, -7};
    for (long long b : {1LL << 12, lim / 4, lim / 2, lim - 1, lim - lim / 4})
        for (long long k : {0LL, 1LL}) {
            v.push_back(b - k);
            v.push_back(-b + k);
        }
    v.push_back(lim / 2 + 1);
    if (i >= v.size()) fail("range-corners: no such base");
    auto in = [&](long long x) { return x >= -lim && x < lim; };
    long long y = v[i];
    for (auto t : v)
        for (auto t2 : v)
            for (int g = -1; g <= 1; g++) {
                long long at = y + g * t;
                if (in(at) && in(at - t) && in(at + t) && in(y + t2) && in(y - t2) && in(t2 - t) && in(-t) && in(y - t) && in(y + t))
                    varying_check<T>((T)y, g, (T)t, (T)t2, c);
            }
    for (auto z : v)
        for (int g1 = -1; g1 <= 1; g1++)
            for (int g2 = -1; g2 <= 1; g2++) collide_check<T>((T)y, g1, (T)z, g2, c);
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C19";
    o.assumptions = {"cyclic distances differ from exactly half the range",
                     "sums of two growing radii are even at collision, as all weights are doubled"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> fs;
        auto add = [&](const char* name, const std::string& bound, uint64_t n, uint64_t chunk, std::function<void(uint64_t, Ctx&)> run) {
            Family f;
            f.name = name;
            f.bound = bound;
            f.n = n;
            f.chunk = chunk;
            f.run = [run](uint64_t i, Ctx& c) {
                run(i, c);
                c.traces++;
            };
            f.describe = [name](uint64_t i) { return fmt("%s row %llu", name, (unsigned long long)i); };
            fs.push_back(f);
        };
        add("cyclic8", "every ordered pair of 8-bit cyclic integers, every operator", 256, 4, [](uint64_t i, Ctx& c) {
            for (int b = 0; b < 256; b++) pair_check<uint8_t>((uint8_t)i, (uint8_t)b, c);
        });
        add("cyclic16", th ? "every ordered pair of 16-bit cyclic integers" : "every 16-bit value against 16-bit boundary values", 65536, 512,
            [th](uint64_t i, Ctx& c) {
                if (th)
                    for (int b = 0; b < 65536; b++) pair_check<uint16_t>((uint16_t)i, (uint16_t)b, c);
                else
                    for (auto b : edge_values<uint16_t>()) {
                        pair_check<uint16_t>((uint16_t)i, b, c);
                        pair_check<uint16_t>((uint16_t)(i + b), (uint16_t)i, c);
                    }
            });
        add("cyclic32", "every pair a, a+d with a and d boundary values of the 32-bit range", 36 * 36, 8, [](uint64_t i, Ctx& c) {
            auto v = edge_values<uint32_t>();
            uint32_t a = v[i % 36], d = v[i / 36];
            for (uint32_t k = 0; k < 64; k++) pair_check<uint32_t>(a + k, a + d, c);
        });
        add("widen8", "8-bit widening around every reference in [-700,700] and every distance below half", 1401, 16, [](uint64_t i, Ctx& c) {
            int ref = (int)i - 700;
            for (int d = -127; d <= 127; d++) {
                widen_check<uint8_t, int32_t>(ref, d, c);
                widen_check<uint8_t, int64_t>(ref, d, c);
                widen_check<uint8_t, int16_t>((int16_t)ref, d, c);
            }
        });
        add("widen32", "32-bit widening around boundary references of the 64-bit range and boundary distances", 12, 1, [](uint64_t i, Ctx& c) {
            std::vector<int64_t> base{0, 1LL << 31, 1LL << 32, 3LL << 31, -(1LL << 31), -(1LL << 32), 1LL << 40, (1LL << 40) + (1LL << 31),
                                      -(1LL << 45), 5LL << 32, 7, (1LL << 50) - 1};
            for (int k = -40; k <= 40; k++)
                for (int64_t d : {0LL, 1LL, 2LL, 3LL, 100LL, 65536LL, (1LL << 30), (1LL << 31) - 2, (1LL << 31) - 1})
                    for (int s : {-1, 1})
                        for (int j = 0; j < 3; j++) widen_check<uint32_t, int64_t>(base[i] + k, s * (d > j ? d - j : d), c);
        });
        int R = th ? 60 : 24;
        add("varying32", fmt("32-bit: every base, time, second time in [-%d,%d], every slope", R, R), 2 * R + 1, 1, [R](uint64_t i, Ctx& c) {
            for (int t = -R; t <= R; t++)
                for (int t2 = -R; t2 <= R; t2++)
                    for (int g = -1; g <= 1; g++) varying_check<int32_t>((int32_t)i - R, g, t, t2, c);
        });
        add("varying64", "64-bit: every combination of boundary bases and times", 21, 1, [](uint64_t i, Ctx& c) {
            std::vector<int64_t> v;
            for (int64_t b : {0LL, 1LL << 20, 1LL << 31, 1LL << 32, 1LL << 40, -(1LL << 33), -(1LL << 50)})
                for (int k = -1; k <= 1; k++) v.push_back(b + k);
            for (auto t : v)
                for (auto t2 : v)
                    for (int g = -1; g <= 1; g++) varying_check<int64_t>(v[i], g, t, t2, c);
        });
        add("collide", "every pair of bases in [-60,60] and slopes", 121, 4, [](uint64_t i, Ctx& c) {
            for (int y = -60; y <= 60; y++)
                for (int g1 = -1; g1 <= 1; g1++)
                    for (int g2 = -1; g2 <= 1; g2++) {
                        collide_check<int32_t>((int)i - 60, g1, y, g2, c);
                        collide_check<int64_t>(((int64_t)i - 60) << 34, g1, (int64_t)y << 33, g2, c);
                    }
        });
        add("range-corners", "32 and 64 bit: every combination of bases and times at the corners of the range in which every line asked for can be represented, every slope; collisions of every pair of bases", 2 * 27, 1,
            [](uint64_t i, Ctx& c) {
                if (i % 2) corners<int32_t>(i / 2, c);
                else corners<int64_t>(i / 2, c);
            });
        return fs;
    });
}
