// C28: the animation of a decoding: it ends, its frames are the ones asked for, they show the problem that was given and
// end in a minimum-weight solution; problems without solution are refused.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "dem.h"
#include "pymatching/sparse_blossom/diagram/mwpm_diagram.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
using namespace vx;

using P = std::pair<float, float>;
struct Dir {  // a scratch directory in memory where there is one
    std::string d;
    Dir() {
        for (auto base : {"/dev/shm", "/tmp"}) {
            std::string t = std::string(base) + "/verif_c28_XXXXXX";
            if (mkdtemp(t.data())) {
                d = t;
                return;
            }
        }
        throw std::runtime_error("no scratch directory");
    }
    static std::vector<std::string> list(const std::string& p) {
        std::vector<std::string> r;
        DIR* h = opendir(p.c_str());
        if (!h) return r;
        while (auto* e = readdir(h))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
        closedir(h);
        std::sort(r.begin(), r.end());
        return r;
    }
    static void empty(const std::string& p) {
        for (auto& n : list(p)) {
            auto f = p + "/" + n;
            struct stat st;
            if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) {
                empty(f);
                rmdir(f.c_str());
            } else
                unlink(f.c_str());
        }
    }
    ~Dir() {
        if (d.find("/verif_c28_") == std::string::npos) return;
        empty(d);
        rmdir(d.c_str());
    }
};
static std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) fail("cannot read " + p);
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    return s;
}
static void put(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) throw std::runtime_error("cannot write " + p);
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
// One picture, read back.
struct Line {
    float x1, y1, x2, y2;
};
struct Pic {
    float w = 0, h = 0;
    std::vector<Line> graph, half, match, blossom, tree;
    std::vector<P> plain, fired;
    std::vector<std::vector<P>> regions;  // polygons
    std::map<std::string, int> fills;
    bool focused = false;
};
static float number(const std::string& t, const std::string& where) {
    if (t.empty()) fail("a number is missing in " + where);
    char* e;
    float v = strtof(t.c_str(), &e);
    if (*e || !std::isfinite(v)) fail("'" + t + "' is not a finite number in " + where);
    return v;
}
static Pic parse(const std::string& s, const std::string& where) {
    Pic p;
    bool open = false, closed = false;
    size_t at = 0;
    while (at < s.size()) {
        if (isspace((unsigned char)s[at])) {
            at++;
            continue;
        }
        if (s[at] != '<' || closed) fail("text outside the elements of " + where);
        size_t end = s.find('>', at);
        if (end == std::string::npos) fail("an element of " + where + " is cut off");
        std::string el = s.substr(at + 1, end - at - 1);
        at = end + 1;
        if (el.rfind("?xml", 0) == 0 || el.rfind("!--", 0) == 0) continue;
        if (el == "/svg") {
            if (!open) fail(where + " closes without opening");
            closed = true;
            continue;
        }
        bool self = !el.empty() && el.back() == '/';
        if (self) el.pop_back();
        size_t q = 0;
        while (q < el.size() && !isspace((unsigned char)el[q])) q++;
        std::string name = el.substr(0, q);
        std::map<std::string, std::string> a;
        while (true) {
            while (q < el.size() && isspace((unsigned char)el[q])) q++;
            if (q >= el.size()) break;
            size_t eq = el.find('=', q);
            if (eq == std::string::npos || eq + 1 >= el.size() || (el[eq + 1] != '"' && el[eq + 1] != '\'')) fail("bad attribute in <" + el + "> of " + where);
            size_t close = el.find(el[eq + 1], eq + 2);
            if (close == std::string::npos) fail("bad attribute in <" + el + "> of " + where);
            if (!a.emplace(el.substr(q, eq - q), el.substr(eq + 2, close - eq - 2)).second) fail("an attribute is given twice in <" + el + "> of " + where);
            q = close + 1;
        }
        if (name == "svg") {
            if (open || self) fail("nested or empty picture in " + where);
            open = true;
            p.w = number(a["width"], where);
            p.h = number(a["height"], where);
            continue;
        }
        if (!open || !self) fail("unexpected element <" + el + "> in " + where);
        if (name == "line") {
            Line l{number(a["x1"], where), number(a["y1"], where), number(a["x2"], where), number(a["y2"], where)};
            std::string c = a["stroke"], sw = a["stroke-width"];
            if (c == "#CCC") p.graph.push_back(l);
            else if (c == "#FAA") p.half.push_back(l);
            else if (c == "#22F") p.blossom.push_back(l);
            else if (sw == "12" || sw == "15") p.focused = true;
            else if (c == "#000" && sw == "4") p.match.push_back(l);
            else if (c == "#000") p.tree.push_back(l);
        } else if (name == "circle") {
            P x{number(a["cx"], where), number(a["cy"], where)};
            number(a["r"], where);
            if (a["fill"] == "red") p.fired.push_back(x);
            else if (a["fill"] == "#CCC") p.plain.push_back(x);
        } else if (name == "path") {
            std::vector<P> pts;
            std::string d = a["d"];
            std::vector<float> v;
            size_t k = 0;
            while (k < d.size()) {
                if (isalpha((unsigned char)d[k]) && !(d[k] == 'n' || d[k] == 'i')) {
                    k++;
                    continue;
                }
                if (isspace((unsigned char)d[k]) || d[k] == ',') {
                    k++;
                    continue;
                }
                size_t e = k;
                while (e < d.size() && !isspace((unsigned char)d[e]) && d[e] != ',' && !(isupper((unsigned char)d[e]))) e++;
                if (e == k) fail("bad path in " + where);
                v.push_back(number(d.substr(k, e - k), where));
                k = e;
            }
            if (v.size() % 2 || v.empty()) fail("bad path in " + where);
            for (k = 0; k < v.size(); k += 2) pts.push_back({v[k], v[k + 1]});
            std::string f = a["fill"];
            if (f == "#80800080" || f == "#FF800080") p.focused = true;
            else if (f != "white") {
                p.fills[f]++;
                p.regions.push_back(pts);
            }
        }
    }
    if (!open || !closed) fail(where + " is incomplete");
    return p;
}
struct Problem {  // weights in whatever unit the decoder works with
    G g;
    std::vector<P> at, bat;
    std::vector<uint64_t> ev;
    int64_t best;
    int64_t slack = 0;
    std::vector<std::vector<int64_t>> d;
};
static void distances(Problem& p) {
    int n = p.g.n;
    auto& d = p.d;
    d.assign(n + 1, std::vector<int64_t>(n + 1, INF));
    for (int i = 0; i < n; i++) d[i][i] = 0;
    std::vector<int64_t> b(n, INF);
    for (auto& x : p.g.e) {
        if (x.v < 0)
            b[x.u] = std::min(b[x.u], x.w);
        else {
            d[x.u][x.v] = std::min(d[x.u][x.v], x.w);
            d[x.v][x.u] = std::min(d[x.v][x.u], x.w);
        }
    }
    for (int k = 0; k < n; k++)
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) d[i][n] = std::min(d[i][n], d[i][j] + b[j]);
}
static bool near(float a, float b) { return std::fabs(a - b) <= 1e-3f * (1 + std::fabs(a)); }
static int find(const std::vector<P>& v, float x, float y) {
    for (size_t k = 0; k < v.size(); k++)
        if (near(v[k].first, x) && near(v[k].second, y)) return k;
    return -1;
}
// Pairs (a, b) of indices of detection events; b = -1: the boundary.
static std::set<std::pair<int, int>> links(const std::vector<Line>& ls, const Problem& p, bool boundary, const char* what, const std::string& where) {
    std::set<std::pair<int, int>> r;
    for (auto& l : ls) {
        int a = find(p.at, l.x1, l.y1), b = find(p.at, l.x2, l.y2);
        auto fired = [&](int k) { return k >= 0 && std::count(p.ev.begin(), p.ev.end(), (uint64_t)k); };
        if (fired(a) && fired(b) && a != b)
            r.insert({std::min(a, b), std::max(a, b)});
        else if (boundary && fired(a) && p.bat[a].first < -1e5 && b < 0)  // its own boundary edge is not drawn, so the end is free
            r.insert({a, -1});
        else if (boundary && fired(a) && near(l.x2, p.bat[a].first) && near(l.y2, p.bat[a].second))
            r.insert({a, -1});
        else if (boundary && fired(b) && near(l.x1, p.bat[b].first) && near(l.y1, p.bat[b].second))
            r.insert({b, -1});
        else
            fail(fmt("%s line (%g,%g)-(%g,%g) does not join two detection events in ", what, l.x1, l.y1, l.x2, l.y2) + where);
    }
    return r;
}
static void check_scene(const Pic& q, const Problem& p, const std::string& where) {
    auto inside = [&](float x, float y) {
        if (x < -1e-3 || y < -1e-3 || x > q.w + 1e-3 || y > q.h + 1e-3) fail(fmt("(%g,%g) lies outside the picture of %g x %g: ", x, y, q.w, q.h) + where);
    };
    std::multiset<std::pair<int, int>> want, got;
    for (auto& x : p.g.e)
        if (x.v >= 0) want.insert({std::min(x.u, x.v), std::max(x.u, x.v)});
    for (auto& l : q.graph) {
        inside(l.x1, l.y1), inside(l.x2, l.y2);
        int a = find(p.at, l.x1, l.y1), b = find(p.at, l.x2, l.y2);
        if (a < 0 || b < 0) fail("an edge line does not end at nodes: " + where);
        got.insert({std::min(a, b), std::max(a, b)});
    }
    if (want != got) fail(fmt("%zu edges are drawn of %zu, or others: ", got.size(), want.size()) + where);
    std::multiset<int> hw, hg;
    for (auto& x : p.g.e)
        if (x.v < 0) hw.insert(x.u);
    for (auto& l : q.half) {
        inside(l.x1, l.y1), inside(l.x2, l.y2);
        int a = find(p.at, l.x1, l.y1);
        if (a < 0 || !near(l.x2, p.bat[a].first) || !near(l.y2, p.bat[a].second)) fail("a boundary line is misplaced: " + where);
        hg.insert(a);
    }
    if (hw != hg) fail("the boundary edges drawn are not those of the graph: " + where);
    std::vector<int> color(p.g.n, 0);
    for (auto& x : q.plain) {
        int k = find(p.at, x.first, x.second);
        if (k < 0) fail("a node is drawn where there is none: " + where);
        color[k] |= 1;
    }
    for (auto& x : q.fired) {
        int k = find(p.at, x.first, x.second);
        if (k < 0) fail("a detection event is drawn where there is no node: " + where);
        color[k] |= 2;
    }
    for (int k = 0; k < p.g.n; k++) {
        bool fired = std::count(p.ev.begin(), p.ev.end(), (uint64_t)k);
        if (color[k] != (fired ? 2 : 1)) fail(fmt("detector %d is drawn as %s: ", k, color[k] == 2 ? "fired" : color[k] == 1 ? "not fired" : "nothing or both") + where);
    }
    for (auto& r : q.regions)
        for (auto& x : r) inside(x.first, x.second);
    links(q.match, p, true, "match", where);
    links(q.blossom, p, false, "blossom", where);
    links(q.tree, p, false, "tree", where);
}
static int64_t pairing(const std::vector<int>& left, size_t used, const std::set<std::pair<int, int>>& e, const Problem& p) {
    size_t k = 0;
    while (k < left.size() && (used >> k & 1)) k++;
    if (k == left.size()) return 0;
    int64_t r = INF;
    for (size_t j = k + 1; j < left.size(); j++) {
        if (used >> j & 1) continue;
        int a = std::min(left[k], left[j]), b = std::max(left[k], left[j]);
        if (!e.count({a, b})) continue;
        r = std::min(r, p.d[a][b] + pairing(left, used | size_t{1} << k | size_t{1} << j, e, p));
    }
    return std::min(r, INF);
}
static void check_solution(const Pic& q, const Problem& p, const std::string& where) {
    if (!q.tree.empty()) fail("the last frame still shows a search tree: " + where);
    if (q.focused) fail("the last frame still shows an event: " + where);
    for (auto& f : q.fills)
        if (f.first == "#FF000080" || f.first == "#0000FF80") fail("the last frame shows a region that is not at rest: " + where);
    auto m = links(q.match, p, true, "match", where), b = links(q.blossom, p, false, "blossom", where);
    std::set<int> taken;
    int64_t total = 0;
    for (auto& x : m) {
        if (!taken.insert(x.first).second || (x.second >= 0 && !taken.insert(x.second).second)) fail("a detection event is matched twice: " + where);
        int64_t d = p.d[x.first][x.second < 0 ? p.g.n : x.second];
        if (d >= INF) fail("unconnected events are matched: " + where);
        total += d;
    }
    std::vector<int> left;
    for (auto k : p.ev)
        if (!taken.count((int)k)) left.push_back((int)k);
    int64_t rest = pairing(left, 0, b, p);
    if (rest >= INF) fail("the last frame does not match every detection event: " + where);
    if (total + rest > p.best + p.slack || total + rest < p.best - p.slack)
        fail(fmt("the last frame shows a solution of weight %lld but the minimum is %lld: ", (long long)(total + rest), (long long)p.best) + where);
}
struct Set {
    size_t per_event, at_start, at_end, growth;
    std::string str() const { return fmt("frames per event %zu, at start %zu, at end %zu, growth %zu", per_event, at_start, at_end, growth); }
};
// The frames in a directory, which must be numbered consecutively and be all there is.
static std::vector<std::string> frames(const std::string& dir, const std::string& where) {
    auto names = Dir::list(dir);
    std::vector<std::string> r;
    for (size_t k = 0; k < names.size(); k++) {
        if (names[k] != fmt("frame_%05zu.svg", k)) fail("unexpected file " + names[k] + fmt(" as number %zu: ", k) + where);
        r.push_back(slurp(dir + "/" + names[k]));
    }
    return r;
}
static void check_movie(const std::vector<std::string>& fs, const Problem& p, const Set& s, const std::string& where, Ctx& c) {
    auto here = [&](size_t k) { return fmt("frame %zu of %zu, ", k, fs.size()) + where; };
    if (fs.size() < s.at_start + s.at_end) fail(fmt("%zu frames, too few: ", fs.size()) + where);
    bool nothing = p.ev.empty();
    if ((nothing || (!s.growth && !s.per_event)) && fs.size() != s.at_start + s.at_end) fail(fmt("%zu frames, too many: ", fs.size()) + where);
    size_t focused = 0, groups = 0;
    std::string last;
    Pic pic;
    for (size_t k = 0; k < fs.size(); k++) {
        if (k == 0 || fs[k] != fs[k - 1]) pic = parse(fs[k], here(k));
        check_scene(pic, p, here(k));
        c.states++;
        c.transitions++;
        bool hold = k < s.at_start || k >= fs.size() - s.at_end;
        if (k < s.at_start) {
            if (fs[k] != fs[0]) fail("the frames held at the start differ: " + here(k));
            if (!pic.match.empty() || !pic.blossom.empty() || !pic.tree.empty() || pic.focused) fail("the first frame shows more than the detection events: " + here(k));
        }
        if (k >= fs.size() - s.at_end) {
            if (fs[k] != fs.back()) fail("the frames held at the end differ: " + here(k));
            check_solution(pic, p, here(k));
        }
        if (pic.focused) {
            if (hold) fail("a held frame shows an event: " + here(k));
            if (focused % std::max<size_t>(s.per_event, 1) == 0)
                last = fs[k], groups++;
            else if (fs[k] != last)
                fail("the frames of one event differ or are not together: " + here(k));
            focused++;
        } else if (s.per_event && focused % s.per_event)
            fail("an event is not held long enough: " + here(k));
    }
    if (s.per_event == 0 && focused) fail("events are shown although no frames were asked for: " + where);
    if (s.per_event && focused % s.per_event) fail("an event is not held long enough: " + where);
    if (s.per_event && !nothing && !groups) fail("no event is shown: " + where);
    c.traces++;
    c.outcome(fs.size() * 31 + groups);
}
static void layout(Problem& p) {
    for (int k = 0; k < p.g.n; k++) {
        p.at.push_back({20.f + 37 * (k % 7) + 5 * (k / 7), 20.f + 41 * ((k * 5) % 11) + 3 * (k % 2)});
        p.bat.push_back({p.at.back().first + 9.5f, p.at.back().second + 6.25f});
    }
}
static const std::vector<Set> SETS{{1, 1, 1, 0}, {0, 2, 1, 3}, {0, 1, 2, 0}, {2, 1, 1, 1}, {1, 0, 1, 5}, {3, 1, 3, 2}};
static void animate_graph(const G& g, uint64_t syndromes_from, uint64_t step, const std::vector<Set>& sets, Ctx& c) {
    auto best = oracle(g);
    Problem p;
    p.g = g;
    layout(p);
    distances(p);
    Dir dir;
    for (uint64_t s = syndromes_from; s < best.size(); s += step) {
        p.ev = events_of(s);
        p.best = best[s];
        for (size_t k = 0; k < sets.size(); k++) {
            auto& set = sets[(k + s) % sets.size()];
            if (k && sets.size() > 2 && (k + s) % 3) continue;
            std::string where = synd_str(s) + ", " + set.str() + " (" + g.str() + ")";
            pm::UserGraph ug(g.n, g.e.size());
            fill(ug, g);
            auto& mwpm = ug.get_mwpm();
            bool threw = false;
            try {
                pm::write_animated_decoding_svg_frames(mwpm, p.at, p.bat, p.ev, dir.d + "/", false, set.per_event, set.at_start, set.at_end, set.growth);
            } catch (const std::invalid_argument&) {
                threw = true;
            }
            if (p.best >= INF) {
                if (!threw) fail("a problem without solution is not refused: " + where);
                c.transitions++;
                c.outcome(3);
            } else {
                if (threw) fail("refused: " + where);
                check_movie(frames(dir.d, where), p, set, where, c);
            }
            Dir::empty(dir.d);
        }
    }
}

// One detection event at the end of a chain with a boundary at the far end: the drawn region is the only one, and its extent
// on the drawing, which is to scale, is its radius.
static void growth(const std::vector<int64_t>& w, const Set& s, Ctx& c) {
    int n = w.size();
    G g;
    g.n = n;
    Problem p;
    float x = 10, scale = 8;
    for (int k = 0; k < n; k++) {
        g.e.push_back({k, k + 1 < n ? k + 1 : -1, w[k]});
        p.at.push_back({x, 10});
        x += scale * w[k];
        p.bat.push_back({x, 10});
    }
    p.g = g;
    distances(p);
    p.ev = {0};
    p.best = p.d[0][n];
    std::string where = s.str() + " (" + g.str() + ")";
    pm::UserGraph ug(n, g.e.size());
    fill(ug, g);
    auto& mwpm = ug.get_mwpm();
    Dir dir;
    pm::write_animated_decoding_svg_frames(mwpm, p.at, p.bat, p.ev, dir.d + "/", false, s.per_event, s.at_start, s.at_end, s.growth);
    auto fs = frames(dir.d, where);
    double unit = scale / mwpm.flooder.graph.normalising_constant, total = p.best * mwpm.flooder.graph.normalising_constant;
    // the internal length of an edge is its weight times the normalising constant
    double was = 0;
    std::string trace;
    for (size_t k = 0; k < fs.size(); k++) {
        auto q = parse(fs[k], where);
        double far = 10;
        for (auto& r : q.regions)
            for (auto& y : r) far = std::max(far, (double)y.first);
        double now = (far - 10) / unit;
        trace += fmt("%.4g ", now);
        if (now < was - 1e-2) fail("a growing region shrinks from frame to frame: " + trace + where);
        if (s.growth && now > was + s.growth + 1e-2) fail(fmt("a region grows by more than %zu between frames: ", s.growth) + trace + where);
        if (k < s.at_start && now > 1e-2) fail("regions have grown before the start: " + trace + where);
        if (k + s.at_end >= fs.size() && std::fabs(now - total) > 1e-2) fail(fmt("the region ends at radius %g, not %g: ", now, total) + trace + where);
        was = now;
        c.states++;
    }
    c.transitions++;
    c.traces++;
    c.outcome(fs.size());
    c.note(trace);
}
// --- the command ---
static int cli(const std::vector<std::string>& args, std::string& err) {
    static char name[] = "/tmp/verif_c28_err_XXXXXX";
    static int to = [] {
        int f = mkstemp(name);
        unlink(name);
        return f;
    }();
    std::vector<const char*> a{"pymatching"};
    for (auto& x : args) a.push_back(x.c_str());
    fflush(stderr);
    if (ftruncate(to, 0) || lseek(to, 0, SEEK_SET)) throw std::runtime_error("no error log");
    int save = dup(2);
    dup2(to, 2);
    int rc;
    try {
        rc = pm::main((int)a.size(), a.data()) == EXIT_SUCCESS ? 0 : 1;
    } catch (const std::exception&) {
        rc = 1;
    }
    fflush(stderr);
    dup2(save, 2);
    close(save);
    off_t n = lseek(to, 0, SEEK_END);
    err.resize(std::min<off_t>(n, 100000));
    if (!err.empty() && pread(to, err.data(), err.size(), 0) < 0) err = "?";
    return rc;
}
static size_t open_files() { return Dir::list("/proc/self/fd").size(); }
struct Model {
    std::vector<Err> errs;                        // single-component errors of one or two detectors
    std::vector<std::vector<double>> coords;      // per detector; empty: not declared
    int n, obs;
    bool flat = true;  // at most two coordinates
};
static std::vector<Model> models() {
    auto one = [](double p, std::vector<int> d, std::vector<int> o) {
        Err e;
        e.p = p;
        Comp k;
        for (auto x : d) k.dets.push_back(x);
        for (auto x : o) k.obs.push_back(x);
        e.comps.push_back(k);
        return e;
    };
    std::vector<Model> r;
    r.push_back({{one(0.1, {0}, {0}), one(0.1, {0, 1}, {}), one(0.1, {1, 2}, {}), one(0.1, {2}, {})}, {{}, {}, {}}, 3, 1});
    r.push_back({{one(0.01, {0}, {0}), one(0.2, {0, 1}, {}), one(0.3, {1, 2}, {}), one(0.05, {2, 3}, {}), one(0.11, {3, 0}, {1})}, {{1}, {3}, {5}, {4.5}}, 4, 2});
    r.push_back({{one(0.1, {0, 1}, {0}), one(0.1, {1, 2}, {}), one(0.1, {0, 2}, {}), one(0.07, {2, 3}, {}), one(0.4, {4}, {})},
                 {{0, 0}, {2, 0}, {1, 2}, {-3, 4}, {7.5, -1.25}}, 5, 1});
    r.push_back({{one(0.1, {0, 1}, {}), one(0.2, {1, 2}, {}), one(0.1, {2, 3}, {}), one(0.2, {3, 4}, {}), one(0.1, {4, 0}, {0}), one(0.001, {0}, {})},
                 {{0, 0}, {4, 0}, {}, {2, 2, 5}, {2, 2, 9, 1}}, 5, 1, false});
    r.push_back({{one(0.2, {0, 1}, {}), one(0.2, {1, 2}, {}), one(0.2, {2, 0}, {}), one(0.1, {2, 3}, {}), one(0.2, {3, 4}, {}), one(0.2, {4, 5}, {}), one(0.2, {5, 3}, {}), one(0.05, {0}, {0})},
                 {{0, 0}, {2, 0}, {1, 2}, {4, 2}, {6, 2}, {5, 4}}, 6, 1});
    r.push_back({{one(0.1, {0}, {})}, {{2, 2}, {3, 3}}, 2, 0});  // the second detector has no edge
    r.push_back({{one(0.1, {0}, {})}, {{6, 1}}, 1, 0});
    return r;
}
static std::string text(const Model& m) {
    std::string s;
    for (int k = 0; k < m.n; k++) {
        s += "detector";
        for (size_t j = 0; j < m.coords[k].size(); j++) s += fmt("%s%g", j ? ", " : "(", m.coords[k][j]);
        s += fmt("%s D%d\n", m.coords[k].empty() ? "" : ")", k);
    }
    for (auto& e : m.errs) s += err_text(e) + "\n";
    if (m.obs) s += fmt("logical_observable L%d\n", m.obs - 1);
    return s;
}
static std::string shot(uint64_t s, int n, int obs, const std::string& format, bool appended, uint64_t o) {
    std::string r;
    std::vector<bool> b;
    for (int k = 0; k < n; k++) b.push_back(s >> k & 1);
    if (appended)
        for (int k = 0; k < obs; k++) b.push_back(o >> k & 1);
    if (format == "01") {
        for (auto x : b) r += x ? '1' : '0';
        return r + "\n";
    }
    if (format == "b8") {
        r.resize((b.size() + 7) / 8, 0);
        for (size_t k = 0; k < b.size(); k++)
            if (b[k]) r[k / 8] |= 1 << k % 8;
        return r;
    }
    if (format == "hits") {
        for (size_t k = 0; k < b.size(); k++)
            if (b[k]) r += fmt("%s%zu", r.empty() ? "" : ",", k);
        return r + "\n";
    }
    r = "shot";
    for (size_t k = 0; k < b.size(); k++)
        if (b[k]) r += k < (size_t)n ? fmt(" D%zu", k) : fmt(" L%zu", k - n);
    return r + "\n";
}
static Problem problem_of(const Model& m) {
    Problem p;
    p.g.n = m.n;
    double top = 0;
    for (auto& e : m.errs) {
        double w = llr(e.p);
        top = std::max(top, w);
        auto& d = e.comps[0].dets;
        p.g.e.push_back({(int)d[0], d.size() > 1 ? (int)d[1] : -1, (int64_t)std::llround(w * (1 << 20))});
    }
    p.slack = (int64_t)(top * (1 << 20) * 2 / 1000 * m.errs.size()) + 64;
    distances(p);
    return p;
}
static const std::vector<std::string> FMT{"01", "b8", "hits", "dets"};
static void command(const Model& m, uint64_t s, uint64_t form, Ctx& c) {
    Problem p = problem_of(m);
    p.best = oracle(p.g)[s];
    p.ev = events_of(s);
    std::sort(p.ev.begin(), p.ev.end());
    auto& f = FMT[form % 4];
    bool appended = form / 4 % 2 && m.obs, quiet = form % 3 != 0, slash = form % 2, exists = form / 2 % 2;
    int ppu = form % 3 == 1 ? 4 : form % 3 == 2 ? 30 : 11;
    Set set = SETS[(form + s) % SETS.size()];
    if (set.growth) set.growth *= 97;
    Dir dir;
    put(dir.d + "/model", text(m));
    std::string data = shot(s, m.n, m.obs, f, appended, s * 5);
    if (form % 5 == 1 && f != "b8") data += shot(~s, m.n, m.obs, f, appended, 0);  // only the first shot is shown
    put(dir.d + "/shot", data);
    std::string out = dir.d + "/frames";
    if (exists) mkdir(out.c_str(), 0755);
    std::vector<std::string> a{"animate", "--dem_in", dir.d + "/model", "--dets_in", dir.d + "/shot", "--dets_in_format", f, "--out_dir", slash ? out + "/" : out,
                               "--held_frames_per_event", fmt("%zu", set.per_event), "--held_frames_at_start", fmt("%zu", set.at_start), "--held_frames_at_end",
                               fmt("%zu", set.at_end), "--max_growth_between_frames", fmt("%zu", set.growth), "--pixels_per_unit_length", fmt("%d", ppu)};
    if (appended) a.push_back("--dets_in_includes_appended_observables");
    if (quiet) a.push_back("--quiet");
    std::string where = synd_str(s) + ", " + set.str() + fmt(", format %s%s (", f.c_str(), appended ? " with observables" : "");
    for (auto ch : text(m)) where += ch == '\n' ? ';' : ch;
    where += ")";
    std::string err;
    cli({"nothing"}, err);
    size_t before = open_files();
    int rc = cli(a, err);
    if (p.best >= INF) {
        if (rc == 0) fail("a problem without solution is not refused: " + where);
        c.transitions++;
        c.outcome(4);
        return;
    }
    if (rc) fail("refused: " + err.substr(0, 200) + ": " + where);
    if (open_files() != before) fail("files are left open: " + where);
    auto fs = frames(out, where);
    if (quiet && !err.empty()) fail("the quiet command writes to stderr: " + err.substr(0, 200) + ": " + where);
    size_t lines = std::count(err.begin(), err.end(), '\n');
    if (!quiet && lines < fs.size()) fail("progress is not reported: " + where);
    // where the nodes are: the declared places up to one common shift
    if (fs.empty()) return;
    auto q = parse(fs[0], where);
    std::vector<P> circles = q.plain;
    circles.insert(circles.end(), q.fired.begin(), q.fired.end());
    if (circles.size() != (size_t)m.n) fail(fmt("%zu nodes are drawn of %d: ", circles.size(), m.n) + where);
    if (!m.flat) {
        for (size_t k = 0; k < fs.size(); k++) {
            auto x = parse(fs[k], where);
            if (x.fired.size() != p.ev.size() || x.plain.size() != m.n - p.ev.size()) fail("the detection events drawn are not those of the shot: " + where);
            c.states++;
        }
        c.transitions++;
        return;
    }
    std::sort(circles.begin(), circles.end());
    for (int k = 0; k < m.n; k++) {
        auto& x = m.coords[k];
        p.at.push_back({(float)(x.size() ? x[0] : k) * ppu, (float)(x.size() > 1 ? x[1] : 0) * ppu});
    }
    auto first = *std::min_element(p.at.begin(), p.at.end());
    float dx = circles[0].first - first.first, dy = circles[0].second - first.second;
    p.bat.assign(m.n, {-1e6f, -1e6f});
    for (auto& y : p.at) y.first += dx, y.second += dy;
    for (auto& l : q.half) {
        int k = find(p.at, l.x1, l.y1);
        if (k >= 0) p.bat[k] = {l.x2, l.y2};
        if (k >= 0 && find(p.at, l.x2, l.y2) == k) fail("a boundary edge is drawn as a point: " + where);
    }
    check_movie(fs, p, set, where, c);
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C28";
    o.assumptions = {"non-negative weights and probabilities of at most one half", "distinct places for the nodes", "detectors with more than two coordinates: only the counts are judged, not the projection"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        const int64_t A = ABSENT;
        GraphFn all = [](const G& g, Ctx& c) { animate_graph(g, 0, 1, SETS, c); };
        GraphFn some = [](const G& g, Ctx& c) {
            uint64_t N = uint64_t{1} << g.n;
            animate_graph(g, 1, N / 61 | 1, {SETS[0], SETS[5]}, c);
            animate_graph(g, N - 1, N, {SETS[3], SETS[1], SETS[2], SETS[4]}, c);
        };
        f.push_back(fam(AllWeights{complete(2, 2), {A, 0, 1, 2, 5}}, all, 4));
        f.push_back(fam(AllWeights{complete(3, 3), th ? std::vector<int64_t>{A, 0, 1, 3} : std::vector<int64_t>{A, 0, 2}}, all, 8));
        f.push_back(fam(AllWeights{complete(3, 1), {A, 0, 1, 3}}, all, 8));
        f.push_back(fam(AllWeights{complete(4, 1), th ? std::vector<int64_t>{A, 1, 3} : std::vector<int64_t>{A, 1}}, all, 4));
        f.push_back(fam(AllWeights{complete(4, 0), {A, 1, 2}}, all, 8));
        f.push_back(fam(AllWeights{complete(5, 0), th ? std::vector<int64_t>{A, 1, 2} : std::vector<int64_t>{A, 1}}, all, 4));
        f.push_back(fam(AllWeights{ring(5, 1), {0, 1, 2}}, all, 2));
        f.push_back(fam(AllWeights{triangles(2, true), {1, 2}}, some, 4));
        for (auto& t : {grid(3, 3, 1, true), triangles(3, false), triangles(3, true), petersen(false), complete(7, 1), complete(8, 0), mobius(8, false), wheel(7, true), ring(9, 1), ring(10, 0)})
            f.push_back(fam(QuadWeights{t, th ? 9 : 4, 1}, some, 1));
        f.push_back(fam(QuadWeights{complete(10, 0), 3, 9}, some, 1));
        {
            Family x;
            x.name = "growth";
            std::vector<int64_t> al{0, 1, 2, 5};
            int len = 3;
            uint64_t W = 4 + 16 + 64, S = 4 * 3 * 2 * 2;
            x.n = W * S;
            x.chunk = 16;
            x.bound = "chains of 1-3 edges of weight 0, 1, 2 or 5, drawn to scale, one event at the near end: growth 0, 1, 3, 20 x 0-2 frames per event x 1-2 at start x 1-2 at end";
            auto dec = [=](uint64_t i) {
                uint64_t w = i / S, s = i % S;
                std::vector<int64_t> v;
                int n = w < 4 ? 1 : w < 20 ? 2 : 3;
                w -= n == 1 ? 0 : n == 2 ? 4 : 20;
                for (int k = 0; k < n; k++) v.push_back(al[w % 4]), w /= 4;
                static const size_t gr[] = {0, 1, 3, 20};
                return std::make_pair(v, Set{s / 4 % 3, 1 + s % 2, 1 + s / 2 % 2, gr[s / 12]});
            };
            x.describe = [=](uint64_t i) {
                auto d = dec(i);
                std::string s = "chain";
                for (auto y : d.first) s += fmt(" %lld", (long long)y);
                return s + ", " + d.second.str();
            };
            x.run = [=](uint64_t i, Ctx& c) {
                auto d = dec(i);
                growth(d.first, d.second, c);
            };
            f.push_back(x);
        }
        for (size_t k = 0; k < models().size(); k++) {
            auto m = models()[k];
            Family x;
            x.name = fmt("command:%zu", k);
            uint64_t F = 24, N = uint64_t{1} << m.n;
            uint64_t step = th || m.n < 5 ? 1 : 3;
            x.n = (N + step - 1) / step * F;
            x.chunk = 4;
            x.bound = fmt("pymatching animate on a model of %d detectors: every %llu-th shot x 4 formats x appended observables x output directory given with or without slash, existing or not x quiet x numbers of frames (24 combinations)", m.n, (unsigned long long)step);
            x.describe = [=](uint64_t i) { return synd_str(i / F * step) + fmt(" form %llu", (unsigned long long)(i % F)); };
            x.run = [=](uint64_t i, Ctx& c) { command(m, i / F * step, i % F, c); };
            f.push_back(x);
        }
        {
            Family x;
            x.name = "bad-arguments";
            using V = std::vector<std::string>;
            V good{"animate", "--dem_in", "DEM", "--dets_in", "SHOT", "--dets_in_format", "01", "--out_dir", "OUT", "--held_frames_per_event", "1", "--held_frames_at_start", "1", "--held_frames_at_end", "1", "--max_growth_between_frames", "0", "--pixels_per_unit_length", "20", "--quiet"};
            std::vector<V> bad;
            for (size_t k = 1; k + 1 < good.size(); k += 2) {  // one argument missing
                if (good[k] == "--dets_in_format") continue;
                V v = good;
                v.erase(v.begin() + k, v.begin() + k + 2);
                bad.push_back(v);
            }
            auto with = [&](const std::string& flag, const std::string& val) {
                V v = good;
                for (size_t k = 1; k + 1 < v.size(); k++)
                    if (v[k] == flag) v[k + 1] = val;
                bad.push_back(v);
            };
            with("--dem_in", "MISSING");
            with("--dem_in", "BADDEM");
            with("--dets_in", "MISSING");
            with("--dets_in", "EMPTY");
            with("--dets_in", "SHORT");
            with("--dets_in", "LONG");
            with("--dets_in", "ALONE");
            with("--dets_in_format", "nonsense");
            with("--out_dir", "MISSING/deeper");
            with("--held_frames_per_event", "-1");
            with("--held_frames_at_start", "x");
            with("--pixels_per_unit_length", "0");
            with("--max_growth_between_frames", "1.5");
            {
                V v = good;
                v.push_back("--bogus");
                bad.push_back(v);
            }
            bad.push_back(good);  // the last one is fine
            size_t total = bad.size();
            x.n = total;
            x.bound = fmt("%zu malformed command lines and inputs, each must fail, and the well-formed one, which must not", total - 1);
            auto str = [=](uint64_t i) {
                std::string s;
                for (auto& y : bad[i]) s += y + " ";
                return s;
            };
            x.describe = str;
            x.run = [=](uint64_t i, Ctx& c) {
                Dir d;
                std::map<std::string, std::string> content{{"DEM", "error(0.1) D0\nerror(0.2) D0 D1\ndetector D2\n"}, {"BADDEM", "error(0.1 D0\n"}, {"SHOT", "110\n"}, {"SHORT", "1\n"}, {"LONG", "1101\n"}, {"ALONE", "011\n"}, {"EMPTY", ""}};
                for (auto& kv : content) put(d.d + "/" + kv.first, kv.second);
                auto a = bad[i];
                for (auto& y : a)
                    if (content.count(y) || y.rfind("MISSING", 0) == 0 || y == "OUT") y = d.d + "/" + y;
                std::string err;
                int rc = cli(a, err);
                c.states++;
                c.transitions++;
                c.traces++;
                if (i + 1 < total && rc == 0) fail("command line was accepted: " + str(i));
                if (i + 1 == total && rc) fail("command line was refused: " + str(i) + err.substr(0, 200));
                c.note(rc ? "rejected" : "accepted");
            };
            f.push_back(x);
        }
        return f;
    });
}
