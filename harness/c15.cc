// C15: the command line's predict and count_mistakes agree with library decoding, on real files, for every shot list,
// format pair and option of the families.
#include <dirent.h>

#include "graphs.h"
#include "pymatching/sparse_blossom/driver/namespaced_main.h"
using namespace vx;

using Bits = std::vector<uint8_t>;
static const std::vector<std::string> FORMATS{"01", "b8", "r8", "hits", "dets"};

// --------------------------------------------------------------- independent readers and writers of the formats
static std::string encode(const std::vector<Bits>& recs, const std::string& f, size_t num_det) {
    std::string o;
    for (auto& r : recs) {
        if (f == "01") {
            for (auto b : r) o += '0' + b;
            o += '\n';
        } else if (f == "b8") {
            for (size_t k = 0; k < r.size(); k += 8) {
                int v = 0;
                for (size_t j = 0; j < 8 && k + j < r.size(); j++) v |= r[k + j] << j;
                o += (char)v;
            }
        } else if (f == "r8") {
            size_t gap = 0;
            for (size_t k = 0; k <= r.size(); k++) {
                if (k == r.size() || r[k]) {
                    for (; gap >= 255; gap -= 255) o += (char)255;
                    o += (char)gap;
                    gap = 0;
                } else
                    gap++;
            }
        } else if (f == "hits") {
            std::string l;
            for (size_t k = 0; k < r.size(); k++)
                if (r[k]) l += (l.empty() ? "" : ",") + std::to_string(k);
            o += l + "\n";
        } else {
            o += "shot";
            for (size_t k = 0; k < r.size(); k++)
                if (r[k]) o += k < num_det ? fmt(" D%d", (int)k) : fmt(" L%d", (int)(k - num_det));
            o += "\n";
        }
    }
    return o;
}
static std::string scratch() {
    char t[] = "/tmp/verif_c15_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("no scratch directory");
    return t;
}
static void put(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) throw std::runtime_error("cannot write " + p);
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
static bool get(const std::string& p, std::string& s) {
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return false;
    char b[4096];
    size_t k;
    s.clear();
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    return true;
}
struct Dir {
    std::string d = scratch();
    ~Dir() {
        for (auto n : {"dem", "in", "obs", "out"}) unlink((d + "/" + n).c_str());
        rmdir(d.c_str());
    }
};
// Runs the command line in this process; 0 ok, 1 error exit or exception. Messages on stderr are swallowed.
static int cli(const std::vector<std::string>& args) {
    std::vector<const char*> a{"pymatching"};
    for (auto& x : args) a.push_back(x.c_str());
    static int null = open("/dev/null", O_WRONLY);
    int probe = dup(0);
    close(probe);
    fflush(stderr);
    int save = dup(2);
    dup2(null, 2);
    int rc;
    try {
        rc = pm::main((int)a.size(), a.data()) == EXIT_SUCCESS ? 0 : 1;
    } catch (const std::exception&) {
        rc = 1;
    }
    fflush(stderr);
    dup2(save, 2);
    for (int fd = probe; fd < probe + 16; fd++) close(fd);  // files the command left open, and 'save'
    return rc;
}
struct Model {
    std::string name, text;
    size_t nd, no;
};
static Model model(const std::string& name, const std::string& text) {
    stim::DetectorErrorModel d(text.c_str());
    return {name, text, (size_t)d.count_detectors(), (size_t)d.count_observables()};
}
struct Pred {
    bool ok;
    Bits obs;
};
static Pred library1(const Model& m, const Bits& dets, bool corr) {
    stim::DetectorErrorModel d(m.text.c_str());
    auto mw = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, corr, corr);
    std::vector<uint64_t> ev;
    for (size_t k = 0; k < dets.size(); k++)
        if (dets[k]) ev.push_back(k);
    Pred p{true, Bits(m.no, 0)};
    pm::total_weight_int w = 0;
    try {
        pm::decode_detection_events(mw, ev, p.obs.data(), w, corr);
    } catch (const std::invalid_argument&) {
        p.ok = false;
    }
    return p;
}
static Pred library(const Model& m, const Bits& dets, bool corr) {
    if (m.nd < 5000) return library1(m, dets, corr);
    static std::map<std::tuple<std::string, Bits, bool>, Pred> memo;
    auto k = std::make_tuple(m.name, dets, corr);
    auto it = memo.find(k);
    if (it == memo.end()) it = memo.emplace(k, library1(m, dets, corr)).first;
    return it->second;
}
static Bits bits(uint64_t x, size_t n) {
    Bits b(n, 0);
    for (size_t k = 0; k < n && k < 64; k++) b[k] = x >> k & 1;
    return b;
}
static std::string show(const std::vector<Bits>& r) {
    std::string s;
    for (auto& b : r) {
        for (auto x : b) s += '0' + x;
        s += " ";
    }
    return s.size() > 400 ? s.substr(0, 400) + "..." : s;
}
static std::vector<Bits> cat(const std::vector<Bits>& a, const std::vector<Bits>& b) {
    auto r = a;
    for (size_t k = 0; k < r.size(); k++) r[k].insert(r[k].end(), b[k].begin(), b[k].end());
    return r;
}
static void predict(const Model& m, const std::vector<Bits>& shots, const std::string& fi, const std::string& fo, bool append, bool corr, bool defaults, Ctx& c) {
    if (fi == "b8" && m.nd + append * m.no == 0) return;
    Dir d;
    put(d.d + "/dem", m.text);
    std::vector<Bits> in = shots;
    if (append) {
        std::vector<Bits> o;
        for (size_t k = 0; k < shots.size(); k++) o.push_back(bits(k * 5 + 3, m.no));
        in = cat(shots, o);
    }
    put(d.d + "/in", encode(in, fi, m.nd));
    std::vector<std::string> a{"predict", "--dem", d.d + "/dem", "--in", d.d + "/in", "--out", d.d + "/out"};
    if (!(defaults && fi == "b8")) a.insert(a.end(), {"--in_format", fi});
    if (!(defaults && fo == "01")) a.insert(a.end(), {"--out_format", fo});
    if (append) a.push_back("--in_includes_appended_observables");
    if (corr) a.push_back("--enable_correlations");
    std::vector<Bits> want;
    bool ok = true;
    for (auto& s : shots) {
        auto p = library(m, s, corr);
        ok = ok && p.ok;
        want.push_back(p.obs);
    }
    int rc = cli(a);
    c.transitions += shots.size();
    c.states++;
    auto where = [&]() { return fmt("predict %s->%s append=%d corr=%d, model %s, shots %s", fi.c_str(), fo.c_str(), append, corr, m.name.c_str(), show(shots).c_str()); };
    if ((rc == 0) != ok) fail(fmt("exit status %d: ", rc) + where());
    if (!ok) return;
    std::string got;
    if (!get(d.d + "/out", got)) fail("no output file: " + where());
    // predictions are observables: the 'dets' writer names them L0, L1, ...
    std::string exp = encode(want, fo, 0);
    if (got != exp) fail(fmt("output '%s' instead of '%s': ", jesc(got).c_str(), jesc(exp).c_str()) + where());
    c.outcome(std::hash<std::string>()(exp));
}
static void count(const Model& m, const std::vector<Bits>& shots, const std::vector<Bits>& obs, const std::string& fi, const std::string& fo, bool append, bool corr, Ctx& c) {
    if (fi == "b8" && m.nd + append * m.no == 0) return;
    if (!append && fo == "b8" && m.no == 0) return;
    Dir d;
    put(d.d + "/dem", m.text);
    std::vector<std::string> a{"count_mistakes", "--dem", d.d + "/dem", "--in", d.d + "/in", "--out", d.d + "/out", "--in_format", fi};
    if (append) {
        put(d.d + "/in", encode(cat(shots, obs), fi, m.nd));
        a.push_back("--in_includes_appended_observables");
    } else {
        put(d.d + "/in", encode(shots, fi, m.nd));
        put(d.d + "/obs", encode(obs, fo, 0));
        a.insert(a.end(), {"--obs_in", d.d + "/obs", "--obs_in_format", fo});
    }
    if (corr) a.push_back("--enable_correlations");
    bool ok = true;
    size_t wrong = 0;
    for (size_t k = 0; k < shots.size(); k++) {
        auto p = library(m, shots[k], corr);
        ok = ok && p.ok;
        wrong += p.obs != obs[k];
    }
    int rc = cli(a);
    c.transitions += shots.size();
    c.states++;
    auto where = [&]() { return fmt("count_mistakes %s/%s append=%d corr=%d, model %s, shots %s observables %s", fi.c_str(), fo.c_str(), append, corr, m.name.c_str(), show(shots).c_str(), show(obs).c_str()); };
    if ((rc == 0) != ok) fail(fmt("exit status %d: ", rc) + where());
    if (!ok) return;
    std::string got;
    if (!get(d.d + "/out", got)) fail("no output file: " + where());
    std::string exp = fmt("%zu / %zu\n", wrong, shots.size());
    if (got != exp) fail(fmt("output '%s' instead of '%s': ", jesc(got).c_str(), jesc(exp).c_str()) + where());
    c.outcome(wrong * 1000 + shots.size());
}
static std::vector<Model> models() {
    std::vector<Model> v;
    v.push_back(model("path", "error(0.1) D0 L0\nerror(0.2) D0 D1\nerror(0.05) D1 L1\n"));
    v.push_back(model("correlated", "error(0.1) D0 D1 ^ D2 D3 L0\nerror(0.05) D0 L1\nerror(0.04) D3\nerror(0.1) D1 D2\nerror(0.02) D2 D3 L0\nerror(0.01) D0 D1\n"));
    v.push_back(model("unsatisfiable", "error(0.1) D0 D1 L0\nerror(0.2) D1 D2\ndetector D3\n"));
    v.push_back(model("many-observables", "error(0.1) D0 L0 L69\nerror(0.2) D0 D1 L63 L64\nerror(0.05) D1 L65\nlogical_observable L71\n"));
    v.push_back(model("no-observables", "error(0.1) D0\nerror(0.2) D0 D1\n"));
    v.push_back(model("no-detectors", "error(0.1) L0\nlogical_observable L1\n"));
    v.push_back(model("repeat", "repeat 3 {\nerror(0.1) D0 D1 L0\nerror(0.3) D0 L2\nshift_detectors 1\n}\nerror(0.1) D0\n"));
    v.push_back(model("negative", "error(0.9) D0 L0\nerror(0.7) D0 D1\nerror(0.2) D1 L1\n"));
    v.push_back(model("nine-observables", "error(0.1) D0 L8\nerror(0.2) D0 D1 L3 L7\nerror(0.05) D1 L0 L1\n"));
    return v;
}
// Large models: n detectors in two rails, with rungs, diagonals and decomposed errors; observables spread up to no - 1.
static Model large(int n, int no, int shape, bool blocks) {
    std::string s;
    auto L = [&](int k) { return no && k % 3 == 0 ? fmt(" L%d", (k * 7 + shape) % no) : std::string(); };
    auto p = [&](int k) { return fmt("error(%.17g)", 0.01 + (double)((k * k * (2 + shape) + 5 * k + shape) % 97) / 400); };
    int k = 0;
    if (blocks) {
        s += fmt("repeat %d {\n%s D0 D2%s\n%s D0 D1\n%s D1 D2%s\n%s D0 D1 ^ D2 D3%s\nshift_detectors 2\n}\n%s D0%s\n", n / 2 - 1, p(1).c_str(), L(3).c_str(), p(2).c_str(), p(3).c_str(), L(9).c_str(),
                 p(4).c_str(), L(6).c_str(), p(5).c_str(), L(12).c_str());
    } else {
        s += fmt("%s D0%s\n", p(k++).c_str(), L(3).c_str());
        for (int i = 0; i + 2 < n; i++) {
            s += fmt("%s D%d D%d%s\n", p(k).c_str(), i, i + 2, L(k).c_str()), k++;
            if (i % 2 == 0 || i % 5 == 0) s += fmt("%s D%d D%d%s\n", p(k).c_str(), i, i + 1, L(k).c_str()), k++;
            if (i % 4 == 1 && i + 4 < n) s += fmt("%s D%d D%d%s ^ D%d D%d%s\n", p(k).c_str(), i, i + 2, L(k).c_str(), i + 1, i + 3, L(k + 1).c_str()), k += 2;
            if (i % 31 == 7) s += fmt("%s D%d%s\n", p(k).c_str(), i, L(k).c_str()), k++;
        }
        s += fmt("%s D%d%s\n", p(k).c_str(), n - 1, L(k).c_str());
    }
    if (no) s += fmt("logical_observable L%d\n", no - 1);
    return model(fmt("large-%d-%d-%d%s", n, no, shape, blocks ? "-blocks" : ""), s);
}
// A chain of tens of thousands of detectors, each edge flipping an observable of its own (modulo no), and its shots.
static Model huge(int n, int no) {
    std::string s;
    for (int k = 0; k <= n; k++) {
        s += fmt("error(%.17g)", 0.01 + (double)((unsigned)k % 1009 * (k % 1009) * 7 % 997) / 4000);
        if (k) s += fmt(" D%d", k - 1);
        if (k < n) s += fmt(" D%d", k);
        s += fmt(" L%d\n", k % no);
    }
    return model(fmt("chain-%d-%d", n, no), s + fmt("logical_observable L%d\n", no - 1));
}
static std::vector<Bits> huge_shots(size_t n) {
    std::vector<std::vector<size_t>> at{{}, {0}, {n - 1}, {0, n - 1}, {65535}, {65535, 65536}, {65533, 65534, n - 2}, {}};
    for (size_t k = 0; k < n; k += 1777) at.back().push_back(k);
    std::vector<Bits> r;
    for (auto& a : at) {
        r.emplace_back(n, 0);
        for (auto k : a)
            if (k < n) r.back()[k] = 1;
    }
    return r;
}
static std::vector<Bits> large_shots(const Model& m, int count, int shape) {
    std::vector<Bits> r;
    for (int j = 0; j < count; j++) {
        Bits b(m.nd, 0);
        int dens = j % 5 == 0 ? 0 : j % 5 == 1 ? 1 : j % 5 == 2 ? 5 : j % 5 == 3 ? 25 : 60;
        for (size_t i = 0; i < m.nd; i++) b[i] = (int)((i * i * (1 + (j * 3 + shape) % 500) + i * (j + 11)) % 1009) * 100 < dens * 1009;
        if (j % 7 == 3) b[m.nd - 1] = 1;
        r.push_back(b);
    }
    return r;
}
int main(int argc, char** argv) {
    Options o;
    o.prop = "C15";
    o.assumptions = {"files are read and written by the stim stand-in in shim/stim.h; the expected bytes come from independent encoders here",
                     "b8 records of zero bits carry no record boundaries and are excluded"};
    return explore_main(argc, argv, o, [](const std::string& tier) {
        bool th = tier == "thorough";
        std::vector<Family> f;
        auto ms = models();
        // every syndrome of every model in one file (and alone), every format pair and option
        {
            Family x;
            x.name = "predict:all-syndromes";
            size_t NF = FORMATS.size();
            x.n = ms.size() * NF * NF * 2 * 2 * 2;
            x.chunk = 4;
            x.bound = fmt("%d models x every in/out format pair x appended observables x correlations x {all satisfiable syndromes in one file, each syndrome in a file of its own}", (int)ms.size());
            auto arg = [=](uint64_t i, size_t& mi, size_t& fi, size_t& fo, bool& ap, bool& co, bool& single) {
                mi = i % ms.size(), i /= ms.size();
                fi = i % NF, i /= NF;
                fo = i % NF, i /= NF;
                ap = i & 1, co = i & 2, single = i & 4;
            };
            x.describe = [=](uint64_t i) {
                size_t mi, fi, fo;
                bool ap, co, si;
                arg(i, mi, fi, fo, ap, co, si);
                return fmt("model %s in=%s out=%s append=%d corr=%d single=%d", ms[mi].name.c_str(), FORMATS[fi].c_str(), FORMATS[fo].c_str(), ap, co, si);
            };
            x.run = [=](uint64_t i, Ctx& c) {
                size_t mi, fi, fo;
                bool ap, co, si;
                arg(i, mi, fi, fo, ap, co, si);
                auto& m = ms[mi];
                if (co && m.name == "negative") {  // probabilities above 1/2 are rejected with correlations
                    Dir d;
                    put(d.d + "/dem", m.text);
                    put(d.d + "/in", "00\n");
                    if (cli({"predict", "--dem", d.d + "/dem", "--in", d.d + "/in", "--in_format", "01", "--out", d.d + "/out", "--enable_correlations"}) == 0)
                        fail("model with probability above 1/2 accepted with correlations");
                    return;
                }
                c.traces++;
                std::vector<Bits> all;
                for (uint64_t s = 0; s < (1ull << m.nd); s++) {
                    Bits b = bits(s, m.nd);
                    if (si) predict(m, {b}, FORMATS[fi], FORMATS[fo], ap, co, true, c);
                    else if (library(m, b, co).ok) all.push_back(b);
                }
                if (!si) {
                    predict(m, all, FORMATS[fi], FORMATS[fo], ap, co, false, c);
                    std::reverse(all.begin(), all.end());
                    predict(m, all, FORMATS[fi], FORMATS[fo], ap, co, true, c);
                    predict(m, {}, FORMATS[fi], FORMATS[fo], ap, co, false, c);
                }
                c.note("files agree");
            };
            f.push_back(x);
        }
        // every list of up to L shots
        auto lists = [&](size_t mi, int len, bool cnt) {
            Family x;
            auto m = ms[mi];
            uint64_t A = cnt ? 1ull << (m.nd + std::min<size_t>(m.no, 2)) : 1ull << m.nd;
            x.name = fmt("%s:lists:%s:L%d", cnt ? "count" : "predict", m.name.c_str(), len);
            x.n = ipow(A, len);
            x.chunk = 4;
            x.bound = fmt("every list of %d shots (%d possible shots%s) of model %s, with observables %s, correlations off and on", len, (int)A,
                          cnt ? " with every observable record" : "", m.name.c_str(), cnt ? "appended and in a separate file" : "absent and appended");
            auto get = [=](uint64_t i, std::vector<Bits>& sh, std::vector<Bits>& ob) {
                for (int k = 0; k < len; k++) {
                    uint64_t y = i % A;
                    i /= A;
                    sh.push_back(bits(y, m.nd));
                    Bits b = bits(y >> m.nd, std::min<size_t>(m.no, 2));
                    if (cnt && m.no > 2) {
                        // the two free bits decide the first and the last observable flipped away from the prediction
                        Bits p = library(m, sh.back(), false).obs;
                        if (b[0]) p[0] ^= 1;
                        if (b[1]) p[m.no - 1] ^= 1;
                        b = p;
                    }
                    ob.push_back(b);
                }
            };
            x.describe = [=](uint64_t i) {
                std::vector<Bits> sh, ob;
                get(i, sh, ob);
                return m.name + " shots " + show(sh) + " observables " + show(ob);
            };
            x.run = [=](uint64_t i, Ctx& c) {
                std::vector<Bits> sh, ob;
                get(i, sh, ob);
                c.traces++;
                for (int co = 0; co < (m.name == "negative" ? 1 : 2); co++)
                    for (int ap = 0; ap < 2; ap++) {
                        std::string fi = FORMATS[(i + ap) % 5], fo = FORMATS[(i / 5 + co) % 5];
                        if (cnt) count(m, sh, ob, fi, fo, ap, co, c);
                        else predict(m, sh, fi, fo, ap, co, false, c);
                    }
                c.note("agrees");
            };
            f.push_back(x);
        };
        for (size_t k = 0; k < ms.size(); k++) {
            if (ms[k].nd <= 3) lists(k, 2, false), lists(k, ms[k].nd + std::min<size_t>(ms[k].no, 2) <= 4 || th ? 2 : 1, true);
            lists(k, 1, true);
        }
        lists(0, 3, false);
        if (th) lists(0, 3, true), lists(1, 2, false), lists(3, 3, false), lists(7, 3, true);
        {
            Family x;
            x.name = "large-models";
            size_t NF = FORMATS.size();
            struct Big {
                int n, no, shots;
                bool blocks;
            };
            auto bigs = std::make_shared<std::vector<Big>>(std::vector<Big>{{70, 3, 300, false}, {130, 64, 200, false}, {130, 65, 200, false}, {301, 200, 100, false}, {64, 8, 300, true}, {600, 1, 60, false}, {700, 70, 60, true}, {24, 2, 3000, false}});
            uint64_t shapes = th ? 6 : 1;
            x.n = bigs->size() * NF * 4 * shapes;
            x.chunk = 1;
            x.case_limit_s = 300;
            x.bound = fmt("%d models of 24 to 700 detectors with 1 to 200 observables, 60 to 3000 shots in one file, every in format (out formats in rotation), with and without appended observables and correlations; predict and count_mistakes", (int)(bigs->size() * shapes));
            auto get = [=](uint64_t i) {
                auto& b = (*bigs)[i / (NF * 4) % bigs->size()];
                return large(b.n, b.no, (int)(i / (NF * 4) / bigs->size()), b.blocks);
            };
            x.describe = [=](uint64_t i) { return fmt("%s in=%s options %d", get(i).name.c_str(), FORMATS[i / 4 % NF].c_str(), (int)(i % 4)); };
            x.run = [=](uint64_t i, Ctx& c) {
                auto m = get(i);
                auto& b = (*bigs)[i / (NF * 4) % bigs->size()];
                bool ap = i & 1, co = i & 2;
                auto sh = large_shots(m, b.shots, (int)i);
                std::vector<Bits> obs;
                c.traces++;
                predict(m, sh, FORMATS[i / 4 % NF], FORMATS[(i / 4 + i / 20) % NF], ap, co, false, c);
                for (size_t k = 0; k < sh.size(); k++) {
                    obs.push_back(library(m, sh[k], co).obs);
                    if (k % 3 == 1) obs.back()[(k * 5) % m.no] ^= 1;
                    if (k % 3 == 2 && k % 2) obs.back()[m.no - 1] ^= 1;
                }
                count(m, sh, obs, FORMATS[i / 4 % NF], FORMATS[(i / 4 + i / 20 + 1) % NF], ap, co, c);
                c.note("agrees");
            };
            f.push_back(x);
        }
        {
            Family x;
            x.name = "huge-models";
            size_t NF = FORMATS.size();
            auto dims = std::make_shared<std::vector<std::pair<int, int>>>(std::vector<std::pair<int, int>>{{70001, 3}, {65537, 70000}});
            x.n = dims->size() * NF * 4;
            x.chunk = 1;
            x.case_limit_s = 300;
            x.bound = "chains of 65537 and 70001 detectors with 3 and 70000 observables, eight shots in one file, every in format (out formats in rotation), with and without appended observables and correlations; predict and count_mistakes";
            x.describe = [=](uint64_t i) { return fmt("%d detectors, %d observables, in=%s options %d", (*dims)[i / 4 / NF].first, (*dims)[i / 4 / NF].second, FORMATS[i / 4 % NF].c_str(), (int)(i % 4)); };
            x.run = [=](uint64_t i, Ctx& c) {
                auto m = huge((*dims)[i / 4 / NF].first, (*dims)[i / 4 / NF].second);
                bool ap = i & 1, co = i & 2;
                auto sh = huge_shots(m.nd);
                std::vector<Bits> obs;
                c.traces++;
                predict(m, sh, FORMATS[i / 4 % NF], FORMATS[(i / 4 + i / 20) % NF], ap, co, false, c);
                for (size_t k = 0; k < sh.size(); k++) {
                    obs.push_back(library(m, sh[k], co).obs);
                    if (k % 3 == 1) obs.back()[(k * 9973) % m.no] ^= 1;
                    if (k % 3 == 2 && k % 2) obs.back()[m.no - 1] ^= 1;
                }
                count(m, sh, obs, FORMATS[i / 4 % NF], FORMATS[(i / 4 + i / 20 + 1) % NF], ap, co, c);
                c.note("agrees");
            };
            f.push_back(x);
        }
        // every format pair for count_mistakes
        {
            Family x;
            x.name = "count:formats";
            size_t NF = FORMATS.size();
            x.n = ms.size() * NF * NF * 4;
            x.chunk = 4;
            x.bound = fmt("%d models x every shot/observable format pair x appended x correlations: all satisfiable syndromes, with observables right, one bit wrong (each bit in turn), all wrong", (int)ms.size());
            x.describe = [=](uint64_t i) { return fmt("model %s formats %s/%s options %d", ms[i % ms.size()].name.c_str(), FORMATS[i / ms.size() % NF].c_str(), FORMATS[i / ms.size() / NF % NF].c_str(), (int)(i / ms.size() / NF / NF)); };
            x.run = [=](uint64_t i, Ctx& c) {
                auto& m = ms[i % ms.size()];
                i /= ms.size();
                std::string fi = FORMATS[i % NF], fo = FORMATS[i / NF % NF];
                i /= NF * NF;
                bool ap = i & 1, co = i & 2;
                if (co && m.name == "negative") return;
                c.traces++;
                std::vector<Bits> sh, right;
                for (uint64_t s = 0; s < (1ull << m.nd); s++) {
                    auto p = library(m, bits(s, m.nd), co);
                    if (!p.ok) continue;
                    sh.push_back(bits(s, m.nd));
                    right.push_back(p.obs);
                }
                count(m, sh, right, fi, fo, ap, co, c);
                for (size_t b = 0; b < m.no; b++) {
                    auto w = right;
                    for (size_t k = 0; k < w.size(); k += 1 + b % 2) w[k][b] ^= 1;
                    count(m, sh, w, fi, fo, ap, co, c);
                }
                count(m, {}, {}, fi, fo, ap, co, c);
                c.note("agrees");
            };
            f.push_back(x);
        }
        // bad arguments
        {
            Family x;
            x.name = "bad-arguments";
            using V = std::vector<std::string>;
            std::vector<V> bad{{}, {"nonsense"}, {"predict"}, {"predict", "--in", "IN"}, {"predict", "--dem", "MISSING", "--in", "IN", "--out", "OUT"},
                               {"predict", "--dem", "DEM", "--in", "MISSING", "--out", "OUT"}, {"predict", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--bogus"},
                               {"predict", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--in_format", "xyz"}, {"predict", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--out_format", "xyz"},
                               {"predict", "--dem", "BADDEM", "--in", "IN", "--in_format", "01", "--out", "OUT"}, {"predict", "--dem", "DEM", "--in", "SHORT", "--in_format", "01", "--out", "OUT"},
                               {"predict", "--dem", "DEM", "--in", "IN", "--in_format", "01", "--out", "OUT", "--in_includes_appended_observables"},
                               {"predict", "--dem", "DEM", "--in", "IN", "--in_format", "01", "--obs_in", "OBS", "--out", "OUT"},
                               {"predict", "--dem", "HYPER", "--in", "IN3", "--in_format", "01", "--out", "OUT", "--enable_correlations"},
                               {"count_mistakes"}, {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT"}, {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--obs_in", "MISSING"},
                               {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--obs_in", "OBS1"}, {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--obs_in", "OBS", "--obs_in_format", "qq"},
                               {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--obs_in", "OBS", "--in_format", "qq"},
                               {"count_mistakes", "--in", "IN", "--out", "OUT", "--obs_in", "OBS"}, {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--in_includes_appended_observables"},
                               {"count_mistakes", "--dem", "DEM", "--in", "IN", "--out", "OUT", "--obs_in", "OBS", "--wat", "3"}};
            x.n = bad.size();
            x.bound = fmt("%d malformed command lines and inputs, each must fail", (int)bad.size());
            auto str = [=](uint64_t i) {
                std::string s;
                for (auto& y : bad[i]) s += y + " ";
                return s;
            };
            x.describe = str;
            x.run = [=](uint64_t i, Ctx& c) {
                std::string d = scratch();
                std::map<std::string, std::string> content{{"DEM", "error(0.1) D0 L0\nerror(0.2) D0 D1\n"}, {"BADDEM", "error(0.1 D0\n"}, {"IN", "10\n11\n"}, {"SHORT", "1\n"}, {"OBS", "1\n0\n"}, {"OBS1", "1\n"},
                                                           {"HYPER", "error(0.1) D0 D1 D2\n"}, {"IN3", "000\n"}};
                for (auto& kv : content) put(d + "/" + kv.first, kv.second);
                auto a = bad[i];
                for (auto& y : a)
                    if (content.count(y) || y == "MISSING" || y == "OUT") y = d + "/" + y;
                int rc = cli(a);
                for (auto& kv : content) unlink((d + "/" + kv.first).c_str());
                unlink((d + "/OUT").c_str());
                rmdir(d.c_str());
                c.states++;
                c.transitions++;
                c.traces++;
                if (rc == 0) fail("command line was accepted: " + str(i));
                c.note("rejected");
            };
            f.push_back(x);
        }
        return f;
    });
}
