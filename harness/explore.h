// Exhaustive explorer: enumerates every index of every family, in forked workers, and turns
// mismatches, crashes and hangs into replayable violations.
#ifndef VERIF_EXPLORE_H
#define VERIF_EXPLORE_H

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vx {

struct Failure {
    std::string key;
    std::string msg;
};

inline std::string fmt(const char* f, ...) {
    va_list ap, ap2;
    va_start(ap, f);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    std::string out(n > 0 ? n : 0, 0);
    if (n > 0)
        vsnprintf(out.data(), n + 1, f, ap2);
    va_end(ap2);
    return out;
}
[[noreturn]] inline void fail(const std::string& msg) {
    throw Failure{"", msg};
}
// A failure that carries an identity, so that a listed known finding can be recognised.
[[noreturn]] inline void fail_keyed(const std::string& key, const std::string& msg) {
    throw Failure{key, msg};
}

constexpr size_t OUTCOME_BITS = 1 << 20;
constexpr int MAX_WORKERS = 64;
constexpr size_t MAX_KNOWN = 32;

struct Slot {
    std::atomic<int64_t> family;   // -1 idle
    std::atomic<uint64_t> idx;
    std::atomic<int64_t> started_ns;
};
struct Shared {
    std::atomic<uint64_t> next_chunk;
    std::atomic<uint64_t> states, transitions, traces, cases;
    std::atomic<int> failed;
    int64_t fail_family;
    uint64_t fail_idx;
    char fail_msg[16384];
    std::atomic<uint64_t> known_hits[MAX_KNOWN];
    Slot slots[MAX_WORKERS];
    std::atomic<uint64_t> outcomes[OUTCOME_BITS / 64];
};

struct Ctx {
    Shared* sh = nullptr;
    uint64_t states = 0, transitions = 0, traces = 0;
    bool verbose = false;  // replay / sample mode
    std::string notes;
    void outcome(uint64_t h) {
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        h = (h >> 32) % OUTCOME_BITS;
        if (sh) {
            auto& w = sh->outcomes[h / 64];
            uint64_t b = uint64_t{1} << (h % 64);
            if (!(w.load(std::memory_order_relaxed) & b))
                w.fetch_or(b, std::memory_order_relaxed);
        }
    }
    void note(const std::string& s) {
        if (verbose && notes.size() < 2000)
            notes += s + "; ";
    }
};

struct Family {
    std::string name;
    std::string bound;  // what exactly is enumerated
    uint64_t n = 0;
    uint64_t chunk = 1;
    std::function<void(uint64_t, Ctx&)> run;
    std::function<std::string(uint64_t)> describe;
    double case_limit_s = 30;
};

inline int64_t now_ns() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}
// CPU time used so far by a process (it stands still while the machine runs something else); -1 if gone.
inline int64_t cpu_ns(pid_t pid) {
    clockid_t c;
    timespec t;
    if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return -1;
    return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}
// A case hangs when it has used limit_s of CPU time, or (asleep, deadlocked) 10 * limit_s of wall time.
inline bool over_limit(int64_t wall_ns, int64_t cpu_used_ns, double limit_s) {
    return cpu_used_ns > (int64_t)(limit_s * 1e9) || wall_ns > (int64_t)(limit_s * 10e9);
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
            o += fmt("\\u%04x", (unsigned char)c);
        } else {
            o += c;
        }
    }
    return o;
}

struct Options {
    std::string prop;
    std::string tier = "quick";
    std::string evidence;
    std::string replay_dir = "replays";
    std::string known_file;
    std::vector<std::string> assumptions;
    size_t mem_limit_mb = 3500;
    bool sanitizer = false;
};

// Returns 0 ok, 1 failed (msg filled), 2 crashed, 3 timed out
inline int run_isolated(const Family& f, uint64_t idx, double limit_s, std::string& msg, Ctx* counters = nullptr,
                        size_t mem_mb = 0) {
    int p[2];
    if (pipe(p))
        return 2;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        if (mem_mb) {
            rlimit rl{mem_mb << 20, mem_mb << 20};
            setrlimit(RLIMIT_AS, &rl);
        }
        Ctx c;
        c.verbose = true;
        std::string out;
        int rc = 0;
        try {
            f.run(idx, c);
            out = c.notes;
        } catch (const Failure& e) {
            rc = 1;
            out = (e.key.empty() ? "" : "[" + e.key + "] ") + e.msg;
        } catch (const std::exception& e) {
            rc = 1;
            out = std::string("unexpected exception: ") + e.what();
        }
        size_t off = 0;
        while (off < out.size()) {
            ssize_t k = write(p[1], out.data() + off, out.size() - off);
            if (k <= 0)
                break;
            off += k;
        }
        fflush(stdout);
        _exit(rc);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    int64_t t0 = now_ns();
    msg.clear();
    int status = 0;
    while (true) {
        char buf[4096];
        ssize_t k;
        while ((k = read(p[0], buf, sizeof buf)) > 0)
            msg.append(buf, k);
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            while ((k = read(p[0], buf, sizeof buf)) > 0)
                msg.append(buf, k);
            break;
        }
        if (over_limit(now_ns() - t0, cpu_ns(pid), limit_s)) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            close(p[0]);
            msg = fmt("no termination within %.0f s", limit_s);
            return 3;
        }
        usleep(2000);
    }
    close(p[0]);
    if (WIFSIGNALED(status)) {
        msg = fmt("process killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
        return 2;
    }
    if (WEXITSTATUS(status) == 0)
        return 0;
    if (WEXITSTATUS(status) == 1)
        return 1;
    msg += fmt(" process exited with status %d (sanitizer report or abort)", WEXITSTATUS(status));
    return 2;
}

inline int explore_main(int argc, char** argv, Options opt,
                        const std::function<std::vector<Family>(const std::string& tier)>& make_families) {
    int replay = 0;
    std::string rfam;
    uint64_t ridx = 0;
    std::string only;
    int nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") opt.tier = next();
        else if (a == "--prop") opt.prop = next();
        else if (a == "--evidence") opt.evidence = next();
        else if (a == "--replay-dir") opt.replay_dir = next();
        else if (a == "--known") opt.known_file = next();
        else if (a == "--workers") nworkers = atoi(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--replay") { replay = 1; rfam = next(); ridx = strtoull(next().c_str(), nullptr, 10); }
    }
    if (nworkers < 1) nworkers = 1;
    if (nworkers > 16) nworkers = 16;
    if (opt.sanitizer) opt.mem_limit_mb = 0;
    std::vector<Family> fams = make_families(opt.tier);
    if (const char* rt = getenv("VX_RETRY"))
        for (auto& f : fams) f.case_limit_s *= 1 + 2 * atoi(rt);
    if (!only.empty()) {
        std::vector<Family> k;
        for (auto& f : fams) if (f.name.find(only) != std::string::npos) k.push_back(f);
        fams = k;
    }

    if (replay) {
        for (auto& f : fams)
            if (f.name == rfam) {
                printf("replaying %s[%llu]: %s\n", f.name.c_str(), (unsigned long long)ridx,
                       f.describe ? f.describe(ridx).c_str() : "");
                std::string msg;
                int rc = run_isolated(f, ridx, f.case_limit_s * 3, msg, nullptr, opt.mem_limit_mb);
                printf("%s: %s\n", rc == 0 ? "held" : "VIOLATED", msg.c_str());
                return rc != 0;
            }
        fprintf(stderr, "no family %s\n", rfam.c_str());
        return 2;
    }

    std::vector<std::string> known;
    if (!opt.known_file.empty()) {
        if (FILE* f = fopen(opt.known_file.c_str(), "r")) {
            char line[4096];
            while (fgets(line, sizeof line, f)) {
                std::string s = line;
                while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
                std::string pre = "known: property=" + opt.prop + " key=";
                if (s.rfind(pre, 0) == 0 && known.size() < MAX_KNOWN) {
                    std::string rest = s.substr(pre.size());
                    known.push_back(rest.substr(0, rest.find(' ')));
                }
            }
            fclose(f);
        }
    }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }

    struct Chunk { int fam; uint64_t lo, hi; };
    std::vector<Chunk> chunks;
    for (size_t k = 0; k < fams.size(); k++) {
        auto& f = fams[k];
        uint64_t c = f.chunk ? f.chunk : 1;
        for (uint64_t lo = 0; lo < f.n; lo += c) chunks.push_back({(int)k, lo, std::min(f.n, lo + c)});
    }

    int64_t t0 = now_ns();
    std::vector<pid_t> pids(nworkers, 0);
    auto worker = [&](int w) {
        if (opt.mem_limit_mb) {
            rlimit rl{opt.mem_limit_mb << 20, opt.mem_limit_mb << 20};
            setrlimit(RLIMIT_AS, &rl);
        }
        rlimit nc{0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        Slot& s = sh->slots[w];
        Ctx c;
        c.sh = sh;
        while (!sh->failed.load()) {
            uint64_t ci = sh->next_chunk.fetch_add(1);
            if (ci >= chunks.size()) break;
            auto& ch = chunks[ci];
            auto& f = fams[ch.fam];
            for (uint64_t i = ch.lo; i < ch.hi; i++) {
                s.started_ns.store(now_ns());  // before family: the monitor reads it once family is set
                s.idx.store(i);
                s.family.store(ch.fam);
                Failure fl;
                bool bad = false;
                try {
                    f.run(i, c);
                } catch (const Failure& e) {
                    bad = true;
                    fl = e;
                } catch (const std::exception& e) {
                    bad = true;
                    fl = {"", std::string("unexpected exception: ") + e.what()};
                }
                if (bad) {
                    bool isknown = false;
                    for (size_t k = 0; k < known.size(); k++)
                        if (!fl.key.empty() && fl.key == known[k]) {
                            sh->known_hits[k]++;
                            isknown = true;
                        }
                    if (!isknown) {
                        int exp = 0;
                        if (sh->failed.compare_exchange_strong(exp, 1)) {
                            sh->fail_family = ch.fam;
                            sh->fail_idx = i;
                            std::string m = (fl.key.empty() ? "" : "[" + fl.key + "] ") + fl.msg;
                            strncpy(sh->fail_msg, m.c_str(), sizeof(sh->fail_msg) - 1);
                            sh->failed.store(2);
                        }
                        break;
                    }
                }
                if (sh->failed.load(std::memory_order_relaxed)) break;
            }
            s.family.store(-1);
            sh->states += c.states;
            sh->transitions += c.transitions;
            sh->traces += c.traces;
            sh->cases += ch.hi - ch.lo;
            c.states = c.transitions = c.traces = 0;
        }
        s.family.store(-1);
        fflush(stdout);
        // run atexit handlers (leak checking in sanitizer builds) by returning normally
    };
    fflush(stdout);
    for (int w = 0; w < nworkers; w++) {
        sh->slots[w].family.store(-1);
        sh->slots[w].started_ns.store(now_ns());
        pid_t p = fork();
        if (p == 0) {
            worker(w);
            if (opt.sanitizer) exit(0);
            _exit(0);
        }
        pids[w] = p;
    }
    int alive = nworkers;
    int64_t vfam = -1;
    uint64_t vidx = 0;
    std::string vmsg, vkind;
    bool fatal_signal = false;
    auto kill_all = [&]() {
        for (auto& p : pids)
            if (p) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); p = 0; }
        alive = 0;
    };
    std::vector<int64_t> seen_start(nworkers, -1), seen_cpu(nworkers, 0);
    while (alive > 0) {
        int st;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0) {
            for (int w = 0; w < nworkers; w++)
                if (pids[w] == r) {
                    pids[w] = 0;
                    alive--;
                    bool bad = WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
                    if (bad && vfam < 0 && !sh->failed.load()) {
                        vfam = sh->slots[w].family.load();
                        vidx = sh->slots[w].idx.load();
                        vkind = "crash";
                        vmsg = WIFSIGNALED(st) ? fmt("worker killed by signal %d", WTERMSIG(st))
                                               : fmt("worker exited with status %d", WEXITSTATUS(st));
                        // a fault of the process itself, not an outside kill
                        fatal_signal = !WIFSIGNALED(st) || WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT ||
                                       WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGILL;
                        if (vfam < 0) {
                            // crashed between cases (e.g. leak report at exit)
                            vkind = "exit";
                        }
                        kill_all();
                    }
                    break;
                }
            continue;
        }
        if (sh->failed.load() == 2 && vfam < 0) {
            vfam = sh->fail_family;
            vidx = sh->fail_idx;
            vmsg = sh->fail_msg;
            vkind = "mismatch";
            kill_all();
            break;
        }
        for (int w = 0; w < nworkers && vfam < 0; w++) {
            int64_t fm = sh->slots[w].family.load();
            if (!pids[w] || fm < 0) continue;
            int64_t started = sh->slots[w].started_ns.load(), cpu = cpu_ns(pids[w]);
            if (started != seen_start[w]) {
                seen_start[w] = started;
                seen_cpu[w] = cpu;
            }
            if (over_limit(now_ns() - started, cpu - seen_cpu[w], fams[fm].case_limit_s)) {
                vfam = fm;
                vidx = sh->slots[w].idx.load();
                vkind = "hang";
                vmsg = fmt("case ran longer than %.0f s", fams[fm].case_limit_s);
                kill_all();
            }
        }
        usleep(5000);
    }
    double wall = (now_ns() - t0) / 1e9;
    if (sh->failed.load() == 2 && vfam < 0) {
        vfam = sh->fail_family;
        vidx = sh->fail_idx;
        vmsg = sh->fail_msg;
        vkind = "mismatch";
    }

    bool violation = false;
    std::string rpath;
    if (vfam >= 0 || vkind == "exit") {
        // Replay before report: the case must fail again, alone, in a fresh process.
        std::string msg2;
        int rc = 0;
        if (vfam >= 0) {
            auto& f = fams[vfam];
            rc = run_isolated(f, vidx, f.case_limit_s * 3, msg2, nullptr, opt.mem_limit_mb);
            if (rc == 0) {
                // Not reproducible alone: replay the whole chunk prefix, since implementation-side
                // process state (static buffers) may carry over between cases.
                uint64_t c = f.chunk ? f.chunk : 1;
                uint64_t lo = vidx / c * c;
                Family g = f;
                g.run = [&f, lo, vidx](uint64_t, Ctx& cx) { for (uint64_t k = lo; k <= vidx; k++) f.run(k, cx); };
                rc = run_isolated(g, vidx, f.case_limit_s * 6, msg2, nullptr, opt.mem_limit_mb);
                if (rc) msg2 += fmt(" (needs the preceding cases %llu..%llu in the same process)", (unsigned long long)lo, (unsigned long long)vidx);
            }
        } else {
            rc = 2;
            msg2 = vmsg;
        }
        if (rc == 0) {
            fprintf(stderr, "ERROR: %s at %s[%llu] (%s) did not reproduce alone\n", vkind.c_str(),
                    fams[vfam].name.c_str(), (unsigned long long)vidx, vmsg.c_str());
            if (vkind != "mismatch" && !fatal_signal) {
                // The machine was short of time or memory: explore again from the start.
                const char* rt = getenv("VX_RETRY");
                int tries = rt ? atoi(rt) : 0;
                if (tries >= 3) return 2;
                setenv("VX_RETRY", fmt("%d", tries + 1).c_str(), 1);
                fflush(stdout);
                execv("/proc/self/exe", argv);
                return 2;
            }
            msg2 = vmsg + " (only seen after other cases in the same process)";
        }
        violation = true;
        mkdir(opt.replay_dir.c_str(), 0777);
        rpath = opt.replay_dir + "/" + opt.prop + ".json";
        if (FILE* f = fopen(rpath.c_str(), "w")) {
            fprintf(f,
                    "{\"property\": \"%s\", \"tier\": \"%s\", \"family\": \"%s\", \"index\": %llu, \"kind\": \"%s\",\n"
                    " \"case\": \"%s\",\n \"message\": \"%s\",\n"
                    " \"replay_cmd\": \"./check %s --tier %s --replay %s %llu\"}\n",
                    opt.prop.c_str(), opt.tier.c_str(), vfam >= 0 ? fams[vfam].name.c_str() : "-",
                    (unsigned long long)vidx, vkind.c_str(),
                    vfam >= 0 && fams[vfam].describe ? jesc(fams[vfam].describe(vidx)).c_str() : "",
                    jesc(msg2).c_str(), opt.prop.c_str(), opt.tier.c_str(),
                    vfam >= 0 ? fams[vfam].name.c_str() : "-", (unsigned long long)vidx);
            fclose(f);
        }
        printf("case: %s[%llu] %s\nkind: %s\nmessage: %s\n", vfam >= 0 ? fams[vfam].name.c_str() : "-",
               (unsigned long long)vidx, vfam >= 0 && fams[vfam].describe ? fams[vfam].describe(vidx).c_str() : "",
               vkind.c_str(), msg2.c_str());
    }

    uint64_t distinct = 0;
    for (auto& w : sh->outcomes) distinct += __builtin_popcountll(w.load());
    // samples: actual cases, re-executed verbosely
    std::string samples, famdesc;
    for (size_t k = 0; k < fams.size(); k++) {
        auto& f = fams[k];
        famdesc += fmt("%s{\"family\": \"%s\", \"cases\": %llu, \"bound\": \"%s\"}", k ? ", " : "",
                       jesc(f.name).c_str(), (unsigned long long)f.n, jesc(f.bound).c_str());
        if (!violation && f.n && k < 12) {
            std::string m;
            uint64_t si = f.n / 2 + f.n / 7;
            if (si >= f.n) si = f.n - 1;
            run_isolated(f, si, f.case_limit_s, m, nullptr, opt.mem_limit_mb);
            if (m.size() > 500) m.resize(500);
            samples += (samples.empty() ? "" : ", ") +
                       fmt("{\"family\": \"%s\", \"index\": %llu, \"case\": \"%s\", \"observed\": \"%s\"}",
                           jesc(f.name).c_str(), (unsigned long long)si,
                           f.describe ? jesc(f.describe(si).substr(0, 700)).c_str() : "", jesc(m).c_str());
        }
    }
    printf("%s: tier=%s families=%zu cases=%llu states=%llu transitions=%llu traces=%llu distinct_outcomes>=%llu wall=%.1fs\n",
           opt.prop.c_str(), opt.tier.c_str(), fams.size(), (unsigned long long)sh->cases.load(),
           (unsigned long long)sh->states.load(), (unsigned long long)sh->transitions.load(),
           (unsigned long long)sh->traces.load(), (unsigned long long)distinct, wall);
    for (size_t k = 0; k < known.size(); k++)
        if (sh->known_hits[k].load())
            printf("KNOWN-FINDING: property=%s %s (%llu cases)\n", opt.prop.c_str(), known[k].c_str(),
                   (unsigned long long)sh->known_hits[k].load());
    if (!opt.evidence.empty()) {
        if (FILE* f = fopen(opt.evidence.c_str(), "w")) {
            const char* seed = getenv("VERIF_SEED");
            std::string as;
            for (auto& a : opt.assumptions) as += (as.empty() ? "\"" : ", \"") + jesc(a) + "\"";
            fprintf(f,
                    "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\",\n"
                    " \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu,\n"
                    "  \"cases\": %llu, \"distinct_outcomes_at_least\": %llu, \"exhaustive\": %s,\n"
                    "  \"families\": [%s],\n  \"samples\": [%s]},\n"
                    " \"assumptions\": [%s],\n \"wall_s\": %.2f, \"violations\": %d}\n",
                    opt.prop.c_str(), opt.tier.c_str(), seed ? atoi(seed) : 0,
                    (unsigned long long)sh->states.load(), (unsigned long long)sh->transitions.load(),
                    (unsigned long long)sh->traces.load(), (unsigned long long)sh->cases.load(),
                    (unsigned long long)distinct, violation ? "false" : "true", famdesc.c_str(), samples.c_str(),
                    as.c_str(), wall, violation ? 1 : 0);
            fclose(f);
        }
    }
    if (violation) {
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), rpath.c_str());
        fflush(stdout);
        return 1;
    }
    fflush(stdout);
    return 0;
}

}  // namespace vx
#endif
