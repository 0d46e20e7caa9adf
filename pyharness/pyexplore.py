"""Exhaustive explorer for the Python layer: every index of every family, in forked workers. Mismatches, crashes and
hangs become replayable violations. The counterpart of harness/explore.h."""
import ctypes, json, mmap, multiprocessing as mp, os, resource, signal, struct, sys, time, traceback


class Failure(Exception):
    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.key = key


def fail(msg, key=""):
    raise Failure(msg, key)


class Ctx:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.outcomes = set()
        self.notes = []
        self.verbose = False

    def outcome(self, x):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(x))

    def note(self, s):
        if self.verbose and len(self.notes) < 12:
            self.notes.append(s)


class Family:
    def __init__(self, name, bound, n, run, describe=None, chunk=16, limit=60):
        self.name, self.bound, self.n, self.run = name, bound, n, run
        self.describe = describe or (lambda i: str(i))
        self.chunk, self.limit = chunk, limit


def product_index(idx, *dims):
    """Mixed-radix digits of idx, last dimension fastest."""
    out = []
    for d in reversed(dims):
        out.append(idx % d)
        idx //= d
    return out[::-1]


def _describe(f, i):
    try:
        return f.describe(i)
    except Exception as e:  # describing must never hide a case
        return "case %d (%s)" % (i, e)


def _attempt(f, i, c):
    """None if the case held, else (key, message)."""
    try:
        f.run(i, c)
        return None
    except Failure as e:
        return (e.key, str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("", "unexpected %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))


def _cpu_s(pid):
    """CPU time a process has used (it stands still while the machine runs something else)."""
    try:
        return time.clock_gettime(~pid << 3 | 2)
    except OSError:
        return 0.0


def _over(wall, cpu, limit):
    return cpu > limit or wall > 10 * limit


def run_isolated(f, idxs, limit):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        c = Ctx()
        c.verbose = True
        res = None
        for i in idxs:
            res = _attempt(f, i, c)
            if res:
                break
        os.write(w, json.dumps([res, c.notes]).encode()[:60000])
        os._exit(1 if res else 0)
    os.close(w)
    t0 = time.monotonic()
    os.set_blocking(r, False)
    buf = b""
    while True:
        try:
            b = os.read(r, 65536)
            buf += b
        except BlockingIOError:
            pass
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            try:
                while True:
                    b = os.read(r, 65536)
                    if not b:
                        break
                    buf += b
            except BlockingIOError:
                pass
            break
        if _over(time.monotonic() - t0, _cpu_s(pid), limit):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return 3, "no termination within %d s" % limit, []
        time.sleep(0.002)
    os.close(r)
    if os.WIFSIGNALED(st):
        return 2, "process killed by signal %d" % os.WTERMSIG(st), []
    try:
        res, notes = json.loads(buf)
    except ValueError:
        return 2, "process ended with status %d" % os.WEXITSTATUS(st), []
    if res:
        return 1, ("[%s] " % res[0] if res[0] else "") + res[1], notes
    return 0, "", notes


def main(make_families, assumptions=(), conformance=None):
    a = sys.argv[1:]
    opt = {"--tier": "quick", "--prop": "", "--evidence": "", "--replay-dir": "replays", "--known": "", "--only": "",
           "--workers": str(min(16, os.cpu_count() or 1))}
    replay = None
    i = 0
    while i < len(a):
        if a[i] == "--replay":
            replay = (a[i + 1], int(a[i + 2]))
            i += 3
        elif a[i] in opt:
            opt[a[i]] = a[i + 1]
            i += 2
        else:
            i += 1
    prop, tier = opt["--prop"], opt["--tier"]
    fams = [f for f in make_families(tier) if opt["--only"] in f.name]
    for f in fams:
        f.limit *= 1 + 2 * int(os.environ.get("VX_RETRY", "0"))
    if replay:
        for f in fams:
            if f.name == replay[0]:
                print("replaying %s[%d]: %s" % (f.name, replay[1], _describe(f, replay[1])))
                rc, msg, notes = run_isolated(f, [replay[1]], f.limit * 3)
                print("%s: %s" % ("VIOLATED" if rc else "held", msg or "; ".join(notes)))
                sys.exit(1 if rc else 0)
        print("no family " + replay[0], file=sys.stderr)
        sys.exit(2)
    known = []
    if opt["--known"] and os.path.exists(opt["--known"]):
        pre = "known: property=%s key=" % prop
        for line in open(opt["--known"]):
            if line.startswith(pre):
                known.append((line[len(pre):].split(" ", 1) + [""])[:2])

    chunks = []
    for k, f in enumerate(fams):
        for lo in range(0, f.n, f.chunk):
            chunks.append((k, lo, min(f.n, lo + f.chunk)))
    nw = max(1, int(opt["--workers"]))
    nxt = mp.Value("q", 0)
    slots = mp.RawArray("q", 4 * nw)  # family, idx, start_ms, unused
    stop = mp.RawValue("i", 0)
    t0 = time.monotonic()
    pipes = []
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        slots[4 * w] = -1
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            c = Ctx()
            cases = 0
            knownhits = {}
            bad = None
            while not stop.value:
                with nxt.get_lock():
                    ci = nxt.value
                    nxt.value += 1
                if ci >= len(chunks):
                    break
                k, lo, hi = chunks[ci]
                f = fams[k]
                for idx in range(lo, hi):
                    slots[4 * w + 2] = int(time.monotonic() * 1000)
                    slots[4 * w + 1] = idx
                    slots[4 * w] = k
                    res = _attempt(f, idx, c)
                    cases += 1
                    if res:
                        if res[0] and res[0] in [q[0] for q in known]:
                            knownhits[res[0]] = knownhits.get(res[0], 0) + 1
                        else:
                            bad = (k, idx, lo, res)
                            stop.value = 1
                            break
                    if stop.value:
                        break
                if bad:
                    break
            slots[4 * w] = -1
            out = json.dumps([c.states, c.transitions, c.traces, cases, list(c.outcomes)[:50000], knownhits, bad]).encode()
            off = 0
            while off < len(out):
                off += os.write(wr, out[off:off + 65536])
            os._exit(0)
        os.close(wr)
        os.set_blocking(r, False)
        pipes.append(r)
        pids.append(pid)
    bufs = [b""] * nw
    seen = [(None, 0.0)] * nw
    killed_outside = False
    alive = set(range(nw))
    viol = None  # (family, idx, chunk_lo, kind, msg)

    def drain(w):
        try:
            while True:
                b = os.read(pipes[w], 1 << 16)
                if not b:
                    return
                bufs[w] += b
        except BlockingIOError:
            return

    while alive:
        for w in list(alive):
            drain(w)
            p, st = os.waitpid(pids[w], os.WNOHANG)
            if p:
                drain(w)
                alive.discard(w)
                if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) != 0:
                    if viol is None:
                        k, idx = slots[4 * w], slots[4 * w + 1]
                        viol = (k, idx, idx, "crash", "worker ended with status %d" % st)
                        killed_outside = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL
                        stop.value = 1
                continue
            k = slots[4 * w]
            start, cpu = slots[4 * w + 2], _cpu_s(pids[w])
            if seen[w][0] != (start, k, slots[4 * w + 1]):
                seen[w] = ((start, k, slots[4 * w + 1]), cpu)
            if k >= 0 and viol is None and _over(time.monotonic() - start / 1000, cpu - seen[w][1], fams[k].limit):
                viol = (k, slots[4 * w + 1], slots[4 * w + 1], "hang", "case ran longer than %d s" % fams[k].limit)
                stop.value = 1
                os.kill(pids[w], signal.SIGKILL)
        time.sleep(0.005)
    wall = time.monotonic() - t0
    states = transitions = traces = cases = 0
    outcomes = set()
    hits = {}
    for b in bufs:
        if not b:
            continue
        s, t, tr, cs, oc, kh, bad = json.loads(b)
        states += s
        transitions += t
        traces += tr
        cases += cs
        outcomes.update(oc)
        for k, v in kh.items():
            hits[k] = hits.get(k, 0) + v
        if bad and viol is None:
            viol = (bad[0], bad[1], bad[2], "mismatch", ("[%s] " % bad[3][0] if bad[3][0] else "") + bad[3][1])
    rc = 0
    if viol:
        k, idx, lo, kind, msg = viol
        if k < 0:
            print("ERROR: worker died outside a case: " + msg, file=sys.stderr)
            sys.exit(2)
        f = fams[k]
        r, msg2, _ = run_isolated(f, [idx], f.limit * 3)
        if r == 0:
            lo = idx // f.chunk * f.chunk
            r, msg2, _ = run_isolated(f, list(range(lo, idx + 1)), f.limit * 6)
            if r:
                msg2 += " (needs the preceding cases %d..%d in the same process)" % (lo, idx)
        if r == 0:
            print("ERROR: %s at %s[%d] (%s) did not reproduce alone" % (kind, f.name, idx, msg), file=sys.stderr)
            if kind == "hang" or killed_outside:
                # The machine was short of time or memory: explore again from the start.
                tries = int(os.environ.get("VX_RETRY", "0"))
                if tries >= 3:
                    sys.exit(2)
                os.environ["VX_RETRY"] = str(tries + 1)
                sys.stdout.flush()
                os.execv(sys.executable, [sys.executable] + sys.argv)
            msg2 = msg + " (only seen after other cases in the same process)"
        os.makedirs(opt["--replay-dir"], exist_ok=True)
        path = os.path.join(opt["--replay-dir"], "%s.txt" % prop)
        with open(path, "w") as fh:
            fh.write("property: %s\nfamily: %s\nindex: %d\nkind: %s\ncase: %s\nmessage: %s\nreplay: ./check %s --tier %s --replay '%s' %d\n"
                     % (prop, f.name, idx, kind, _describe(f, idx), msg2, prop, tier, f.name, idx))
        print("%s[%d] %s\n  case: %s\n  %s" % (f.name, idx, kind, _describe(f, idx), msg2))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
        rc = 1
    for key, text in known:
        if hits.get(key):
            print("KNOWN-FINDING: property=%s %s (%d cases) %s" % (prop, key, hits[key], text.strip()))
    samples = []
    for f in fams:
        if len(samples) >= 12 or rc:
            break
        i = f.n * 5 // 7
        r, msg, notes = run_isolated(f, [i], f.limit * 3)
        samples.append({"family": f.name, "index": i, "case": _describe(f, i), "observed": "; ".join(notes) or msg or "held"})
    if opt["--evidence"]:
        ev = {"property": prop, "tier": tier, "seed": 0, "level": "model_checking",
              "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces, "cases": cases,
                           "distinct_outcomes_at_least": len(outcomes), "exhaustive": rc == 0,
                           "families": [{"family": f.name, "cases": f.n, "bound": f.bound} for f in fams],
                           "samples": samples or [{"case": "stopped at the violation"}]},
              "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": rc}
        with open(opt["--evidence"], "w") as fh:
            json.dump(ev, fh, indent=1)
    if rc == 0:
        print("%s %s: held on %d cases, %d states, %d transitions in %.1f s" % (prop, tier, cases, states, transitions, wall))
    sys.exit(rc)
