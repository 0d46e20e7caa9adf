"""C25: every Python entry point that loads a detector error model gives the model's matching graph, and the Python
command line gives the library's predictions, outputs and exit status."""
import itertools, math, os, sys, tempfile
from pathlib import Path
import numpy as np
import stim
import pymatching
from pymatching import Matching
import pymatching._cli_argv as cli_argv
from pyexplore import Family, fail, main, product_index
from pyref import RefGraph, bits, to_int
import pygraphs, pybig
from c24 import dem_reference

# ------------------------------------------------------------------ models: every short list of these instructions
INSTR = ["error(0.1) D0 L0", "error(0.2) D0 D1", "error(0.05) D1 L1", "error(0.3) D0 D2 L0 L1", "error(0.15) D1 D2", "error(0.25) D0 D1 ^ D2 L0",
         "error(0.125) D2", "error(0.1) D0 ^ D1 D2 L1", "error(0.01) D0 D1 L1"]


def ref_graph(text):
    ndet, nobs, e, w, imp = dem_reference(text)
    g = RefGraph(ndet, nobs)
    for (u, v), (p, ob) in e.items():
        g.add(u, v, ob, w[(u, v)], p)
    g.k = nobs
    return g


def loaders(text, d):
    p = pygraphs.dem_file(text, d)
    m = stim.DetectorErrorModel(text)
    wrong = "error(0.1) D0 D1 D2 D3 D4"
    c = stim.Circuit("X 0", wrong, text)
    q = p[:-4] + ".stim"
    with open(q, "w") as f:
        f.write(text)
    L = []
    for corr in (False, True):
        k = {"enable_correlations": corr}
        L += [("Matching(model)", corr, lambda k=k: Matching(m, **k)), ("from_detector_error_model", corr, lambda k=k: Matching.from_detector_error_model(m, **k)),
              ("from_detector_error_model_file(str)", corr, lambda k=k: Matching.from_detector_error_model_file(p, **k)),
              ("from_detector_error_model_file(Path)", corr, lambda k=k: Matching.from_detector_error_model_file(Path(p), **k)),
              ("Matching(circuit)", corr, lambda k=k: Matching(c, **k)), ("from_stim_circuit", corr, lambda k=k: Matching.from_stim_circuit(c, **k)),
              ("from_stim_circuit_file(str)", corr, lambda k=k: Matching.from_stim_circuit_file(q, **k)),
              ("from_stim_circuit_file(Path)", corr, lambda k=k: Matching.from_stim_circuit_file(Path(q), **k))]
    L += [("Matching(model) default", False, lambda: Matching(m)), ("from_detector_error_model default", False, lambda: Matching.from_detector_error_model(m)),
          ("from_detector_error_model_file default", False, lambda: Matching.from_detector_error_model_file(p)),
          ("from_stim_circuit default", False, lambda: Matching.from_stim_circuit(c)), ("Matching(circuit) default", False, lambda: Matching(c)),
          ("from_stim_circuit_file default", False, lambda: Matching.from_stim_circuit_file(q))]
    return L


def fam_load(length):
    A = len(INSTR)

    def text(i):
        return "\n".join(INSTR[j] for j in product_index(i, *([A] * length))) + "\n"

    def run(i, ctx):
        t = text(i)
        g = ref_graph(t)
        corr_ref = None
        with tempfile.TemporaryDirectory() as d:
            for nm, corr, fn in loaders(t, d):
                ctx.transitions += 1
                m = fn()
                r = g.compare(m, nm)
                if r:
                    fail(r)
                if not m._matching_graph.all_edges_have_error_probabilities():
                    fail("%s: edges without error probability" % nm)
                tab = g.table()
                out = []
                for s in range(1 << g.n):
                    z = np.array(bits(s, g.n), dtype=np.uint8)
                    try:
                        c, w = m.decode(z, return_weight=True)
                    except ValueError:
                        if tab.weight(s) != math.inf:
                            fail("%s: %s rejected" % (nm, z.tolist()))
                        out.append(None)
                        continue
                    if not tab.same_weight(s, w) or not tab.optimal(s, to_int(c)):
                        fail("%s: %s decodes to %s, %r" % (nm, z.tolist(), c.tolist(), w))
                    try:
                        c2, w2 = m.decode(z, return_weight=True, enable_correlations=True)
                    except ValueError:
                        if corr:
                            fail("%s with correlations: correlated decoding of %s rejected" % (nm, z.tolist()))
                        continue
                    if not corr:
                        fail("%s without correlations: correlated decoding was accepted" % nm)
                    out.append((tuple(c2.tolist()), w2))
                if corr:
                    if corr_ref is None:
                        corr_ref = out
                    elif out != corr_ref:
                        fail("%s: correlated decoding differs from the other entry points" % nm)
                ctx.states += 1 << g.n
                ctx.traces += 1
        ctx.outcome(t)

    return Family("load:L%d" % length, "every list of %d of %d instructions through every loading entry point with and without correlations, every syndrome" % (length, A),
                  A ** length, run, lambda i: repr(text(i)), 8)


def fam_badload():
    with_dir = []

    def jobs(d):
        p = pygraphs.dem_file("error(0.1) D0 L0\n", d)
        c = stim.Circuit("X 0", "error(0.1) D0", "error(0.1) D0")
        return [("missing file", lambda: Matching.from_detector_error_model_file(os.path.join(d, "none.dem"))),
                ("missing Path", lambda: Matching.from_detector_error_model_file(Path(d) / "none.dem")),
                ("missing circuit file", lambda: Matching.from_stim_circuit_file(os.path.join(d, "none.stim"))),
                ("missing circuit Path", lambda: Matching.from_stim_circuit_file(Path(d) / "none.stim")),
                ("text as model", lambda: Matching.from_detector_error_model("error(0.1) D0")), ("circuit as model", lambda: Matching.from_detector_error_model(c)),
                ("model as circuit", lambda: Matching.from_stim_circuit(stim.DetectorErrorModel("error(0.1) D0"))), ("text as circuit", lambda: Matching.from_stim_circuit("X 0")),
                ("None as model", lambda: Matching.from_detector_error_model(None)),
                ("invalid model text", lambda: Matching(stim.DetectorErrorModel("error(0.1 D0"))),
                ("unknown instruction", lambda: Matching.from_detector_error_model(stim.DetectorErrorModel("mistake(0.1) D0"))),
                ("p > 0.5 with correlations", lambda: Matching.from_detector_error_model(stim.DetectorErrorModel("error(0.75) D0"), enable_correlations=True)),
                ("undecomposed hyperedge with correlations", lambda: Matching.from_detector_error_model(stim.DetectorErrorModel("error(0.1) D0 D1 D2"), enable_correlations=True))]

    def run(i, ctx):
        with tempfile.TemporaryDirectory() as d:
            nm, fn = jobs(d)[i]
            ctx.states += 1
            ctx.transitions += 1
            try:
                fn()
            except (ValueError, TypeError):
                ctx.traces += 1
                return
            fail("%s was accepted" % nm)

    return Family("invalid", "every listed unusable model, file and argument type", 13, run, lambda i: "job %d" % i, 1)


# ------------------------------------------------------------------ command line
def write01(rows):
    return "".join("".join(str(int(b)) for b in r) + "\n" for r in rows).encode()


def writeb8(rows):
    return b"".join(np.packbits(np.array(r, dtype=np.uint8), bitorder="little").tobytes() for r in rows)


def invoke(how, args, stdin=b""):
    """Runs the command in a child process, with its own stdin/stdout; returns (exit status, stdout)."""
    with tempfile.TemporaryDirectory() as d:
        fi, fo = os.path.join(d, "i"), os.path.join(d, "o")
        with open(fi, "wb") as f:
            f.write(stdin)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.dup2(os.open(fi, os.O_RDONLY), 0)
                os.dup2(os.open(fo, os.O_WRONLY | os.O_CREAT, 0o600), 1)
                os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
                if how == "cli":
                    r = pymatching.cli(command_line_args=args)
                else:  # what the installed console script does: sys.exit(cli_argv())
                    sys.argv = ["pymatching"] + args
                    r = cli_argv.cli_argv()
                code = 0 if r is None else int(r)
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception:
                code = 1
            import ctypes
            ctypes.CDLL(None).fflush(None)
            os._exit(code & 0xff)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            fail("command %s died from signal %d" % (args, os.WTERMSIG(st)))
        with open(fo, "rb") as f:
            return os.WEXITSTATUS(st), f.read()


CLI_DEMS = ["rep", "corr", "corr3", "repeat"]


def fam_cli():
    cases = list(itertools.product(CLI_DEMS, ("cli", "argv"), (False, True), ("01", "b8"), ("predict", "predict-appended", "count-appended", "count-separate"), (0, 1)))

    def run(i, ctx):
        dem, how, corr, fmt, mode, viafile = cases[i]
        text = pygraphs.DEMS[dem]
        with tempfile.TemporaryDirectory() as d:
            p = pygraphs.dem_file(text, d)
            m = Matching.from_detector_error_model_file(p, enable_correlations=corr)
            n, k = m.num_detectors, m.num_fault_ids
            rows, obs, pred = [], [], []
            for s in range(1 << n):
                z = np.array(bits(s, n), dtype=np.uint8)
                try:
                    c = m.decode(z, enable_correlations=corr)
                except ValueError:
                    continue
                rows.append(z.tolist())
                pred.append(c.tolist())
                obs.append([(s >> j ^ s >> 1) & 1 for j in range(k)])
            w = write01 if fmt == "01" else writeb8
            args = ["predict" if "predict" in mode else "count_mistakes", "--dem", p, "--in_format", fmt]
            if corr:
                args.append("--enable_correlations")
            data = w([r + o for r, o in zip(rows, obs)]) if "appended" in mode else w(rows)
            if "appended" in mode:
                args.append("--in_includes_appended_observables")
            stdin = data
            inp, out = os.path.join(d, "in"), os.path.join(d, "out")
            if viafile:
                with open(inp, "wb") as f:
                    f.write(data)
                args += ["--in", inp, "--out", out]
                stdin = b""
            if mode == "count-separate":
                with open(os.path.join(d, "obs"), "wb") as f:
                    f.write(w(obs))
                args += ["--obs_in", os.path.join(d, "obs"), "--obs_in_format", fmt]
            if "predict" in mode:
                args += ["--out_format", fmt]
                want = w(pred)
            else:
                want = b"%d / %d\n" % (sum(a != b for a, b in zip(obs, pred)), len(rows))
            rc, got = invoke(how, args, stdin)
            ctx.transitions += len(rows)
            if viafile:
                with open(out, "rb") as f:
                    got = f.read()
            if rc != 0:
                fail("exit status %d" % rc)
            if got != want:
                fail("output %r instead of %r" % (got[:200], want[:200]))
            ctx.states += len(rows)
            ctx.traces += 1
            ctx.outcome(got)

    return Family("command", "%d models x pymatching.cli / installed command x correlations x 01/b8 x predict and count_mistakes in every input arrangement x files or standard streams; all satisfiable shots"
                  % len(CLI_DEMS), len(cases), run, lambda i: str(cases[i]), 2)


def fam_cli_bad():
    BAD = [[], ["help"], ["predictt"], ["predict"], ["count_mistakes"], ["predict", "--dem", "@none"], ["predict", "--dem", "@dem", "--in_format", "zz"],
           ["predict", "--dem", "@dem", "--unknown"], ["predict", "--dem", "@dem", "--in", "@none"], ["count_mistakes", "--dem", "@dem"],
           ["count_mistakes", "--dem", "@dem", "--bogus", "1"], ["predict", "--dem", "@dem", "--out_format", "b9"],
           ["count_mistakes", "--dem", "@dem", "--in_format", "01", "--obs_in", "@short", "--in", "@two"],
           ["predict", "--dem", "@dem", "--in_format", "01", "--in", "@unsat"], ["predict", "--dem", "@badp", "--enable_correlations"]]

    def run(i, ctx):
        b, how = product_index(i, len(BAD), 2)
        with tempfile.TemporaryDirectory() as d:
            files = {"dem": b"error(0.1) D0 D1 L0\n", "short": b"0\n", "two": b"00\n11\n", "unsat": b"10\n", "badp": b"error(0.75) D0\n"}
            for k, v in files.items():
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v)
            args = [os.path.join(d, a[1:]) if a.startswith("@") else a for a in BAD[b]]
            rc, out = invoke(("cli", "argv")[how], args)
            ctx.states += 1
            ctx.transitions += 1
            if rc == 0:
                fail("command %s ended with exit status 0" % BAD[b])
            ctx.traces += 1

    return Family("command-errors", "%d bad command lines through pymatching.cli and the installed command" % len(BAD), len(BAD) * 2, run,
                  lambda i: "%s via %s" % (BAD[i // 2], ("cli", "argv")[i % 2]), 2)


# ------------------------------------------------------------------ large models
def large_text(n, no, shape):
    """Two rails with rungs; repeated errors, decomposed errors, isolated boundary errors; observables up to no - 1."""
    L = lambda k: " L%d" % ((k * 7 + shape) % no) if k % 3 == 0 else ""
    P = lambda k: "error(%r)" % (0.01 + ((k * k * (2 + shape) + 5 * k + shape) % 97) / 400)
    out, k = [P(1) + " D0" + L(3)], 0
    for i in range(n - 2):
        out.append("%s D%d D%d%s" % (P(k), i, i + 2, L(k)))
        k += 1
        if i % 2 == 0:
            out.append("%s D%d D%d%s" % (P(k), i, i + 1, L(k)))
            k += 1
        if i % 4 == 1 and i + 4 < n:
            out.append("%s D%d D%d%s ^ D%d D%d%s" % (P(k), i, i + 2, L(k), i + 1, i + 3, L(k + 1)))
            k += 2
        if i % 31 == 7:
            out.append("%s D%d%s" % (P(k), i, L(k)))
            k += 1
        if i % 10 == 4:
            out.append("%s D%d D%d L%d" % (P(k), i, i + 2, no - 1))  # a second error on an existing pair
    out.append("%s D%d D%d L%d" % (P(k), n - 2, n - 1, no - 1))
    out.append("%s D%d%s" % (P(k), n - 1, L(0)))
    return "\n".join(out) + "\n"


BIG = [(n, no, shape) for n in (30, 64, 65, 150) for no in (1, 8, 64, 65, 130) for shape in range(3)]


def fam_large_load(nsyn):
    def run(i, ctx):
        n, no, shape = BIG[i]
        text = large_text(n, no, shape)
        g = ref_graph(text)
        used = sorted({o for e in g.e.values() for o in e[0]})
        o = pybig.BigOracle(g, sorted({used[0], used[len(used) // 2], used[-1]}))
        first = {}
        synd = pybig.syndromes(n, i, nsyn)
        with tempfile.TemporaryDirectory() as d:
            for nm, corr, fn in loaders(text, d):
                m = fn()
                r = g.compare(m, nm)
                if r:
                    fail(r)
                ctx.traces += 1
                for t, fired in enumerate(synd):
                    z = pybig.vec(n, fired)
                    c, w = m.decode(z, return_weight=True)
                    o.check_prediction(fired, c, w, "%s: syndrome %d" % (nm, t))
                    ctx.transitions += 2
                    ctx.states += 1
                    try:
                        c2, w2 = m.decode(z, return_weight=True, enable_correlations=True)
                    except ValueError as e:
                        if corr:
                            fail("%s: correlated decoding rejected: %s" % (nm, e))
                        continue
                    if not corr:
                        fail("%s without correlations: correlated decoding was accepted" % nm)
                    got = (c2.tolist(), w2)
                    if first.setdefault(t, got) != got:
                        fail("%s: correlated decoding of syndrome %d differs from the other entry points" % (nm, t))
                    ctx.outcome((t, w2))

    return Family("large-models", "%d models of 30 to 150 detectors with up to 130 observables, repeated and decomposed errors, through every loading entry point; contents and %d syndromes" % (len(BIG), 4 + 3 * nsyn),
                  len(BIG), run, lambda i: str(BIG[i]), 1, 300)


def fam_large_cli(nsyn):
    cases = list(itertools.product(range(0, len(BIG), 2), ("cli", "argv"), (False, True), ("01", "b8"), ("predict", "count-appended", "count-separate")))

    def run(i, ctx):
        b, how, corr, fmt, mode = cases[i]
        n, no, shape = BIG[b]
        with tempfile.TemporaryDirectory() as d:
            p = pygraphs.dem_file(large_text(n, no, shape), d)
            m = Matching.from_detector_error_model_file(p, enable_correlations=corr)
            rows = [pybig.vec(n, s).tolist() for s in pybig.syndromes(n, b, nsyn, (0, 2, 10, 30, 60))]
            pred = [m.decode(r, enable_correlations=corr).tolist() for r in rows]
            obs = [list(x) for x in pred]
            for j, x in enumerate(obs):
                if j % 3 == 1:
                    x[(j * 5) % no] ^= 1
            w = write01 if fmt == "01" else writeb8
            args = ["predict" if mode == "predict" else "count_mistakes", "--dem", p, "--in_format", fmt] + (["--enable_correlations"] if corr else [])
            stdin = w([r + o for r, o in zip(rows, obs)]) if mode == "count-appended" else w(rows)
            if mode == "count-appended":
                args.append("--in_includes_appended_observables")
            elif mode == "count-separate":
                with open(os.path.join(d, "obs"), "wb") as f:
                    f.write(w(obs))
                args += ["--obs_in", os.path.join(d, "obs"), "--obs_in_format", fmt]
            if mode == "predict":
                args += ["--out_format", fmt]
            want = w(pred) if mode == "predict" else b"%d / %d\n" % (sum(x != y for x, y in zip(obs, pred)), len(rows))
            rc, got = invoke(how, args, stdin)
            ctx.transitions += len(rows)
            ctx.states += len(rows)
            ctx.traces += 1
            if rc != 0:
                fail("exit status %d" % rc)
            if got != want:
                fail("output %r instead of %r" % (got[:200], want[:200]))

    return Family("large-command", "models of 30 to 150 detectors, %d shots, pymatching.cli / installed command x correlations x 01/b8 x predict and count_mistakes" % (4 + 5 * nsyn), len(cases), run, lambda i: str(cases[i]), 2, 300)


def fam_huge_load(stride):
    cases = [(b, x) for x in range(17) for b in range(len(pybig.HUGE))][::stride]

    def run(i, ctx):
        b, x = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        text = c.model()
        with tempfile.TemporaryDirectory() as d:
            nm, corr, fn = loaders(text, d)[x]
            m = fn()
            r = c.ref(lambda k: 1 / (1 + math.exp(float(c.w[k])))).compare(m, nm)
            if r:
                fail(r)
            ctx.traces += 1
            for t, fired in enumerate(c.syndromes()):
                ctx.states += 1
                for use in (False, True) if corr else (False,):
                    ctx.transitions += 1
                    p, w = m.decode(pybig.vec(n, fired), return_weight=True, enable_correlations=use)
                    c.check_prediction(fired, p, w, "%s: syndrome %d, correlations %s" % (nm, t, use))
                    ctx.outcome((i, t, w))

    return Family("huge-models:s%d" % stride, "every %d-th of %d pairs of a model of 65536 to 70001 detectors and up to 70002 observables and a loading entry point; contents and twelve syndromes" % (stride, 17 * len(pybig.HUGE)),
                  len(cases), run, lambda i: "%s entry point %d" % (pybig.HUGE[cases[i][0]], cases[i][1]), 1, 300)


def fam_huge_cli():
    cases = list(itertools.product(range(len(pybig.HUGE)), (False, True), ("01", "b8"), ("predict", "count")))

    def run(i, ctx):
        b, corr, fmt, mode = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        with tempfile.TemporaryDirectory() as d:
            p = pygraphs.dem_file(c.model(), d)
            synd = c.syndromes()
            pred = [c.predictions(s)[0] for s in synd]  # more than one: either is right
            w = write01 if fmt == "01" else writeb8
            args = [{"predict": "predict", "count": "count_mistakes"}[mode], "--dem", p, "--in_format", fmt] + (["--enable_correlations"] if corr else [])
            rows = [pybig.vec(n, s) for s in synd]
            if mode == "predict":
                rc, got = invoke(("cli", "argv")[i % 2], args + ["--out_format", fmt], w(rows))
                width = c.k + 1 if fmt == "01" else (c.k + 7) // 8
                if rc != 0 or len(got) != width * len(rows):
                    fail("exit status %d, %d bytes of output" % (rc, len(got)))
                for j, opts in enumerate(pred):
                    if got[j * width:(j + 1) * width] not in [w([x]) for x in opts]:
                        fail("prediction of shot %d" % j)
            else:
                obs = [x[0].copy() for x in pred]
                for j in range(0, len(obs), 3):
                    obs[j][-1 - j] ^= 1
                keep = [j for j in range(len(rows)) if len(pred[j]) == 1]
                want = b"%d / %d\n" % (sum(j % 3 == 0 for j in keep), len(keep))
                rc, got = invoke(("cli", "argv")[i % 2], args + ["--in_includes_appended_observables"], w([np.concatenate([rows[j], obs[j]]) for j in keep]))
                if rc != 0 or got != want:
                    fail("exit status %d, output %r instead of %r" % (rc, got, want))
            ctx.transitions += len(rows)
            ctx.states += len(rows)
            ctx.traces += 1

    return Family("huge-command", "models of 65536 to 70001 detectors and up to 70002 observables, pymatching.cli / installed command x correlations x 01/b8 x predict and count_mistakes", len(cases), run, lambda i: str(cases[i]), 1, 300)


def families(tier):
    t = tier == "thorough"
    f = [fam_load(1), fam_load(2), fam_load(3), fam_load(4), fam_badload(), fam_cli(), fam_cli_bad()]
    f += [fam_large_load(20 if t else 4), fam_large_cli(60 if t else 8)]
    f += [fam_huge_load(1 if t else 4), fam_huge_cli()]
    if t:
        f += [fam_load(5)]
    return f


if __name__ == "__main__":
    main(families, ["stim (C++ and Python) is replaced by stand-ins with its documented model language and file formats; circuits are represented by their decomposed model",
                    "pybind11 is replaced by /verif/shim/pybind11"])
