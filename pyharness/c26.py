"""C26: a Matching object built by any sequence of Python construction calls has exactly the content those calls define."""
import itertools, math, warnings
import numpy as np
import pymatching
from pymatching import Matching
from pyexplore import Family, fail, main, product_index
import pybig
from pyref import RefGraph, Rejected, STRATEGIES, bits, to_int, valid_p

MAXW = 2 ** 24 - 1
L = math.log


class Expect:
    """The documented outcome of one call: 'ok', 'error' or 'warn' (warned about and not added)."""


def fid(form):
    """(argument, fault ids it stands for)"""
    return {"none": (None, ()), "minus1": (-1, ()), "int": (1, (1,)), "zero": (0, (0,)), "np": (np.int64(2), (2,)), "npu8": (np.uint8(1), (1,)), "npminus1": (np.int32(-1), ()), "set": ({0, 2}, (0, 2)),
            "empty": (set(), ()), "big": ({70}, (70,))}[form]


def E(u, v, f="none", w=1.0, p=None, s="disallow", kw=None):
    return ("edge", u, v, f, w, p, s, kw)


# v = None: boundary edge
OPS = [
    E(0, 1), E(1, 0, "int", 2.0, 0.25, "replace"), E(0, 1, "zero", 0.5, 0.1, "smallest-weight"), E(1, 0, "set", 1.5, 0.2, "independent"), E(0, 1, "np", 3, 0.3, "keep-original"),
    E(1, 2, "np", 2, 0.5), E(2, 2, "int", 1, 0.1), E(2, 0, "minus1", -1.5, None), E(0, 1, "int", L(4), 0.2, "independent"),
    E(0, None, "zero", 2, 0.25), E(0, None, "int", 1, None, "replace"), E(0, None, "set", 1, 0.4, "smallest-weight"), E(0, None, "none", -2, 0.1, "independent"), E(0, None, "npu8", 7, 0.1, "keep-original"),
    E(3, None, "big", 1, 0.0), E(0, 1, "int", 1, 1.0, "replace"), E(0, 1, "int", 1, 1.5, "replace"),
    ("boundary", ()), ("boundary", (1,)), ("boundary", (0, 4)), ("faults", 2), ("faults", 80), ("decode",),
]
# calls that must be refused or ignored, leaving the graph as it was
BAD = [
    E(-1, 0), E(0, -1), E(-1, None), E(0, 1, w=MAXW + 1), E(0, 1, w=-(MAXW + 2.5), s="replace"), E(0, None, w=2.0 ** 40), E(5, 6, w=2.0 ** 25), E(0, None, w=-float(2 ** 24)), E(0, 1, s="something"), E(0, None, s="Replace"),
    E(0, 1, "int", kw={"qubit_id": 1}), E(0, 1, f="neg"), E(0, None, f="neg"), E(7, None, w=float("inf")),
]


def apply(m, op):
    if op[0] == "edge":
        _, u, v, f, w, p, s, kw = op
        a = {-5} if f == "neg" else fid(f)[0]
        args = dict(fault_ids=a, weight=w, error_probability=p, merge_strategy=s)
        args.update(kw or {})
        if v is None:
            m.add_boundary_edge(u, **args)
        else:
            m.add_edge(u, v, **args)
    elif op[0] == "boundary":
        m.set_boundary_nodes(set(op[1]))
    elif op[0] == "faults":
        m.ensure_num_fault_ids(op[1])


def apply_ref(g, op):
    if op[0] == "edge":
        _, u, v, f, w, p, s, kw = op
        g.add(u, v, fid(f)[1], float(w), -1 if p is None else p, s)
    elif op[0] == "boundary":
        g.set_boundary(op[1])
    elif op[0] == "faults":
        g.k = max(g.k, op[1])


def observe(m, g, where, ctx, decode=True):
    r = g.compare(m, where)
    if r:
        fail(r)
    for u in range(g.n + 2):
        if m.has_boundary_edge(u) != ((u, None) in g.e):
            fail("%s: has_boundary_edge(%d) is %s" % (where, u, m.has_boundary_edge(u)))
        if (u, None) not in g.e:
            expect_error(lambda: m.get_boundary_edge_data(u), "%s: get_boundary_edge_data(%d) of a missing edge" % (where, u))
        for v in range(g.n + 2):
            if m.has_edge(u, v) != (g.key(u, v) in g.e):
                fail("%s: has_edge(%d, %d) is %s" % (where, u, v, m.has_edge(u, v)))
            if g.key(u, v) in g.e:
                r = g._cmp_data(m.get_edge_data(u, v), g.e[g.key(u, v)])
                if r:
                    fail("%s: get_edge_data(%d, %d): %s" % (where, u, v, r))
            else:
                expect_error(lambda: m.get_edge_data(u, v), "%s: get_edge_data(%d, %d) of a missing edge" % (where, u, v))
    nd, nb, ne = g.num_detectors(), len(g.boundary), len(g.e)
    text = "<pymatching.Matching object with %d detector%s, %d boundary node%s, and %d edge%s>" % (nd, "s" * (nd != 1), nb, "s" * (nb != 1), ne, "s" * (ne != 1))
    if repr(m) != text:
        fail("%s: repr %s instead of %s" % (where, repr(m), text))
    noise = m.add_noise()
    allp = all(valid_p(e[2]) for e in g.e.values())
    if (noise is None) == allp:
        fail("%s: add_noise gives %s although %s edges have error probabilities" % (where, noise, "all" if allp else "not all"))
    if noise is not None:
        z, s = noise
        if z.shape != (g.k,) or s.shape != (g.n,) or not set(z.tolist()) <= {0, 1} or not set(s.tolist()) <= {0, 1}:
            fail("%s: add_noise gives %s" % (where, noise))
        if any(s[b] for b in g.boundary):
            fail("%s: add_noise sets the syndrome of a boundary node" % where)
    ctx.states += 1


def check_decode(m, g, where, ctx):
    """All syndromes, when decoding is inside the documented domain."""
    if g.n > 5 or g.k > 4:
        return
    for (u, v), (o, w, p) in g.e.items():  # parallel contracted boundary edges of negative weight are outside the domain (C11)
        if w < 0 and g.boundary:
            return
    tab = g.table()
    for s in range(1 << g.n):
        if any(s >> b & 1 for b in g.boundary):
            continue
        z = np.array(bits(s, g.n), dtype=np.uint8)
        ctx.transitions += 1
        try:
            c, w = m.decode(z, return_weight=True)
        except ValueError:
            if tab.weight(s) != math.inf:
                fail("%s: %s rejected" % (where, z.tolist()))
            continue
        if len(c) != g.k or not tab.same_weight(s, w) or not tab.optimal(s, to_int(c)):
            fail("%s: %s decodes to %s, weight %r; minimum %r" % (where, z.tolist(), c.tolist(), w, tab.weight(s)))


def expect_error(fn, what):
    try:
        fn()
    except (ValueError, TypeError):
        return
    fail(what + " was accepted")


def do(m, g, op, where, ctx):
    ctx.transitions += 1
    if op[0] == "decode":
        check_decode(m, g, where, ctx)
        return
    try:
        apply_ref(g, op)
        want = "ok"
    except Rejected:
        want = "error"
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            apply(m, op)
            got = "ok"
        except ValueError:
            got = "error"
    if got != want or w:
        fail("%s: call %s gives %s%s instead of %s" % (where, op, got, " and a warning" if w else "", want))


def do_bad(m, op, where, ctx):
    ctx.transitions += 1
    heavy = op[4] is not None and abs(op[4]) > MAXW
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            apply(m, op)
            got = "warning" if w else "ok"
        except (ValueError, TypeError):
            got = "error"
    want = "warning" if heavy else "error"
    if got != want:
        fail("%s: call %s gives %s instead of %s" % (where, op, got, want))


def fam_seq(depth, ops, name, bad=False):
    A = len(ops)

    def seq(i):
        return [ops[j] for j in product_index(i, *([A] * depth))]

    def run(i, ctx):
        m, g = Matching(), RefGraph()
        for t, op in enumerate(seq(i)):
            do(m, g, op, "call %d" % t, ctx)
        observe(m, g, "at the end", ctx)
        check_decode(m, g, "at the end", ctx)
        if bad:
            for op in BAD:
                do_bad(m, op, "afterwards", ctx)
                observe(m, g, "after refused %s" % (op,), ctx)
            check_decode(m, g, "after the refused calls", ctx)
        ctx.traces += 1
        ctx.outcome(g.describe())

    return Family(name + ":%d" % depth, "every sequence of %d of %d construction calls%s; full content, queries, noise availability, every syndrome" % (depth, A, ", followed by every refused call" if bad else ""),
                  A ** depth, run, lambda i: str(seq(i)), 64)


FORMS = ["none", "minus1", "int", "zero", "np", "npu8", "npminus1", "set", "empty", "big"]


def fam_args():
    """Every argument form in positional and keyword style."""
    Ws = [None, 1, 0, -3, 2.5, np.float64(1.25), np.float32(0.5), np.int64(4), MAXW, -MAXW, float(MAXW)]
    Ps = ["omit", None, 0, 1, 0.5, np.float64(0.125), -1, 2]
    cases = list(itertools.product(FORMS, range(len(Ws)), range(len(Ps)), range(3), range(2), range(2)))

    def run(i, ctx):
        f, wi, pi, style, bd, idx = cases[i]
        g, m = RefGraph(), Matching()
        a, ids = fid(f)
        u = (np.int64(2), 2)[idx]
        args, kw = [u] + ([] if bd else [0]), {}
        fn = m.add_boundary_edge if bd else m.add_edge
        if style == 0:
            args.append(a)
        elif style == 1:
            kw["fault_ids"] = a
        elif bd:
            return
        else:
            kw["qubit_id"] = a
        if Ws[wi] is not None:
            kw["weight"] = Ws[wi]
        if Ps[pi] != "omit":
            kw["error_probability"] = Ps[pi]
        fn(*args, **kw)
        ctx.transitions += 1
        p = -1 if Ps[pi] in ("omit", None) else float(Ps[pi])
        g.add(2, None if bd else 0, ids, 1.0 if Ws[wi] is None else float(Ws[wi]), p)
        observe(m, g, "add", ctx)
        ctx.traces += 1

    return Family("arguments", "every fault-id form x weight form x probability form x positional/keyword/qubit_id x edge or boundary edge x int or numpy node index", len(cases), run, lambda i: str(cases[i]), 64)


# ------------------------------------------------------------------ noise
NOISE = [
    (3, [(0, 1, {0}), (1, 2, {1}), (2, 2, {2}), (0, None, {3}), (2, None, {0, 4})], ()),
    (4, [(0, 1, {0}), (1, 2, {1}), (2, 3, {2}), (0, 3, {0, 1}), (1, None, set())], (3,)),
    (4, [(0, 1, {0, 65}), (1, 2, {1}), (2, 3, {2}), (0, 2, {65})], (0, 3)),
]


def build_noise(g, ps):
    n, es, b = g
    m = Matching()
    for (u, v, o), p in zip(es, ps):
        if v is None:
            m.add_boundary_edge(u, fault_ids=o, error_probability=p)
        else:
            m.add_edge(u, v, fault_ids=o, error_probability=p)
    if b:
        m.set_boundary_nodes(set(b))
    return m


def fam_noise_fixed():
    cases = [(gi, ps) for gi, g in enumerate(NOISE) for ps in itertools.product((0, 1), repeat=len(g[1]))]

    def run(i, ctx):
        gi, ps = cases[i]
        n, es, b = NOISE[gi]
        m = build_noise(NOISE[gi], ps)
        z, s = [0] * m.num_fault_ids, [0] * n
        for (u, v, o), p in zip(es, ps):
            if p:
                for x in o:
                    z[x] ^= 1
                s[u] ^= 1
                if v is not None:
                    s[v] ^= 1
        for x in b:
            s[x] = 0
        for _ in range(3):
            gz, gs = m.add_noise()
            ctx.transitions += 1
            if not isinstance(gz, np.ndarray) or not isinstance(gs, np.ndarray) or gz.tolist() != z or gs.tolist() != s:
                fail("add_noise gives %s instead of %s" % ((gz, gs), (z, s)))
            c = m.decode(gs)
            if len(c) != len(z):
                fail("the sampled syndrome does not decode")
        ctx.states += 1
        ctx.traces += 1

    return Family("noise-certain", "every assignment of probabilities 0 and 1 to the edges of %d graphs: noise and syndrome exactly determined" % len(NOISE), len(cases), run, lambda i: str(cases[i]), 8)


def fam_noise_seed(count):
    P = [0.5, 0.25, 0.0, 1.0, 0.75]

    def run(i, ctx):
        gi, seed = i % len(NOISE), i // len(NOISE)
        n, es, b = NOISE[gi]
        # one distinct fault id per edge, so that the noise names the flipped edges
        es2 = [(u, v, {k}) for k, (u, v, o) in enumerate(es)]
        ps = [P[k % len(P)] for k in range(len(es))]
        m = build_noise((n, es2, b), ps)
        runs = []
        for rep in range(2):
            pymatching.set_seed(seed)
            out = []
            for shot in range(4):
                z, s = m.add_noise()
                ctx.transitions += 1
                want = [0] * n
                for k, (u, v, o) in enumerate(es2):
                    if z[k]:
                        want[u] ^= 1
                        if v is not None:
                            want[v] ^= 1
                    if (ps[k] == 0 and z[k]) or (ps[k] == 1 and not z[k]):
                        fail("an edge of probability %g gives %d" % (ps[k], z[k]))
                for x in b:
                    want[x] = 0
                if s.tolist() != want:
                    fail("noise %s has syndrome %s, reported %s" % (z.tolist(), want, s.tolist()))
                out.append((tuple(z.tolist()), tuple(s.tolist())))
            x = pymatching.rand_float(-2.0, 3.0)
            if not -2.0 <= x <= 3.0:
                fail("rand_float(-2, 3) gives %r" % x)
            out.append(x)
            runs.append(out)
        if runs[0] != runs[1]:
            fail("seed %d gives different samples: %s and %s" % (seed, runs[0], runs[1]))
        ctx.states += 4
        ctx.traces += 1
        ctx.outcome(tuple(runs[0]))

    return Family("noise-seeded", "%d graphs x every seed below %d x 4 shots, twice: reproducible, syndrome of the reported noise" % (len(NOISE), count), count * len(NOISE), run, lambda i: "graph %d seed %d" % (i % len(NOISE), i // len(NOISE)), 32)


# ------------------------------------------------------------------ long scripts
def script(i, n, length):
    """length calls on nodes at most 3 apart, among n nodes; every strategy; boundary and fault-count changes now and then."""
    ops = []
    for j in range(length):
        a, b, c = pybig.seq(i, 3 * j), pybig.seq(i + 1, 3 * j + 1), pybig.seq(i + 2, 3 * j + 2)
        u = (a * 31 + j) % n
        if j % 97 == 96:
            ops.append(("boundary", tuple(sorted({(a + k * b) % n for k in range(c % 5)}))))
        elif j % 53 == 52:
            ops.append(("faults", c % 150))
        else:
            v = None if b % 6 == 0 else min(n - 1, u + 1 + b % 3)
            if v is not None and b % 2:
                u, v = v, u
            w = 0.5 + (c % 37) / 4
            f = {"set": {a % 140, c % 140}, "int": a % 140, "none": None}[("set", "int", "none")[c % 3]]
            ops.append(("e", u, v, f, w, None if a % 9 == 0 else (b % 100) / 100, STRATEGIES[(a + b) % 5]))
    return ops


def fam_long(count, sizes):
    cases = [(i, n, L) for n, L in sizes for i in range(count)]

    def run(i, ctx):
        q, n, length = cases[i]
        m, g = Matching(), RefGraph()
        for j, op in enumerate(script(q, n, length)):
            ctx.transitions += 1
            if op[0] == "e":
                _, u, v, f, w, p, s = op
                ids = () if f is None else f if isinstance(f, set) else (f,)
                try:
                    g.add(u, v, ids, w, -1 if p is None else p, s)
                    want = "ok"
                except Rejected:
                    want = "error"
                kw = dict(fault_ids=f, weight=w, error_probability=p, merge_strategy=s)
                try:
                    m.add_boundary_edge(u, **kw) if v is None else m.add_edge(u, v, **kw)
                    got = "ok"
                except ValueError:
                    got = "error"
                if got != want:
                    fail("call %d %s gives %s instead of %s" % (j, op, got, want))
            else:
                apply(m, op)
                apply_ref(g, op)
            if j % 150 == 149 or j + 1 == length:
                r = g.compare(m, "after %d calls" % (j + 1))
                if r:
                    fail(r)
                for u in range(g.n + 2):
                    if m.has_boundary_edge(u) != ((u, None) in g.e):
                        fail("has_boundary_edge(%d) after %d calls" % (u, j + 1))
                    for v in range(max(0, u - 5), min(g.n + 2, u + 5)):
                        if m.has_edge(u, v) != (g.key(u, v) in g.e):
                            fail("has_edge(%d, %d) after %d calls" % (u, v, j + 1))
                if (m.add_noise() is None) == all(valid_p(e[2]) for e in g.e.values()):
                    fail("availability of noise after %d calls" % (j + 1))
                o = pybig.BigOracle(g, sorted({0, g.k // 2, g.k - 1}))
                for t, fired in enumerate(pybig.syndromes(g.n, q, 1)):
                    ctx.states += 1
                    try:
                        c, w = m.decode(pybig.vec(g.n, fired), return_weight=True)
                    except ValueError as e:
                        if float(o.best(fired).min()) != math.inf:
                            fail("syndrome %d after %d calls rejected: %s" % (t, j + 1, e))
                        continue
                    o.check_prediction(fired, c, w, "syndrome %d after %d calls" % (t, j + 1))
                    ctx.outcome((q, j, t, w))
        ctx.traces += 1

    return Family("long-scripts", "%d scripts of up to 1500 construction calls on up to 200 nodes: contents, queries, noise availability and decoding every 150 calls" % len(cases), len(cases), run,
                  lambda i: "script %d on %d nodes, %d calls" % cases[i], 1, 300)


def fam_huge(count):
    """Chains of 70000 nodes: built in order, from the far end, and shuffled, with each edge given one to three times."""
    cases = [(q, b, o) for q in range(count) for b in range(len(pybig.HUGE)) for o in range(3)]

    def run(i, ctx):
        q, b, o = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        idx = list(range(n + 1)) if o == 0 else list(range(n, -1, -1)) if o == 1 else sorted(range(n + 1), key=lambda k: (k * 2654435761 % 2 ** 32, k))
        m = Matching()
        p = lambda k: (k % 3) / 3.0  # 0, 1/3 or 2/3
        for r, k in enumerate(idx):
            u, v = c.ends[k]
            ids = set(c.obs[k])
            f = min(ids) if len(ids) == 1 and r % 2 else ids
            for s, w in (("disallow", c.w[k]), ("smallest-weight", c.w[k] + 1), ("keep-original", 0.5))[:1 + r % 3]:
                kw = dict(fault_ids=f if w == c.w[k] else None, weight=float(w), error_probability=p(k) if w == c.w[k] else 0.9, merge_strategy=s)
                if v is None:
                    m.add_boundary_edge(u, **kw)
                elif r % 5 < 2:
                    m.add_edge(v, u, **kw)
                else:
                    m.add_edge(u, v, **kw)
        g = c.ref(p)
        x = g.compare(m)
        if x:
            fail(x)
        for u in list(range(0, n, 997)) + [0, 65534, 65535, 65536, n - 1, n, n + 1]:
            for v in range(u - 1, u + 3):
                if v >= 0 and m.has_edge(u, v) != (g.key(u, v) in g.e):
                    fail("has_edge(%d, %d)" % (u, v))
            if m.has_boundary_edge(u) != ((u, None) in g.e):
                fail("has_boundary_edge(%d)" % u)
        for k in range(q + 2):
            noise, syn = m.add_noise()
            if len(noise) != c.k or len(syn) != n:
                fail("noise of %d fault ids and %d detectors" % (len(noise), len(syn)))
            if tracked is None:
                want = (noise.astype(np.int64)[:-1] + noise[1:]) % 2  # node k lies between edges k and k + 1
                if (want != syn).any() or noise[::3].any():
                    fail("the sampled syndrome is not that of the sampled faults")
        for t, fired in enumerate(c.syndromes()):
            ctx.states += 1
            ctx.transitions += 1
            pred, w = m.decode(pybig.vec(n, fired), return_weight=True)
            c.check_prediction(fired, pred, w, "syndrome %d" % t)
            ctx.outcome((i, t, w))
        ctx.traces += 1

    return Family("huge:%d" % count, "%d chains of 65536 to 70001 nodes with 65537 to 70002 fault ids built in three orders with repeated calls; contents, queries, noise, twelve syndromes" % len(cases), len(cases), run,
                  lambda i: str(cases[i]), 1, 300)


def families(tier):
    t = tier == "thorough"
    f = [fam_seq(1, OPS, "calls", True), fam_seq(2, OPS, "calls", True), fam_seq(3, OPS, "calls"), fam_seq(4, OPS, "calls"), fam_args(), fam_noise_fixed(), fam_noise_seed(8000 if t else 1000)]
    f += [fam_long(200 if t else 30, [(6, 300), (40, 600), (70, 900), (200, 1500)])]
    f += [fam_huge(8 if t else 1)]
    if t:
        f += [fam_seq(3, OPS, "calls+refused", True), fam_seq(5, OPS, "calls")]
    return f


if __name__ == "__main__":
    main(families, ["pybind11 is replaced by /verif/shim/pybind11", "error probability -1 and None mean 'not specified'"])
