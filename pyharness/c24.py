"""C24: the Python decode methods read every syndrome form right and report solutions that agree with one another."""
import itertools, math, tempfile
import numpy as np
from pymatching import Matching
from pyexplore import Family, fail, main, product_index
from pyref import RefGraph, bits, to_int
import pygraphs, pybig

CAT = pygraphs.catalogue()
NAMES = list(CAT)


class Oracle:
    def __init__(self, g):
        self.g = g
        self.t = g.table()
        self.edges = {}
        for (u, v, o, w) in g.flat():
            k = (u, None) if v is None else (min(u, v), max(u, v))
            # several boundary edges of one node: the lightest counts
            if k not in self.edges or w < self.edges[k]:
                self.edges[k] = w
        self.neg = any(w < 0 for w in self.edges.values())
        n = g.n
        INF = math.inf
        d = [[INF] * (n + 1) for _ in range(n + 1)]  # index n: boundary
        for i in range(n):
            d[i][i] = 0
        for (u, v), w in self.edges.items():
            v = n if v is None else v
            if u != v:
                d[u][v] = min(d[u][v], w)
                d[v][u] = min(d[v][u], w)
        if not self.neg:
            for k in range(n):
                for i in range(n + 1):
                    for j in range(n + 1):
                        if d[i][k] + d[k][j] < d[i][j]:
                            d[i][j] = d[i][k] + d[k][j]
        self.dist = d

    def fired(self, z):
        return {i for i, x in enumerate(z) if x and i not in self.g.boundary}

    def check(self, m, form, z, ctx):
        """z: the meaning of form, as a list over nodes. Compares every decode method with the exhaustive reference."""
        g, t = self.g, self.t
        F = self.fired(z)
        s = sum(1 << i for i in F)
        sat = t.weight(s) != math.inf
        ctx.transitions += 5
        calls = [("decode", lambda: m.decode(form, return_weight=True)), ("decode", lambda: m.decode(form)),
                 ("decode_to_edges_array", lambda: m.decode_to_edges_array(form))]
        calls += [("decode_to_matched_dets_array", lambda: m.decode_to_matched_dets_array(form)),
                  ("decode_to_matched_dets_dict", lambda: m.decode_to_matched_dets_dict(form))]
        res = []
        for nm, c in calls:
            must_fail = not sat or (self.neg and "matched" in nm)
            try:
                r = c()
            except ValueError as e:
                if not must_fail:
                    fail("%s of %s rejected: %s" % (nm, z, e))
                r = None
            else:
                if must_fail:
                    fail("%s of %s accepted (%s)" % (nm, z, "negative weights" if sat else "no explanation exists"))
            res.append(r)
        if not sat:
            return
        (c, w), c2, ed, ma, md = res
        if not isinstance(w, float):
            fail("weight of type %s" % type(w))
        if c.shape != (g.k,) or c.dtype != np.uint8 or c2.tolist() != c.tolist():
            fail("correction %s (%s) / %s for %d fault ids" % (c.tolist(), c.dtype, c2.tolist(), g.k))
        if not t.same_weight(s, w):
            fail("weight of %s is %r instead of %r" % (z, w, t.weight(s)))
        if not t.optimal(s, to_int(c)):
            fail("correction %s of %s is not of minimum weight" % (c.tolist(), z))
        if ed.ndim != 2 or ed.shape[1] != 2 or ed.dtype != np.int64:
            fail("edge array of shape %s and dtype %s" % (ed.shape, ed.dtype))
        tot, syn, seen = 0.0, set(), set()
        for u, v in ed.tolist():
            if u < 0:
                fail("edge array row (%d, %d): the boundary is not in the second column" % (u, v))
            k = (u, None) if v == -1 else (min(u, v), max(u, v))
            if k not in self.edges or k in seen:
                fail("edge array of %s has the unknown or repeated edge (%d, %d)" % (z, u, v))
            seen.add(k)
            tot += self.edges[k]
            syn ^= {u}
            if v != -1:
                syn ^= {v}
        if syn != F:
            fail("edge array %s does not have syndrome %s" % (ed.tolist(), z))
        if abs(tot - t.weight(s)) > t.tol:
            fail("edge array %s of %s has weight %r instead of %r" % (ed.tolist(), z, tot, t.weight(s)))
        if ma is not None:
            if ma.ndim != 2 or ma.shape[1] != 2 or ma.dtype != np.int64:
                fail("matched array of shape %s and dtype %s" % (ma.shape, ma.dtype))
            ends, tot, d2 = [], 0.0, {}
            for a, b in ma.tolist():
                ends.append(a)
                d2[a] = None if b == -1 else b
                if b != -1:
                    ends.append(b)
                    d2[b] = a
                if a < 0:
                    fail("matched array %s has the boundary in the first column" % ma.tolist())
                tot += self.dist[a][g.n if b == -1 else b]
            if sorted(ends) != sorted(F):
                fail("matched array %s does not pair up the detection events of %s" % (ma.tolist(), z))
            if abs(tot - t.weight(s)) > t.tol:
                fail("matched array %s of %s has total distance %r instead of %r" % (ma.tolist(), z, tot, t.weight(s)))
            if md != d2:
                fail("dictionary %s differs from the array %s" % (md, ma.tolist()))
            if any(type(k) is not int or not (v is None or type(v) is int) for k, v in md.items()):
                fail("dictionary %s does not hold plain ints" % md)
        ctx.outcome((s, w, tuple(sorted(seen, key=str))))
        ctx.traces += 1


def _stride(a):
    b = np.ones(a.size * 3 + 2, dtype=a.dtype)
    v = b[1:1 + 3 * a.size:3]
    v[...] = a
    return v


VFORMS = [("list", lambda a: a.tolist()), ("tuple", lambda a: tuple(a.tolist())), ("boollist", lambda a: a.astype(bool).tolist()),
          ("strided", _stride), ("reversed", lambda a: a[::-1].copy()[::-1]), ("bool", lambda a: a.astype(bool)),
          ("object", lambda a: a.astype(object)), ("npints", lambda a: [np.int64(x) for x in a]), ("readonly", lambda a: _ro(a)),
          ("column-slice", lambda a: np.stack([a, 1 - a], axis=1)[:, 0])]
VFORMS += [(str(np.dtype(d)), (lambda d: lambda a: a.astype(d))(d)) for d in
           (np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float64)]
VFORMS += [("bigendian", lambda a: a.astype(">i4"))]


def _ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


_orc = {}


def oracle(nm):
    if nm not in _orc:
        g = CAT[nm]
        _orc[nm] = (Oracle(g), pygraphs.to_matching(g))
    return _orc[nm]


def fam_forms(names, maxn):
    names = [n for n in names if CAT[n].n <= maxn]
    cases = list(itertools.product(names, range(len(VFORMS))))

    def run(i, ctx):
        nm, f = cases[i]
        o, m = oracle(nm)
        g = o.g
        for L in range(g.num_detectors(), g.n + 1):
            for s in range(1 << L):
                a = np.array(bits(s, L), dtype=np.uint8)
                form = VFORMS[f][1](a)
                keep = np.array(form).copy()
                o.check(m, form, a.tolist(), ctx)
                if not np.array_equal(keep, np.array(form)):
                    fail("the caller's syndrome was changed")
                ctx.states += 1
        ctx.note("%s as %s" % (nm, VFORMS[f][0]))

    return Family("1-D:n%d" % maxn, "%d graphs x %d one-dimensional syndrome forms x every allowed length x every syndrome x every decode method" % (len(names), len(VFORMS)),
                  len(cases), run, lambda i: "%s as %s" % (cases[i][0], VFORMS[cases[i][1]][0]), 1, 200)


def fam_2d(names, maxn):
    cases = []
    for nm in names:
        g = CAT[nm]
        nd = g.num_detectors()
        if g.n > maxn or any(b < nd for b in g.boundary):
            continue
        for r in range(1, nd + 1):
            if nd % r == 0:
                for f in range(7):
                    cases.append((nm, r, nd // r, f))
    F = [("array", lambda a: a), ("list", lambda a: a.tolist()), ("fortran", np.asfortranarray), ("bool", lambda a: a.astype(bool)),
         ("int64", lambda a: a.astype(np.int64)), ("transposed view", lambda a: a.T.copy().T), ("strided", lambda a: np.repeat(np.repeat(a, 2, 0), 3, 1)[::2, ::3])]

    def run(i, ctx):
        nm, r, c, f = cases[i]
        o, m = oracle(nm)
        for s in range(1 << (r * c)):
            a = np.array([[(s >> (r * t + k)) & 1 for t in range(c)] for k in range(r)], dtype=np.uint8).reshape(r, c)
            o.check(m, F[f][1](a), bits(s, r * c), ctx)
            ctx.states += 1

    return Family("2-D:n%d" % maxn, "every factorisation checks x rounds of the detectors, %d forms, every syndrome" % len(F), len(cases), run,
                  lambda i: "%s %dx%d as %s" % (cases[i][0], cases[i][1], cases[i][2], F[cases[i][3]][0]), 1, 200)


def shapes():
    out = [()]
    out += [(i,) for i in range(14)]
    out += [(i, j) for i in range(0, 11) for j in range(0, 11)]
    out += [(1, 1, 1), (1, 2, 2), (3, 1, 1), (1, 4, 1), (2, 1, 2)]
    return out


def fam_shapes(names):
    sh = shapes()
    cases = list(itertools.product(names, range(5)))
    METH = ["decode", "decode_to_edges_array", "decode_to_matched_dets_array", "decode_to_matched_dets_dict", "decode"]

    def run(i, ctx):
        nm, k = cases[i]
        g = CAT[nm]
        m = pygraphs.to_matching(g)
        o = Oracle(g)
        if o.neg and "matched" in METH[k]:
            return
        nd = g.num_detectors()
        fn = getattr(m, METH[k])
        sym = Oracle(g)
        for s in sh:
            ctx.transitions += 1
            ctx.states += 1
            ok = (len(s) == 1 and nd <= s[0] <= g.n) or (len(s) == 2 and s[0] * s[1] == nd)
            z = np.zeros(s, dtype=np.uint8)
            try:
                fn(z)
                got = True
            except ValueError:
                got = False
            if got != ok:
                fail("%s: syndrome of shape %s was %s (%d detectors, %d nodes)" % (METH[k], s, "accepted" if got else "rejected", nd, g.n))
        for bad in ("abc", None, [[1], [0, 1]], ["x"] * nd, object(), {"a": 1}, [None] * nd):
            ctx.transitions += 1
            try:
                fn(bad)
            except (ValueError, TypeError):
                continue
            fail("%s accepted %r" % (METH[k], bad))
        for s in range(1 << g.n):
            sym.check(m, np.array(bits(s, g.n)), bits(s, g.n), ctx)

    return Family("shapes", "every shape of up to 2 dimensions (0..13; 0..10 x 0..10), some of 0 and 3, and non-numeric values, per decode method; then every syndrome on the same object",
                  len(cases), run, lambda i: "%s %s" % (cases[i][0], METH[cases[i][1]]), 1, 200)


def small_graphs(n, weights, explicit):
    """Every graph on n detectors: every edge absent or with one of the weights; boundary edges to one shared boundary."""
    slots = [(u, v) for u in range(n) for v in range(u + 1, n)] + [(u, None) for u in range(n)]
    A = len(weights) + 1
    N = A ** len(slots)

    def build(i):
        ds = product_index(i, *([A] * len(slots)))
        es = [(u, (n if explicit and v is None else v), weights[d - 1], {j % 3}) for j, ((u, v), d) in enumerate(zip(slots, ds)) if d]
        nn = n + 1 if explicit else n
        if not es or max(max(e[0], -1 if e[1] is None else e[1]) for e in es) != nn - 1:
            return None
        return pygraphs.make(nn, 3, es, {n} if explicit else ())

    def run(i, ctx):
        g = build(i)
        if g is None:
            return
        o, m = Oracle(g), pygraphs.to_matching(g)
        for s in range(1 << g.n):
            o.check(m, np.array(bits(s, g.n), dtype=np.uint8), bits(s, g.n), ctx)
            ctx.states += 1

    return Family("graphs:n%d:%s:%s" % (n, weights, "explicit" if explicit else "virtual"),
                  "every graph on %d detectors with edge and boundary weights in {absent,%s}, %s boundary, every syndrome, every decode method"
                  % (n, ",".join(map(str, weights)), "explicit" if explicit else "virtual"), N, run, lambda i: str(build(i) and build(i).describe()), 32)


def dem_reference(text):
    """Edges with probability, weight and observables, and the implied weights, of a small model with decompositions."""
    e = {}
    joint = {}
    nobs = ndet = 0
    for line in text.splitlines():
        if not line.startswith("error"):
            continue
        p = float(line[line.index("(") + 1:line.index(")")])
        comps = []
        for part in line[line.index(")") + 1:].split("^"):
            toks = part.split()
            ds = sorted(int(x[1:]) for x in toks if x[0] == "D")
            ob = frozenset(int(x[1:]) for x in toks if x[0] == "L")
            ndet = max([ndet] + [d + 1 for d in ds])
            nobs = max([nobs] + [o + 1 for o in ob])
            comps.append((tuple(ds) if len(ds) == 2 else (ds[0], None), ob))
        for k, ob in comps:
            if k in e:
                q = e[k][0]
                e[k] = (p * (1 - q) + q * (1 - p), e[k][1])
            else:
                e[k] = (p, ob)
        for a, b in itertools.permutations([c[0] for c in comps], 2):
            q = joint.get((a, b), 0.0)
            joint[a, b] = p * (1 - q) + q * (1 - p)
    w = {k: math.log((1 - p) / p) for k, (p, o) in e.items()}
    imp = {}
    for (a, b), q in joint.items():
        c = min(0.5, q / e[a][0])
        imp[a, b] = math.log((1 - c) / c)
    return ndet, nobs, e, w, imp


DEMS = {k: v for k, v in pygraphs.DEMS.items() if k in ("rep", "corr", "corr3")}
DEMS["cross"] = ("error(0.08) D0 D1 ^ D2 D3 L0\nerror(0.03) D1 D2\nerror(0.1) D0\nerror(0.07) D3 L1\nerror(0.04) D0 D2 L1\n"
                 "error(0.12) D1 ^ D3 L1\nerror(0.06) D1\nerror(0.11) D2 D3 L0\n")


def fam_corr():
    cases = list(itertools.product(DEMS, (0, 1)))

    def run(i, ctx):
        nm, use = cases[i]
        ndet, nobs, e, w, imp = dem_reference(DEMS[nm])
        keys = list(e)
        with tempfile.TemporaryDirectory() as d:
            m = Matching.from_detector_error_model_file(pygraphs.dem_file(DEMS[nm], d), enable_correlations=True)
        tol = 1e-5

        def best(weights):
            r = {}
            for sub in range(1 << len(keys)):
                s, tw, ob = 0, 0.0, frozenset()
                for j, k in enumerate(keys):
                    if sub >> j & 1:
                        s ^= (1 << k[0]) ^ (0 if k[1] is None else 1 << k[1])
                        tw += weights[k]
                        ob ^= e[k][1]
                r.setdefault(s, []).append((tw, ob, sub))
            return {s: sorted(v, key=lambda x: x[0]) for s, v in r.items()}

        b1 = best(w)
        for s in range(1 << ndet):
            z = np.array(bits(s, ndet), dtype=np.uint8)
            ctx.states += 1
            if s not in b1:
                continue
            w2 = dict(w)
            if use:
                if len(b1[s]) > 1 and b1[s][1][0] - b1[s][0][0] < tol:
                    continue  # which first-pass solution is taken is not determined
                for j, k in enumerate(keys):
                    if b1[s][0][2] >> j & 1:
                        for k2 in keys:
                            if (k, k2) in imp:
                                w2[k2] = min(w2[k2], imp[k, k2])
            b2 = best(w2)[s]
            kw = {"enable_correlations": bool(use)} if use or s % 2 else {}
            c, wt = m.decode(z, return_weight=True, **kw)
            ed = m.decode_to_edges_array(z, **kw)
            pb, wb = m.decode_batch(z[None, :], return_weights=True, **kw)
            if (pb[0] != c).any() or wb[0] != wt:
                fail("decode_batch of %s gives %s, %r; decode gives %s, %r" % (z.tolist(), pb.tolist(), wb.tolist(), c.tolist(), wt))
            ctx.transitions += 2
            ctx.traces += 1
            if abs(wt - b2[0][0]) > tol:
                fail("%s weight of %s is %r instead of %r" % ("correlated" if use else "plain", z.tolist(), wt, b2[0][0]))
            if {j for j, x in enumerate(c) if x} not in [set(x[1]) for x in b2 if x[0] - b2[0][0] < tol]:
                fail("%s correction of %s is %s" % ("correlated" if use else "plain", z.tolist(), c.tolist()))
            got = sum(w2[(u, None) if v == -1 else (min(u, v), max(u, v))] for u, v in ed.tolist())
            syn = 0
            for u, v in ed.tolist():
                syn ^= (1 << u) ^ (0 if v == -1 else 1 << v)
            if syn != s or abs(got - b2[0][0]) > tol:
                fail("%s edges of %s are %s of weight %r instead of %r" % ("correlated" if use else "plain", z.tolist(), ed.tolist(), got, b2[0][0]))
            ctx.outcome((s, round(wt, 6), use))

    return Family("correlated", "%d models with decompositions, plain and correlated, every syndrome, decode and decode_to_edges_array against a two-pass reference" % len(DEMS),
                  len(cases), run, lambda i: "%s correlations=%s" % cases[i], 1)


BIGSPEC = [(n, kind, bnd, lo, scale, obs) for n, scale in ((40, 1.0), (64, 0.37), (65, 1.0), (120, 1.0), (200, 0.001)) for kind in (0, 1, 2, 3)
           for bnd in ("virtual", "explicit", "two", "many", "none") for lo in (1, 0, -1) for obs in ("unique", (0, 31, 63), (1, 64, 130))
           if not (lo < 0 and bnd == "two")]


def fam_big(stride, nsyn):
    spec = BIGSPEC[::stride]

    def run(i, ctx):
        n, kind, bnd, lo, scale, obs = spec[i]
        g = pybig.graph(n, i, kind, bnd, lo, 5, scale, obs)
        o = pybig.BigOracle(g, () if obs == "unique" else obs)
        m = pygraphs.to_matching(g)
        D = o.distances() if lo >= 0 else None
        nd = g.num_detectors()
        for t, fired in enumerate(pybig.syndromes(nd, i, nsyn)):
            if t % 3 == 1:
                fired = fired + [b for b in g.boundary]
            sat = float(o.best(fired).min()) != math.inf
            L = g.n if t % 2 or t % 3 == 1 else nd
            z = VFORMS[(t + i) % len(VFORMS)][1](pybig.vec(L, fired))
            if t % 4 == 3 and L == nd and nd % 4 == 0:
                z = np.array(pybig.vec(nd, fired)).reshape(nd // 4, 4).T
            where = "syndrome %d (%s) of graph %s" % (t, fired[:40], spec[i])
            ctx.transitions += 4
            ctx.states += 1
            try:
                c, w = m.decode(z, return_weight=True)
                ed = m.decode_to_edges_array(z)
            except ValueError as e:
                if sat:
                    fail("%s rejected: %s" % (where, e))
                continue
            if not sat:
                fail("%s has no explanation but was decoded" % where)
            o.check_prediction(fired, c, w, where)
            o.check_edges(fired, ed, where)
            if D is not None:
                o.check_pairs(fired, m.decode_to_matched_dets_array(z), m.decode_to_matched_dets_dict(z), D, where)
            ctx.traces += 1
            ctx.outcome((i, t, w))

    return Family("large:s%d" % stride, "every %d-th of %d graphs of 40 to 200 detectors (ladders, chains, rings; five boundary kinds; weights also zero, negative, real; up to 131 fault ids); %d syndromes each, forms in rotation, every decode method"
                  % (stride, len(BIGSPEC), 4 + 3 * nsyn), len(spec), run, lambda i: str(spec[i]), 1, 300)


def fam_huge(count):
    cases = [(b, s) for s in range(count) for b in range(len(pybig.HUGE))]

    def run(i, ctx):
        b, s = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        m = c.matching()
        for t, fired in enumerate(c.syndromes()):
            z = VFORMS[(t + i) % len(VFORMS)][1](pybig.vec(n, fired))
            where = "syndrome %d of a chain of %d" % (t, n)
            ctx.transitions += 4
            ctx.states += 1
            p, w = m.decode(z, return_weight=True)
            c.check_prediction(fired, p, w, where)
            c.check_edges(fired, m.decode_to_edges_array(z), where)
            c.check_pairs(fired, m.decode_to_matched_dets_array(z), m.decode_to_matched_dets_dict(z), where)
            # the same syndrome as an array of checks x rounds, for a split of the detectors in turn
            r = splits[n][(t + i) % len(splits[n])]
            z = np.array(pybig.vec(n, fired), dtype=(np.uint8, bool, np.int64, float)[t % 4]).reshape(n // r, r).T
            z = (z, np.ascontiguousarray(z), z.tolist())[(t + i) % 3]
            where += " as %d checks x %d rounds" % (r, n // r)
            ctx.transitions += 4
            p, w = m.decode(z, return_weight=True)
            c.check_prediction(fired, p, w, where)
            c.check_edges(fired, m.decode_to_edges_array(z), where)
            c.check_pairs(fired, m.decode_to_matched_dets_array(z), m.decode_to_matched_dets_dict(z), where)
            ctx.traces += 2
            ctx.outcome((i, t, w))

    splits = {n: [r for r in range(1, n + 1) if n % r == 0] for n, _ in pybig.HUGE}
    return Family("huge:%d" % count, "%d chains of 65536 to 70001 detectors with 65537 to 70002 fault ids, twelve syndromes, forms in rotation, also as checks x rounds for the splits of the detectors in turn, every decode method" % len(cases),
                  len(cases), run, lambda i: "%s weights %d" % (pybig.HUGE[cases[i][0]], i), 1, 300)


def families(tier):
    t = tier == "thorough"
    f = [fam_forms(NAMES, 5), fam_2d(NAMES, 9), fam_shapes(NAMES), small_graphs(2, [1, 2], False), small_graphs(2, [-1, 1, 2], True),
         small_graphs(3, [1, 2], False), small_graphs(3, [1, 3], True), fam_corr()]
    f += [fam_forms(NAMES, 10), fam_2d(NAMES, 10), small_graphs(3, [-2, 0, 1, 3], False), small_graphs(3, [-1, 1, 2], True), small_graphs(4, [1], False)]
    f += [fam_big(1, 30) if t else fam_big(1, 5), fam_huge(8 if t else 2)]
    if t:
        f += [small_graphs(4, [1, 2], True), small_graphs(4, [1, 2], False), small_graphs(4, [-1, 2], False), small_graphs(3, [-3, -1, 0, 2, 5], True)]
    return f


if __name__ == "__main__":
    main(families, ["syndrome entries are zeros and ones", "pybind11 is replaced by /verif/shim/pybind11"])
