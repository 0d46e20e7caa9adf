"""C14: batch decoding equals decoding every row alone, for every packing, shape and number of shots."""
import itertools, math, os, tempfile
import numpy as np
from pymatching import Matching
from pyexplore import Family, fail, main, product_index
from pyref import bits, to_int
import pygraphs, pybig

CAT = pygraphs.catalogue()
NAMES = list(CAT)
COMBOS = list(itertools.product((False, True), (False, True), (False, True)))  # packed shots, packed predictions, return_weights


def pack(a):
    return np.packbits(a, bitorder="little", axis=1)


def unpack(p, k):
    return np.unpackbits(p, bitorder="little", axis=1, count=k) if k else np.zeros((p.shape[0], 0), dtype=np.uint8)


class Single:
    """Row-by-row answers of separate Matching objects, each checked against the exhaustive reference."""

    def __init__(self, fresh, k, ndet, nnodes, boundary, table=None, corr=False):
        self.m, self.k, self.nd, self.nn, self.b, self.t, self.corr = fresh(), k, ndet, nnodes, boundary, table, corr
        self.memo = {}

    def row(self, s):
        if s not in self.memo:
            z = np.array(bits(s, self.nn), dtype=np.uint8)
            eff = to_int([0 if i in self.b else int(x) for i, x in enumerate(z)])
            try:
                c, w = self.m.decode(z, return_weight=True, enable_correlations=self.corr)
                if self.t is not None and (not self.t.same_weight(eff, w) or not self.t.optimal(eff, to_int(c))):
                    fail("decoding %s alone gives a non-minimal answer %s, %r" % (list(z), list(c), w))
                r = (tuple(int(x) for x in c), float(w))
            except ValueError:
                if self.t is not None and self.t.weight(eff) != math.inf:
                    fail("decoding %s alone is rejected" % list(z))
                r = None
            self.memo[s] = r
        return self.memo[s]


def check_batch(m, single, synd, cols, ps, pp, rw, ctx, form=None, corr=False):
    """Decode the batch of syndromes (ints over all nodes, only bits < cols used) and compare with single rows."""
    shots = np.array([bits(s, cols) for s in synd], dtype=np.uint8).reshape(len(synd), cols)
    a = pack(shots) if ps else shots
    if form is not None:
        a = form(a)
    want = [single.row(s & ((1 << cols) - 1)) for s in synd]
    ctx.transitions += len(synd)
    try:
        r = m.decode_batch(a, bit_packed_shots=ps, bit_packed_predictions=pp, return_weights=rw, enable_correlations=corr)
    except ValueError as e:
        if any(w is None for w in want):
            return
        fail("batch %s rejected: %s" % (shots.tolist(), e))
    if any(w is None for w in want):
        fail("batch %s was decoded although a row has no explanation" % shots.tolist())
    pred, wts = r if rw else (r, None)
    k = single.k
    if pred.shape != (len(synd), (k + 7) // 8 if pp else k):
        fail("predictions of shape %s for %d shots and %d fault ids (packed=%s)" % (pred.shape, len(synd), k, pp))
    if pred.dtype != np.uint8:
        fail("predictions of dtype %s" % pred.dtype)
    if pp and k % 8 and pred.size and (pred[:, -1] >> (k % 8)).any():
        fail("padding bits of the packed predictions are set")
    got = unpack(pred, k) if pp else pred
    if rw and (wts.shape != (len(synd),) or wts.dtype != np.float64):
        fail("weights of shape %s and dtype %s" % (wts.shape, wts.dtype))
    for i, w in enumerate(want):
        if tuple(int(x) for x in got[i]) != w[0]:
            fail("row %d of batch %s: prediction %s, alone %s" % (i, shots.tolist(), got[i].tolist(), list(w[0])))
        if rw and float(wts[i]) != w[1]:
            fail("row %d of batch %s: weight %r, alone %r" % (i, shots.tolist(), float(wts[i]), w[1]))
        ctx.outcome(w)
    ctx.traces += 1


def graph_single(name):
    g = CAT[name] if name in CAT else pygraphs.big_obs(*map(int, name.split("/")))
    t = g.table() if g.n + g.k <= 18 else None
    return g, Single(lambda: pygraphs.to_matching(g), g.k, g.num_detectors(), g.n, g.boundary, t)


def fam_all(names):
    n = len(names) * len(COMBOS)

    def run(i, ctx):
        a, c = product_index(i, len(names), len(COMBOS))
        g, single = graph_single(names[a])
        m = pygraphs.to_matching(g)
        ps, pp, rw = COMBOS[c]
        for cols in range(g.num_detectors(), g.n + 1):
            ok = [s for s in range(1 << cols) if single.row(s) is not None]
            ctx.states += len(ok)
            check_batch(m, single, ok, cols, ps, pp, rw, ctx)
            check_batch(m, single, ok[::-1], cols, ps, pp, rw, ctx)
            check_batch(m, single, [], cols, ps, pp, rw, ctx)
        ctx.note("%s: all syndromes in one batch" % names[a])

    return Family("all-syndromes", "for %d graphs, the batches of every satisfiable syndrome (both orders) and of no shots, every allowed number of "
                  "columns, all packings" % len(names), n, run, lambda i: "%s packed_shots,packed_predictions,weights=%s" % (names[i // len(COMBOS)], COMBOS[i % len(COMBOS)]), 1)


def fam_seq(names, length):
    items = []
    for nm in names:
        g = CAT[nm]
        items.append((nm, (1 << g.n) ** length))
    offs = list(itertools.accumulate([0] + [x[1] for x in items]))
    B = 64  # sequences per case
    cases = []
    for nm, cnt in items:
        for lo in range(0, cnt, B):
            cases.append((nm, lo, min(cnt, lo + B)))

    cache = {}

    def run(i, ctx):
        nm, lo, hi = cases[i]
        if nm not in cache:
            cache[nm] = graph_single(nm) + (pygraphs.to_matching(CAT[nm]),)
        g, single, m = cache[nm]
        for q in range(lo, hi):
            seq = product_index(q, *([1 << g.n] * length))
            for ps, pp in ((False, False), (True, True), (False, True), (True, False)):
                check_batch(m, single, seq, g.n, ps, pp, True, ctx)
            ctx.states += 1

    return Family("sequences:L%d" % length, "every ordered batch of %d shots (satisfiable or not) on one reused object, all packings, graphs %s" % (length, ",".join(names)),
                  len(cases), run, lambda i: "%s batches %d..%d" % cases[i], 4)


def _wide(a):
    b = np.ones((a.shape[0] * 2 + 1, a.shape[1] * 3 + 1), dtype=a.dtype)
    v = b[1::2, 1::3]
    v[...] = a
    return v


FORMS = [("uint8", lambda a: a), ("list", lambda a: a.tolist()), ("fortran", np.asfortranarray), ("strided", _wide),
         ("reversed", lambda a: a[::-1, ::-1].copy()[::-1, ::-1]), ("transposed", lambda a: a.T.copy().T), ("int64", lambda a: a.astype(np.int64)),
         ("int32 strided", lambda a: _wide(a.astype(np.int32))), ("uint16", lambda a: a.astype(np.uint16)), ("float", lambda a: a.astype(float)),
         ("readonly", lambda a: _ro(a))]
BOOLFORM = [("bool", lambda a: a.astype(bool)), ("bool strided", lambda a: _wide(a.astype(bool)))]


def _ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def fam_forms(names):
    allf = FORMS + BOOLFORM
    n = len(names) * len(allf)

    def run(i, ctx):
        a, f = product_index(i, len(names), len(allf))
        g, single = graph_single(names[a])
        m = pygraphs.to_matching(g)
        nm, fn = allf[f]
        for ps, pp, rw in COMBOS:
            if ps and f >= len(FORMS):
                continue
            ok = [s for s in range(1 << g.n) if single.row(s) is not None]
            if len(ok) == 0 or (nm == "list" and g.n == 0):
                continue
            ctx.states += len(ok)
            before = np.array([bits(s, g.n) for s in ok], dtype=np.uint8)
            check_batch(m, single, ok, g.n, ps, pp, rw, ctx, fn)

    return Family("forms", "every array form of the shots (dtypes, layouts, strides, lists, booleans) x all packings x %d graphs, every syndrome" % len(names),
                  n, run, lambda i: "%s as %s" % (names[i // len(allf)], allf[i % len(allf)][0]), 1)


def fam_obs(nobs):
    cases = list(itertools.product(nobs, COMBOS))

    def run(i, ctx):
        k, (ps, pp, rw) = cases[i]
        g, single = graph_single("5/%d" % k)
        m = pygraphs.to_matching(g)
        # reference for many observables: the parity of the fault ids over the chain's unique explanation
        ok = list(range(1 << g.n))
        tables = g.flat()
        best = {}
        for sub in range(1 << len(tables)):
            s = 0
            w = 0
            obs = set()
            for j, (u, v, o, ww) in enumerate(tables):
                if sub >> j & 1:
                    s ^= (1 << u) ^ (0 if v is None else 1 << v)
                    w += ww
                    obs ^= set(o)
            best.setdefault(s, []).append((w, obs))
        for s in ok:
            c, w = single.row(s)
            mw = min(x[0] for x in best[s])
            if w != mw or {j for j, x in enumerate(c) if x} not in [x[1] for x in best[s] if x[0] == mw]:
                fail("decoding %s alone with %d fault ids is wrong" % (bits(s, g.n), k))
        check_batch(m, single, ok, g.n, ps, pp, rw, ctx)
        check_batch(m, single, ok[::-1], g.n, ps, pp, rw, ctx)
        ctx.states += len(ok)

    return Family("fault-ids", "a 5-node chain with %s fault ids, all syndromes in one batch, all packings" % nobs, len(cases), run,
                  lambda i: "%d fault ids %s" % cases[i], 1)


def fam_corr():
    dems = list(pygraphs.DEMS)
    cases = list(itertools.product(dems, (False, True), (False, True), COMBOS))

    def run(i, ctx):
        nm, load, use, (ps, pp, rw) = cases[i]
        with tempfile.TemporaryDirectory() as d:
            p = pygraphs.dem_file(pygraphs.DEMS[nm], d)
            fresh = lambda: Matching.from_detector_error_model_file(p, enable_correlations=load)
            m = fresh()
            n = m.num_nodes
            if use and not load:
                ctx.transitions += 1
                try:
                    m.decode_batch(np.zeros((2, n), dtype=np.uint8), enable_correlations=True)
                except ValueError:
                    ctx.traces += 1
                    return
                fail("correlated batch decoding of a model loaded without correlations was accepted")
            single = Single(fresh, m.num_fault_ids, m.num_detectors, n, set(), corr=use)
            ok = [s for s in range(1 << n) if single.row(s) is not None]
            ctx.states += len(ok)
            for order in (ok, ok[::-1], ok[::2] + ok[1::2]):
                check_batch(m, single, order, n, ps, pp, rw, ctx, corr=use)
            for s in ok:
                check_batch(m, single, [s], n, ps, pp, rw, ctx, corr=use)
            # the other mode afterwards is not affected
            if load:
                other = Single(fresh, m.num_fault_ids, m.num_detectors, n, set(), corr=not use)
                check_batch(m, other, ok, n, ps, pp, rw, ctx, corr=not use)

    return Family("dem", "detector error models loaded with and without correlations, decoded with and without, all syndromes in three orders and one by one, all packings",
                  len(cases), run, lambda i: "%s load=%s use=%s %s" % cases[i], 1)


def fam_shapes(names):
    cases = list(itertools.product(names, (False, True), range(0, 15)))

    def run(i, ctx):
        nm, ps, cols = cases[i]
        g = CAT[nm]
        m = pygraphs.to_matching(g)
        lo, hi = g.num_detectors(), g.n
        if ps:
            lo, hi = (lo + 7) // 8, (hi + 7) // 8
        ctx.states += 1
        for rows in (0, 1, 3):
            ctx.transitions += 1
            try:
                r = m.decode_batch(np.zeros((rows, cols), dtype=np.uint8), bit_packed_shots=ps)
                ok = True
            except ValueError:
                ok = False
            if ok != (lo <= cols <= hi):
                fail("%s shots with %d columns were %s (allowed: %d to %d)" % ("packed" if ps else "plain", cols, "accepted" if ok else "rejected", lo, hi))
            if ok and r.shape != (rows, g.k):
                fail("predictions of shape %s" % (r.shape,))
        for shape in ((cols,), (1, cols, 1), (1, 1, 1, cols), ()):
            ctx.transitions += 1
            try:
                m.decode_batch(np.zeros(shape, dtype=np.uint8), bit_packed_shots=ps)
            except ValueError:
                continue
            fail("shots of shape %s were accepted" % (shape,))
        # bits beyond the last node name no detector
        if ps and cols == hi and g.n % 8:
            for b in range(g.n, 8 * hi):
                a = np.zeros((2, cols), dtype=np.uint8)
                a[1, b // 8] = 1 << (b % 8)
                ctx.transitions += 1
                try:
                    m.decode_batch(a, bit_packed_shots=True)
                except ValueError:
                    pass
                else:
                    fail("bit %d of a packed shot, beyond the %d nodes, was accepted" % (b, g.n))
        z = m.decode_batch(np.zeros((2, g.n), dtype=np.uint8))
        d = pygraphs.to_matching(g).decode(np.zeros(g.n, dtype=np.uint8))
        if z.tolist() != [d.tolist()] * 2:
            fail("decoding after rejected shapes gives %s instead of %s" % (z.tolist(), d.tolist()))
        ctx.traces += 1

    return Family("shapes", "%d graphs x packed or plain x 0..14 columns x 0,1,3 rows, and other numbers of dimensions" % len(names), len(cases), run,
                  lambda i: "%s packed=%s columns=%d" % cases[i], 4)


def fam_large(counts):
    cases = list(itertools.product(counts, COMBOS))

    def run(i, ctx):
        n, (ps, pp, rw) = cases[i]
        g, single = graph_single("chain9")
        m = pygraphs.to_matching(g)
        check_batch(m, single, [(j * 37 + j * j) % (1 << g.n) for j in range(n)], g.n, ps, pp, rw, ctx)
        ctx.states += n

    return Family("many-shots", "batches of %s shots, all packings" % counts, len(cases), run, lambda i: "%d shots %s" % cases[i], 1)


LARGE = [(n, bnd, obs) for n in (40, 63, 64, 65, 100, 128, 200) for bnd in ("virtual", "explicit", "two") for obs in ("unique", (0, 31, 63), (1, 64, 130))]


def fam_wide(nsyn):
    """Shots of many columns: every row against the exact minimum, and against decoding it alone."""
    cases = list(itertools.product(range(len(LARGE)), COMBOS))

    def run(i, ctx):
        q, (ps, pp, rw) = cases[i]
        n, bnd, obs = LARGE[q]
        g = pybig.graph(n, q, q % 4, bnd, q % 2, 5, 1.0, obs)
        o = pybig.BigOracle(g, () if obs == "unique" else obs)
        m, alone = pygraphs.to_matching(g), pygraphs.to_matching(g)
        nd = g.num_detectors()
        synd = [s for s in pybig.syndromes(nd, i, nsyn) if float(o.best(s).min()) != math.inf]
        for cols in range(nd, g.n + 1):
            rows = np.array([pybig.vec(cols, s + [b for b in g.boundary if b < cols and (j & 1)]) for j, s in enumerate(synd)])
            r = m.decode_batch(pack(rows) if ps else rows, bit_packed_shots=ps, bit_packed_predictions=pp, return_weights=rw)
            pred, wts = r if rw else (r, None)
            ctx.transitions += len(synd)
            if pred.shape != (len(synd), (g.k + 7) // 8 if pp else g.k):
                fail("predictions of shape %s for %d fault ids" % (pred.shape, g.k))
            if pp and g.k % 8 and (pred[:, -1] >> (g.k % 8)).any():
                fail("padding bits of the packed predictions are set")
            got = unpack(pred, g.k) if pp else pred
            for j, s in enumerate(synd):
                c, w = alone.decode(rows[j], return_weight=True)
                if got[j].tolist() != c.tolist() or (rw and float(wts[j]) != w):
                    fail("row %d (%s) of the batch differs from decoding it alone (%d columns, graph %s)" % (j, s[:40], cols, LARGE[q]))
                o.check_prediction(s, got[j], w, "row %d of graph %s" % (j, LARGE[q]))
                ctx.states += 1
                ctx.outcome((q, j, w))
        ctx.traces += 1

    return Family("wide-shots:%d" % nsyn, "%d graphs of 40 to 200 detectors with up to 300 fault ids, %d syndromes in one batch, every allowed number of columns, all packings" % (len(LARGE), 4 + 3 * nsyn),
                  len(cases), run, lambda i: "%s %s" % (LARGE[cases[i][0]], cases[i][1]), 1, 300)


def fam_huge():
    """Shots of 70000 columns, up to 70001 fault ids."""
    cases = list(itertools.product(range(len(pybig.HUGE)), COMBOS))

    def run(i, ctx):
        b, (ps, pp, rw) = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        m = c.matching()
        synd = c.syndromes()
        rows = np.array([pybig.vec(n, s) for s in synd])
        r = m.decode_batch(pack(rows) if ps else rows, bit_packed_shots=ps, bit_packed_predictions=pp, return_weights=rw)
        pred, wts = r if rw else (r, None)
        if pred.shape != (len(synd), (c.k + 7) // 8 if pp else c.k):
            fail("predictions of shape %s for %d fault ids" % (pred.shape, c.k))
        if pp and c.k % 8 and (pred[:, -1] >> (c.k % 8)).any():
            fail("padding bits of the packed predictions are set")
        got = unpack(pred, c.k) if pp else pred
        for j, s in enumerate(synd):
            ctx.states += 1
            ctx.transitions += 1
            d, w = m.decode(rows[j], return_weight=True)
            if (d != got[j]).any() or (rw and float(wts[j]) != w):
                fail("row %d of the batch differs from decoding it alone" % j)
            c.check_prediction(s, got[j], w, "row %d" % j)
            ctx.outcome((b, j, w))
        ctx.traces += 1

    return Family("huge-shots", "chains of 65536 to 70001 detectors with 65537 to 70002 fault ids, twelve shots, all packings", len(cases), run, lambda i: "%s %s" % (pybig.HUGE[cases[i][0]], cases[i][1]), 1, 300)


def families(tier):
    t = tier == "thorough"
    small = [n for n in NAMES if CAT[n].n <= 4]
    f = [fam_all(NAMES), fam_forms(NAMES), fam_obs([1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 71, 72, 73, 127, 128, 129, 200]), fam_corr(), fam_shapes(NAMES),
         fam_seq(small, 2), fam_seq([n for n in NAMES if CAT[n].n <= 3], 3), fam_large([1, 2, 255, 256, 257, 5000])]
    f += [fam_seq([n for n in NAMES if CAT[n].n == 5], 2), fam_seq(small, 3), fam_obs(list(range(1, 140))), fam_large([70000])]
    f += [fam_wide(30 if t else 5), fam_huge()]
    if t:
        f += [fam_seq(["edge", "bnd1", "tri", "chain3", "negative", "zero-weights"], 4), fam_seq(["edge", "bnd1"], 6), fam_obs(list(range(140, 400))), fam_large([1000000])]
    return f


if __name__ == "__main__":
    main(families, ["shots hold zeros and ones only", "pybind11 is replaced by /verif/shim/pybind11"])
