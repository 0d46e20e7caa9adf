"""C13: every small check matrix, in every accepted form, gives the documented matching graph and decodes right."""
import itertools, math, warnings
import numpy as np
import scipy.sparse as sp
import pymatching
from pymatching import Matching
from pyexplore import Family, Failure, fail, main, product_index
from pyref import RefGraph, Rejected, STRATEGIES, bits, to_int
import pybig

WEIGHTS = [None, [1, 2, 3, 4, 5, 6], [3, 1, 2, 1, 3, 2], [2, -1, 3, 1, -2, 1], [0, 2, 0, 1, 1, 0],
           [math.log((1 - p) / p) for p in (0.1, 0.2, 0.3, 0.05, 0.15, 0.25)]]
PROBS = [None, [0.1, 0.2, 0.3, 0.05, 0.15, 0.25], [0.0, 1.0, 0.5, 0.25, 1.0, 0.0], [0.1, -1, 0.3, 0.2, -1, 0.1]]


def columns(rows):
    return [()] + [(i,) for i in range(rows)] + list(itertools.combinations(range(rows), 2))


def dense(rows, cols, dtype=np.uint8):
    H = np.zeros((rows, len(cols)), dtype=dtype)
    for j, c in enumerate(cols):
        for i in c:
            H[i, j] = 1
    return H


def reference(rows, cols, w, p, strategy, virtual, reps=1, tw=None, tp=None, faults=None, nf=None):
    nd = rows * reps
    g = RefGraph(nd, len(cols) if faults is None else nf)
    for rep in range(reps):
        for j, c in enumerate(cols):
            f = {j} if faults is None else faults[j]
            if len(c) == 2:
                g.add(c[0] + rep * rows, c[1] + rep * rows, f, w[j], p[j], strategy)
            elif len(c) == 1:
                if virtual:
                    g.add(c[0] + rep * rows, None, f, w[j], p[j], strategy)
                else:
                    g.add(c[0] + rep * rows, nd, f, w[j], p[j], strategy)
    for rep in range(reps - 1):
        for i in range(rows):
            g.add(i + rep * rows, i + (rep + 1) * rows, (), tw[i], tp[i], strategy)
    if g.n == nd + 1:
        g.set_boundary({nd})
    return g


def check_decode(m, g, ctx, reps=1, syndromes=None):
    t = g.table()
    nd = g.num_detectors()
    for s in (range(1 << nd) if syndromes is None else syndromes):
        z = np.array(bits(s, nd), dtype=np.uint8)
        forms = [z]
        if reps > 1:
            forms.append(z.reshape(reps, nd // reps).T)
        for f in forms:
            ctx.transitions += 1
            try:
                c, w = m.decode(f, return_weight=True)
            except ValueError:
                if t.weight(s) != math.inf:
                    fail("syndrome %s rejected but it has an explanation of weight %g" % (list(z), t.weight(s)))
                continue
            if t.weight(s) == math.inf:
                fail("syndrome %s has no explanation but was decoded" % list(z))
            if len(c) != g.k:
                fail("correction of length %d instead of %d" % (len(c), g.k))
            if not t.same_weight(s, w):
                fail("syndrome %s: weight %r instead of %r" % (list(z), w, t.weight(s)))
            if not t.optimal(s, to_int(c)):
                fail("syndrome %s: correction %s is not a minimum-weight fault set" % (list(z), list(c)))
            ctx.outcome((s, w))
    ctx.states += 1 << nd


def expect(m_fn, ref_fn, ctx, decode=True, reps=1, syndromes=None):
    """Build both; they must agree on rejection and contents."""
    try:
        g = ref_fn()
    except Rejected:
        g = None
    try:
        m = m_fn()
    except ValueError as e:
        if g is None:
            ctx.traces += 1
            return None
        fail("rejected: %s" % e)
    if g is None:
        fail("accepted, but it must be rejected")
    r = g.compare(m)
    if r:
        fail(r)
    if decode:
        check_decode(m, g, ctx, reps, syndromes)
    ctx.traces += 1
    ctx.note(g.describe())
    return m


def padw(v, n, default):
    return [default] * n if v is None else list(v[:n])


def fam_columns(rows, ncols, wsel, psel, chunk=8):
    alpha = columns(rows)
    A = len(alpha)
    n = A ** ncols * len(wsel) * len(psel)

    def case(i):
        *cs, a, b = product_index(i, *([A] * ncols + [len(wsel), len(psel)]))
        return [alpha[c] for c in cs], wsel[a], psel[b]

    def run(i, ctx):
        cols, a, b = case(i)
        H = dense(rows, cols)
        w, p = WEIGHTS[a], PROBS[b]
        wl, pl = padw(w, ncols, 1.0), padw(p, ncols, -1)
        for virtual in (False, True):
            for st in STRATEGIES:
                kw = dict(merge_strategy=st, use_virtual_boundary_node=virtual)
                if w is not None:
                    kw["weights"] = np.array(wl, dtype=float)
                if p is not None:
                    kw["error_probabilities"] = np.array(pl, dtype=float)
                expect(lambda: Matching(H, **kw), lambda: reference(rows, cols, wl, pl, st, virtual), ctx)

    return Family("cols:R%dC%d:w%s:p%s" % (rows, ncols, wsel, psel),
                  "every %dx%d matrix with at most two ones per column, weight vectors %s, probability vectors %s, every merge "
                  "strategy, virtual and explicit boundary, every syndrome" % (rows, ncols, wsel, psel), n, run,
                  lambda i: "columns %s weights#%d probs#%d" % case(i), chunk)


class CscSub(sp.csc_matrix):
    pass


def forms(H):
    out = [("uint8", H), ("list", H.tolist()), ("bool", H.astype(bool)), ("int64", H.astype(np.int64)), ("int8", H.astype(np.int8)),
           ("float64", H.astype(float)), ("float32", H.astype(np.float32)), ("uint64", H.astype(np.uint64)),
           ("fortran", np.asfortranarray(H)), ("matrix", np.matrix(H)), ("boollist", H.astype(bool).tolist())]
    wide = np.zeros((H.shape[0] * 2, H.shape[1] * 3), dtype=np.uint8)
    wide[::2, ::3] = H
    out.append(("strided", wide[::2, ::3]))
    out.append(("reversed", H[::-1, ::-1].copy()[::-1, ::-1]))
    for nm, T in (("csc", sp.csc_matrix), ("csr", sp.csr_matrix), ("coo", sp.coo_matrix), ("lil", sp.lil_matrix), ("dok", sp.dok_matrix),
                  ("csc_sub", CscSub)):
        for dt in (np.uint8, np.int64, bool, float):
            if nm == "lil" and dt is bool:
                continue
            out.append(("%s/%s" % (nm, np.dtype(dt)), T(H.astype(dt))))
    # csc with explicit zeros, with unsorted indices, and with 64-bit indices
    z = sp.csc_matrix(np.ones_like(H))
    z.data = np.ascontiguousarray(H.T).reshape(-1).astype(np.uint8)
    out.append(("csc-explicit-zeros", z))
    u = sp.csc_matrix(H)
    for c in range(H.shape[1]):
        a, b = u.indptr[c], u.indptr[c + 1]
        u.indices[a:b] = u.indices[a:b][::-1].copy()
    u.has_sorted_indices = False
    out.append(("csc-unsorted", u))
    q = sp.csc_matrix(H)
    q.indices, q.indptr = q.indices.astype(np.int64), q.indptr.astype(np.int64)
    out.append(("csc-int64idx", q))
    ca = np.concatenate([H, 1 - H], axis=1)
    out.append(("csc-slice", sp.csc_matrix(ca)[:, :H.shape[1]]))
    return out


ENTRY = [("Matching(H)", lambda H, **k: Matching(H, **k)), ("Matching(H=)", lambda H, **k: Matching(H=H, **k)),
         ("from_check_matrix", lambda H, **k: Matching.from_check_matrix(H, **k))]


def _load(H, **k):
    m = Matching()
    m.add_edge(0, 7, fault_ids=9)  # must be gone after loading
    m.load_from_check_matrix(H, **k)
    return m


def _load_kw(H, **k):
    m = Matching([[1, 1], [0, 1]])
    m.decode([1, 0])
    m.load_from_check_matrix(H=H, **k)
    return m


ENTRY += [("load_from_check_matrix", _load), ("load_from_check_matrix(H=)", _load_kw)]


def weight_forms(n):
    v = np.arange(1, n + 1)
    two = np.zeros(2 * n)
    two[::2] = v
    return [("none", {}, [1.0] * n), ("float", {"weights": 2.5}, [2.5] * n), ("int", {"weights": 3}, [3.0] * n),
            ("np.float64", {"weights": np.float64(1.5)}, [1.5] * n), ("np.float32", {"weights": np.float32(1.5)}, [1.5] * n),
            ("np.int64", {"weights": np.int64(2)}, [2.0] * n), ("np.uint8", {"weights": np.uint8(2)}, [2.0] * n),
            ("list", {"weights": v.tolist()}, v.tolist()), ("floatlist", {"weights": (v / 2).tolist()}, (v / 2).tolist()),
            ("int64 array", {"weights": v.astype(np.int64)}, v.tolist()), ("uint8 array", {"weights": v.astype(np.uint8)}, v.tolist()),
            ("float32 array", {"weights": v.astype(np.float32)}, v.tolist()), ("float array", {"weights": v.astype(float)}, v.tolist()),
            ("strided array", {"weights": two[::2]}, v.tolist()), ("reversed array", {"weights": v.astype(float)[::-1]}, v[::-1].tolist()),
            ("spacelike_weights", {"spacelike_weights": v.astype(float)}, v.tolist()),
            ("spacelike_weights float", {"spacelike_weights": 2.0}, [2.0] * n), ("zero", {"weights": 0}, [0.0] * n),
            ("negative", {"weights": -1.0}, [-1.0] * n)]


def prob_forms(n):
    v = np.linspace(0.1, 0.4, n)
    two = np.zeros(2 * n)
    two[::2] = v
    return [("none", {}, [-1] * n), ("float", {"error_probabilities": 0.25}, [0.25] * n), ("int", {"error_probabilities": 1}, [1] * n),
            ("zero", {"error_probabilities": 0}, [0] * n), ("np.float64", {"error_probabilities": np.float64(0.5)}, [0.5] * n),
            ("list", {"error_probabilities": v.tolist()}, v.tolist()), ("array", {"error_probabilities": v}, v.tolist()),
            ("strided", {"error_probabilities": two[::2]}, v.tolist()),
            ("float32", {"error_probabilities": np.full(n, 0.25, dtype=np.float32)}, [0.25] * n)]


BASE = [(1, [(0,)]), (2, [(0,), (0, 1), (1,)]), (3, [(0,), (0, 1), (1, 2), (2,)]), (3, [(0, 1), (1, 2), (0, 2)]),
        (3, [(0, 1), (), (2,), (0, 1)]), (3, [(0, 2), (0, 2), (0,), (0,)]), (2, [()]), (4, [(0, 3), (1, 2), (3,)])]


def fam_forms():
    fl = len(forms(dense(2, [(0,), (0, 1), (1,)])))
    n = len(BASE) * fl * len(ENTRY)

    def case(i):
        b, f, e = product_index(i, len(BASE), fl, len(ENTRY))
        return b, f, e

    def run(i, ctx):
        b, f, e = case(i)
        rows, cols = BASE[b]
        nm, H = forms(dense(rows, cols))[f]
        n = len(cols)
        w = [float(k + 1) for k in range(n)]
        for virtual in (False, True, None):
            before = H.toarray().copy() if sp.issparse(H) else np.array(H).copy()
            kv = {} if virtual is None else {"use_virtual_boundary_node": virtual}
            expect(lambda: ENTRY[e][1](H, weights=w, **kv),
                   lambda: reference(rows, cols, w, [-1] * n, "smallest-weight", bool(virtual)), ctx)
            after = H.toarray() if sp.issparse(H) else np.array(H)
            if not np.array_equal(before, after):
                fail("the caller's matrix was changed")

    return Family("forms", "every matrix form (dense dtypes and layouts, sparse kinds and dtypes, explicit zeros, unsorted indices) x every "
                  "entry point x %d base matrices x both boundary kinds and the default, every syndrome" % len(BASE), n, run,
                  lambda i: "base %d, form %s, entry %s" % (case(i)[0], forms(dense(*BASE[case(i)[0]]))[case(i)[1]][0], ENTRY[case(i)[2]][0]), 8)


def fam_values():
    nw, npf = len(weight_forms(3)), len(prob_forms(3))
    n = len(BASE) * nw * npf * len(ENTRY)

    def case(i):
        return product_index(i, len(BASE), nw, npf, len(ENTRY))

    def run(i, ctx):
        b, a, c, e = case(i)
        rows, cols = BASE[b]
        n = len(cols)
        _, kw, w = weight_forms(n)[a]
        _, kp, p = prob_forms(n)[c]
        for st in ("smallest-weight", "independent"):
            expect(lambda: ENTRY[e][1](dense(rows, cols), merge_strategy=st, use_virtual_boundary_node=bool(i & 1), **kw, **kp),
                   lambda: reference(rows, cols, w, p, st, bool(i & 1)), ctx)

    return Family("values", "every form of weights (scalar types, lists, arrays, strides, deprecated name) x every form of error "
                  "probabilities x every entry point x %d base matrices, every syndrome" % len(BASE), n, run,
                  lambda i: "base %d weights %s probabilities %s entry %s" % (
                      case(i)[0], weight_forms(3)[case(i)[1]][0], prob_forms(3)[case(i)[2]][0], ENTRY[case(i)[3]][0]), 16)


def time_forms(rows):
    v = np.arange(1, rows + 1, dtype=float)
    two = np.zeros(2 * rows)
    two[::2] = v
    tws = [({}, [1.0] * rows), ({"timelike_weights": 2}, [2.0] * rows), ({"timelike_weights": 0.5}, [0.5] * rows),
           ({"timelike_weights": np.float32(1.5)}, [1.5] * rows), ({"timelike_weights": v.tolist()}, v.tolist()),
           ({"timelike_weights": v[::-1]}, v[::-1].tolist()), ({"timelike_weights": two[::2]}, v.tolist()),
           ({"timelike_weights": v.astype(np.int64)}, v.tolist()), ({"timelike_weights": -1.0}, [-1.0] * rows)]
    p = np.linspace(0.1, 0.3, rows)
    tps = [({}, [-1] * rows), ({"measurement_error_probabilities": 0.25}, [0.25] * rows),
           ({"measurement_error_probabilities": p}, p.tolist()), ({"measurement_error_probabilities": p.tolist()}, p.tolist()),
           ({"measurement_error_probability": 0.125}, [0.125] * rows), ({"measurement_error_probability": p[::-1]}, p[::-1].tolist()),
           ({"measurement_error_probabilities": 1}, [1] * rows)]
    return tws, tps


def fam_reps(maxbits):
    tws, tps = time_forms(2)
    reps = [None, 1, 2, 3, 4]
    n = len(BASE) * len(reps) * len(tws) * len(tps)

    def case(i):
        return product_index(i, len(BASE), len(reps), len(tws), len(tps))

    def run(i, ctx):
        b, r, a, c = case(i)
        rows, cols = BASE[b]
        rep = reps[r]
        R = 1 if rep is None else rep
        n = len(cols)
        kw, tw = time_forms(rows)[0][a]
        kp, tp = time_forms(rows)[1][c]
        if R == 1:
            kw, kp = {}, {}
        w = [float(2 + k % 3) for k in range(n)]
        for virtual in (False, True):
            nbits = rows * R + (R * n if False else n) + 1
            expect(lambda: Matching(dense(rows, cols), weights=w, repetitions=rep, error_probabilities=0.2,
                                    use_virtual_boundary_node=virtual, **kw, **kp),
                   lambda: reference(rows, cols, w, [0.2] * n, "smallest-weight", virtual, R, tw, tp), ctx,
                   decode=nbits <= maxbits, reps=R)

    return Family("repetitions:b%d" % maxbits, "%d base matrices x repetitions {None,1,2,3,4} x every form of time-like weights x every form of measurement "
                  "error probabilities x both boundary kinds; every 1-D and 2-D syndrome up to %d state bits" % (len(BASE), maxbits), n, run,
                  lambda i: "base %d reps %s tw#%d tp#%d" % (case(i)[0], reps[case(i)[1]], case(i)[2], case(i)[3]), 4)


def fam_faults(maxrows):
    shapes = [(b, k) for b in range(len(BASE)) for k in range(0, maxrows + 1) if k * len(BASE[b][1]) <= 8]
    idx = []
    for b, k in shapes:
        for q in range(1 << (k * len(BASE[b][1]))):
            idx.append((b, k, q))

    def run(i, ctx):
        b, k, q = idx[i]
        rows, cols = BASE[b]
        n = len(cols)
        F = np.array([[(q >> (r * n + j)) & 1 for j in range(n)] for r in range(k)], dtype=np.uint8).reshape(k, n)
        faults = [{r for r in range(k) if F[r, j]} for j in range(n)]
        w = [float(1 + (j * 2) % 3) for j in range(n)]
        fs = [F, sp.csr_matrix(F), sp.csc_matrix(F.astype(bool))]
        if k:
            fs += [F.tolist(), F.astype(float)]
        for f in fs:
            for st in ("smallest-weight", "replace", "keep-original", "independent"):
                for reps in (1, 2):
                    expect(lambda: Matching(dense(rows, cols), weights=w, faults_matrix=f, merge_strategy=st, repetitions=reps),
                           lambda: reference(rows, cols, w, [-1] * n, st, False, reps, [1.0] * rows, [-1] * rows, faults, k), ctx,
                           decode=f is F and rows * reps + k <= 10, reps=reps)

    return Family("faults:%d" % maxrows, "every binary faults matrix with up to %d rows (up to 8 entries) for %d base matrices, five forms, four merge "
                  "strategies, 1 and 2 repetitions, every syndrome" % (maxrows, len(BASE)), len(idx), run, lambda i: "base %d, faults %d rows bits %x" % idx[i], 16)


H2 = [[1, 1, 0], [0, 1, 1]]
BAD = [
    ("column of three ones", lambda f: f([[1, 0], [1, 1], [1, 0]])),
    ("column of four ones", lambda f: f(np.ones((4, 1), dtype=np.uint8))),
    ("entry 2", lambda f: f([[2, 1], [0, 1]])),
    ("entry 3 sparse", lambda f: f(sp.csc_matrix(np.array([[3, 0], [0, 1]])))),
    ("entry -1", lambda f: f([[-1, 1], [0, 1]])),
    ("entry 256", lambda f: f([[256, 1], [0, 1]])),
    ("entry 257", lambda f: f([[257, 1], [0, 1]])),
    ("entry 1.5", lambda f: f([[1.5, 1], [0, 1]])),
    ("entry 0.5", lambda f: f([[0.5, 1], [0, 1]])),
    ("entry -255", lambda f: f(sp.csc_matrix(np.array([[-255, 0], [0, 1]])))),
    ("short weights", lambda f: f(H2, weights=np.array([1.0, 2.0]))),
    ("long weights", lambda f: f(H2, weights=[1, 2, 3, 4])),
    ("empty weights", lambda f: f(H2, weights=[])),
    ("2-D weights", lambda f: f(H2, weights=np.ones((3, 1)))),
    ("2-D weights row", lambda f: f(H2, weights=np.ones((1, 3)))),
    ("weights and spacelike_weights", lambda f: f(H2, weights=1.0, spacelike_weights=1.0)),
    ("short probabilities", lambda f: f(H2, error_probabilities=[0.1, 0.2])),
    ("long probabilities", lambda f: f(H2, error_probabilities=np.ones(4) * 0.1)),
    ("2-D probabilities", lambda f: f(H2, error_probabilities=np.ones((3, 3)) * 0.1)),
    ("faults with too few columns", lambda f: f(H2, faults_matrix=[[1, 1]])),
    ("faults with too many columns", lambda f: f(H2, faults_matrix=[[1, 1, 0, 0]])),
    ("faults entry 2", lambda f: f(H2, faults_matrix=[[2, 1, 0]])),
    ("faults entry -1", lambda f: f(H2, faults_matrix=[[-1, 1, 0]])),
    ("faults entry 257", lambda f: f(H2, faults_matrix=[[257, 1, 0]])),
    ("unknown merge strategy", lambda f: f(H2, merge_strategy="merge")),
    ("empty merge strategy", lambda f: f(H2, merge_strategy="")),
    ("parallel columns disallowed", lambda f: f([[1, 1], [1, 1]], merge_strategy="disallow")),
    ("parallel boundary columns disallowed", lambda f: f([[1, 1]], merge_strategy="disallow")),
    ("parallel virtual boundary columns disallowed", lambda f: f([[1, 1]], merge_strategy="disallow", use_virtual_boundary_node=True)),
    ("short time-like weights", lambda f: f(H2, repetitions=2, timelike_weights=[1.0])),
    ("long time-like weights", lambda f: f(H2, repetitions=2, timelike_weights=np.ones(3))),
    ("time-like weights tuple of wrong kind", lambda f: f(H2, repetitions=2, timelike_weights="heavy")),
    ("2-D time-like weights", lambda f: f(H2, repetitions=2, timelike_weights=np.ones((2, 2)))),
    ("short measurement probabilities", lambda f: f(H2, repetitions=2, measurement_error_probabilities=[0.1])),
    ("long measurement probabilities", lambda f: f(H2, repetitions=3, measurement_error_probabilities=np.ones(3) * 0.1)),
    ("measurement probabilities of wrong kind", lambda f: f(H2, repetitions=2, measurement_error_probabilities="likely")),
    ("both measurement names", lambda f: f(H2, repetitions=2, measurement_error_probabilities=0.1, measurement_error_probability=0.1)),
    ("negative repetitions", lambda f: f(H2, repetitions=-1)),
    ("string graph", lambda f: f("not a matrix")),
    ("3-D array", lambda f: f(np.ones((2, 2, 2), dtype=np.uint8))),
]


def fam_bad():
    ent = ENTRY[2:4]
    n = len(BAD) * 3

    def run(i, ctx):
        b, e = product_index(i, len(BAD), 3)
        ctx.states += 1
        if e == 2:
            # a failed load leaves the object as it was
            m = Matching([[1, 1, 0], [0, 1, 1]], weights=[1, 2, 3])
            g = reference(2, [(0,), (0, 1), (1,)], [1, 2, 3], [-1] * 3, "smallest-weight", False)
            fn = lambda H, **k: m.load_from_check_matrix(H, **k)
        else:
            fn = ent[e][1] if e == 0 else ENTRY[0][1]
        ctx.transitions += 1
        try:
            BAD[b][1](fn)
        except (ValueError, TypeError) as ex:
            ctx.note("%s: %s" % (type(ex).__name__, str(ex)[:80]))
        else:
            fail("%s was accepted" % BAD[b][0])
        if e == 2:
            r = g.compare(m, "after a failed load")
            if r:
                fail(r)
            check_decode(m, g, ctx)
        ctx.traces += 1

    return Family("malformed", "every listed malformed argument through Matching(...), from_check_matrix and a reload of a live object",
                  n, run, lambda i: BAD[i // 3][0], 2)


# ------------------------------------------------------------------ large matrices
MATFORMS = [lambda H: H, lambda H: sp.csc_matrix(H), lambda H: sp.csr_matrix(H), lambda H: sp.coo_matrix(H), lambda H: H.tolist(), lambda H: np.asfortranarray(H.astype(bool))]


def large_columns(rows, shape):
    """Columns of a ladder with some repeated, some empty, single-entry columns at the ends and here and there."""
    cols = [tuple(sorted((u, v))) if v is not None else (u,) for u, v, w in pybig.ladder(rows, shape, kind=shape % 3)]
    cols += [cols[(7 * k) % len(cols)] for k in range(len(cols) // 9)] + [()] * 2
    order = sorted(range(len(cols)), key=lambda k: (pybig.seq(shape + 3, k), k))
    return [cols[k] for k in order]


BIGM = [(rows, reps, virtual, st, faults) for rows, reps in ((40, 1), (65, 1), (200, 1), (12, 9), (5, 30), (33, 3), (1, 70)) for virtual in (False, True) for st in STRATEGIES[1:]
        for faults in (None, 3, 64, 65, 130)]


def fam_large(stride, nsyn):
    spec = BIGM[::stride]

    def run(i, ctx):
        rows, reps, virtual, st, faults = spec[i]
        cols = large_columns(rows, i)
        n = len(cols)
        w = [float(1 + pybig.seq(i, j) % 6) for j in range(n)]
        p = [0.01 + (pybig.seq(i + 1, j) % 40) / 100 for j in range(n)]
        if st == "independent":
            w = [math.log((1 - x) / x) for x in p]
        tw = [float(1 + pybig.seq(i + 2, j) % 4) for j in range(rows)]
        tp = [0.05 + (pybig.seq(i, j) % 10) / 40 for j in range(rows)]
        kw = dict(weights=w, error_probabilities=p, merge_strategy=st, use_virtual_boundary_node=virtual)
        if reps > 1:
            kw.update(repetitions=reps, timelike_weights=tw, measurement_error_probabilities=tp)
        fl, F = None, None
        if faults:
            pick = [0, faults // 2, faults - 1]
            fl = [{pick[b] for b in range(3) if (j * 2654435761 >> 13) >> b & 1} for j in range(n)]
            F = np.zeros((faults, n), dtype=np.uint8)
            for j in range(n):
                for x in fl[j]:
                    F[x, j] = 1
            kw["faults_matrix"] = MATFORMS[(i + 1) % len(MATFORMS)](F)
        g = reference(rows, cols, w, p, st, virtual, reps, tw, tp, fl, faults)
        m = ENTRY[i % len(ENTRY)][1](MATFORMS[i % len(MATFORMS)](dense(rows, cols)), **kw)
        r = g.compare(m)
        if r:
            fail(r)
        ctx.traces += 1
        nd = rows * reps
        # with repetitions or a faults matrix several edges share fault ids: follow three of them; else ids name the edges
        tracked = [0, faults // 2, faults - 1] if faults else [0, n // 2, n - 1] if reps > 1 else ()
        try:
            o = pybig.BigOracle(g, tracked)
        except RuntimeError:
            return  # too wide for the reference: contents only
        for t, fired in enumerate(pybig.syndromes(nd, i, nsyn)):
            z = pybig.vec(nd, fired)
            if reps > 1 and t % 2:
                z = z.reshape(reps, rows).T
            ctx.transitions += 1
            ctx.states += 1
            where = "syndrome %d of %s" % (t, spec[i])
            try:
                c, wt = m.decode(z, return_weight=True)
            except ValueError as e:
                if float(o.best(fired).min()) != math.inf:
                    fail("%s rejected: %s" % (where, e))
                continue
            o.check_prediction(fired, c, wt, where)
            ctx.outcome((i, t, wt))

    return Family("large:s%d" % stride, "every %d-th of %d check matrices of 40 to 200 rows (or up to 70 repetitions), parallel, empty and single-entry columns, every merge strategy, both boundary kinds, up to 130 faults, matrix forms and entry points in rotation; contents and %d syndromes"
                  % (stride, len(BIGM), 4 + 3 * nsyn), len(spec), run, lambda i: str(spec[i]), 1, 300)


HUGECASES = [(b, f, st, virtual) for b in range(len(pybig.HUGE)) for f in range(3) for st, virtual in (("smallest-weight", True), ("disallow", True), ("independent", False))]


def fam_huge(stride):
    """Check matrices of 70000 rows and columns: a chain, its ends joined to the boundary."""
    spec = HUGECASES[::stride]

    def run(i, ctx):
        b, f, st, virtual = spec[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        H = sp.coo_matrix((np.ones(2 * n, dtype=np.uint8), (np.repeat(np.arange(n), 2), np.stack([np.arange(n), np.arange(n) + 1], 1).ravel())), shape=(n, n + 1))
        H = [H.tocsc(), H.tocsr(), H][f]
        kw = dict(weights=c.w if i % 2 else c.w.tolist(), merge_strategy=st, use_virtual_boundary_node=virtual)
        p = None
        if st == "independent":
            p = [0.01 + (k * k % 97) / 250 for k in range(n + 1)]
            kw["error_probabilities"] = p
        if tracked:
            r = [(t, k) for k in range(n + 1) for t in c.obs[k]]
            F = sp.coo_matrix((np.ones(len(r), dtype=np.uint8), tuple(np.array(r).T)), shape=(c.k, n + 1))
            kw["faults_matrix"] = [F, F.tocsc(), F.tocsr()][f]
        m = ENTRY[i % len(ENTRY)][1](H, **kw)
        g = c.ref(None if p is None else lambda k: p[k])
        if not virtual:
            g2 = RefGraph(n + 1, c.k)
            for (u, v), (o, w, q) in g.e.items():
                g2.add(u, n if v is None else v, o, w, q)
            g2.set_boundary({n})
            g = g2
        r = g.compare(m)
        if r:
            fail(r)
        ctx.traces += 1
        for t, fired in enumerate(c.syndromes()):
            ctx.transitions += 1
            ctx.states += 1
            pred, w = m.decode(pybig.vec(n, fired), return_weight=True)
            c.check_prediction(fired, pred, w, "syndrome %d" % t)
            ctx.outcome((i, t, w))

    return Family("huge:s%d" % stride, "every %d-th of %d sparse check matrices of 65536 to 70001 rows, three sparse forms, 65537 to 70002 faults or three tracked ones; contents and twelve syndromes" % (stride, len(HUGECASES)),
                  len(spec), run, lambda i: str(spec[i]), 1, 300)


def families(tier):
    t = tier == "thorough"
    f = [fam_columns(1, 3, [0, 1, 2, 3, 4, 5], [0, 1, 2, 3]), fam_columns(2, 3, [0, 1, 2, 3, 4, 5], [0, 1]), fam_columns(3, 3, [1, 2, 3], [1]),
         fam_forms(), fam_values(), fam_reps(12 if not t else 16), fam_faults(2 if not t else 3), fam_bad()]
    f += [fam_large(1, 20) if t else fam_large(1, 3)]
    f += [fam_huge(1 if t else 5)]
    if t:
        f += [fam_columns(2, 4, [1, 2, 3, 4, 5], [1, 2, 3]), fam_columns(3, 4, [1, 2, 3, 5], [1, 3]), fam_columns(4, 3, [1, 3], [1]),
              fam_columns(2, 5, [1, 3], [1]), fam_columns(3, 5, [2], [1]), fam_columns(4, 4, [2], [1])]
    return f


if __name__ == "__main__":
    main(families, ["entries of the check matrix are given once each (no duplicate coordinates in a csc matrix)",
                    "pybind11 and scipy behave as documented; pybind11 is replaced by /verif/shim/pybind11"])
