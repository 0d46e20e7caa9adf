"""C27, Python part: separate Matching objects share nothing that shows, and results returned earlier stay what they were."""
import itertools, json, math, os, tempfile, warnings
import numpy as np
import networkx as nx
import rustworkx as rx
import scipy.sparse as sp
import stim
from pymatching import Matching
from pyexplore import Family, fail, main


def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, repr(x.tolist()))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(k), freeze(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(k) for k in x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y) for y in x))
    return repr(x)


def attempt(f):
    try:
        return f()
    except Exception as e:
        return "refused: " + type(e).__name__


def vec(n, s):
    return np.array([s >> k & 1 for k in range(n)], dtype=np.uint8)


def some(n):
    return [s for s in sorted({1, 3, 5, (1 << n) - 1, 0x2D & (1 << n) - 1, 0x36 & (1 << n) - 1})]


# --- what a user does: a constructor and steps, each giving a list of results ---
def decodes(corr=False):
    def f(m):
        n = m.num_detectors + len(m.boundary)
        kw = {"enable_correlations": True} if corr else {}
        return [attempt(lambda: m.decode(vec(n, s), return_weight=bool(s % 3), **kw)) for s in some(n)]
    return f


def batch(corr=False):
    def f(m):
        n = m.num_detectors
        shots = np.array([[s >> k & 1 for k in range(n)] for s in range(min(1 << n, 24))], dtype=np.uint8)
        kw = {"enable_correlations": True} if corr else {}
        return [attempt(lambda: m.decode_batch(shots, return_weights=True, **kw)), attempt(lambda: m.decode_batch(np.packbits(shots, axis=1, bitorder="little"), bit_packed_shots=True, bit_packed_predictions=True, **kw))]
    return f


def edges_of(m):
    n = m.num_detectors + len(m.boundary)
    return [attempt(lambda: m.decode_to_edges_array(vec(n, s))) for s in some(n)]


def matched(m):
    n = m.num_detectors + len(m.boundary)
    return [attempt(lambda: m.decode_to_matched_dets_array(vec(n, s))) for s in some(n)] + [attempt(lambda: m.decode_to_matched_dets_dict(vec(n, s))) for s in some(n)]


def content(m):
    g = m.to_networkx()
    return [m.edges(), repr(m), m.boundary, m.num_fault_ids, m.num_nodes, m.num_edges, m.num_detectors, sorted((int(u), int(v), repr(freeze(d))) for u, v, d in g.edges(data=True)),
            [m.has_edge(u, v) for u in range(3) for v in range(3)], attempt(lambda: m.get_edge_data(0, 1)), attempt(lambda: m.get_boundary_edge_data(0))]


def wrong(m):
    n = m.num_detectors
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = [attempt(lambda: m.decode(np.ones(n + 9, dtype=np.uint8))), attempt(lambda: m.decode_batch(np.ones((2, n + 9), dtype=np.uint8))), attempt(lambda: m.add_edge(-1, 0)),
             attempt(lambda: m.add_edge(0, 1, merge_strategy="?")), attempt(lambda: m.add_edge(0, 1, weight=2.0 ** 30)), attempt(lambda: m.decode("x"))]
    return r + [len(w)]


def grow(m):
    a = m.num_nodes
    m.add_edge(0, a, weight=1.75, fault_ids={0, 2})
    m.add_boundary_edge(a, weight=0.625)
    m.add_edge(0, 1, weight=0.875, error_probability=0.125, merge_strategy="replace")
    m.ensure_num_fault_ids(m.num_fault_ids + 1)
    return content(m)


def rebound(m):
    m.set_boundary_nodes({m.num_nodes - 1})
    return [m.boundary] + decodes()(m)


def reload(m):
    m.load_from_check_matrix(np.array([[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]]), weights=[1.5, 0.25, 2.5, 1.125])
    return content(m)


def built(n, k, seed, boundary=(), plain=False):
    def f():
        m = Matching()
        for u in range(n):
            for v in range(u + 1, n):
                x = (u * 7 + v * 13 + seed) % 11
                if x < 6 or v == u + 1:
                    if plain:
                        m.add_edge(u, v)
                    else:
                        m.add_edge(u, v, fault_ids={(u * n + v + seed) % k}, weight=1 + x / 8 + u / 64, error_probability=0.1)
            if u % 2 == seed % 2 and not plain:
                m.add_boundary_edge(u, fault_ids=(u + seed) % k, weight=2 + u / 16 + seed / 128)
        if boundary:
            m.set_boundary_nodes(set(boundary))
        return m
    return f


MODEL = "error(0.1) D0 L0\nerror(0.07) D0 D1\nerror(0.11) D1 D2\nerror(0.05) D2 L1\nerror(0.06) D0 D1 ^ D2\nerror(0.09) D1 D2 ^ D0 L0\n"
MODEL2 = "error(0.2) D0 D1\nerror(0.03) D1 D2 L0\nerror(0.15) D2 D3\nerror(0.08) D3 D0 L2\nerror(0.02) D0\nerror(0.04) D0 D1 ^ D2 D3\n"


def networkx_graph():
    g = nx.Graph()
    for k in range(5):
        g.add_edge(k, (k + 1) % 5, weight=1 + k / 7, fault_ids={k, 2}, error_probability=0.1)
    g.add_edge(5, 0, weight=1.3, fault_ids=1)
    g.nodes[5]["is_boundary"] = True
    return Matching.from_networkx(g)


def rustworkx_graph():
    g = rx.PyGraph()
    g.add_nodes_from([{} for _ in range(4)])
    for k in range(4):
        g.add_edge(k, (k + 1) % 4, dict(weight=1 + k / 9, fault_ids={k}))
    return Matching(g)


def from_file():
    f, p = tempfile.mkstemp(prefix="verif_c27_", suffix=".dem")
    try:
        os.write(f, MODEL2.encode())
        os.close(f)
        return Matching.from_detector_error_model_file(p, enable_correlations=True)
    finally:
        os.unlink(p)


RING = np.array([[1 if c in (r, (r + 1) % 5) else 0 for c in range(5)] for r in range(5)], dtype=np.uint8)
PLANS = {
    "edges": (built(5, 4, 1), [decodes(), content, grow]),
    "other-edges": (built(5, 4, 4), [matched, decodes(), edges_of]),
    "many-faults": (built(6, 90, 2), [decodes(), batch(), content]),
    "default-arguments": (built(4, 1, 0, plain=True), [content, decodes(), grow]),
    "boundary-nodes": (built(6, 3, 5, (1, 4)), [decodes(), content, rebound]),
    "check-matrix": (lambda: Matching(RING, weights=[1.1, 0.7, 1.9, 0.3, 1.5], error_probabilities=0.2), [decodes(), batch(), content]),
    "repetitions": (lambda: Matching.from_check_matrix(sp.csc_matrix(RING[:3]), repetitions=2, timelike_weights=[0.9, 1.3, 0.4], measurement_error_probabilities=0.1, faults_matrix=sp.csc_matrix(np.eye(2, 5, dtype=np.uint8)),
                                                    use_virtual_boundary_node=True), [decodes(), content, batch()]),
    "correlated": (lambda: Matching.from_detector_error_model(stim.DetectorErrorModel(MODEL), enable_correlations=True), [decodes(True), batch(True), decodes()]),
    "correlated-file": (from_file, [batch(True), decodes(True), content]),
    "uncorrelated": (lambda: Matching.from_detector_error_model(stim.DetectorErrorModel(MODEL)), [decodes(True), decodes(), batch()]),
    "networkx": (networkx_graph, [content, decodes(), reload]),
    "rustworkx": (rustworkx_graph, [wrong, decodes(), edges_of]),
    "refused": (built(4, 2, 7, ()), [wrong, decodes(), content]),
}
NAMES = list(PLANS)


class User:
    def __init__(self, name):
        self.name, self.at, self.m, self.kept = name, 0, None, []

    def step(self):
        make, steps = PLANS[self.name]
        if self.at == 0:
            self.m = make()
            r = [repr(self.m)]
        else:
            r = steps[self.at - 1](self.m)
        self.at += 1
        z = freeze(r)
        self.kept.append((r, z))
        return z


def alone(name):
    """The plan in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            u = User(name)
            b = repr([u.step() for _ in range(4)]).encode()
        except BaseException as e:
            b = ("failed: %r" % e).encode()
        off = 0
        while off < len(b):
            off += os.write(w, b[off:off + 65536])
        os._exit(0)
    os.close(w)
    out = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        out += x
    os.close(r)
    os.waitpid(pid, 0)
    t = out.decode()
    return t if t.startswith("failed") or not t else eval(t, {"inf": math.inf, "nan": math.nan})


EXPECT = {}


def expect(name):
    if name not in EXPECT:
        EXPECT[name] = alone(name)
    x = EXPECT[name]
    if isinstance(x, str):
        fail("user '%s' alone cannot finish: %s" % (name, x or "crash"))
    return x


ORDERS2 = [tuple(1 if k in c else 0 for k in range(8)) for c in itertools.combinations(range(8), 4)]
ORDERS3 = sorted(set(itertools.permutations((0, 0, 1, 1, 2, 2))))


def run_users(names, order, destroy, ctx):
    users = [User(n) for n in names]
    want = [expect(n) for n in names]
    done = []
    for who in order:
        u = users[who]
        k = u.at
        got = u.step()
        ctx.transitions += 1
        ctx.states += 1
        if got != want[who][k]:
            fail("user %d (%s), step %d gives %s instead of %s after %s" % (who, names[who], k, repr(got)[:300], repr(want[who][k])[:300], done))
        done.append("%d:%d" % (who, k))
        if destroy and u.at == 4:
            u.m = None
    for who, u in enumerate(users):
        for k, (r, z) in enumerate(u.kept):
            if freeze(r) != z:
                fail("what user %d (%s) was given in step %d has changed since, after %s" % (who, names[who], k, done))
    ctx.traces += 1
    ctx.outcome((names, len(done)))


def fam2():
    N, O = len(NAMES), len(ORDERS2)

    def dec(i):
        return (NAMES[i // (2 * O) // N], NAMES[i // (2 * O) % N]), ORDERS2[i // 2 % O], i % 2

    return Family("py:calls:2", "every interleaving of 4 steps each of 2 users of Matching objects of their own, for every choice of them from %d kinds, objects kept or destroyed when done" % N, N * N * O * 2,
                  lambda i, c: run_users(*dec(i), c), lambda i: "%s, order %s, %s" % (dec(i)[0], "".join(map(str, dec(i)[1])), "destroyed when done" if dec(i)[2] else "kept"), 70)


def fam3():
    N = len(NAMES)
    picks = [p for p in itertools.combinations_with_replacement(NAMES, 3)]
    orders = [o + o for o in ORDERS3[::6]]

    def dec(i):
        return picks[i // len(orders)], orders[i % len(orders)], 0

    return Family("py:calls:3", "3 users out of %d kinds, %d interleavings" % (N, len(orders)), len(picks) * len(orders), lambda i, c: run_users(*dec(i), c), lambda i: "%s %s" % (dec(i)[0], dec(i)[1]), 15)


def families(tier):
    for n in NAMES:  # before the workers are forked, each in a process of its own
        EXPECT[n] = alone(n)
    return [fam2()] + ([fam3()] if tier == "thorough" else [])


if __name__ == "__main__":
    main(families, ["pybind11 is replaced by /verif/shim/pybind11"])
