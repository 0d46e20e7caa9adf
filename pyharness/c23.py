"""C23: exporting to NetworkX (or rustworkx) and importing keeps the matching graph and its decoding."""
import itertools, math, warnings
import numpy as np
import networkx as nx
import rustworkx as rx
from pymatching import Matching
from pyexplore import Family, fail, main, product_index
from pyref import RefGraph, bits, to_int, close, valid_p
import pygraphs, pybig


def expected_roundtrip(g):
    """The graph after export and import: the virtual boundary, if used, becomes node g.n in the boundary."""
    virt = any(v is None for (u, v) in g.e)
    r = RefGraph(g.n + (1 if virt else 0), 0)
    for (u, v), (o, w, p) in g.e.items():
        r.add(u, g.n if v is None else v, o, w, p if valid_p(p) else -1, "smallest-weight")
    r.set_boundary(g.boundary | ({g.n} if virt else set()))
    return r


def same_decoding(m, m2, g, r, ctx, tol):
    nd = g.n
    t = g.table() if g.n + g.k <= 14 else None
    for s in range(1 << nd):
        z = np.array(bits(s, nd), dtype=np.uint8)
        z2 = np.array(bits(s, nd) + [0] * (r.n - nd), dtype=np.uint8)
        out = []
        ctx.transitions += 2
        for mm, zz in ((m, z), (m2, z2)):
            try:
                c, w = mm.decode(zz, return_weight=True)
                out.append((c, w))
            except ValueError:
                out.append(None)
        if (out[0] is None) != (out[1] is None):
            fail("syndrome %s decodes only %s the round trip" % (z.tolist(), "before" if out[0] else "after"))
        if out[0] is None:
            continue
        if abs(out[0][1] - out[1][1]) > tol:
            fail("syndrome %s has weight %r before and %r after the round trip" % (z.tolist(), out[0][1], out[1][1]))
        if t is not None:
            eff = to_int([0 if i in g.boundary else x for i, x in enumerate(bits(s, nd))])
            c = list(out[1][0]) + [0] * (g.k - len(out[1][0]))
            if not t.optimal(eff, to_int(c)):
                fail("syndrome %s: correction %s after the round trip is not of minimum weight" % (z.tolist(), c))


def build_direct(g):
    """A Matching with exactly g's content, isolated nodes included (via the boundary setter and edge insertion only)."""
    m = Matching()
    for (u, v), (o, w, p) in g.e.items():
        kw = dict(fault_ids=set(o), weight=w, error_probability=None if p < 0 else p)
        if v is None:
            m.add_boundary_edge(u, **kw)
        else:
            m.add_edge(u, v, **kw)
    if m.num_nodes < g.n:
        m.set_boundary_nodes({g.n - 1})  # creates the trailing nodes
    m.set_boundary_nodes(set(g.boundary))
    return m


EXPORTS = [("networkx", lambda m: m.to_networkx(), [lambda G, **k: Matching.from_networkx(G, **k), lambda G, **k: _load_nx(G, **k)], lambda G: Matching(G)),
           ("rustworkx", lambda m: m.to_rustworkx(), [lambda G, **k: _load_rx(G, **k)], lambda G: Matching(G)),
           ("retworkx", lambda m: m.to_retworkx(), [lambda G, **k: _load_retx(G, **k)], lambda G: Matching(G))]


def _load_nx(G, **k):
    m = Matching([[1, 1, 0], [0, 1, 1]])
    m.load_from_networkx(G, **k)
    return m


def _load_rx(G, **k):
    m = Matching([[1, 1, 0], [0, 1, 1]])
    m.load_from_rustworkx(G, **k)
    return m


def _load_retx(G, **k):
    m = Matching()
    m.load_from_retworkx(G, **k)
    return m


def check_export(kind, G, g):
    virt = any(v is None for (u, v) in g.e)
    nodes = set(range(g.n + (1 if virt else 0)))
    if kind == "networkx":
        if set(G.nodes) != nodes:
            fail("%s export has nodes %s instead of %s" % (kind, sorted(G.nodes), sorted(nodes)))
        isb = {i: G.nodes[i].get("is_boundary") for i in G.nodes}
        es = {RefGraph.key(u, v): d for u, v, d in G.edges(data=True)}
    else:
        if set(G.node_indices()) != nodes:
            fail("%s export has nodes %s instead of %s" % (kind, sorted(G.node_indices()), sorted(nodes)))
        isb = {i: G[i].get("is_boundary") for i in G.node_indices()}
        es = {RefGraph.key(u, v): d for u, v, d in G.weighted_edge_list()}
    for i in nodes:
        want = i in g.boundary or i == g.n
        if isb[i] is not want:
            fail("%s export: is_boundary of node %d is %r" % (kind, i, isb[i]))
    want = {RefGraph.key(u, g.n if v is None else v): x for (u, v), x in g.e.items()}
    if set(es) != set(want):
        fail("%s export has edges %s instead of %s" % (kind, sorted(es), sorted(want)))
    for k, d in es.items():
        r = RefGraph._cmp_data(d, want[k])
        if r:
            fail("%s export, edge %s: %s" % (kind, k, r))


def roundtrip(g, ctx, exports=range(3)):
    m = build_direct(g)
    r = g.compare(m, "before export")
    if r:
        fail(r)
    ref = expected_roundtrip(g)
    ws = [abs(x[1]) for x in g.e.values()]
    tol = 1e-9 if all(float(w).is_integer() for w in ws) else (len(ws) + 1) * max(ws) / 2 ** 22
    for x in exports:
        kind, ex, imps, plain = EXPORTS[x]
        G = ex(m)
        check_export(kind, G, g)
        for imp in imps:
            for extra in (None, 0, 1, g.k, g.k + 3):
                m2 = imp(G) if extra is None else imp(G, min_num_fault_ids=extra)
                ref2 = RefGraph(ref.n, max(ref.k, extra or 0))
                ref2.e, ref2.boundary = ref.e, ref.boundary
                d = ref2.compare(m2, "after %s round trip" % kind)
                if d:
                    fail(d)
                ctx.traces += 1
        m3 = plain(G)
        d = ref.compare(m3, "after %s round trip" % kind)
        if d:
            fail(d)
        same_decoding(m, m3, g, ref, ctx, tol)
        G2 = ex(m3)
        check_export(kind, G2, ref)
        r = g.compare(m, "the original after export")
        if r:
            fail(r)
    ctx.states += 1
    ctx.outcome(g.describe())
    ctx.note(g.describe())


VALS = [None, ({0}, 1.0, 0.1), (set(), 2.0, -1), ({1, 2}, 0.5, 1.0)]


def fam_graphs(n, vals, selfloops, name):
    slots = [(u, v) for u in range(n) for v in range(u + (0 if selfloops else 1), n)] + [(u, None) for u in range(n)]
    V = [None if v is None else v for v in vals]
    A = len(V)
    N = A ** len(slots) * (1 << n)

    def build(i):
        *ds, b = product_index(i, *([A] * len(slots) + [1 << n]))
        g = RefGraph(n, 0)
        for (u, v), d in zip(slots, ds):
            if V[d] is not None:
                o, w, p = V[d]
                g.add(u, v, o, w, p)
        g.set_boundary({j for j in range(n) if b >> j & 1})
        return g

    return Family("roundtrip:%s" % name, "every graph on %d nodes with each edge%s and virtual boundary edge in %s, every boundary set, isolated nodes included; both libraries; "
                  "every import entry point; every syndrome" % (n, " or self-loop" if selfloops else "", vals), N, lambda i, ctx: roundtrip(build(i), ctx), lambda i: build(i).describe(), 32)


def fam_cat():
    cat = pygraphs.catalogue()
    names = [n for n in cat if cat[n].n <= 8]

    def run(i, ctx):
        g = cat[names[i]]
        k = max([0] + [o + 1 for x in g.e.values() for o in x[0]])
        g2 = RefGraph(g.n, k)
        g2.e, g2.boundary = g.e, g.boundary
        roundtrip(g2, ctx)

    return Family("roundtrip:catalogue", "%d named graphs" % len(names), len(names), run, lambda i: names[i], 1)


# ---- imports of hand-written graphs
FAULTS = [("missing", {}, set()), ("int", {"fault_ids": 2}, {2}), ("zero", {"fault_ids": 0}, {0}), ("minus one", {"fault_ids": -1}, set()),
          ("np.int64", {"fault_ids": np.int64(1)}, {1}), ("np.uint8", {"fault_ids": np.uint8(3)}, {3}), ("set", {"fault_ids": {0, 2}}, {0, 2}),
          ("empty set", {"fault_ids": set()}, set()), ("list", {"fault_ids": [1, 3]}, {1, 3}), ("tuple", {"fault_ids": (0,)}, {0}),
          ("frozenset", {"fault_ids": frozenset({2})}, {2}), ("np array", {"fault_ids": np.array([0, 1])}, {0, 1}),
          ("np ints in set", {"fault_ids": {np.int64(1), np.int32(2)}}, {1, 2}), ("list with repeats", {"fault_ids": [1, 1]}, {1}),
          ("range", {"fault_ids": range(2)}, {0, 1}), ("qubit_id int", {"qubit_id": 1}, {1}), ("qubit_id -1", {"qubit_id": -1}, set()),
          ("qubit_id set", {"qubit_id": {0, 3}}, {0, 3}), ("bool", {"fault_ids": True}, {1})]
BADF = [("float", {"fault_ids": 1.5}), ("string", {"fault_ids": "ab"}), ("None", {"fault_ids": None}), ("set of floats", {"fault_ids": {0.5}}),
        ("list of strings", {"fault_ids": ["0"]}), ("list with None", {"fault_ids": [None]}), ("both names", {"fault_ids": 0, "qubit_id": 0}),
        ("both names sets", {"fault_ids": {0}, "qubit_id": {1}}), ("qubit_id float", {"qubit_id": 2.5}), ("nested", {"fault_ids": [[0]]}),
        ("negative in set", {"fault_ids": {-2}}), ("string weight", {"weight": "heavy"}), ("string probability", {"error_probability": "likely"})]
WTS = [({}, 1.0), ({"weight": 2.5}, 2.5), ({"weight": 3}, 3.0), ({"weight": np.float32(0.5)}, 0.5), ({"weight": 0}, 0.0), ({"weight": np.int64(4)}, 4.0),
       ({"weight": -1.5}, -1.5)]
PRS = [({}, -1), ({"error_probability": 0.25}, 0.25), ({"error_probability": 0}, 0), ({"error_probability": 1}, 1),
       ({"error_probability": np.float64(0.5)}, 0.5), ({"error_probability": -1}, -1)]
BFL = [({}, False), ({"is_boundary": True}, True), ({"is_boundary": False}, False), ({"is_boundary": 1}, True), ({"is_boundary": 0}, False),
       ({"is_boundary": np.bool_(True)}, True), ({"is_boundary": None}, False)]
ORDERS = list(itertools.permutations(range(3)))
IMPORTS = [("Matching(nx)", "nx", lambda G: Matching(G)), ("from_networkx", "nx", lambda G: Matching.from_networkx(G)), ("load_from_networkx", "nx", _load_nx),
           ("Matching(rx)", "rx", lambda G: Matching(G)), ("load_from_rustworkx", "rx", _load_rx)]


def _rx_of(nodes, edges):
    G = rx.PyGraph()
    G.add_nodes_from([dict(nodes[i]) for i in range(len(nodes))])
    for u, v, d in edges:
        G.add_edge(u, v, d)
    return G


def import_and_compare(kind, fn, g, nodes, edges, order, ctx):
    if kind == "nx":
        G = nx.Graph()
        for i in order:
            G.add_node(i, **nodes[i])
        for u, v, d in edges:
            G.add_edge(u, v, **d)
    else:
        G = _rx_of(nodes, edges)
    ctx.transitions += 1
    m = fn(G)
    r = g.compare(m, "imported graph")
    if r:
        fail(r)
    t = g.table()
    for s in range(1 << g.n):
        eff = to_int([0 if i in g.boundary else x for i, x in enumerate(bits(s, g.n))])
        try:
            c, w = m.decode(np.array(bits(s, g.n), dtype=np.uint8), return_weight=True)
        except ValueError:
            if t.weight(eff) != math.inf:
                fail("syndrome %s rejected after import" % bits(s, g.n))
            continue
        if t.weight(eff) == math.inf or not t.same_weight(eff, w) or not t.optimal(eff, to_int(c)):
            fail("syndrome %s decodes to %s, %r after import" % (bits(s, g.n), c.tolist(), w))
    ctx.states += 1 << g.n
    ctx.traces += 1


def fam_import():
    dims = (len(FAULTS), len(WTS), len(PRS), len(BFL), len(IMPORTS))

    def run(i, ctx):
        a, b, c, d, e = product_index(i, *dims)
        f2 = FAULTS[(a + 7) % len(FAULTS)]
        edges = [(0, 1, {**FAULTS[a][1], **WTS[b][0], **PRS[c][0]}), (1, 2, {**f2[1], "weight": 2.0, "error_probability": 0.1})]
        nodes = [{}, {}, dict(BFL[d][0])]
        g = RefGraph(3, 0)
        g.add(0, 1, FAULTS[a][2], WTS[b][1], PRS[c][1])
        g.add(1, 2, f2[2], 2.0, 0.1)
        g.set_boundary({2} if BFL[d][1] else set())
        import_and_compare(IMPORTS[e][1], IMPORTS[e][2], g, nodes, edges, ORDERS[i % 6], ctx)

    return Family("import", "every combination of %d fault-id forms, %d weight forms, %d probability forms, %d boundary flags and %d entry points, node orders in rotation, every syndrome"
                  % dims, math.prod(dims), run, lambda i: "faults %s weight %s probability %s boundary %s via %s" % (lambda q: (
                      FAULTS[q[0]][0], WTS[q[1]][0], PRS[q[2]][0], BFL[q[3]][0], IMPORTS[q[4]][0]))(product_index(i, *dims)), 64)


def fam_bad():
    dims = (len(BADF), len(IMPORTS), 2)

    def run(i, ctx):
        a, e, pos = product_index(i, *dims)
        edges = [(0, 1, {"fault_ids": 0}), (1, 2, {"fault_ids": 1})]
        edges[pos] = (edges[pos][0], edges[pos][1], dict(BADF[a][1]))
        if IMPORTS[e][1] == "nx":
            G = nx.Graph()
            for u, v, d in edges:
                G.add_edge(u, v, **d)
        else:
            G = _rx_of([{}, {}, {}], edges)
        ctx.states += 1
        ctx.transitions += 1
        try:
            IMPORTS[e][2](G)
        except (TypeError, ValueError):
            ctx.traces += 1
            return
        fail("edge attributes %s were accepted" % BADF[a][1])

    def desc(i):
        a, e, pos = product_index(i, *dims)
        return "%s on edge %d via %s" % (BADF[a][0], pos, IMPORTS[e][0])

    return Family("invalid-attributes", "every listed invalid attribute on either edge through every entry point", math.prod(dims), run, desc, 4)


def fam_kinds():
    """Graph kinds and node labels."""
    def multigraph(ctx):
        for ws in itertools.product((1, 2, 3), repeat=3):
            G = nx.MultiGraph()
            for j, w in enumerate(ws):
                G.add_edge(0, 1, weight=w, fault_ids=j)
            G.add_edge(1, 2, weight=1, fault_ids=3)
            g = RefGraph(3, 0)
            for j, w in enumerate(ws):
                g.add(0, 1, {j}, w, -1, "smallest-weight")
            g.add(1, 2, {3}, 1, -1)
            g.k = 4
            m = Matching(G)
            if m.num_fault_ids not in (4,):
                fail("%d fault ids" % m.num_fault_ids)
            r = g.compare(m, "multigraph %s" % (ws,))
            if r:
                fail(r)
            ctx.transitions += 1

    def labels(ctx):
        for labs in itertools.permutations((0, 1, 3, 6), 3):
            for b in range(8):
                for T in (int, np.int64):
                    G = nx.Graph()
                    G.add_edge(T(labs[0]), T(labs[1]), fault_ids=0, weight=2)
                    G.add_edge(T(labs[1]), T(labs[2]), fault_ids=1, weight=1)
                    for j in range(3):
                        if b >> j & 1:
                            G.nodes[labs[j]]["is_boundary"] = True
                    g = RefGraph(3, 0)
                    g.set_boundary({labs[j] for j in range(3) if b >> j & 1})
                    g.add(labs[0], labs[1], {0}, 2, -1)
                    g.add(labs[1], labs[2], {1}, 1, -1)
                    m = Matching(G)
                    r = g.compare(m, "labels %s boundary %d" % (labs, b))
                    if r:
                        fail(r)
                    ctx.transitions += 1

    def bad_labels(ctx):
        for l in ("a", -1, -5, (0, 1)):
            G = nx.Graph()
            G.add_edge(0, l)
            try:
                Matching(G)
            except (ValueError, TypeError):
                ctx.transitions += 1
                continue
            fail("node label %r was accepted" % (l,))

    def too_heavy(ctx):
        for w in (2.0 ** 24, -2.0 ** 24, 1e12):
            G = nx.Graph()
            G.add_edge(0, 1, weight=w, fault_ids=0)
            G.add_edge(1, 2, weight=1, fault_ids=1)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                m = Matching(G)
            if m.has_edge(0, 1) or not rec or m.num_edges != 1:
                fail("an edge of weight %g was added (%d warnings)" % (w, len(rec)))
            ctx.transitions += 1

    def wrong_type(ctx):
        for fn, bads in ((Matching.from_networkx, (rx.PyGraph(), 3, None, [[1]])), (Matching().load_from_rustworkx, (nx.Graph(), 3, None)), (Matching().load_from_networkx, ("x", rx.PyGraph()))):
            for b in bads:
                try:
                    fn(b)
                except TypeError:
                    ctx.transitions += 1
                    continue
                fail("%r accepted as a graph" % (b,))

    def empties(ctx):
        for n in range(4):
            G = nx.Graph()
            G.add_nodes_from(range(n))
            g = RefGraph(n, 0)
            for m in (Matching(G), Matching.from_networkx(G, min_num_fault_ids=2), Matching(_rx_of([{}] * n, []))):
                g.k = m.num_fault_ids
                r = g.compare(m, "edgeless graph")
                if r:
                    fail(r)
            ctx.transitions += 1

    jobs = [("multigraph", multigraph), ("labels", labels), ("bad labels", bad_labels), ("too heavy", too_heavy), ("wrong type", wrong_type), ("edgeless", empties)]

    def run(i, ctx):
        jobs[i][1](ctx)
        ctx.states += 1
        ctx.traces += 1

    return Family("kinds", "multigraphs with every weight order of three parallel edges, every arrangement of sparse labels and boundary flags, unusable labels, too heavy edges, wrong types, edgeless graphs",
                  len(jobs), run, lambda i: jobs[i][0], 1)


LARGE = [(n, kind, bnd, obs, extra) for n in (30, 65, 200) for kind in (0, 1, 2, 3) for bnd in ("virtual", "explicit", "two", "many", "none") for obs in ("unique", (0, 31, 63), (1, 64, 130)) for extra in range(3)]


def fam_large(stride, nsyn):
    """extra 0: as is; 1: boundary nodes inside the graph too; 2: isolated nodes at the end, self-loops, real weights."""
    spec = LARGE[::stride]

    def build(i):
        n, kind, bnd, obs, extra = spec[i]
        g = pybig.graph(n, i, kind, bnd, i % 2, 6, 0.25 if extra == 2 else 1.0, obs, p=lambda j: -1 if j % 7 == 3 else (pybig.seq(i, j) % 101) / 100)
        if extra == 1:
            g.set_boundary(g.boundary | {x for x in range(0, n, 9)})
        if extra == 2:
            top = g.n
            for u in range(0, n, 11):
                g.add(u, u, {0} if obs != "unique" else {len(g.e)}, 1.5, 0.1)
            g.set_boundary(g.boundary | {top + 3})
        g.k = max([0] + [o + 1 for e in g.e.values() for o in e[0]])
        return g

    def run(i, ctx):
        g = build(i)
        m = build_direct(g)
        r = g.compare(m, "before export")
        if r:
            fail(r)
        ref = expected_roundtrip(g)
        obs = spec[i][3]
        o = pybig.BigOracle(ref, () if obs == "unique" and not g.boundary else [t for t in ((0, ref.k // 2, ref.k - 1) if obs == "unique" else obs) if t < ref.k])
        for kind, ex, imps, plain in EXPORTS:
            G = ex(m)
            check_export(kind, G, g)
            for imp in imps + [plain]:
                m2 = imp(G)
                ref.k = m2.num_fault_ids if m2.num_fault_ids >= ref.k else ref.k
                d = ref.compare(m2, "after %s round trip" % kind)
                if d:
                    fail(d)
                ctx.traces += 1
            for t, fired in enumerate(pybig.syndromes(spec[i][0], i, nsyn)):
                ctx.states += 1
                ctx.transitions += 1
                where = "syndrome %d after %s round trip" % (t, kind)
                try:
                    c, w = m2.decode(pybig.vec(ref.n, fired), return_weight=True)
                except ValueError as e:
                    if float(o.best(fired).min()) != math.inf:
                        fail("%s rejected: %s" % (where, e))
                    continue
                o.check_prediction(fired, c, w, where)
                ctx.outcome((i, t, w))
        r = g.compare(m, "the original after export")
        if r:
            fail(r)

    return Family("large:s%d" % stride, "every %d-th of %d graphs of 30 to 200 nodes (five boundary kinds, boundary nodes inside, isolated nodes, self-loops, up to 500 fault ids), both libraries, every import entry point, %d syndromes"
                  % (stride, len(LARGE), 4 + 3 * nsyn), len(spec), run, lambda i: str(spec[i]), 1, 300)


def fam_huge():
    # (importing from NetworkX takes quadratic time in the number of distinct fault ids)
    cases = [(b, x) for b in range(len(pybig.HUGE)) for x in range(len(EXPORTS)) if x or pybig.HUGE[b][1]]

    def run(i, ctx):
        b, x = cases[i]
        n, tracked = pybig.HUGE[b]
        c = pybig.Chain(n, i, tracked)
        g = c.ref(lambda k: -1 if k % 7 == 3 else (k * k % 101) / 100)
        m = build_direct(g)
        kind, ex, imps, plain = EXPORTS[x]
        G = ex(m)
        check_export(kind, G, g)
        ref = expected_roundtrip(g)
        ref.k = c.k
        for imp in imps[:1] + [plain]:
            m2 = imp(G)
            d = ref.compare(m2, "after %s round trip" % kind)
            if d:
                fail(d)
            ctx.traces += 1
        for t, fired in enumerate(c.syndromes()):
            ctx.states += 1
            ctx.transitions += 1
            p, w = m2.decode(pybig.vec(n + 1, fired), return_weight=True)
            c.check_prediction(fired, p, w, "syndrome %d after %s round trip" % (t, kind))
            ctx.outcome((i, t, w))

    return Family("huge", "chains of 65536 to 70001 nodes with 65537 to 70002 fault ids through every library, twelve syndromes", len(cases), run, lambda i: "%s %s" % (pybig.HUGE[cases[i][0]], EXPORTS[cases[i][1]][0]), 1, 300)


def families(tier):
    t = tier == "thorough"
    f = [fam_graphs(1, VALS, True, "n1"), fam_graphs(2, VALS, True, "n2"), fam_graphs(3, VALS[:2], True, "n3"), fam_cat(), fam_import(), fam_bad(), fam_kinds()]
    f += [fam_large(1, 10) if t else fam_large(3, 1), fam_huge()]
    if t:
        f += [fam_graphs(3, VALS[:3], False, "n3x3"), fam_graphs(3, VALS, False, "n3x4"), fam_graphs(4, VALS[:2], False, "n4")]
    return f


if __name__ == "__main__":
    main(families, ["fault ids that no edge carries are not part of an exported graph (min_num_fault_ids restores them)",
                    "NetworkX behaves as documented; rustworkx is replaced by a stand-in with the documented PyGraph behaviour",
                    "pybind11 is replaced by /verif/shim/pybind11"])
