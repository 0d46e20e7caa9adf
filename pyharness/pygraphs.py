"""Matching graphs used by the Python explorers: each entry builds a fresh RefGraph; to_matching turns it into a Matching."""
import itertools, os, tempfile
from pymatching import Matching
from pyref import RefGraph


def make(n, k, edges, boundary=()):
    g = RefGraph(n, k)
    for e in edges:
        u, v, w, obs = e[:4]
        g.add(u, v, obs, w, e[4] if len(e) > 4 else -1)
    g.set_boundary(set(boundary))
    return g


def to_matching(g):
    m = Matching()
    if g.k:
        m.ensure_num_fault_ids(g.k)
    for (u, v), (obs, w, p) in g.e.items():
        if v is None:
            m.add_boundary_edge(u, fault_ids=set(obs), weight=w, error_probability=None if p < 0 else p)
        else:
            m.add_edge(u, v, fault_ids=set(obs), weight=w, error_probability=None if p < 0 else p)
    if g.boundary:
        m.set_boundary_nodes(set(g.boundary))
    if m.num_nodes != g.n:
        raise RuntimeError("graph description has isolated trailing nodes")
    return m


def chain(n, k, w=lambda i: 1 + i % 3, left=True, right=True, obs=None):
    obs = obs or (lambda i: {i % k} if k else set())
    e = [(i, i + 1, w(i), obs(i)) for i in range(n - 1)]
    if left:
        e.append((0, None, 2, obs(n)))
    if right:
        e.append((n - 1, None, 3, obs(n + 1)))
    return make(n, k, e)


def catalogue():
    G = {}
    G["edge"] = make(2, 1, [(0, 1, 1, {0})])
    G["bnd1"] = make(1, 1, [(0, None, 2, {0})])
    G["tri"] = make(3, 3, [(0, 1, 1, {0}), (1, 2, 2, {1}), (0, 2, 2, {2})])
    G["chain3"] = chain(3, 4)
    G["chain3-noobs"] = chain(3, 0)
    G["explicit"] = make(4, 3, [(0, 1, 1, {0}), (1, 2, 2, {1}), (2, 3, 1, {2}), (0, 3, 3, {0, 1})], {3})
    G["explicit2"] = make(5, 3, [(0, 1, 1, {0}), (1, 2, 2, {1}), (2, 3, 1, {2}), (0, 4, 3, {0, 1})], {3, 4})
    G["midboundary"] = make(4, 3, [(0, 1, 1, {0}), (1, 2, 2, {1}), (2, 3, 1, {2})], {1})
    G["firstboundary"] = make(4, 2, [(0, 1, 1, {0}), (1, 2, 2, {1}), (2, 3, 1, {0, 1})], {0})
    G["both-boundaries"] = make(4, 3, [(0, 1, 1, {0}), (1, 2, 2, {1}), (2, 3, 1, {2}), (1, None, 4, {0})], {3})
    G["two-components"] = make(5, 2, [(0, 1, 1, {0}), (2, 3, 2, {1}), (3, 4, 1, set()), (4, None, 1, {0})])
    G["negative"] = make(3, 3, [(0, 1, -1, {0}), (1, 2, 2, {1}), (0, None, 1, {2}), (2, None, -2, {0})])
    G["zero-weights"] = make(3, 2, [(0, 1, 0, {0}), (1, 2, 0, {1}), (0, None, 0, set())])
    G["real-weights"] = make(3, 2, [(0, 1, 0.3, {0}), (1, 2, 1.7, {1}), (0, None, 2.25, set()), (2, None, 0.001, {1})])
    G["chain7"] = chain(7, 3)
    G["chain8"] = chain(8, 8)
    G["chain9"] = chain(9, 9, obs=lambda i: {i % 9, (i * 4 + 1) % 9})
    G["chain9-explicit"] = make(10, 2, [(i, i + 1, 1 + i % 2, {i % 2}) for i in range(9)] + [(0, 9, 2, {1})], {9})
    G["isolated-mid"] = make(4, 2, [(0, 1, 1, {0}), (1, 3, 2, {1}), (3, None, 1, set())])
    return G


def big_obs(n, k):
    """A chain whose edges carry the fault ids around every multiple of 8 and 64."""
    return make(n, k, [(i, i + 1, 1 + i % 2, {(i * 13) % k, k - 1}) for i in range(n - 1)] + [(0, None, 2, {0, k // 2}), (n - 1, None, 2, {k - 1})])


DEMS = {
    "rep": "error(0.1) D0 L0\nerror(0.2) D0 D1\nerror(0.1) D1\n",
    "corr": "error(0.1) D0 D1 ^ D2 D3 L0\nerror(0.05) D0 L1\nerror(0.05) D1\nerror(0.02) D2\nerror(0.2) D3 L0\nerror(0.1) D0 D1\nerror(0.1) D2 D3 L0\n",
    "corr3": "error(0.3) D0 ^ D1 L1 ^ D2\nerror(0.1) D0\nerror(0.1) D1 L1\nerror(0.1) D2\nerror(0.15) D0 D1 L0\nerror(0.15) D1 D2 L2\n",
    "isolated": "error(0.1) D0 D1 L0\nerror(0.1) D1\ndetector D3\nlogical_observable L2\n",
    "repeat": "repeat 3 {\nerror(0.1) D0 D1 L0\nshift_detectors 1\n}\nerror(0.25) D0\n",
}


def dem_file(text, d):
    p = os.path.join(d, "model.dem")
    with open(p, "w") as f:
        f.write(text)
    return p
