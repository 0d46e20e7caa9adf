"""Independent reference for the Python layer: matching graph contents and exhaustive minimum-weight decoding."""
import math
import numpy as np

STRATEGIES = ["disallow", "independent", "smallest-weight", "keep-original", "replace"]


class Rejected(Exception):
    pass


def valid_p(p):
    return 0 <= p <= 1


def llr_merge(a, b):
    pa, pb = 1 / (1 + math.exp(a)), 1 / (1 + math.exp(b))
    p = pa * (1 - pb) + pb * (1 - pa)
    return math.log((1 - p) / p)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


class RefGraph:
    """Edges are keyed by (smaller, larger) node or (node, None) for the virtual boundary."""

    def __init__(self, num_nodes=0, num_obs=0):
        self.n, self.k = num_nodes, num_obs
        self.e = {}
        self.boundary = set()

    @staticmethod
    def key(u, v):
        return (u, None) if v is None else (min(u, v), max(u, v))

    def add(self, u, v, obs, w, p, strategy="disallow"):
        key = self.key(u, v)
        obs = frozenset(obs)
        old = self.e.get(key)
        if old is None:
            self.n = max(self.n, u + 1, (v + 1) if v is not None else 0)
            self._set(key, obs, w, p)
        elif strategy == "disallow":
            raise Rejected()
        elif strategy == "independent":
            q = old[2]
            np_ = q * (1 - p) + p * (1 - q) if valid_p(p) and valid_p(q) else -1
            self.e[key] = (old[0], llr_merge(old[1], w), np_)
        elif strategy == "smallest-weight":
            if w < old[1]:
                self._set(key, obs, w, p)
        elif strategy == "replace":
            self._set(key, obs, w, p)

    def _set(self, key, obs, w, p):
        self.e[key] = (obs, w, p)
        self.k = max([self.k] + [o + 1 for o in obs])

    def set_boundary(self, b):
        self.boundary = set(b)
        if b:
            self.n = max(self.n, max(b) + 1)

    def num_detectors(self):
        return self.n - len(self.boundary)

    # Edges as the decoder sees them: (u, v or None for boundary, obs, w); edges inside the boundary left out.
    def flat(self):
        out = []
        for (u, v), (obs, w, p) in self.e.items():
            ub, vb = u in self.boundary, v is None or v in self.boundary
            if ub and vb:
                continue
            if ub:
                u, v, vb = v, None, True
            out.append((u, None if vb else v, obs, w))
        return out

    def table(self):
        return Table(self.n, self.k, self.flat(), [e[1] for e in self.e.values()])

    def compare(self, m, where="graph"):
        """None if the Matching object m has exactly this content, else what differs."""
        if m.num_nodes != self.n:
            return "%s: %d nodes instead of %d" % (where, m.num_nodes, self.n)
        if m.num_detectors != self.num_detectors():
            return "%s: %d detectors instead of %d" % (where, m.num_detectors, self.num_detectors())
        if m.num_fault_ids != self.k:
            return "%s: %d fault ids instead of %d" % (where, m.num_fault_ids, self.k)
        if set(m.boundary) != self.boundary:
            return "%s: boundary %s instead of %s" % (where, set(m.boundary), self.boundary)
        es = m.edges()
        if m.num_edges != len(self.e) or len(es) != len(self.e):
            return "%s: %d edges instead of %d" % (where, len(es), len(self.e))
        seen = set()
        for u, v, d in es:
            k = self.key(u, v)
            if k not in self.e or k in seen:
                return "%s: unexpected or repeated edge (%s, %s)" % (where, u, v)
            seen.add(k)
            r = self._cmp_data(d, self.e[k])
            if r:
                return "%s: edge (%s, %s): %s" % (where, u, v, r)
            d2 = m.get_boundary_edge_data(u) if v is None else m.get_edge_data(u, v)
            r = self._cmp_data(d2, self.e[k])
            if r:
                return "%s: data of edge (%s, %s): %s" % (where, u, v, r)
        return None

    @staticmethod
    def _cmp_data(d, e):
        if set(d["fault_ids"]) != set(e[0]):
            return "fault ids %s instead of %s" % (set(d["fault_ids"]), set(e[0]))
        if not close(d["weight"], e[1]):
            return "weight %r instead of %r" % (d["weight"], e[1])
        p = d["error_probability"]
        if valid_p(p) != valid_p(e[2]) or (valid_p(p) and abs(p - e[2]) > 1e-12):
            return "error probability %r instead of %r" % (p, e[2])
        return None

    def describe(self):
        return "n=%d k=%d boundary=%s %s" % (self.n, self.k, sorted(self.boundary), " ".join(
            "(%s,%s):w%g p%g f%s" % (u, "B" if v is None else v, w, p, sorted(o)) for (u, v), (o, w, p) in self.e.items()))


class Table:
    """Minimum weight over all edge sets for every (syndrome, fault vector), by dynamic programming."""

    def __init__(self, n, k, edges, all_weights=None):
        self.n, self.k = n, k
        self.edges = edges
        size = 1 << (n + k)
        d = np.full(size, np.inf)
        d[0] = 0.0
        ar = np.arange(size)
        for u, v, obs, w in edges:
            m = (1 << u)
            if v is not None:
                m ^= 1 << v
            for o in obs:
                m ^= 1 << (n + o)
            d = np.minimum(d, d[ar ^ m] + w)
        self.d = d.reshape(1 << k, 1 << n)
        self.best = self.d.min(axis=0)
        ws = [abs(w) for w in (all_weights if all_weights is not None else [e[3] for e in edges])]  # the discretisation step follows the largest weight
        self.tol = 1e-9 if all(float(w).is_integer() for w in ws) else (len(ws) + 1) * max(ws) / 2 ** 23

    def weight(self, s):
        return self.best[s]

    def optimal(self, s, o):
        return abs(self.d[o, s] - self.best[s]) <= self.tol

    def same_weight(self, s, w):
        return abs(w - self.best[s]) <= self.tol


def bits(s, n):
    return [(s >> i) & 1 for i in range(n)]


def to_int(bv):
    return sum(int(b) << i for i, b in enumerate(bv))
