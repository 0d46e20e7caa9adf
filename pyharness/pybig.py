"""Large graphs for the Python explorers: ladders, chains and rings of hundreds of nodes, an exact minimum by a frontier
dynamic program, and enumerated weightings and syndromes on them."""
import math
import numpy as np
from pymatching import Matching
from pyexplore import fail
from pyref import RefGraph


def seq(s, k):
    """The s-th quadratic sequence modulo 1009."""
    a, b = 1 + s * 211 % 1008, (s * 101 + s // 7) % 1009
    return (a * k * k + b * k) % 1009


class Frontier:
    """Minimum weight of an edge set with a given set of odd nodes, for every parity vector of `nobs` tracked observables.
    edges: (u, v or None, weight, tracked mask). Works while few nodes are open at a time."""

    def __init__(self, n, edges, nobs=0, width=12):
        self.n, self.nobs = n, nobs
        last = list(range(n))
        at = [[] for _ in range(n)]
        for u, v, w, o in edges:
            hi = u if v is None else max(u, v)
            at[hi].append((u, v, w, o))
            last[u] = max(last[u], hi)
            if v is not None:
                last[v] = max(last[v], hi)
        closes = [[] for _ in range(n)]
        for i in range(n):
            closes[last[i]].append(i)
        slot, free, self.slots, steps = {}, [], 0, []
        for i in range(n):
            if free:
                slot[i] = free.pop()
            else:
                slot[i] = self.slots
                self.slots += 1
                if self.slots > width:
                    raise RuntimeError("frontier too wide")
            for u, v, w, o in at[i]:
                x = 0 if u == v else (1 << slot[u]) ^ (0 if v is None else 1 << slot[v])
                steps.append((0, x, o, w))
            for j in closes[i]:
                steps.append((1, slot[j], j, 0))
                free.append(slot[j])
        size = 1 << (self.slots + nobs)
        ar = np.arange(size)
        self.size = size
        self.steps = []
        perm = {}
        for k, a, b, w in steps:
            if k == 0:
                x = a | b << self.slots
                if x not in perm:
                    perm[x] = ar ^ x
                self.steps.append((0, perm[x] if x else None, w))
            else:
                lo = ar[(ar >> a & 1) == 0]
                self.steps.append((1, (lo, lo | 1 << a), b))

    def solve(self, fired):
        """Array over tracked parity vectors; inf where no edge set exists."""
        fired = set(fired)
        d = np.full(self.size, np.inf)
        d[0] = 0.0
        for k, a, b in self.steps:
            if k == 0:
                if a is None:
                    d = d + min(0.0, b)
                else:
                    d = np.minimum(d, d[a] + b)
            else:
                lo, hi = a
                if b in fired:
                    d[lo] = d[hi]
                d[hi] = np.inf
        return d[::1 << self.slots].copy()


def ladder(n, shape, lo=1, wm=5, kind=0, boundary="virtual", scale=1.0):
    """A list of (u, v or None, weight): two rails with rungs and (kind 1) diagonals, (kind 2) a chain, (kind 3) a ring."""
    es = []
    if kind in (0, 1):
        for i in range(n):
            if i + 2 < n:
                es.append((i, i + 2))
            if i % 2 == 0 and i + 1 < n:
                es.append((i, i + 1))
            if kind == 1 and i + 3 < n and i % 3 == 0:
                es.append((i, i + 3))
    else:
        es = [(i, i + 1) for i in range(n - 1)]
        if kind == 3:
            es.append((0, n - 1))
    if boundary == "virtual":
        es += [(0, None), (n - 1, None), (n // 2, None)]
    elif boundary == "many":
        es += [(i, None) for i in range(0, n, 5)]
    return [(u, v, (lo + seq(shape, k) % wm) * scale) for k, (u, v) in enumerate(es)]


def syndromes(n, shape, count, densities=(3, 25, 60)):
    out = [[], list(range(n)), [0, n - 1], [n // 2]]
    for d in densities:
        for s in range(count):
            out.append([i for i in range(n) if seq(shape * 31 + s, i) * 100 < d * 1009])
    return out


def vec(n, fired, dtype=np.uint8):
    z = np.zeros(n, dtype=dtype)
    z[fired] = 1
    return z


class BigOracle:
    """g: RefGraph. Judges predictions when fault ids identify edges (unique) or through tracked parities."""

    def __init__(self, g, tracked=()):
        self.g, self.tracked = g, list(tracked)
        es = []
        for u, v, obs, w in g.flat():
            m = sum(1 << j for j, t in enumerate(self.tracked) if t in obs)
            es.append((u, v, w, m))
        self.es = es
        ws = [abs(e[2]) for e in es]
        self.tol = 1e-9 if all(float(w).is_integer() for w in ws) else (len(ws) + 1) * max(ws) / 2 ** 22
        self.f = Frontier(g.n, es, len(self.tracked))
        self.memo = {}
        self.pair = {}
        for u, v, w, m in es:
            k = (u, None) if v is None else (min(u, v), max(u, v))
            self.pair[k] = min(w, self.pair.get(k, math.inf))

    def best(self, fired):
        k = tuple(fired)
        if k not in self.memo:
            self.memo[k] = self.f.solve([x for x in fired if x not in self.g.boundary])
        return self.memo[k]

    def check_prediction(self, fired, c, w, where):
        by = self.best(fired)
        b = float(by.min())
        if b == math.inf:
            fail("%s: a syndrome without explanation was decoded" % where)
        if abs(w - b) > self.tol:
            fail("%s: weight %r instead of %r" % (where, w, b))
        if len(c) != self.g.k:
            fail("%s: %d predictions for %d fault ids" % (where, len(c), self.g.k))
        if self.tracked:
            o = sum(1 << j for j, t in enumerate(self.tracked) if c[t])
            if abs(float(by[o]) - b) > self.tol:
                fail("%s: predicted fault ids %s need weight %r, minimum %r" % (where, [t for t in self.tracked if c[t]], float(by[o]), b))
            used = {t for e in self.g.e.values() for t in e[0]}
            for t in np.nonzero(c)[0].tolist():
                if t not in used:
                    fail("%s: fault id %d, which no edge has, is predicted" % (where, t))
        else:  # every edge has one fault id of its own
            tot, syn = 0.0, set()
            for (u, v), (obs, ww, p) in self.g.e.items():
                for t in obs:
                    if c[t]:
                        tot += ww
                        syn ^= {u} if v is None else {u} ^ {v}
            if syn - self.g.boundary != set(fired) - self.g.boundary or abs(tot - b) > self.tol:
                fail("%s: predicted fault ids weigh %r (minimum %r) or do not give the syndrome" % (where, tot, b))

    def check_edges(self, fired, ed, where):
        b = float(self.best(fired).min())
        tot, syn, seen = 0.0, set(), set()
        if ed.ndim != 2 or ed.shape[1] != 2:
            fail("%s: edge array of shape %s" % (where, ed.shape))
        for u, v in ed.tolist():
            k = (u, None) if v == -1 else (min(u, v), max(u, v))
            if k not in self.pair or k in seen:
                fail("%s: unknown or repeated edge (%d, %d)" % (where, u, v))
            seen.add(k)
            tot += self.pair[k]
            syn ^= {u} if v == -1 else {u} ^ {v}
        if syn != set(fired) - self.g.boundary:
            fail("%s: the edges do not have the syndrome" % where)
        if abs(tot - b) > self.tol:
            fail("%s: the edges weigh %r instead of %r" % (where, tot, b))

    def distances(self):
        n = self.g.n
        import heapq
        adj = [[] for _ in range(n + 1)]
        for (u, v), w in self.pair.items():
            v = n if v is None else v
            adj[u].append((v, w))
            if v != n:
                adj[v].append((u, w))
        D = []
        for s in range(n):
            d = [math.inf] * (n + 1)
            d[s] = 0
            q = [(0, s)]
            while q:
                x, u = heapq.heappop(q)
                if x > d[u] or u == n:
                    continue
                for v, w in adj[u]:
                    if x + w < d[v]:
                        d[v] = x + w
                        heapq.heappush(q, (d[v], v))
            D.append(d)
        return D

    def check_pairs(self, fired, ma, md, D, where):
        b = float(self.best(fired).min())
        ends, tot, d2 = [], 0.0, {}
        for x, y in ma.tolist():
            ends.append(x)
            d2[x] = None if y == -1 else y
            if y != -1:
                ends.append(y)
                d2[y] = x
            tot += D[x][self.g.n if y == -1 else y]
        if sorted(ends) != sorted(set(fired) - self.g.boundary):
            fail("%s: the pairs are not the detection events" % where)
        if abs(tot - b) > self.tol:
            fail("%s: the pairs have total distance %r instead of %r" % (where, tot, b))
        if md is not None and md != d2:
            fail("%s: dictionary and array of pairs differ" % where)


def graph(n, shape, kind=0, boundary="virtual", lo=1, wm=5, scale=1.0, obs="unique", k=None, p=None):
    """RefGraph of a ladder. obs: 'unique' (edge j has fault id j) or a list of three tracked ids; boundary 'explicit'
    adds node n, 'two' adds nodes n and n + 1, marked as boundary."""
    es = ladder(n, shape, lo, wm, kind, "none" if boundary in ("explicit", "two", "none") else boundary, scale)
    if boundary == "explicit":
        es += [(0, n, lo + 2), (n - 1, n, lo + 3), (n // 3, n, lo + 1)]
    if boundary == "two":
        es += [(0, n, lo + 2), (n - 1, n + 1, lo + 3), (n // 3, n, lo + 1), (n // 2, n + 1, lo + 4)]
    g = RefGraph()
    for j, (u, v, w) in enumerate(es):
        if obs == "unique":
            o = {j}
        else:
            h = (j * 2654435761 >> 13) & 7
            o = {obs[i] for i in range(3) if h >> i & 1}
        g.add(u, v, o, w, -1 if p is None else p(j))
    if k:
        g.k = max(g.k, k)
    if boundary == "explicit":
        g.set_boundary({n})
    if boundary == "two":
        g.set_boundary({n, n + 1})
    return g


HUGE = [(70001, None), (70001, (0, 33000, 69999)), (65536, (0, 65535, 65536)), (65537, None)]


class Chain:
    """A chain of n detectors with a boundary edge at either end: edge j joins node j - 1 to node j. Every syndrome has
    exactly two edge sets, so the optimum is known at any size."""

    def __init__(self, n, shape, tracked=None):
        self.n, self.tracked, self.tol = n, tracked, 0.0
        j = np.arange(n + 1, dtype=np.int64)
        self.w = (1 + seq(shape, j % 1009) % 5).astype(float)
        if tracked is None:
            self.obs = [(k,) for k in range(n + 1)]
            self.k = n + 1
        else:
            h = (j * 2654435761 >> 13) & 7
            sets = [tuple(t for b, t in enumerate(tracked) if x >> b & 1) for x in range(8)]
            self.obs = [sets[x] for x in h.tolist()]
            self.hash = h
            self.k = max(tracked) + 1
        self.ends = [(k, None) if k == 0 else (n - 1, None) if k == n else (k - 1, k) for k in range(n + 1)]

    def ref(self, p=None):
        g = RefGraph()
        for k, (u, v) in enumerate(self.ends):
            g.add(u, v, self.obs[k], float(self.w[k]), -1 if p is None else p(k))
        return g

    def syndromes(self):
        n = self.n
        out = [[], [0], [n - 1], [0, n - 1], [n // 2, n // 2 + 1], [255, 256, n // 3, n - 2], [i for i in range(n) if seq(3, i % 1009) < 250]]
        if n > 65540:
            out += [[65535, 65536], [65535], [65536], [65533, 65534, 65536, 65539], [i for i in range(0, n, 1777)]]
        return out

    def solutions(self, fired):
        x = np.concatenate([[0], np.cumsum(vec(self.n, fired, np.int64)) % 2])
        a, b = float(self.w @ x), float(self.w @ (1 - x))
        return ([x] if a <= b + self.tol else []) + ([1 - x] if b <= a + self.tol else []), min(a, b)

    def predictions(self, fired):
        sols, w = self.solutions(fired)
        if self.tracked is None:
            return [s.astype(np.uint8) for s in sols], w
        out = []
        for s in sols:
            z = np.zeros(self.k, dtype=np.uint8)
            for b, t in enumerate(self.tracked):
                z[t] = int((s * (self.hash >> b & 1)).sum()) % 2
            out.append(z)
        return out, w

    def check_prediction(self, fired, c, w, where):
        want, b = self.predictions(fired)
        if w is not None and abs(w - b) > max(self.tol, 1e-9 * max(1, b)):
            fail("%s: weight %r instead of %r" % (where, w, b))
        c = np.asarray(c)
        if c.shape != (self.k,):
            fail("%s: predictions of shape %s for %d fault ids" % (where, c.shape, self.k))
        if not any((c == x).all() for x in want):
            fail("%s: the prediction differs from the optimum at fault ids %s" % (where, np.nonzero(c != want[0])[0][:10].tolist()))

    def check_edges(self, fired, ed, where):
        got = sorted((int(u), int(v)) if v == -1 or u < v else (int(v), int(u)) for u, v in np.asarray(ed).tolist())
        for s in self.solutions(fired)[0]:
            if got == sorted((self.ends[k][0], -1 if self.ends[k][1] is None else self.ends[k][1]) for k in np.nonzero(s)[0].tolist()):
                return
        fail("%s: the edges are not an optimal edge set" % where)

    def check_pairs(self, fired, ma, md, where):
        pos = np.concatenate([[0.0], np.cumsum(self.w)])  # node k lies at pos[k + 1], the boundary at pos[0] and at the end
        ends, tot, d2 = [], 0.0, {}
        for x, y in np.asarray(ma).tolist():
            ends.append(x)
            d2[x] = None if y == -1 else y
            if y == -1:
                tot += min(pos[x + 1], pos[-1] - pos[x + 1])
            else:
                ends.append(y)
                d2[y] = x
                tot += abs(pos[x + 1] - pos[y + 1])
        if sorted(ends) != sorted(fired):
            fail("%s: the pairs are not the detection events" % where)
        if abs(tot - self.solutions(fired)[1]) > max(self.tol, 1e-6):
            fail("%s: the pairs have total distance %r" % (where, tot))
        if md is not None and md != d2:
            fail("%s: dictionary and array of pairs differ" % where)

    def model(self):
        """The chain as a detector error model whose weights are self.w up to rounding."""
        self.tol = 6.0 * (self.n + 1) / 2 ** 22
        out = []
        for k, (u, v) in enumerate(self.ends):
            out.append("error(%r) D%d%s%s" % (1 / (1 + math.exp(float(self.w[k]))), u, "" if v is None else " D%d" % v, "".join(" L%d" % o for o in self.obs[k])))
        return "\n".join(out) + "\nlogical_observable L%d\n" % (self.k - 1)

    def matching(self):
        m = Matching()
        for k, (u, v) in enumerate(self.ends):
            if v is None:
                m.add_boundary_edge(u, fault_ids=set(self.obs[k]), weight=float(self.w[k]))
            else:
                m.add_edge(u, v, fault_ids=set(self.obs[k]), weight=float(self.w[k]))
        return m
