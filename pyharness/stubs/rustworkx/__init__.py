"""The part of rustworkx.PyGraph that PyMatching uses (rustworkx itself is not available offline)."""


class PyGraph:
    def __init__(self, multigraph=True):
        self.multigraph = multigraph
        self._nodes = []
        self._edges = []  # (u, v, payload)
        self._first = {}  # unordered pair -> its first edge

    def add_node(self, obj):
        self._nodes.append(obj)
        return len(self._nodes) - 1

    def add_nodes_from(self, objs):
        return [self.add_node(o) for o in objs]

    def add_edge(self, u, v, data):
        n = len(self._nodes)
        if not (0 <= u < n and 0 <= v < n):
            raise IndexError("One of the endpoints of the edge does not exist in graph")
        i = self._first.get(frozenset((u, v)))
        if i is not None and not self.multigraph:
            self._edges[i] = self._edges[i][:2] + (data,)
            return i
        self._first.setdefault(frozenset((u, v)), len(self._edges))
        self._edges.append((u, v, data))
        return len(self._edges) - 1

    def add_edges_from(self, edges):
        return [self.add_edge(*e) for e in edges]

    def extend_from_weighted_edge_list(self, edges):
        for u, v, d in edges:
            while len(self._nodes) <= max(u, v):
                self._nodes.append(None)
            self.add_edge(u, v, d)

    def node_indices(self):
        return list(range(len(self._nodes)))

    def node_indexes(self):
        return self.node_indices()

    def nodes(self):
        return list(self._nodes)

    def edges(self):
        return [e[2] for e in self._edges]

    def num_nodes(self):
        return len(self._nodes)

    def num_edges(self):
        return len(self._edges)

    def edge_list(self):
        return [e[:2] for e in self._edges]

    def weighted_edge_list(self):
        return list(self._edges)

    def has_edge(self, u, v):
        return frozenset((u, v)) in self._first

    def get_edge_data(self, u, v):
        return self._edges[self._first[frozenset((u, v))]][2]

    def __getitem__(self, i):
        return self._nodes[i]

    def __setitem__(self, i, v):
        self._nodes[i] = v

    def __len__(self):
        return len(self._nodes)
