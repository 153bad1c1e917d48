"""An in-memory graph with the client API, answering from a model and recording calls."""
import numpy as np
from deepgnn.graph_engine._base import Graph


class ModelGraph(Graph):
    """adj: {node: [(dst, type, weight)]}; sampling is a deterministic choice that depends on the position."""

    def __init__(self, adj, salt=0):
        self.adj = {int(k): sorted((int(t), int(d), float(w)) for d, t, w in v) for k, v in adj.items()}
        self.salt = salt
        self.calls = []

    def out(self, node, types):
        ts = {int(x) for x in np.asarray(types).reshape(-1)}
        return [(d, w, t) for t, d, w in self.adj.get(int(node), []) if t in ts]

    def neighbors(self, nodes, edge_types, *a, **k):
        nodes = np.asarray(nodes)
        self.calls.append(("neighbors", nodes.copy(), np.asarray(edge_types).copy()))
        rows = [self.out(n, edge_types) for n in nodes]
        flat = [x for r in rows for x in r]
        return (
            np.array([x[0] for x in flat], dtype=np.int64),
            np.array([x[1] for x in flat], dtype=np.float32),
            np.array([x[2] for x in flat], dtype=np.int32),
            np.array([len(r) for r in rows], dtype=np.uint64),
        )

    def sample_neighbors(self, nodes, edge_types, count=10, strategy="byweight", default_node=-1, *a, **k):
        nodes = np.asarray(nodes)
        self.calls.append(("sample_neighbors", nodes.copy(), np.asarray(edge_types).copy(), count, strategy, default_node))
        ids = np.full((len(nodes), count), default_node, dtype=np.int64)
        ws = np.zeros((len(nodes), count), dtype=np.float32)
        ts = np.full((len(nodes), count), -1, dtype=np.int32)
        for i, n in enumerate(nodes):
            r = self.out(n, edge_types)
            for j in range(count):
                if r:
                    ids[i, j], ws[i, j], ts[i, j] = r[(i * 7 + j * 3 + self.salt) % len(r)]
        return ids, ws, ts, None

    def edge_features(self, edges, features, feature_type=np.float32, **k):
        edges = np.asarray(edges)
        self.calls.append(("edge_features", edges.copy(), np.asarray(features).copy(), feature_type))
        dim = int(np.asarray(features)[:, 1].sum())
        out = np.zeros((len(edges), dim), dtype=feature_type)
        for i, e in enumerate(edges):
            for j in range(dim):
                out[i, j] = (int(e[0]) * 5 + int(e[1]) * 3 + int(e[2]) + j) % 100
        return out


ModelGraph.__abstractmethods__ = frozenset()
