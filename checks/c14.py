"""C14: subgraphs, out-edges and skip-grams built from the graph contain exactly what they should."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require

vp.silence_logging()
from collections import Counter

import numpy as np
from stubgraph import ModelGraph
from deepgnn.graph_engine import graph_ops as ops

c = Check(
    "C14",
    "a case is a generated multigraph with seed nodes, edge types and options (hops 1-6, self loops, undirected, adjacency or edges) or a batch of paths with left and right windows 0-5. "
    "Oracles: breadth-first model of the subgraph, brute force pairs of positions, real edges of the model. "
    "Non-trivial: a subgraph with at least two edges, skip-grams with different windows, sampled edges with at least one real edge.",
)
IDS = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(2**40, 2**40 + 3))


@st.composite
def graph(draw):
    ids = draw(st.lists(IDS, min_size=1, max_size=9, unique=True))
    nt = draw(st.integers(1, 3))
    edges = draw(st.lists(st.tuples(st.sampled_from(ids), st.sampled_from(ids + [77]), st.integers(0, nt - 1)), max_size=20))
    if draw(st.booleans()):
        # a long path, where every hop adds a node
        edges = [(a, b, draw(st.sampled_from([0, 0, nt - 1]))) for a, b in zip(ids, ids[1:])] + edges[:3]
    return {"ids": ids, "nt": nt, "edges": [list(e) for e in edges]}


def build(g, salt=0):
    adj = {i: [] for i in g["ids"]}
    for a, b, t in g["edges"]:
        adj[a].append((b, t, 1.0 + t))
    return ModelGraph(adj, salt)


@st.composite
def sub_cases(draw):
    g = draw(graph())
    return {
        "g": g,
        "src": draw(st.lists(st.sampled_from(g["ids"] + [99]), min_size=1, max_size=5)),
        "types": draw(st.lists(st.integers(0, g["nt"]), min_size=1, max_size=3, unique=True)),
        "hops": draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 6])),
        "loop": draw(st.booleans()),
        "und": draw(st.booleans()),
        "as_edges": draw(st.booleans()),
    }


def sub_body(case, d):
    m = build(case["g"])
    src = np.array(case["src"], dtype=np.int64)
    types = np.array(case["types"], dtype=np.int32)
    with sut("sub_graph"):
        nodes, adj, idx = ops.sub_graph(m, src, types, case["hops"], case["loop"], case["und"], case["as_edges"])
    # nodes within hops - 1 steps, and all their edges
    inner, front = set(case["src"]), set(case["src"])
    for _ in range(case["hops"] - 1):
        front = {x for n in front for x, _, _ in m.out(n, types)}
        inner |= front
    edges = [(n, x) for n in inner for x, _, _ in m.out(n, types)]
    all_nodes = sorted(inner_nodes(case, edges))
    equal(nodes.tolist(), all_nodes, "nodes of the subgraph")
    equal([nodes[i] for i in np.asarray(idx).reshape(-1)], case["src"], "indices of seed nodes")
    pos = {n: i for i, n in enumerate(all_nodes)}
    pairs = Counter((pos[a], pos[b]) for a, b in edges)
    n = len(all_nodes)
    if case["as_edges"]:
        got = Counter(tuple(int(y) for y in x) for x in adj)
        want = pairs
        if case["und"]:
            want = want + Counter((b, a) for (a, b), k in pairs.items() for _ in range(k))
        if case["loop"]:
            want = want + Counter((i, i) for i in range(n))
        if case["und"] or case["loop"]:
            want = Counter(set(want))
        require(got == want, lambda: f"edges: missing {dict(want - got)}, unexpected {dict(got - want)}")
    else:
        equal(adj.shape, (n, n), "shape of adjacency")
        for i in range(n):
            for j in range(n):
                there = (i, j) in pairs or (case["und"] and (j, i) in pairs)
                if i == j and case["loop"]:
                    require(adj[i, j] >= 1, f"self loop {i} missing")
                else:
                    equal(float(adj[i, j]), 1.0 if there else 0.0, f"adjacency of {all_nodes[i]} and {all_nodes[j]}")
    if len(edges) > 1:
        c.note(("sub", case))


def inner_nodes(case, edges):
    return set(case["src"]) | {a for a, _ in edges} | {b for _, b in edges}


@st.composite
def gram_cases(draw):
    rows, cols = draw(st.integers(0, 3)), draw(st.integers(1, 7))
    return {
        "paths": [[draw(st.integers(-1, 9)) for _ in range(cols)] for _ in range(rows)],
        "cols": cols,
        "left": draw(st.integers(0, 5)),
        "right": draw(st.integers(0, 5)),
    }


def gram_body(case, d):
    L, R, n = case["left"], case["right"], case["cols"]
    paths = np.array(case["paths"], dtype=np.int64).reshape(-1, n)
    want = [(p[j], p[k]) for p in case["paths"] for j in range(n) for k in range(n) if k != j and -L <= k - j <= R]
    with sut("gen_skipgrams"):
        got = ops.gen_skipgrams(paths, L, R)
    equal(got.shape, (len(want), 2), "shape of pairs")
    equal(Counter(map(tuple, got.tolist())), Counter(want), "skip-gram pairs")
    # pairs of a path stay together in order of paths
    per = len(want) // len(case["paths"]) if case["paths"] else 0
    for i, p in enumerate(case["paths"]):
        equal(Counter(map(tuple, got[i * per : (i + 1) * per].tolist())), Counter(want[i * per : (i + 1) * per]), f"pairs of path {i}")
    with sut("get_skipgrams_size"):
        equal(ops.get_skipgrams_size(n, L, R), sum(1 for j in range(n) for k in range(n) if k != j and -L <= k - j <= R), "announced number of pairs")
    if L != R and case["paths"] and n > 2:
        c.note(("gram", case))


@st.composite
def edge_cases(draw):
    g = draw(graph())
    return {
        "g": g,
        "src": draw(st.lists(st.sampled_from(g["ids"] + [99]), min_size=1, max_size=6)),
        "types": draw(st.lists(st.integers(0, g["nt"]), min_size=1, max_size=3, unique=True)),
        "count": draw(st.integers(1, 4)),
        "strategy": draw(st.sampled_from(["byweight", "random", "topk", "randomwithoutreplacement"])),
        "feat": draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 3), st.integers(1, 3)).map(list), min_size=1, max_size=2))),
        "dtype": draw(st.sampled_from(["float32", "int64", "uint8"])),
        "salt": draw(st.integers(0, 20)),
    }


def edge_body(case, d):
    m = build(case["g"], case["salt"])
    src = np.array(case["src"], dtype=np.int64)
    types = np.array(case["types"], dtype=np.int32)
    meta = None if case["feat"] is None else np.array(case["feat"], dtype=np.int32)
    dt = np.dtype(case["dtype"])
    with sut("sample_out_edges"):
        edges, feat = ops.sample_out_edges(m, src, types, case["count"], case["strategy"], meta, dt)
    equal(edges.shape, (len(src) * case["count"], 3), "shape of edges")
    call = m.calls[0]
    equal((call[0], call[1].tolist(), call[2].tolist(), call[3], call[4]),
          ("sample_neighbors", case["src"], case["types"], case["count"], case["strategy"]), "query")
    real = 0
    for i, (a, b, t) in enumerate(edges.tolist()):
        equal(a, case["src"][i // case["count"]], f"source of edge {i}")
        out = m.out(a, types)
        if out:
            require((b, 1.0 + t, t) in out, f"edge {(a, b, t)} does not exist")
            real += 1
    if meta is None:
        require(feat is None, "features without being asked for")
    else:
        want = ModelGraph({}).edge_features(edges, meta, dt)
        require(feat.dtype == dt and np.array_equal(feat, want), "features belong to other edges")
    if real:
        c.note(("edge", case))


c.campaign("sub_graph", sub_cases(), sub_body, 3000, 20000)
c.campaign("skipgrams", gram_cases(), gram_body, 1600, 10000)
c.campaign("out_edges", edge_cases(), edge_body, 1200, 8000)

if __name__ == "__main__":
    c.main()
