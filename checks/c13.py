"""C13: multi-hop queries expand exactly along the edges of the graph."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require

vp.silence_logging()
import numpy as np
from stubgraph import ModelGraph
from deepgnn.graph_engine.multihop import sample_fanout, get_neighbor

c = Check(
    "C13",
    "a case is a generated multigraph (1-9 nodes, 1-3 edge types, possibly negative or huge ids, dead ends), seed nodes with "
    "repetitions, 1-3 hops each with its own edge types and fan-out. sample_fanout: shapes, and every sampled child is a real edge of its "
    "parent with matching weight and type or the default node; get_neighbor: the sparse adjacency of every hop holds exactly "
    "the edges between consecutive layers with their weights, layers are the distinct neighbors, padding is zero, too small a bound is refused. "
    "Non-trivial: at least one edge is followed on the second hop or later.",
)
IDS = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(2**40, 2**40 + 3))


@st.composite
def graph(draw):
    ids = draw(st.lists(IDS, min_size=1, max_size=9, unique=True))
    nt = draw(st.integers(1, 3))
    edges = draw(
        st.lists(st.tuples(st.sampled_from(ids), st.sampled_from(ids + [77]), st.integers(0, nt - 1), st.integers(1, 16)), max_size=24)
    )
    return {"ids": ids, "nt": nt, "edges": [[a, b, t, w / 4] for a, b, t, w in edges]}


def build(g, salt=0):
    adj = {i: [] for i in g["ids"]}
    for a, b, t, w in g["edges"]:
        adj[a].append((b, t, w))
    return ModelGraph(adj, salt)


@st.composite
def cases(draw):
    g = draw(graph())
    hops = draw(st.integers(1, 3))
    return {
        "g": g,
        "nodes": draw(st.lists(st.sampled_from(g["ids"] + [99]), min_size=1, max_size=5)),
        "types": [draw(st.lists(st.integers(0, g["nt"]), min_size=1, max_size=3, unique=True)) for _ in range(hops)],
        "counts": [draw(st.integers(1, 4)) for _ in range(hops)],
        "default": draw(st.sampled_from([-1, 0, 1, 12345])),
        "strategy": draw(st.sampled_from(["byweight", "random", "topk", "randomwithoutreplacement"])),
        "salt": draw(st.integers(0, 20)),
        "limit": draw(st.integers(1, 30)),
        "two_d": draw(st.booleans()),
    }


def fanout_body(case, d):
    m = build(case["g"], case["salt"])
    nodes = np.array(case["nodes"], dtype=np.int64)
    if case["two_d"]:
        nodes = nodes.reshape(1, -1)
    with sut("sample_fanout"):
        nbs, ws, ts = sample_fanout(m, nodes, case["types"], case["counts"], case["default"], case["strategy"])
    hops = len(case["counts"])
    equal((len(nbs), len(ws), len(ts)), (hops + 1, hops, hops), "number of layers")
    equal(nbs[0].tolist(), case["nodes"], "first layer")
    followed = False
    for h in range(hops):
        parents, kids, k = nbs[h], nbs[h + 1], case["counts"][h]
        for arr in (kids, ws[h], ts[h]):
            equal(arr.shape, (len(parents) * k,), f"shape of hop {h}")
        call = m.calls[h]
        equal((call[1].tolist(), sorted(call[2].tolist()), call[3], call[4], call[5]),
              (parents.tolist(), sorted(case["types"][h]), k, case["strategy"], case["default"]), f"query of hop {h}")
        for i, x in enumerate(kids):
            p = parents[i // k]
            out = m.out(p, case["types"][h])
            if out:
                require((int(x), float(ws[h][i]), int(ts[h][i])) in out, f"hop {h}: {x} is not sampled from neighbors of {p}")
                followed |= h > 0
            else:
                equal(int(x), case["default"], f"hop {h}: neighbor of a dead end")
    equal(len(m.calls), hops, "number of queries")
    if followed:
        c.note(("f", case))


def neighbor_body(case, d):
    m = build(case["g"])
    types = [np.array(t, dtype=np.int32) for t in case["types"]]
    mx = case["limit"]
    # reference layers
    layer, size, want, refused = list(case["nodes"]), len(case["nodes"]), [], False
    for t in types:
        edges = [(i, x, w) for i, n in enumerate(layer) for x, w, _ in m.out(n, t)]
        if len(edges) > mx * size:
            refused = True
            break
        nxt = sorted({x for _, x, _ in edges})
        want.append((layer, nxt, edges, size))
        layer, size = nxt, mx * size
        if size > 200000:
            return
    try:
        with sut("get_neighbor"):
            try:
                nodes, adjs = get_neighbor(m, np.array(case["nodes"], dtype=np.int64), types, mx)
            except UserWarning:
                require(refused, "refused although neighbors fit into the limit")
                c.note(("n", case))
                return
    except vp.Violation:
        raise
    require(not refused, "neighbors don't fit into the limit, but were accepted")
    equal((len(nodes), len(adjs)), (len(types) + 1, len(types)), "number of layers")
    equal(nodes[0][0].tolist(), case["nodes"], "first layer")
    equal(nodes[0][1].tolist(), [len(case["nodes"])], "size of the first layer")
    followed = False
    for h, (layer, nxt, edges, size) in enumerate(want):
        vals, n = nodes[h + 1]
        equal(n.tolist(), [len(nxt)], f"size of layer {h + 1}")
        equal(vals.shape, (mx * size,), f"padded size of layer {h + 1}")
        equal(vals[: len(nxt)].tolist(), nxt, f"nodes of layer {h + 1}")
        require(not vals[len(nxt) :].any(), f"padding of layer {h + 1}")
        ind, w, shape, cnt = adjs[h]
        equal(ind.shape, (mx * size, 2), f"padded indices of hop {h}")
        equal(w.shape, (mx * size,), f"padded weights of hop {h}")
        equal(cnt.tolist(), [len(edges)], f"number of edges of hop {h}")
        equal(shape.tolist(), [len(layer), len(nxt)], f"shape of adjacency {h}")
        got = sorted((int(a), nxt[int(b)] if int(b) < len(nxt) else None, float(x)) for (a, b), x in zip(ind[: len(edges)], w[: len(edges)]))
        equal(got, sorted(edges), f"edges of hop {h}")
        require(not ind[len(edges) :].any() and not w[len(edges) :].any(), f"padding of adjacency {h}")
        followed |= h > 0 and bool(edges)
    if followed:
        c.note(("n", case))


c.campaign("sample_fanout", cases(), fanout_body, 2500, 20000)
c.campaign("get_neighbor", cases(), neighbor_body, 2500, 20000)

if __name__ == "__main__":
    c.main()
