"""C36: encoders of graph networks give each node what its own neighbourhood determines."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketorch as torch

torch.install()
with sut("importing the encoders"):
    from deepgnn.graph_engine._base import Graph
    from deepgnn.pytorch.common.aggregators import MeanAggregator
    from deepgnn.pytorch.encoding.gnn_encoder_hetgnn import HetGnnEncoder
    from deepgnn.pytorch.encoding.gnn_encoder_lgcl import LgclEncoder
    from deepgnn.pytorch.encoding.gnn_encoder_lightgcn import LightGCNEncoder
    from deepgnn.pytorch.encoding.gnn_encoder_sage import SageEncoder
    from deepgnn.pytorch.nn.gat_conv import GATConv

c = Check(
    "C36",
    "a case of 'sage' is a graph with features, a batch of nodes, one or two layers with numbers of neighbors, and dimensions; what encoders of a stand-in for torch "
    "compute from their own queries must be the definition evaluated for each node alone with the neighbors the graph gave. A case of 'layers' is an encoder over sampled neighbors "
    "(light, learnable or heterogeneous convolution) and a batch: each row must be the output for that node alone. A case of 'attention' is features and an adjacency matrix: dense and sparse "
    "forms must agree, permuted nodes give permuted rows, nodes without a link do not count, and averaged heads are the mean of concatenated ones. Non-trivial: more than one node.",
    assumptions=("torch is replaced by a stand-in computing with numpy; comparison within 1e-4", "every node has a link in the matrix"),
)


def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    equal(a.shape, b.shape, f"shape of {what}")
    require(np.allclose(a, b, rtol=1e-4, atol=1e-4), f"{what}: got {vp.short(a.tolist(), 300)}, expected {vp.short(b.tolist(), 300)}")


def numbers(seed, *shape):
    return np.random.default_rng(seed).integers(-8, 9, size=shape).astype(np.float32) / 4


class Links(Graph):
    """Neighbors are chosen by node and position; features are drawn for every (node, feature)."""

    def __init__(self, case):
        self.case = case
        self.features = numbers(case["seed"], case["n"], case["dim"])

    def near(self, node, types, count):
        own = self.case["links"][int(node)]
        own = [d for t, d in own if t in types] or [int(node)]
        return [own[(j * 3 + int(node)) % len(own)] for j in range(count)]

    def sample_neighbors(self, nodes, edge_types, count=10, *a, **k):
        types = set(np.asarray(edge_types).reshape(-1).tolist())
        ids = np.array([self.near(x, types, count) for x in np.asarray(nodes)], dtype=np.int64).reshape(len(nodes), count)
        return ids, np.ones(ids.shape, np.float32), np.zeros(ids.shape, np.int32), None

    def node_features(self, nodes, features, feature_type):
        equal(np.asarray(features).tolist(), [[self.case["feature"], self.case["dim"]]], "features asked")
        return self.features[np.asarray(nodes)].astype(feature_type)


Links.__abstractmethods__ = frozenset()


@st.composite
def sage_cases(draw):
    n = draw(st.integers(1, 8))
    link = st.tuples(st.integers(0, 1), st.integers(0, n - 1)).map(list)
    return {
        "n": n, "links": [draw(st.lists(link, max_size=5)) for _ in range(n)], "batch": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6)),
        "dim": draw(st.integers(1, 4)), "out": [draw(st.integers(1, 4)) for _ in range(2)], "counts": [draw(st.integers(1, 4)) for _ in range(2)],
        "type": draw(st.integers(0, 1)), "feature": draw(st.integers(0, 3)), "layers": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 10**6)),
        "act": draw(st.sampled_from(["relu", "leaky_relu"])),
    }


def sage(case, d):
    g = Links(case)
    act = getattr(torch, case["act"])
    torch._layers.n = case["seed"]
    flat = lambda x: x.squeeze(0) if x.ndim == 3 else x
    (c1, c2), (o1, o2) = case["counts"], case["out"]
    with sut("encoding nodes"):
        e1 = SageEncoder(
            features=flat, query_func=None, feature_dim=case["dim"], aggregator=MeanAggregator(flat), num_sample=c1, intermediate_dim=case["dim"],
            embed_dim=o1, edge_type=case["type"], activation_fn=act,
        )
        last = e1
        if case["layers"] == 2:
            last = SageEncoder(
                features=e1.forward, query_func=e1.query, feature_dim=case["dim"], aggregator=MeanAggregator(e1.forward), num_sample=c2, intermediate_dim=o1,
                embed_dim=o2, edge_type=case["type"], activation_fn=act, base_model=e1,
            )
        context = last.query(np.array(case["batch"], dtype=np.int64), g, np.float32, case["feature"], case["dim"])
        got = last.forward(torch.collate(context))
    f = g.features.astype(np.float64)
    one = lambda own, others, w: np.asarray(act(np.concatenate([own, np.mean(others, axis=0)]) @ np.asarray(w, dtype=np.float64)))
    first = lambda x, near: one(f[x], f[near], e1.weight)
    rows = []
    for x in case["batch"]:
        if case["layers"] == 1:
            rows.append(first(x, g.near(x, {case["type"]}, c1)))
        else:
            near = g.near(x, {case["type"]}, c2)
            rows.append(one(first(x, near), [first(m, g.near(m, {case["type"]}, c1)) for m in near], last.weight))
    close(got, np.array(rows), "embeddings")
    if len(set(case["batch"])) > 1:
        c.note(case)


@st.composite
def layer_cases(draw):
    kind = draw(st.sampled_from(["light", "lgcl", "lgcl", "het"]))
    layers = 1 if kind == "light" else draw(st.integers(1, 3 if kind == "lgcl" else 2))
    fanouts = [draw(st.integers(1, 4)) for _ in range(layers)]
    dim = draw(st.integers(1, 4))
    hidden = [draw(st.sampled_from([dim, dim, 2, 3])) for _ in range(layers)]
    case = {
        "kind": kind, "batch": draw(st.integers(1, 5)), "dim": dim, "hidden": hidden, "fanouts": fanouts, "k": [draw(st.integers(1, f)) for f in fanouts],
        "residual": draw(st.sampled_from(["add", "concat"])), "seed": draw(st.integers(0, 10**6)), "inner": draw(st.sampled_from(["lgcl", "light"])),
        "groups": draw(st.integers(1, 3)), "act": draw(st.sampled_from(["relu", "leaky_relu"])),
    }
    if kind == "het" and case["inner"] == "light":
        case["fanouts"], case["k"] = fanouts[:1], case["k"][:1]
        case["hidden"] = [dim]
    return case


def hops(case, seed):
    """Features of the nodes of a batch and of the neighbors at every hop."""
    size, out = case["batch"], [numbers(seed, case["batch"], case["dim"])]
    for i, f in enumerate(case["fanouts"]):
        size *= f
        out.append(numbers(seed + i + 1, size, case["dim"]))
    return out


def part(samples, i, n):
    return [s[i * (len(s) // n) : (i + 1) * (len(s) // n)] for s in samples]


def siblings(samples, case):
    """The same neighborhoods with the neighbors of every node of the batch in reverse order."""
    out = samples[:1]
    for x in samples[1:]:
        rows = x.reshape(case["batch"], case["fanouts"][0], -1, x.shape[-1])
        out.append(np.ascontiguousarray(rows[:, ::-1]).reshape(x.shape))
    return out


def layers(case, d):
    acts = [getattr(torch, case["act"])] * (len(case["hidden"]) + 1)
    torch._layers.n = case["seed"]
    kind, n = case["kind"], case["batch"]
    tensors = lambda xs: [torch.tensor(x) for x in xs]
    make = lambda: LightGCNEncoder() if "light" in (kind, case["inner"] if kind == "het" else "") else LgclEncoder(case["dim"], case["k"], case["hidden"], case["residual"], acts)
    with sut("creating an encoder"):
        if kind == "het":
            groups = [hops(case, case["seed"] + 100 * j) for j in range(case["groups"])]
            for x in groups:
                x[0] = groups[0][0]
            enc = HetGnnEncoder(case["dim"], case["hidden"], [case["fanouts"]] * case["groups"], [make() for _ in groups], acts)
            run = lambda gs: enc.forward({"inputs": [tensors(gs[0][:1])] + [tensors(x[1:]) for x in gs]})
            cut = lambda i: [part(x, i, n) for x in groups]
            whole = groups
        else:
            enc = make()
            whole = hops(case, case["seed"])
            run = lambda x: enc.forward({"inputs": tensors(x), "fanouts": case["fanouts"]})
            cut = lambda i: part(whole, i, n)
    with sut("encoding a batch"):
        got = np.asarray(run(whole))
    width = case["dim"] if kind == "light" else case["hidden"][-1]
    equal(got.shape, (n, width), "shape of the embeddings")
    for i in range(n):
        with sut("encoding one node"):
            alone = np.asarray(run(cut(i)))
        close(got[i : i + 1], alone, f"embedding of node {i} in a batch and alone")
    with sut("encoding a batch"):
        swapped = run([siblings(x, case) for x in whole] if kind == "het" else siblings(whole, case))
    close(swapped, got, "embeddings with neighbors in another order")
    if kind != "het" and case["act"] == "leaky_relu":
        other = [x.copy() for x in whole]
        other[1][-1] += 50  # a neighbor of the last node of the batch, among the largest now
        with sut("encoding a batch"):
            changed = np.asarray(run(other))
        require(not np.array_equal(changed[-1], got[-1]), "the embedding of a node does not depend on its neighbors")
    if kind == "light":
        near = whole[1].reshape(n, case["fanouts"][0], -1).mean(1)
        close(got, (whole[0] + near) / 2, "mean of a node and its neighbors")
    if n > 1:
        c.note(case)


@st.composite
def attention_cases(draw):
    n = draw(st.integers(1, 6))
    adj = [[int(i == j) if draw(st.booleans()) else draw(st.integers(0, 1)) for j in range(n)] for i in range(n)]
    for i in range(n):
        if not any(adj[i]):
            adj[i][draw(st.integers(0, n - 1))] = 1
    return {
        "adj": adj, "dim": draw(st.integers(1, 4)), "out": draw(st.integers(1, 3)), "heads": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6)),
        "order": list(draw(st.permutations(range(n)))), "changed": draw(st.integers(0, n - 1)), "train": draw(st.booleans()),
    }


def attention(case, d):
    adj = np.array(case["adj"], dtype=np.float32)
    n = len(adj)
    x = numbers(case["seed"], n, case["dim"])

    def conv(how):
        torch._layers.n = case["seed"]
        out = GATConv(case["dim"], case["out"], case["heads"], attn_aggregate=how)
        return out.train(case["train"])

    with sut("attention"):
        net = conv("concat")
        run = lambda f, a: np.asarray(net(torch.tensor(f), torch.tensor(a)))
        dense = run(x, adj)
        at = np.argwhere(adj).T
        sparse = np.asarray(net(torch.tensor(x), torch.Sparse(at, adj[at[0], at[1]], adj.shape)))
        average = np.asarray(conv("average")(torch.tensor(x), torch.tensor(adj)))
    equal(dense.shape, (n, case["out"] * case["heads"]), "shape of the output")
    close(sparse, dense, "attention over a sparse matrix")
    close(average, dense.reshape(n, case["heads"], case["out"]).mean(1), "mean over heads")
    p = case["order"]
    y = x.copy()
    k = case["changed"]
    y[k] += 3
    with sut("attention"):
        close(run(x[p], adj[np.ix_(p, p)]), dense[p], "attention of permuted nodes")
        other = run(y, adj)
    for i in range(n):
        if i != k and not adj[i][k]:
            close(other[i], dense[i], f"row {i} after a change of node {k}, which it has no link to")
    for i in range(n):  # a node with one link takes all from it
        own = np.flatnonzero(adj[i])
        if len(own) == 1:
            alone = np.zeros_like(adj)
            alone[:, own[0]] = 1
            with sut("attention"):
                close(dense[i], run(x, alone)[i], f"row {i} of a node with one link")
    if n > 1:
        c.note(case)


c.campaign("sage", sage_cases(), sage, 1200, 20000)
c.campaign("layers", layer_cases(), layers, 1200, 20000)
c.campaign("attention", attention_cases(), attention, 1000, 15000)
c.main()
