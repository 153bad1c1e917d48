"""C40: layers of TensorFlow compute a node from itself and its links, whatever else is in the batch and however links are stored."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketf
import faketorch

faketf.install()
with sut("importing the layers"):
    import tensorflow as tf
    from deepgnn.graph_engine._base import Graph
    from deepgnn.tf.encoders.att_encoder import AttEncoder
    from deepgnn.tf.layers import AttentionHeader
    from deepgnn.tf.nn import sage_conv
    from deepgnn.tf.nn.gat_conv import GATConv
    from deepgnn.tf.nn.gcn_conv import GCNConv, gcn_norm_adj
    from deepgnn.tf.nn.metrics import masked_accuracy, masked_softmax_cross_entropy

c = Check(
    "C40",
    "a case of 'links' is a graph with weights and loops and features of its nodes: normalization must follow its definition, and convolutions must give the same for sparse and dense links, for "
    "nodes in another order and for a node when only nodes without a link to it change. A case of 'samples' is a tree of sampled neighbors: aggregation must combine a node with its own samples only and "
    "agree with the definition of the aggregator. A case of 'attention' queries an encoder over a recorded graph. A case of 'scores' computes loss and accuracy of masked nodes. Non-trivial: at least two nodes.",
    assumptions=("TensorFlow is replaced by a stand-in with random weights; comparison within 1e-3", "every node of a convolution has a link", "no dropout"),
)

value = st.integers(-8, 8).map(lambda x: x / 4)


def rows_of(draw, n, dim):
    return [[draw(value) for _ in range(dim)] for _ in range(n)]


def same(got, expected, what):
    got, expected = np.asarray(got, np.float64), np.asarray(expected, np.float64)
    equal(got.shape, expected.shape, f"shape of {what}")
    require(np.allclose(got, expected, atol=1e-3, rtol=1e-3), lambda: f"{what}: {got.tolist()} instead of {expected.tolist()}")


@st.composite
def link_cases(draw):
    n, dim = draw(st.integers(1, 6)), draw(st.integers(1, 3))
    links = {(i, i): draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])) for i in range(n)}
    for _ in range(draw(st.integers(0, 2 * n))):
        links[(draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)))] = draw(st.sampled_from([1.0, 0.5, 3.0]))
    return {
        "feats": rows_of(draw, n, dim), "links": [[a, b, w] for (a, b), w in sorted(links.items())], "alone": draw(st.booleans()), "order": draw(st.permutations(list(range(n)))), "out": draw(st.integers(1, 3)),
        "heads": draw(st.integers(1, 3)), "how": draw(st.sampled_from(["concat", "average"])), "bias": draw(st.booleans()), "node": draw(st.integers(0, n - 1)), "moved": rows_of(draw, n, dim),
    }


def both(links, n):
    """Links as a dense and as a sparse matrix."""
    dense = np.zeros((n, n), np.float32)
    for a, b, w in links:
        dense[a, b] = w
    at = np.argwhere(dense != 0)
    return dense, tf.SparseTensor(at, dense[tuple(at.T)], np.array([n, n]))


def links(case, d):
    faketorch._layers.n = 0
    x = np.array(case["feats"], np.float32)
    n = len(x)
    dense, sparse = both(case["links"], n)
    if case["alone"]:  # a node without links keeps its place
        dense, sparse = both([k for k in case["links"] if k[0] != case["node"]], n)
    degree = dense.sum(axis=1)
    scale = np.array([v**-0.5 if v else 0.0 for v in degree])
    expected = scale[:, None] * dense * scale[None, :]
    with sut("normalizing links"):
        a, b = gcn_norm_adj(dense), gcn_norm_adj(sparse)
    same(a, expected, "normalized dense links")
    same(tf.sparse.to_dense(b), expected, "normalized sparse links")

    with sut("a convolution"):
        conv = GCNConv(case["out"], use_bias=case["bias"], act=None)
        eye = np.eye(x.shape[1], dtype=np.float32)
        zero = np.asarray(conv((np.zeros_like(eye), eye)))
        weight = np.asarray(conv((eye, eye))) - zero
        got = [conv((x, dense)), conv((x, sparse))]
    for g in got:
        same(g, dense @ (x @ weight) + zero[0], "graph convolution")
    require(case["bias"] or not zero.any(), "a bias though none is used")

    dense, sparse = both([[p, q, 1.0] for p, q, _ in case["links"]], n)
    with sut("a convolution with attention"):
        faketorch._layers.n = 1000
        twin = GATConv(case["out"], case["heads"], attn_aggregate="average" if case["how"] == "concat" else "concat")
        other = np.asarray(twin((x, dense), training=False))
        faketorch._layers.n = 1000  # the same weights again
        conv = GATConv(case["out"], case["heads"], attn_aggregate=case["how"])
        base = np.asarray(conv((x, dense), training=False))
        again = conv((x, sparse), training=False)
    equal(base.shape, (n, case["out"] * (case["heads"] if case["how"] == "concat" else 1)), "shape of attention")
    wide, mean = (base, other) if case["how"] == "concat" else (other, base)
    require((wide >= -1 - 1e-5).all(), lambda: f"heads {wide.tolist()} below the range of their activation")
    same(mean, wide.reshape(n, case["heads"], case["out"]).mean(axis=1), "average of heads")
    same(again, base, "attention over sparse links")
    order = np.array(case["order"])
    with sut("attention of nodes in another order"):
        turned = conv((x[order], dense[order][:, order]), training=False)
    same(turned, base[order], "attention of nodes in another order")
    v = case["node"]
    near = dense[v] != 0
    y = np.where(near[:, None], x, np.array(case["moved"], np.float32))
    with sut("attention when other nodes change"):
        moved = conv((y, dense), training=False), conv((y, both([[p, q, 1.0] for p, q, _ in case["links"] if p == v or p == q], n)[1]), training=False)
    for m in moved:
        same(np.asarray(m)[v], base[v], "attention of a node after a change of nodes without a link to it")
    alike = np.tile(x[v], (n, 1))
    with sut("attention of equal nodes"):
        one = np.asarray(conv((x[v][None], np.ones((1, 1), np.float32)), training=False))
        many = np.asarray(conv((alike, dense), training=False))
    same(many, np.tile(one, (n, 1)), "attention of nodes with equal features")
    if case["how"] == "concat":  # a mean of the nodes linked, weighted by attention
        with sut("attention of single nodes"):
            each = np.concatenate([np.asarray(conv((x[i][None], np.ones((1, 1), np.float32)), training=False)) for i in range(n)])
        for i in range(n):
            seen = each[dense[i] != 0]
            require((base[i] >= seen.min(axis=0) - 1e-3).all() and (base[i] <= seen.max(axis=0) + 1e-3).all(), lambda: f"attention of a node {base[i].tolist()} is no mean of {seen.tolist()}")
    pair = np.ones((2, 2), np.float32)
    with sut("attention when a neighbor changes"):
        changed = np.asarray(conv((np.stack([x[v], x[v] + 0.5]), pair), training=False))[0]
    require(np.abs(changed - one[0]).max() > 0, "a change of a neighbor does not reach a node")
    if n > 1:
        c.note(case)


@st.composite
def sample_cases(draw):
    layers = draw(st.integers(1, 3))
    num = [draw(st.integers(1, 3)) for _ in range(layers)]
    batch, dim = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    return {
        "num": num, "batch": batch, "dim": dim, "outs": [draw(st.integers(1, 3)) for _ in range(layers)], "concat": draw(st.booleans()), "kind": draw(st.sampled_from(["mean", "maxpool", "lstm"])),
        "seed": draw(st.integers(0, 10**6)), "bias": draw(st.booleans()), "pad": draw(st.integers(0, 2)),
    }


def samples(case, d):
    faketorch._layers.n = 0
    rng = np.random.default_rng(case["seed"])
    num, n, concat = case["num"], len(case["num"]), case["concat"]
    hidden, size = [rng.normal(size=(case["batch"], case["dim"])).astype(np.float32)], case["batch"]
    for hop in range(n):
        size *= num[n - hop - 1]
        hidden.append(rng.normal(size=(size, case["dim"])).astype(np.float32))
    with sut("making aggregators"):
        layers = sage_conv.init_aggregators(case["kind"], case["outs"], concat=concat)
        dims = [case["dim"]] + case["outs"]
        got = np.asarray(sage_conv.aggregate(list(hidden), layers, num, dims, concat))

    def at(layer, hop, i):
        if not layer:
            return hidden[hop][i]
        k = num[n - hop - 1]
        inner = np.stack([at(layer - 1, hop + 1, i * k + j) for j in range(k)])
        with sut("aggregating samples of a single node"):
            return np.asarray(layers[layer - 1]((at(layer - 1, hop, i)[None], inner[None])))[0]

    equal(got.shape, (case["batch"], case["outs"][-1] * (2 if concat else 1)), "shape of aggregated nodes")
    for i, layer in enumerate(layers):  # all layers but the last one end with relu
        size = dims[i] * (2 if concat and i else 1)
        big = 1e4 * rng.normal(size=(8, size)).astype(np.float32)
        with sut("a layer alone"):
            out = np.stack([layer((sign * big, np.ones((8, 1, size), np.float32))) for sign in (1, -1)])
        equal(bool((out >= 0).all()), i < n - 1, f"no negative values after layer {i} of {n}")
    same(got, np.stack([at(n, 0, i) for i in range(case["batch"])]), "aggregated nodes")

    # One layer alone.
    made = {"mean": sage_conv.MeanAggregator, "maxpool": sage_conv.MaxPoolingAggregator, "lstm": sage_conv.LSTMAggregator}[case["kind"]]
    b, k, dim, out = case["batch"], num[0] + 1, case["dim"], case["outs"][0]
    own, nb = rng.normal(size=(b, dim)).astype(np.float32), rng.normal(size=(b, k, dim)).astype(np.float32)
    with sut("an aggregator with or without bias"):
        layer = made(out, bias=case["bias"], act=None, concat=concat)
        run = lambda p, q: np.asarray(layer((p.astype(np.float32), q.astype(np.float32))))  # noqa: E731
        base = run(own, nb)
        zero, eye = run(np.zeros((dim, dim)), np.zeros((dim, 1, dim))), np.eye(dim)
        ws = run(eye, np.zeros((dim, 1, dim))) - zero
        if case["kind"] == "mean":
            wn = run(np.zeros((dim, dim)), eye[:, None]) - zero
            same(base, own @ ws + nb.mean(axis=1) @ wn + zero[0], "mean of neighbors")
            require(case["bias"] or not zero.any(), "a bias though none is used")
        alone = run(np.zeros((b, dim)), nb)
        same(base - alone, own @ ws, "part of a node itself")
        if case["kind"] != "lstm":
            same(run(own, nb[:, ::-1]), base, "neighbors in another order")
            same(run(own, np.concatenate([nb, nb], axis=1)), base, "neighbors given twice")
        else:
            same(run(own, np.concatenate([nb, np.zeros((b, case["pad"], dim))], axis=1)), base, "neighbors followed by padding")
        if case["kind"] == "maxpool":
            same(run(own, np.concatenate([nb, nb[:, :1]], axis=1)), base, "a neighbor given twice")
        if concat:
            require(np.abs(ws[:, out:]).max() < 1e-3, "a node itself is in the half of its neighbors")
            require(np.abs((base - alone)[:, out:]).max() < 1e-3 and np.abs((run(own, nb + 1) - base)[:, :out]).max() < 1e-3, "neighbors are in the half of a node itself")
        act = made(out, act=tf.nn.relu, concat=concat)
        require((np.asarray(act((own, nb))) >= 0).all(), "relu was not applied")
    if case["batch"] > 1:
        c.note(case)


class Recorded(Graph):
    def __init__(self, feats, picks):
        self.feats, self.picks = feats, picks

    def sample_neighbors(self, nodes, edge_types, count=10, *a, **k):
        out = np.array([[self.picks[int(v)][j % len(self.picks[int(v)])] for j in range(count)] for v in nodes], np.int64)
        return out, np.ones(out.shape, np.float32), np.zeros(out.shape, np.int32), np.zeros(out.shape, np.int32)

    def node_features(self, nodes, features, dtype=np.float32, *a, **k):
        equal(np.asarray(features).tolist(), [[3, len(self.feats[0])]], "features asked for")
        return np.array([self.feats[int(v)] for v in nodes], dtype)


Recorded.__abstractmethods__ = frozenset()


@st.composite
def attention_cases(draw):
    n, dim = draw(st.integers(1, 6)), draw(st.integers(1, 3))
    return {
        "feats": rows_of(draw, n, dim), "picks": [draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)) for _ in range(n)], "nodes": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)),
        "count": draw(st.integers(1, 4)), "heads": draw(st.integers(1, 3)), "hidden": draw(st.integers(1, 3)), "out": draw(st.integers(1, 3)),
    }


def attention(case, d):
    faketorch._layers.n = 0
    feats, dim, k = case["feats"], len(case["feats"][0]), case["count"]
    nodes = np.array(case["nodes"], np.int64)
    picks = [[case["picks"][v][j % len(case["picks"][v])] for j in range(k)] for v in case["nodes"]]
    with sut("querying an encoder"):
        enc = AttEncoder(edge_type=0, feature_idx=3, feature_dim=dim, head_num=case["heads"], hidden_dim=case["hidden"], nb_num=k, out_dim=case["out"])
        ctx = enc.query(Recorded(feats, case["picks"]), {"inputs": nodes})
        arrays = {key: np.asarray(v) for key, v in ctx.items() if key != "inputs"}
        base = np.asarray(enc({key: v.copy() for key, v in arrays.items()}))
    equal(base.shape, (len(nodes), case["out"]), "shape of encoded nodes")
    full = [np.array([feats[v]] + [feats[u] for u in p]) for v, p in zip(case["nodes"], picks)]
    same(np.concatenate([arrays["node_feats"], arrays["neighbor_feats"]], axis=1), full, "features of nodes and their neighbors")
    with sut("encoding nodes one by one, with neighbors in another order"):
        for i in range(len(nodes)):
            one = enc({key: v[i : i + 1] for key, v in arrays.items()})
            same(one, base[i : i + 1], "a node encoded alone")
            turned = enc({"node_feats": arrays["node_feats"][i : i + 1], "neighbor_feats": arrays["neighbor_feats"][i : i + 1, ::-1]})
            same(turned, base[i : i + 1], "a node with neighbors in another order")
        flat = enc({"node_feats": arrays["node_feats"], "neighbor_feats": np.repeat(arrays["node_feats"], k, axis=1)})
        for i in range(len(nodes)):
            for j in range(i):
                if case["feats"][nodes[i]] == case["feats"][nodes[j]]:
                    same(np.asarray(flat)[i], np.asarray(flat)[j], "nodes with equal features")
    with sut("a header of attention"):
        header = AttentionHeader(case["out"], None)
        got = np.asarray(header(np.array(full, np.float32)))
        each = np.stack([np.asarray(header(np.array([f[j : j + 1] for f in full], np.float32)))[:, 0] for j in range(k + 1)], axis=1)
    low, high = each.min(axis=1, keepdims=True) - 1e-3, each.max(axis=1, keepdims=True) + 1e-3
    require(((got >= low) & (got <= high)).all(), lambda: f"attention {got.tolist()} gives no means of {each.tolist()}")
    if len(nodes) > 1:
        c.note(case)


@st.composite
def score_cases(draw):
    n, classes = draw(st.integers(1, 8)), draw(st.integers(2, 5))
    mask = [draw(st.booleans()) for _ in range(n)]
    mask[draw(st.integers(0, n - 1))] = True
    return {
        "scores": [[x * draw(st.sampled_from([0.25, 1, 3])) for x in draw(st.permutations(list(range(-2, classes - 2))))] for _ in range(n)], "labels": [draw(st.integers(0, classes - 1)) for _ in range(n)],
        "mask": draw(st.one_of(st.none(), st.just(mask))),
    }


def scores(case, d):
    logits = np.array(case["scores"], np.float32)
    hot = np.eye(logits.shape[1], dtype=np.float32)[case["labels"]]
    mask = None if case["mask"] is None else np.array(case["mask"])
    rows = [i for i in range(len(logits)) if mask is None or mask[i]]
    with sut("loss and accuracy"):
        loss, acc = masked_softmax_cross_entropy(logits, hot, mask), masked_accuracy(logits, hot, mask)
    each = [np.log(np.exp(logits[i].astype(float)).sum()) - logits[i][case["labels"][i]] for i in rows]
    same(loss, np.mean(each), "loss")
    best = [max(range(logits.shape[1]), key=lambda j: logits[i][j]) == case["labels"][i] for i in rows]
    same(acc, np.mean(best), "accuracy")
    if len(rows) > 1:
        c.note(case)


c.campaign("links", link_cases(), links, 1500, 10000)
c.campaign("samples", sample_cases(), samples, 1000, 8000)
c.campaign("attention", attention_cases(), attention, 800, 6000)
c.campaign("scores", score_cases(), scores, 1000, 8000)
c.main()
