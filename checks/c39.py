"""C39: models score every node of a batch and report loss, predictions and labels that belong together."""
import io
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketorch as torch

torch.install()
with sut("importing the models"):
    from deepgnn.graph_engine import SamplingStrategy
    from deepgnn.graph_engine._base import Graph
    from deepgnn.pytorch.common import metrics
    from deepgnn.pytorch.modeling.base_model import BaseSupervisedModel, BaseUnsupervisedModel

c = Check(
    "C39",
    "a case of 'supervised' is a list of batches (down to one node) with scores of classes and one label per node, as the loader gives them or without its dimension, in a dictionary or alone; the "
    "loss must be the mean cross entropy, predictions and labels those of each node, and the metric that of all nodes. A case of 'lines' writes embeddings with ids; reading the lines gives both back. "
    "A case of 'examples' asks an unsupervised model for positive and negative nodes of a graph. Non-trivial: at least two nodes.",
    assumptions=("torch is replaced by a stand-in; comparison within 1e-4", "scores of a node are distinct"),
)


class Model(BaseSupervisedModel):
    def __init__(self, metric):
        super().__init__(np.float32, 0, 1, None)
        self.metric = metric
        self.scores = None

    def get_score(self, context):
        return torch.tensor(self.scores)


@st.composite
def supervised_cases(draw):
    classes = draw(st.integers(1, 5))
    batches = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.one_of(st.just(1), st.integers(1, 6)))
        rows = [[x * draw(st.sampled_from([0.25, 1, 4])) for x in draw(st.permutations(list(range(-2, classes - 2))))] for _ in range(n)]
        batches.append({"scores": rows, "labels": [draw(st.integers(0, classes - 1)) for _ in range(n)]})
    return {
        "classes": classes, "batches": batches, "leading": draw(st.booleans()), "dict": draw(st.booleans()), "kind": draw(st.sampled_from(["float32", "int64"])),
        "metric": draw(st.sampled_from(["Accuracy", "F1Score"])),
    }


def supervised(case, d):
    with sut("making a model"):
        model = Model(getattr(metrics, case["metric"])())
    preds, labels = [], []
    for b in case["batches"]:
        scores = np.array(b["scores"], np.float32)
        hot = np.eye(case["classes"], dtype=case["kind"])[b["labels"]]
        hot = torch.tensor(hot[None] if case["leading"] else hot)
        model.scores = scores.copy()
        with sut("a step of a supervised model"):
            loss, pred, label = model({"label": hot, "inputs": torch.tensor([0])} if case["dict"] else hot)
        each = []
        for row, k in zip(b["scores"], b["labels"]):
            top = max(row)
            each.append(top + math.log(sum(math.exp(x - top) for x in row)) - row[k])
        require(abs(float(loss) - sum(each) / len(each)) < 1e-4, f"loss: got {float(loss)}, expected {sum(each) / len(each)}")
        equal(np.asarray(pred).tolist(), [row.index(max(row)) for row in b["scores"]], "predictions")
        equal(np.asarray(label).tolist(), b["labels"], "labels")
        preds.append(pred)
        labels.append(label)
    with sut("computing the metric"):
        got = float(model.compute_metric(preds, labels))
        equal(model.metric_name(), case["metric"], "name of the metric")
    right = [row.index(max(row)) == k for b in case["batches"] for row, k in zip(b["scores"], b["labels"])]
    # every node has one label: the micro-averaged F1 score is the accuracy
    require(abs(got - sum(right) / len(right)) < 1e-6, f"metric: got {got}, expected {sum(right)} of {len(right)}")
    if len(right) > 1:
        c.note(case)


@st.composite
def line_cases(draw):
    n, width = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["float32", "float64", "int64"]))
    value = st.integers(-(2**40), 2**40) if kind == "int64" else st.floats(-1e6, 1e6, width=32)
    return {
        "ids": [draw(st.integers(0, 2**62)) for _ in range(n)], "rows": [[draw(value) for _ in range(width)] for _ in range(n)], "kind": kind, "dict": draw(st.booleans()),
        "leading": draw(st.booleans()) or n == 1, "times": draw(st.integers(1, 2)),
    }


def lines(case, d):
    with sut("making a model"):
        model = Model(None)
    ids = np.array(case["ids"], np.int64)
    ids = torch.tensor(ids[None] if case["leading"] else ids)
    rows = np.array(case["rows"], case["kind"])
    out = io.StringIO()
    for _ in range(case["times"]):
        with sut("writing embeddings"):
            model.output_embedding(out, {"inputs": ids} if case["dict"] else ids, torch.tensor(rows))
    got = out.getvalue()
    require(got.endswith("\n"), "the last line has no end")
    got = [x.split(" ") for x in got[:-1].split("\n")]
    equal(len(got), len(case["ids"]) * case["times"], "number of lines")
    for i, x in enumerate(got):
        i %= len(case["ids"])
        equal([int(x[0])] + [rows.dtype.type(v) for v in x[1:]], [case["ids"][i]] + list(rows[i]), f"line {i}")
    if len(case["ids"]) > 1:
        c.note(case)


class Asked(Graph):
    def __init__(self, case):
        self.case, self.calls = case, []

    def sample_nodes(self, size, node_types, strategy=None):
        self.calls.append([size, np.ravel(node_types).tolist(), strategy])
        ids = np.arange(size) * 7 + 3
        return (ids, np.zeros(size, np.int32)) if self.case["pair"] else ids

    def sample_neighbors(self, nodes, edge_types, count=10, *a, **k):
        self.calls.append([np.asarray(nodes).tolist(), np.ravel(edge_types).tolist(), count])
        ids = np.asarray(nodes)[:, None] * 10 + np.arange(count)
        return ids, np.ones(ids.shape, np.float32), np.zeros(ids.shape, np.int32), None


Asked.__abstractmethods__ = frozenset()


@st.composite
def example_cases(draw):
    return {
        "nodes": draw(st.lists(st.integers(0, 50), min_size=1, max_size=5)), "types": draw(st.one_of(st.integers(0, 3), st.lists(st.integers(0, 3), min_size=1, max_size=3))),
        "negs": draw(st.integers(1, 9)), "count": draw(st.integers(1, 4)), "pair": draw(st.booleans()),
    }


def examples(case, d):
    g = Asked(case)
    types = np.array(case["types"]) if isinstance(case["types"], list) else case["types"]
    with sut("making a model"):
        model = BaseUnsupervisedModel(np.float32, 0, 1, None)
        neg = model.get_neg_node(g, case["negs"], types)
        pos = model.get_pos_node(g, np.array(case["nodes"]), types, case["count"])
        model.get_pos_node(g, np.array(case["nodes"]), types)
    equal(np.asarray(neg).tolist(), [i * 7 + 3 for i in range(case["negs"])], "negative nodes")
    equal(np.asarray(pos).tolist(), [[x * 10 + j for j in range(case["count"])] for x in case["nodes"]], "positive nodes")
    kinds = np.ravel(case["types"]).tolist()
    equal(g.calls, [[case["negs"], kinds, SamplingStrategy.Weighted], [case["nodes"], kinds, case["count"]], [case["nodes"], kinds, 1]], "queries of the graph")
    if len(case["nodes"]) > 1:
        c.note(case)


c.campaign("supervised", supervised_cases(), supervised, 1500, 30000)
c.campaign("lines", line_cases(), lines, 1000, 20000)
c.campaign("examples", example_cases(), examples, 400, 6000)
c.main()
