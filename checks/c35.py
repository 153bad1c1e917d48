"""C35: evaluation and inference cover all data once over workers and loader processes, and metrics follow their definition."""
import os
import sys
import threading
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
warnings.simplefilter("ignore")
from collections import Counter

import numpy as np
import faketorch as torch

torch.install()
with sut("importing the trainers"):
    from deepgnn.graph_engine import samplers as S
    from deepgnn.graph_engine._base import Graph
    from deepgnn.graph_engine.backends.common import GraphEngineBackend
    from deepgnn.pytorch.common import metrics
    from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset
    from deepgnn.pytorch.modeling.base_model import BaseModel
    from deepgnn.pytorch.training.factory import get_args, get_trainer, run_dist

c = Check(
    "C35",
    "a case of 'infer' is a list of nodes (files, a range, or sampled by the graph), batch size, 1-3 workers, 0-3 processes of their loader, prefetching "
    "and a limit of samples; inference runs for all workers on a stand-in for torch, its loader reading in processes. Each node must be in the files of embeddings once with "
    "the embedding of its features. A case of 'evaluate' gives predictions and labels per batch; the result must be the metric of all data, or the mean over batches when "
    "asked per step, averaged over workers. A case of 'metrics' compares a metric with its definition. Non-trivial: several batches, or a metric strictly between 0 and 1.",
    assumptions=("torch is replaced by a stand-in; workers run one after another", "padding of the last batch is ignored", "scores to rank are distinct"),
)
os.environ.update(MASTER_ADDR="localhost", MASTER_PORT="1", RANK="0", WORLD_SIZE="1")
PAD = -1


class FeatureGraph(Graph):
    def __init__(self):
        self.handed = []
        self.lock = threading.Lock()

    def sample_nodes(self, size, node_type, strategy):
        with self.lock:
            ids = np.arange(size, dtype=np.int64) + 10 + len(self.handed)
            self.handed += ids.tolist()
        return ids

    def node_count(self, types):
        return 23

    def node_features(self, nodes, features, feature_type):
        equal(np.asarray(features).tolist(), [[3, 2]], "features asked")
        return np.array([feature(n) for n in np.asarray(nodes)], dtype=feature_type)


def feature(n):
    return [int(n) * 0.25, (int(n) % 7) + 0.1]


FeatureGraph.__abstractmethods__ = frozenset()


class Backend(GraphEngineBackend):
    made = []

    def __init__(self, options=None, is_leader=False):
        self.g, self.is_leader, self.closed = FeatureGraph(), is_leader, 0
        Backend.made.append(self)

    @property
    def graph(self):
        return self.g

    def close(self):
        self.closed += 1


class Model(BaseModel):
    def __init__(self, plain=False):
        super().__init__(np.float32, 3, 2, None)
        self.metric, self.plain, self.modes = None, plain, set()
        self.weight = np.zeros(2, np.float32).view(torch.Parameter)

    def query(self, graph, inputs):
        if self.plain:
            return np.asarray(inputs)
        return {"inputs": inputs, "x": graph.node_features(inputs, np.array([[self.feature_idx, self.feature_dim]]), self.feature_type)}

    def get_score(self, context):
        self.modes.add(self.training)
        if self.plain:
            return torch.tensor(np.array([feature(n) for n in np.asarray(context)[0]], dtype=np.float32))
        return context["x"].squeeze(0)


@st.composite
def infer_cases(draw):
    world = draw(st.sampled_from([1, 1, 2, 3]))
    batch = draw(st.integers(1, 6))
    kind = draw(st.sampled_from(["files", "files", "range", "ge"]))
    case = {
        "kind": kind, "world": world, "batch": batch, "loaders": draw(st.integers(0, 3)), "prefetch": draw(st.booleans()),
        "plain": draw(st.booleans()), "max_steps": draw(st.one_of(st.just(0), st.just(0), st.integers(1, 5))), "log": draw(st.integers(0, 3)),
        "passes": 1, "trainer": draw(st.sampled_from(["base", "ddp", "hvd"] if world == 1 else ["ddp", "hvd"])),
    }
    case["slack"] = draw(st.integers(0, world * batch - 1))
    if kind == "files":
        n = draw(st.integers(world, 5))
        case["files"] = [draw(st.lists(st.integers(0, 99), min_size=1, max_size=12)) for _ in range(n)]
    elif kind == "range":
        case["first"] = draw(st.integers(0, 50))
        case["size"] = world * batch * max(1, case["loaders"]) + draw(st.integers(0, 40))
    else:
        case["num"] = draw(st.integers(1, 40))
    return case


def infer(case, d):
    w, bs, kind = case["world"], case["batch"], case["kind"]
    want, kw = Counter(), {}
    if kind == "files":
        for i, f in enumerate(case["files"]):
            with open(os.path.join(d, f"x_{i}.txt"), "w") as h:
                h.writelines(f"{x}\n" for x in f)
            want.update(f)
        cls, kw = S.FileNodeSampler, dict(backfill_id=PAD)
    elif kind == "range":
        cls, kw = S.RangeNodeSampler, dict(first=case["first"], last=case["first"] + case["size"], backfill_id=PAD)
        want.update(range(case["first"], case["first"] + case["size"]))
    else:
        cls, kw = S.GENodeSampler, dict(node_types=0, sample_num=case["num"])
    out = os.path.join(d, "out")
    got, per_rank, models = Counter(), [], []
    command = ["--mode", "inference", "--save_path", out, "--model_dir", d, "--metric_dir", d, "--batch_size", str(bs), "--backend", "custom", "--sample_file", os.path.join(d, "x_*.txt")]
    command += ["--data_parallel_num", str(case["loaders"]), "--log_by_steps", str(case["log"]), "--trainer", case["trainer"]]
    command += ["--max_samples", str(case["max_steps"] * w * bs + case["slack"] if case["max_steps"] else 0), "--fp16", "no"]

    def make_dataset(args, model, rank, world_size, backend):
        equal((rank, world_size), (torch.WORLD.rank, w), "worker given to the dataset")
        return TorchDeepGNNDataset(
            sampler_class=cls, backend=backend, query_fn=model.query, num_workers=world_size, worker_index=rank, batch_size=args.batch_size,
            enable_prefetch=case["prefetch"], sample_files=args.sample_file, **kw,
        )

    def make_model(args):
        models.append(Model(case["plain"]))
        return models[-1]

    torch.WORLD.size, torch.WORLD.broadcast, torch.WORLD.reduce = w, None, None
    for rank in range(w):
        torch.WORLD.rank = rank
        Backend.made.clear()
        with sut("inference"):
            run_dist(make_model, make_dataset, init_args_fn=lambda p: p.set_defaults(custom_backendclass=Backend), run_args=command)
        equal([b.is_leader for b in Backend.made], [rank == 0], "backends and whether they lead")
        equal([b.closed for b in Backend.made], [1], "times the backend was closed")
        require(models[-1].modes <= {False}, "inference while the model is in training mode")
        equal(sorted(os.listdir(out)), sorted(f"embedding-{i}.tsv" for i in range(rank + 1)), "files of embeddings")
        with open(os.path.join(out, f"embedding-{rank}.tsv")) as h:
            lines = h.read().splitlines()
        ids = []
        for line in lines:
            node, *values = line.split(" ")
            ids.append(int(node))
            equal(np.array(values, dtype=np.float32).tolist(), np.array(feature(int(node)), dtype=np.float32).tolist(), f"embedding of node {node}")
        per_rank.append(len(ids))
        got.update(x for x in ids if x != PAD)
        if kind == "ge":
            b = Backend.made[0]
            n = -(-case["num"] // (bs * w))
            n = min(n, case["max_steps"]) if case["max_steps"] else n
            if not case["prefetch"]:
                equal(ids, b.g.handed, "nodes sampled")
            else:  # in any order, and more may have been asked for ahead
                require(not Counter(ids) - Counter(b.g.handed), f"nodes {ids} instead of those sampled")
            equal(len(ids), n * bs, "number of nodes sampled")
    if sum(per_rank) > bs * w:
        c.note(case)
    if kind == "ge":
        return
    top = case["max_steps"] * bs
    if top:
        require(all(n <= top for n in per_rank), f"nodes per worker {per_rank}, at most {top} asked")
        require(not got - want, f"nodes {dict(got - want)} too many")
        if any(n == top for n in per_rank):
            return
    equal(got, want, "nodes with an embedding")


# evaluation
NAMES = ["Accuracy", "F1Score", "ROC", "MRR"]


def truth(name, preds, labels, ascending=False):
    """The metric by its definition, on lists of one entry (or one row of scores) per sample."""
    if name in ("Accuracy", "F1Score"):
        return sum(p == q for p, q in zip(preds, labels)) / len(preds)
    if name == "ROC":
        pos = [p for p, q in zip(preds, labels) if q]
        neg = [p for p, q in zip(preds, labels) if not q]
        return sum((a > b) + 0.5 * (a == b) for a in pos for b in neg) / (len(pos) * len(neg))
    total = 0
    for row, lab in zip(preds, labels):
        x = row[lab.index(1)]
        total += 1 / (1 + sum((y < x) if ascending else (y > x) for y in row))
    return total / len(preds)


@st.composite
def scored(draw, name, n, width):
    if name in ("Accuracy", "F1Score"):
        k = draw(st.integers(1, 4))
        one = st.lists(st.integers(0, k), min_size=n, max_size=n)
        return [draw(one), draw(one)]
    if name == "ROC":
        labels = [0, 1] + draw(st.lists(st.integers(0, 1), min_size=n - 2, max_size=n - 2))
        labels = list(draw(st.permutations(labels)))
        return [draw(st.lists(st.integers(0, 12).map(lambda v: v / 8), min_size=n, max_size=n)), labels]
    rows = [[v / 4 for v in draw(st.permutations(range(-2, width - 2)))] for _ in range(n)]
    return [rows, [[int(j == k) for j in range(width)] for k in draw(st.lists(st.integers(0, width - 1), min_size=n, max_size=n))]]


@st.composite
def evaluate_cases(draw):
    name = draw(st.sampled_from(NAMES))
    world = draw(st.sampled_from([1, 1, 2, 3]))
    width = draw(st.integers(1, 6))
    ranks = []
    for _ in range(world):
        sizes = draw(st.lists(st.integers(2 if name == "ROC" else 1, 6), min_size=1, max_size=4))
        ranks.append([draw(scored(name, n, width)) for n in sizes])
    return {
        "name": name, "world": world, "ranks": ranks, "ascending": draw(st.booleans()), "per_step": draw(st.booleans()),
        "max_steps": draw(st.one_of(st.just(0), st.integers(1, 4))), "log": draw(st.integers(0, 2)), "trainer": draw(st.sampled_from(["base", "ddp", "hvd"] if world == 1 else ["ddp", "hvd"])),
    }


def metric(name, ascending):
    return metrics.MRR(rank_in_ascending_order=ascending) if name == "MRR" else getattr(metrics, name)()


class Scored(BaseModel):
    def __init__(self, m):
        super().__init__(np.float32, 0, 1, None)
        self.metric = m
        self.weight = np.zeros(2, np.float32).view(torch.Parameter)

    def forward(self, data):
        require(not self.training, "evaluation while the model is in training mode")
        return torch.tensor(1.0), data["pred"], data["label"]


def evaluate(case, d):
    w, name = case["world"], case["name"]
    command = ["--mode", "evaluate", "--save_path", os.path.join(d, "out"), "--model_dir", d, "--metric_dir", d, "--batch_size", "1", "--fp16", "no"]
    command += ["--max_samples", str(case["max_steps"] * w), "--trainer", case["trainer"], "--log_by_steps", str(case["log"])]
    command += ["--use_per_step_metrics"] if case["per_step"] else []
    wants, sums = [], {}
    for steps in case["ranks"]:
        steps = steps[: case["max_steps"]] if case["max_steps"] else steps
        if case["per_step"]:
            wants.append(np.mean([truth(name, p, q, case["ascending"]) for p, q in steps]))
        else:
            wants.append(truth(name, sum((p for p, _ in steps), []), sum((q for _, q in steps), []), case["ascending"]))
    for attempt in range(2 if w > 1 else 1):  # the first gathers what each worker adds to the sums
        for rank, steps in enumerate(case["ranks"]):
            calls = []

            def reduce(x, op):
                require(op == "sum", "values of workers are summed")
                mine, k = float(x), len(calls)
                calls.append(mine)
                if attempt == 0:
                    sums[k] = sums.get(k, 0) + mine
                else:
                    x[...] = sums[k]

            torch.WORLD.rank, torch.WORLD.size, torch.WORLD.broadcast = rank, w, None
            torch.WORLD.reduce = reduce if w > 1 else None
            data = [{"pred": torch.tensor(p), "label": torch.tensor(q)} for p, q in steps]
            with sut("evaluation"):
                trainer = get_trainer(get_args(None, command))
                got = trainer.run(Scored(metric(name, case["ascending"])), data)
            if attempt == 1 or w == 1:
                require(abs(float(got) - np.mean(wants)) < 1e-5, f"{name} of the evaluation: got {float(got)}, expected {np.mean(wants)}")
    if 0 < np.mean(wants) < 1:
        c.note(case)


@st.composite
def metric_cases(draw):
    name = draw(st.sampled_from(NAMES + ["labels"]))
    n = draw(st.integers(2 if name == "ROC" else 1, 20))
    if name == "labels":
        k = draw(st.integers(2, 5))
        rows = st.lists(st.lists(st.integers(0, 1), min_size=k, max_size=k), min_size=n, max_size=n)
        return {"name": name, "data": [draw(rows), draw(rows)], "ascending": False}
    return {"name": name, "data": draw(scored(name, n, draw(st.integers(1, 9)))), "ascending": draw(st.booleans())}


def measure(case, d):
    name = case["name"]
    p, q = case["data"]
    kind = np.float32 if name in ("ROC", "MRR") else np.int64
    with sut("computing a metric"):
        got = float(metric("F1Score" if name == "labels" else name, case["ascending"]).compute(torch.tensor(p, dtype=kind), torch.tensor(q, dtype=kind if name == "MRR" else np.int64)))
    if name == "labels":
        a, b = np.array(p), np.array(q)
        hit, bad = int((a & b).sum()), int((a ^ b).sum())
        want = 2 * hit / (2 * hit + bad) if hit + bad else 0.0
    elif name == "MRR":
        # rows are one list of candidates when they have no further dimension
        m = metrics.MRR(rank_in_ascending_order=case["ascending"])
        with sut("computing a metric"):
            got = float(m.compute(torch.tensor(p, dtype=kind)[:, None], torch.tensor(q, dtype=kind)[:, None]))
        want = truth(name, p, q, case["ascending"])
    else:
        want = truth(name, p, q)
    require(abs(got - want) < 1e-5, f"{name}: got {got}, expected {want}")
    if 0 < want < 1:
        c.note(case)


c.campaign("infer", infer_cases(), infer, 500, 8000)
c.campaign("evaluate", evaluate_cases(), evaluate, 500, 8000)
c.campaign("metrics", metric_cases(), measure, 600, 10000)
c.main()
