"""C12: a dataset runs the query on every batch of its sampler, on every pass, for every worker."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import contextlib
import io
from collections import Counter

import numpy as np
from deepgnn.graph_engine import samplers as S
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset, create_backend, BackendType
from deepgnn.graph_engine._base import Graph, SamplingStrategy
from deepgnn.graph_engine.backends.common import GraphEngineBackend
from deepgnn.graph_engine.backends.options import BackendOptions

c = Check(
    "C12",
    "a case is a sampler class (node file, edge file, range, graph node sampler, graph edge sampler), batch size, epochs, 1-3 workers, with and "
    "without prefetching (generated queue size and parallelism), passes over the dataset 1-3, some abandoned early. "
    "Every pass must yield the query result of every batch, in order without prefetching, and the union over workers must "
    "be the input once per epoch; the query must get the graph of the backend. Non-trivial: more than one batch.",
)
PAD = -7


class StubGraph(Graph):
    """Deterministic stand-in of the engine: samples consecutive ids."""

    def __init__(self):
        self.calls = []

    def sample_nodes(self, size, node_type, strategy):
        self.calls.append(("n", size, np.asarray(node_type).tolist(), strategy))
        ids = np.arange(size, dtype=np.int64) + 100 * len(self.calls)
        return (ids, np.zeros(size, np.int32)) if isinstance(node_type, np.ndarray) else ids

    def sample_edges(self, size, edge_type, strategy):
        self.calls.append(("e", size, np.asarray(edge_type).tolist(), strategy))
        return np.arange(3 * size, dtype=np.int64).reshape(size, 3) + 100 * len(self.calls)

    def node_count(self, types):
        return 37

    def edge_count(self, types):
        return 41


StubGraph.__abstractmethods__ = frozenset()


class StubBackend(GraphEngineBackend):
    def __init__(self, options=None, is_leader=False):
        self.g = StubGraph()
        self.options, self.is_leader = options, is_leader

    @property
    def graph(self):
        return self.g

    def close(self):
        pass


@st.composite
def cases(draw):
    case = {
        "kind": draw(st.sampled_from(["nodes", "edges", "range", "ge_nodes", "ge_edges"])),
        "batch": draw(st.integers(1, 7)),
        "epochs": draw(st.integers(1, 3)),
        "workers": draw(st.integers(1, 3)),
        "prefetch": draw(st.booleans()),
        "queue": draw(st.integers(1, 6)),
        "par": draw(st.integers(1, 4)),
        "shuffle": draw(st.booleans()),
        "drop_last": draw(st.booleans()),
        "passes": draw(st.lists(st.booleans(), min_size=1, max_size=3)),
        "extra": draw(st.booleans()),
    }
    k = case["kind"]
    n = draw(st.integers(case["workers"], 5))
    if k == "nodes":
        case["files"] = [draw(st.lists(st.integers(0, 99), min_size=1, max_size=9)) for _ in range(n)]
    elif k == "edges":
        e = st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list)
        case["files"] = [draw(st.lists(e, min_size=1, max_size=9)) for _ in range(n)]
    elif k == "range":
        case["first"] = draw(st.integers(0, 20))
        case["size"] = case["workers"] * case["batch"] + draw(st.integers(0, 40))
    else:
        case["types"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
        case["num"] = draw(st.integers(1, 40))
    return case


def body(case, d):
    k, w, bs = case["kind"], case["workers"], case["batch"]
    rows, kw = [], {}
    if k in ("nodes", "edges"):
        for i, f in enumerate(case["files"]):
            with open(os.path.join(d, f"x_{i}.txt"), "w") as h:
                for r in f:
                    h.write((str(r) if k == "nodes" else "\t".join(map(str, r))) + "\n")
                    rows.append((r,) if k == "nodes" else (r[0], r[1], 2))
        kw = dict(sample_files=os.path.join(d, "x_*.txt"), shuffle=case["shuffle"], drop_last=case["drop_last"], backfill_id=PAD)
        if k == "edges":
            kw["edge_type"] = 2
        cls = S.FileNodeSampler if k == "nodes" else S.FileEdgeSampler
        rows = rows * case["epochs"]
    elif k == "range":
        kw = dict(first=case["first"], last=case["first"] + case["size"], backfill_id=PAD)
        rows = [(x,) for x in range(case["first"], case["first"] + case["size"])]
        cls = S.RangeNodeSampler
    else:
        cls = S.GENodeSampler if k == "ge_nodes" else S.GEEdgeSampler
        kw = {"node_types" if k == "ge_nodes" else "edge_types": np.array(case["types"], dtype=np.int32), "sample_num": case["num"]}
        if case["shuffle"]:
            kw["strategy"] = SamplingStrategy.Random
    if case["extra"]:
        kw["unrelated_argument"] = object()  # arguments the sampler doesn't know are for other consumers
    kw["prefetch_queue_size"], kw["prefetch_worker_size"] = case["queue"], case["par"]
    totals = [Counter() for _ in case["passes"]]
    most = 0
    for i in range(w):
        b = StubBackend()
        asked = []

        def query(graph, batch):
            require(graph is b.g, "the query got another graph")
            v = np.asarray(batch)
            asked.append(v.tobytes())
            return (v.shape, tuple(v.reshape(-1).tolist()))

        with sut("creating a dataset"):
            ds = vp.brief(DeepGNNDataset, cls, query, b, num_workers=w, worker_index=i, batch_size=bs, epochs=case["epochs"], enable_prefetch=case["prefetch"], **kw)
        lens = set()
        for p, leave in enumerate(case["passes"]):
            np.random.seed(p)
            b.g.calls.clear()

            def go():
                out = []
                it = iter(ds)
                for x in it:
                    out.append(x)
                    if leave and p < len(case["passes"]) - 1:
                        break
                if hasattr(it, "join"):
                    it.join()
                return out

            asked.clear()
            with contextlib.redirect_stdout(io.StringIO()), sut("iterating over a dataset"):
                out = run_blocking(go, "iterating over a dataset", thread_death_is_error=False)
            if leave and p < len(case["passes"]) - 1:
                totals[p] = None
                continue
            most = max(most, len(out))
            equal(len(asked), len(out), "query calls and results")
            with sut("length of a dataset"):
                equal(len(ds), len(out), "announced number of batches")
            lens.add(len(out))
            for shape, vals in out:
                equal(shape[0], bs, "batch size")
            if k.startswith("ge"):
                calls = b.g.calls
                equal(len(calls), len(out), "graph sampling calls")
                for x in calls:
                    equal((x[0], x[1], sorted(set(x[2]))), (k[3], bs, sorted(set(case["types"]))), "graph sampling call")
                    equal(x[3], kw.get("strategy", SamplingStrategy.Weighted), "sampling strategy")
                step = sorted(v for _, v in out)
                width = bs if k == "ge_nodes" else 3 * bs
                equal(step, [tuple(range(100 * (j + 1), 100 * (j + 1) + width)) for j in range(len(calls))], "results")
            elif totals[p] is not None:
                per = 1 if k != "edges" else 3
                for shape, vals in out:
                    for j in range(0, len(vals), per):
                        r = vals[j : j + per]
                        if r[0] != PAD:
                            totals[p][r] += 1
                if not case["shuffle"] and k == "nodes" and (not case["prefetch"] or case["par"] == 1):
                    mine = [x for f in case["files"][i::w] for x in f] * case["epochs"]
                    flat = [x for _, v in out for x in v]
                    equal([x for x in flat if x != PAD], mine[: len(mine) // bs * bs] if case["drop_last"] else mine, "order of ids")
        equal(len(lens), 1, "number of batches on every pass")
    if not k.startswith("ge"):
        for p, t in enumerate(totals):
            if t is None:
                continue
            want = Counter(rows)
            if case["drop_last"] and k != "range":
                require(not (t - want), lambda: f"pass {p}: seen too often {vp.short(dict(t - want))}")
                require(sum((want - t).values()) < w * bs, lambda: f"pass {p}: lost {vp.short(dict(want - t))}")
            else:
                require(t == want, lambda: f"pass {p}: lost {vp.short(dict(want - t))}; seen too often {vp.short(dict(t - want))}")
    if most > 1:
        c.note(case)


@st.composite
def backend_cases(draw):
    return {"kw": {k: draw(st.integers(0, 9)) for k in draw(st.sets(st.sampled_from(["data_dir", "alpha", "beta"])))}, "leader": draw(st.booleans())}


def backend_body(case, d):
    from argparse import Namespace

    opts = BackendOptions(Namespace(backend=BackendType.CUSTOM, custom_backendclass=StubBackend, **case["kw"]))
    with sut("creating a custom backend"):
        b = create_backend(opts, is_leader=case["leader"])
    require(isinstance(b, StubBackend) and b.options is opts and b.is_leader == case["leader"], "custom backend")
    for key, v in case["kw"].items():
        equal(getattr(opts, key), v, f"option {key}")
    if case["kw"]:
        c.note(case)


c.campaign("dataset", cases(), body, 700, 6000)
c.campaign("backend", backend_cases(), backend_body, 40, 200)

if __name__ == "__main__":
    c.main()
