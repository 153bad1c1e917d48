"""C41: workers of TensorFlow write embeddings that can be loaded, get every node of their files once and wait for each other."""
import os
import sys
import threading
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketf

faketf.install()
real_sleep = time.sleep
polls = threading.local()


def short_sleep(seconds):
    """Waiting ends early; the number of waits, not time, bounds a case."""
    limit = getattr(polls, "limit", None)
    if limit is not None:
        limit()
    real_sleep(min(seconds, 0.0005))


time.sleep = short_sleep
with sut("importing the utilities"):
    from deepgnn.graph_engine import FileNodeSampler
    from deepgnn.tf.common.dataset import create_tf_dataset
    from deepgnn.tf.common.dist_sync import DistributedSync
    from deepgnn.tf.common.utils import load_embeddings, node_embedding_to_string

c = Check(
    "C41",
    "a case of 'files' writes embeddings of nodes in one or more files and loads them, and hands out batches of files of nodes to workers over one or more rounds: every node once per round with its own "
    "features. A case of 'meet' has workers meeting at tags, some late, in a fresh folder or one of a run before: none may leave a tag before all are there, all must leave then. "
    "Non-trivial: at least two rows (two workers).",
    assumptions=("TensorFlow is replaced by a stand-in", "waiting is shortened; the number of waits bounds a case"),
)

def same(got, expected, what):
    got, expected = np.asarray(got, np.float64), np.asarray(expected, np.float64)
    equal(got.shape, expected.shape, f"shape of {what}")
    require(np.allclose(got, expected, atol=1e-3, rtol=1e-3), lambda: f"{what}: {got.tolist()} instead of {expected.tolist()}")


@st.composite
def file_cases(draw):
    n, dim = draw(st.integers(1, 8)), draw(st.integers(1, 3))
    ids = draw(st.permutations(list(range(n))))[: draw(st.integers(1, n))]
    for _ in range(draw(st.integers(0, 2))):
        ids.insert(draw(st.integers(0, len(ids))), -1)
    return {
        "nodes": n, "ids": ids, "rows": [[draw(st.floats(-100, 100, width=32)) for _ in range(dim)] for _ in ids], "files": draw(st.integers(1, 3)), "batch": draw(st.integers(1, 5)), "rounds": draw(st.integers(1, 3)),
        "workers": draw(st.integers(1, 2)), "drop": draw(st.booleans()),
    }


def files(case, d):
    dim = len(case["rows"][0])
    expected = np.zeros((case["nodes"], dim))
    for v, r in zip(case["ids"], case["rows"]):
        if v != -1:
            expected[v] = r
    for k in range(case["files"]):
        ids, rows = np.array(case["ids"][k :: case["files"]], np.int64), np.array(case["rows"][k :: case["files"]], np.float32).reshape(-1, dim)
        with sut("lines of embeddings"):
            lines = node_embedding_to_string((ids, rows))
        equal(len(lines), int((ids != -1).sum()), "number of lines")
        with open(os.path.join(d, f"embedding_{k}.tsv"), "w") as f:
            f.writelines(lines)
    with sut("loading embeddings"):
        got = load_embeddings(d, case["nodes"], dim)
    require(np.abs(got - expected).max() <= 2e-5, lambda: f"embeddings {got.tolist()} instead of {expected.tolist()}")

    path = os.path.join(d, "nodes_*.txt")
    for w in range(case["workers"]):
        with open(path.replace("*", str(w)), "w") as f:
            f.writelines(f"{7 * v}\n" for v in range(w, case["nodes"], case["workers"]))
    batches = {}
    for w in range(case["workers"]):
        if case["nodes"] < case["workers"] * case["batch"]:
            continue  # nothing to describe the shapes with

        def query(graph, nodes, return_shape=False):
            nodes = np.asarray(nodes)
            out = [nodes.astype(np.int64), np.stack([nodes * 2.0, nodes + 1.0], axis=1).astype(np.float32)]
            return (out, [[None], [None, 2]]) if return_shape else out

        with sut("a dataset over a file"):
            data, length = create_tf_dataset(
                FileNodeSampler, query, None, case["workers"], w, case["batch"], sample_files=path, shuffle=False, drop_last=case["drop"], prefetch_worker_size=1, prefetch_queue_size=2
            )
            for r in range(case["rounds"]):
                items = list(data)
                for nodes, feats in items:
                    same(feats, np.stack([nodes * 2.0, nodes + 1.0], axis=1), "features of a batch")
                seen = [int(v) for nodes, _ in items for v in nodes if v != -1]  # the last batch is padded
                batches.setdefault((w, r), seen)
                if length is not None:
                    equal(len(items), length, "number of batches")
    for r in range(case["rounds"]):
        seen = [v for (w, k), s in batches.items() if k == r for v in s]
        equal(len(set(seen)), len(seen), "nodes handed out twice")
        require(set(seen) <= {7 * v for v in range(case["nodes"])}, "nodes of the file")
        if batches and not case["drop"]:
            equal(sorted(seen), [7 * v for v in range(case["nodes"])], f"nodes of round {r}")
    if len(case["ids"]) > 1:
        c.note(case)


@st.composite
def meet_cases(draw):
    workers = draw(st.integers(1, 4))
    return {
        "workers": workers, "tags": draw(st.lists(st.sampled_from(["begin", "end", "save", "1", "end.1"]), min_size=1, max_size=3, unique=True)), "late": [draw(st.integers(0, workers - 1)) for _ in range(3)],
        "stale": draw(st.booleans()), "joins": draw(st.booleans()), "order": draw(st.permutations(list(range(workers)))),
    }


def meet(case, d):
    n = case["workers"]
    folder = os.path.join(d, "meet")
    os.mkdir(folder)
    if case["stale"]:  # files of a run before
        with sut("a run before"):
            old = [DistributedSync(folder, w, w + 1) for w in range(n)]
            for tag in case["tags"]:
                for o in old:
                    o.sync(tag)
    with sut("the first worker"):
        syncs = {0: DistributedSync(folder, 0, n)}
        for w in case["order"]:
            if w and not case["joins"]:
                syncs[w] = DistributedSync(folder, w, n)
    entered, arrived, errors, guard = {t: set() for t in case["tags"]}, {t: set() for t in case["tags"]}, [], threading.Lock()

    def work(w):
        try:
            if w not in syncs:  # starts when others are already waiting
                real_sleep(0.002)
                syncs[w] = DistributedSync(folder, w, n)
            for k, tag in enumerate(case["tags"]):
                if case["late"][k] == w:
                    real_sleep(0.003)
                count = [0]

                def limit():
                    if errors:
                        raise RuntimeError("another worker failed")
                    arrived[tag].add(w)  # it waits, so it has told others
                    if len(arrived[tag]) == n:
                        count[0] += 1
                        if count[0] > 500:
                            raise AssertionError(f"worker {w} still waits at {tag} though all workers are there")

                polls.limit = limit
                with guard:
                    entered[tag].add(w)
                syncs[w].sync(tag)
                polls.limit = None
                arrived[tag].add(w)
                if len(entered[tag]) != n:
                    raise AssertionError(f"worker {w} left {tag} when only workers {sorted(entered[tag])} of {n} were there")
        except BaseException as e:
            errors.append(f"{type(e).__name__}: {e}")

    threads = [threading.Thread(target=work, args=(w,), daemon=True) for w in case["order"]]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    require(not errors, lambda: errors[0])
    if n > 1:
        c.note(case)


c.campaign("files", file_cases(), files, 1500, 10000)
c.campaign("meet", meet_cases(), meet, 700, 4000)
c.main()
