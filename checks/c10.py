"""C10: streaming samplers: every line of the shard once per epoch, every engine batch accounted for."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
import math
import random
import numpy as np
from collections import Counter

from deepgnn.graph_engine import samplers as S
from deepgnn.graph_engine import SamplingStrategy

c = Check(
    "C10",
    "lines: 1-6 generated text files streamed with generated batch size, buffer size, block size, epochs, workers, "
    "data-parallel readers, shuffle, drop_last, restarts; lines over all readers are compared with the files. "
    "engine: samplers drawing from a recording graph; number of batches, batch size, types and strategy of every "
    "request are compared with what epochs x elements need. Non-trivial: more than one reader, or a final partial batch.",
)


@st.composite
def text_cases(draw):
    workers, dp = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    nf = draw(st.integers(workers * dp, 6))
    return {
        "files": [draw(st.integers(1, 30)) for _ in range(nf)],
        "batch": draw(st.integers(1, 9)),
        "buffer": draw(st.sampled_from([1, 8, 30, 1024])),
        "epochs": draw(st.integers(1, 3)),
        "workers": workers,
        "dp": dp,
        "shuffle": draw(st.booleans()),
        "drop_last": draw(st.sampled_from([False, False, True])),
        "blocks": draw(st.integers(1, 6)),
        "abandon": draw(st.sampled_from([0, 0, 1, 3])),
    }


def text_body(case, d):
    files = []
    for i, n in enumerate(case["files"]):
        lines = [f"f{i}-{k}-{'x' * ((k * 7 + i) % 11)}" for k in range(n)]
        files.append(lines)
        with open(os.path.join(d, f"t{i}.txt"), "w") as f:
            f.write("\n".join(lines) + ("\n" if i % 2 else ""))
    size = sum(len(x) + 1 for f in files for x in f)
    w, dp, bs, ep = case["workers"], case["dp"], case["batch"], case["epochs"]
    partial = False
    for k in range(w):
        for i in range(dp):
            r = k * dp + i
            want = [x for f in files[r :: w * dp] for x in f] * ep

            def go():
                s = vp.brief(
                    lambda **kw: S.TextFileSampler(batch_size=bs, **kw), store_name=None, filename=d, buffer_size=case["buffer"], epochs=ep, shuffle=case["shuffle"],
                    drop_last=case["drop_last"], worker_index=k, num_workers=w, read_block_in_M=(size / case["blocks"] + 1) / 1e6,
                    data_parallel_num=dp, data_parallel_index=i,
                )
                if case["abandon"]:
                    it = iter(s)
                    for _ in range(case["abandon"]):
                        next(it, None)
                return [list(b) for b in s]

            with sut("streaming lines"):
                batches = run_blocking(go, "streaming lines")
            require(all(len(b) == bs for b in batches), "batch of a different size")
            flat = [x for b in batches for x in b]
            n = len(want) - len(want) % bs if case["drop_last"] else len(want)
            got, pad = flat[:n], flat[n:]
            require(all(x == "" for x in pad) and len(pad) < bs, f"last batch padded with {vp.short(pad)}")
            require("" not in got, "padding before the end of the data")
            equal(len(got), n, f"lines of reader {r}")
            if not case["shuffle"]:
                equal(got, want[:n], f"lines of reader {r}")
            else:
                extra = Counter(got) - Counter(want)
                require(not extra, lambda: f"lines delivered too often {vp.short(dict(extra))}")
            partial |= bool(pad)
    if w * dp > 1 or partial:
        c.note(case)


class Rec:
    def __init__(self, count):
        self.n, self.calls = count, []

    def node_count(self, types):
        self.counted = types
        return self.n

    edge_count = node_count

    def _sample(self, what, size, types, strategy):
        self.calls.append((what, size, types, strategy))
        k = len(self.calls)
        if what == "edges":
            return np.array([[k, j, 0] for j in range(size)], dtype=np.int64)
        ids = np.array([k * 1000 + j for j in range(size)], dtype=np.int64)
        if isinstance(types, np.ndarray):
            return ids, np.zeros(size, dtype=np.int32)
        return ids

    def sample_nodes(self, size, node_types, strategy=None, **kw):
        return self._sample("nodes", size, node_types, strategy)

    def sample_edges(self, size, edge_types, strategy=None, **kw):
        return self._sample("edges", size, edge_types, strategy)


@st.composite
def ge_cases(draw):
    return {
        "edges": draw(st.booleans()),
        "count": draw(st.integers(0, 200)),
        "sample_num": draw(st.sampled_from([-1, -1, 1, 17, 100])),
        "batch": draw(st.integers(1, 20)),
        "epochs": draw(st.integers(1, 5)),
        "workers": draw(st.integers(1, 4)),
        "dp": draw(st.integers(1, 3)),
        "types": draw(st.sampled_from([0, 2, [0, 1], [3]])),
        "array": draw(st.booleans()),
        "strategy": draw(st.sampled_from(["Weighted", "Random"])),
        "twice": draw(st.booleans()),
    }


def ge_body(case, d):
    g = Rec(case["count"])
    types = np.array(case["types"], dtype=np.int32) if case["array"] and isinstance(case["types"], list) else case["types"]
    strat = getattr(SamplingStrategy, case["strategy"])
    cls = S.GEEdgeSampler if case["edges"] else S.GENodeSampler
    n = case["count"] if case["sample_num"] == -1 else case["sample_num"]
    readers = case["workers"] * case["dp"]
    with sut("sampling from the engine"):
        s = vp.brief(
            cls, g, types, case["batch"], case["epochs"], sample_num=case["sample_num"], num_workers=case["workers"], strategy=strat,
            data_parallel_num=case["dp"],
        )
        rounds = []
        for _ in range(2 if case["twice"] else 1):
            before = len(g.calls)
            it = iter(s)
            out = []
            while True:
                try:
                    out.append(next(it))
                except StopIteration:
                    break
            rounds.append((out, g.calls[before:]))
    for out, calls in rounds:
        with sut("length of the sampler"):
            announced = len(s)
        equal(len(out), announced, "announced number of batches")
        # enough batches for the requested epochs over all readers, and less than one round too many
        got = len(out) * readers * case["batch"]
        require(got >= n * case["epochs"], f"{got} samples over all readers for {n} x {case['epochs']}")
        require(got < n * case["epochs"] + readers * case["batch"], f"{got} samples over all readers for {n} x {case['epochs']}")
        equal(len(calls), len(out), "requests to the engine")
        for (what, size, tp, st_), res in zip(calls, out):
            equal(what, "edges" if case["edges"] else "nodes", "request")
            equal(size, case["batch"], "requested size")
            equal(np.asarray(tp).tolist(), np.asarray(types).tolist(), "requested types")
            equal(st_, strat, "requested strategy")
            equal(len(res), case["batch"], "batch size")
            require(isinstance(res, np.ndarray), "batch is not an array")
    if rounds[0][0]:
        c.note(case)


c.campaign("lines", text_cases(), text_body, 300, 2500)
c.campaign("engine", ge_cases(), ge_body, 1000, 5000)

if __name__ == "__main__":
    c.main()
