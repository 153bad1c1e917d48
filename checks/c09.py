"""C09: training examples listed in files or ranges are dealt out exactly once per epoch over all readers."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require

vp.silence_logging()
import numpy as np
from collections import Counter

from deepgnn.graph_engine import samplers as S

c = Check(
    "C09",
    "a case is a generated input (node files, edge files with and without features, tuple files, CSV, node / edge range), batch "
    "size 1-9, 1-3 epochs, 1-4 workers, 1-3 data-parallel readers, shuffle, drop_last, padding id, and whether the "
    "sampler is iterated twice or abandoned first; the union over all readers is compared with the input times "
    "epochs, padding may only fill the last batch. Non-trivial: more than one reader or an incomplete last batch.",
    ["data-parallel readers that shuffle start from the same random state"],
)
PAD = -7


def collect(sampler, case):
    """Batches of a fresh iteration, possibly after abandoned ones."""
    with sut("iterating a sampler"):
        for _ in range(case["abandon"]):
            it = iter(sampler)
            next(it, None)
        if case["again"]:
            np.random.seed(case["seed"])
            for_each(iter(sampler))
        np.random.seed(case["seed"])
        return for_each(iter(sampler))


def for_each(it):
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            return out


@st.composite
def common(draw, workers=True):
    return {
        "batch": draw(st.integers(1, 9)),
        "epochs": draw(st.integers(1, 3)),
        "workers": draw(st.integers(1, 4)) if workers else 1,
        "dp": draw(st.integers(1, 3)),
        "shuffle": draw(st.booleans()),
        "drop_last": draw(st.booleans()),
        "abandon": draw(st.sampled_from([0, 0, 1])),
        "again": draw(st.sampled_from([False, False, True])),
        "seed": draw(st.integers(0, 1000)),
    }


def check_array_readers(case, shards, make, unpack, key):
    """Samplers which keep a list and hand out padded batches. shards: expected rows of each worker."""
    bs, ep, dp = case["batch"], case["epochs"], case["dp"]
    for w, rows in enumerate(shards):
        if not rows:
            continue
        got = []
        total = len(rows) * ep
        full = total // bs
        per_reader = []
        for i in range(dp):
            with sut("creating a sampler"):
                s = make(w, i)
            batches = [unpack(b) for b in collect(s, case)]
            per_reader.append(batches)
            if dp == 1:
                with sut("length of a sampler"):
                    equal(len(s), len(batches), "announced number of batches")
            for b in batches:
                equal(len(b), bs, "batch size")
        # batch k goes to reader k mod dp
        order = []
        k = 0
        while per_reader[k % dp]:
            order.append(per_reader[k % dp].pop(0))
            k += 1
        require(not any(per_reader), "readers do not take turns: some of them have too many batches")
        flat = [r for b in order for r in b]
        n = full * bs if case["drop_last"] else total
        equal(len(flat), n if case["drop_last"] else -(-total // bs) * bs, "number of rows handed out")
        body_rows, pad = flat[:n], flat[n:]
        require(all(key(p) for p in pad), f"last batch padded with {vp.short(pad)}")
        if not case["shuffle"]:
            equal(body_rows, (rows * ep)[:n], f"rows of worker {w}")
        else:
            for e in range(ep):
                part = body_rows[e * len(rows) : (e + 1) * len(rows)]
                if len(part) == len(rows):
                    gio_diff(part, rows, f"rows of epoch {e}")
                else:
                    extra = Counter(part) - Counter(rows)
                    require(not extra, f"rows handed out too often in epoch {e}: {vp.short(dict(extra))}")
    if len(shards) * dp > 1 or (sum(map(len, shards)) * ep) % bs:
        c.note((case, shards))


def gio_diff(got, want, what):
    g, w = Counter(got), Counter(want)
    if g != w:
        raise vp.Violation(f"{what}: missing {vp.short(dict(w - g))}; unexpected {vp.short(dict(g - w))}")


IDS = st.integers(0, 2**62)


@st.composite
def node_file_cases(draw):
    case = draw(common())
    nf = draw(st.integers(case["workers"], 6))
    case["files"] = [draw(st.lists(IDS, min_size=1, max_size=12)) for _ in range(nf)]
    case["final"] = draw(st.booleans())
    return case


def node_file_body(case, d):
    for i, f in enumerate(case["files"]):
        with open(os.path.join(d, f"nodes_{i}.txt"), "w") as h:
            h.write("\n".join(map(str, f)) + ("\n" if case["final"] else ""))
    w = case["workers"]
    shards = [[x for f in case["files"][k::w] for x in f] for k in range(w)]

    def make(k, i):
        return vp.brief(
            S.FileNodeSampler, os.path.join(d, "nodes_*.txt"), case["batch"], epochs=case["epochs"], shuffle=case["shuffle"], drop_last=case["drop_last"],
            backfill_id=PAD, worker_index=k, num_workers=w, data_parallel_num=case["dp"], data_parallel_index=i,
        )

    check_array_readers(case, shards, make, lambda b: [int(x) for x in b], lambda p: p == PAD)


@st.composite
def edge_file_cases(draw):
    case = draw(common())
    nf = draw(st.integers(case["workers"], 5))
    dim = draw(st.integers(0, 3))
    row = st.tuples(IDS, IDS, st.lists(st.integers(-64, 64).map(lambda x: x / 8), min_size=dim, max_size=dim)).map(list)
    case["files"] = [draw(st.lists(row, min_size=1, max_size=9)) for _ in range(nf)]
    case["dim"] = dim
    case["delim"] = draw(st.sampled_from(["\t", ",", " "]))
    case["type"] = draw(st.integers(0, 5))
    return case


def edge_file_body(case, d):
    dl, dim, w, t = case["delim"], case["dim"], case["workers"], case["type"]
    for i, f in enumerate(case["files"]):
        with open(os.path.join(d, f"edges_{i}.txt"), "w") as h:
            for a, b, fs in f:
                h.write(dl.join([str(a), str(b)] + [repr(x) for x in fs]) + "\n")
    shards = [[(a, b, t, tuple(fs)) for f in case["files"][k::w] for a, b, fs in f] for k in range(w)]

    def make(k, i):
        return vp.brief(
            S.FileEdgeSampler, t, os.path.join(d, "edges_*.txt"), case["batch"], epochs=case["epochs"], shuffle=case["shuffle"], delimeter=dl, feature_dim=dim,
            drop_last=case["drop_last"], backfill_id=PAD, worker_index=k, num_workers=w, data_parallel_num=case["dp"], data_parallel_index=i,
        )

    def unpack(b):
        if dim == 0:
            return [tuple(int(x) for x in r) + ((),) for r in b]
        require(isinstance(b, (tuple, list)) and len(b) == 2, f"batch of edges with features is {vp.short(b)}")
        e, f = b
        equal(len(e), len(f), "edges and features of a batch")
        return [tuple(int(x) for x in r) + (tuple(float(x) for x in q),) for r, q in zip(e, f)]

    check_array_readers(case, shards, make, unpack, lambda p: p[:3] == (PAD, PAD, t) and not any(p[3]))


@st.composite
def tuple_cases(draw):
    case = draw(common())
    case["v2"] = draw(st.booleans())
    n = draw(st.integers(case["workers"], 25))
    dim = draw(st.integers(1, 3))
    case["rows"] = [
        [draw(IDS), draw(st.integers(0, 9)), [draw(st.integers(-16, 16)) / 4 for _ in range(dim)]] for _ in range(n)
    ]
    return case


def tuple_body(case, d):
    p = os.path.join(d, "t.txt")
    w = case["workers"]
    with open(p, "w") as h:
        for a, t, fs in case["rows"]:
            h.write(f"{a}\t{t}\t{' '.join(map(repr, fs))}\n" if case["v2"] else f"{a}\t{t}\n")
    rows = [(a, float(t), tuple(fs)) if case["v2"] else (a, t) for a, t, fs in case["rows"]]
    shards = [rows[k::w] for k in range(w)]
    cls = S.FileTupleSamplerV2 if case["v2"] else S.FileTupleSampler

    def make(k, i):
        return vp.brief(
            cls, p, case["batch"], epochs=case["epochs"], shuffle=case["shuffle"], drop_last=case["drop_last"], backfill=PAD, worker_index=k,
            num_workers=w, data_parallel_num=case["dp"], data_parallel_index=i,
        )

    def unpack(b):
        if not case["v2"]:
            return [tuple(int(x) for x in r) for r in b]
        ids, labels, fs = b
        require(len(ids) == len(labels) == len(fs), "columns of a batch have different lengths")
        return [(int(i), float(l), tuple(float(x) for x in f)) for i, l, f in zip(ids, labels, fs)]

    check_array_readers(case, shards, make, unpack, lambda q: q[0] == PAD and q[1] == PAD)


@st.composite
def range_cases(draw):
    case = draw(common())
    first = draw(st.one_of(st.integers(0, 5), st.integers(0, 2**40)))
    case["edges"] = draw(st.booleans())
    unit = case["batch"] * (2 if case["edges"] else 1)
    # every worker must own at least one id
    least = (case["workers"] - 1) * unit * case["dp"] + 1
    case["first"], case["last"] = first, first + least + draw(st.integers(0, 60))
    return case


def range_body(case, d):
    w, dp, bs = case["workers"], case["dp"], case["batch"]
    got = []
    incomplete = False
    for k in range(w):
        for i in range(dp):
            with sut("creating a sampler"):
                if case["edges"]:
                    s = vp.brief(S.RangeEdgeSampler, 3, case["first"], case["last"], bs, k, w, PAD, data_parallel_num=dp, data_parallel_index=i)
                else:
                    s = vp.brief(S.RangeNodeSampler, case["first"], case["last"], bs, k, w, PAD, data_parallel_num=dp, data_parallel_index=i)
            batches = collect(s, case)
            if dp == 1:
                equal(len(s), len(batches), "announced number of batches")
            for j, b in enumerate(batches):
                equal(len(b), bs, "batch size")
                if case["edges"]:
                    require(all(int(x) == 3 for x in b[:, 2]), "edge type of a batch")
                    ids = [int(x) for x in b[:, :2].reshape(-1)]
                else:
                    ids = [int(x) for x in b]
                real = [x for x in ids if x != PAD]
                require(ids == real + [PAD] * (len(ids) - len(real)), f"padding inside a batch: {ids}")
                require(len(real) == len(ids) or j == len(batches) - 1, f"padding before the last batch: {ids}")
                incomplete |= len(real) != len(ids)
                got += real
    gio_diff(got, range(case["first"], case["last"]), "ids of the range over all readers")
    if w * dp > 1 or incomplete:
        c.note(case)


@st.composite
def csv_cases(draw):
    case = draw(common(workers=False))
    cols = draw(st.integers(1, 3))
    case["rows"] = draw(st.lists(st.lists(IDS, min_size=cols, max_size=cols), min_size=1, max_size=25))
    case["gaps"] = draw(st.booleans())
    return case


def csv_body(case, d):
    p = os.path.join(d, "n.csv")
    with open(p, "w") as h:
        for r in case["rows"]:
            h.write(",".join(map(str, r)) + "\n" + ("\n" if case["gaps"] else ""))
    dp, ep, bs = case["dp"], case["epochs"], case["batch"]
    got = []
    for i in range(dp):
        with sut("creating a sampler"):
            s = vp.brief(S.CSVNodeSampler, bs, p, epoch=ep, data_parallel_num=dp, data_parallel_index=i)
        batches = collect(s, case)
        if dp == 1:
            equal(len(s), len(batches), "announced number of batches")
        mine = [tuple(int(x) for x in r) for b in batches for r in b]
        equal(mine, [tuple(r) for r in case["rows"][i::dp]] * ep, f"rows of reader {i} of {dp}")
        for b in batches:
            require(0 < len(b) <= bs, f"batch of {len(b)} rows")
        got += mine
    gio_diff(got, [tuple(r) for r in case["rows"]] * ep, "rows over all readers")
    if dp > 1 or len(case["rows"]) % bs:
        c.note(case)


c.campaign("node_files", node_file_cases(), node_file_body, 700, 5000)
c.campaign("edge_files", edge_file_cases(), edge_file_body, 700, 5000)
c.campaign("tuples", tuple_cases(), tuple_body, 700, 5000)
c.campaign("ranges", range_cases(), range_body, 1500, 15000)
c.campaign("csv", csv_cases(), csv_body, 700, 5000)

if __name__ == "__main__":
    c.main()
