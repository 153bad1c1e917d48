"""C30: built-in datasets hold the graph described by their raw files."""
import contextlib
import io
import json
import logging
import os
import runpy
import sys
import urllib.request
import warnings
import zipfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import engine as en  # noqa: F401  (builds the engine)
import numpy as np

warnings.simplefilter("ignore")
from deepgnn.graph_engine._base import SamplingStrategy
from deepgnn.graph_engine.data.citeseer import CiteseerFull
from deepgnn.graph_engine.data.cora import CoraFull
from deepgnn.graph_engine.data.ppi import PPI
from deepgnn.graph_engine.data.reddit import Reddit

c = Check(
    "C30",
    "a case is a set of raw files of a built-in dataset (papers with words and citations, or proteins/posts with links, labels and "
    "features) with 2-12 elements, the options of the dataset (share of training nodes, random selection, number of partitions, "
    "share of kept links) and whether it is built twice at one place. The dataset, opened as a graph, must have exactly the nodes, splits, labels, features and "
    "links of the raw files (links in both directions, of the type that tells training links from others), and list the nodes of "
    "each split in its files. 'share' has hundreds of links, of which the requested share must be kept within six standard errors, the same for the same seed. 'commands' builds the packaged datasets by their commands with generated arguments. Non-trivial: several partitions or both splits, and at least one link.",
    assumptions=("raw files are put where downloads are kept, nothing is downloaded",),
    native=True,
)
logging.disable(logging.CRITICAL)


def no_download(*a, **kw):
    raise RuntimeError("download attempted")


urllib.request.urlretrieve = no_download
names = st.one_of(
    st.integers(1, 10**7).map(str), st.text("abcdefghijklmnop", min_size=2, max_size=8).map(lambda s: s + "97")
)
DIMS = {"cora": 1433, "citeseer": 3703}
LABELS = ["Neural_Networks", "Theory", "AI", "0", "12", "Genetic_Algorithms", "IR"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["cora", "citeseer", "ppi", "reddit"]))
    n = draw(st.integers(2, 12))
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list)
    case = {"kind": kind, "partitions": draw(st.integers(1, 4)), "again": draw(st.integers(0, 9)) == 0, "seed": draw(st.integers(0, 99))}
    if kind in DIMS:
        case["papers"] = [
            {
                "name": name,
                "label": draw(st.sampled_from(LABELS)),
                "words": draw(st.lists(st.integers(0, DIMS[kind] - 1), max_size=5, unique=True)),
            }
            for name in draw(st.lists(names, min_size=n, max_size=n, unique=True))
        ]
        case["links"] = draw(st.lists(pair, max_size=3 * n))
        case["strangers"] = draw(st.integers(0, 2)) if kind == "citeseer" else 0
        case["ratio"] = draw(st.one_of(st.just(1.0), st.integers(1, 9).map(lambda i: i / 10)).filter(lambda r: int(n * r) > 0))
        case["random"] = draw(st.booleans())
        return case
    order = draw(st.permutations(range(n)))
    split = draw(st.lists(st.sampled_from(["train", "train", "val", "test"]), min_size=n, max_size=n))
    split[draw(st.integers(0, n - 1))] = "train"
    dim = draw(st.integers(1, 4))
    classes = draw(st.integers(1, 3)) if kind == "ppi" else 50
    case.update(
        order=list(order),
        split=split,
        names=draw(st.lists(names, min_size=n, max_size=n, unique=True)) if kind == "reddit" else None,
        links=draw(st.lists(pair.map(sorted), max_size=3 * n, unique_by=tuple)),
        feats=draw(
            st.lists(st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=dim, max_size=dim), min_size=n, max_size=n)
        ),
        labels=[
            draw(st.lists(st.integers(0, 1), min_size=classes, max_size=classes)) if kind == "ppi" else draw(st.integers(0, 49))
            for _ in range(n)
        ],
        keep=draw(st.sampled_from([1.0, 1.0, 0.0, 0.5])) if kind == "reddit" else 1.0,
    )
    return case


def packed(path, files):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with zipfile.ZipFile(path, "w") as z:
        for name, data in files.items():
            z.writestr(name, data)


def papers(case, tmp):
    """Raw files of a citation graph, and what the graph must be except for the split."""
    kind, dim = case["kind"], DIMS[case["kind"]]
    rows, model = [], {}
    for i, p in enumerate(case["papers"]):
        words = np.zeros(dim)
        words[p["words"]] = 1
        rows.append("\t".join([p["name"]] + [str(int(w)) for w in words] + [p["label"]]))
        model[i + 1] = {"feature": words, "label": p["label"]}
    cites = ["\t".join(case["papers"][x]["name"] for x in e) for e in case["links"]]
    for k in range(case["strangers"]):
        cites.insert(k, f"unknown_{k}\t{case['papers'][0]['name']}" if k % 2 else f"{case['papers'][0]['name']}\tunknown_{k}")
    folder = "cora" if kind == "cora" else "citeseer-doc-classification"
    path = os.path.join(tmp, "raw", "papers.zip")
    packed(path, {f"{folder}/{kind}.content": "\n".join(rows) + "\n", f"{folder}/{kind}.cites": "".join(x + "\n" for x in cites)})
    return path, model


def proteins(case, out):
    kind, order = case["kind"], case["order"]
    n = len(order)
    # raw node i is called key(i) and has number order[i]
    key = (lambda i: case["names"][i]) if kind == "reddit" else (lambda i: i)
    g = {
        "nodes": [{"id": key(i), "test": case["split"][i] == "test", "val": case["split"][i] == "val"} for i in range(n)],
        # links of posts refer to numbers, links of proteins to names
        "links": [{"source": order[a] if kind == "reddit" else a, "target": order[b] if kind == "reddit" else b} for a, b in case["links"]],
    }
    data = io.BytesIO()
    np.save(data, np.array(case["feats"], dtype=np.float64))
    packed(
        os.path.join(out, "raw", f"{kind}.zip"),
        {
            f"{kind}/{kind}-id_map.json": json.dumps({str(key(i)): order[i] for i in range(n)}),
            f"{kind}/{kind}-G.json": json.dumps(g),
            f"{kind}/{kind}-class_map.json": json.dumps({str(key(i)): case["labels"][i] for i in range(n)}),
            f"{kind}/{kind}-feats.npy": data.getvalue(),
        },
    )


@contextlib.contextmanager
def built(case, tmp, out, raw):
    kind = case["kind"]
    with sut(f"building the dataset {kind}"):
        if kind == "cora":
            g = CoraFull(
                out, **vp.lean({"train_node_ratio": (case["ratio"], 1.0), "random_selection": (case["random"], False), "num_partitions": (case["partitions"], 1)}), url=raw
            )
        elif kind == "citeseer":
            g = CiteseerFull(out, **vp.lean({"train_node_ratio": (case["ratio"], 1.0), "random_selection": (case["random"], False)}), url=raw)
        elif kind == "ppi":
            g = PPI(out, **vp.lean({"num_partitions": (case["partitions"], 1)}))
        else:
            g = Reddit(out, edge_downsample_pct=case["keep"], **vp.lean({"num_partitions": (case["partitions"], 2), "seed": (case["seed"], 0)}))
    try:
        yield g
    finally:
        g.reset()


def read(path):
    with open(path) as f:
        return sorted(int(x) for x in f.read().split())


def around(g, nodes, kind):
    """Neighbors of each node by edges of the type."""
    with sut("neighbors"):
        nbs, w, t, counts = g.neighbors(np.array(nodes), kind)
    equal(int(sum(counts)), len(nbs), "number of neighbors")
    equal(set(map(float, w)) | {1.0}, {1.0}, "weights of edges")
    equal(set(map(int, t)) | {kind}, {kind}, "types of edges")
    out, at = {}, 0
    for n, k in zip(nodes, counts):
        out[n] = sorted(int(x) for x in nbs[at : at + int(k)])
        at += int(k)
    return out


def features(g, nodes, sizes):
    with sut("features"):
        return [g.node_features(np.array(nodes), np.array([[i, s]], dtype=np.int32), np.float32) for i, s in enumerate(sizes)]


def body(case, tmp):
    kind = case["kind"]
    out = os.path.join(tmp, "out")
    os.makedirs(out)
    if kind in DIMS:
        raw, model = papers(case, tmp)
    else:
        raw, model = None, {x: {} for x in case["order"]}
        proteins(case, out)
    if case["again"]:
        with built(case, tmp, out, raw):
            pass
    nodes = sorted(model)
    with built(case, tmp, out, raw) as g:
        splits = ["train", "test"] if kind in DIMS else ["train", "val", "test"]
        if kind in DIMS:
            # the split may be any of the right size when it is random
            train = int(len(nodes) * case["ratio"])
            got = read(os.path.join(out, "train.nodes"))
            equal(len(set(got)), train, "number of training nodes")
            require(set(got) <= set(nodes), f"training nodes {got}")
            if not case["random"]:
                equal(got, nodes[:train], "training nodes")
            split = {x: "train" if x in set(got) else "test" for x in nodes}
            links = [(a + 1, b + 1) for a, b in case["links"]]
        else:
            split = {x: s for x, s in zip(case["order"], case["split"])}
            links = [(case["order"][a], case["order"][b]) for a, b in case["links"]]
        for i, s in enumerate(splits):
            mine = [x for x in nodes if split[x] == s]
            equal(read(os.path.join(out, f"{s}.nodes")), mine, f"nodes listed for {s}")
            # counts are known for types that exist
            if mine:
                with sut("number of nodes"):
                    equal(int(g.node_count(i)), len(mine), f"number of nodes for {s}")
                with sut("drawing nodes"):
                    drawn = g.sample_nodes(20, i, SamplingStrategy.Random)
                require(set(map(int, drawn)) <= set(mine), f"nodes drawn for {s}: {sorted(set(map(int, drawn)))}, expected from {mine}")
        with sut("node types"):
            got = [int(x) for x in g.node_types(np.array(nodes))]
        equal(got, [splits.index(split[x]) for x in nodes], f"types of nodes {nodes}")
        # links
        want = {0: {x: [] for x in nodes}, 1: {x: [] for x in nodes}}
        for a, b in {tuple(sorted(e)) for e in links}:
            t = 0 if split[a] == split[b] == "train" else 1
            want[t][a].append(b)
            if a != b:
                want[t][b].append(a)
        total = 0
        for t in (0, 1):
            got = around(g, nodes, t)
            total += sum(map(len, got.values()))
            if case.get("keep", 1.0) in (0.0, 1.0):
                expected = {x: sorted(v) if case.get("keep", 1.0) else [] for x, v in want[t].items()}
                equal(got, expected, f"neighbors by edges of type {t}")
                if any(expected.values()):
                    with sut("number of edges"):
                        equal(int(g.edge_count(t)), sum(map(len, expected.values())), f"number of edges of type {t}")
            else:
                for x, v in got.items():
                    require(set(v) <= set(want[t][x]) and len(set(v)) == len(v), f"neighbors {v} of {x}, expected from {want[t][x]}")
                    for y in v:
                        require(x in got[y], f"link of {x} to {y} in one direction only")
        # labels and features
        if kind in DIMS:
            f, lab = features(g, nodes, [DIMS[kind], 1])
            for x, row in zip(nodes, f):
                equal(np.flatnonzero(row).tolist(), np.flatnonzero(model[x]["feature"]).tolist(), f"words of {x}")
            equal(sorted(set(f.reshape(-1).tolist()) | {0.0, 1.0}), [0.0, 1.0], "values of words")
            seen = {}
            for x, k in zip(nodes, lab.reshape(-1).tolist()):
                equal(seen.setdefault(model[x]["label"], k), k, f"label of {x}")
            equal(sorted(seen.values()), [float(i) for i in range(len(seen))], "labels")
        else:
            raw_f = np.array(case["feats"])
            fit = raw_f[[x for x in nodes if split[x] == "train"]]
            dev = fit.std(axis=0)
            dev[dev == 0] = 1
            scaled = (raw_f - fit.mean(axis=0)) / dev
            size = len(case["labels"][0]) if kind == "ppi" else 50
            lab, f = features(g, nodes, [size, raw_f.shape[1]])
            by = {case["order"][i]: v for i, v in enumerate(case["labels"])}
            for i, x in enumerate(nodes):
                one = by[x] if kind == "ppi" else [int(j == by[x]) for j in range(50)]
                equal(lab[i].tolist(), [float(v) for v in one], f"labels of {x}")
                require(np.allclose(f[i], scaled[x], rtol=1e-4, atol=1e-4), f"features of {x}: {f[i].tolist()}, expected {scaled[x].tolist()}")
            equal((g.NUM_NODES, g.FEATURE_DIM, g.NUM_CLASSES), (len(nodes), raw_f.shape[1], size), "sizes of the dataset")
    if total and (case["partitions"] > 1 or len(set(split.values())) > 1):
        c.note(case)


@st.composite
def share_cases(draw):
    n = draw(st.integers(30, 40))
    return {
        "n": n,
        "skip": draw(st.integers(1, 5)),
        "train": draw(st.integers(1, n)),
        "keep": draw(st.sampled_from([0.1, 0.1, 0.25, 0.5, 0.75, 0.9])),
        "seed": draw(st.integers(0, 99)),
        "partitions": draw(st.integers(1, 3)),
    }


def share_body(case, tmp):
    n = case["n"]
    links = [[a, b] for a in range(n) for b in range(a + 1, n) if (a + b) % (case["skip"] + 1)]
    full = {
        "kind": "reddit", "order": list(range(n)), "split": ["train"] * case["train"] + ["test"] * (n - case["train"]),
        "names": [f"p{i}" for i in range(n)], "links": links, "feats": [[i / 4, 1.0] for i in range(n)], "labels": [i % 50 for i in range(n)],
    }
    seen = []
    for k in range(2):
        out = os.path.join(tmp, f"out{k}")
        os.makedirs(out)
        proteins(full, out)
        with sut("building the dataset reddit"):
            g = Reddit(
                out,
                **vp.lean({"edge_downsample_pct": (case["keep"], 0.1), "num_partitions": (case["partitions"], 2), "seed": (case["seed"], 0)}),
            )
        try:
            got = [around(g, list(range(n)), t) for t in (0, 1)]
        finally:
            g.reset()
        seen.append(got)
    equal(seen[0], seen[1], "links kept for the same seed")
    kept = {(x, y) for t in got for x, v in t.items() for y in v}
    require(kept <= {tuple(e) for e in links} | {tuple(e[::-1]) for e in links}, "links that were not there")
    equal({(b, a) for a, b in kept}, kept, "links kept in both directions")
    m, p = len(links), case["keep"]
    require(abs(len(kept) / 2 - m * p) <= 6 * (m * p * (1 - p)) ** 0.5, f"{len(kept) // 2} of {m} links kept for a share of {p}")
    c.note(case)


@st.composite
def command_cases(draw):
    kind = draw(st.sampled_from(["cora", "cora", "citeseer"]))
    return {
        "kind": kind,
        "ratio": draw(st.sampled_from([None, 0.5, 0.9])),
        "random": draw(st.booleans()),
        "partitions": draw(st.sampled_from([None, 1, 2, 3])) if kind == "cora" else None,
    }


def command_body(case, tmp):
    """Datasets that come with the package, built by their commands."""
    kind = case["kind"]
    argv = [kind, "--data_dir", tmp]
    if case["ratio"] is not None:
        argv += ["--train_node_ratio", str(case["ratio"])]
    if case["random"]:
        argv += ["--random_selection"]
    if case["partitions"] is not None:
        argv += ["--num_partitions", str(case["partitions"])]
    old, sys.argv = sys.argv, argv
    try:
        with sut(f"command {argv}"), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_module(f"deepgnn.graph_engine.data.{kind}", run_name="__main__")
    except SystemExit as e:
        require(False, f"command {argv} ended with {e.code}")
    finally:
        sys.argv = old
    with open(os.path.join(tmp, "meta.json")) as f:
        meta = json.load(f)
    n = {"cora": 2708, "citeseer": 3312}[kind]
    train = int(n * (case["ratio"] or 1.0))
    equal(len(meta["partitions"]), case["partitions"] or 1, "number of partitions")
    equal(meta["node_count_per_type"], [train, n - train] if train < n else [n], f"number of nodes by type after {argv}")
    listed = read(os.path.join(tmp, "train.nodes"))
    equal(len(set(listed)), train, "number of training nodes")
    if 0 < train < n:
        equal(listed != list(range(1, train + 1)), case["random"], "random selection")
    c.note(case)



c.campaign("share", share_cases(), share_body, 60, 600)
c.campaign("raw", cases(), body, 400, 6000)
c.campaign("commands", command_cases(), command_body, 3, 20)

if __name__ == "__main__":
    c.main()
