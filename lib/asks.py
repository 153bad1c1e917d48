"""Queries of every kind against a low-level client, and what may differ between two answers to one query."""
import collections

from vp import st, equal, require
import numpy as np
import engine as en
import temporal as tp

KINDS = ["weighted", "uniform", "withoutreplacement"]


def kinds(scale):
    ops = ["type", "nodes", "edges", "count", "list", "weighted", "uniform", "walk", "ppr", "draw", "feat", "sparse", "string"]
    return ops + (["lastn"] * 2 if scale else [])


@st.composite
def queries(draw, g, scale, ns, es, ops=None):
    ids = [n["id"] for n in g["nodes"]]
    edges = [[n["id"], e["dst"], e["type"]] for n in g["nodes"] for e in n["edges"]]
    anyid = st.one_of(st.sampled_from(ids), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    op = draw(st.sampled_from(ops or kinds(scale)))
    k = draw(st.integers(1, 4))
    q = {"op": op, "seed": draw(st.integers(0, 2**32))}
    if op in ("nodes", "edges", "draw"):
        q.update(op="draw", what="edge" if op == "edges" else "node", kind=draw(st.integers(0, 2)), size=draw(st.integers(1, 6)))
        return q
    if op in ("feat", "sparse", "string"):
        q["what"] = draw(st.sampled_from(["node", "edge"])) if edges else "node"
        sp = ns if q["what"] == "node" else es
        fit = {"feat": ("dense", "bin"), "sparse": ("sparse",), "string": ("bin",)}[op]
        have = [i for i, s in enumerate(sp) if s["k"] in fit]
        q["features"] = draw(st.lists(st.sampled_from(have), min_size=1, max_size=2, unique=True)) if have else [len(sp)]
        q["keys"] = draw(st.lists(anyid if q["what"] == "node" else st.sampled_from(edges), min_size=k, max_size=k))
        return q
    q["nodes"] = draw(st.lists(anyid, min_size=k, max_size=k))
    if op == "type":
        return q
    q["types"] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True))
    q["moments"] = draw(st.lists(tp.moments(scale), min_size=k, max_size=k)) if scale and (op == "lastn" or draw(st.booleans())) else None
    if op in ("weighted", "uniform", "lastn"):
        q["count"] = draw(st.integers(1, 5))
    if op == "uniform":
        q["distinct"] = draw(st.booleans())
    if op == "walk":
        q["len"] = draw(st.integers(1, 4))
    return q


def make_samplers(client, g):
    """Samplers of every kind over all types."""
    out = {}
    for what, cls in (("node", en.sclient.NodeSampler), ("edge", en.sclient.EdgeSampler)):
        if what == "edge" and not any(n["edges"] for n in g["nodes"]):
            continue
        for i, k in enumerate(KINDS):
            out[what, i] = cls(client, [0, 1, 2], k)
    return out


def drawable(q, g):
    """Is there enough to draw from?"""
    pop = {}
    for n in g["nodes"]:
        for x in [n] if q["what"] == "node" else n["edges"]:
            # parallel edges of one type are one element of uniform samplers
            pop.setdefault((n["id"], x.get("dst"), x["type"]), x["weight"])
    return any(w > 0 for w in pop.values()) and (KINDS[q["kind"]] != "withoutreplacement" or q["size"] <= len(pop))


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return np.asarray(x).tolist()


def ask(g, samplers, q, case):
    """Answer to a query as nested lists."""
    op = q["op"]
    mom = None if q.get("moments") is None else np.array(q["moments"], dtype=np.int64)
    nodes = np.array(q.get("nodes", []), dtype=np.int64)
    if op == "draw":
        return plain(samplers[q["what"], q["kind"]].sample(q["size"], seed=q["seed"]))
    if op in ("feat", "sparse", "string"):
        spec = dict(enumerate(case["specs"][q["what"] == "edge"])).get(q["features"][0], {})
        keys = np.array(q["keys"], dtype=np.int64)
        args = [keys] if q["what"] == "node" else [keys[:, 0], keys[:, 1], keys[:, 2].astype(np.int32)]
        fs = np.array(q["features"], dtype=np.int32)
        if op == "feat":
            fs = np.array([[f, 5] for f in q["features"]], dtype=np.int32)
        name = q["what"] + {"feat": "_features", "sparse": "_sparse_features", "string": "_string_features"}[op]
        dt = np.dtype(spec.get("dt", "uint8")) if op == "sparse" and len(fs) == 1 else np.dtype("uint8")
        return plain([np.asarray(x).view(np.uint8) if getattr(x, "dtype", None) == np.float16 else x for x in getattr(g, name)(*args, fs, dt)])
    if op == "type":
        return plain(g.node_types(nodes, -7))
    if op == "count":
        return plain(g.neighbor_counts(nodes, q["types"], mom))
    if op == "list":
        return plain(g.neighbors(nodes, q["types"], mom, mom is not None))
    if op == "weighted":
        return plain(g.weighted_sample_neighbors(nodes, q["types"], q["count"], -1, -2.0, -3, q["seed"], mom))
    if op == "uniform":
        return plain(g.uniform_sample_neighbors(q["distinct"], nodes, q["types"], q["count"], -1, -3, q["seed"], mom))
    if op == "lastn":
        return plain(g.lastn_neighbors(nodes, q["types"], mom, q["count"], -1, -2.0, -3, -4, True))
    if op == "walk":
        return plain(g.random_walk(nodes, q["types"], q["len"], 0.5, 2.0, -1, q["seed"], mom))
    return plain(g.ppr_neighbors(nodes, q["types"], 6, 0.5, 1e-3, -1, -2.0, mom))


def sampled(q, got, model, name):
    """Neighbors drawn by several servers depend on who answers first: each place must hold an edge that exists."""
    for i, n in enumerate(q["nodes"]):
        es = model.out(n, q["types"], None if q["moments"] is None else q["moments"][i])
        if q["op"] == "weighted" and not any(e["weight"] for e in es):
            es = []
        cols = (got[0][i], got[2][i], got[1][i]) if q["op"] == "weighted" else (got[0][i], got[1][i])
        have = collections.Counter((e["dst"], e["type"]) for e in es)
        res = list(zip(*cols[:2]))
        what = f"{name}: neighbors of {n} {res}, edges {sorted(have)}"
        if q["op"] == "uniform" and q["distinct"]:
            size = min(len(es), q["count"])
            equal(res[size:], [(-1, -3)] * (q["count"] - size), what)
            require(not collections.Counter(res[:size]) - have, what)
        elif es:
            require(all(x in have for x in res), what)
        else:
            equal(res, [(-1, -3)] * q["count"], what)


def drawn(q, got, g, name):
    """A server that came back may draw others from the same seed."""
    have = collections.Counter()
    for n in g["nodes"]:
        for x in [(n["id"], n["type"])] if q["what"] == "node" else [(n["id"], e["dst"], e["type"]) for e in n["edges"]]:
            have[x] += 1
    res = list(zip(*got)) if q["what"] == "node" else [tuple(x) for x in zip(got[0], got[1], got[2])]
    require(len(res) == q["size"] and all(x in have for x in res), lambda: f"{name}: drew {res} from {sorted(have)}")
    if KINDS[q["kind"]] == "withoutreplacement":
        require(not collections.Counter(res) - have, lambda: f"{name}: drew {res} from {sorted(have)} without replacement")


def ranked(got, want, what):
    """Which of the equally ranked neighbors at the end of the list are returned is open."""
    for ids, ws, wids, wws in zip(*got, *want):
        equal(ws, wws, what)
        least = min(ws)
        equal(sorted((w, x) for x, w in zip(ids, ws) if w > least), sorted((w, x) for x, w in zip(wids, wws) if w > least), what)
