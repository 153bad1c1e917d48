"""C20: sampled neighbors are edges of the graph, drawn with the promised probabilities."""
import collections
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import graphio as gio
import temporal as tp

c = Check(
    "C20",
    "a case is a generated multigraph, temporal or not, a placement in 1-4 partitions (nodes may be split), a backend "
    "(memory, disk, 1-3 servers) and queries of weighted, uniform and uniform sampling without replacement with "
    "generated nodes, types, sizes, defaults, seeds and moments. Every returned neighbor must be a (visible) edge of a requested "
    "type with its weight and creation time, defaults appear only when there is nothing (left) to return, and without "
    "replacement no edge is returned twice. The campaign 'frequencies' compares averages over some thousand samples of "
    "each edge with the expectation (limit: six standard errors). Non-trivial: some sampled node has two or more candidates.",
    native=True,
)


@st.composite
def some_graph(draw):
    if draw(st.booleans()):
        scale = draw(tp.scales)
        g = draw(tp.graphs([], [], True, scale))
        lay = draw(en.layouts(g, allow_convert=False))
        if draw(st.booleans()):
            lay = {"how": "convert", "parts": lay["parts"]}
    else:
        scale = 0
        g = draw(en.graphs(max_nodes=6, max_edges=6, multi=True))
        lay = draw(en.layouts(g))
    if draw(st.booleans()):
        # weights whose sums are rounded
        for n in g["nodes"]:
            for e in n["edges"]:
                e["weight"] = gio.f32(draw(st.sampled_from([0.1, 0.2, 0.3, 0.7, 1 / 3, 1.1, 13.37, 1e-3])))
    elif draw(st.booleans()):
        # edges that are never drawn
        for n in g["nodes"]:
            for e in n["edges"]:
                e["weight"] *= draw(st.integers(0, 1))
    return scale, g, lay


@st.composite
def cases(draw):
    scale, g, lay = draw(some_graph())
    ids = [n["id"] for n in g["nodes"]]
    anyid = st.one_of(st.sampled_from(ids), st.sampled_from(ids), st.sampled_from(ids), st.integers(0, 40))
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, 6))
        queries.append(
            {
                "nodes": draw(st.lists(anyid, min_size=k, max_size=k)),
                "moments": draw(st.lists(tp.moments(scale), min_size=k, max_size=k)) if scale and draw(st.integers(0, 4)) else None,
                "types": draw(st.lists(st.integers(0, 4), min_size=1, max_size=4)),
                "count": draw(st.one_of(st.integers(1, 6), st.sampled_from([1, 25]))),
                "seed": draw(st.one_of(st.integers(0, 2**63 - 1), st.integers(0, 2**63 - 1), st.none())),
                "node": draw(st.sampled_from([-1, -1, -7, 0, 10**12])),
                "weight": draw(st.sampled_from([0.0, 0.0, -1.0, 2.5])),
                "type": draw(st.sampled_from([-1, -1, 0, 9])),
                "created": draw(st.booleans()),
            }
        )
    return {
        "scale": scale, "graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"])), "queries": queries,
        "wide": draw(en.wides), "crowd": draw(en.crowds),
    }


def stored(case, tmp):
    if case["scale"]:
        return en.Model(tp.effective(case["graph"])), tp.store(case["graph"], case["layout"], tmp, tp.mark(case))
    return en.Model(case["graph"]), en.store(case["graph"], case["layout"], tmp)


def body(case, tmp):
    short, case = case, en.scaled(case)
    m, folder = stored(case, tmp)
    hit = False
    fixed = case["backend"]["kind"] != "remote" or case["backend"]["shards"] == 1
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for q in case["queries"]:
            nodes = np.array(q["nodes"], dtype=np.int64)
            mom = None if q["moments"] is None else np.array(q["moments"], dtype=np.int64)
            timed = q["created"] and mom is not None
            k = q["count"]
            for mode in ("weighted", "uniform", "distinct"):
                def call():
                    # without a seed the generator of Python is used; documented defaults are left out
                    random.seed(q["nodes"][0])
                    kw = vp.lean(
                        {"default_node": (q["node"], -1), "default_weight": (q["weight"], 0.0), "default_edge_type": (q["type"], -1),
                         "seed": (q["seed"], None), "timestamps": (mom, None), "return_edge_created_ts": (timed, False)}
                    )
                    with sut(f"{mode} sampling"):
                        if mode == "weighted":
                            return cl.weighted_sample_neighbors(nodes, q["types"], k, **kw)
                        kw.pop("default_weight", None)
                        if "default_edge_type" in kw:
                            kw["default_type"] = kw.pop("default_edge_type")
                        return cl.uniform_sample_neighbors(mode == "distinct", nodes, q["types"], k, **kw)

                res = call()
                parts = {"dst": res[0], "type": res[-1] if not timed else res[-2]}
                if mode == "weighted":
                    parts["weight"] = res[1]
                if timed:
                    parts["created_at"] = res[-1]
                equal(len(res), (3 if mode == "weighted" else 2) + timed, f"number of arrays of {mode} sampling")
                for name, a in parts.items():
                    equal(a.shape, (len(nodes), k), f"shape of {name} of {mode} sampling")
                names = [x for x in parts if x != "weight"]
                default = {"dst": q["node"], "type": q["type"], "weight": q["weight"], "created_at": -1}
                default = tuple(default[x] for x in names)
                for i, n in enumerate(q["nodes"]):
                    es = m.out(n, q["types"], None if mom is None else q["moments"][i])
                    have = collections.Counter(tuple(e[x] for x in names) for e in es)
                    got = [tuple(parts[x][i][j].item() for x in names) for j in range(k)]
                    what = f"{mode} sample of {k} neighbors {names} of {n}" + ("" if mom is None else f" at {q['moments'][i]}") + f" over {q['types']}: got {got}, edges {sorted(have)}, default {default}"
                    hit = hit or len(have) > 1
                    if mode == "weighted":
                        if not any(e["weight"] for e in es):
                            es, have = [], {}
                        elif mom is None:
                            es = [e for e in es if e["weight"]]
                            have = {tuple(e[x] for x in names) for e in es}
                        # weights are differences of running sums
                        slack = 1e-6 * sum(e["weight"] for e in m.out(n, q["types"]))
                        for j in range(k):
                            w = parts["weight"][i][j].item()
                            require(
                                w == q["weight"] if not es
                                else any(abs(w - e["weight"]) <= slack for e in es if tuple(e[x] for x in names) == got[j]),
                                lambda: what + f", weight {w} of {got[j]}, edges {[(e['dst'], e['type'], e['weight']) for e in es]}",
                            )
                    if not es:
                        require(got == [default] * k, what)
                    elif mode == "distinct":
                        want = min(k, len(es))
                        require(got[want:] == [default] * (k - want), what)
                        require(not (collections.Counter(got[:want]) - have), what)
                    else:
                        require(all(x in have for x in got), what)
                if fixed:
                    again = call()
                    require(all(np.array_equal(a, b) for a, b in zip(res, again)), lambda: f"{mode} sampling with the same seed {q['seed']} gave {res} and then {again}")
    if hit:
        c.note(short)


@st.composite
def frequency_cases(draw):
    """One node with a few edges, in one or several places."""
    temporal = draw(st.booleans())
    edges = []
    spread = draw(st.booleans())
    for d in range(draw(st.integers(4, 14) if spread else st.integers(2, 7))):
        e = {"dst": 10 + d, "type": draw(st.integers(0, 2)), "weight": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0])), "features": []}
        if temporal:
            e["ca"], e["ra"] = draw(st.sampled_from([(None, None), (None, 5), (3, None), (2, 6), (0, 2), (7, None), (0, 9)]))
        edges.append(e)
    node = {"id": 1, "type": 0, "weight": 1.0, "features": [], "edges": edges}
    if temporal:
        node.update(ca=None, ra=None)
    g = {"nodes": [node]}
    lay = draw(en.layouts(g, max_parts=3, allow_convert=False))
    backend = draw(en.backends(lay["parts"]))
    mode = draw(st.sampled_from(["weighted", "uniform", "distinct"]))
    if spread:
        # servers with different numbers of edges
        parts = draw(st.integers(2, 3))
        shares = st.sampled_from(draw(st.sampled_from([[0, 1], [0, 0, 1], [0, 1, 1, 1, 1]])) + [parts - 1])
        lay = {"how": "split", "parts": parts, "nodes": [0], "edges": [[draw(shares) for _ in edges]]}
        backend = {"kind": "remote", "shards": parts, "storage": "memory", "threads": 1}
    elif mode == "weighted" and lay["how"] == "split" and lay["parts"] > 1:
        # edges of a node in several partitions of one server: known finding C20-1
        backend = {"kind": "remote", "shards": lay["parts"], "storage": "memory", "threads": 1}
    return {
        "scale": int(temporal), "graph": g, "layout": lay, "backend": backend,
        "moment": draw(st.integers(0, 8)) if temporal else None,
        "types": sorted({e["type"] for e in edges}) if draw(st.booleans()) else draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)),
        "count": draw(st.integers(1, 5)),
        "mode": mode,
        "seed": draw(st.integers(0, 2**62)),
    }


ROWS, CALLS = 80, 60


def frequencies(case, tmp):
    m, folder = stored(case, tmp)
    mode, k = case["mode"], case["count"]
    nodes = np.full(ROWS, 1, dtype=np.int64)
    mom = None if case["moment"] is None else np.full(ROWS, case["moment"], dtype=np.int64)
    es = m.out(1, case["types"], case["moment"])
    seeds = np.random.default_rng(case["seed"]).integers(0, 2**62, CALLS)
    rows = []
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for s in seeds:
            with sut(f"{mode} sampling"):
                if mode == "weighted":
                    rows.append(cl.weighted_sample_neighbors(nodes, case["types"], k, seed=int(s), timestamps=mom)[0])
                else:
                    rows.append(cl.uniform_sample_neighbors(mode == "distinct", nodes, case["types"], k, seed=int(s), timestamps=mom)[0])
    rows = np.concatenate(rows)
    if not es:
        require((rows == -1).all(), "neighbors of a node without edges")
        return
    total = sum(e["weight"] for e in es)
    for e in es:
        p = e["weight"] / total if mode == "weighted" else 1 / len(es)
        expected = k * p if mode != "distinct" else min(k, len(es)) / len(es)
        got = (rows == e["dst"]).sum(axis=1)
        base = expected * (1 - p) if mode != "distinct" else expected * (1 - expected)
        err = 6 * np.sqrt(max(float(got.var()), base) / len(got)) + 1e-4
        require(
            abs(got.mean() - expected) <= err,
            lambda: f"{mode} sampling of {k} from {[(x['dst'], x['type'], x['weight']) for x in es]}: neighbor {e['dst']} "
            f"came {got.mean():.4f} times per sample on average of {len(got)}, expected {expected:.4f} +- {err:.4f}",
        )
    if len(es) > 1:
        c.note(case)


c.campaign("sound", cases(), body, 400, 6000)
c.campaign("frequencies", frequency_cases(), frequencies, 300, 4000)
c.known_case(
    "C20-1",
    "frequencies",
    {
        "scale": 0,
        "graph": {
            "nodes": [
                {
                    "id": 1, "type": 0, "weight": 1.0, "features": [],
                    "edges": [
                        {"dst": 10, "type": 0, "weight": 1.0, "features": []},
                        {"dst": 11, "type": 1, "weight": 1.0, "features": []},
                        {"dst": 12, "type": 1, "weight": 2.0, "features": []},
                    ],
                }
            ]
        },
        "layout": {"how": "split", "parts": 2, "nodes": [0], "edges": [[0, 0, 1]]},
        "backend": {"kind": "memory"}, "moment": None, "types": [0, 1], "count": 4, "mode": "weighted", "seed": 1,
    },
)

if __name__ == "__main__":
    c.main()
