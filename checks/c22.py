"""C22: random walks follow existing edges and choose them with the promised probabilities."""
import collections
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
import temporal as tp

c = Check(
    "C22",
    "a case is a generated directed multigraph with self loops, temporal or not, a placement in 1-4 partitions, a backend "
    "(memory, disk, 1-3 servers) and walks from a batch of nodes (unknown and repeated ones included) of 0-6 steps over "
    "generated edge types with return and in-out parameters from 1/8 to 8. Every step must follow an edge visible at the "
    "moment of the walk, a walk ends (with default nodes) exactly where a node has no such edge, and the same seed gives "
    "the same walks. The campaign 'frequencies' enumerates all walks of 1-3 steps from one node with their exact "
    "probabilities (definition of node2vec) and compares with the share among 4000 walks (limit: six standard errors). "
    "Non-trivial: some walk makes a step with two or more choices.",
    assumptions=("the default node isn't a node of the graph",),
    native=True,
)
FACTORS = [0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0]


@st.composite
def some_graph(draw, max_edges=5):
    if draw(st.booleans()):
        scale = draw(tp.scales)
        g = draw(tp.graphs([], [], True, scale))
        lay = draw(en.layouts(g, allow_convert=False))
        if draw(st.booleans()):
            lay = {"how": "convert", "parts": lay["parts"]}
    else:
        scale = 0
        g = draw(en.graphs(max_nodes=6, max_edges=max_edges, multi=True, big_ids=draw(st.booleans())))
        if draw(st.integers(0, 2)) == 0:
            # parallel edges that differ in type only
            for n in g["nodes"]:
                n["edges"] += [dict(e, type=(e["type"] + 1) % 3) for e in n["edges"][:2]]
        lay = draw(en.layouts(g))
    ids = [n["id"] for n in g["nodes"]]
    if draw(st.booleans()):
        # stay inside of the graph to make longer walks
        for n in g["nodes"]:
            for e in n["edges"]:
                if e["dst"] not in ids:
                    e["dst"] = draw(st.sampled_from(ids))
    return scale, g, lay


@st.composite
def cases(draw):
    scale, g, lay = draw(some_graph())
    ids = [n["id"] for n in g["nodes"]]
    busy = [n["id"] for n in sorted(g["nodes"], key=lambda n: -len(n["edges"]))[:2]]
    anyid = st.one_of(st.sampled_from(busy), st.sampled_from(busy), st.sampled_from(ids), st.integers(0, 40))
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, 6))
        queries.append(
            {
                "nodes": draw(st.lists(anyid, min_size=k, max_size=k)),
                "moments": draw(st.lists(tp.moments(scale), min_size=k, max_size=k)) if scale and draw(st.integers(0, 4)) else None,
                "types": draw(st.one_of(st.just([2, 0, 1]), st.integers(0, 2), st.lists(st.integers(0, 4), min_size=1, max_size=4))),
                "len": draw(st.integers(0, 6)),
                "p": draw(st.sampled_from(FACTORS)),
                "q": draw(st.sampled_from(FACTORS)),
                "seed": draw(st.one_of(st.integers(-(2**63), 2**63 - 1), st.integers(-(2**63), 2**63 - 1), st.none())),
                "default": draw(st.sampled_from([-1, -7, -(2**62)])),
            }
        )
    return {
        "scale": scale, "graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"])), "queries": queries,
        "wide": draw(en.wides), "crowd": draw(en.crowds),
    }


def stored(case, tmp):
    if case["scale"]:
        return en.Model(tp.effective(case["graph"])), tp.store(case["graph"], case["layout"], tmp, tp.mark(case))
    return en.Model(case["graph"]), en.store(case["graph"], case["layout"], tmp)


def listed(types):
    return [types] if isinstance(types, int) else types


def body(case, tmp):
    short, case = case, en.scaled(case)
    m, folder = stored(case, tmp)
    hit = False
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for q in case["queries"]:
            nodes = np.array(q["nodes"], dtype=np.int64)
            mom = None if q["moments"] is None else np.array(q["moments"], dtype=np.int64)

            def call():
                # without a seed the generator of Python is used; documented defaults are left out
                random.seed(q["nodes"][0])
                kw = vp.lean({"default_node": (q["default"], -1), "seed": (q["seed"], None), "timestamps": (mom, None)})
                with sut("random walk"):
                    return cl.random_walk(nodes, q["types"], q["len"], q["p"], q["q"], **kw)

            got = call()
            equal(got.shape, (len(nodes), q["len"] + 1), "shape of walks")
            for i, n in enumerate(q["nodes"]):
                walk = got[i].tolist()
                what = f"walk {walk} over {q['types']}" + ("" if mom is None else f" at {q['moments'][i]}")
                equal(walk[0], n, f"first node of {what}")
                for a, b in zip(walk, walk[1:]):
                    nbs = {e["dst"] for e in m.out(a, listed(q["types"]), None if mom is None else q["moments"][i])}
                    hit = hit or len(nbs) > 1
                    if not nbs:
                        require(b == q["default"], lambda: f"{what}: {a} has no neighbors, {b} follows instead of {q['default']}")
                    else:
                        require(b in nbs, lambda: f"{what}: {b} isn't a neighbor of {a}, neighbors are {sorted(nbs)}")
            equal(call().tolist(), got.tolist(), f"walks with the same seed {q['seed']}")
    if hit:
        c.note(short)


@st.composite
def frequency_cases(draw):
    scale, g, lay = draw(some_graph(4))
    for n in g["nodes"]:
        del n["edges"][5:]
    if lay["how"] == "split":
        lay["edges"] = [x[:5] for x in lay["edges"]]
    return {
        "scale": scale, "graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"], ("memory", "disk", "remote", "remote"))),
        "node": draw(st.sampled_from(sorted(g["nodes"], key=lambda n: -len(n["edges"]))[:2]))["id"],
        "moment": draw(tp.moments(scale)) if scale and draw(st.integers(0, 4)) else None,
        "types": draw(st.sampled_from([[0, 1, 2], [0, 1, 2], [0, 1], [1, 2], [0], [1]])),
        "len": draw(st.sampled_from([1, 2, 2, 3, 3])),
        "p": draw(st.sampled_from(FACTORS)), "q": draw(st.sampled_from(FACTORS)),
        "seed": draw(st.integers(0, 2**62)),
    }


def exact(m, case):
    """Probability of every walk: second order transitions of node2vec."""
    cache = {}

    def out(n):
        if n not in cache:
            cache[n] = m.out(n, case["types"], case["moment"])
        return cache[n]

    walks = {(case["node"],): 1.0}
    for step in range(case["len"]):
        after = collections.Counter()
        for w, pr in walks.items():
            share = collections.Counter()
            parents = {e["dst"] for e in out(w[-2])} if step else set()
            for e in out(w[-1]):
                if not step:
                    f = 1.0
                elif e["dst"] == w[-2]:
                    f = 1 / case["p"]
                elif e["dst"] in parents:
                    f = 1.0
                else:
                    f = 1 / case["q"]
                share[e["dst"]] += e["weight"] * f
            if not share:
                share[-1] = 1.0
            total = sum(share.values())
            for x, s in share.items():
                after[w + (x,)] += pr * s / total
        walks = after
    return walks


def frequencies(case, tmp):
    m, folder = stored(case, tmp)
    want = exact(m, case)
    batch, calls = 250, 16
    nodes = np.full(batch, case["node"], dtype=np.int64)
    mom = None if case["moment"] is None else np.full(batch, case["moment"], dtype=np.int64)
    seeds = np.random.default_rng(case["seed"]).integers(0, 2**62, calls)
    counts = collections.Counter()
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for s in seeds:
            with sut("random walk"):
                got = cl.random_walk(nodes, case["types"], case["len"], case["p"], case["q"], -1, int(s), mom)
            counts.update(tuple(r) for r in got.tolist())
    n = batch * calls
    for w in set(want) | set(counts):
        p = want.get(w, 0.0)
        limit = 6 * np.sqrt(n * p * (1 - p)) + (6 if p else 0)
        require(
            abs(counts[w] - n * p) <= limit,
            lambda: f"walk {w} with p={case['p']}, q={case['q']} came {counts[w]} times of {n}, expected {n * p:.1f} +- {limit:.1f}",
        )
    if len(want) > 1:
        c.note(case)


c.campaign("sound", cases(), body, 500, 8000)
c.campaign("frequencies", frequency_cases(), frequencies, 300, 5000)

if __name__ == "__main__":
    c.main()
