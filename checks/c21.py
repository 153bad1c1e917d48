"""C21: nodes and edges drawn from the whole graph exist, have a requested type and come with the promised probabilities."""
import collections
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import engine as en
from deepgnn.graph_engine.snark import client

c = Check(
    "C21",
    "a case is a generated graph (0-3 node and edge types with gaps, zero weights, partitions and servers without any "
    "element of a type), a placement in 1-4 partitions, a backend (memory, disk, 1-3 servers) and samplers of nodes and edges of "
    "every kind (weighted, uniform, without replacement) with generated types (one, several, repeated, unknown, all), "
    "sizes and seeds. Every drawn element must exist with the returned type, which is a requested one; without replacement "
    "(sizes up to the population) nothing comes twice; the same seed gives the same elements; a sampler of types without elements is "
    "refused. The campaign 'frequencies' compares the average number of times each element comes with the expectation "
    "(limit: six standard errors). Non-trivial: a sampler draws from two or more elements.",
    native=True,
)
# a sampler refused by its constructor complains when it is collected
sys.unraisablehook = lambda *a: None
KINDS = ("weighted", "uniform", "withoutreplacement")


@st.composite
def some_graph(draw, **kw):
    zeros = draw(st.booleans())
    w = st.sampled_from([0.0, 0.5, 1.0, 2.0, 4.0] if zeros else [0.25, 0.5, 1.0, 2.0, 4.0, 8.0])
    g = draw(en.graphs(max_nodes=8, max_edges=5, node_types=4, edge_types=4, weight=w, **kw))
    return g, draw(en.layouts(g))


@st.composite
def cases(draw):
    g, lay = draw(some_graph())
    types = st.one_of(st.just(-1), st.integers(0, 4), st.lists(st.integers(0, 5), min_size=1, max_size=4))
    draws = [
        {
            "what": draw(st.sampled_from(["node", "edge"])),
            "kind": draw(st.sampled_from(KINDS)),
            "types": draw(types),
            "sizes": draw(st.lists(st.integers(1, 25), min_size=1, max_size=3)),
            "seed": draw(st.one_of(st.integers(-(2**63), 2**63 - 1), st.integers(-(2**63), 2**63 - 1), st.none())),
        }
        for _ in range(draw(st.integers(1, 5)))
    ]
    return {"graph": g, "layout": lay, "backend": draw(en.backends(lay["parts"])), "draws": draws}


def population(graph, what, types):
    """Elements of requested types with their weights."""
    if what == "node":
        all_ = [((n["id"], n["type"]), n["weight"]) for n in graph["nodes"]]
    else:
        all_ = [((n["id"], e["dst"], e["type"]), e["weight"]) for n in graph["nodes"] for e in n["edges"]]
    if types == -1:
        return all_
    want = {types} if isinstance(types, int) else set(types)
    return [x for x in all_ if x[0][-1] in want]


def sampler(cl, d):
    cls = client.NodeSampler if d["what"] == "node" else client.EdgeSampler
    return cls(cl, d["types"], d["kind"])


def body(case, tmp):
    folder = en.store(case["graph"], case["layout"], tmp)
    hit, last = False, None
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        for d in case["draws"]:
            pop = population(case["graph"], d["what"], d["types"])
            name = f"{d['kind']} sampler of {d['what']}s of types {d['types']}"
            if not pop:
                try:
                    sampler(cl, d)
                except AssertionError:
                    continue
                require(False, f"{name} was created without any element to draw")
            have = {x for x, w in pop}
            if d["kind"] == "weighted":
                have = {x for x, w in pop if w > 0}
                if not have:
                    continue
            hit = hit or len(have) > 1
            with sut(name):
                s = sampler(cl, d)
            for k in d["sizes"]:
                wo = d["kind"] == "withoutreplacement"
                if wo and k > len(have):
                    k = len(have) if k % 4 == 0 else 1 + k % len(have)
                base = k if d["seed"] is None else d["seed"] // 2
                # without a seed the generator of Python is used
                for seed in ([base + i for i in range(1, 12)] if wo else []) + [d["seed"]]:
                    random.seed(k)
                    with sut(f"{name}, {k} elements"):
                        res = s.sample(k, **vp.lean({"seed": (seed, None)}))
                    equal(len(res), 2 if d["what"] == "node" else 3, f"number of arrays of {name}")
                    for a in res:
                        equal(a.shape, (k,), f"shape of {name}")
                    got = list(zip(*(a.tolist() for a in res)))
                    require(all(x in have for x in got), lambda: f"{name}: drew {got} from {sorted(have)}")
                    if wo:
                        require(len(set(got)) == k, lambda: f"{name}: drew {got}, some of them twice")
                random.seed(k)
                with sut(f"{name}, again"):
                    again = s.sample(k, **vp.lean({"seed": (seed, None)}))
                equal([a.tolist() for a in again], [a.tolist() for a in res], f"{name} with the same seed {seed}")
                last = d, k, seed, [a.tolist() for a in res]
    if last:
        # the same graph loaded again
        d, k, seed, res = last
        random.seed(k)
        with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl, sut("sampler of the same graph loaded again"):
            again = sampler(cl, d).sample(k, **vp.lean({"seed": (seed, None)}))
        equal([a.tolist() for a in again], res, f"{d['kind']} sampler of {d['what']}s with the same seed {seed} after loading the graph again")
    if hit:
        c.note(case)


@st.composite
def frequency_cases(draw):
    g, lay = draw(some_graph(big_ids=False))
    d = {"what": draw(st.sampled_from(["node", "edge"])), "kind": draw(st.sampled_from(KINDS))}
    if d["kind"] == "withoutreplacement":
        # draws over several types or partitions of one engine: finding C21-1
        d["types"] = draw(st.integers(0, 2))
        lay = draw(en.layouts(g, max_parts=3))
        b = draw(en.backends(lay["parts"], ("memory", "disk", "remote") if lay["parts"] == 1 else ("remote",)))
        if b["kind"] == "remote":
            b["shards"] = lay["parts"]
    else:
        d["types"] = draw(st.one_of(st.just(-1), st.just(-1), st.lists(st.integers(0, 3), min_size=1, max_size=3)))
        b = draw(en.backends(lay["parts"]))
    return {
        "graph": g, "layout": lay, "backend": b, "draw": d, "count": draw(st.integers(1, 8)),
        "seed": draw(st.integers(0, 2**62)),
    }


def frequencies(case, tmp):
    d = case["draw"]
    pop = population(case["graph"], d["what"], d["types"])
    weights = collections.Counter()
    for x, w in pop:
        weights[x] += w if d["kind"] == "weighted" else 1
    total = sum(weights.values())
    if not total:
        return
    folder = en.store(case["graph"], case["layout"], tmp)
    wo = d["kind"] == "withoutreplacement"
    k, calls = (min(case["count"], len(weights)), 2000) if wo else (case["count"] * 8, 250)
    seeds = np.random.default_rng(case["seed"]).integers(0, 2**62, calls)
    counts = {x: np.zeros(calls) for x in weights}
    with en.opened(folder, case["layout"]["parts"], case["backend"]) as cl:
        with sut("sampling"):
            s = sampler(cl, d)
            for i, seed in enumerate(seeds):
                for x in zip(*(a.tolist() for a in s.sample(k, int(seed)))):
                    require(x in counts, lambda: f"drew {x} from {sorted(counts)}")
                    counts[x][i] += 1
    for x, w in weights.items():
        p = w / total
        expected = k * p
        got = counts[x]
        base = expected * (1 - p) if not wo else expected * (1 - expected)
        err = 6 * np.sqrt(max(float(got.var()), base) / calls) + 1e-4 * k
        require(
            abs(got.mean() - expected) <= err,
            lambda: f"{d['kind']} sampling of {k} {d['what']}s of types {d['types']} from {sorted(weights.items())}: {x} "
            f"came {got.mean():.4f} times on average of {calls}, expected {expected:.4f} +- {err:.4f}",
        )
    if len(weights) > 1:
        c.note(case)


c.campaign("sound", cases(), body, 500, 8000)
c.campaign("frequencies", frequency_cases(), frequencies, 120, 2000)
c.known_case(
    "C21-1",
    "frequencies",
    {
        "graph": {
            "nodes": [{"id": i, "type": t, "weight": 1.0, "features": [], "edges": []} for i, t in enumerate([0, 1, 1, 1])],
            "node_specs": [], "edge_specs": [],
        },
        "layout": {"how": "whole", "parts": 1, "nodes": [0, 0, 0, 0]},
        "backend": {"kind": "memory"},
        "draw": {"what": "node", "kind": "withoutreplacement", "types": -1},
        "count": 3,
        "seed": 0,
    },
)

if __name__ == "__main__":
    c.main()
